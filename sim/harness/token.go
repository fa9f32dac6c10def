package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// surelyBad reports whether b contains something that cannot be a sequence of
// JSON tokens with balanced delimiters: an impossible byte, an unfinished or
// invalid string, number or literal, a closing delimiter without its opening
// one, a comma outside of arrays and objects. Unclosed delimiters at the end
// are not reported.
func surelyBad(b []byte) string {
	var stack []byte
	digit := func(i int) bool { return i < len(b) && b[i] >= '0' && b[i] <= '9' }
	for i := 0; i < len(b); {
		switch c := b[i]; {
		case isSpace(c), c == ':':
			i++
		case c == '{', c == '[':
			stack = append(stack, c)
			i++
		case c == '}', c == ']':
			if len(stack) == 0 || stack[len(stack)-1] != c-2 {
				return fmt.Sprintf("unbalanced %c at %d", c, i)
			}
			stack = stack[:len(stack)-1]
			i++
		case c == ',':
			if len(stack) == 0 {
				return fmt.Sprintf("stray comma at %d", i)
			}
			i++
		case c == '"':
			j := i + 1
			for {
				if j >= len(b) {
					return fmt.Sprintf("unfinished string at %d", i)
				}
				if b[j] < 0x20 {
					return fmt.Sprintf("control character at %d", j)
				}
				if b[j] == '"' {
					break
				}
				if b[j] == '\\' {
					j++
					if j >= len(b) {
						return fmt.Sprintf("unfinished string at %d", i)
					}
					if b[j] == 'u' {
						for k := 1; k <= 4; k++ {
							if j+k >= len(b) || !bytes.ContainsRune([]byte("0123456789abcdefABCDEF"), rune(b[j+k])) {
								return fmt.Sprintf("invalid escape at %d", j)
							}
						}
						j += 4
					} else if bytes.IndexByte([]byte(`"\/bfnrt`), b[j]) < 0 {
						return fmt.Sprintf("invalid escape at %d", j)
					}
				}
				j++
			}
			i = j + 1
		case c == '-' || digit(i):
			if c == '-' {
				i++
			}
			if !digit(i) {
				return fmt.Sprintf("malformed number before %d", i)
			}
			for digit(i) {
				i++
			}
			if i < len(b) && b[i] == '.' {
				if i++; !digit(i) {
					return fmt.Sprintf("malformed number before %d", i)
				}
				for digit(i) {
					i++
				}
			}
			if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
				if i++; i < len(b) && (b[i] == '+' || b[i] == '-') {
					i++
				}
				if !digit(i) {
					return fmt.Sprintf("malformed number before %d", i)
				}
				for digit(i) {
					i++
				}
			}
		default:
			ok := false
			for _, l := range []string{"null", "true", "false"} {
				if bytes.HasPrefix(b[i:], []byte(l)) {
					i += len(l)
					ok = true
					break
				}
			}
			if !ok {
				return fmt.Sprintf("no token at %d", i)
			}
		}
	}
	return ""
}

type tok struct {
	d     byte
	v     string
	depth int
	index int
	key   bool
	flags [5]bool
	uq    string
}

func (t tok) String() string {
	return fmt.Sprintf("{delim %q value %q depth %d index %d key %v %v %q}", t.d, t.v, t.depth, t.index, t.key, t.flags, t.uq)
}

func takeTok(t *jsoncolor.Tokenizer) tok {
	x := tok{byte(t.Delim), string(t.Value), t.Depth, t.Index, t.IsKey, [5]bool{t.Value.String(), t.Value.Null(), t.Value.True(), t.Value.False(), t.Value.Number()}, ""}
	if t.Value.String() {
		x.uq = string(t.Value.Unquote())
	}
	return x
}

// tokenText is an input for a tokenizer.
func tokenText(r *R) []byte {
	var in []byte
	switch r.Pick(5, 2, 1) {
	case 1:
		in = []byte(malformed[r.Choose(len(malformed))])
		if r.OneIn(2) {
			in = append([]byte(`[{"a":[`), in...)
		}
	case 2:
		for k, m := 0, r.Choose(60); k < m; k++ {
			in = append(in, []string{"[", `{"k":`, "[1,"}[r.Choose(3)]...)
		}
	default:
		o := &genOpts{depth: r.Choose(6), big: 200, budget: 30}
		in = genStyle(r).render(nil, genValue(r, o, 0))
	}
	if r.OneIn(4) {
		in, _ = damageDoc(r, in)
		r.Count("fault.damaged_document")
	}
	return in
}

// c16weave: several tokenizers in use at once, each as if it were alone.
func c16weave(r *R) {
	genPoolMode(r)
	type use struct {
		t    *jsoncolor.Tokenizer
		in   []byte
		want []tok
		errs []string
		vals []jsoncolor.RawValue
		k    int
	}
	var texts [][]byte
	for i := 0; i < 2+r.Choose(3); i++ {
		texts = append(texts, tokenText(r))
	}
	alone := make([]use, len(texts))
	for i, in := range texts {
		simrt.Reset()
		u := use{in: in}
		t := jsoncolor.NewTokenizer(in)
		for n := 0; n < len(in)+3; n++ {
			more := t.Next()
			x := takeTokSafe(t)
			if more {
				x.uq += "+"
			}
			u.want = append(u.want, x)
			u.errs = append(u.errs, errText(t.Err))
			if !more && n > 0 && r.OneIn(2) {
				break
			}
		}
		alone[i] = u
	}
	simrt.Reset()
	n := 2 + r.Choose(3)
	us := make([]use, n)
	hist := ""
	start := func(j int) {
		i := r.Choose(len(texts))
		t := us[j].t
		us[j] = alone[i]
		if t == nil || r.OneIn(4) {
			t = jsoncolor.NewTokenizer(us[j].in)
		} else {
			t.Reset(us[j].in)
		}
		us[j].t = t
		hist += fmt.Sprintf("%d: text %d; ", j, i)
		r.Trace("tokenizer %d gets text %d %s", j, i, q(us[j].in))
	}
	for j := range us {
		start(j)
	}
	for step := 4 + r.Choose(60); step > 0; step-- {
		j := r.Choose(n)
		u := &us[j]
		if u.k == len(u.want) || r.OneIn(12) {
			if u.k < len(u.want) {
				r.Count("fault.abandoned_tokenizer")
			}
			start(j)
			continue
		}
		for m := 1 + r.Choose(6); m > 0 && u.k < len(u.want); m-- {
			more := u.t.Next()
			x := takeTokSafe(u.t)
			if more {
				x.uq += "+"
			}
			if w := u.want[u.k]; x != w || errText(u.t.Err) != u.errs[u.k] {
				r.Fail("woven", "token %d of %s among other tokenizers: %v %s; alone: %v %s; history: %s", u.k, q(u.in), x, errText(u.t.Err), w, u.errs[u.k], hist)
			}
			u.vals = append(u.vals, u.t.Value)
			u.k++
		}
	}
	for j := range us {
		for k, v := range us[j].vals {
			if string(v) != us[j].want[k].v {
				r.Fail("value-changed", "token %d of %s became %q, was %q; history: %s", k, q(us[j].in), v, us[j].want[k].v, hist)
			}
		}
	}
	r.nontrivial = true
	r.Count("reach.woven")
	simrt.Note(uint64(len(hist)))
	r.Sample("%d tokenizers at once: %s", n, hist)
}

// c16: a reset tokenizer is a new tokenizer.
func c16(r *R) {
	r.cap = 100_000
	if r.OneIn(4) {
		c16weave(r)
		return
	}
	genPoolMode(r)
	nt := 1 + r.Choose(2)
	tz := make([]*jsoncolor.Tokenizer, nt)
	for i := range tz {
		switch r.Choose(3) {
		case 0:
			tz[i] = jsoncolor.NewTokenizer(nil)
		case 1:
			tz[i] = new(jsoncolor.Tokenizer)
		case 2:
			tz[i] = jsoncolor.NewTokenizer([]byte(`{"left":[{"over":[1,`))
			for k := r.Choose(12); k > 0; k-- {
				tz[i].Next()
			}
		}
	}
	hist := ""
	var prev, prevVal []byte // what was tokenized last, and its last value
	n := 2 + r.Choose(6)
	for i := 0; i < n; i++ {
		var in []byte
		what := "document"
		t := tz[r.Choose(nt)]
		switch r.Pick(5, 2, 1, 1, 2) {
		case 4: // memory that a tokenizer has seen
			switch r.Choose(5) {
			case 0: // the same again
				in, what = prev, "same"
			case 1: // the last value
				in, what = prevVal, "value"
			case 2: // what follows it
				if n := cap(prevVal); n <= cap(prev) && n > 0 {
					in = prev[min(len(prev), cap(prev)-n+len(prevVal)):]
				}
				what = "rest"
			case 3: // any part
				if len(prev) > 0 {
					k := r.Choose(len(prev))
					in = prev[k : k+r.Choose(len(prev)-k+1)]
				}
				what = "part"
			case 4: // other bytes in the same place
				in = prev
				for k := r.Choose(4); k > 0 && len(in) > 0; k-- {
					j := r.Choose(len(in))
					in[j] = "[]{},:\"1ae \\"[r.Choose(12)]
				}
				what = "changed"
			}
			r.Count("reach.same_memory")
		case 1:
			in = []byte(malformed[r.Choose(len(malformed))])
			if r.OneIn(2) {
				in = append([]byte(`[{"a":[`), in...)
			}
			what = "malformed"
		case 2: // deep
			for k, m := 0, r.Choose(60); k < m; k++ {
				in = append(in, []string{"[", `{"k":`, "[1,"}[r.Choose(3)]...)
			}
			what = "deep and unclosed"
		case 3:
			s := genStream(r, 3)
			in = s.b
			what = "stream"
		default:
			if r.OneIn(3) {
				g := docGen{r: r}
				in = g.any(nil)
				break
			}
			o := &genOpts{depth: r.Choose(6), big: 200, budget: 30}
			in = genStyle(r).render(nil, genValue(r, o, 0))
		}
		if r.OneIn(3) {
			in, what = damageDoc(r, in)
			r.Count("fault.damaged_document")
		}
		prev, prevVal = in, nil
		steps := simrt.Steps()
		t.Reset(in)
		fresh := jsoncolor.NewTokenizer(in)
		stop := -1
		if r.OneIn(3) {
			stop = r.Choose(20)
			r.Count("fault.abandoned_tokenizer")
			r.nontrivial = true
		}
		hist += fmt.Sprintf("%s %s, stop %d; ", what, q(in), stop)
		var cat []byte
		k := 0
		for ; k != stop; k++ {
			if k > len(in)+1 {
				r.Fail("endless", "%d tokens from %d bytes %s", k, len(in), q(in))
			}
			a, b := t.Next(), fresh.Next()
			ta, tb := takeTokSafe(t), takeTokSafe(fresh)
			if a != b || ta != tb || errText(t.Err) != errText(fresh.Err) {
				r.Fail("reset", "token %d of %s: reset tokenizer: %v %v %s; new one: %v %v %s; history: %s", k, q(in), a, ta, errText(t.Err), b, tb, errText(fresh.Err), hist)
			}
			if !a {
				break
			}
			if ta.depth < 0 {
				r.Fail("depth", "token %d of %s has depth %d", k, q(in), ta.depth)
			}
			cat = append(cat, ta.v...)
			prevVal = t.Value
		}
		simrt.Note(uint64(k)<<20 ^ uint64(len(in)))
		r.Trace("%s: %d tokens, %v", what, k, t.Err)
		if k == stop {
			continue
		}
		bad := surelyBad(in)
		if bad != "" {
			r.nontrivial = true
			r.Count("reach.malformed_input")
			if t.Err == nil {
				r.Fail("swallowed", "%s in %s: Err is nil", bad, q(in))
			}
		}
		if json.Valid(in) && t.Err != nil {
			r.Fail("refused", "valid document %s: %v", q(in), t.Err)
		}
		if t.Err == nil {
			if want := compact(in); string(cat) != string(want) {
				r.Fail("tokens", "%s yields the tokens %s", q(in), q(cat))
			}
		}
		err := t.Err
		for j := 0; j < 2; j++ {
			if t.Next() {
				r.Fail("resumed", "after the end (%v) of %s, Next returned true: %v", err, q(in), takeTokSafe(t))
			}
			if errText(t.Err) != errText(err) {
				r.Fail("error-changed", "after the end of %s Err went from %v to %v", q(in), err, t.Err)
			}
		}
		if used := simrt.Steps() - steps; used > int64(400*(len(in)+50)) {
			r.Fail("steps", "%d statements to tokenize %d bytes %s", used, len(in), q(in))
		}
	}
	r.Sample("%s", hist)
}

func takeTokSafe(t *jsoncolor.Tokenizer) tok {
	if t.Err != nil {
		return tok{byte(t.Delim), string(t.Value), t.Depth, t.Index, t.IsKey, [5]bool{}, ""}
	}
	return takeTok(t)
}

// compact removes white space outside of strings.
func compact(b []byte) []byte {
	var out []byte
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			if c == '\\' && i+1 < len(b) {
				out = append(out, c)
				i++
				c = b[i]
			} else if c == '"' {
				in = false
			}
			out = append(out, c)
			continue
		}
		if isSpace(c) {
			continue
		}
		in = c == '"'
		out = append(out, c)
	}
	return out
}

// plainErrors reports whether values of type t are parsed directly, not from
// within JSON strings (integer keys, the string option), where a text that is
// no number is called a syntax error.
func plainErrors(t reflect.Type) bool {
	seen := map[reflect.Type]bool{}
	var ok func(t reflect.Type) bool
	ok = func(t reflect.Type) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Map:
			return t.Key().Kind() == reflect.String && ok(t.Elem())
		case reflect.Pointer, reflect.Slice, reflect.Array:
			return ok(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if strings.Contains(f.Tag.Get("json"), ",string") || !ok(f.Type) {
					return false
				}
			}
		}
		return true
	}
	return ok(t)
}

// c19: damaged documents are contained and judged consistently.
func c19(r *R) {
	genPoolMode(r)
	var text []byte
	v := JV{}
	known := false
	t := damagedTypes[r.Choose(len(damagedTypes))]
	if r.OneIn(6) {
		t = anyTypeAt(r)
	}
	switch r.Pick(10, 8, 2, 1) {
	case 3: // long and flat
		t, text = flatDoc(r)
	case 1:
		g := docGen{types: damagedTypes, unknown: true, esc: 3}
		if r.OneIn(3) {
			g.mism = 6
		}
		t, text = genDoc(r, g)
	case 2: // deep or long
		d := r.Choose(200) // decoding into any scans a container once per level around it
		for i := 0; i < d; i++ {
			text = append(text, []string{"[", `{"k":`, "[1,"}[i*7%3]...)
		}
		text = append(text, "null"...)
		for i := d - 1; i >= 0; i-- {
			text = append(text, "]}]"[i*7%3])
		}
	default:
		o := &genOpts{depth: r.Choose(6), big: 300, budget: 30}
		if r.OneIn(8) {
			o.big = 70000
		}
		v = genValue(r, o, 0)
		known = true
		text = genStyle(r).render(nil, v)
	}
	orig := text
	log := ""
	prefix := false
	switch r.Pick(2, 6, 2) {
	case 0: // a proper prefix
		if len(text) > 0 {
			text = text[:r.Choose(len(text))]
		}
		prefix = true
		log = fmt.Sprintf("truncated to %d of %d bytes", len(text), len(orig))
		r.Count("fault.truncated")
	default:
		for i, n := 0, 1+r.Choose(3); i < n; i++ {
			var w string
			if r.OneIn(3) {
				text, w = damageToken(r, append([]byte(nil), text...))
			} else {
				text, w = damageDoc(r, text)
			}
			log += w + "; "
		}
		r.Count("fault.damaged")
	}
	text = append([]byte(nil), text...)
	errUMNow = errUM
	if r.OneIn(3) && len(orig) > 0 {
		// The damage happens to memory the package has already looked at.
		mem := make([]byte, max(len(orig), len(text)))
		copy(mem, orig)
		for what, seen := r.Choose(31)+1, mem[:len(orig)]; what != 0; what &= what - 1 {
			one := what & -what
			_ = guarded(func() {
				switch one {
				case 1:
					jsoncolor.Valid(seen)
				case 2:
					var x any
					jsoncolor.Unmarshal(seen, &x)
				case 4:
					jsoncolor.Unmarshal(seen, reflectNew(t))
				case 8:
					var m jsoncolor.RawMessage
					jsoncolor.Unmarshal(seen, &m)
				case 16:
					var x any
					jsoncolor.Parse(seen, &x, jsoncolor.UseNumber|jsoncolor.ZeroCopy)
				}
			})
		}
		text = mem[:copy(mem, text)]
		log += "in memory seen before; "
		r.Count("reach.damaged_in_place")
	}
	valid := json.Valid(text)
	if prefix && known && v.K != '0' && valid {
		panic(harnessError{"a proper prefix is valid"})
	}
	var probe any
	representable := json.Unmarshal(text, &probe) == nil
	if valid {
		r.Count("reach.still_valid")
	} else {
		r.Count("reach.invalid")
	}
	r.nontrivial = true
	r.Trace("%s: %s valid=%v", log, q(text), valid)
	r.Sample("%s: %s valid=%v", log, short(fmt.Sprintf("%q", text), 200), valid)
	// Containers may be scanned again for each level around them, not more.
	lim := int64(100 * (len(text) + 100) * (nesting(text) + 10))
	judge := func(what string, fit bool, f func() error) {
		s := simrt.Steps()
		var err error
		if p := guarded(func() { err = f() }); p != nil && ourPanic(p) {
			return // damage made an Unmarshaler panic
		} else if p != nil {
			r.Fail("panic", "%s of %s (%s) panicked: %v", what, q(text), log, p)
		}
		simrt.Note(uint64(len(errText(err))))
		if used := simrt.Steps() - s; used > lim {
			r.Fail("steps", "%s took %d statements for %d bytes %s", what, used, len(text), q(text))
		}
		if err == nil && !valid {
			r.Fail("accepted", "%s accepted %s (%s), which is not JSON", what, q(text), log)
		}
		if err != nil && valid && fit {
			r.Fail("rejected", "%s rejected %s (%s), which is JSON: %v", what, q(text), log, err)
		}
	}
	once := func(ok bool) error {
		if ok {
			return nil
		}
		return errInjected
	}
	judge("Valid", true, func() error { return once(jsoncolor.Valid(text)) })
	judge("Unmarshal into any", representable, func() error {
		var x any
		err := jsoncolor.Unmarshal(text, &x)
		if err == nil && !equalAny(x, probe) && valid {
			r.Fail("value", "Unmarshal of %s gives %s, want %s", q(text), short(fmt.Sprintf("%#v", x), 400), short(fmt.Sprintf("%#v", probe), 400))
		}
		return err
	})
	judge("Unmarshal into RawMessage", true, func() error {
		var m jsoncolor.RawMessage
		return jsoncolor.Unmarshal(text, &m)
	})
	parse := func(dst any, flags jsoncolor.ParseFlags) error {
		rest, err := jsoncolor.Parse(text, dst, flags)
		if err == nil && len(bytes.TrimLeft(rest, " \t\r\n")) > 0 {
			return errInjected
		}
		return err
	}
	judge("Parse into any", true, func() error {
		var x any
		return parse(&x, jsoncolor.UseNumber)
	})
	judge("zero-copy Parse into any", true, func() error {
		var x any
		return parse(&x, jsoncolor.UseNumber|jsoncolor.DontCopyString|jsoncolor.DontCopyNumber|jsoncolor.DontCopyRawMessage)
	})
	judge("Unmarshal with an unusable destination", false, func() error { return jsoncolor.Unmarshal(text, nil) })
	typed := func(what string, f func(x any) error) {
		judge(what+" "+t.String(), false, func() error {
			err := f(reflectNew(t))
			var se *jsoncolor.SyntaxError
			if valid && plainErrors(t) && errors.As(err, &se) {
				r.Fail("rejected-typed", "%s %v calls %s (%s), which is JSON, malformed: %v", what, t, q(text), log, err)
			}
			return err
		})
	}
	typed("Parse into", func(x any) error { return parse(x, 0) })
	typed("Unmarshal into", func(x any) error { return jsoncolor.Unmarshal(text, x) })
	typed("zero-copy strict Parse into", func(x any) error {
		return parse(x, jsoncolor.DisallowUnknownFields|jsoncolor.ZeroCopy|jsoncolor.DontMatchCaseInsensitiveStructFields)
	})
	chunked := func(useNumber bool) error {
		rd := newReader(r, text)
		d := jsoncolor.NewDecoder(rd)
		if useNumber {
			d.UseNumber()
		}
		var x any
		if err := d.Decode(&x); err != nil {
			return err
		}
		var y any
		if err := d.Decode(&y); !isEOF(err) {
			return fmt.Errorf("more follows: %v", err)
		}
		return nil
	}
	lim *= 4
	judge("Decode", true, func() error { return chunked(true) })
	if prefix && known && v.K != '0' && jsoncolor.Valid(text) {
		r.Fail("prefix", "the proper prefix %s of %s is judged valid", q(text), q(orig))
	}
}

var flatTypes = []reflect.Type{
	reflect.TypeFor[[]int](), reflect.TypeFor[[]string](), reflect.TypeFor[[]bool](), reflect.TypeFor[[]float64](),
	reflect.TypeFor[[]any](), reflect.TypeFor[[]jsoncolor.RawMessage](), reflect.TypeFor[[]*int](), reflect.TypeFor[[][]int](),
	reflect.TypeFor[[8]int](), reflect.TypeFor[[]jsoncolor.Number](), reflect.TypeFor[[]struct{ A int }](),
	reflect.TypeFor[map[string]int](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[string]jsoncolor.RawMessage](),
	reflect.TypeFor[map[int]string](), reflect.TypeFor[map[string]string](), reflect.TypeFor[[]time.Time](), reflect.TypeFor[[]byte](),
	reflect.TypeFor[any](), reflect.TypeFor[struct{ A, B, C []int }](),
}

// flatDoc is a document with many small members and a type it fits into.
func flatDoc(r *R) (reflect.Type, []byte) {
	t := flatTypes[r.Choose(len(flatTypes))]
	n := []int{3, 9, 20, 45, 70, 130, 300, 1100}[r.Choose(8)]
	n += r.Choose(n)
	var one func(b []byte, t reflect.Type, i int) []byte
	one = func(b []byte, t reflect.Type, i int) []byte {
		switch t.Kind() {
		case reflect.String:
			if t == reflect.TypeFor[jsoncolor.Number]() {
				return strconv.AppendInt(b, int64(i), 10)
			}
			return strconv.AppendQuote(b, "s"+strconv.Itoa(i%100))
		case reflect.Bool:
			return strconv.AppendBool(b, i%3 == 0)
		case reflect.Interface:
			return append(b, []string{"1", `"x"`, "null", "[]", `{"a":true}`, "-0.5", "[1,2]"}[i%7]...)
		case reflect.Struct:
			if t == reflect.TypeFor[time.Time]() {
				return append(b, `"2020-02-03T04:05:06Z"`...)
			}
			return append(b, `{"a":1}`...)
		case reflect.Slice:
			if t == reflect.TypeFor[jsoncolor.RawMessage]() {
				return append(b, `[1,{}]`...)
			}
			return append(b, "[1,2]"...)
		case reflect.Pointer:
			return one(b, t.Elem(), i)
		}
		return strconv.AppendInt(b, int64(i%256), 10)
	}
	list := func(b []byte, open, end byte, key bool, num bool, e reflect.Type) []byte {
		b = append(b, open)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
				if i%16 == 0 {
					b = append(b, "\n  "[:i/16%4]...)
				}
			}
			if num {
				b = fmt.Appendf(b, `"%d":`, i)
			} else if key {
				b = fmt.Appendf(b, `"k%d":`, i)
			}
			b = one(b, e, i)
		}
		return append(b, end)
	}
	switch t.Kind() {
	case reflect.Map:
		return t, list(nil, '{', '}', true, t.Key().Kind() == reflect.Int, t.Elem())
	case reflect.Slice, reflect.Array:
		return t, list(nil, '[', ']', false, false, t.Elem())
	case reflect.Struct:
		b := []byte(`{"a":`)
		b = append(list(b, '[', ']', false, false, reflect.TypeFor[int]()), `,"c":`...)
		return t, append(list(b, '[', ']', false, false, reflect.TypeFor[int]()), '}')
	}
	if r.OneIn(2) {
		return t, list(nil, '{', '}', true, false, t)
	}
	return t, list(nil, '[', ']', false, false, t)
}

// nesting is the greatest number of delimiters open at once, strings included.
func nesting(b []byte) int {
	n, most := 0, 0
	for _, c := range b {
		switch c {
		case '[', '{':
			n++
			most = max(most, n)
		case ']', '}':
			n = max(n-1, 0)
		}
	}
	return most
}

func init() {
	register(&Scenario{ID: "C16", Run: c16, Quick: 120_000, Thorough: 4_500_000,
		Real: []string{"jsoncolor.Tokenizer, RawValue (instrumented real code)"},
		Stub: []string{"storage damage to the input, decided by the tape"},
		Rule: "one run = 2-7 inputs (documents, streams, malformed, deep and unclosed, damaged) given to one or two tokenizers through Reset, each run to its end or abandoned, compared token by token with a new tokenizer; non-trivial: a tokenizer was abandoned or met malformed input; distinct by event log"})
	register(&Scenario{ID: "C19", Run: c19, Quick: 300_000, Thorough: 11_000_000,
		Real: []string{"jsoncolor.Valid, Unmarshal, Parse, Decoder (instrumented real code)", "encoding/json.Valid as the oracle"},
		Stub: []string{"the storage damage, decided by the tape", "read fragmentation"},
		Rule: "one run = one document damaged by 1-3 faults (truncation, flips, insertions, drops, zeros, repeats, swaps, glued garbage) judged by every parsing entry point; distinct by event log"})
}
