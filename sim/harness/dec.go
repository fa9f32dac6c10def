package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
	simsync "github.com/neilotoole/jsoncolor/zz_simsync"
)

var decReal = []string{"jsoncolor.Decoder, Unmarshal, Parse, Valid, Tokenizer, codecs (instrumented real code)"}

// pristineParse decodes text from the initial package state.
func pristineParse(text []byte, t reflect.Type, flags jsoncolor.ParseFlags) (d string, errs string, pan string) {
	return pristineParseOver(nil, text, t, flags)
}

// prefill decodes pre into v, if there is anything to decode.
func prefill(pre []byte, v reflect.Value) {
	if pre != nil {
		guarded(func() { jsoncolor.Unmarshal(pre, v.Interface()) })
	}
}

// pristineParseOver is pristineParse into a destination that pre was decoded
// into before.
func pristineParseOver(pre, text []byte, t reflect.Type, flags jsoncolor.ParseFlags) (d string, errs string, pan string) {
	simrt.Reset()
	pm := simsync.PoolMode
	simsync.PoolMode = 2
	v := reflect.New(t)
	in := append([]byte(nil), text...)
	prefill(pre, v)
	p := guarded(func() {
		_, err := jsoncolor.Parse(in, v.Interface(), flags)
		errs = errText(err)
	})
	simsync.PoolMode = pm
	if p != nil {
		pan = fmt.Sprintf("%T %v", p, p)
	}
	return dump(v.Elem()), errs, pan
}

type streamDoc struct {
	text []byte
	t    reflect.Type // typed destination
	v    *JV          // known value, when made from one
}

// c05: a value that fails to decode costs exactly that value.
func c05(r *R) {
	genPoolMode(r)
	mk := func() (docs []streamDoc, data []byte) {
		n := 2 + r.Choose(6)
		for i := 0; i < n; i++ {
			var d streamDoc
			switch r.Choose(4) {
			case 0: // a document with a known value
				v := genValue(r, &genOpts{depth: r.Choose(4), big: 100, budget: 15}, 0)
				d.v = &v
				d.text = genStyle(r).render(nil, v)
				d.t = destTypes[r.Choose(len(destTypes))]
			default:
				g := docGen{unknown: true, cb: r.OneIn(2), esc: 4}
				if r.OneIn(2) {
					g.mism = 4
				}
				d.t, d.text = genDoc(r, g)
			}
			if i > 0 && r.OneIn(6) { // much like the one before
				d = streamDoc{text: similarDoc(r, docs[i-1].text), t: docs[i-1].t}
			}
			docs = append(docs, d)
			data = append(data, d.text...)
			data = append(data, "\n \t\n"[r.Choose(4)])
			if data[len(data)-1] == ' ' {
				data = append(data, "  "...)
			}
		}
		return
	}
	type side struct {
		dec   *jsoncolor.Decoder
		docs  []streamDoc
		flags jsoncolor.ParseFlags
		i     int
		name  string
	}
	var sides []*side
	ns := 1 + r.Choose(2)
	for i := 0; i < ns; i++ {
		docs, data := mk()
		rd, _ := r.dress(newReader(r, data), true)
		sides = append(sides, &side{dec: jsoncolor.NewDecoder(rd), docs: docs, name: fmt.Sprintf("decoder %d", i)})
		r.Trace("decoder %d: %s", i, q(data))
	}
	type cmp struct {
		what  string
		text  []byte
		pre   []byte
		t     reflect.Type
		flags jsoncolor.ParseFlags
		got   string
		errs  string
		pan   string
	}
	var cmps []cmp
	fails := 0
	left := ns
	for left > 0 {
		s := sides[r.Choose(len(sides))]
		if s.i > len(s.docs) {
			for _, o := range sides {
				if o.i <= len(o.docs) {
					s = o
				}
			}
		}
		if r.OneIn(4) {
			switch r.Choose(7) {
			case 0:
				s.dec.UseNumber()
				s.flags |= jsoncolor.UseNumber
			case 1:
				s.dec.DisallowUnknownFields()
				s.flags |= jsoncolor.DisallowUnknownFields
			case 2:
				s.dec.DontMatchCaseInsensitiveStructFields()
				s.flags |= jsoncolor.DontMatchCaseInsensitiveStructFields
			case 3:
				s.dec.DontCopyString()
				s.flags |= jsoncolor.DontCopyString
			case 4:
				s.dec.DontCopyNumber()
				s.flags |= jsoncolor.DontCopyNumber
			case 5:
				s.dec.DontCopyRawMessage()
				s.flags |= jsoncolor.DontCopyRawMessage
			case 6:
				s.dec.ZeroCopy()
				s.flags |= jsoncolor.ZeroCopy
			}
			r.Trace("%s: flags %d", s.name, s.flags)
		}
		if s.i == len(s.docs) {
			// the end
			var x any
			if err := s.dec.Decode(&x); err != io.EOF {
				r.Fail("end", "%s: after %d documents Decode returned %v, want io.EOF", s.name, len(s.docs), err)
			}
			s.i++
			left--
			continue
		}
		d := s.docs[s.i]
		what := fmt.Sprintf("%s document %d %s (flags %d)", s.name, s.i, q(d.text), s.flags)
		s.i++
		useNum := s.flags&jsoncolor.UseNumber != 0
		var err error
		kind := r.Choose(7)
		if d.v == nil && (kind == 1) {
			kind = 0
		}
		switch kind {
		case 1: // known value
			var x any
			if err := s.dec.Decode(&x); err != nil {
				r.Fail("lost", "%s into any: %v", what, err)
			}
			if w := d.v.Any(useNum); !equalAny(x, w) {
				r.Fail("altered", "%s into any gave %s, want %s", what, short(dumpAny(x), 300), short(dumpAny(w), 300))
			}
		case 2:
			var m jsoncolor.RawMessage
			if err := s.dec.Decode(&m); err != nil || string(m) != string(d.text) {
				r.Fail("altered", "%s into RawMessage gave %s, %v", what, q(m), err)
			}
		case 3: // bad destinations
			r.Count("fault.bad_destination")
			fails++
			switch r.Choose(5) {
			case 0:
				err = s.dec.Decode(nil)
			case 1:
				err = s.dec.Decode(tSmall{})
			case 2:
				err = s.dec.Decode((*int)(nil))
			case 3:
				var c chan int
				err = s.dec.Decode(&c)
				if string(d.text) == "null" {
					err = errInjected
				}
			case 4:
				err = s.dec.Decode(7)
			}
			if err == nil {
				r.Fail("accepted", "%s: a destination that cannot hold anything was accepted", what)
			}
		case 4: // explicit probes of the options need their own documents: see below
			fallthrough
		default:
			v := reflect.New(d.t)
			var pre []byte
			into := " into "
			if r.OneIn(5) { // a destination with something in it
				pre = similarDoc(r, d.text)
				if r.OneIn(2) && !bytes.Contains(pre, []byte("!do-")) {
					g := docGen{r: r, budget: 20, mism: 6}
					pre = g.gen(nil, d.t, 0)
				}
				prefill(pre, v)
				into = fmt.Sprintf(" after %s into ", q(pre))
			}
			p := guarded(func() { err = s.dec.Decode(v.Interface()) })
			c := cmp{what: what + into + d.t.String(), text: d.text, pre: pre, t: d.t, flags: s.flags, got: dump(v.Elem()), errs: errText(err)}
			if p != nil {
				c.pan = fmt.Sprintf("%T %v", p, p)
				if !ourPanic(p) {
					r.Fail("panic", "%s: unexpected panic %v", c.what, p)
				}
				r.Count("fault.unmarshaler_panic")
			}
			if err != nil || p != nil {
				fails++
			}
			simrt.Note(hash64(c.got + c.errs))
			r.Trace("%s -> %s, %v, panic %v", c.what, short(c.got, 200), err, p)
			cmps = append(cmps, c)
		}
	}
	// Options change what they say they change.
	probe := func(opt func(*jsoncolor.Decoder), doc string, dst func() any, wantErr bool, want string) {
		dec := jsoncolor.NewDecoder(newReader(r, []byte(doc+"\n"+doc+"\n")))
		x := dst()
		err := dec.Decode(x)
		before := dumpAny(x) + errText(err)
		opt(dec)
		x = dst()
		err = dec.Decode(x)
		if (err != nil) != wantErr || (err == nil && dumpAny(x) != want) {
			r.Fail("option", "document %s after the option was set gave %s, %v, want %s", doc, dumpAny(x), err, want)
		}
		if before == dumpAny(x)+errText(err) {
			r.Fail("option", "document %s gives the same before and after the option was set: %s", doc, before)
		}
	}
	switch r.Choose(4) {
	case 0:
		probe((*jsoncolor.Decoder).UseNumber, `{"x":[1.50]}`, func() any { return new(any) }, false, `&(map[string]interface {})map["x"=([]interface {})[(json.Number)"1.50"]]`)
	case 1:
		probe((*jsoncolor.Decoder).DisallowUnknownFields, `{"a":1,"zzz":{"a":2}}`, func() any { return new(tSmall) }, true, "")
	case 2:
		probe((*jsoncolor.Decoder).DontMatchCaseInsensitiveStructFields, `{"A":5}`, func() any { return new(tSmall) }, false, `&{}`)
	}
	r.nontrivial = fails > 0
	if len(cmps) > 0 {
		r.Sample("%d decoders, %d failing decodes, e.g. %s -> %s %s %s", ns, fails, cmps[0].what, short(cmps[0].got, 100), cmps[0].errs, cmps[0].pan)
	}
	for _, c := range cmps {
		d, errs, pan := pristineParseOver(c.pre, c.text, c.t, c.flags)
		if c.errs != errs || c.pan != pan || c.got != d {
			r.Fail("altered", "%s gave %s, error %q panic %q; alone it gives %s, error %q panic %q", c.what, c.got, c.errs, c.pan, d, errs, pan)
		}
	}
}

// c06: decoded values stay what they were, input is never written.
func c06(r *R) {
	genPoolMode(r)
	mem := getArena()
	r.Defer(func() { mem.protect(protRW) })
	type keptv struct {
		v    reflect.Value
		dump string
		err  error
		errs string
		what string
	}
	var keep []keptv
	check := func(when string) {
		for _, k := range keep {
			if k.v.IsValid() {
				if d := dump(k.v); d != k.dump {
					r.Fail("value-changed", "%s: the result of %s changed from %s to %s", when, k.what, short(k.dump, 600), short(d, 600))
				}
			}
			if k.err != nil && errText(k.err) != k.errs {
				r.Fail("error-changed", "%s: the error of %s changed from %q to %q", when, k.what, k.errs, errText(k.err))
			}
		}
	}
	type item struct {
		t     reflect.Type
		orig  []byte
		in    []byte
		entry int
		flags jsoncolor.ParseFlags
		again []byte
	}
	allFlags := []jsoncolor.ParseFlags{0, 0, 0, jsoncolor.UseNumber, jsoncolor.DontCopyString, jsoncolor.DontCopyNumber | jsoncolor.UseNumber, jsoncolor.DontCopyRawMessage, jsoncolor.ZeroCopy, jsoncolor.ZeroCopy | jsoncolor.UseNumber, jsoncolor.DontCopyNumber | jsoncolor.DontCopyRawMessage}
	var items []item
	n := 1 + r.Choose(5)
	var stream []byte
	for i := 0; i < n; i++ {
		g := docGen{esc: []int{0, 2, 5}[r.Choose(3)], unknown: r.OneIn(3)}
		if r.OneIn(4) {
			g.mism = 5
		}
		t, text := genDoc(r, g)
		if r.OneIn(10) {
			m := malformed[r.Choose(len(malformed))]
			text = append(append([]byte(`{"k":`), m...), '}')
			r.Count("fault.malformed_document")
		}
		it := item{t: t, orig: text, entry: r.Choose(5), flags: allFlags[r.Choose(len(allFlags))]}
		it.in = mem.put(text, r.Choose(3)*20)
		if r.OneIn(3) {
			// another document for the same destination
			g := docGen{r: r, esc: 3, budget: 25}
			it.again = mem.put(g.gen(nil, t, 0), 20)
		}
		items = append(items, it)
		stream = append(append(stream, text...), '\n')
	}
	mem.protect(protRO)
	r.nontrivial = true
	r.Sample("%d documents, first %s into %s by entry %d flags %d", n, q(items[0].orig), items[0].t, items[0].entry, items[0].flags)
	var tmp []reflect.Value
	_ = tmp
	scribble := byte(0)
	for i, it := range items {
		v := reflect.New(it.t)
		var err error
		var rest []byte
		what := fmt.Sprintf("document %d %s into %s flags %d", i, q(it.orig), it.t, it.flags)
		zero := it.flags&jsoncolor.ZeroCopy != 0
		switch it.entry {
		case 0:
			err = jsoncolor.Unmarshal(it.in, v.Interface())
			zero = false
			it.flags = 0
			what += " Unmarshal"
		case 4:
			jsoncolor.Valid(it.in)
			tk := jsoncolor.NewTokenizer(it.in)
			for tk.Next() {
				if tk.Value.String() {
					tk.Value.Unquote()
				}
			}
			continue
		default:
			rest, err = jsoncolor.Parse(it.in, v.Interface(), it.flags)
			_ = rest
			what += " Parse"
		}
		k := keptv{v: v.Elem(), dump: dump(v.Elem()), err: err, errs: errText(err), what: what}
		simrt.Note(hash64(k.dump + k.errs))
		r.Trace("%s -> %s, %s", what, short(k.dump, 200), k.errs)
		// With or without the zero-copy options, the values are the same.
		if zero {
			d, errs, _ := pristineParseKeep(it.orig, it.t, it.flags&^jsoncolor.ZeroCopy)
			if d != k.dump || errs != k.errs {
				r.Fail("zero-copy", "%s gave %s, %q; without zero-copy %s, %q", what, k.dump, k.errs, d, errs)
			}
			// It stays valid while the rest of the package is used.
			var x any
			jsoncolor.Unmarshal([]byte(`{"other":"document","n":[1,2,3,"\n"]}`), &x)
			jsoncolor.Marshal(x)
			if d := dump(v.Elem()); d != k.dump {
				r.Fail("value-changed", "%s changed while the input was untouched: %s became %s", what, k.dump, d)
			}
			k.v = reflect.Value{}
		}
		if it.again != nil && !zero {
			// What was taken out of the destination stays when it is used again.
			leaves := reflect.ValueOf(byteLeaves(v.Elem(), nil, 0))
			l := keptv{v: leaves, dump: dump(leaves), errs: errText(nil), what: "texts of " + what}
			jsoncolor.Parse(it.again, v.Interface(), it.flags)
			k.v = reflect.Value{}
			keep = append(keep, l)
			r.Count("reach.destination_again")
			check(fmt.Sprintf("after %s was decoded into the same destination", q(it.again)))
		}
		keep = append(keep, k)
	}
	// The input is reused.
	mem.protect(protRW)
	for i := range items {
		in := items[i].in
		if string(in) != string(items[i].orig) {
			r.Fail("input-changed", "input %s became %s", q(items[i].orig), q(in))
		}
		full := in[:cap(in)]
		for j := len(in); j < cap(in) && j < len(in)+20; j++ {
			if full[j] != 0xA5 {
				r.Fail("input-changed", "spare capacity behind input %s was written", q(in))
			}
		}
		scribble = []byte{'x', 0, '"', '9'}[r.Choose(4)]
		for j := range full {
			full[j] = scribble
		}
	}
	check("after the input was overwritten")
	mem.protect(protNone) // touching the input now is a fault
	check("after the input was released")

	// A stream: values stay while the decoder reads on.
	keep = nil
	if r.OneIn(4) { // ends inside a value, or with a number
		stream = append(stream, []string{"1", "-0.5e1", "[1,2", `{"a":{"b`, `"abc`, "tru", "  \t12345"}[r.Choose(7)]...)
		r.Count("fault.truncated_stream")
	}
	rd := newReader(r, stream)
	in, _ := r.dress(rd, true)
	dec := jsoncolor.NewDecoder(in)
	zero := r.OneIn(3)
	if zero {
		dec.ZeroCopy()
	}
	if r.OneIn(3) {
		dec.UseNumber()
	}
	same := r.OneIn(3) // one variable for all
	var v reflect.Value
	for i, it := range items {
		if i == 0 || !same {
			v = reflect.New(it.t)
			if r.OneIn(3) {
				v = reflect.New(reflect.TypeFor[any]())
			}
		}
		err := dec.Decode(v.Interface())
		k := keptv{v: v.Elem(), dump: dump(v.Elem()), err: err, errs: errText(err), what: fmt.Sprintf("Decode %d of %s", i, q(it.orig))}
		if zero {
			var x any
			d2 := jsoncolor.NewDecoder(strings.NewReader(`["another","decoder",{"in":"between"}]`))
			d2.Decode(&x)
			jsoncolor.Marshal(x)
			io.ReadAll(dec.Buffered())
			if d := dump(v.Elem()); d != k.dump {
				r.Fail("value-changed", "%s (zero-copy) changed before the next Decode: %s became %s", k.what, k.dump, d)
			}
			k.v = reflect.Value{}
		} else if same {
			k.v = reflect.ValueOf(byteLeaves(v.Elem(), nil, 0))
			k.dump = dump(k.v)
		}
		keep = append(keep, k)
		check(fmt.Sprintf("after Decode %d", i))
		if err != nil && rd.eofs > 0 {
			break
		}
	}
	for i := 0; i < 2; i++ {
		var x any
		dec.Decode(&x)
	}
	check("at the end of the stream")
	if r.dressed != nil {
		if !bytes.Equal(r.dressed, stream) {
			r.Fail("input-changed", "the memory behind the reader became %s, was %s", q(r.dressed), q(stream))
		}
		for i := range r.dressed[:cap(r.dressed)] {
			r.dressed[:cap(r.dressed)][i] = '#'
		}
		check("after the memory behind the reader was overwritten")
		r.Count("reach.reader_memory_reused")
	}
}

// byteLeaves collects the strings, numbers and raw messages in v, as a program
// that copies them out of it has them.
func byteLeaves(v reflect.Value, l []any, depth int) []any {
	if len(l) >= 100 || depth > 20 {
		return l
	}
	switch v.Kind() {
	case reflect.String:
		if v.CanInterface() {
			l = append(l, v.String())
		}
	case reflect.Slice:
		if v.Type() == reflect.TypeFor[jsoncolor.RawMessage]() {
			if v.CanInterface() {
				l = append(l, v.Interface())
			}
			return l
		}
		for i := 0; i < min(v.Len(), 100); i++ {
			l = byteLeaves(v.Index(i), l, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			l = byteLeaves(v.Index(i), l, depth+1)
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			l = byteLeaves(v.Elem(), l, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				l = byteLeaves(v.Field(i), l, depth+1)
			}
		}
	case reflect.Map:
		var texts []string
		byText := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			t := fmt.Sprint(k.Interface())
			texts = append(texts, t)
			byText[t] = k
		}
		sort.Strings(texts)
		for _, t := range texts {
			l = byteLeaves(byText[t], l, depth+1)
			l = byteLeaves(v.MapIndex(byText[t]), l, depth+1)
		}
	}
	return l
}

// pristineParseKeep is pristineParse without touching package state that the
// running history depends on.
func pristineParseKeep(text []byte, t reflect.Type, flags jsoncolor.ParseFlags) (string, string, string) {
	v := reflect.New(t)
	var errs string
	_, err := jsoncolor.Parse(append([]byte(nil), text...), v.Interface(), flags)
	errs = errText(err)
	return dump(v.Elem()), errs, ""
}

// c17dec: a failing Unmarshaler fails the whole.
func c17dec(r *R) {
	genPoolMode(r)
	// a document for a container of callbacks with one that fails
	type shape struct {
		t    reflect.Type
		pre  string
		post string
		text bool // TextUnmarshaler
	}
	shapes := []shape{
		{reflect.TypeFor[um](), ``, ``, false},
		{reflect.TypeFor[*um](), ``, ``, false},
		{reflect.TypeFor[ut](), ``, ``, true},
		{reflect.TypeFor[[]um](), `["a",`, `,{"b":1}]`, false},
		{reflect.TypeFor[[]um](), `[`, `]`, false},
		{reflect.TypeFor[[2]um](), `["x",`, `]`, false},
		{reflect.TypeFor[map[string]um](), `{"a":1,"b":`, `,"c":2}`, false},
		{reflect.TypeFor[map[string]um](), `{"b":`, `}`, false},
		{reflect.TypeFor[map[string]*ut](), `{"b":`, `}`, true},
		{reflect.TypeFor[map[int][]ut](), `{"5":["x",`, `]}`, true},
		{reflect.TypeFor[tBig](), `{"I":1,"UM":`, `,"S":"x"}`, false},
		{reflect.TypeFor[tBig](), `{"UP":`, `}`, false},
		{reflect.TypeFor[*tBig](), `{"UT":`, `,"I":5}`, true},
		{reflect.TypeFor[[]map[string][]*um](), `[{},{"q":[1,`, `,2]},{}]`, false},
		{reflect.TypeFor[struct {
			A struct{ B *struct{ C um } }
		}](), `{"A":{"B":{"C":`, `}}}`, false},
		{reflect.TypeFor[struct {
			X  int
			In **um
		}](), `{"X":1,"In":`, `}`, false},
		{reflect.TypeFor[map[utKey]int](), `{"a":1,`, `:2}`, true},
		{reflect.TypeFor[struct{ tEmbU }](), `{"V":`, `,"W":1}`, false},
		{reflect.TypeFor[struct{ *TEmbUP }](), `{"W":1,"V":`, `}`, false},
		{reflect.TypeFor[any](), ``, ``, false},
	}
	s := shapes[r.Choose(len(shapes)-1)]
	if w := r.Wide(); w > 0 {
		// among many others
		after := []int{0, 1, w}[r.Choose(3)]
		switch r.Choose(6) {
		case 0:
			s = shape{reflect.TypeFor[[]um](), "[" + strings.Repeat(`"w",`, w), strings.Repeat(`,"x"`, after) + "]", false}
		case 1:
			s = shape{reflect.TypeFor[[]*ut](), "[" + strings.Repeat(`"w",`, w), strings.Repeat(`,"x"`, after) + "]", true}
		case 2:
			s = shape{reflect.TypeFor[map[string]um](), "{" + strings.Repeat(`"w":1,`, w) + `"bad":`, strings.Repeat(`,"x":[]`, after) + "}", false}
		case 3:
			s = shape{reflect.TypeFor[map[string][]ut](), `{"k":[` + strings.Repeat(`"w",`, w), strings.Repeat(`,"x"`, after) + "]}", true}
		case 4:
			s = shape{reflect.TypeFor[tBig](), `{` + strings.Repeat(`"other":{"UM":5},`, w) + `"UM":`, strings.Repeat(`,"z":0`, after) + "}", false}
		case 5:
			s = shape{reflect.TypeFor[deepU](), strings.Repeat(`{"N":`, w) + `{"U":`, strings.Repeat(`}`, w+1), false}
		}
	}
	doPanic := r.OneIn(3)
	errUMNow = genUserErr(r)
	errWas := errUMNow.Error()
	r.Defer(func() { errUMNow = errUM })
	bad := `"!do-fail"`
	if doPanic {
		bad = `"!do-panic"`
	} else if r.OneIn(2) {
		// it refuses something less conspicuous
		tr := umTriggers[r.Choose(len(umTriggers))]
		if !s.text || tr[0][0] == '"' {
			bad, umTrigger, utTrigger, umTriggerOn = tr[0], tr[0], tr[1], true
			r.Defer(func() { umTriggerOn = false })
		}
	}
	doc := []byte(s.pre + bad + s.post)
	flags := []jsoncolor.ParseFlags{0, 0, jsoncolor.ZeroCopy, jsoncolor.UseNumber, jsoncolor.DisallowUnknownFields &^ 1, jsoncolor.DontMatchCaseInsensitiveStructFields}[r.Choose(6)]
	entry := r.Choose(3)
	v := reflect.New(s.t)
	var dst any = v.Interface()
	if r.OneIn(4) { // behind an interface holding a pointer
		var x any = dst
		dst = &x
	}
	var err error
	var dec *jsoncolor.Decoder
	p := guarded(func() {
		switch entry {
		case 0:
			err = jsoncolor.Unmarshal(doc, dst)
		case 1:
			_, err = jsoncolor.Parse(doc, dst, flags)
		case 2:
			dec = jsoncolor.NewDecoder(newReader(r, append(append([]byte(nil), doc...), "\n[\"next\"]\n"...)))
			if flags&jsoncolor.UseNumber != 0 {
				dec.UseNumber()
			}
			err = dec.Decode(dst)
		}
	})
	r.Count("fault.unmarshaler_" + map[bool]string{true: "panic", false: "failure"}[doPanic])
	r.nontrivial = true
	what := fmt.Sprintf("%s of %s into %s", []string{"Unmarshal", "Parse", "Decode"}[entry], doc, s.t)
	r.Trace("%s -> %v panic %v", what, err, p)
	r.Sample("%s -> %v panic %v", what, err, p)
	if doPanic {
		if !ourPanic(p) {
			r.Fail("panic-swallowed", "%s: the Unmarshaler panicked, the caller saw %v, error %v", what, p, err)
		}
	} else {
		if p != nil {
			r.Fail("panic", "%s panicked: %v", what, p)
		}
		if err == nil {
			r.Fail("swallowed", "%s returned no error, stored %s", what, dump(v.Elem()))
		}
		if !errors.Is(err, errUMNow) {
			r.Fail("error-changed", "%s: the Unmarshaler failed with %q, the caller got %q", what, errWas, err)
		}
	}
	if dec != nil {
		var x any
		if err := dec.Decode(&x); err != nil || dumpAny(x) != `([]interface {})["next"]`[len("([]interface {})")-0:] && !equalAny(x, []any{"next"}) {
			r.Fail("unusable", "%s: the next Decode gave %s, %v", what, dumpAny(x), err)
		}
	}
	umTriggerOn = false
	// The package stays usable.
	good := []byte(s.pre + `"fine"` + s.post)
	v2 := reflect.New(s.t)
	if err := jsoncolor.Unmarshal(good, v2.Interface()); err != nil {
		r.Fail("unusable", "after %s, %s into %s fails: %v", what, good, s.t, err)
	}
}

type utKey struct{ S string }

func (k *utKey) UnmarshalText(b []byte) error {
	var u ut
	if err := u.UnmarshalText(b); err != nil {
		return err
	}
	k.S = u.Got
	return nil
}

func (k utKey) MarshalText() ([]byte, error) { return []byte(k.S), nil }

type deepU struct {
	N *deepU
	U um
}

type tEmbU struct {
	V um
	W int
}

type TEmbUP struct {
	V *um
	W int
}

func init() {
	register(&Scenario{ID: "C05", Run: c05, Quick: 400_000, Thorough: 12_000_000, Real: decReal,
		Stub: []string{"io.Reader (simulated transport)", "user Unmarshalers (fail, panic, re-enter)"},
		Rule: "one run = one or two interleaved decoders over streams of 2 to 7 documents, each decoded into a fitting, failing, panicking or impossible destination with option switches in between; every result compared with the generator's value or with Parse of the same text from pristine package state; non-trivial: at least one decode failed, distinct by event log"})
	register(&Scenario{ID: "C06", Run: c06, Quick: 400_000, Thorough: 15_000_000, Real: decReal,
		Stub: []string{"memory of the input: read-only pages, later overwritten, later inaccessible", "io.Reader (simulated transport)", "sync.Pool (reuse decided by the tape)"},
		Rule: "one run = 1 to 5 documents decoded from read-only pages by every entry point and flag set, values re-examined after the input was overwritten and then unmapped, then decoded again as a stream; distinct by event log"})
}

func reflectNew(t reflect.Type) any { return reflect.New(t).Interface() }
