package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// placer changes values where they lie in memory.
type placer struct {
	a    *simrt.Aux
	muts []func() string
	n    int
}

// mutate changes one thing somewhere in v and says what.
func (p *placer) mutate(v reflect.Value) string {
	p.muts, p.n = nil, 0
	p.walk(v, 0)
	if len(p.muts) == 0 {
		return ""
	}
	return p.muts[p.a.Intn(len(p.muts))]()
}

func (p *placer) add(f func() string) {
	if len(p.muts) < 200 {
		p.muts = append(p.muts, f)
	}
}

func (p *placer) walk(v reflect.Value, depth int) {
	if p.n++; depth > 12 || p.n > 400 || !v.IsValid() {
		return
	}
	t := v.Type()
	switch t {
	case reflect.TypeFor[time.Time](), reflect.TypeFor[jsoncolor.Number]():
		return
	case reflect.TypeFor[jsoncolor.RawMessage]():
		b := v.Bytes()
		if len(b) == 0 {
			return
		}
		p.add(func() string { // another number
			for i, k := p.a.Intn(len(b)), 0; k < len(b); i, k = (i+1)%len(b), k+1 {
				if '1' <= b[i] && b[i] <= '8' {
					b[i]++
					return "a digit of a raw message"
				}
			}
			return ""
		})
		p.add(func() string { // damage
			b[p.a.Intn(len(b))] = "#,:]}[\" 1"[p.a.Intn(9)]
			return "a byte of a raw message"
		})
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.CanSet() {
			p.add(func() string { v.SetBool(!v.Bool()); return "a bool" })
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			p.add(func() string { v.SetInt(v.Int() ^ 1); return "a number" })
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if v.CanSet() {
			p.add(func() string { v.SetUint(v.Uint() ^ 1); return "a number" })
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			p.add(func() string { v.SetFloat(-v.Float() + 1); return "a float" })
		}
	case reflect.String:
		if v.CanSet() {
			p.add(func() string { v.SetString(p.other(v.String())); return "a string" })
		}
	case reflect.Pointer:
		if !v.IsNil() {
			p.walk(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		p.walk(v.Elem(), depth+1)
		if !v.CanSet() {
			return
		}
		switch x := v.Elem().Interface().(type) {
		case string:
			p.add(func() string { v.Set(reflect.ValueOf(p.other(x))); return "a string in an interface" })
		case float64:
			p.add(func() string { v.Set(reflect.ValueOf(x + 1)); return "a number in an interface" })
		case int:
			p.add(func() string { v.Set(reflect.ValueOf(x + 1)); return "a number in an interface" })
		}
	case reflect.Slice, reflect.Array:
		step := 1 + v.Len()/20
		for i := 0; i < v.Len(); i += step {
			p.walk(v.Index(i), depth+1)
		}
		if t.Kind() == reflect.Slice && v.CanSet() && v.Len() > 0 {
			p.add(func() string { v.SetLen(v.Len() - 1); return "the length of a slice" })
		}
		if v.Len() > 1 && v.Index(0).CanSet() {
			p.add(func() string {
				x := reflect.New(t.Elem()).Elem()
				x.Set(v.Index(0))
				v.Index(0).Set(v.Index(v.Len() - 1))
				v.Index(v.Len() - 1).Set(x)
				return "the order of a slice"
			})
		}
	case reflect.Map:
		if v.Len() == 0 {
			return
		}
		keys := v.MapKeys()
		switch t.Key().Kind() {
		case reflect.String:
			sortValues(keys, func(k reflect.Value) string { return k.String() })
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sortValues(keys, func(k reflect.Value) string { return fmt.Sprintf("%09d", k.Int()+1<<30) })
		default:
			return
		}
		k := keys[p.a.Intn(len(keys))]
		p.walk(v.MapIndex(k), depth+1) // only what it points to
		p.add(func() string {          // another value
			x := reflect.New(t.Elem()).Elem()
			x.Set(v.MapIndex(k))
			q := &placer{a: p.a}
			if q.mutate(x) == "" {
				return ""
			}
			v.SetMapIndex(k, x)
			return "a member of a map"
		})
		p.add(func() string { // another key
			nk := reflect.New(t.Key()).Elem()
			if nk.Kind() == reflect.String {
				nk.SetString(p.other(k.String()))
			} else {
				nk.SetInt(k.Int() ^ 1)
			}
			if v.MapIndex(nk).IsValid() {
				return ""
			}
			x := v.MapIndex(k)
			v.SetMapIndex(k, reflect.Value{})
			v.SetMapIndex(nk, x)
			return "a key of a map"
		})
		if v.Len() > 1 {
			p.add(func() string {
				k2 := keys[p.a.Intn(len(keys))]
				x, y := v.MapIndex(k), v.MapIndex(k2)
				v.SetMapIndex(k, y)
				v.SetMapIndex(k2, x)
				return "two members of a map swapped"
			})
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				p.walk(v.Field(i), depth+1)
			}
		}
	}
}

// other is another string, mostly of the same length.
func (p *placer) other(s string) string {
	if len(s) == 0 || p.a.Intn(4) == 0 {
		return s + "~"
	}
	b := []byte(s)
	i := p.a.Intn(len(b))
	if b[i] < 0x80 {
		b[i] = "xyz<\"\n"[p.a.Intn(6)]
	}
	return string(b)
}

func sortValues(vs []reflect.Value, key func(reflect.Value) string) {
	for i := 1; i < len(vs); i++ {
		for j := i; j > 0 && key(vs[j]) < key(vs[j-1]); j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
}

// deepCopy copies what exported fields, pointers, slices, maps and interfaces
// lead to.
func deepCopy(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	t := v.Type()
	out := reflect.New(t).Elem()
	out.Set(v)
	switch t {
	case reflect.TypeFor[time.Time]():
		return out
	}
	switch t.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(t.Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			out.Set(p.Convert(t))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deepCopy(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(t, v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(deepCopy(v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(t)
			for it := v.MapRange(); it.Next(); {
				m.SetMapIndex(it.Key(), deepCopy(it.Value()))
			}
			out.Set(m)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() && out.Field(i).CanSet() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	}
	return out
}

// c08place encodes a value that is changed in place between the calls: its
// parts stay where they are in memory, and often as long as they were.
func c08place(r *R) {
	genPoolMode(r)
	a := simrt.NewAux()
	var pv reflect.Value
	switch r.Pick(3, 3, 3) {
	case 0:
		t := anyTypeAt(r)
		pv = reflect.New(t)
		f := &filler{a: a, budget: 60}
		f.fill(pv.Elem(), 0)
	case 1:
		o := &genOpts{depth: 1 + r.Choose(4), big: 200, budget: 30}
		if r.OneIn(6) {
			o.big = 20000
		}
		x := genValue(r, o, 0).Any(false)
		pv = reflect.ValueOf(&x)
	case 2:
		n := []int{1, 5, 30, 200, 3000}[r.Choose(5)]
		text := bulkString(r, n, r.Choose(4))
		ints := make([]int, 1+n/10)
		strs := make([]string, 1+n/10)
		im, sm := map[int]int{}, map[string]string{}
		am, rm := map[string]any{}, map[string]jsoncolor.RawMessage{}
		raw := []byte("[")
		for i := range ints {
			ints[i] = a.Intn(1000)
			strs[i] = string(rune('a'+a.Intn(26))) + text[:min(len(text), a.Intn(20))]
			im[i] = ints[i]
			sm[strs[i]] = strs[i]
			am[strs[i]] = ints[i : i+1]
			raw = fmt.Appendf(raw, `{"k":%d}, `, ints[i])
			rm[strs[i]] = jsoncolor.RawMessage(fmt.Sprintf("[%d,1]", ints[i]))
		}
		raw = append(raw, '1', ']')
		var x any
		switch r.Choose(9) {
		case 0:
			x = []byte(text)
		case 1:
			x = jsoncolor.RawMessage(raw)
		case 2:
			x = ints
		case 3:
			x = strs
		case 4:
			x = im
		case 5:
			x = sm
		case 6:
			x = am
		case 7:
			x = rm
		case 8:
			x = text
		}
		switch r.Choose(4) {
		case 1:
			x = []any{x, 1}
		case 2:
			x = map[string]any{"in": x}
		case 3:
			x = &tWrap{V: x}
		}
		pv = reflect.New(reflect.TypeOf(x))
		pv.Elem().Set(reflect.ValueOf(x))
	}
	byPtr := r.OneIn(2)
	cfg := genCfg(r)
	w := &simWriter{r: r}
	enc := jsoncolor.NewEncoder(w)
	cfg.apply(enc)
	col, in := mkColors(cfg.colors), cfg.indenter()
	type rec struct {
		copy      any
		cfg       encCfg
		out       []byte
		errs, pan string
		what      string
	}
	var recs []rec
	r.nontrivial = true
	n := 2 + r.Choose(4)
	pl := &placer{a: a}
	for i := 0; i < n; i++ {
		what := "as made"
		if i > 0 {
			what = ""
			for k := 1 + a.Intn(2); k > 0; k-- {
				what += " " + pl.mutate(pv.Elem())
			}
			r.Count("reach.changed_in_place")
		}
		get := func(p reflect.Value) any {
			if byPtr {
				return p.Interface()
			}
			return p.Elem().Interface()
		}
		cp := reflect.New(pv.Type().Elem())
		cp.Elem().Set(deepCopy(pv.Elem()))
		x := rec{copy: get(cp), cfg: cfg}
		v := get(pv)
		var err error
		var p any
		switch r.Choose(3) {
		case 0:
			w.calls, w.next = nil, wOK
			p = guarded(func() { err = enc.Encode(v) })
			if len(w.calls) == 1 {
				x.out = bytes.TrimSuffix(w.calls[0], []byte("\n"))
			}
		case 1:
			p = guarded(func() { x.out, err = jsoncolor.Append(nil, v, cfg.flags(), col, in) })
		case 2:
			x.cfg = encCfg{}
			p = guarded(func() { x.out, err = jsoncolor.Marshal(v) })
		}
		x.errs = errText(err)
		if p != nil {
			x.pan = fmt.Sprintf("%T %v", p, p)
		}
		if p != nil || err != nil {
			x.out = nil
		}
		x.out = append([]byte(nil), x.out...)
		simrt.NoteBytes(x.out)
		x.what = fmt.Sprintf("call %d of %s, changed in place: %s (%s)", i, short(pv.Type().Elem().String(), 80), strings.TrimSpace(what), x.cfg)
		r.Trace("%s -> %s error %q panic %q", x.what, q(x.out), x.errs, x.pan)
		recs = append(recs, x)
	}
	r.Sample("%d calls, last %s -> %s", n, recs[n-1].what, short(string(recs[n-1].out), 100))
	for _, x := range recs {
		out, errs, pan := pristine(x.cfg, x.copy)
		if errs != "" || pan != "" {
			out = nil
		}
		if errs != "" && x.errs == "" && x.pan == "" {
			r.Fail("swallowed", "%s gave %s and no error; alone it gives error %q", x.what, q(x.out), errs)
		}
		same := bytes.Equal(x.out, out)
		if x.cfg.noSort {
			same = loose(x.out) == loose(out)
			if x.errs != "" && errs != "" { // which one is met first depends on the order
				errs = x.errs
			}
		}
		if x.errs != errs || x.pan != pan || !same {
			r.Fail("history", "%s gave %s error %q panic %q; alone it gives %s error %q panic %q", x.what, q(x.out), x.errs, x.pan, q(out), errs, pan)
		}
	}
}
