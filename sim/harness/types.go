package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
	simsync "github.com/neilotoole/jsoncolor/zz_simsync"
)

// ---- types to meet for the first time

type TEmb struct {
	E1 int    `json:"e1"`
	E2 string `json:",omitempty"`
}

type tLoop struct {
	N    int
	Self map[string]tLoop `json:",omitempty"`
	L    []tLoop          `json:"l,omitempty"`
	P    **tLoop          `json:",omitempty"`
	Any  any
}

type tTriA struct {
	A int
	B *tTriB
	J *mjP `json:",omitempty"`
}

type tTriB struct {
	C []tTriC
	M mjP
}

type tTriC struct {
	A map[string]*tTriA
	T mtP
	S string `json:",omitempty"`
}

// a recursive type that encodes itself when addressable only
type tSelfM struct {
	V    int
	Next []tSelfM
}

func (s *tSelfM) MarshalJSON() ([]byte, error) {
	simrt.Yield()
	return []byte(fmt.Sprintf(`{"selfm":%d}`, s.V)), nil
}

type tSelfT struct {
	V    int
	Next map[string]tSelfT
}

func (s *tSelfT) MarshalText() ([]byte, error) {
	simrt.Yield()
	return []byte("selft" + strconv.Itoa(s.V)), nil
}

// types with one name, from different scopes
type T struct {
	A int
	B string
}

func sameName1() reflect.Type {
	type T struct {
		B int
		A string
	}
	return reflect.TypeFor[T]()
}

func sameName2() reflect.Type {
	type T struct {
		A, B []string `json:",omitempty"`
	}
	return reflect.TypeFor[T]()
}

func sameName3() reflect.Type {
	type T struct {
		X mjP
		Y *tRec `json:"y,omitempty"`
	}
	return reflect.TypeFor[T]()
}

func sameName4() reflect.Type {
	type T map[string]int
	return reflect.TypeFor[T]()
}

func sameName5() reflect.Type {
	type T []mjP
	return reflect.TypeFor[T]()
}

func sameName6() reflect.Type {
	type T struct {
		Next *T `json:"n,omitempty"`
		B    float64
	}
	return reflect.TypeFor[T]()
}

var sameNames = []reflect.Type{reflect.TypeFor[T](), sameName1(), sameName2(), sameName3(), sameName4(), sameName5(), sameName6()}

// types that differ in tags, order or embedding only
var nearTypes = []reflect.Type{
	reflect.TypeFor[struct{ A, B int }](), reflect.TypeFor[struct{ B, A int }](),
	reflect.TypeFor[struct {
		A int `json:"B"`
		B int `json:"A"`
	}](),
	reflect.TypeFor[struct {
		A int `json:",omitempty"`
		B int
	}](),
	reflect.TypeFor[struct {
		A int `json:",string"`
		B int
	}](),
	reflect.TypeFor[struct{ A, B *int }](),
	reflect.TypeFor[struct {
		A int `json:"-"`
		B int
	}](),
	reflect.TypeFor[struct {
		TEmb
		A int
	}](), reflect.TypeFor[struct {
		TEmb TEmb
		A    int
	}](), reflect.TypeFor[struct {
		*TEmbP
		A int
	}](),
	reflect.TypeFor[[]mjP](), reflect.TypeFor[[1]mjP](), reflect.TypeFor[map[string]mjP](), reflect.TypeFor[[]*mjP](), reflect.TypeFor[struct{ A mjP }](), reflect.TypeFor[*struct{ A mjP }](),
	reflect.TypeFor[[2]mjP](), reflect.TypeFor[[2]mtP](), reflect.TypeFor[map[string]mtP](), reflect.TypeFor[map[string]*mtP](),
}

var staticTypes = []reflect.Type{
	reflect.TypeFor[tRec](), reflect.TypeFor[tMutA](), reflect.TypeFor[tMutB](), reflect.TypeFor[tBig](), reflect.TypeFor[tWrap](),
	reflect.TypeFor[tPair](), reflect.TypeFor[tEmbedder](), reflect.TypeFor[tRawS](), reflect.TypeFor[tSmall](), reflect.TypeFor[tLoop](),
	reflect.TypeFor[tTriA](), reflect.TypeFor[tTriB](), reflect.TypeFor[tTriC](), reflect.TypeFor[tSelfM](), reflect.TypeFor[tSelfT](), reflect.TypeFor[tInner](),
	reflect.TypeFor[tEmbU](), reflect.TypeFor[namedMap](), reflect.TypeFor[namedSlice](),
}

var leafTypes = []reflect.Type{
	reflect.TypeFor[int](), reflect.TypeFor[bool](), reflect.TypeFor[string](), reflect.TypeFor[float64](), reflect.TypeFor[float32](),
	reflect.TypeFor[int8](), reflect.TypeFor[uint16](), reflect.TypeFor[uint64](), reflect.TypeFor[[]byte](), reflect.TypeFor[jsoncolor.Number](),
	reflect.TypeFor[jsoncolor.RawMessage](), reflect.TypeFor[time.Time](), reflect.TypeFor[time.Duration](), reflect.TypeFor[any](), reflect.TypeFor[mjV](),
	reflect.TypeFor[mjP](), reflect.TypeFor[mtV](), reflect.TypeFor[mtP](), reflect.TypeFor[um](), reflect.TypeFor[ut](),
	reflect.TypeFor[namedStr](), reflect.TypeFor[namedInt](), reflect.TypeFor[tkey](), reflect.TypeFor[json.Marshaler](), reflect.TypeFor[encoding.TextMarshaler](),
	reflect.TypeFor[mjF](), reflect.TypeFor[mtC](), reflect.TypeFor[[1]*int](), reflect.TypeFor[[1]map[string]mjP](), reflect.TypeFor[struct {
		Z struct{}
		P *int
	}](),
	reflect.TypeFor[fmt.Stringer](), reflect.TypeFor[struct{}](), reflect.TypeFor[chan int](), reflect.TypeFor[complex128](), reflect.TypeFor[mjS](),
}

const numTypes = 3000

var typePool [numTypes]reflect.Type

// typeAt returns the i-th generated type; the same one in every process.
func typeAt(i int) reflect.Type {
	if t := typePool[i]; t != nil {
		return t
	}
	s := uint64(i)*2654435761 + 12345
	rnd := func(n int) int {
		s = simrt.Mix(s)
		return int(s >> 33 % uint64(n))
	}
	simrt.Aside(func() { typePool[i] = mkType(rnd, 0) })
	return typePool[i]
}

func mkType(rnd func(int) int, depth int) reflect.Type {
	if depth >= 3 {
		return leafTypes[rnd(len(leafTypes)-2)]
	}
	switch k := rnd(20); {
	case k < 3 && depth > 0, k < 1:
		l := len(leafTypes)
		if rnd(4) != 0 {
			l -= 3 // unsupported ones are rare
		}
		return leafTypes[rnd(l)]
	case k < 7:
		if rnd(4) == 0 {
			return oddTypes[rnd(len(oddTypes))]
		}
		return staticTypes[rnd(len(staticTypes))]
	case k == 7:
		return reflect.PointerTo(mkType(rnd, depth+1))
	case k == 8:
		return reflect.SliceOf(mkType(rnd, depth+1))
	case k == 9:
		return reflect.ArrayOf(rnd(3), mkType(rnd, depth+1))
	case k == 10, k == 11:
		return reflect.MapOf(keyTypes[rnd(len(keyTypes))], mkType(rnd, depth+1))
	}
	n := 1 + rnd(4)
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: string(rune('A'+i)) + "f", Type: mkType(rnd, depth+1)}
		switch rnd(7) {
		case 0:
			f.Tag = `json:",omitempty"`
		case 1:
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"name%d"`, i))
		case 2:
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"n%d,omitempty"`, i))
		case 3:
			if k := f.Type.Kind(); k == reflect.Int || k == reflect.Uint16 {
				f.Tag = `json:",string"`
			}
		}
		fs = append(fs, f)
	}
	switch rnd(6) {
	case 0:
		fs = append(fs, reflect.StructField{Name: "TEmb", Type: reflect.TypeFor[TEmb](), Anonymous: true})
	case 1:
		fs = append([]reflect.StructField{{Name: "TEmbP", Type: reflect.TypeFor[*TEmbP](), Anonymous: true}}, fs...)
	}
	return reflect.StructOf(fs)
}

// relative returns a type that has to do with t.
func relative(k int, t reflect.Type) (u reflect.Type) {
	simrt.Aside(func() { u = relative1(k, t) })
	return u
}

func relative1(k int, t reflect.Type) reflect.Type {
	switch k {
	case 1:
		return reflect.PointerTo(t)
	case 2:
		return reflect.SliceOf(t)
	case 3:
		return reflect.MapOf(reflect.TypeFor[string](), t)
	case 4:
		return reflect.ArrayOf(2, t)
	case 5:
		return reflect.StructOf([]reflect.StructField{{Name: "Field", Type: t}, {Name: "Other", Type: reflect.PointerTo(t)}})
	case 6:
		return reflect.PointerTo(reflect.PointerTo(t))
	case 7:
		return reflect.SliceOf(reflect.PointerTo(t))
	case 8: // a part of it
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
			return t.Elem()
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if f := t.Field(i); f.IsExported() && f.Type.Kind() != reflect.Interface {
					return f.Type
				}
			}
		}
	case 9:
		return reflect.MapOf(reflect.TypeFor[string](), reflect.SliceOf(t))
	case 10:
		return reflect.StructOf([]reflect.StructField{{Name: "Om", Type: t, Tag: `json:"om,omitempty"`}, {Name: "A", Type: reflect.TypeFor[int]()}})
	}
	return t
}

// filler makes values of any type.
type filler struct {
	a      *simrt.Aux
	budget int
	bad    int // one in bad components fails
	panics bool
}

func (f *filler) cb(json bool) *cbk {
	if f.bad > 0 && f.a.Intn(f.bad) == 0 {
		k := 1
		if f.panics && f.a.Intn(2) == 0 {
			k = 3
		}
		return &cbk{kind: k, err: &boom{f.a.Intn(50)}}
	}
	if !json {
		return &cbk{text: []string{"text", "<t>", ""}[f.a.Intn(3)]}
	}
	c := &cbk{text: rawDocs[f.a.Intn(len(rawDocs))]}
	if f.a.Intn(6) == 0 {
		c.kind = 4
	}
	return c
}

func (f *filler) str() string {
	if f.a.Intn(8) == 0 {
		b := make([]byte, f.a.Intn(200))
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz <>&\"\n"[f.a.Intn(32)]
		}
		return string(b)
	}
	return []string{"", "a", "k<&>", "é\n\"", "some longer text with several words", "\u2028x"}[f.a.Intn(6)]
}

func (f *filler) fill(v reflect.Value, depth int) {
	f.budget--
	if f.budget < 0 || !v.CanSet() {
		return
	}
	t := v.Type()
	switch t {
	case reflect.TypeFor[tPromo]():
		v.Set(reflect.ValueOf(tPromo{mjV: mjV{f.cb(true)}}))
		return
	case reflect.TypeFor[tPromoT]():
		v.Set(reflect.ValueOf(tPromoT{ut: ut{f.str()}}))
		return
	case reflect.TypeFor[mjmt]():
		v.Set(reflect.ValueOf(mjmt{f.cb(true)}))
		return
	case reflect.TypeFor[mjV]():
		v.Set(reflect.ValueOf(mjV{f.cb(true)}))
		return
	case reflect.TypeFor[mjP]():
		v.Set(reflect.ValueOf(mjP{f.cb(true)}))
		return
	case reflect.TypeFor[mtV]():
		v.Set(reflect.ValueOf(mtV{f.cb(false)}))
		return
	case reflect.TypeFor[mtP]():
		v.Set(reflect.ValueOf(mtP{f.cb(false)}))
		return
	case reflect.TypeFor[mjS]():
		v.Set(reflect.ValueOf(mjS{f.cb(true)}))
		return
	case reflect.TypeFor[jsoncolor.Number]():
		v.SetString([]string{"0", "-1.5e3", "12", "", "123456789012345678901234567890", "1.0"}[f.a.Intn(6)])
		return
	case reflect.TypeFor[jsoncolor.RawMessage]():
		s := rawDocs[f.a.Intn(len(rawDocs))]
		if f.bad > 0 && f.a.Intn(f.bad) == 0 {
			s = "{bad"
		}
		v.SetBytes([]byte(s))
		return
	case reflect.TypeFor[time.Time]():
		x := time.Unix(int64(f.a.Intn(1<<30)), 0).UTC()
		switch f.a.Intn(3) {
		case 1:
			x = x.Add(time.Duration(f.a.Intn(1e9)))
		case 2:
			x = x.In(time.FixedZone("", 60*(f.a.Intn(1600)-800)))
		}
		v.Set(reflect.ValueOf(x))
		return
	case reflect.TypeFor[tkey]():
		v.Set(reflect.ValueOf(tkey{A: f.a.Intn(9), Bad: f.bad > 0 && f.a.Intn(4*f.bad) == 0}))
		return
	case reflect.TypeFor[json.Marshaler]():
		if f.a.Intn(3) != 0 {
			v.Set(reflect.ValueOf(mjV{f.cb(true)}))
		}
		return
	case reflect.TypeFor[encoding.TextMarshaler]():
		if f.a.Intn(3) != 0 {
			v.Set(reflect.ValueOf(&mtP{f.cb(false)}))
		}
		return
	case reflect.TypeFor[mjF]():
		c := f.cb(true)
		v.Set(reflect.ValueOf(mjF(func() *cbk { return c })))
		return
	case reflect.TypeFor[mtC]():
		v.Set(reflect.ValueOf(make(mtC, f.a.Intn(5))))
		return
	case reflect.TypeFor[fmt.Stringer]():
		if f.a.Intn(3) != 0 {
			v.Set(reflect.ValueOf(time.Duration(f.a.Intn(1000))))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(f.a.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(f.a.Intn(200) - 100)
		if f.a.Intn(4) == 0 {
			if x = int64(f.a.Intn(1<<30)) * 8589934592; f.a.Intn(2) == 0 {
				x = -x - 1
			}
			x >>= 64 - t.Bits()
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := uint64(f.a.Intn(200))
		if f.a.Intn(4) == 0 {
			x = uint64(f.a.Intn(1<<30)) << 34 >> (64 - t.Bits())
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x := float64(f.a.Intn(1000)) / 8
		if f.a.Intn(3) == 0 {
			x = (x - 60) * []float64{1e-9, 1e-7, 1e15, 1e21, 1e30, 3e-30}[f.a.Intn(6)]
		}
		if f.bad > 0 && f.a.Intn(f.bad) == 0 {
			x = math.NaN()
		}
		v.SetFloat(x)
	case reflect.String:
		v.SetString(f.str())
	case reflect.Pointer:
		if f.a.Intn(5) == 0 || depth > 5 {
			return
		}
		p := reflect.New(t.Elem())
		f.fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(f.str()))
			return
		}
		n := f.a.Intn(4)
		if depth > 4 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		if f.a.Intn(5) == 0 {
			return
		}
		n := f.a.Intn(4)
		if depth > 4 {
			n = 0
		}
		m := reflect.MakeMap(t)
		texts := map[string]bool{}
		for i := 0; i < n; i++ {
			k, x := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if k.Kind() == reflect.Interface {
				if f.a.Intn(4) != 0 {
					k.Set(reflect.ValueOf(&mkPtr{N: f.a.Intn(40)}))
				}
			} else {
				f.fill(k, depth+1)
			}
			f.fill(x, depth+1)
			if s, ok := keyText(k); ok {
				if texts[s] {
					continue
				}
				texts[s] = true
			}
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	case reflect.Interface:
		if t.NumMethod() != 0 {
			return
		}
		switch f.a.Intn(7) {
		case 0:
			v.Set(reflect.ValueOf(f.str()))
		case 1:
			v.Set(reflect.ValueOf(f.a.Intn(50)))
		case 2:
			v.Set(reflect.ValueOf([]any{f.str(), nil, true}))
		case 3:
			v.Set(reflect.ValueOf(mjV{f.cb(true)}))
		case 4:
			v.Set(reflect.ValueOf(map[string]any{"in": &mtP{f.cb(false)}}))
		case 5:
			v.Set(reflect.ValueOf(&tSmall{A: f.a.Intn(9)}))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				f.fill(v.Field(i), depth+1)
			}
		}
	}
}

// op is one use of the package with a result that can be compared.
type op struct {
	name  string
	run   func() string
	loose func(a, b string) bool // how results are compared (nil: equal)
	want  string
	fresh func() // makes the arguments anew
	first bool   // made with a type the package has not met
}

func (o *op) same(a, b string) bool {
	return a == b || o.loose != nil && o.loose(a, b)
}

// alone runs the op from the initial package state with fresh objects.
func (o *op) alone() string {
	simrt.Reset()
	pm := simsync.PoolMode
	simsync.PoolMode = 2
	s := o.guardedRun()
	simsync.PoolMode = pm
	return s
}

func (o *op) guardedRun() (s string) {
	p := guarded(func() { s = o.run() })
	if p != nil {
		s = fmt.Sprintf("panic %T %v", p, p)
	}
	return s
}

// fixedReader chops a stream in a way that is the same every time it is made.
type fixedReader struct {
	b   []byte
	a   simrt.Aux
	max int
	err error
}

func (x *fixedReader) Read(p []byte) (int, error) {
	simrt.Yield()
	if len(x.b) == 0 {
		return 0, x.err
	}
	n := min(len(p), len(x.b), 1+x.a.Intn(x.max))
	copy(p, x.b[:n])
	x.b = x.b[n:]
	return n, nil
}

// fixedWriter records what it is given.
type fixedWriter struct {
	b     []byte
	calls int
}

func (x *fixedWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	x.calls++
	x.b = append(x.b, p...)
	simrt.Yield()
	return len(p), nil
}

// looseOut compares outputs whose map members may come in any order; with
// several failing members, which one is met first is free, too.
func looseOut(a, b string) bool {
	failed := func(s string) bool { return strings.HasPrefix(s, "error ") || strings.HasPrefix(s, "panic ") }
	if failed(a) && failed(b) {
		return true
	}
	return loose([]byte(a)) == loose([]byte(b))
}

// encodeOp encodes v through some entry point. Colors and Indenter may be
// shared with other ops; nil means fresh ones.
func encodeOp(r *R, v *any, cfg encCfg, col *jsoncolor.Colors, in *jsoncolor.Indenter, name string) *op {
	o := &op{}
	result := func(b []byte, err error) string {
		if err != nil {
			return fmt.Sprintf("error %s (%d bytes)", errText(err), len(b))
		}
		return string(b)
	}
	switch k := r.Choose(6); k {
	case 1:
		o.name = "Marshal " + name
		o.run = func() string { return result(jsoncolor.Marshal(*v)) }
	case 2:
		o.name = "MarshalIndent " + name
		o.run = func() string { return result(jsoncolor.MarshalIndent(*v, "", " ")) }
	case 3, 4:
		n := 1 + r.Choose(2)
		o.name = fmt.Sprintf("Encoder x%d %s (%s)", n, name, cfg)
		o.run = func() string {
			w := &fixedWriter{}
			e := jsoncolor.NewEncoder(w)
			cfg.apply(e)
			if col != nil {
				e.SetColors(col)
			}
			s := ""
			for i := 0; i < n; i++ {
				if err := e.Encode(*v); err != nil {
					s += "error " + errText(err) + ";"
				}
			}
			return fmt.Sprintf("%s%d writes:%s", s, w.calls, w.b)
		}
	default:
		o.name = fmt.Sprintf("Append %s (%s)", name, cfg)
		o.run = func() string {
			c, n := col, in
			if c == nil {
				c = mkColors(cfg.colors)
			}
			if n == nil {
				n = cfg.indenter()
			}
			return result(jsoncolor.Append(nil, *v, cfg.flags(), c, n))
		}
	}
	if cfg.noSort {
		o.loose = looseOut
	}
	return o
}

// decodeOp decodes text into a new T through some entry point.
func decodeOp(r *R, text []byte, t reflect.Type, name string) *op {
	o := &op{}
	var flags jsoncolor.ParseFlags
	for i, f := range []jsoncolor.ParseFlags{jsoncolor.UseNumber, jsoncolor.DisallowUnknownFields, jsoncolor.DontMatchCaseInsensitiveStructFields, jsoncolor.DontCopyString | jsoncolor.DontCopyNumber | jsoncolor.DontCopyRawMessage} {
		_ = i
		if r.OneIn(5) {
			flags |= f
		}
	}
	k := r.Choose(5)
	o.name = []string{"Parse", "Unmarshal", "Decoder", "Parse into any holding a pointer", "Decoder twice"}[k] + fmt.Sprintf(" (flags %d) ", flags) + name
	seed := r.Choose(1 << 12)
	max := []int{1 << 20, 1, 7, 50}[r.Choose(4)]
	o.run = func() string {
		v := reflect.New(t)
		var err error
		rest := -1
		switch k {
		case 1:
			err = jsoncolor.Unmarshal(text, v.Interface())
		case 2, 4:
			b := text
			if k == 4 {
				b = append(append(append([]byte(nil), text...), '\n'), text...)
			}
			d := jsoncolor.NewDecoder(&fixedReader{b: b, a: simrt.AuxFrom(uint64(seed)), max: max, err: errInjected})
			if flags&jsoncolor.UseNumber != 0 {
				d.UseNumber()
			}
			if flags&jsoncolor.DisallowUnknownFields != 0 {
				d.DisallowUnknownFields()
			}
			if flags&jsoncolor.DontMatchCaseInsensitiveStructFields != 0 {
				d.DontMatchCaseInsensitiveStructFields()
			}
			err = d.Decode(v.Interface())
			if k == 4 {
				s := dump(v.Elem()) + " " + errText(err) + " then "
				v = reflect.New(t)
				err = d.Decode(v.Interface())
				return s + dump(v.Elem()) + " " + errText(err)
			}
		case 3:
			x := v.Interface()
			var b []byte
			b, err = jsoncolor.Parse(text, &x, flags)
			rest = len(b)
			if err != nil {
				return fmt.Sprintf("error %s", errText(err))
			}
		default:
			var b []byte
			b, err = jsoncolor.Parse(text, v.Interface(), flags)
			rest = len(b)
		}
		return fmt.Sprintf("%s %s rest %d", dump(v.Elem()), errText(err), rest)
	}
	return o
}

// scanOp validates or tokenizes text.
func scanOp(r *R, text []byte) *op {
	switch r.Choose(3) {
	case 2: // after an abandoned or malformed document
		other := []byte(malformed[r.Choose(len(malformed))])
		if r.OneIn(2) {
			other = []byte(`[{"a":[1,[2,{"b":[`)
		}
		k := r.Choose(20)
		return &op{name: fmt.Sprintf("Tokenizer %s reset to %s", q(other), q(text)), run: func() string {
			t := jsoncolor.NewTokenizer(other)
			for i := 0; i < k; i++ {
				t.Next()
			}
			t.Reset(text)
			return tokens(t)
		}}
	case 1:
		return &op{name: fmt.Sprintf("Tokenizer %s", q(text)), run: func() string { return tokens(jsoncolor.NewTokenizer(text)) }}
	}
	return &op{name: fmt.Sprintf("Valid %s", q(text)), run: func() string { return fmt.Sprint(jsoncolor.Valid(text)) }}
}

// tokens runs a tokenizer to its end.
func tokens(t *jsoncolor.Tokenizer) string {
	var sb strings.Builder
	for n := 0; t.Next(); n++ {
		fmt.Fprintf(&sb, "%c %q d%d i%d k%v;", t.Delim, t.Value, t.Depth, t.Index, t.IsKey)
		if n > 1<<20 {
			return "endless"
		}
	}
	sb.WriteString(errText(t.Err))
	return sb.String()
}

// typedOp makes an op on t or a relative of it.
func typedOp(r *R, t reflect.Type, shared *sharedObjs) *op {
	rel := r.Choose(11)
	rt := relative(rel, t)
	if rt.Kind() == reflect.Interface {
		rt = t
	}
	name := short(rt.String(), 120)
	if r.OneIn(2) {
		f := filler{a: simrt.NewAux(), budget: 60}
		switch r.Pick(4, 1, 1) {
		case 1:
			f.bad = 4
			r.Count("fault.component_failure")
		case 2:
			f.bad, f.panics = 4, true
			r.Count("fault.component_panic")
		}
		how := r.Choose(4)
		name = []string{name, "&" + name, "[]any{" + name + "}", "map{&" + name + "}"}[how]
		v := new(any)
		build := func() {
			f, a := f, *f.a
			f.a = &a
			p := reflect.New(rt)
			f.fill(p.Elem(), 0)
			switch how {
			case 1:
				*v = p.Interface()
			case 2:
				*v = []any{p.Elem().Interface()}
			case 3:
				*v = map[string]any{"in": p.Interface()}
			default:
				*v = p.Elem().Interface()
			}
		}
		build()
		cfg := genCfg(r)
		var col *jsoncolor.Colors
		var in *jsoncolor.Indenter
		if shared != nil && r.OneIn(2) {
			cfg, col, in = shared.cfg, shared.col, shared.in
		}
		o := encodeOp(r, v, cfg, col, in, name)
		o.fresh = build
		return o
	}
	g := docGen{r: r, unknown: true, cb: r.OneIn(3), budget: 20, esc: 5}
	if r.OneIn(3) {
		g.mism = 5
	}
	text := g.gen(nil, rt, 0)
	if r.OneIn(6) && len(text) > 0 {
		text = text[:r.Choose(len(text))]
		r.Count("fault.truncated_document")
	}
	return decodeOp(r, text, rt, name+" "+q(text))
}

// sharedObjs are read-only objects used by several goroutines.
type sharedObjs struct {
	cfg encCfg
	col *jsoncolor.Colors
	in  *jsoncolor.Indenter
}

// c11: results do not depend on when a type is first used.
func c11(r *R) {
	genPoolMode(r)
	nt := 1 + r.Choose(2)
	manyTypes, manyFrom := 0, 0
	var ts []reflect.Type
	switch r.Pick(12, 2, 2, 1) {
	case 1:
		for n := 2 + r.Choose(2); len(ts) < n; {
			ts = append(ts, sameNames[r.Choose(len(sameNames))])
		}
		nt = 0
	case 2:
		for n := 2 + r.Choose(3); len(ts) < n; {
			ts = append(ts, nearTypes[r.Choose(len(nearTypes))])
		}
		nt = 0
	case 3:
		// a program that uses many types
		manyTypes = []int{10, 30, 70, 140, 300}[r.Choose(5)]
		manyFrom = r.Choose(numTypes)
		r.Count("reach.many_types")
	}
	for i := 0; i < nt; i++ {
		if r.OneIn(3) {
			ts = append(ts, staticTypes[r.Choose(len(staticTypes))])
		} else {
			ts = append(ts, typeAt(r.Choose(numTypes)))
		}
	}
	var ops []*op
	n := 2 + r.Choose(7)
	for i := 0; i < n; i++ {
		ops = append(ops, typedOp(r, ts[r.Choose(len(ts))], nil))
	}
	for _, o := range ops {
		o.want = o.alone()
	}
	simrt.Reset()
	hist := ""
	if manyTypes > 0 {
		for i := 0; i < manyTypes; i++ {
			t := typeAt((manyFrom + i) % numTypes)
			guarded(func() { jsoncolor.Append(nil, reflect.Zero(t).Interface(), 0, nil, nil) })
		}
		hist = fmt.Sprintf("%d other types; ", manyTypes)
	}
	rounds := 1 + r.Choose(2)
	for k := 0; k < rounds; k++ {
		for i, o := range ops {
			got := o.guardedRun()
			simrt.NoteBytes([]byte(got))
			r.Trace("%s -> %s", o.name, short(got, 200))
			if !o.same(got, o.want) {
				r.Fail("history", "%s: as a first use: %s; as use %d after [%s]: %s", short(o.name, 400), short(o.want, 600), k*len(ops)+i, short(hist, 1200), short(got, 600))
			}
			hist += short(o.name, 200) + "; "
		}
	}
	r.nontrivial = true
	r.Sample("%s", hist)
}

func init() {
	register(&Scenario{ID: "C11", Run: c11, Quick: 160_000, Thorough: 5_000_000,
		Real: []string{"jsoncolor codec construction and cache, encoders, decoders (instrumented real code)"},
		Stub: []string{"sync.Pool (reuse decided by the tape)"},
		Rule: "one run = 2-8 uses (encode and decode through every entry point, valid, failing and panicking) of one or two types out of 3000 generated, 19 recursive, embedded and callback types, 7 of the same name and 20 of nearly the same structure, sometimes after up to 300 others, and of pointers, containers and parts of them, in tape-chosen order from an empty codec cache; each result compared with the same use made first; distinct by event log"})
}
