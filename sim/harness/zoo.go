package main

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// ---- callbacks of the user's types

// cbk decides what a callback of a generated value does.
type cbk struct {
	out  []byte // given out as it is, if not nil
	kind int    // 0 ok, 1 error, 2 invalid output, 3 panic, 4 re-enter the package
	text string
	err  error
	re   func(cb *cbk) []byte
	part []byte // given out with the error
}

type boom struct{ n int }

func (b *boom) Error() string { return "boom " + strconv.Itoa(b.n) }

// What callbacks panic with.
type boomPanic struct{ n int }

type boomRuntime struct{ boom }

func (boomRuntime) Error() string { return "runtime error: boom" }
func (boomRuntime) RuntimeError() {}

var panicValues = []any{boomPanic{7}, &boom{77}, boomRuntime{}, "boom", 7, &jsoncolor.SyntaxError{Offset: 7}, io.EOF, &jsoncolor.UnsupportedValueError{Str: "boom"}}

var panicNow any = panicValues[0] // decided for each run

func ourPanic(p any) bool { return p == panicNow }

func (c *cbk) json() ([]byte, error) {
	simrt.Yield()
	if c == nil {
		return []byte(`"nil callback"`), nil
	}
	switch c.kind {
	case 1:
		cbFailed(c.err)
		return c.part, c.err
	case 2:
		return []byte(c.text), nil
	case 3:
		panic(panicNow)
	case 4:
		b, err := jsoncolor.Marshal(map[string]any{"re": c.text, "entered": []any{1, "two", nil}})
		if err != nil {
			return nil, err
		}
		simrt.Yield()
		return b, nil
	}
	if c.out != nil {
		return c.out, nil
	}
	return []byte(c.text), nil
}

func (c *cbk) txt() ([]byte, error) {
	simrt.Yield()
	if c == nil {
		return []byte("nil callback"), nil
	}
	switch c.kind {
	case 1:
		cbFailed(c.err)
		return c.part, c.err
	case 3:
		panic(panicNow)
	case 4:
		return jsoncolor.Append(nil, []string{c.text}, 0, nil, nil)
	}
	if c.out != nil {
		return c.out, nil
	}
	return []byte(c.text), nil
}

type mjV struct{ c *cbk }

func (m mjV) MarshalJSON() ([]byte, error) { return m.c.json() }

type mjP struct{ c *cbk }

func (m *mjP) MarshalJSON() ([]byte, error) { return m.c.json() }

type mjS []*cbk

// marshalers of pointer-shaped kinds
type mjF func() *cbk

func (f mjF) MarshalJSON() ([]byte, error) {
	if f == nil {
		return []byte("0"), nil
	}
	return f().json()
}

type mtC chan *cbk

func (c mtC) MarshalText() ([]byte, error) {
	simrt.Yield()
	return []byte("chan" + strconv.Itoa(cap(c))), nil
}

func (m mjS) MarshalJSON() ([]byte, error) {
	if len(m) == 0 {
		return []byte(`"none"`), nil
	}
	return m[0].json()
}

type mtV struct{ c *cbk }

func (m mtV) MarshalText() ([]byte, error) { return m.c.txt() }

type mtP struct{ c *cbk }

func (m *mtP) MarshalText() ([]byte, error) { return m.c.txt() }

// tkey is a map key with a text form.
type tkey struct {
	A   int
	Bad bool
}

func (k tkey) MarshalText() ([]byte, error) {
	if k.Bad {
		cbFailed(errKey)
		return nil, errKey
	}
	return []byte("k" + strconv.Itoa(k.A*7919%100003)), nil
}

func (k *tkey) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "k"))
	k.A = n
	return err
}

var errKey = errors.New("bad key")

// um and ut decode themselves.
type um struct {
	Got string
	N   int
}

var errUM = errors.New("unmarshaler refuses")

// errUMNow is what a refusing Unmarshaler of the current run returns.
var errUMNow = errUM

// umTrigger and utTrigger are one more text that Unmarshalers of the current
// run refuse, if umTriggerOn.
var (
	umTriggerOn          bool
	umTrigger, utTrigger string
)

// umTriggers are texts worth refusing, as documents and as what a
// TextUnmarshaler sees.
var umTriggers = [][2]string{
	{`""`, ""}, {`0`, ""}, {`false`, ""}, {`{}`, ""}, {`[]`, ""}, {`true`, ""}, {`-1.5e3`, ""}, {`{"a":[1]}`, ""}, {`[[]]`, ""},
	{`" "`, " "}, {`"null"`, "null"}, {`"0"`, "0"}, {`"\u0041\n"`, "A\n"}, {`"\u00e9"`, "\u00e9"}, {`"\u00e9 plain"`, "\u00e9 plain"},
}

func (u *um) UnmarshalJSON(b []byte) error {
	simrt.Yield()
	if umTriggerOn && string(b) == umTrigger {
		cbFailed(errUMNow)
		return errUMNow
	}
	switch string(b) { // texts that generated strings do not meet by chance
	case `"!do-fail"`:
		cbFailed(errUMNow)
		return errUMNow
	case `"!do-panic"`:
		panic(panicNow)
	case `"!do-nest"`: // re-enter
		var x any
		if err := jsoncolor.Unmarshal(b, &x); err != nil {
			return err
		}
		u.Got = fmt.Sprint(x)
		return nil
	}
	u.Got = string(b)
	u.N++
	return nil
}

type ut struct{ Got string }

func (u *ut) UnmarshalText(b []byte) error {
	simrt.Yield()
	if umTriggerOn && string(b) == utTrigger {
		cbFailed(errUMNow)
		return errUMNow
	}
	switch string(b) {
	case "!do-fail":
		cbFailed(errUMNow)
		return errUMNow
	case "!do-panic":
		panic(panicNow)
	}
	u.Got = string(b)
	return nil
}

func (u ut) MarshalText() ([]byte, error) { return []byte(u.Got), nil }

// ---- static types

type tInner struct {
	X int
	Y string
	Z []byte
}

type tEmb struct {
	E1 int
	E2 string
}

type TEmbP struct {
	P1 float64
	P2 []int
}

type tRec struct {
	Name string
	Next *tRec            `json:",omitempty"`
	Kids []tRec           `json:"kids,omitempty"`
	By   map[string]*tRec `json:"by,omitempty"`
}

type tMutA struct {
	N int
	B *tMutB `json:",omitempty"`
}

type tMutB struct {
	S string
	A []tMutA `json:",omitempty"`
}

type tBig struct {
	tEmb
	*TEmbP
	B     bool
	I     int
	I8    int8
	I16   int16
	I32   int32
	I64   int64
	U     uint
	U8    uint8
	U16   uint16
	U32   uint32
	U64   uint64
	F32   float32
	F64   float64
	S     string
	Bs    []byte
	N     jsoncolor.Number
	R     jsoncolor.RawMessage
	T     time.Time
	D     time.Duration
	Any   any
	P     *tInner
	PP    **int
	SI    []int
	SS    []string
	SA    []any
	SIn   []tInner
	Arr   [3]int
	MSI   map[string]int
	MSA   map[string]any
	MSR   map[string]jsoncolor.RawMessage
	MIS   map[int]string
	MUS   map[uint8]string
	MTK   map[tkey]int
	MP    map[string]*tInner
	UM    um
	UP    *um
	UT    ut
	Rec   *tRec
	Str   int    `json:",string"`
	Named string `json:"named_field"`
	Skip  int    `json:"-"`
	Om    string `json:",omitempty"`
	priv  int
}

// types met for the first time by a run; their use is cheap
type tSmall struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
	C []int  `json:"c"`
}

type tPair struct {
	L, R any
}

type tWrap struct {
	V    any `json:"v"`
	Next *tWrap
	M    map[string]any `json:",omitempty"`
}

type tEmbedder struct {
	tPair
	*TEmbP
	Z int
}

type tRawS struct {
	ID  int
	Raw jsoncolor.RawMessage
	M   map[string]jsoncolor.RawMessage `json:",omitempty"`
}

type namedMap map[string]any
type namedSlice []any
type namedStr string
type namedInt int

// ---- generating values to encode

type encGen struct {
	r       *R
	budget  int
	depth   int
	reenter bool // callbacks that use the package
	multi   bool // some map has more than one member
	nFail   int
	failErr error // recoverable error of the failing component
	trustOK bool  // not a failure when raw messages are trusted
	panics  bool
	what    string
	failCb  *cbk
	wides   int    // large containers so far
	mem     *arena // where byte slices and strings of values live (nil: heap)
}

func (g *encGen) bytes(s string) []byte {
	if g.mem == nil {
		return []byte(s)
	}
	return g.mem.put([]byte(s), 40)
}

func (g *encGen) str(s string) string {
	if g.mem == nil {
		return s
	}
	return g.mem.putString(s)
}

func newEncGen(r *R) *encGen { return &encGen{r: r, budget: 30, depth: 1 + r.Choose(4)} }

func konst(v any) func() any { return func() any { return v } }

// gen returns a constructor of a value; bomb puts one failing component in it.
func (g *encGen) gen(depth int, bomb bool) func() any {
	g.budget--
	if depth >= g.depth || g.budget <= 0 {
		if bomb {
			return g.bomb()
		}
		return g.leaf()
	}
	if bomb {
		if g.r.OneIn(3) {
			return g.bomb()
		}
		return g.container(depth, true)
	}
	if g.r.Choose(5) < 2 {
		return g.leaf()
	}
	return g.container(depth, false)
}

func (g *encGen) kids(depth int, bomb bool, lo, max int) []func() any {
	n := lo + g.r.Choose(max-lo+1)
	at := -1
	if bomb {
		n = n + 1
		at = g.r.Choose(n)
	}
	var ks []func() any
	for i := 0; i < n; i++ {
		ks = append(ks, g.gen(depth+1, i == at))
	}
	return ks
}

// many is kids with sometimes a lot of plain siblings around them.
func (g *encGen) many(depth int, bomb bool, lo, max int) []func() any {
	ks := g.kids(depth, bomb, lo, max)
	if g.wides > 0 {
		return ks
	}
	w := g.r.Wide()
	if w == 0 {
		return ks
	}
	g.wides++
	before := w
	switch g.r.Choose(3) {
	case 1:
		before = 0
	case 2:
		before = g.r.Choose(w)
	}
	plain := []func() any{konst(1), konst("s"), konst(nil), konst([]any{true})}
	k := g.r.Choose(4)
	all := make([]func() any, 0, w+len(ks))
	for i := 0; i < before; i++ {
		all = append(all, plain[(i*k)&3])
	}
	all = append(all, ks...)
	for i := before; i < w; i++ {
		all = append(all, plain[(i*k)&3])
	}
	return all
}

// nested is gen, sometimes far down.
func (g *encGen) nested(bomb bool) func() any {
	mk := g.gen(0, bomb)
	d := g.r.Deep()
	if d == 0 || g.wides > 0 {
		return mk
	}
	k := g.r.Choose(4)
	return func() any {
		v := mk()
		for i := 0; i < d; i++ {
			switch k & i {
			case 0:
				v = []any{v}
			case 1:
				v = map[string]any{"in": v}
			case 2:
				v = &tWrap{V: v}
			case 3:
				v = tPair{L: i, R: v}
			}
		}
		return v
	}
}

func (g *encGen) pair(depth int, bomb bool) []func() any {
	at := -1
	if bomb {
		at = g.r.Choose(2)
	}
	return []func() any{g.gen(depth+1, at == 0), g.gen(depth+1, at == 1)}
}

func (g *encGen) keys(n int) []string {
	ks := make([]string, n)
	for i := range ks {
		if i >= 8 {
			ks[i] = "w" + strconv.Itoa(i*7919)
			continue
		}
		ks[i] = genKey(g.r, i)
	}
	return ks
}

func (g *encGen) container(depth int, bomb bool) func() any {
	switch g.r.Choose(17) {
	case 0:
		ks := g.many(depth, bomb, 0, 4)
		return func() any { return buildSlice(ks) }
	case 1:
		ks := g.many(depth, bomb, 0, 4)
		return func() any { return namedSlice(buildSlice(ks)) }
	case 2, 3, 4:
		ks := g.many(depth, bomb, 0, 4)
		names := g.keys(len(ks))
		g.multi = g.multi || len(ks) > 1
		named := g.r.OneIn(3)
		return func() any {
			m := map[string]any{}
			for i, k := range ks {
				m[g.str(names[i])] = k()
			}
			if named {
				return namedMap(m)
			}
			return m
		}
	case 5:
		ks := g.many(depth, bomb, 0, 3)
		g.multi = g.multi || len(ks) > 1
		return func() any {
			m := map[int]any{}
			for i, k := range ks {
				m[i*37-9] = k()
			}
			return m
		}
	case 6:
		ks := g.many(depth, bomb, 0, 3)
		g.multi = g.multi || len(ks) > 1
		return func() any {
			m := map[tkey]any{}
			for i, k := range ks {
				m[tkey{A: i * 3}] = k()
			}
			return m
		}
	case 7:
		ks := g.pair(depth, bomb)
		return func() any { return tPair{ks[0](), ks[len(ks)-1]()} }
	case 8:
		ks := g.kids(depth, bomb, 1, 2)
		return func() any {
			var w *tWrap
			for _, k := range ks {
				w = &tWrap{V: k(), Next: w}
			}
			return w
		}
	case 9:
		ks := g.pair(depth, bomb)
		np := g.r.Choose(2) == 0
		return func() any {
			e := tEmbedder{tPair: tPair{L: ks[0](), R: ks[len(ks)-1]()}, Z: 3}
			if !np {
				e.TEmbP = &TEmbP{1.5, []int{1, 2}}
			}
			return &e
		}
	case 10:
		k := g.gen(depth+1, bomb)
		return func() any { v := k(); return &v }
	case 11:
		k := g.gen(depth+1, bomb)
		return func() any { return [2]any{1, k()} }
	case 12:
		k := g.gen(depth+1, bomb)
		return func() any { return []map[string]any{{"only": k()}} }
	}
	if g.r.Choose(2) == 0 {
		return g.embedded(depth, bomb)
	}
	k := g.gen(depth+1, bomb)
	return func() any {
		return struct {
			First any
			V     any `json:"v,omitempty"`
			Last  []any
		}{nil, k(), []any{}}
	}
}

// The types below put their fields into the object of whatever embeds them.
type EmbAny struct {
	V any
	W any `json:"w,omitempty"`
}

type EmbAnyIn struct {
	X int
	*EmbAny
	Y int
}

type EmbIface struct {
	M json.Marshaler
	S fmt.Stringer `json:",omitempty"`
}

// embedded wraps a value as a field of an embedded struct, which may be
// reached through pointers.
func (g *encGen) embedded(depth int, bomb bool) func() any {
	ks := g.pair(depth, bomb)
	a, b := ks[0], ks[1]
	empty := g.r.OneIn(3) && !bomb
	switch g.r.Choose(6) {
	case 0:
		return func() any {
			return struct {
				A int
				EmbAny
				Z int
			}{1, EmbAny{a(), b()}, 2}
		}
	case 1:
		return func() any {
			s := struct {
				A int
				*EmbAny
				Z int
			}{A: 1, Z: 2}
			if !empty {
				s.EmbAny = &EmbAny{a(), b()}
			}
			return s
		}
	case 2:
		return func() any {
			s := struct{ *EmbAny }{}
			if !empty {
				s.EmbAny = &EmbAny{a(), b()}
			}
			return &s
		}
	case 3:
		return func() any {
			s := struct {
				*EmbAnyIn
				Z int
			}{Z: 2}
			s.EmbAnyIn = &EmbAnyIn{X: 1}
			if !empty {
				s.EmbAny = &EmbAny{a(), b()}
			}
			return []any{s, &s}
		}
	case 4:
		return func() any {
			return struct {
				EmbAnyIn
				Q any `json:",omitempty"`
			}{EmbAnyIn{1, &EmbAny{V: a()}, 2}, b()}
		}
	}
	return func() any {
		return map[string]any{"one": &struct {
			EmbAnyIn
			U []any
		}{EmbAnyIn{1, &EmbAny{W: a()}, 2}, []any{b()}}}
	}
}

func buildSlice(ks []func() any) []any {
	s := make([]any, 0, len(ks))
	for _, k := range ks {
		s = append(s, k())
	}
	return s
}

func (g *encGen) cb(text string) *cbk {
	c := &cbk{text: text}
	if g.mem != nil {
		c.out = g.bytes(text)
	}
	if g.reenter && g.r.OneIn(2) {
		c.kind = 4
	}
	return c
}

var rawDocs = []string{`null`, `{"z":1,"a":[true,{"b":"<x>"}]}`, `[1, 2 , {"k" : "v"}]`, `"str\u00e9"`, `-1.5e3`, `{}`, `[]`, "{\n \"q\" : [ ] }"}

func (g *encGen) raw() string {
	if g.r.OneIn(6) { // white space behind the value is no part of it
		return g.raw1() + []string{" ", "\n", "\r\n", "\n \t", "    "}[g.r.Choose(5)]
	}
	return g.raw1()
}

func (g *encGen) raw1() string {
	if w := g.r.Wide(); w > 0 && g.wides == 0 {
		g.wides++
		return string(genStyle(g.r).render(nil, widen(g.r, JV{K: 's', S: "x"}, w)))
	}
	if l := g.r.Long(); l > 0 && g.wides == 0 {
		g.wides++
		return string(genStyle(g.r).render(nil, JV{K: 's', S: bulkString(g.r, l, g.r.Choose(3))}))
	}
	if g.r.OneIn(3) {
		st := genStyle(g.r)
		return string(st.render(nil, genValue(g.r, &genOpts{depth: 3, big: 100, budget: 12}, 0)))
	}
	return rawDocs[g.r.Choose(len(rawDocs))]
}

// alike is a container of values of one type of which many are the same or
// nearly the same.
func (g *encGen) alike() func() any {
	r := g.r
	near := r.near
	if near == "" {
		near = bulkString(r, 1+r.Choose(20), 0)
	}
	defer func(s string) { r.near = s }(r.near)
	r.near = near
	var one func() any
	switch r.Choose(10) {
	case 0:
		one = func() any { return genTime(r) }
	case 1:
		one = func() any { return g.str(nearString(r)) }
	case 2:
		one = func() any { return g.bytes(nearString(r)) }
	case 3:
		f := float64(r.Choose(1000)) / 7
		one = func() any {
			return []float64{f, -f, math.Nextafter(f, 1e9), f * 10, float64(float32(f)), 0, math.Copysign(0, -1)}[r.Choose(7)]
		}
	case 4:
		n := int64(r.Choose(1 << 20))
		one = func() any { return []int64{n, -n, n + 1, n * 10, n << 32, math.MinInt64, 0}[r.Choose(7)] }
	case 5:
		one = func() any { return jsoncolor.Number(nearNumbers[r.Choose(len(nearNumbers))]) }
	case 6:
		one = func() any {
			return jsoncolor.RawMessage(g.bytes([]string{`{"a":1}`, `{"a":2}`, `{"b":1}`, `[1,2,3]`, `[1,2,4]`, `"abcde"`, `"abc<e"`, `{"a": 1}`}[r.Choose(8)]))
		}
	case 7:
		n := r.Choose(1 << 20)
		one = func() any {
			return []time.Duration{time.Duration(n), time.Duration(n + 1), time.Duration(n) * time.Second, -time.Duration(n)}[r.Choose(4)]
		}
	case 8:
		one = func() any { return tInner{r.Choose(3), g.str(nearString(r)), g.bytes(nearString(r))} }
	case 9:
		one = func() any { return map[string]string{g.str(nearString(r)): g.str(nearString(r))} }
	}
	k := r.Choose(4)
	var vs []any
	for i, n := 0, 2+r.Choose(6); i < n; i++ {
		vs = append(vs, one())
	}
	if k == 3 && g.mem == nil {
		g.multi = true
		var mt reflect.Type
		simrt.Aside(func() { mt = reflect.MapOf(reflect.TypeFor[string](), reflect.TypeOf(vs[0])) })
		return func() any {
			m := reflect.MakeMap(mt)
			for i, v := range vs {
				b := []byte(near)
				b[i%len(b)] = byte('A' + i)
				m.SetMapIndex(reflect.ValueOf(string(b)), reflect.ValueOf(v))
			}
			return m.Interface()
		}
	}
	return func() any {
		if k == 0 {
			return append([]any(nil), vs...)
		}
		var s reflect.Value
		simrt.Aside(func() { s = reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(vs[0])), 0, len(vs)) })
		for _, v := range vs {
			s = reflect.Append(s, reflect.ValueOf(v))
		}
		if k == 1 {
			return struct {
				First any
				L     any
			}{vs[len(vs)-1], s.Interface()}
		}
		return s.Interface()
	}
}

func (g *encGen) leaf() func() any {
	r := g.r
	switch r.Choose(33) {
	case 1:
		return konst(true)
	case 2:
		return konst(r.Choose(1000) - 500)
	case 3:
		return konst(int64(r.Choose(1<<30)) << 31)
	case 4:
		return konst(float64(r.Choose(10000)) / 7)
	case 5:
		return konst(float32(r.Choose(100)) / 3)
	case 6, 7:
		if l := r.Long(); l > 0 && g.mem == nil {
			g.wides++
			return konst(bulkString(r, l, r.Choose(3)))
		}
		return konst(g.str(genString(r, 3000)))
	case 8:
		if l := r.Long(); l > 0 && g.mem == nil {
			g.wides++
			return konst([]byte(bulkString(r, l, 0)))
		}
		return konst(g.bytes(genString(r, 300)))
	case 9:
		return konst(jsoncolor.Number(genNumber(r)))
	case 10:
		return konst(genTime(r))
	case 11:
		return konst(time.Duration(r.Choose(1 << 30)))
	case 12:
		s := g.raw()
		return func() any { return jsoncolor.RawMessage(g.bytes(s)) }
	case 13:
		c := g.cb(g.raw())
		return func() any { return mjV{c} }
	case 14:
		c := g.cb(g.raw())
		return func() any { return &mjP{c} }
	case 15:
		c := g.cb(genString(r, 50))
		return func() any { return mtV{c} }
	case 16:
		c := g.cb(genString(r, 50))
		return func() any { return &mtP{c} }
	case 17:
		c := g.cb(g.raw())
		return func() any { return mjS{c} }
	case 18:
		a, s := r.Choose(100), genString(r, 40)
		return func() any { return tInner{a, g.str(s), g.bytes(s)} }
	case 19:
		a, s := r.Choose(100), genString(r, 40)
		return func() any {
			return &tRec{Name: s, Kids: []tRec{{Name: "kid"}, {Name: s, Next: &tRec{}}}, By: map[string]*tRec{"x": {Name: strconv.Itoa(a)}}}
		}
	case 20:
		n := r.Choose(5)
		if w := r.Wide(); w > 0 && g.mem == nil {
			g.wides++
			n = w
		}
		g.multi = g.multi || n > 1
		s := g.raw()
		return func() any {
			m := map[string]jsoncolor.RawMessage{}
			for i := 0; i < n; i++ {
				m[g.str("r"+strconv.Itoa(i*i))] = jsoncolor.RawMessage(g.bytes(s))
			}
			return m
		}
	case 21:
		n := r.Choose(5)
		if w := r.Wide(); w > 0 {
			g.wides++
			return func() any { return make([]int, w) }
		}
		return func() any { return []int{n, 2, 3, n}[:n] }
	case 22:
		s := genString(r, 20)
		return func() any { return []string{g.str(s), "", g.str(s + "x")} }
	case 23:
		n := r.Choose(6)
		if w := r.Wide(); w > 0 {
			g.wides++
			n = w
		}
		g.multi = g.multi || n > 1
		return func() any {
			m := map[string]int{}
			for i := 0; i < n; i++ {
				m[strconv.Itoa(i*31%1031)] = i
			}
			return m
		}
	case 24:
		n := r.Choose(4)
		return func() any { return tSmall{A: n, B: "b"[:n&1], C: make([]int, n)} }
	case 25:
		n := r.Choose(4)
		return func() any { return &tMutA{n, &tMutB{"s", []tMutA{{N: 1}, {N: 2, B: &tMutB{}}}}} }
	case 26:
		n := r.Choose(4)
		s := g.raw()
		return func() any { return tRawS{ID: n, Raw: jsoncolor.RawMessage(g.bytes(s))} }
	case 27:
		return []func() any{konst(namedStr("ns")), konst(namedInt(5)), konst(uint8(200)), konst(uint64(math.MaxUint64)), konst((*int)(nil)), konst([]any(nil)), konst(map[string]any(nil)), konst(struct{}{})}[r.Choose(8)]
	case 28:
		n := r.Choose(3)
		return func() any { return bigValue(n) }
	case 30: // values that fill an interface's data word themselves
		n := r.Choose(100)
		c := g.cb(g.raw())
		fn := mjF(func() *cbk { return c })
		ch := make(mtC, n)
		k := r.Choose(14)
		return func() any {
			return []any{
				[1]*int{&n}, [1]map[string]int{{"m": n}}, fn, ch, []mjF{fn, fn}, map[string]mjF{"f": fn}, map[string]mtC{"c": ch},
				[1]mjF{fn}, struct{ P *int }{&n}, struct {
					Z struct{} `json:"z"`
					P *int
				}{P: &n}, map[string][1]*int{"k": {&n}}, [1][1]struct{ P *mjP }{{{&mjP{c}}}}, []json.Marshaler{fn}, map[int]struct{ M map[string]int }{1: {map[string]int{"x": n}}},
			}[k]
		}
	case 31, 32:
		return g.alike()
	case 29:
		n := 1 << r.Choose(14)
		return func() any { return strings.Repeat("long ", n/4) }
	}
	return konst(nil)
}

func bigValue(n int) *tBig {
	five := 5
	pf := &five
	b := &tBig{tEmb: tEmb{n, "e"}, B: n == 1, I: n, S: "s", Bs: []byte{1, 2, byte(n)}, N: "12", R: jsoncolor.RawMessage(`{"r":1}`),
		T: time.Unix(int64(n)*1000, 0).UTC(), Any: []any{n, "x"}, PP: &pf, SI: []int{1}, SS: []string{"q"}, SIn: []tInner{{X: n}},
		MSI: map[string]int{"one": 1}, MSA: map[string]any{"k": n}, MSR: map[string]jsoncolor.RawMessage{"raw": jsoncolor.RawMessage("[1]")},
		MIS: map[int]string{4: "four"}, MTK: map[tkey]int{{A: 2}: 9}, Rec: &tRec{Name: "r"}, Named: "named"}
	if n > 0 {
		b.TEmbP = &TEmbP{P1: 2.5}
		b.P = &tInner{Y: "inner"}
	}
	return b
}

type embBomb struct{ Boom mjV }
type EmbBombP struct{ Boom *mjP }

// bomb is a component that cannot be encoded.
var invalidDocs = []string{`{`, `tru`, `{"a":}`, ``, `[1,`, `"open`, `}`, `{"a":1,}`, `[1 2]`, `nul`, `-`, `{"a":{"b":[`, `{ "a" : "<x>" , "b" : [ 1 , }`, "[ 1 ,\n 2 , x ]", `{ "long" : "some text & more", "t" : [ true , fals ] }`,
	"1 2", "{} x", `1,`, `{"a":1}}`, `"a" "b"`, "null\x00", "[1]\n[2]", `{"a":1}{"b":2}`, "truefalse", "01", "[],", `"x":1`, "1\x0b"}

// invalid is a text that is not JSON, and is not even with white space around.
func (g *encGen) invalid() string {
	r := g.r
	if r.OneIn(3) {
		b := []byte(rawDocs[r.Choose(len(rawDocs))])
		if r.OneIn(2) {
			b = genStyle(r).render(nil, genValue(r, &genOpts{depth: 3, big: 100, budget: 12}, 0))
		}
		for i := 0; i < 4; i++ {
			if b, _ = damageDoc(r, b); !json.Valid(b) {
				return string(b)
			}
		}
	}
	return invalidDocs[r.Choose(len(invalidDocs))]
}

// invalidNumber is a text that is no number in JSON, and not empty.
func (g *encGen) invalidNumber() jsoncolor.Number {
	r := g.r
	s := []string{"x1", "-", "1 2", "1 ", " 1", "12x", "1,2", "1.", ".5", "+1", "01", "-01", "0x10", "1_000", "1e", "1e+", "NaN", "Inf", "null", `"1"`, "1.2.3", "1e5e5", "1-2", "--1", "1\n", "1\x00", "[1]", "1]", "1}", "\u0661"}
	if r.OneIn(3) {
		b := []byte(genNumber(r))
		for i := 0; i < 4; i++ {
			b, _ = damageDoc(r, b)
			if t := string(b); len(b) > 0 && !(json.Valid(b) && strings.Trim(t, "0123456789+-.eE") == "") {
				return jsoncolor.Number(t)
			}
		}
	}
	n := s[r.Choose(len(s))]
	if c := n[0]; '0' <= c && c <= '9' && r.OneIn(3) {
		n = strings.Repeat("907418529", 1+r.Choose(4)) + n
		if strings.TrimRight(n, "0123456789") == "" {
			n += "x"
		}
	}
	return jsoncolor.Number(n)
}

func (g *encGen) bomb() func() any {
	r := g.r
	g.nFail++
	e := genUserErr(r)
	c := &cbk{kind: 1, err: e}
	if r.OneIn(3) {
		c.part = []byte([]string{"", "null", "{", `"partial`, "{}", "12"}[r.Choose(6)])
	}
	g.failCb = c
	ok := func() *cbk { return &cbk{text: `{"fine":1}`} }
	rec := func(what string, f func() any) func() any { g.failErr, g.what = e, what; return f }
	if g.panics {
		c.kind = 3
	}
	bad := g.invalid()
	raw := func(what string, f func() any) func() any { g.trustOK, g.what = true, what+" "+bad; return f }
	oth := func(what string, f func() any) func() any { g.what = what; return f }
	k := r.Choose(34)
	if g.panics {
		k = []int{0, 1, 2, 3, 10, 13, 14, 16, 17, 19, 25, 26, 28, 29, 30, 31}[r.Choose(16)]
	}
	switch k {
	case 1:
		return rec("pointer Marshaler", func() any { return &mjP{c} })
	case 2:
		return rec("TextMarshaler", func() any { return mtV{c} })
	case 3:
		return rec("pointer TextMarshaler", func() any { return &mtP{c} })
	case 4:
		return raw("RawMessage", func() any { return jsoncolor.RawMessage(g.bytes(bad)) })
	case 5:
		c.kind, c.text = 2, bad
		return raw("Marshaler output", func() any { return mjV{c} })
	case 6:
		return oth("NaN", konst(math.NaN()))
	case 7:
		return oth("Inf float32", konst(float32(math.Inf(1))))
	case 8:
		return oth("chan", func() any { return make(chan int) })
	case 9:
		return oth("func", func() any { return func() {} })
	case 10:
		return rec("Marshaler field", func() any {
			return struct {
				A int
				J mjV
				B int
			}{1, mjV{c}, 2}
		})
	case 11:
		return raw("RawMessage field", func() any {
			return &tRawS{ID: 1, Raw: jsoncolor.RawMessage(g.bytes(bad))}
		})
	case 12:
		if bad == "" {
			bad = "{"
		}
		g.multi = true
		w := r.Wide()
		g.wides += w
		return raw("map of RawMessage", func() any {
			m := map[string]jsoncolor.RawMessage{"a": jsoncolor.RawMessage("1"), "b": jsoncolor.RawMessage(g.bytes(bad)), "c": jsoncolor.RawMessage("{}")}
			for i := 0; i < w; i++ {
				m[string(rune('a'+i%26))+strconv.Itoa(i)] = jsoncolor.RawMessage("{}")
			}
			return m
		})
	case 13:
		n := 1 + r.Choose(5)
		at := r.Choose(n)
		if w := r.Wide(); w > 0 {
			g.wides++
			n = w
			at = []int{0, n - 1, r.Choose(n)}[r.Choose(3)]
		}
		return rec("slice of Marshaler", func() any {
			s := make([]mjV, n)
			for i := range s {
				s[i] = mjV{ok()}
			}
			s[at] = mjV{c}
			return s
		})
	case 14:
		g.multi = true
		w := r.Wide()
		g.wides += w
		return rec("map of Marshaler", func() any {
			m := map[string]mjV{"x": {ok()}, "y": {c}, "z": {ok()}}
			for i := 0; i < w; i++ {
				m["w"+strconv.Itoa(i)] = mjV{ok()}
			}
			return m
		})
	case 15:
		g.multi = true
		g.failErr, g.what = errKey, "map key"
		w := r.Wide()
		g.wides += w
		return func() any {
			m := map[tkey]int{{A: 1}: 1, {A: 2, Bad: true}: 2, {A: 3}: 3}
			for i := 0; i < w; i++ {
				m[tkey{A: 10 + i}] = i
			}
			return m
		}
	case 16:
		return rec("embedded struct", func() any {
			return struct {
				A int
				embBomb
				Z int
			}{1, embBomb{mjV{c}}, 2}
		})
	case 17:
		return rec("array of TextMarshaler", func() any { return &[3]mtV{{ok()}, {c}, {ok()}} })
	case 18:
		n := g.invalidNumber()
		return oth(fmt.Sprintf("invalid Number field %q", n), func() any {
			switch len(n) % 3 {
			case 0:
				return struct {
					N jsoncolor.Number `json:",string"`
				}{n}
			case 1:
				return []any{map[string]jsoncolor.Number{"n": n}}
			}
			return struct{ N jsoncolor.Number }{n}
		})
	case 19:
		return rec("pointer to pointer", func() any { p := &mjP{c}; return &p })
	case 20:
		return oth("NaN in slice", func() any { return []float64{1, math.NaN(), 2} })
	case 21:
		return oth("NaN in map", func() any { return map[string]float64{"a": math.NaN()} })
	case 22:
		return raw("slice of RawMessage", func() any {
			return []jsoncolor.RawMessage{jsoncolor.RawMessage("1"), jsoncolor.RawMessage(g.bytes(bad)), nil}
		})
	case 23:
		return oth("chan field", func() any {
			return struct {
				A int
				C chan int
			}{1, make(chan int)}
		})
	case 24:
		n := g.invalidNumber()
		return oth(fmt.Sprintf("invalid Number %q", n), konst(n))
	case 25:
		return rec("map of any", func() any { return map[string]any{"a": mjV{c}} })
	case 26:
		return rec("slice of interface", func() any { return []json.Marshaler{mjV{ok()}, &mjP{c}} })
	case 27:
		return oth("NaN string field", func() any {
			return struct {
				F float64 `json:",string"`
			}{math.NaN()}
		})
	case 28:
		return rec("embedded pointer", func() any {
			return struct {
				A int
				*EmbBombP
				Z int
			}{1, &EmbBombP{&mjP{c}}, 2}
		})
	case 29:
		return rec("slice Marshaler", func() any { return mjS{c} })
	case 30:
		return rec("interface field", func() any {
			return struct {
				T encoding.TextMarshaler `json:",omitempty"`
			}{mtV{c}}
		})
	case 31:
		return rec("map[int] of pointer Marshaler", func() any { return map[int]*mjP{3: {c}} })
	case 32:
		return oth("complex", konst(complex(1, 2)))
	case 33:
		return oth("map with unsupported key", func() any { return map[float64]int{1: 2} })
	}
	return rec("Marshaler", func() any { return mjV{c} })
}

// ---- configurations

type encCfg struct {
	colors         int
	prefix, indent string
	setIndent      bool
	noEscape       bool
	noSort         bool
	trust          bool
}

var indents = [][2]string{{"", "  "}, {"", "\t"}, {"> ", " "}, {"", ""}, {"#", ""}, {"  ", ""}, {" ", " "}, {">", "  "}, {"", "> "}, {"", "#"}, {"", strings.Repeat(" ", 40)}}

func genCfg(r *R) encCfg {
	c := encCfg{colors: r.Choose(6)}
	if k := r.Choose(1 + len(indents)); k > 0 && !r.OneIn(4) {
		c.setIndent = true
		c.prefix, c.indent = indents[k-1][0], indents[k-1][1]
	}
	c.noEscape = r.OneIn(3)
	c.noSort = r.OneIn(4)
	c.trust = r.OneIn(4)
	return c
}

// asJSON replaces indentation that does not leave JSON.
func (c encCfg) asJSON() encCfg {
	for _, s := range []*string{&c.prefix, &c.indent} {
		if strings.Trim(*s, " \t") != "" {
			*s = strings.Repeat("\t", len(*s))
		}
	}
	return c
}

func (c encCfg) flags() (f jsoncolor.AppendFlags) {
	if !c.noEscape {
		f |= jsoncolor.EscapeHTML
	}
	if !c.noSort {
		f |= jsoncolor.SortMapKeys
	}
	if c.trust {
		f |= jsoncolor.TrustRawMessage
	}
	return f
}

func (c encCfg) indenter() *jsoncolor.Indenter {
	if !c.setIndent {
		return nil
	}
	return jsoncolor.NewIndenter(c.prefix, c.indent)
}

func mkColors(k int) *jsoncolor.Colors {
	switch k {
	case 1:
		return jsoncolor.DefaultColors()
	case 2:
		return &jsoncolor.Colors{}
	case 5:
		// the defaults, changed by their owner
		c := jsoncolor.DefaultColors()
		for _, f := range colorFields(c) {
			if len(*f) > 3 {
				(*f)[2] ^= 1
			}
			*f = append(*f, "\x1b[4m"...)
		}
		c.Punc = jsoncolor.Color("\x1b[7m")
		return c
	case 3:
		return &jsoncolor.Colors{
			Null: spare("\x1b[30m"), Bool: spare("\x1b[31m"), Number: spare("\x1b[32m"), String: spare("\x1b[33m"), Key: spare("\x1b[34m"),
			Bytes: spare("\x1b[35m"), Time: spare("\x1b[36m"), Punc: spare("\x1b[37m"), TextMarshaler: spare("\x1b[1m"),
		}
	case 4:
		return &jsoncolor.Colors{Key: spare("\x1b[34m"), Punc: spare("\x1b[90m"), Brackets: spare("\x1b[91m"), Braces: spare("\x1b[92m"), Comma: spare("\x1b[93m"), Colon: spare("\x1b[94m")}
	}
	return nil
}

func colorFields(c *jsoncolor.Colors) []*jsoncolor.Color {
	return []*jsoncolor.Color{&c.Null, &c.Bool, &c.Number, &c.String, &c.Key, &c.Bytes, &c.Time, &c.Punc, &c.TextMarshaler, &c.Brackets, &c.Braces, &c.Comma, &c.Colon}
}

// spare makes a colour code with spare capacity behind it.
func spare(s string) jsoncolor.Color {
	b := make([]byte, len(s), len(s)+32)
	copy(b, s)
	for i := range b[len(s):cap(b)] {
		b[:cap(b)][len(s)+i] = 0xA5
	}
	return b
}

func (c encCfg) apply(e *jsoncolor.Encoder) {
	e.SetColors(mkColors(c.colors))
	if c.setIndent {
		e.SetIndent(c.prefix, c.indent)
	}
	e.SetEscapeHTML(!c.noEscape)
	e.SetSortMapKeys(!c.noSort)
	e.SetTrustRawMessage(c.trust)
}

func (c encCfg) String() string {
	s := fmt.Sprintf("colors=%d", c.colors)
	if c.setIndent {
		s += fmt.Sprintf(" indent=%q,%q", c.prefix, c.indent)
	}
	if c.noEscape {
		s += " noescape"
	}
	if c.noSort {
		s += " nosort"
	}
	if c.trust {
		s += " trust"
	}
	return s
}

// ---- comparing outcomes

// errText describes an error or a panic without addresses.
func errText(err error) string {
	if err == nil {
		return ""
	}
	return fmt.Sprintf("%T: %v", err, err)
}

// loose returns the bytes of b sorted: what is left when the order of map
// members is free.
func loose(b []byte) string {
	c := append([]byte(nil), b...)
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	return string(c)
}

// showStacks prints where panics come from, to find out about a violation.
var showStacks = os.Getenv("SIM_STACKS") != ""

// guarded runs f and returns the panic it ended with.
func guarded(f func()) (p any) {
	defer func() {
		if p = recover(); p != nil {
			if showStacks {
				os.Stderr.Write(debug.Stack())
			}
			switch p.(type) {
			case simrt.KillPanic, simrt.HangPanic, *Violation, harnessError:
				panic(p)
			}
		}
	}()
	f()
	return nil
}

// dump renders a decoded value completely and deterministically.
func dump(v reflect.Value) string {
	var sb strings.Builder
	dumpTo(&sb, v, 0)
	return sb.String()
}

func dumpAny(x any) string { return dump(reflect.ValueOf(x)) }

func dumpTo(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		sb.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nilptr")
			return
		}
		sb.WriteByte('&')
		dumpTo(sb, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "(%s)", v.Elem().Type())
		dumpTo(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.IsZero() {
				continue
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte(':')
			dumpTo(sb, f, depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nilmap")
			return
		}
		var es []string
		it := v.MapRange()
		for it.Next() {
			es = append(es, dump(it.Key())+"="+dump(it.Value()))
		}
		sort.Strings(es)
		fmt.Fprintf(sb, "map%v", es)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nilslice")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "b%q", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			dumpTo(sb, v.Index(i), depth+1)
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, math.Float64bits(v.Float()))
	case reflect.Func, reflect.Chan:
		fmt.Fprintf(sb, "%s(nil=%v)", v.Kind(), v.IsNil())
	default:
		fmt.Fprintf(sb, "%v", v.Kind())
	}
}
