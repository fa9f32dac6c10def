package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
	simsync "github.com/neilotoole/jsoncolor/zz_simsync"
)

// Map keys that implement one of the text interfaces only.

type ukStr string

func (k *ukStr) UnmarshalText(b []byte) error {
	var u ut
	err := u.UnmarshalText(b)
	*k = ukStr("<" + u.Got + ">")
	return err
}

type mkStr string

func (k mkStr) MarshalText() ([]byte, error) { return []byte("m" + string(k)), nil }

type ukInt int

func (k *ukInt) UnmarshalText(b []byte) error {
	var u ut
	err := u.UnmarshalText(b)
	*k = ukInt(len(b))
	return err
}

type mkInt int8

func (k mkInt) MarshalText() ([]byte, error) { return fmt.Appendf(nil, "i%d", int8(k)), nil }

type ukStruct struct{ S string }

func (k *ukStruct) UnmarshalText(b []byte) error {
	var u ut
	err := u.UnmarshalText(b)
	k.S = u.Got
	return err
}

type mkStruct struct{ N int }

func (k mkStruct) MarshalText() ([]byte, error) { return fmt.Appendf(nil, "s%d", k.N), nil }

type mkPtr struct{ N int }

func (k *mkPtr) MarshalText() ([]byte, error) { return fmt.Appendf(nil, "p%d", k.N), nil }

// keys of the shape of a pointer

type pkStruct struct{ P *int }

func (k pkStruct) MarshalText() ([]byte, error) {
	if k.P == nil {
		return []byte("none"), nil
	}
	return fmt.Appendf(nil, "k%d", *k.P), nil
}

type pkArr [1]*int

func (k pkArr) MarshalText() ([]byte, error) {
	if k[0] == nil {
		return []byte("null"), nil
	}
	return fmt.Appendf(nil, "a%d", *k[0]), nil
}

// keyText is the text of a key of the shape of a pointer: two keys of a map
// that differ but have the same text come out in no particular order.
func keyText(v reflect.Value) (string, bool) {
	switch k := v.Interface().(type) {
	case *mkPtr:
		if k == nil {
			return "", true
		}
		return fmt.Sprint(k.N), true
	case pkStruct:
		b, _ := k.MarshalText()
		return string(b), true
	case pkArr:
		b, _ := k.MarshalText()
		return string(b), true
	case mtC:
		return fmt.Sprint(cap(k)), true
	}
	return "", v.Kind() == reflect.Interface
}

var keyTypes = []reflect.Type{
	reflect.TypeFor[*mkPtr](), reflect.TypeFor[pkStruct](), reflect.TypeFor[pkArr](), reflect.TypeFor[mtC](), reflect.TypeFor[encoding.TextMarshaler](),
	reflect.TypeFor[string](), reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[namedStr](), reflect.TypeFor[tkey](), reflect.TypeFor[uint8](), reflect.TypeFor[utKey](),
	reflect.TypeFor[ukStr](), reflect.TypeFor[mkStr](), reflect.TypeFor[ukInt](), reflect.TypeFor[mkInt](), reflect.TypeFor[ukStruct](), reflect.TypeFor[mkStruct](), reflect.TypeFor[mkPtr](), reflect.TypeFor[bool](),
}

// cbFails collects what failing callbacks returned, while it is being collected.
var cbFails []error
var cbCollect bool

func cbFailed(err error) {
	if cbCollect {
		cbFails = append(cbFails, err)
	}
}

// collect runs f and returns what callbacks failed with in it.
func collect(f func()) []error {
	cbFails, cbCollect = nil, true
	defer func() { cbCollect = false }()
	f()
	return cbFails
}

// anyTypeAt is one of the generated types or something made of it.
func anyTypeAt(r *R) reflect.Type {
	t := typeAt(r.Choose(numTypes))
	switch r.Choose(8) {
	case 0:
		t = staticTypes[r.Choose(len(staticTypes))]
	case 1:
		t = nearTypes[r.Choose(len(nearTypes))]
	case 2, 3:
		t = oddTypes[r.Choose(len(oddTypes))]
	}
	if r.OneIn(3) {
		if rt := relative(r.Choose(11), t); rt.Kind() != reflect.Interface {
			t = rt
		}
	}
	return t
}

// c17typedEnc encodes values of generated types, some parts of which fail.
func c17typedEnc(r *R) {
	genPoolMode(r)
	t := anyTypeAt(r)
	f := filler{a: simrt.NewAux(), budget: 60, bad: []int{0, 2, 5, 15}[r.Choose(4)], panics: r.OneIn(6)}
	p := reflect.New(t)
	f.fill(p.Elem(), 0)
	v := p.Elem().Interface()
	name := t.String()
	switch r.Choose(5) {
	case 1:
		v, name = p.Interface(), "&"+name
	case 2:
		v, name = []any{v}, "[]any{"+name+"}"
	case 3:
		v, name = map[string]any{"in": p.Interface()}, "map{&"+name+"}"
	case 4:
		v, name = &tWrap{V: v}, "&tWrap{"+name+"}"
	}
	cfg := genCfg(r).asJSON()
	cfg.trust = false
	if r.OneIn(2) {
		cfg.colors = 0
	}
	name = short(name, 150)

	// The standard library's verdict. It may call Marshalers of parts that
	// have an address where this package does not, so that only what it finds
	// unsupported counts.
	var stdErr error
	var stdPanic any
	pm := simsync.PoolMode
	simsync.PoolMode = 2
	simrt.Aside(func() {
		stdPanic = guarded(func() { _, stdErr = json.Marshal(v) })
	})
	simsync.PoolMode = pm

	w := &fixedWriter{}
	var out []byte
	var err error
	var pan any
	entry := r.Choose(4)
	what := []string{"Append ", "Encode ", "Marshal ", "MarshalIndent "}[entry] + name + " (" + cfg.String() + ")"
	failed := collect(func() {
		pan = guarded(func() {
			switch entry {
			case 0:
				out, err = jsoncolor.Append([]byte("abc"), v, cfg.flags(), mkColors(cfg.colors), cfg.indenter())
			case 1:
				e := jsoncolor.NewEncoder(w)
				cfg.apply(e)
				err = e.Encode(v)
			case 2:
				cfg = encCfg{}
				out, err = jsoncolor.Marshal(v)
			case 3:
				cfg = encCfg{}
				out, err = jsoncolor.MarshalIndent(v, "", "\t")
			}
		})
	})
	r.nontrivial = len(failed) > 0 || stdErr != nil || pan != nil
	r.CountN("fault.component_failure", len(failed))
	r.Trace("%s -> %s, %v, panic %v, %d callbacks failed; std %v", what, q(out), err, pan, len(failed), stdErr)
	r.Sample("%s -> %v, panic %v, %d callbacks failed", what, errText(err), pan, len(failed))
	simrt.NoteBytes([]byte(errText(err)))
	if pan != nil {
		if !ourPanic(pan) || !f.panics {
			r.Fail("panic", "%s panicked: %v", what, pan)
		}
		return
	}
	if err == nil {
		if len(failed) > 0 {
			r.Fail("swallowed", "%s succeeded although a callback failed with %v", what, failed[0])
		}
		var ut *json.UnsupportedTypeError
		var uv *json.UnsupportedValueError
		if stdPanic == nil && (errors.As(stdErr, &ut) || errors.As(stdErr, &uv)) {
			r.Fail("swallowed", "%s succeeded, although it cannot be encoded: %v", what, stdErr)
		}
		b := out
		if entry == 0 {
			if !bytes.HasPrefix(out, []byte("abc")) {
				r.Fail("prefix", "%s lost what was there before: %s", what, q(out))
			}
			b = out[3:]
		} else if entry == 1 {
			b = w.b
			if w.calls != 1 {
				r.Fail("writes", "%s wrote %d times", what, w.calls)
			}
		}
		if cfg.colors == 0 && !json.Valid(b) {
			r.Fail("swallowed", "%s succeeded with %s, which is not JSON", what, q(b))
		}
		return
	}
	if w.calls != 0 {
		r.Fail("wrote-failure", "%s failed with %v but wrote %s", what, err, q(w.b))
	}
	if entry == 2 && len(out) > 0 {
		r.Fail("partial", "%s returned %s with %v", what, q(out), err)
	}
	for _, e := range failed {
		if errors.Is(err, e) {
			return
		}
	}
	var utErr *json.UnsupportedTypeError
	var uvErr *json.UnsupportedValueError
	if (errors.As(err, &utErr) || errors.As(err, &uvErr)) && strings.Contains(t.String(), "map[") {
		// Keys fail once more when they are sorted, where nothing can be
		// reported yet.
		return
	}
	if len(failed) > 0 {
		r.Fail("error-changed", "%s: a callback failed with %v, the caller got %v", what, failed[0], err)
	}
	if stdErr == nil && stdPanic == nil {
		r.Fail("refused", "%s failed with %v, although everything in it can be encoded", what, err)
	}
}

// c17typedDec decodes documents for generated types, with refusing callbacks.
func c17typedDec(r *R) {
	genPoolMode(r)
	t := anyTypeAt(r)
	g := docGen{r: r, unknown: true, cb: true, budget: 25, esc: 5}
	text := g.gen(nil, t, 0)
	errUMNow = genUserErr(r)
	r.Defer(func() { errUMNow = errUM })
	flags := []jsoncolor.ParseFlags{0, 0, jsoncolor.ZeroCopy, jsoncolor.UseNumber, jsoncolor.DontMatchCaseInsensitiveStructFields}[r.Choose(5)]
	var dst any = reflect.New(t).Interface()
	if r.OneIn(5) {
		x := dst
		dst = &x
	}
	entry := r.Choose(3)
	what := fmt.Sprintf("%s %s into %s", []string{"Parse", "Unmarshal", "Decode"}[entry], q(text), short(t.String(), 200))
	var err error
	var pan any
	failed := collect(func() {
		pan = guarded(func() {
			switch entry {
			case 0:
				_, err = jsoncolor.Parse(text, dst, flags)
			case 1:
				err = jsoncolor.Unmarshal(text, dst)
			case 2:
				d := jsoncolor.NewDecoder(&fixedReader{b: append(append([]byte(nil), text...), ' '), a: simrt.AuxFrom(uint64(r.Choose(1 << 12))), max: []int{1 << 20, 1, 7, 50}[r.Choose(4)], err: io.EOF})
				err = d.Decode(dst)
			}
		})
	})
	r.nontrivial = len(failed) > 0 || pan != nil
	r.CountN("fault.unmarshaler_failure", len(failed))
	r.Trace("%s -> %v, panic %v, %d callbacks failed", what, err, pan, len(failed))
	r.Sample("%s -> %v, panic %v, %d callbacks failed", what, errText(err), pan, len(failed))
	simrt.NoteBytes([]byte(errText(err)))
	if pan != nil {
		if !ourPanic(pan) {
			if e, ok := pan.(runtime.Error); ok {
				r.Fail("panic", "%s panicked: %v", what, e)
			}
			r.Fail("panic", "%s: unexpected panic %v", what, pan)
		}
		return
	}
	if len(failed) > 0 && err == nil {
		r.Fail("swallowed", "%s succeeded although a callback failed with %v", what, failed[0])
	}
	if len(failed) > 0 && !errors.Is(err, failed[0]) {
		r.Fail("error-changed", "%s: a callback failed with %v, the caller got %v", what, failed[0], err)
	}
}

// ---- unusual types

// tPromo has the MarshalJSON of what it embeds.
type tPromo struct {
	mjV
	A int
}

// tPromoT has the MarshalText of what it embeds.
type tPromoT struct {
	A int
	ut
}

// both kinds of Marshalers
type mjmt struct{ c *cbk }

func (m mjmt) MarshalJSON() ([]byte, error)  { return m.c.json() }
func (m *mjmt) MarshalText() ([]byte, error) { return m.c.txt() }

// a map that decodes itself, by value
type vmap map[string]int

func (m vmap) UnmarshalJSON(b []byte) error {
	simrt.Yield()
	if string(b) == `"!do-fail"` {
		cbFailed(errUMNow)
		return errUMNow
	}
	if m != nil {
		m["len"] = len(b)
	}
	return nil
}

// a slice with its own text
type tslice []int

func (s tslice) MarshalText() ([]byte, error) { return fmt.Appendf(nil, "n%d", len(s)), nil }
func (s *tslice) UnmarshalText(b []byte) error {
	var u ut
	if err := u.UnmarshalText(b); err != nil {
		return err
	}
	*s = make(tslice, len(b)%7)
	return nil
}

// a scalar with its own JSON
type jint int

func (n jint) MarshalJSON() ([]byte, error) { return fmt.Appendf(nil, `{"n":%d}`, int(n)), nil }
func (n *jint) UnmarshalJSON(b []byte) error {
	var u um
	err := u.UnmarshalJSON(b)
	*n = jint(len(b))
	return err
}

// elements of byte slices with methods
type jbyte byte

func (n jbyte) MarshalJSON() ([]byte, error) { return fmt.Appendf(nil, `"b%d"`, byte(n)), nil }

type tbyte byte

func (n *tbyte) UnmarshalText(b []byte) error {
	var u ut
	err := u.UnmarshalText(b)
	*n = tbyte(len(b))
	return err
}

type embInt int
type EmbMap map[string]int
type EmbPtr struct{ Deep *EmbPtr2 }
type EmbPtr2 struct {
	X int `json:"x,omitempty"`
	Y mjP
}

// tOdd has every odd kind of field.
type tOdd struct {
	embInt
	EmbMap
	*EmbPtr
	fmt.Stringer
	MJ     json.Marshaler `json:"iface"`
	Arr0   [0]int
	Arr1   [1]EmbPtr2
	Fn     func()  `json:"-"`
	Dash   int     `json:"-,"`
	F32    float32 `json:",string"`
	B      *bool   `json:",string,omitempty"`
	S      string  `json:",string"`
	Up     uintptr
	PP     ***int
	Any    any `json:",omitempty"`
	Bytes  []jbyte
	TBytes []tbyte
	By4    [4]byte
	Err    error
	unexp  int
	M      map[ukStr]map[mkInt][]mkStr
	Gen    gen2[int, mjP]
}

type gen2[A, B any] struct {
	A A
	B *B
	L []gen2[B, A] `json:",omitempty"`
}

var oddTypes = []reflect.Type{
	reflect.TypeFor[tPromo](), reflect.TypeFor[tPromoT](), reflect.TypeFor[mjmt](), reflect.TypeFor[[]mjmt](), reflect.TypeFor[vmap](), reflect.TypeFor[[]vmap](),
	reflect.TypeFor[tslice](), reflect.TypeFor[map[string]tslice](), reflect.TypeFor[jint](), reflect.TypeFor[map[jint]jint](), reflect.TypeFor[[]jbyte](), reflect.TypeFor[[]tbyte](),
	reflect.TypeFor[tOdd](), reflect.TypeFor[*tOdd](), reflect.TypeFor[EmbPtr](), reflect.TypeFor[gen2[string, []int]](), reflect.TypeFor[gen2[any, tOdd]](), reflect.TypeFor[map[mkStr]*tOdd](),
	reflect.TypeFor[[0]tOdd](), reflect.TypeFor[***[]byte](), reflect.TypeFor[struct{ embInt }](), reflect.TypeFor[struct{ *EmbPtr }](), reflect.TypeFor[map[string]error](),
}
