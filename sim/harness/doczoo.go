package main

import (
	"encoding/base64"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// destTypes are the destinations documents are decoded into.
var destTypes = []reflect.Type{
	reflect.TypeFor[any](),
	reflect.TypeFor[tSmall](),
	reflect.TypeFor[tBig](),
	reflect.TypeFor[tPair](),
	reflect.TypeFor[tWrap](),
	reflect.TypeFor[tEmbedder](),
	reflect.TypeFor[tRawS](),
	reflect.TypeFor[tRec](),
	reflect.TypeFor[tMutA](),
	reflect.TypeFor[tMutB](),
	reflect.TypeFor[tInner](),
	reflect.TypeFor[[]int](),
	reflect.TypeFor[[]string](),
	reflect.TypeFor[map[string]int](),
	reflect.TypeFor[map[string]string](),
	reflect.TypeFor[map[string]any](),
	reflect.TypeFor[map[int]string](),
	reflect.TypeFor[map[tkey]int](),
	reflect.TypeFor[[3]int](),
	reflect.TypeFor[[]tInner](),
	reflect.TypeFor[*int](),
	reflect.TypeFor[string](),
	reflect.TypeFor[int](),
	reflect.TypeFor[int8](),
	reflect.TypeFor[uint16](),
	reflect.TypeFor[float64](),
	reflect.TypeFor[bool](),
	reflect.TypeFor[[]byte](),
	reflect.TypeFor[jsoncolor.RawMessage](),
	reflect.TypeFor[jsoncolor.Number](),
	reflect.TypeFor[time.Time](),
	reflect.TypeFor[um](),
	reflect.TypeFor[[]um](),
	reflect.TypeFor[map[string]um](),
	reflect.TypeFor[*um](),
	reflect.TypeFor[[]*ut](),
	reflect.TypeFor[ut](),
	reflect.TypeFor[namedMap](),
	reflect.TypeFor[[]any](),
	reflect.TypeFor[[][]any](),
	reflect.TypeFor[map[string]jsoncolor.RawMessage](),
	reflect.TypeFor[map[string][]jsoncolor.Number](),
	reflect.TypeFor[struct{}](),
	reflect.TypeFor[map[string]*tInner](),
	reflect.TypeFor[**tSmall](),
	reflect.TypeFor[chan int](),
	reflect.TypeFor[map[string]func()](),
	reflect.TypeFor[struct {
		A int
		C chan string
		B []complex128
	}](),
	reflect.TypeFor[[]tSmall](),
	reflect.TypeFor[map[namedStr]namedInt](),
}

// damagedTypes are the destinations damaged documents are decoded into.
var damagedTypes = append([]reflect.Type{
	reflect.TypeFor[[0]any](),
	reflect.TypeFor[[1]any](),
	reflect.TypeFor[[2]any](),
	reflect.TypeFor[[1]int](),
	reflect.TypeFor[[2]string](),
	reflect.TypeFor[[4]byte](),
	reflect.TypeFor[[2][]int](),
	reflect.TypeFor[[][2]any](),
	reflect.TypeFor[[1]map[string]any](),
	reflect.TypeFor[map[string][1]any](),
	reflect.TypeFor[struct {
		A [1]any
		B [2]int
		C struct{}
		D [0]tInner
	}](),
	reflect.TypeFor[[2]tInner](),
	reflect.TypeFor[[2]jsoncolor.RawMessage](),
	reflect.TypeFor[[2]struct{}](),
	reflect.TypeFor[[]struct{ A int }](),
	reflect.TypeFor[map[string]struct{ A []any }](),
	reflect.TypeFor[time.Duration](),
	reflect.TypeFor[[]time.Duration](),
	reflect.TypeFor[[]time.Time](),
	reflect.TypeFor[[]bool](),
	reflect.TypeFor[[]float32](),
	reflect.TypeFor[[]uint64](),
	reflect.TypeFor[[]int16](),
	reflect.TypeFor[[][]byte](),
	reflect.TypeFor[[]*int](),
	reflect.TypeFor[[]jsoncolor.Number](),
	reflect.TypeFor[[]jsoncolor.RawMessage](),
	reflect.TypeFor[map[uint8]bool](),
	reflect.TypeFor[map[int]any](),
	reflect.TypeFor[map[ut]int](),
}, destTypes...)

type docGen struct {
	r       *R
	types   []reflect.Type // destinations; nil: destTypes
	mism    int            // one in mism values does not fit (0: all fit)
	unknown bool
	cb      bool // failing and panicking Unmarshalers
	budget  int
	esc     int // one in esc strings is written with escapes
	large   int // large parts so far
}

// wide is the number of elements of a container.
func (g *docGen) wide(n int) int {
	if g.large > 0 || g.budget < 5 {
		return n
	}
	w := g.r.Wide()
	if w == 0 {
		return n
	}
	g.large++
	return w
}

func (g *docGen) text(n int) string {
	if g.large == 0 {
		if l := g.r.Long(); l > 0 {
			g.large++
			return bulkString(g.r, l, g.r.Choose(3))
		}
	}
	return genString(g.r, n)
}

var callbackDocs = []string{`"!do-fail"`, `"!do-panic"`, `"!do-nest"`}

func (g *docGen) str(b []byte, s string) []byte {
	st := &style{aux: nil}
	if g.esc > 0 && g.r.OneIn(g.esc) {
		for _, c := range s {
			if c < 0x10000 {
				b = b[:len(b):len(b)]
			}
		}
		b = append(b, '"')
		for i, c := range s {
			if i%2 == 0 && c < 0x10000 {
				b = fmt.Appendf(b, `\u%04x`, c)
			} else {
				one := st.str(nil, string(c))
				b = append(b, one[1:len(one)-1]...)
			}
		}
		return append(b, '"')
	}
	return st.str(b, s)
}

func (g *docGen) any(b []byte) []byte {
	st := genStyle(g.r)
	v := genValue(g.r, &genOpts{depth: 1 + g.r.Choose(3), big: 200, budget: 10}, 0)
	if g.large == 0 {
		var big bool
		if v, big = enlarge(g.r, v); big {
			g.large++
		}
	}
	return st.render(b, v)
}

// unfit are numbers that do not fit somewhere, unfitKeys texts that are no
// keys for maps with numbers for keys.
var (
	unfit     = []string{"-1", "128", "-129", "256", "300", "32768", "65536", "-70000", "2147483648", "4294967296", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1.5", "1e2", "-0", "0.0", "1E400", "-1e-400", "123456789012345678901234567890"}
	unfitKeys = []string{"", "x", "-1", "300", "70000", "5000000000", "99999999999999999999", "1.5", "1e2", "0x1", "01", "-0", " 1", "1 ", "null", "true", "{}", "\u00e9"}
)

func (g *docGen) gen(b []byte, t reflect.Type, depth int) []byte {
	g.budget--
	if g.mism > 0 && g.r.OneIn(g.mism) {
		g.r.Count("fault.type_mismatch")
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
			reflect.Float32, reflect.Float64:
			if g.r.OneIn(2) {
				return append(b, unfit[g.r.Choose(len(unfit))]...)
			}
		}
		return g.any(b)
	}
	if depth > 0 && g.r.OneIn(12) {
		return append(b, "null"...)
	}
	switch t {
	case reflect.TypeFor[time.Time]():
		return append(append(append(b, '"'), genTime(g.r).Format(time.RFC3339Nano)...), '"')
	case reflect.TypeFor[time.Duration]():
		d := int64(g.r.Choose(1 << 30))
		switch g.r.Choose(4) {
		case 1:
			return append(append(append(b, '"'), time.Duration(d).String()...), '"')
		case 2:
			return append(append(append(b, '"'), (time.Duration(d%90+1)*time.Second).String()...), '"')
		case 3:
			return append(append(append(b, '"'), (time.Duration(-d)*time.Millisecond).String()...), '"')
		}
		return strconv.AppendInt(b, d, 10)
	case reflect.TypeFor[jsoncolor.RawMessage]():
		return g.any(b)
	case reflect.TypeFor[jsoncolor.Number]():
		return append(b, genNumber(g.r)...)
	case reflect.TypeFor[um](), reflect.TypeFor[ut]():
		if g.cb && g.r.OneIn(3) {
			g.r.Count("fault.unmarshaler_failure")
			return append(b, callbackDocs[g.r.Choose(2)]...)
		}
		if t == reflect.TypeFor[um]() && g.r.OneIn(3) {
			return append(b, callbackDocs[2]...)
		}
		if t == reflect.TypeFor[um]() && g.r.OneIn(2) {
			return g.any(b)
		}
		return g.str(b, g.text(60))
	case reflect.TypeFor[[]byte]():
		switch g.r.Choose(6) {
		case 0: // as numbers
			b = append(b, '[')
			for i, c := range []byte(g.text(20)) {
				if i > 0 {
					b = append(b, ',')
				}
				b = strconv.AppendInt(b, int64(c), 10)
			}
			return append(b, ']')
		case 1: // with escapes
			b = append(b, '"')
			for i, c := range []byte(base64.StdEncoding.EncodeToString([]byte(g.text(40)))) {
				switch {
				case c == '/':
					b = append(b, '\\', '/')
				case c == '+' || i%5 == 3:
					b = fmt.Appendf(b, `\u%04x`, c)
				default:
					b = append(b, c)
				}
			}
			return append(b, '"')
		}
		return append(append(append(b, '"'), base64.StdEncoding.EncodeToString([]byte(g.text(60)))...), '"')
	}
	switch t.Kind() {
	case reflect.Interface:
		return g.any(b)
	case reflect.Pointer:
		return g.gen(b, t.Elem(), depth)
	case reflect.Bool:
		return strconv.AppendBool(b, g.r.Choose(2) == 0)
	case reflect.Int, reflect.Int64:
		return strconv.AppendInt(b, int64(g.r.Choose(1<<20))-1000, 10)
	case reflect.Int8:
		return strconv.AppendInt(b, int64(g.r.Choose(200))-100, 10) // sometimes too small or fine
	case reflect.Int16, reflect.Int32:
		return strconv.AppendInt(b, int64(g.r.Choose(30000)), 10)
	case reflect.Uint8:
		return strconv.AppendInt(b, int64(g.r.Choose(256)), 10)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.AppendInt(b, int64(g.r.Choose(65536)), 10)
	case reflect.Float32, reflect.Float64:
		return append(b, []string{"0", "1.5", "-2e3", "3.25E-2", "123456"}[g.r.Choose(5)]...)
	case reflect.String:
		return g.str(b, g.text(100))
	case reflect.Slice, reflect.Array:
		n := g.wide(g.r.Choose(4))
		if t.Kind() == reflect.Array && g.types != nil {
			n = g.r.Choose(t.Len() + 4)
		}
		if g.budget < 0 {
			n = 0
		}
		b = append(b, '[')
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = g.gen(b, t.Elem(), depth+1)
		}
		return append(b, ']')
	case reflect.Map:
		n := g.wide(g.r.Choose(4))
		if g.budget < 0 {
			n = 0
		}
		b = append(b, '{')
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			switch {
			case t.Key() == reflect.TypeFor[tkey]():
				b = g.str(b, "k"+strconv.Itoa(i))
			case t.Key().Kind() == reflect.String:
				b = g.str(b, genKey(g.r, i))
			case g.mism > 0 && g.r.OneIn(2*g.mism):
				g.r.Count("fault.key_mismatch")
				b = g.str(b, unfitKeys[g.r.Choose(len(unfitKeys))])
			default:
				b = g.str(b, strconv.Itoa(i))
			}
			b = append(b, ':')
			b = g.gen(b, t.Elem(), depth+1)
		}
		return append(b, '}')
	case reflect.Struct:
		var names []string
		var types []reflect.Type
		var quoted []bool
		fieldNames(t, &names, &types, &quoted)
		b = append(b, '{')
		n := 0
		start := 0
		count := len(names)
		if count > 8 {
			start, count = g.r.Choose(len(names)), 2+g.r.Choose(6)
		}
		for i := 0; i < count && g.budget > 0; i++ {
			j := (start + i) % len(names)
			if g.r.OneIn(4) {
				continue
			}
			if n > 0 {
				b = append(b, ',')
			}
			n++
			name := names[j]
			switch g.r.Choose(6) {
			case 4:
				name = strings.ToUpper(name)
			case 5:
				name = strings.ToLower(name)
			}
			b = g.str(b, name)
			b = append(b, ':')
			if quoted[j] {
				b = fmt.Appendf(b, `"%d"`, g.r.Choose(1000))
				continue
			}
			b = g.gen(b, types[j], depth+1)
		}
		if g.unknown && g.r.OneIn(3) {
			if n > 0 {
				b = append(b, ',')
			}
			b = append(b, `"unknown_field":`...)
			b = g.any(b)
		}
		return append(b, '}')
	case reflect.Chan, reflect.Func, reflect.Complex128, reflect.UnsafePointer:
		if g.r.OneIn(2) {
			return g.any(b)
		}
	}
	return append(b, "null"...)
}

func fieldNames(t reflect.Type, names *[]string, types *[]reflect.Type, quoted *[]bool) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, opts, _ := strings.Cut(f.Tag.Get("json"), ",")
		if tag == "-" {
			continue
		}
		ft := f.Type
		if f.Anonymous && tag == "" {
			if ft.Kind() == reflect.Pointer {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct {
				fieldNames(ft, names, types, quoted)
				continue
			}
		}
		if !f.IsExported() {
			continue
		}
		if tag == "" {
			tag = f.Name
		}
		*names = append(*names, tag)
		*types = append(*types, f.Type)
		*quoted = append(*quoted, strings.Contains(opts, "string"))
	}
}

// similarDoc is text with other digits in the same places.
func similarDoc(r *R, text []byte) []byte {
	a := simrt.AuxFrom(uint64(r.Choose(1 << 12)))
	every := 1 + r.Choose(4)
	out := append([]byte(nil), text...)
	for i, c := range out {
		if c >= '1' && c <= '9' && a.Intn(every) == 0 {
			out[i] = byte('1' + a.Intn(9))
		}
	}
	return out
}

// genDoc makes a destination type and a document for it.
func genDoc(r *R, g docGen) (reflect.Type, []byte) {
	types := g.types
	if types == nil {
		types = destTypes
	}
	t := types[r.Choose(len(types))]
	if r.OneIn(5) {
		t = anyTypeAt(r)
	}
	g.r = r
	if g.budget == 0 {
		g.budget = 25
	}
	return t, g.gen(nil, t, 0)
}
