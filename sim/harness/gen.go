package main

import (
	"bytes"
	"fmt"
	"strconv"
	"time"
	"unicode/utf16"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// JV is a JSON value known to the generator, independent of the library.
type JV struct {
	K byte // 'n' null, 't' true, 'f' false, '0' number, 's' string, 'a' array, 'o' object
	S string
	A []JV
	M []Member
}

type Member struct {
	Key string
	V   JV
}

// Any returns the Go value encoding/json documents for decoding into any.
func (v JV) Any(useNumber bool) any {
	switch v.K {
	case 't':
		return true
	case 'f':
		return false
	case '0':
		if useNumber {
			return jsoncolor.Number(v.S)
		}
		f, err := strconv.ParseFloat(v.S, 64)
		if err != nil {
			panic(harnessError{"number out of range: " + v.S})
		}
		return f
	case 's':
		return v.S
	case 'a':
		a := make([]any, 0, len(v.A))
		for _, e := range v.A {
			a = append(a, e.Any(useNumber))
		}
		return a
	case 'o':
		m := make(map[string]any, len(v.M))
		for _, e := range v.M {
			m[e.Key] = e.V.Any(useNumber)
		}
		return m
	}
	return nil
}

// equalAny compares two decoded values without reflect (fast, exact).
func equalAny(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case jsoncolor.Number:
		y, ok := b.(jsoncolor.Number)
		return ok && x == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !equalAny(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !equalAny(e, f) {
				return false
			}
		}
		return true
	}
	return false
}

type genOpts struct {
	depth    int
	big      int // largest string or fan-out
	budget   int // remaining nodes
	noTopNum bool
}

// genValue builds a value.
func genValue(r *R, o *genOpts, depth int) JV {
	o.budget--
	top := depth == 0
	if depth >= o.depth || o.budget <= 0 {
		return genScalar(r, o, top)
	}
	switch r.Pick(4, 3, 4) {
	case 1:
		n := r.Size(min(8, max(1, o.budget)))
		v := JV{K: 'a'}
		for i := 0; i < n && o.budget > 0; i++ {
			v.A = append(v.A, genValue(r, o, depth+1))
		}
		return v
	case 2:
		n := r.Size(min(8, max(1, o.budget)))
		v := JV{K: 'o'}
		for i := 0; i < n && o.budget > 0; i++ {
			k := genKey(r, i)
			v.M = append(v.M, Member{k, genValue(r, o, depth+1)})
		}
		return v
	}
	return genScalar(r, o, top)
}

// enlarge rarely makes something wide, long or deep of v.
func enlarge(r *R, v JV) (JV, bool) {
	if w := r.Wide(); w > 0 {
		return widen(r, v, w), true
	}
	if l := r.Long(); l > 0 {
		s := JV{K: 's', S: bulkString(r, l, r.Choose(3))}
		switch r.Choose(3) {
		case 0:
			return s, true
		case 1:
			return JV{K: 'a', A: []JV{v, s, v}}, true
		}
		return JV{K: 'o', M: []Member{{s.S, v}, {"x", s}}}, true
	}
	if d := r.Deep(); d > 0 {
		k := r.Choose(2)
		for i := 0; i < d; i++ {
			if i&k == 0 {
				v = JV{K: 'a', A: []JV{v}}
			} else {
				v = JV{K: 'o', M: []Member{{"in", v}}}
			}
		}
		return v, true
	}
	return v, false
}

// widen puts v among w plain values.
func widen(r *R, v JV, w int) JV {
	at := []int{w, 0, r.Choose(w)}[r.Choose(3)]
	obj := r.OneIn(2)
	plain := []JV{{K: '0', S: "7"}, {K: 's', S: "el"}, {K: 'n'}, {K: 'a'}}
	k := r.Choose(4)
	out := JV{K: 'a'}
	if obj {
		out.K = 'o'
	}
	for i := 0; i <= w; i++ {
		x := plain[(i*k)&3]
		if i == at {
			x = v
		}
		if obj {
			out.M = append(out.M, Member{"w" + strconv.Itoa(i*7919), x})
		} else {
			out.A = append(out.A, x)
		}
	}
	return out
}

func genScalar(r *R, o *genOpts, top bool) JV {
	if top && o.noTopNum {
		if r.OneIn(4) {
			return JV{K: "ntf"[r.Choose(3)]}
		}
		return JV{K: 's', S: genString(r, o.big)}
	}
	switch r.Pick(4, 4, 2) {
	case 0:
		return JV{K: '0', S: genNumber(r)}
	case 1:
		return JV{K: 's', S: genString(r, o.big)}
	}
	return JV{K: "ntf"[r.Choose(3)]}
}

func genKey(r *R, i int) string {
	if r.near != "" && r.Choose(2) == 1 {
		b := []byte(r.near)
		b[[]int{len(b) - 1, 0, len(b) / 2}[i%3]] = byte('A' + i/3%26)
		if i >= 78 || len(b) < 3 {
			b = strconv.AppendInt(b, int64(i), 10)
		}
		return string(b)
	}
	switch r.Choose(5) {
	case 1:
		return "key" + strconv.Itoa(i)
	case 2:
		return strconv.Itoa(i) + genString(r, 12)
	case 3:
		return "k\"\\" + strconv.Itoa(i)
	case 4:
		return "é世" + strconv.Itoa(i)
	}
	return string(rune('a'+i%26)) + map[bool]string{true: strconv.Itoa(i), false: ""}[i >= 26]
}

func genNumber(r *R) string {
	if r.near != "" && r.Choose(3) == 1 {
		return nearNumbers[(len(r.near)%3)*10+r.Choose(10)]
	}
	a := strconv.Itoa(r.Choose(10))
	switch r.Choose(9) {
	case 1:
		return "-" + a
	case 2:
		return strconv.Itoa(r.Choose(1 << 20))
	case 3:
		return strconv.Itoa(1+r.Choose(99)) + "." + strconv.Itoa(r.Choose(1000))
	case 4:
		return strconv.Itoa(1+r.Choose(99)) + "e" + strconv.Itoa(r.Choose(20))
	case 5:
		return "-" + strconv.Itoa(1+r.Choose(99)) + ".5E-" + strconv.Itoa(r.Choose(20))
	case 6:
		return "0." + strconv.Itoa(r.Choose(100000))
	case 7:
		return strconv.Itoa(1+r.Choose(9)) + "E+" + strconv.Itoa(r.Choose(9))
	case 8:
		n := r.Choose(40)
		s := "1"
		for i := 0; i < n; i++ {
			s += strconv.Itoa((i * 7) % 10)
		}
		return s
	}
	return a
}

// In some runs many strings, keys, numbers and times are nearly the same, or
// the same, so that whatever tells them apart has to look at all of them.
func genNear(r *R) {
	if r.Choose(4) != 1 {
		return
	}
	r.near = bulkString(r, nearSizes[r.Choose(len(nearSizes))], 0)
}

var nearSizes = []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 128, 300}

var nearNumbers = []string{
	"1", "1.0", "1e0", "10", "-1", "100e-2", "1.00", "11", "12", "1.01",
	"123456789012", "123456789013", "-123456789012", "123456789012.0", "12345678901", "1234567890123", "123456789012e1", "223456789012", "1.23456789012", "123456789012",
	"0.1", "0.10", "-0.1", "0.2", "1e-1", "0.11", "0.1e1", "0", "-0", "0.0",
}

func nearString(r *R) string {
	b := []byte(r.near)
	n := len(b)
	at := []int{n - 1, 0, n / 2}[r.Choose(3)]
	switch r.Choose(10) {
	case 1:
		b[at] = 'A'
	case 2:
		b[at] = 'B'
	case 3:
		b = b[:n-1]
	case 4:
		b = append(b, 'z')
	case 5:
		b = bytes.ToUpper(b)
	case 6:
		b[at] = "\"\\<\n\x01\x7f/"[r.Choose(7)]
	case 7:
		return r.near[:at] + "\u2028" + r.near[at:]
	case 8:
		return r.near[:at] + "\u00e9" + r.near[at:]
	}
	return string(b)
}

func genTime(r *R) time.Time {
	if r.near == "" || r.Choose(2) == 0 {
		return time.Unix(int64(r.Choose(1<<30)), int64(r.Choose(1e9))).UTC()
	}
	t := time.Unix(int64(len(r.near))*1e6, 0).UTC()
	switch r.Choose(6) {
	case 1:
		t = t.Add(1)
	case 2:
		t = t.Add(time.Second)
	case 3:
		t = t.In(time.FixedZone("", 3600))
	case 4:
		t = t.Add(24 * time.Hour)
	}
	return t
}

var stringBits = []string{"a", "bc", " ", "\"", "\\", "\n", "\t", "/", "\u0001", "é", "世界", "\U0001F600", "<&>", "\u2028", "{}", "[],:", "0123456789", "\x7f", "null", "\r", "\b\f", "=", "\u00ff", "}", "true"}

// genString makes a string; long ones draw their contents in bulk.
func genString(r *R, big int) string {
	if r.near != "" && r.Choose(2) == 1 {
		return nearString(r)
	}
	switch r.Pick(5, 4, 2, 1) {
	case 0:
		return "xyz"[:r.Choose(4)]
	case 1:
		n := r.Choose(6)
		s := ""
		for i := 0; i < n; i++ {
			s += stringBits[r.Choose(len(stringBits))]
		}
		return s
	case 2:
		return bulkString(r, r.Choose(60), r.Choose(3))
	}
	if big > 200 {
		return bulkString(r, r.Choose(big), r.Choose(3))
	}
	return bulkString(r, r.Choose(200), r.Choose(3))
}

func bulkString(r *R, n, kind int) string {
	a := simrt.NewAux()
	b := make([]byte, 0, n+8)
	for len(b) < n {
		switch {
		case kind == 0:
			b = append(b, 'a'+byte(a.Intn(26)))
		case kind == 1 && a.Intn(8) != 0:
			b = append(b, ' '+1+byte(a.Intn(90)))
		default:
			b = append(b, stringBits[a.Intn(len(stringBits))]...)
		}
	}
	return string(b)
}

// render writes v with varied, valid spelling.
type style struct {
	space int // 0 none, n: one in n positions gets white space
	esc   int // 0 minimal escapes, n: one in n characters is \u escaped
	aux   *simrt.Aux
}

func genStyle(r *R) *style {
	s := &style{aux: simrt.NewAux()}
	switch r.Choose(4) {
	case 1:
		s.space = 3
	case 2:
		s.esc = 6
	case 3:
		s.space, s.esc = 4, 3
	}
	return s
}

var spaces = []string{" ", "\n", "\t", "\r\n", "  ", "\n    "}

func (s *style) sp(b []byte) []byte {
	if s.space > 0 && s.aux.Intn(s.space) == 0 {
		b = append(b, spaces[s.aux.Intn(len(spaces))]...)
	}
	return b
}

func (s *style) str(b []byte, x string) []byte {
	b = append(b, '"')
	for _, c := range x {
		if s.esc > 0 && s.aux.Intn(s.esc) == 0 {
			if c > 0xffff {
				h, l := utf16.EncodeRune(c)
				b = fmt.Appendf(b, `\u%04x\u%04X`, h, l)
			} else {
				b = fmt.Appendf(b, `\u%04x`, c)
			}
			continue
		}
		switch c {
		case '"', '\\':
			b = append(b, '\\', byte(c))
		case '/':
			if s.esc > 0 && s.aux.Intn(2) == 0 {
				b = append(b, '\\')
			}
			b = append(b, '/')
		case '\n':
			b = append(b, `\n`...)
		case '\r':
			b = append(b, `\r`...)
		case '\t':
			b = append(b, `\t`...)
		case '\b':
			b = append(b, `\b`...)
		case '\f':
			b = append(b, `\f`...)
		default:
			if c < 0x20 {
				b = fmt.Appendf(b, `\u%04x`, c)
			} else {
				b = append(b, string(c)...)
			}
		}
	}
	return append(b, '"')
}

func (s *style) render(b []byte, v JV) []byte {
	switch v.K {
	case 'n':
		return append(b, "null"...)
	case 't':
		return append(b, "true"...)
	case 'f':
		return append(b, "false"...)
	case '0':
		return append(b, v.S...)
	case 's':
		return s.str(b, v.S)
	case 'a':
		b = append(b, '[')
		for i, e := range v.A {
			if i > 0 {
				b = append(b, ',')
			}
			b = s.sp(b)
			b = s.render(b, e)
			b = s.sp(b)
		}
		if len(v.A) == 0 {
			b = s.sp(b)
		}
		return append(b, ']')
	}
	b = append(b, '{')
	for i, e := range v.M {
		if i > 0 {
			b = append(b, ',')
		}
		b = s.sp(b)
		b = s.str(b, e.Key)
		b = s.sp(b)
		b = append(b, ':')
		b = s.sp(b)
		b = s.render(b, e.V)
		b = s.sp(b)
	}
	if len(v.M) == 0 {
		b = s.sp(b)
	}
	return append(b, '}')
}

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }
