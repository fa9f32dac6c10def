package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// onode is a value with an explicit member order.
type onode struct {
	kind byte // 's' scalar, 'a' array, 'm' Go map, 'r' fixed order (struct, raw)
	text string
	keys []string // texts
	kids []*onode
	mk   func(b *builder) any
}

// builder makes maps with varied histories.
type builder struct{ a *simrt.Aux }

// order returns a permutation in which members are inserted.
func (b *builder) order(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if b.a != nil {
		for i := n - 1; i > 0; i-- {
			j := b.a.Intn(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

func (b *builder) presize() int {
	if b.a == nil {
		return 0
	}
	return []int{0, 1, 9, 100, 2000}[b.a.Intn(5)]
}

// noise reports how many extra members are inserted and deleted again.
func (b *builder) noise() int {
	if b.a == nil {
		return 0
	}
	return []int{0, 0, 3, 40, 300}[b.a.Intn(5)]
}

type mapGen struct {
	r       *R
	budget  int
	depth   int
	colours bool
	maps    int
}

func (g *mapGen) scalar() *onode {
	switch g.r.Choose(4) {
	case 1:
		s := strings.ReplaceAll(genString(g.r, 30), "\x1b", "")
		return &onode{kind: 's', text: s, mk: func(*builder) any { return s }}
	case 2:
		return &onode{kind: 's', text: "null", mk: func(*builder) any { return nil }}
	}
	n := g.r.Choose(1000)
	return &onode{kind: 's', mk: func(*builder) any { return n }}
}

func (g *mapGen) size() int {
	switch g.r.Pick(3, 3, 2, 1) {
	case 0:
		return g.r.Choose(3)
	case 1:
		return 2 + g.r.Choose(4)
	case 2:
		return 6 + g.r.Choose(10)
	}
	if w := g.r.Wide(); w > 0 {
		return w
	}
	return 20 + g.r.Choose(60)
}

// strKey makes keys whose order is not obvious: prefixes of each other,
// digits, case, multi-byte, empty.
func (g *mapGen) strKeys(n int) []string {
	seen := map[string]bool{}
	var ks []string
	base := []string{"", "a", "A", "aa", "a0", "ab", "b", "10", "9", "1", "é", "e", "z", "世", "Z", "_", "~", "a\"", "a<", " "}
	off := g.r.Choose(len(base))
	pre := ""
	if g.r.OneIn(4) {
		// they differ late
		pre = strings.Repeat("k", []int{3, 7, 8, 15, 16, 23, 24, 32, 64, 100, 300}[g.r.Choose(11)])
	}
	for i := 0; len(ks) < n; i++ {
		k := pre + base[(i+off)%len(base)]
		if i >= len(base) {
			k += strconv.Itoa((i * 7919) % 100003)
		}
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	return ks
}

func (g *mapGen) gen(depth int) *onode {
	g.budget--
	if depth >= g.depth || g.budget <= 0 {
		return g.scalar()
	}
	n := g.size()
	if depth > 0 && !g.r.OneIn(10) {
		n = min(n, 6)
	}
	kinds := 11
	g.maps++
	switch g.r.Choose(kinds) {
	case 0, 1: // map[string]any and a named variant
		named := g.r.OneIn(3)
		nd := &onode{kind: 'm', keys: g.strKeys(n)}
		for range nd.keys {
			nd.kids = append(nd.kids, g.gen(depth+1))
		}
		nd.mk = func(b *builder) any {
			m := make(map[string]any, b.presize())
			z := b.noise()
			for i := 0; i < z; i++ {
				m["noise"+strconv.Itoa(i)] = i
			}
			for _, i := range b.order(n) {
				m[nd.keys[i]] = nd.kids[i].mk(b)
			}
			for i := 0; i < z; i++ {
				delete(m, "noise"+strconv.Itoa(i))
			}
			if named {
				return namedMap(m)
			}
			return m
		}
		return nd
	case 2: // map[string]RawMessage: values keep their source order
		nd := &onode{kind: 'm', keys: g.strKeys(n)}
		var raws []string
		for range nd.keys {
			k, s := g.raw()
			nd.kids = append(nd.kids, k)
			raws = append(raws, s)
		}
		nd.mk = func(b *builder) any {
			m := make(map[string]jsoncolor.RawMessage, b.presize())
			for _, i := range b.order(n) {
				m[nd.keys[i]] = jsoncolor.RawMessage(raws[i])
			}
			return m
		}
		return nd
	case 3: // map[string]int
		nd := &onode{kind: 'm', keys: g.strKeys(n)}
		for range nd.keys {
			nd.kids = append(nd.kids, &onode{kind: 's'})
		}
		nd.mk = func(b *builder) any {
			m := make(map[string]int, b.presize())
			z := b.noise()
			for i := 0; i < z; i++ {
				m["noise"+strconv.Itoa(i)] = i
			}
			for _, i := range b.order(n) {
				m[nd.keys[i]] = i
			}
			for i := 0; i < z; i++ {
				delete(m, "noise"+strconv.Itoa(i))
			}
			return m
		}
		return nd
	case 4: // integer keys are ordered by their text
		if g.colours {
			break
		}
		nd := &onode{kind: 'm'}
		var ks []int
		for i := 0; i < n; i++ {
			v := []int{0, -1, 9, 10, 100, 99, -10, 1000, 5, 2}[i%10] + (i/10)*10007
			ks = append(ks, v)
			nd.keys = append(nd.keys, strconv.Itoa(v))
			nd.kids = append(nd.kids, g.gen(depth+1))
		}
		nd.mk = func(b *builder) any {
			m := make(map[int]any, b.presize())
			for _, i := range b.order(n) {
				m[ks[i]] = nd.kids[i].mk(b)
			}
			return m
		}
		return nd
	case 5:
		if g.colours {
			break
		}
		nd := &onode{kind: 'm'}
		n = min(n, 25)
		for i := 0; i < n; i++ {
			nd.keys = append(nd.keys, strconv.Itoa(i*10%256+i/26))
			nd.kids = append(nd.kids, &onode{kind: 's'})
		}
		nd.keys = uniq(nd.keys)
		nd.kids = nd.kids[:len(nd.keys)]
		nd.mk = func(b *builder) any {
			m := make(map[uint8]string, b.presize())
			for _, i := range b.order(len(nd.keys)) {
				k, _ := strconv.Atoi(nd.keys[i])
				m[uint8(k)] = "v"
			}
			return m
		}
		return nd
	case 6: // text keys
		if g.r.OneIn(2) {
			nd := &onode{kind: 'm', keys: g.strKeys(n)}
			for range nd.keys {
				nd.kids = append(nd.kids, g.gen(depth+1))
			}
			nd.mk = func(b *builder) any {
				m := make(map[utKey]any, b.presize())
				for _, i := range b.order(n) {
					m[utKey{S: nd.keys[i]}] = nd.kids[i].mk(b)
				}
				return m
			}
			return nd
		}
		nd := &onode{kind: 'm'}
		n = min(n, 20)
		for i := 0; i < n; i++ {
			t, _ := tkey{A: i}.MarshalText()
			nd.keys = append(nd.keys, string(t))
			nd.kids = append(nd.kids, g.gen(depth+1))
		}
		nd.mk = func(b *builder) any {
			m := make(map[tkey]any, b.presize())
			for _, i := range b.order(n) {
				m[tkey{A: i}] = nd.kids[i].mk(b)
			}
			return m
		}
		return nd
	case 7: // struct: declaration order
		nd := &onode{kind: 'r', keys: []string{"Z", "A", "m"}}
		for range nd.keys {
			nd.kids = append(nd.kids, g.gen(depth+1))
		}
		nd.mk = func(b *builder) any {
			return &struct {
				Z, A any
				M    any `json:"m"`
			}{nd.kids[0].mk(b), nd.kids[1].mk(b), nd.kids[2].mk(b)}
		}
		return nd
	case 9: // a map behind a declared type
		in := g.gen(depth + 1)
		how := g.r.Choose(8)
		nd := &onode{kind: 'a', kids: []*onode{in}}
		if how == 5 || how == 6 || how == 7 {
			nd.kind, nd.keys = 'r', []string{"F"}
		}
		nd.mk = func(b *builder) any {
			v := in.mk(b)
			m, isMap := v.(map[string]any)
			str := asStringer(v)
			switch {
			case str == nil && nd.kind == 'r':
				return map[string]any{"F": v}
			case how == 1 && isMap:
				return []map[string]any{m}
			case how == 2 && isMap:
				return [1]map[string]any{m}
			case how == 3 && isMap:
				return []*map[string]any{&m}
			case how == 4 && str != nil:
				return []fmt.Stringer{str}
			case how == 5:
				return struct{ F fmt.Stringer }{str}
			case how == 6:
				return &struct{ F fmt.Stringer }{str}
			case how == 7:
				return map[string]fmt.Stringer{"F": str}
			}
			return []any{&v}
		}
		return nd
	case 10: // map of maps
		nd := &onode{kind: 'm', keys: g.strKeys(min(n, 5))}
		inner := g.strKeys(2 + g.r.Choose(4))
		for range nd.keys {
			k := &onode{kind: 'm', keys: inner}
			for range inner {
				k.kids = append(k.kids, &onode{kind: 's'})
			}
			nd.kids = append(nd.kids, k)
		}
		byInt := g.r.Choose(3)
		nd.mk = func(b *builder) any {
			in := func() map[string]int {
				m := map[string]int{}
				for _, i := range b.order(len(inner)) {
					m[inner[i]] = i
				}
				return m
			}
			switch byInt {
			case 1:
				m := map[namedStr]*map[string]int{}
				for _, i := range b.order(len(nd.keys)) {
					x := in()
					m[namedStr(nd.keys[i])] = &x
				}
				return m
			case 2:
				m := map[utKey]map[string]int{}
				for _, i := range b.order(len(nd.keys)) {
					m[utKey{S: nd.keys[i]}] = in()
				}
				return m
			}
			m := map[string]map[string]int{}
			for _, i := range b.order(len(nd.keys)) {
				m[nd.keys[i]] = in()
			}
			return m
		}
		return nd
	case 8:
		k, s := g.raw()
		if g.r.OneIn(2) {
			k.mk = func(*builder) any { return mjV{&cbk{text: s}} }
		} else {
			k.mk = func(*builder) any { return jsoncolor.RawMessage(s) }
		}
		return k
	}
	nd := &onode{kind: 'a'}
	for i := 0; i < min(n, 4); i++ {
		nd.kids = append(nd.kids, g.gen(depth+1))
	}
	nd.mk = func(b *builder) any {
		s := []any{}
		for _, k := range nd.kids {
			s = append(s, k.mk(b))
		}
		return s
	}
	return nd
}

// asStringer gives maps a method, so that they fit a declared interface.
func asStringer(v any) fmt.Stringer {
	switch v := v.(type) {
	case map[string]any:
		return strMap(v)
	case map[string]int:
		return strMapInt(v)
	case map[int]any:
		return strMapKey(v)
	case []any:
		return strSlice(v)
	}
	return nil
}

type strMap map[string]any
type strMapInt map[string]int
type strMapKey map[int]any
type strSlice []any

func (strMap) String() string    { return "" }
func (strMapInt) String() string { return "" }
func (strMapKey) String() string { return "" }
func (strSlice) String() string  { return "" }

func uniq(ks []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, k := range ks {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// raw makes source text with members in no particular order.
func (g *mapGen) raw() (*onode, string) {
	n := g.r.Choose(5)
	if g.r.OneIn(5) {
		n = g.r.Size(60)
	}
	dup, pre := g.r.OneIn(5), ""
	if g.r.OneIn(4) {
		pre = strings.Repeat("k", []int{1, 7, 31, 64, 200}[g.r.Choose(5)])
	}
	nd := &onode{kind: 'r'}
	s := "{"
	for i := 0; i < n; i++ {
		k := pre + []string{"zz", "b", "a", "10", "9"}[(i*3+2)%5]
		if i >= 5 && !dup {
			k += strconv.Itoa((i * 7919) % 1009)
		}
		if i > 0 {
			s += ","
		}
		s += " " + strconv.Quote(k) + ":"
		nd.keys = append(nd.keys, k)
		if i == 1 {
			s += `{"y":1, "x":[2] }`
			nd.kids = append(nd.kids, &onode{kind: 'r', keys: []string{"y", "x"}, kids: []*onode{{kind: 's'}, {kind: 'a', kids: []*onode{{kind: 's'}}}}})
		} else {
			s += strconv.Itoa(i)
			nd.kids = append(nd.kids, &onode{kind: 's'})
		}
	}
	return nd, s + "}"
}

// keyOrder lists all keys in document order, with sorted maps.
func (nd *onode) keyOrder(out *[]string) {
	switch nd.kind {
	case 'a':
		for _, k := range nd.kids {
			k.keyOrder(out)
		}
	case 'r', 'm':
		idx := make([]int, len(nd.keys))
		for i := range idx {
			idx[i] = i
		}
		if nd.kind == 'm' {
			sort.Slice(idx, func(a, b int) bool { return nd.keys[idx[a]] < nd.keys[idx[b]] })
		}
		*out = append(*out, "{")
		for _, i := range idx {
			*out = append(*out, nd.keys[i])
			nd.kids[i].keyOrder(out)
		}
		*out = append(*out, "}")
	}
}

// matchFree checks a parsed document whose maps may come in any order.
func (nd *onode) matchFree(p *parsed) bool {
	switch nd.kind {
	case 'a':
		if p.kind != 'a' || len(p.kids) != len(nd.kids) {
			return false
		}
		for i, k := range nd.kids {
			if !k.matchFree(p.kids[i]) {
				return false
			}
		}
	case 'r', 'm':
		if p.kind != 'o' || len(p.kids) != len(nd.kids) {
			return false
		}
		for i, key := range nd.keys {
			j := i
			if nd.kind == 'm' {
				for j = 0; j < len(p.keys) && p.keys[j] != key; j++ {
				}
				if j == len(p.keys) {
					return false
				}
			}
			if p.keys[j] != key || !nd.kids[i].matchFree(p.kids[j]) {
				return false
			}
		}
	default:
		return p.kind == 's'
	}
	return true
}

type parsed struct {
	kind byte
	keys []string
	kids []*parsed
}

func parseOrdered(b []byte) (p *parsed, keys []string, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var val func() (*parsed, error)
	val = func() (*parsed, error) {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch t {
		case json.Delim('{'):
			p := &parsed{kind: 'o'}
			keys = append(keys, "{")
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				p.keys = append(p.keys, k.(string))
				keys = append(keys, k.(string))
				v, err := val()
				if err != nil {
					return nil, err
				}
				p.kids = append(p.kids, v)
			}
			keys = append(keys, "}")
			_, err := d.Token()
			return p, err
		case json.Delim('['):
			p := &parsed{kind: 'a'}
			for d.More() {
				v, err := val()
				if err != nil {
					return nil, err
				}
				p.kids = append(p.kids, v)
			}
			_, err := d.Token()
			return p, err
		}
		return &parsed{kind: 's'}, nil
	}
	p, err = val()
	return
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

// c12: output under any map iteration order.
func c12(r *R) {
	cfg := genCfg(r)
	cfg.noSort = r.OneIn(3)
	cfg = cfg.asJSON() // keeps the output parseable
	g := &mapGen{r: r, budget: 60, depth: 1 + r.Choose(3), colours: cfg.colors != 0}
	nd := g.gen(0)
	r.nontrivial = g.maps > 0
	n := 2 + r.Choose(3)
	entry := r.Choose(3)
	genPoolMode(r)
	var want []string
	nd.keyOrder(&want)
	var first []byte
	col, in := mkColors(cfg.colors), cfg.indenter()
	var sink bytes.Buffer
	enc := jsoncolor.NewEncoder(&sink)
	cfg.apply(enc)
	for i := 0; i < n; i++ {
		simrt.SetMapSeed(uint64(r.Choose(1<<16)) + 1)
		b := &builder{}
		if i > 0 {
			b.a = simrt.NewAux()
		}
		v := nd.mk(b)
		var out []byte
		var err error
		switch {
		case entry == 0 && cfg == (encCfg{}):
			out, err = jsoncolor.Marshal(v)
		case entry == 1:
			sink.Reset()
			err = enc.Encode(v)
			out = append(out, bytes.TrimSuffix(sink.Bytes(), []byte("\n"))...)
		default:
			out, err = jsoncolor.Append(nil, v, cfg.flags(), col, in)
		}
		if err != nil {
			r.Fail("refused", "encoding a map value failed: %v", err)
		}
		simrt.NoteBytes(out)
		r.Count("reach.map_orders")
		plain := out
		if cfg.colors != 0 {
			plain = ansiRE.ReplaceAll(out, nil)
		}
		p, keys, err := parseOrdered(plain)
		if err != nil {
			r.Fail("unparsable", "(%s) output cannot be parsed: %v: %s", cfg, err, q(plain))
		}
		if cfg.noSort {
			if !nd.matchFree(p) {
				r.Fail("members", "(%s) output %s does not have the members of the value %v", cfg, q(plain), want)
			}
			if first != nil && loose(first) != loose(out) {
				r.Fail("nondeterministic", "(%s) outputs of equal values differ by more than the order of members: %s and %s", cfg, q(first), q(out))
			}
		} else {
			if fmt.Sprint(keys) != fmt.Sprint(want) {
				r.Fail("key-order", "(%s) keys are %q, in order they are %q", cfg, keys, want)
			}
			if first != nil && !bytes.Equal(first, out) {
				r.Fail("nondeterministic", "(%s) equal values encode to %s and %s", cfg, q(first), q(out))
			}
		}
		if first == nil {
			first = out
		}
	}
	if r.OneIn(2) {
		// the other setting of sorting changes the order only
		other := cfg
		other.noSort = !cfg.noSort
		out, err := jsoncolor.Append(nil, nd.mk(&builder{}), other.flags(), mkColors(cfg.colors), cfg.indenter())
		if err != nil {
			r.Fail("refused", "encoding a map value failed: %v", err)
		}
		if loose(first) != loose(out) {
			r.Fail("nondeterministic", "(%s) with the other setting of SortMapKeys, more than the order of members differs: %s and %s", cfg, q(first), q(out))
		}
	}
	r.Sample("%s: %d encodings of %s", cfg, n, short(string(first), 200))
}

func init() {
	register(&Scenario{ID: "C12", Run: c12, Quick: 200_000, Thorough: 8_000_000, Real: encReal,
		Stub: []string{"the runtime's map hash seed and iteration start (seeded by the simulator)", "sync.Pool (reuse decided by the tape)"},
		Rule: "one run = one nested value with maps of several key types, built 2 to 4 times with different insertion histories, sizes and map seeds, encoded under one configuration; key sequence compared with an independent ordering; non-trivial: at least one container, distinct by event log"})
}
