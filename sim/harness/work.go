package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strconv"
	"strings"
	"time"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// C20: work and memory. Work is counted in executed statements of the library,
// elements moved by copy and append and bytes searched by the standard library;
// memory is counted in bytes allocated and in bytes alive after a garbage collection.
// Everything is compared with another execution of the same code, never with
// absolute figures.

type cost struct {
	steps int64
	alloc int64
	moved int64 // copied, appended or searched through by the language and its library
}

func (c cost) String() string {
	return fmt.Sprintf("%d statements, %d bytes moved or searched, %d allocated", c.steps, c.moved, c.alloc)
}

func (c *cost) add(d cost) { c.steps += d.steps; c.alloc += d.alloc; c.moved += d.moved }

// measure runs f. Nothing that depends on the trace mode may happen in f.
func measure(f func()) cost {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	s, m := simrt.Steps(), simrt.Work()
	f()
	s, m = simrt.Steps()-s, simrt.Work()-m
	runtime.ReadMemStats(&b)
	return cost{s, int64(b.TotalAlloc - a.TotalAlloc), m}
}

func heapLive() int64 {
	var a runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	return int64(a.HeapAlloc)
}

// workReader delivers data in pieces that its own generator decides.
type workReader struct {
	data   []byte
	pos    int
	chunk  int // piece size; 0: all that fits
	jitter int
	empty  int // one of so many reads is empty
	err    error
	aux    simrt.Aux
	reads  int64
}

func (w *workReader) Read(p []byte) (int, error) {
	w.reads++
	if w.pos == len(w.data) {
		return 0, io.EOF
	}
	if w.empty > 0 && w.aux.Intn(w.empty) == 0 {
		return 0, nil
	}
	n := len(p)
	if w.chunk > 0 {
		n = min(n, w.chunk+w.aux.Intn(w.jitter+1))
	}
	n = copy(p[:n], w.data[w.pos:])
	w.pos += n
	return n, nil
}

// wide builds one document of about n bytes whose cost should grow with n.
func wide(kind, n int, aux *simrt.Aux) []byte {
	var b []byte
	switch kind % 12 {
	case 0: // array of small values
		b = append(b, '[')
		for i := 0; len(b) < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			switch aux.Intn(4) {
			case 0:
				b = strconv.AppendInt(b, int64(aux.Intn(1e6)), 10)
			case 1:
				b = append(b, "true"...)
			case 2:
				b = append(b, `"ab"`...)
			case 3:
				b = append(b, "null"...)
			}
		}
		b = append(b, ']')
	case 1: // object with many members
		b = append(b, '{')
		for i := 0; len(b) < n; i++ {
			if i > 0 {
				b = append(b, ", "...)
			}
			b = fmt.Appendf(b, `"key%06d":%d`, aux.Intn(1e6), i)
		}
		b = append(b, '}')
	case 2: // plain string
		b = append(b, '"')
		b = append(b, bytes.Repeat([]byte("plain text "), n/11+1)...)
		b = append(b, '"')
	case 3: // string full of escapes
		b = append(b, '"')
		for len(b) < n {
			b = append(b, []string{`\n`, `\u00e9`, `\"`, `\\`, `\ud83d\ude00`, `x`}[aux.Intn(6)]...)
		}
		b = append(b, '"')
	case 4: // long number
		b = append(b, '1')
		b = append(b, bytes.Repeat([]byte("0"), min(n, 300))...)
		b = append(b, '.')
		for len(b) < n {
			b = append(b, '0'+byte(aux.Intn(10)))
		}
	case 5: // white space inside
		b = append(b, '[')
		b = append(b, bytes.Repeat([]byte(" \n\t "), n/4)...)
		b = append(b, "1]"...)
	case 6: // records
		b = append(b, '[')
		for i := 0; len(b) < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = fmt.Appendf(b, `{"id":%d,"name":"n%d","tags":["a","b"],"sub":{"x":1.5,"y":null}}`, i, i)
		}
		b = append(b, ']')
	case 7: // non-ASCII text
		b = append(b, '"')
		b = append(b, strings.Repeat("héllo wörld → ☃ ", n/24+1)...)
		b = append(b, '"')
	case 8: // a long key
		b = append(b, `{"`...)
		b = append(b, bytes.Repeat([]byte("k"), n)...)
		b = append(b, `":[1,2,3]}`...)
	case 9: // empty containers
		b = append(b, '[')
		for len(b) < n {
			b = append(b, `[],{},"",`...)
		}
		b = append(b, `0]`...)
	case 10: // nested, moderately deep
		d := min(40, n/2)
		for i := 0; i < d; i++ {
			b = append(b, `[1,{"a":`...)
		}
		b = append(b, '"')
		b = append(b, bytes.Repeat([]byte("deep "), n/5)...)
		b = append(b, '"')
		for i := 0; i < d; i++ {
			b = append(b, `}]`...)
		}
	case 11: // strings that look like structure
		b = append(b, '[')
		for len(b) < n {
			b = append(b, `"]}[{\"",`...)
		}
		b = append(b, `0]`...)
	}
	return b
}

// A destination for values of any kind, by number.
func workDest(kind int) any {
	switch kind {
	case 1:
		return new(jsoncolor.RawMessage)
	case 2: // fails for most documents
		return new(int)
	case 3:
		return new(map[string]jsoncolor.RawMessage)
	case 4:
		return new([]struct {
			ID   int
			Name string
			Tags []string
			Sub  map[string]any
		})
	case 5:
		return new(um)
	}
	return new(any)
}

// limit for a cost that should match another one up to constant factors; n is
// the number of bytes and calls involved.
func (r *R) withinCost(class, what string, got, ref cost, n int64) {
	if got.steps > 6*ref.steps+60*n+20_000 {
		r.Fail(class, "%s: %v; reference %v for %d bytes and calls", what, got, ref, n)
	}
	if got.moved > 6*ref.moved+60*n+20_000 {
		r.Fail(class+"-moves", "%s: %v; reference %v for %d bytes and calls", what, got, ref, n)
	}
	if got.alloc > 6*ref.alloc+40*n+1_000_000 {
		r.Fail(class+"-memory", "%s: %v; reference %v for %d bytes and calls", what, got, ref, n)
	}
}

// c20stream: the same bytes in other pieces.
func c20stream(r *R) {
	aux := simrt.NewAux()
	var b []byte
	n := 1 + r.Choose(3)
	kinds := make([]int, n)
	for i := 0; i < n; i++ {
		kinds[i] = r.Choose(12)
		size := []int{600, 3000, 12_000, 40_000, 120_000}[r.Pick(1, 2, 3, 3, 1)]
		b = append(b, wide(kinds[i], size+aux.Intn(300), aux)...)
		if r.OneIn(5) { // a gap between documents
			b = append(b, bytes.Repeat([]byte(" \n"), aux.Intn(20_000))...)
		}
		b = append(b, '\n')
	}
	cutoff := false
	if r.OneIn(4) { // ends inside a value
		b = b[:len(b)-1-r.Choose(min(len(b)-1, 400))]
		cutoff = true
	}
	dest := r.Choose(6)
	chunk := []int{1, 2, 7, 16, 64, 200, 1000, 4095, 4096, 4097, 33_000}[r.Choose(11)]
	empty := []int{0, 0, 3, 20}[r.Choose(4)]
	jitter := []int{0, 3, 100}[r.Choose(3)]
	seed := uint64(r.Choose(1 << 16))
	run := func(rd *workReader) (c cost, vals, fails int) {
		c = measure(func() {
			dec := jsoncolor.NewDecoder(rd)
			for fails < 50 {
				err := dec.Decode(workDest(dest))
				switch {
				case err == nil:
					vals++
					continue
				case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
					return
				}
				fails++
			}
		})
		return
	}
	run(&workReader{data: []byte("[1] 2")}) // types known, pools filled
	calm, cv, cf := run(&workReader{data: b})
	frag := &workReader{data: b, chunk: chunk, jitter: jitter, empty: empty, aux: simrt.AuxFrom(seed)}
	got, gv, gf := run(frag)
	if gv != cv || gf != cf {
		r.Fail("outcome", "%d values and %d failures in one piece, %d and %d in pieces", cv, cf, gv, gf)
	}
	r.withinCost("fragmented", fmt.Sprintf("reading %d bytes in pieces of %d to %d (documents of kinds %v, destination %d)", len(b), chunk, chunk+jitter, kinds, dest),
		got, calm, int64(len(b))+frag.reads)
	if chunk < len(b)/4 {
		r.nontrivial = true
	}
	if cutoff {
		r.Count("fault.truncated_stream")
	}
	if empty > 0 {
		r.Count("fault.empty_read")
	}
	r.Count("fault.short_read")
	simrt.Note(uint64(got.steps))
	r.Sample("%d bytes in pieces of %d..%d, kinds %v, destination %d: %d statements, in one piece %d", len(b), chunk, chunk+jitter, kinds, dest, got.steps, calm.steps)
}

var errWork = errors.New("injected failure")

type failM struct{ mode int }

func (f failM) MarshalJSON() ([]byte, error) {
	switch f.mode {
	case 1:
		return nil, errWork
	case 2:
		panic(errWork)
	case 3:
		return []byte(`{"a":[1,2`), nil
	}
	return []byte(`{"b":[1,{"c":"d"}],"a":null}`), nil
}

type failU struct{ Fail int }

func (f *failU) UnmarshalJSON(b []byte) error {
	switch {
	case bytes.Contains(b, []byte("boom")):
		panic(errWork)
	case bytes.Contains(b, []byte("bad")):
		return errWork
	}
	return nil
}

type workWriter struct {
	n    int
	fail bool
}

func (w *workWriter) Write(p []byte) (int, error) {
	if w.fail {
		return 0, errWork
	}
	w.n += len(p)
	return len(p), nil
}

// c20steady: the same calls over and over in the life of one process, decoder,
// encoder or tokenizer.
func c20steady(r *R) {
	genPoolMode(r)
	aux := simrt.NewAux()
	nops := 1 + r.Choose(5)
	var ops []func()
	var names []string
	var nbytes int64
	add := func(name string, f func()) {
		ops = append(ops, func() {
			defer func() {
				if p := recover(); p != nil {
					if e, ok := p.(error); !ok || e != errWork {
						panic(p)
					}
				}
			}()
			f()
		})
		names = append(names, name)
	}
	ctr := 0 // makes documents differ from cycle to cycle
	for i := 0; i < nops; i++ {
		fail := r.Choose(4)
		if fail != 0 {
			r.Count("fault.callback_failure")
		}
		size := []int{20, 200, 3000, 9000}[r.Pick(4, 4, 2, 1)]
		text := wide(r.Choose(12), size, aux)
		cfg := genCfg(r)
		if fail != 0 {
			cfg.noSort = false // the place of the failure, and so the cost, would vary
		}
		switch r.Choose(10) {
		case 0, 1, 2:
			docs := [][]byte{text}
			for j := r.Choose(4); j > 0; j-- {
				docs = append(docs, wide(r.Choose(12), 10+aux.Intn(2000), aux))
			}
			if fail == 1 {
				docs = append(docs, []byte(`"bad"`))
			}
			if fail == 2 {
				docs = append(docs, []byte(`"boom"`))
			}
			if r.OneIn(2) {
				docs = append(docs, freshDoc(nil, 0))
			}
			rd := &endless{docs: docs, chunk: []int{0, 1, 9, 500, 5000}[r.Pick(2, 1, 2, 3, 2)], aux: simrt.AuxFrom(uint64(aux.Intn(1 << 30)))}
			if size > 1000 && rd.chunk == 1 {
				rd.chunk = 33
			}
			dec := jsoncolor.NewDecoder(rd)
			if r.OneIn(4) {
				dec.ZeroCopy()
			}
			dest := r.Choose(7)
			var kept any
			if r.OneIn(4) && len(docs[len(docs)-1]) > 2 && docs[len(docs)-1][2] != '~' {
				kept = workDest(dest) // always the same destination
				r.Count("reach.kept_destination")
			}
			add("decode", func() {
				for _, d := range docs {
					nbytes += int64(len(d)) + 40
					if kept != nil {
						dec.Decode(kept)
					} else if dest == 6 {
						dec.Decode(new(failU))
					} else {
						dec.Decode(workDest(dest))
					}
				}
			})
		case 3, 4:
			w := &workWriter{}
			enc := jsoncolor.NewEncoder(w)
			cfg.apply(enc)
			mk := workValue(r, aux, size, fail)
			if r.OneIn(2) {
				mk = freshValue(r, &ctr)
			}
			if r.OneIn(5) {
				w.fail = true
				r.Count("fault.write_error")
			}
			add("encode", func() { enc.Encode(mk()) })
		case 5:
			mk := workValue(r, aux, size, fail)
			if r.OneIn(2) {
				mk = freshValue(r, &ctr)
			}
			add("append", func() { jsoncolor.Append(nil, mk(), cfg.flags(), mkColors(cfg.colors), cfg.indenter()) })
		case 6:
			mk := workValue(r, aux, size, fail)
			if r.OneIn(2) {
				mk = freshValue(r, &ctr)
			}
			add("marshal", func() { jsoncolor.Marshal(mk()) })
		case 7:
			t := jsoncolor.NewTokenizer(nil)
			cut := len(text)
			if r.OneIn(2) {
				cut = r.Choose(cut + 1)
			}
			stop := 1 + r.Choose(40)
			add("tokenize", func() {
				t.Reset(text[:cut])
				for i := 0; t.Next() && i < stop; i++ {
				}
			})
		case 8:
			dest := r.Choose(6)
			fresh := r.OneIn(2)
			var buf []byte
			var kept any
			if !fresh && r.OneIn(3) {
				kept = workDest(dest)
				if r.OneIn(2) {
					kept = new([]any)
				}
				r.Count("reach.kept_destination")
			}
			add("unmarshal", func() {
				if kept != nil {
					jsoncolor.Unmarshal(text, kept)
					return
				}
				if fresh {
					ctr++
					buf = freshDoc(buf[:0], ctr)
					jsoncolor.Unmarshal(buf, workDest(dest))
					return
				}
				jsoncolor.Unmarshal(text, workDest(dest))
			})
		case 9:
			w := &workWriter{fail: fail == 1}
			mk := workValue(r, aux, size, fail)
			if r.OneIn(2) {
				mk = freshValue(r, &ctr)
			}
			add("new encoder", func() {
				enc := jsoncolor.NewEncoder(w)
				cfg.apply(enc)
				enc.Encode(mk())
			})
		}
	}
	// Bytes the decoders went through: how often one is looked at depends on
	// where the reads end.
	cycle := func() {
		for _, f := range ops {
			f()
		}
	}
	cycle()
	one := measure(cycle)
	// as many cycles as fit into the budget of a run
	// (the allocation is measured, not simulated: only its magnitude counts)
	mag := int64(64)
	for mag < one.alloc {
		mag *= 8
	}
	heaps := mag <= 32768 && r.OneIn(3)
	most, budget := int64(400), int64(3_000_000)
	if heaps {
		most, budget = 4000, 12_000_000
	}
	cycles := int(min(most, max(12, budget/(one.steps+mag/6+1000)))) &^ 3
	var h0 int64
	quarter := func() (c cost) {
		return measure(func() {
			for i := 0; i < cycles/4; i++ {
				cycle()
			}
		})
	}
	first := quarter()
	if heaps {
		h0 = heapLive()
	}
	quarter()
	quarter()
	nbytes = 0
	last := quarter()
	if last.steps > 3*first.steps+30*nbytes+60*int64(cycles)+20_000 {
		r.Fail("history", "%d cycles of %v: the first quarter cost %v, the last %v", cycles, names, first, last)
	}
	if last.moved > 3*first.moved+30*nbytes+60*int64(cycles)+20_000 {
		r.Fail("history-moves", "%d cycles of %v: the first quarter cost %v, the last %v", cycles, names, first, last)
	}
	if last.alloc > 3*first.alloc+2_000_000 {
		r.Fail("history-memory", "%d cycles of %v: the first quarter cost %v, the last %v", cycles, names, first, last)
	}
	if heaps {
		// Reached on every path with the decoders and encoders still alive.
		h1 := heapLive()
		if lim := int64(120_000); h1-h0 > lim {
			r.Fail("retained", "%d cycles of %v: %d bytes more alive than after a quarter of them (one cycle allocates %d)", cycles, names, h1-h0, one.alloc)
		}
		r.Count("reach.heap_compared")
		runtime.KeepAlive(ops)
	}
	r.nontrivial = cycles >= 40
	simrt.Note(uint64(last.steps))
	simrt.Note(uint64(cycles))
	r.Sample("%d cycles of %v: first quarter %d statements, last %d", cycles, names, first.steps, last.steps)
}

// endless is a reader that repeats its documents for ever.
type endless struct {
	docs  [][]byte
	i     int
	pos   int
	chunk int
	ctr   int
	aux   simrt.Aux
}

// freshDoc is a document with content of its own.
func freshDoc(b []byte, i int) []byte {
	i += 1_000_000
	return fmt.Appendf(b, `{"~%d":"text %d which has some length","n\u0041%d":%d.5,"s":{"k%d":["%d\n",null]},"ID":%d,"NAME%d":1}`, i, i, i, i, i, i, i, i)
}

// freshValue returns a maker of values with content of their own.
func freshValue(r *R, ctr *int) func() any {
	k := r.Choose(6)
	return func() any {
		*ctr++
		s := strconv.Itoa(1_000_000 + *ctr)
		switch k {
		case 1:
			return map[int]string{*ctr: "value " + s}
		case 2:
			return jsoncolor.RawMessage(freshDoc(nil, *ctr))
		case 3:
			return struct {
				A string
				B any
				C jsoncolor.Number
			}{"text " + s, []string{s + "<>"}, jsoncolor.Number(s)}
		case 4:
			return map[string]jsoncolor.RawMessage{"k" + s: jsoncolor.RawMessage(freshDoc(nil, *ctr))}
		case 5:
			return []any{map[tkey]string{{A: *ctr}: s}, "x" + s, float64(*ctr) + .25, []byte(s)}
		}
		return map[string]any{"key " + s: "value " + s, "b" + s: map[string]any{"c" + s: *ctr}}
	}
}

func (e *endless) Read(p []byte) (int, error) {
	n := len(p)
	if e.chunk > 0 {
		n = min(n, 1+e.aux.Intn(2*e.chunk))
	} else {
		n = min(n, 500_000)
	}
	m := 0
	for m < n {
		d := e.docs[e.i]
		if e.pos == 0 && len(d) > 2 && d[1] == '"' && d[2] == '~' {
			e.ctr++
			d = freshDoc(d[:0], e.ctr)
			e.docs[e.i] = d
		}
		if e.pos == len(d) {
			p[m] = '\n'
			m++
			e.pos = 0
			e.i = (e.i + 1) % len(e.docs)
			continue
		}
		c := copy(p[m:n], d[e.pos:])
		m += c
		e.pos += c
	}
	return m, nil
}

// workValue returns a maker of values to encode.
func workValue(r *R, aux *simrt.Aux, size, fail int) func() any {
	inner := failM{fail}
	n := size/8 + 1
	switch r.Choose(8) {
	case 1:
		m := map[string]any{"a": 1, "z": inner}
		for i := 0; i < n; i++ {
			m["k"+strconv.Itoa(i)] = i
		}
		return func() any { return m }
	case 2:
		s := make([]any, n)
		for i := range s {
			s[i] = "v" + strconv.Itoa(i)
		}
		s[n-1] = inner
		return func() any { return s }
	case 3:
		m := map[string]jsoncolor.RawMessage{}
		for i := 0; i < n; i++ {
			m["k"+strconv.Itoa(i)] = jsoncolor.RawMessage(`[1,{"a":2}]`)
		}
		if fail != 0 {
			m["x"] = jsoncolor.RawMessage(`[1`)
		}
		return func() any { return m }
	case 4:
		v := struct {
			A string
			B []byte
			M failM
			C map[int]string
		}{strings.Repeat("<é>", n), make([]byte, n), inner, map[int]string{1: "x", 20: "y", 3: "z"}}
		return func() any { return &v }
	case 5:
		raw := jsoncolor.RawMessage(wide(aux.Intn(12), size, aux))
		if fail == 1 {
			raw = raw[:len(raw)-1]
		}
		return func() any { return raw }
	case 6:
		var v any = inner
		for i := 0; i < min(n, 60); i++ {
			if i&1 == 0 {
				v = []any{v}
			} else {
				v = map[string]any{"n": v}
			}
		}
		return func() any { return v }
	case 7:
		s := strings.Repeat("text with <html> & \u2028 \n", n/4+1)
		return func() any { return s }
	}
	return func() any { return inner }
}

// c20scale: so many times the document for about so many times the cost.
func c20scale(r *R) {
	aux := simrt.NewAux()
	kind := r.Choose(12)
	op := r.Choose(9)
	dest := []int{0, 1, 3, 4}[r.Choose(4)]
	cfg := genCfg(r)
	vk := r.Choose(7)
	n := []int{300, 1000, 3000}[r.Choose(3)]
	ratio := []int{8, 16, 24}[r.Choose(3)]
	if op == 8 && r.OneIn(3) { // more than a few buffers
		n, ratio = 12_000, 64
		if kind != 2 && kind != 5 {
			kind = 8
		}
		if dest > 1 {
			dest = 1
		}
	}
	name := ""
	seed := uint64(aux.Intn(1 << 30))
	run := func(n int) (cost, int) {
		a := simrt.AuxFrom(seed)
		text := wide(kind, n, &a)
		size := len(text)
		var f func()
		switch op {
		case 0:
			name = "Unmarshal"
			f = func() { jsoncolor.Unmarshal(text, workDest(dest)) }
		case 1:
			name = "Valid"
			f = func() { jsoncolor.Valid(text) }
		case 2:
			name = "Tokenizer"
			f = func() {
				for t := jsoncolor.NewTokenizer(text); t.Next(); {
				}
			}
		case 3:
			name = "Append of raw JSON"
			f = func() {
				jsoncolor.Append(nil, jsoncolor.RawMessage(text), cfg.flags(), mkColors(cfg.colors), cfg.indenter())
			}
		case 4:
			name = "stream of small documents"
			var b []byte
			for len(b) < n {
				b = append(b, `{"id":1,"name":"x"} [1,2,"a\n"] "str" `...)
			}
			size = len(b)
			f = func() {
				dec := jsoncolor.NewDecoder(&workReader{data: b})
				for dec.Decode(workDest(dest)) != io.EOF {
				}
			}
		case 5, 6, 7:
			name = "encode"
			v := scaleValue(vk, n, &a)
			size = n
			f = func() {
				w := &workWriter{}
				enc := jsoncolor.NewEncoder(w)
				cfg.apply(enc)
				enc.Encode(v)
			}
		case 8:
			name = "document in a stream"
			f = func() {
				dec := jsoncolor.NewDecoder(&workReader{data: text})
				dec.Decode(workDest(dest))
			}
		}
		f()
		return measure(f), size
	}
	small, n1 := run(n)
	large, n2 := run(ratio * n)
	if n2 < n1 {
		n2 = n1
	}
	grow := int64(n2/n1) + 1
	if large.steps > 2*grow*small.steps+15*int64(n2)+20_000 {
		r.Fail("scaling", "%s (kind %d, value %d, destination %d, %v): %d bytes cost %v, %d bytes cost %v", name, kind, vk, dest, cfg, n1, small, n2, large)
	}
	if large.moved > 3*grow*small.moved+60*int64(n2)+20_000 {
		r.Fail("scaling-moves", "%s (kind %d, value %d, destination %d, %v): %d bytes cost %v, %d bytes cost %v", name, kind, vk, dest, cfg, n1, small, n2, large)
	}
	if large.alloc > 3*grow*small.alloc+8*int64(n2)+1_500_000 {
		r.Fail("scaling-memory", "%s (kind %d, value %d, destination %d, %v): %d bytes cost %v, %d bytes cost %v", name, kind, vk, dest, cfg, n1, small, n2, large)
	}
	r.nontrivial = true
	simrt.Note(uint64(large.steps))
	r.Sample("%s, kind %d: %d bytes %d statements, %d bytes %d statements", name, kind, n1, small.steps, n2, large.steps)
}

func scaleValue(kind, n int, a *simrt.Aux) any {
	k := n/8 + 1
	switch kind {
	case 1:
		m := map[string]any{}
		for i := 0; i < k; i++ {
			m["k"+strconv.Itoa(a.Intn(1e9))] = i
		}
		return m
	case 2:
		m := map[int]string{}
		for i := 0; i < k; i++ {
			m[a.Intn(1e9)] = "v"
		}
		return m
	case 3:
		m := map[tkey]int{}
		for i := 0; i < k; i++ {
			m[tkey{A: a.Intn(1e9)}] = i
		}
		return m
	case 4:
		s := make([]tSmall, k)
		return s
	case 5:
		return strings.Repeat("te<xt\n é", k)
	case 6:
		return make([]byte, n)
	}
	s := make([]any, k)
	for i := range s {
		s[i] = i
	}
	return s
}

// c20long: one small call over and over. What stays alive must not grow, not
// even by a few bytes per call.
func c20long(r *R) {
	genPoolMode(r)
	cfg := genCfg(r)
	small := []string{"0", `"a"`, "null", "{}", "[1]", `{"id":1}`, `{"a":"b\n"}`, "-1.5", `"bad"`, `"boom"`, "[1,[2,{}]]", "true"}
	docs := [][]byte{[]byte(small[r.Choose(len(small))])}
	for j := r.Choose(3); j > 0; j-- {
		docs = append(docs, []byte(small[r.Choose(len(small))]))
	}
	dest := r.Choose(7)
	mkDest := func() any {
		if dest == 6 {
			return new(failU)
		}
		return workDest(dest)
	}
	vals := []any{1, "text", nil, map[string]any{"k": 1}, []string{"a<"}, failM{}, failM{r.Choose(4)}, jsoncolor.RawMessage(`{"a":[1]}`), jsoncolor.RawMessage(`{"a":`), 1.5, map[int]bool{1: true}, []byte("x"), make(chan int), struct{ A, B any }{1, "x"}, jsoncolor.Number("12"), math.NaN(), time.Unix(0, 0).UTC(), map[string]jsoncolor.RawMessage{"a": jsoncolor.RawMessage("1")}}
	val := vals[r.Choose(len(vals))]
	if r.OneIn(3) {
		val = []any{val, vals[r.Choose(len(vals))]}
	}
	w := &workWriter{}
	enc := jsoncolor.NewEncoder(w)
	cfg.apply(enc)
	col, ind := mkColors(cfg.colors), cfg.indenter()
	dec := jsoncolor.NewDecoder(&endless{docs: docs, chunk: []int{0, 0, 3, 50}[r.Choose(4)], aux: simrt.AuxFrom(uint64(r.Choose(1 << 20)))})
	tok := jsoncolor.NewTokenizer(nil)
	var buf []byte
	i := 0
	n := 100_000
	var name string
	var f func()
	switch op := r.Choose(12); op {
	case 0, 1, 2:
		name, f = "Decode", func() { dec.Decode(mkDest()) }
	case 3:
		name, f = "Encode", func() { enc.Encode(val) }
	case 4:
		name, f = "Marshal", func() { jsoncolor.Marshal(val) }
	case 5:
		name, f = "Append", func() { buf, _ = jsoncolor.Append(buf[:0], val, cfg.flags(), col, ind) }
	case 6:
		name, f = "Unmarshal", func() { i++; jsoncolor.Unmarshal(docs[i%len(docs)], mkDest()) }
	case 7:
		name, f = "Parse", func() { i++; jsoncolor.Parse(docs[i%len(docs)], mkDest(), jsoncolor.ZeroCopy) }
	case 8:
		name, f = "Tokenizer", func() {
			i++
			tok.Reset(docs[i%len(docs)])
			for tok.Next() {
			}
		}
	case 9:
		name, f = "new encoder", func() {
			e := jsoncolor.NewEncoder(w)
			cfg.apply(e)
			e.Encode(val)
		}
	case 10:
		n = 20_000
		name, f = "new decoder", func() { jsoncolor.NewDecoder(&workReader{data: docs[0]}).Decode(mkDest()) }
	case 11:
		n = 30_000
		name, f = "changing documents", func() {
			i++
			buf = freshDoc(buf[:0], i)
			jsoncolor.Unmarshal(buf, mkDest())
		}
	}
	g := func(k int) {
		for ; k > 0; k-- {
			func() {
				defer func() {
					if p := recover(); p != nil {
						if e, ok := p.(error); !ok || e != errWork {
							panic(p)
						}
					}
				}()
				f()
			}()
		}
	}
	g(n / 4)
	h0 := heapLive()
	g(n - n/4)
	h1 := heapLive()
	if h1-h0 > 120_000 {
		r.Fail("retained", "%d times %s of %q or %T (destination %d, %v): %d bytes more alive than after a quarter of them", n, name, docs, val, dest, cfg, h1-h0)
	}
	runtime.KeepAlive(dec)
	runtime.KeepAlive(enc)
	runtime.KeepAlive(tok)
	r.Count("reach.many_small_calls")
	r.nontrivial = true
	r.Sample("%d times %s of %q or %T", n, name, docs, val)
}

// c20after: the same small calls before and after something large went the
// same way.
func c20after(r *R) {
	genPoolMode(r)
	aux := simrt.NewAux()
	n := 100 + r.Choose(300)
	bigSize := []int{20_000, 100_000, 400_000}[r.Pick(2, 3, 2)]
	kind := []int{0, 1, 2, 3, 5, 6, 7, 8, 9, 11}[r.Choose(10)]
	dest := []int{0, 1, 3, 4}[r.Choose(4)]
	big := wide(kind, bigSize, aux)
	fate := r.Choose(4) // of the large one
	switch fate {
	case 1: // broken near its end
		if len(big) > 20 {
			big = append(append([]byte(nil), big[:len(big)-3]...), "#\n"...)
		}
		r.Count("fault.malformed")
	case 2: // some component fails
		r.Count("fault.callback_failure")
	case 3: // some component panics
		r.Count("fault.callback_panic")
	}
	text := wide(r.Choose(12), 10+r.Choose(200), aux)
	cfg := genCfg(r)
	cfg.noSort = false
	var small func()
	var large []func()
	rd := &switchReader{doc: append(append([]byte(nil), text...), '\n'), chunk: []int{0, 3, 50, 1000, 8000}[r.Choose(5)]}
	w := &workWriter{}
	var name string
	vk := r.Choose(7)
	val := workValue(r, aux, 100, 0)()
	bigVal := func() any {
		v := scaleValue(vk, bigSize/2, aux)
		if fate == 2 {
			v = []any{v, failM{1}}
		} else if fate == 3 {
			v = []any{v, failM{2}}
		}
		return v
	}()
	op := r.Choose(7)
	if op == 0 {
		fate &= 1
	}
	if op == 0 && fate == 1 {
		op = 3 // a malformed stream is over
	}
	ind, col := cfg.indenter(), mkColors(cfg.colors)
	switch op {
	case 0:
		name = "Decode"
		dec := jsoncolor.NewDecoder(rd)
		if r.OneIn(3) {
			dec.ZeroCopy()
		}
		small = func() { dec.Decode(workDest(dest)) }
		large = append(large, func() {
			rd.once = append(append([]byte(nil), big...), '\n')
			for k := 0; k < 20_000 && rd.once != nil; k++ {
				dec.Decode(workDest(dest))
			}
			dec.Decode(workDest(dest))
		})
	case 1:
		name = "Encode"
		enc := jsoncolor.NewEncoder(w)
		cfg.apply(enc)
		small = func() { enc.Encode(val) }
		large = append(large, func() { enc.Encode(bigVal) })
	case 2:
		name = "Marshal"
		small = func() { jsoncolor.Marshal(val) }
		large = append(large, func() { jsoncolor.Marshal(bigVal) })
	case 3:
		name = "Unmarshal"
		small = func() { jsoncolor.Unmarshal(text, workDest(dest)) }
		large = append(large, func() { jsoncolor.Unmarshal(big, workDest(dest)) })
	case 4:
		name = "Tokenizer"
		t := jsoncolor.NewTokenizer(nil)
		run := func(b []byte) {
			for t.Reset(b); t.Next(); {
			}
		}
		small = func() { run(text) }
		large = append(large, func() { run(big) })
	case 5:
		name = "Append"
		small = func() { jsoncolor.Append(nil, val, cfg.flags(), col, ind) }
		large = append(large, func() { jsoncolor.Append(nil, bigVal, cfg.flags(), col, ind) })
	case 6:
		name = "new Decoder, Encoder"
		small = func() {
			jsoncolor.NewDecoder(&workReader{data: text}).Decode(workDest(dest))
			enc := jsoncolor.NewEncoder(w)
			cfg.apply(enc)
			enc.Encode(val)
		}
		large = append(large,
			func() { jsoncolor.NewDecoder(&workReader{data: big}).Decode(workDest(dest)) },
			func() { jsoncolor.NewEncoder(w).Encode(bigVal) })
	}
	all := func() {
		for i := 0; i < n; i++ {
			small()
		}
	}
	small()
	before := measure(all)
	for _, f := range large {
		func() {
			defer func() {
				if p := recover(); p != nil {
					if e, ok := p.(error); !ok || e != errWork {
						panic(p)
					}
				}
			}()
			f()
		}()
	}
	for i := 0; i < 3; i++ {
		small()
	}
	if op == 0 { // what was read ahead with the large document
		rd.drain = true
		for k := 0; k < 200_000 && rd.drain; k++ {
			small()
		}
	}
	after := measure(all)
	nb := int64(n) * int64(len(text)+100)
	what := func() string {
		return fmt.Sprintf("%d times %s of %d bytes or %T (destination %d, %v), then a large one (%d bytes of kind %d or %T, fate %d)", n, name, len(text), val, dest, cfg, len(big), kind, bigVal, fate)
	}
	if after.steps > 3*before.steps+30*nb+20_000 {
		r.Fail("after-large", "%s: before %v, after %v", what(), before, after)
	}
	if after.moved > 3*before.moved+30*nb+1_500_000 {
		r.Fail("after-large-moves", "%s: before %v, after %v", what(), before, after)
	}
	if after.alloc > 3*before.alloc+2_500_000 {
		r.Fail("after-large-memory", "%s: before %v, after %v", what(), before, after)
	}
	r.nontrivial = true
	r.Count("reach.after_large")
	simrt.Note(uint64(after.steps))
	r.Sample("%s: before %d statements, after %d", what(), before.steps, after.steps)
}

// switchReader delivers a document over and over, another one once.
type switchReader struct {
	doc   []byte
	once  []byte // in place of the next doc
	cur   []byte
	chunk int
	drain bool // until the next read
}

func (w *switchReader) Read(p []byte) (n int, err error) {
	w.drain = false
	if w.chunk > 0 && len(p) > w.chunk {
		p = p[:w.chunk]
	}
	for n < len(p) && n < 300_000 {
		if len(w.cur) == 0 {
			w.cur = w.doc
			if w.once != nil {
				w.cur, w.once = w.once, nil
			}
		}
		m := copy(p[n:], w.cur)
		w.cur = w.cur[m:]
		n += m
	}
	return n, nil
}

func c20(r *R) {
	if r.OneIn(40) {
		c20long(r)
		return
	}
	switch r.Pick(4, 3, 3, 2) {
	case 3:
		c20after(r)
	case 0:
		c20stream(r)
	case 1:
		c20steady(r)
	case 2:
		c20scale(r)
	}
}

func init() {
	register(&Scenario{ID: "C20", Run: c20, Quick: 16_000, Thorough: 1_000_000, Budget: 2_000_000_000,
		Real: []string{"jsoncolor: Decoder, Encoder, Marshal, Append, Unmarshal, Valid, Tokenizer, codec cache"},
		Stub: []string{"io.Reader (simulated transport)", "io.Writer", "sync.Pool (reuse decided by the simulator)", "user Marshalers and Unmarshalers (failing, panicking)"},
		Rule: "one run = one comparison of costs of the same code: the same stream in one piece and in tape-chosen pieces, the first and the last quarter of many cycles of the same calls (with failures and panics), or a document and one many times its size, the same small calls before and after a large one, or what is alive after a quarter and all of 20 000 to 100 000 small calls; non-trivial: pieces smaller than a quarter of the stream, at least 40 cycles, or a size comparison"})
}
