package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unsafe"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
	simsync "github.com/neilotoole/jsoncolor/zz_simsync"
)

var encReal = []string{"jsoncolor encoders, codecs, Indenter, Colors, RawMessage tokenizer (instrumented real code)"}

// simWriter is the far side of an encoder.
type simWriter struct {
	r      *R
	calls  [][]byte
	next   int // what the next Write does: 0 ok, see modes below
	err    error
	reent  func()
	failed int
	torn   int // bytes accepted by the failing write
}

const (
	wOK = iota
	wFail
	wShort
	wFullErr
	wSlow
	wReent
	wPanic
)

type writerPanic struct{}

func (w *simWriter) Write(p []byte) (int, error) {
	c := append([]byte(nil), p...)
	w.calls = append(w.calls, c)
	simrt.NoteBytes(c)
	mode := w.next
	w.next = wOK
	switch mode {
	case wFail:
		w.r.Count("fault.write_error")
		w.failed++
		return 0, w.err
	case wShort:
		w.r.Count("fault.short_write")
		w.failed++
		n := 0
		if len(p) > 0 {
			n = w.r.Choose(len(p))
		}
		w.torn = n
		return n, w.err
	case wFullErr:
		w.r.Count("fault.error_after_full_write")
		w.failed++
		return len(p), w.err
	case wSlow:
		simrt.Sleep(int64(w.r.Choose(100)))
	case wReent:
		w.r.Count("fault.reentrant_write")
		w.reent()
	case wPanic:
		w.r.Count("fault.writer_panic")
		panic(writerPanic{})
	}
	if !bytes.Equal(c, p) {
		w.r.Fail("buffer-changed", "the bytes handed to Write changed during the call: %s became %s", q(c), q(p))
	}
	return len(p), nil
}

var writerErrs = append(ioErrs, errors.New("disk full"), io.EOF)

// pristine renders v from the initial package state with fresh objects.
func pristine(cfg encCfg, v any) (out []byte, errs, pan string) {
	simrt.Reset()
	pm := simsync.PoolMode
	simsync.PoolMode = 2
	p := guarded(func() {
		b, err := jsoncolor.Append(nil, v, cfg.flags(), mkColors(cfg.colors), cfg.indenter())
		out, errs = b, errText(err)
	})
	simsync.PoolMode = pm
	if p != nil {
		pan = fmt.Sprintf("%T %v", p, p)
	}
	return
}

func genPoolMode(r *R) { simsync.PoolMode = r.Choose(3) }

// pad puts v next to something large.
func pad(r *R, mk func() any) func() any {
	if !r.OneIn(8) {
		return mk
	}
	n := []int{4090, 8185, 32760, 65530, 131060, 300000}[r.Choose(6)] + r.Choose(12)
	s := strings.Repeat("0123456789abcdef", n/16+1)[:n]
	return func() any { return []any{s, mk()} }
}

// c07: one document, one Write, or the failure is reported.
func c07(r *R) {
	genPoolMode(r)
	if r.OneIn(8) {
		c07std(r)
		return
	}
	w := &simWriter{r: r}
	enc := jsoncolor.NewEncoder(w)
	if r.OneIn(3) {
		enc = jsoncolor.NewEncoder(richWriter{w})
		r.Count("reach.writer_with_methods")
	}
	cfg := encCfg{}
	if !r.OneIn(3) {
		cfg = genCfg(r)
		cfg.apply(enc)
	}
	type done struct {
		cfg  encCfg
		v    any
		got  []byte
		what string
	}
	var oks []done
	sticky := error(nil)
	n := 1 + r.Choose(7)
	var log []string
	for i := 0; i < n; i++ {
		if r.OneIn(5) && sticky == nil {
			cfg = genCfg(r)
			if !cfg.setIndent {
				cfg.setIndent, cfg.prefix, cfg.indent = true, "", ""
			}
			cfg.apply(enc)
		}
		g := newEncGen(r)
		g.reenter = r.OneIn(3)
		kind := r.Pick(6, 2, 1)
		var mk func() any
		switch kind {
		case 0:
			mk = pad(r, g.gen(0, false))
		case 1:
			mk = pad(r, g.gen(0, true))
			r.Count("fault.unencodable_value")
		case 2:
			g.panics = true
			mk = g.gen(0, true)
			r.Count("fault.callback_panic")
		}
		v := mk()
		expectBad := kind == 1 && !(g.trustOK && cfg.trust)
		mode := r.Pick(8, 2, 2, 1, 1, 2, 1)
		if mode == wPanic && !r.OneIn(3) {
			mode = wOK
		}
		w.next, w.err, w.failed = mode, writerErrs[r.Choose(len(writerErrs))], 0
		inner := -1
		if mode == wReent {
			how := r.Choose(3)
			gi := newEncGen(r)
			iv := gi.gen(0, false)()
			w.reent = func() {
				switch how {
				case 0:
					jsoncolor.Marshal(iv)
				case 1:
					var sink bytes.Buffer
					if err := jsoncolor.NewEncoder(&sink).Encode(iv); err != nil {
						r.Fail("inner", "encoding inside Write failed: %v", err)
					}
				case 2: // the same encoder
					inner = len(w.calls)
					if err := enc.Encode(iv); err != nil {
						r.Fail("inner", "Encode inside Write failed: %v", err)
					}
					if len(w.calls) != inner+1 {
						r.Fail("write-count", "Encode inside Write made %d Write calls", len(w.calls)-inner)
					}
					oks = append(oks, done{cfg, iv, w.calls[inner], "document written from inside Write"})
				}
			}
		}
		before := len(w.calls)
		var err error
		p := guarded(func() { err = enc.Encode(v) })
		calls := len(w.calls) - before
		if inner >= 0 {
			calls--
		}
		desc := fmt.Sprintf("Encode %d (%s; %s; writer mode %d) -> %v, panic %v, %d writes", i, []string{"good", "bad " + g.what, "panicking " + g.what}[kind], cfg, mode, err, p, calls)
		log = append(log, desc)
		r.Trace("%s", desc)
		if calls > 1 {
			r.Fail("write-count", "%s: want at most one Write", desc)
		}
		if sticky != nil {
			if p == nil && err == nil {
				r.Fail("error-lost", "%s: an earlier write failed with %v", desc, sticky)
			}
			if calls != 0 {
				r.Fail("write-after-error", "%s: an earlier write failed with %v", desc, sticky)
			}
			continue
		}
		if p != nil {
			if _, ok := p.(writerPanic); ok {
				break // the encoder's state is not specified
			}
			if kind != 2 {
				r.Fail("panic", "%s: unexpected panic", desc)
			}
			if calls != 0 {
				r.Fail("wrote-failure", "%s: wrote %s", desc, q(w.calls[before]))
			}
			continue
		}
		if kind == 2 {
			r.Fail("panic-swallowed", "%s", desc)
		}
		if expectBad {
			if err == nil {
				r.Fail("swallowed", "%s: the value cannot be encoded", desc)
			}
			if calls != 0 {
				r.Fail("wrote-failure", "%s: wrote %s", desc, q(w.calls[before]))
			}
			continue
		}
		// the value is encodable
		if calls != 1 {
			if err == nil {
				r.Fail("write-count", "%s: want exactly one Write", desc)
			}
			r.Fail("refused", "%s: want exactly one Write", desc)
		}
		oks = append(oks, done{cfg, v, w.calls[before], desc})
		if w.failed > 0 {
			r.nontrivial = true
			if err == nil {
				r.Fail("error-lost", "%s: the write failed with %v", desc, w.err)
			}
			if !errors.Is(err, w.err) {
				r.Fail("error-changed", "%s: the write failed with %v", desc, w.err)
			}
			sticky = w.err
			continue
		}
		if err != nil {
			r.Fail("refused", "%s: the document was written", desc)
		}
	}
	r.nontrivial = r.nontrivial || len(log) > 1
	r.Sample("%s", strings.Join(log, "; "))
	for _, d := range oks {
		want, errs, pan := pristine(d.cfg, d.v)
		if errs != "" || pan != "" {
			continue
		}
		got := d.got
		if len(got) == 0 || got[len(got)-1] != '\n' {
			r.Fail("newline", "%s: document does not end with a newline: %s", d.what, q(got))
		}
		body := got[:len(got)-1]
		if d.cfg.noSort && loose(body) == loose(want) {
			continue
		}
		if !d.cfg.noSort && !bytes.Equal(body, want) {
			r.Fail("document", "%s: wrote %s, the value is %s", d.what, q(body), q(want))
		}
		if d.cfg.noSort {
			r.Fail("document", "%s: wrote %s, the value is %s", d.what, q(body), q(want))
		}
		if d.cfg.colors == 0 && !d.cfg.trust && d.cfg == d.cfg.asJSON() && !json.Valid(body) {
			r.Fail("document", "%s: wrote %s which is not JSON", d.what, q(body))
		}
	}
}

// c07std writes to writers from the standard library.
func c07std(r *R) {
	var w io.Writer
	var got func() []byte
	var bb bytes.Buffer
	kind := ""
	flushed := true
	under := &simWriter{r: r}
	var flush func()
	switch r.Choose(5) {
	case 0:
		kind = "bytes.Buffer"
		if r.OneIn(2) {
			bb.Grow(r.Choose(5000))
		}
		w, got = &bb, bb.Bytes
	case 1:
		kind = "strings.Builder"
		var sb strings.Builder
		w, got = &sb, func() []byte { return []byte(sb.String()) }
	case 2:
		kind = "bufio.Writer"
		bw := bufio.NewWriterSize(under, []int{16, 100, 4096, 1 << 17}[r.Choose(4)])
		flushed = false
		w, flush, got = bw, func() { bw.Flush() }, func() []byte { return bytes.Join(under.calls, nil) }
	case 3:
		kind = "MultiWriter"
		w, got = io.MultiWriter(&bb, io.Discard), bb.Bytes
	case 4:
		kind = "File"
		if err := os.MkdirAll(scratchDir, 0o755); err != nil {
			panic(harnessError{err.Error()})
		}
		f, err := os.Create(filepath.Join(scratchDir, "out"))
		if err != nil {
			panic(harnessError{err.Error()})
		}
		r.Defer(func() { f.Close() })
		w, got = f, func() []byte {
			b, err := os.ReadFile(f.Name())
			if err != nil {
				panic(harnessError{err.Error()})
			}
			return b
		}
	}
	r.Count("reach.writer_" + strings.ToLower(strings.TrimPrefix(kind, "bytes.")))
	enc := jsoncolor.NewEncoder(w)
	cfg := encCfg{}
	if !r.OneIn(3) {
		cfg = genCfg(r)
		cfg.noSort = false
		cfg.apply(enc)
	}
	var want []byte
	n := 1 + r.Choose(5)
	r.nontrivial = true
	for i := 0; i < n; i++ {
		g := newEncGen(r)
		bad := r.OneIn(3)
		mk := pad(r, g.gen(0, bad))
		v := mk()
		if bad && g.trustOK && cfg.trust {
			continue
		}
		err := enc.Encode(v)
		desc := fmt.Sprintf("Encode %d (%s, bad %v %s) to a %s -> %v", i, cfg, bad, g.what, kind, err)
		r.Trace("%s", desc)
		if bad {
			if err == nil {
				r.Fail("swallowed", "%s: the value cannot be encoded", desc)
			}
		} else {
			if err != nil {
				r.Fail("refused", "%s", desc)
			}
			p, errs, pan := pristine(cfg, v)
			if errs != "" || pan != "" {
				return
			}
			want = append(append(want, p...), '\n')
		}
		if flushed || r.OneIn(3) {
			if flush != nil {
				flush()
			}
			if b := got(); !bytes.Equal(b, want) {
				d := 0
				for d < len(b) && d < len(want) && b[d] == want[d] {
					d++
				}
				r.Fail("document", "%s: the writer has %d bytes, want %d, different from byte %d: %s", desc, len(b), len(want), d, q(b[max(0, d-20):]))
			}
		}
	}
	r.Sample("%d documents to a %s", n, kind)
}

var defaultsAtStart = fmt.Sprintf("%q", *jsoncolor.DefaultColors())

// c08: output does not depend on history.
func c08(r *R) {
	if r.Pick(5, 1) == 1 {
		c08place(r)
		return
	}
	genPoolMode(r)
	type encst struct {
		e   *jsoncolor.Encoder
		w   *simWriter
		cfg encCfg
	}
	var encs []*encst
	ne := 1 + r.Choose(3)
	for i := 0; i < ne; i++ {
		w := &simWriter{r: r}
		s := &encst{e: jsoncolor.NewEncoder(w), w: w}
		if r.OneIn(2) {
			s.cfg = genCfg(r)
			s.cfg.apply(s.e)
		}
		encs = append(encs, s)
	}
	// objects shared by calls of Append
	shCfg := genCfg(r)
	if !shCfg.setIndent {
		shCfg.setIndent, shCfg.indent = true, " "
	}
	shIn, shCol := shCfg.indenter(), mkColors(shCfg.colors)
	type rec struct {
		cfg  encCfg
		v    any
		out  []byte
		errs string
		pan  string
		what string
		kind int
	}
	var recs []rec
	n := 2 + r.Choose(10)
	for i := 0; i < n; i++ {
		g := newEncGen(r)
		g.reenter = r.OneIn(3)
		bad := r.Pick(5, 3, 2)
		if bad == 2 {
			g.panics = true
			r.Count("fault.callback_panic")
		} else if bad == 1 {
			r.Count("fault.unencodable_value")
		}
		v := g.nested(bad > 0)()
		x := rec{v: v}
		entry := r.Choose(5)
		var p any
		var err error
		switch entry {
		case 0, 1: // a long-lived encoder
			s := encs[r.Choose(len(encs))]
			if r.OneIn(3) { // one setter
				switch r.Choose(5) {
				case 0:
					s.cfg.noEscape = r.Choose(2) == 1
					s.e.SetEscapeHTML(!s.cfg.noEscape)
				case 1:
					s.cfg.noSort = r.Choose(2) == 1
					s.e.SetSortMapKeys(!s.cfg.noSort)
				case 2:
					s.cfg.trust = r.Choose(2) == 1
					s.e.SetTrustRawMessage(s.cfg.trust)
				case 3:
					s.cfg.colors = r.Choose(6)
					s.e.SetColors(mkColors(s.cfg.colors))
				case 4:
					x := indents[r.Choose(len(indents))]
					s.cfg.setIndent, s.cfg.prefix, s.cfg.indent = true, x[0], x[1]
					s.e.SetIndent(x[0], x[1])
				}
			}
			x.cfg = s.cfg
			s.w.calls = nil
			s.w.next = wOK
			p = guarded(func() { err = s.e.Encode(v) })
			if len(s.w.calls) == 1 {
				x.out = bytes.TrimSuffix(s.w.calls[0], []byte("\n"))
			}
			x.what = "Encoder.Encode"
		case 2:
			x.cfg = shCfg
			p = guarded(func() { x.out, err = jsoncolor.Append([]byte("prefix"), v, shCfg.flags(), shCol, shIn) })
			if p == nil && err == nil {
				if !bytes.HasPrefix(x.out, []byte("prefix")) {
					r.Fail("prefix", "Append changed the bytes it was given: %s", q(x.out))
				}
				x.out = x.out[6:]
			}
			x.what = "Append with shared Indenter and Colors"
		case 3:
			p = guarded(func() { x.out, err = jsoncolor.Marshal(v) })
			x.what = "Marshal"
		case 4:
			x.cfg.setIndent, x.cfg.prefix, x.cfg.indent = true, "", "  "
			p = guarded(func() { x.out, err = jsoncolor.MarshalIndent(v, "", "  ") })
			x.what = "MarshalIndent"
			x.kind = 4
		}
		x.errs = errText(err)
		if err != nil || p != nil {
			x.out = nil
		}
		if p != nil {
			x.pan = fmt.Sprintf("%T %v", p, p)
		}
		x.out = append([]byte(nil), x.out...)
		simrt.NoteBytes(x.out)
		x.what = fmt.Sprintf("call %d, %s (%s)", i, x.what, x.cfg)
		r.Trace("%s: %s -> %s err %q panic %q", x.what, g.what, q(x.out), x.errs, x.pan)
		recs = append(recs, x)
	}
	r.nontrivial = true
	r.Sample("%d calls on %d encoders, e.g. %s; last %s -> %s", len(recs), ne, recs[0].what, recs[len(recs)-1].what, short(string(recs[len(recs)-1].out)+recs[len(recs)-1].errs, 150))
	if d := fmt.Sprintf("%q", *jsoncolor.DefaultColors()); d != defaultsAtStart {
		r.Fail("defaults", "DefaultColors has become %s, it was %s", d, defaultsAtStart)
	}
	for _, x := range recs {
		out, errs, pan := pristine(x.cfg, x.v)
		if x.kind == 4 && errs == "" && pan == "" {
			// MarshalIndent is documented as Marshal followed by Indent.
			b, e2, _ := pristine(encCfg{}, x.v)
			if e2 == "" {
				var buf bytes.Buffer
				json.Indent(&buf, b, "", "  ")
				out = buf.Bytes()
			}
		}
		if errs != "" || pan != "" {
			out = nil
		}
		if x.cfg.noSort {
			if (x.errs == "") != (errs == "") || (x.pan == "") != (pan == "") || loose(x.out) != loose(out) {
				r.Fail("history", "%s gave %s error %q panic %q; alone it gives %s error %q panic %q (key order aside)", x.what, q(x.out), x.errs, x.pan, q(out), errs, pan)
			}
			continue
		}
		if x.errs != errs || x.pan != pan || !bytes.Equal(x.out, out) {
			r.Fail("history", "%s gave %s error %q panic %q; alone it gives %s error %q panic %q", x.what, q(x.out), x.errs, x.pan, q(out), errs, pan)
		}
	}
}

// c17enc: a failing component fails the whole.
func c17enc(r *R) {
	genPoolMode(r)
	g := newEncGen(r)
	g.reenter = r.OneIn(3)
	g.panics = r.OneIn(5)
	mk := g.nested(true)
	cfg := genCfg(r)
	if g.trustOK {
		cfg.trust = false
	}
	v := mk()
	entry := r.Choose(5)
	w := &simWriter{r: r}
	var out []byte
	var err error
	what := []string{"Encode", "Append", "Marshal", "MarshalIndent", "Append nil"}[entry]
	run := func(v any) any {
		return guarded(func() {
			switch entry {
			case 0:
				e := jsoncolor.NewEncoder(w)
				cfg.apply(e)
				err = e.Encode(v)
			case 1:
				out, err = jsoncolor.Append([]byte("abc"), v, cfg.flags(), mkColors(cfg.colors), cfg.indenter())
			case 2:
				out, err = jsoncolor.Marshal(v)
			case 3:
				out, err = jsoncolor.MarshalIndent(v, "", " ")
			case 4:
				out, err = jsoncolor.Append(nil, v, cfg.flags(), mkColors(cfg.colors), cfg.indenter())
			}
		})
	}
	p := run(v)
	r.Count("fault.component_" + map[bool]string{true: "panic", false: "failure"}[g.panics])
	r.nontrivial = true
	r.Trace("%s (%s) with failing %s -> %s, %v, panic %v", what, cfg, g.what, q(out), err, p)
	r.Sample("%s (%s) of a value with a failing %s -> %v, panic %v", what, cfg, g.what, err, p)
	if len(w.calls) > 0 {
		r.Fail("wrote-failure", "%s (%s) wrote %s although its %s failed", what, cfg, q(w.calls[0]), g.what)
	}
	if g.panics {
		if p == nil {
			r.Fail("panic-swallowed", "%s (%s): the panic of the %s did not reach the caller", what, cfg, g.what)
		}
		if !ourPanic(p) {
			r.Fail("panic-changed", "%s (%s): the %s panicked with %T %v, the caller got %T %v", what, cfg, g.what, panicNow, panicNow, p, p)
		}
	} else {
		if p != nil {
			r.Fail("panic", "%s (%s) of a failing %s panicked: %v", what, cfg, g.what, p)
		}
		if err == nil {
			r.Fail("swallowed", "%s (%s) of a value with a failing %s returned no error, output %s", what, cfg, g.what, q(out))
		}
		if g.failErr != nil && !errors.Is(err, g.failErr) {
			r.Fail("error-changed", "%s (%s): %s failed with %q, the caller got %q", what, cfg, g.what, g.failErr, err)
		}
		if (entry == 2) && len(out) > 0 {
			r.Fail("partial", "%s (%s) of a failing %s returned %s with its error", what, cfg, g.what, q(out))
		}
	}
	// The package stays usable.
	if g.failCb != nil && g.failCb.kind != 0 && r.OneIn(2) {
		g.failCb.kind, g.failCb.text = 0, `"healed"`
		if g.failErr != nil || g.panics {
			if g.failErr == errKey {
				return
			}
			w.calls = nil
			p := run(v)
			if p != nil || err != nil {
				r.Fail("unusable", "%s (%s): after the %s failed once, the same value fails for good: %v, panic %v", what, cfg, g.what, err, p)
			}
			o2 := append([]byte(nil), out...)
			if entry == 0 {
				o2 = w.calls[0]
			} else if entry == 1 {
				o2 = o2[3:]
			}
			c2 := cfg
			if entry == 2 || entry == 3 {
				c2 = encCfg{}
			}
			want, _, _ := pristine(c2, v)
			if entry == 3 {
				var buf bytes.Buffer
				json.Indent(&buf, want, "", " ")
				want = buf.Bytes()
			}
			if entry == 0 {
				want = append(want, '\n')
			}
			if loose(o2) != loose(want) || (!c2.noSort && !bytes.Equal(o2, want)) {
				r.Fail("unusable", "%s (%s): after the %s failed once, the healed value gives %s, want %s", what, cfg, g.what, q(o2), q(want))
			}
		}
	}
}

var _ = reflect.TypeOf

func init() {
	register(&Scenario{ID: "C07", Run: c07, Quick: 120_000, Thorough: 4_000_000, Real: encReal,
		Stub: []string{"io.Writer (accepts, fails, short, fails after everything, slow, re-enters the package or the encoder, panics)", "user callbacks (succeed, fail, panic, re-enter)"},
		Rule: "one run = one encoder, 1 to 7 Encode calls with tape-chosen values, settings and writer faults; documents compared with a rendering from pristine package state; non-trivial: more than one call or a write fault, distinct by event log"})
	register(&Scenario{ID: "C08", Run: c08, Quick: 300_000, Thorough: 10_000_000, Real: encReal,
		Stub: []string{"io.Writer (in memory)", "user callbacks (succeed, fail, panic, re-enter)", "sync.Pool (reuse decided by the tape)"},
		Rule: "one run = 2 to 11 encodes through long-lived encoders, shared Indenter/Colors, Marshal and MarshalIndent, with failing and panicking values and setter calls in between; each result compared with the same call alone from pristine package state; distinct by event log"})
}

func init() {
	register(&Scenario{ID: "C17", Run: c17, Quick: 1_000_000, Thorough: 40_000_000, Real: append(encReal, "decoders"),
		Stub: []string{"user callbacks (fail, panic, heal)"},
		Rule: "one run = one value or document with one failing or panicking component at a tape-chosen place, encoded or decoded through a tape-chosen entry point and configuration; distinct by event log"})
}

func c17(r *R) {
	switch r.Pick(12, 6, 6, 3, 1) {
	case 4:
		c08place(r)
	case 1:
		c17dec(r)
	case 2:
		c17typedEnc(r)
	case 3:
		c17typedDec(r)
	default:
		c17enc(r)
	}
}

type kept struct {
	b    []byte // as returned
	copy []byte // what it must remain
	what string
}

// slowWriter lets everybody else run while it looks at the bytes.
type slowWriter struct {
	r    *R
	mode int
	docs int
}

func (w *slowWriter) Write(p []byte) (int, error) {
	c := append([]byte(nil), p...)
	switch w.mode {
	case 0:
		for i := 0; i < 3; i++ {
			simrt.Yield()
		}
	case 1:
		simrt.Sleep(int64(1 + w.r.Choose(50)))
	case 2:
		jsoncolor.Marshal([]any{"from inside Write", w.docs, strings.Repeat("x", len(p)%5000)})
		simrt.Yield()
	case 3:
		var x any
		jsoncolor.Unmarshal([]byte(`{"a":["from inside Write\n",1]}`), &x)
		jsoncolor.NewEncoder(io.Discard).Encode(x)
	}
	w.docs++
	if !bytes.Equal(c, p) {
		w.r.Fail("buffer-changed", "the bytes handed to Write changed during the call: %s became %s", q(c), q(p))
	}
	simrt.NoteBytes(c)
	return len(p), nil
}

// c09: encoded bytes belong to the caller, arguments are only read.
func c09(r *R) {
	simsync.PoolMode = r.Pick(5, 3, 1)
	mem := getArena()
	nt := 1 + r.Choose(3)
	type call struct {
		entry int
		cfg   encCfg
		v     any
		cols  *jsoncolor.Colors
		in    *jsoncolor.Indenter
		dst   int
		scrib int
	}
	roColors := func(k int) *jsoncolor.Colors {
		c := mkColors(k)
		if c == nil || mem.n > len(mem.mem)-8192 {
			return c
		}
		for _, p := range []*jsoncolor.Color{&c.Null, &c.Bool, &c.Number, &c.String, &c.Key, &c.Bytes, &c.Time, &c.Punc, &c.Brackets, &c.Braces, &c.Comma, &c.Colon, &c.TextMarshaler} {
			if *p != nil {
				*p = mem.put(*p, 24)
			}
		}
		// It has no pointers to the heap, so it can live outside of it.
		b := mem.put(make([]byte, unsafe.Sizeof(*c)), 0)
		o := (*jsoncolor.Colors)(unsafe.Pointer(&b[0]))
		*o = *c
		return o
	}
	shared := roColors(3)
	var sharedV any
	{
		g := newEncGen(r)
		g.mem = mem
		sharedV = g.gen(0, false)()
	}
	var prog [][]call
	total := 0
	for t := 0; t < nt; t++ {
		var cs []call
		n := 1 + r.Choose(5)
		for i := 0; i < n; i++ {
			g := newEncGen(r)
			g.mem = mem
			g.reenter = r.OneIn(3)
			bad := r.OneIn(6)
			if bad {
				r.Count("fault.unencodable_value")
			}
			c := call{entry: r.Choose(5), cfg: genCfg(r), dst: r.Choose(4), scrib: r.Choose(4)}
			if r.OneIn(4) {
				c.v = sharedV
			} else if !bad && r.OneIn(4) {
				// a value that is nothing but one of those that hold bytes
				if r.OneIn(2) {
					raw := jsoncolor.RawMessage(g.bytes(g.raw()))
					c.v = []any{raw, &raw, json.RawMessage(raw), mjV{g.cb(g.raw())}, struct {
						R jsoncolor.RawMessage
					}{raw}}[r.Choose(5)]
				} else {
					c.v = g.leaf()()
				}
			} else {
				c.v = pad(r, g.gen(0, bad))()
			}
			if c.cfg.colors == 3 {
				c.cols = shared
			} else {
				c.cols = roColors(c.cfg.colors)
			}
			c.in = c.cfg.indenter()
			cs = append(cs, c)
			total++
		}
		prog = append(prog, cs)
	}
	pol := r.Policy()
	wm := r.Choose(5)
	mem.protect(protRO)
	r.Defer(func() { mem.protect(protRW) })
	r.nontrivial = total > 1
	r.Sample("%d tasks, %d encodes, pool mode %d, policy %+v", nt, total, simsync.PoolMode, pol)
	var keep [][]kept
	for range prog {
		keep = append(keep, nil)
	}
	check := func(t int, when string) {
		for _, k := range keep[t] {
			if !bytes.Equal(k.b, k.copy) {
				r.Fail("result-changed", "%s: the result of %s changed from %s to %s", when, k.what, q(k.copy), q(k.b))
			}
		}
	}
	var fns []func()
	for t := range prog {
		fns = append(fns, func() {
			w := &slowWriter{r: r, mode: wm}
			enc := jsoncolor.NewEncoder(w)
			for i, c := range prog[t] {
				var out []byte
				var err error
				what := fmt.Sprintf("task %d call %d", t, i)
				switch c.entry {
				case 0:
					out, err = jsoncolor.Marshal(c.v)
					what += " Marshal"
				case 1:
					out, err = jsoncolor.MarshalIndent(c.v, "", " ")
					what += " MarshalIndent"
				case 2, 3:
					// the destination has neighbours that are not ours
					area := bytes.Repeat([]byte("N"), 4096)
					copy(area, "OLDBYTES")
					dst := area[:8:8]
					limit := 8
					switch c.dst {
					case 1:
						dst, limit = area[:8:64], 64
					case 2:
						dst, limit = area[:8], 4096
					case 3:
						dst, limit = nil, 0
					}
					out, err = jsoncolor.Append(dst, c.v, c.cfg.flags(), c.cols, c.in)
					if string(area[:8]) != "OLDBYTES" {
						r.Fail("prefix", "%s: Append changed the bytes before its output: %s", what, q(area[:8]))
					}
					for j := limit; j < len(area); j++ {
						if area[j] != 'N' && j >= 8 {
							r.Fail("neighbour", "%s: Append wrote beyond the capacity of its argument", what)
						}
					}
					if err == nil && c.dst != 3 && !bytes.HasPrefix(out, []byte("OLDBYTES")) {
						r.Fail("prefix", "%s: Append lost the bytes it was given: %s", what, q(out))
					}
					what += " Append"
				case 4:
					enc.SetColors(c.cols)
					if c.cfg.setIndent {
						enc.SetIndent(c.cfg.prefix, c.cfg.indent)
					}
					enc.SetEscapeHTML(!c.cfg.noEscape)
					enc.SetTrustRawMessage(c.cfg.trust)
					err = enc.Encode(c.v)
					what += " Encode"
				}
				if err == nil && len(out) > 0 && inArena(uintptr(unsafe.Pointer(&out[0]))) {
					r.Fail("result-is-argument", "%s: the result %s is memory of the value that was encoded", what, q(out))
				}
				if err == nil && out != nil {
					k := kept{b: out, copy: append([]byte(nil), out...), what: what}
					simrt.NoteBytes(out)
					if c.scrib == 3 {
						// the caller does with it what it likes
						for j := range out {
							out[j] = 0xEE
						}
						full := out[:cap(out)]
						for j := len(out); j < len(full) && c.entry < 2; j++ {
							full[j] = 0xEE
						}
						copy(k.copy, out)
						r.Count("reach.result_overwritten")
					}
					keep[t] = append(keep[t], k)
				}
				check(t, what)
			}
		})
	}
	if nt == 1 {
		fns[0]()
	} else {
		r.RunTasks(pol, fns...)
	}
	for t := range prog {
		check(t, "at the end")
	}
	mem.protect(protRW)
}

func init() {
	register(&Scenario{ID: "C09", Run: c09, Quick: 80_000, Thorough: 3_000_000, Real: encReal,
		Stub: []string{"io.Writer (yields, sleeps, re-enters the package)", "user callbacks", "sync.Pool (reuse decided by the tape)", "memory of arguments and colours: read-only pages"},
		Rule: "one run = 1 to 3 simulated tasks, each 1 to 5 encodes whose results are retained or overwritten and compared after every later call; values, raw messages and colours lie in read-only pages; non-trivial: more than one encode, distinct by event log"})
}
