package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// doc is one document of a stream.
type doc struct {
	v          JV
	start, end int // bytes [start,end) of the stream
}

type stream struct {
	b    []byte
	docs []doc
}

func (s *stream) text(i int) []byte { return s.b[s.docs[i].start:s.docs[i].end] }

var bigSizes = []int{4096, 32768, 65536, 131072}

// genStream builds a stream of documents, mostly small, sometimes straddling
// the sizes at which buffers are commonly sized or grown.
func genStream(r *R, maxDocs int) *stream {
	s := &stream{}
	n := 1 + r.Choose(maxDocs)
	st := genStyle(r)
	sepStyle := r.Choose(5)
	// optionally pad so that the first documents straddle a size boundary
	if r.OneIn(3) {
		bs := bigSizes[r.Pick(3, 4, 2, 1)]
		kind := r.Choose(3)
		if r.cap == 0 && r.OneIn(150) { // no buffer is this large
			bs = 1 << (20 + r.Choose(3))
			if kind == 2 {
				kind = 3
			}
			st.esc = 0
			r.Count("reach.megabytes")
		}
		pad := bs - r.Choose(40)
		switch kind {
		case 0: // one long string document
			s.add(st, JV{K: 's', S: bulkString(r, max(0, pad-3), r.Choose(2))}, sepStyle, r)
		case 3: // documents of all sizes
			for len(s.b) < 2*bs {
				s.add(st, JV{K: 's', S: bulkString(r, 1<<(4+r.Choose(17))+r.Choose(50_000), r.Choose(2))}, sepStyle, r)
			}
		case 1: // white space
			for len(s.b) < pad {
				s.b = append(s.b, " \n"[len(s.b)&1])
			}
		case 2: // many small documents
			i := 0
			for len(s.b) < pad-60 {
				s.add(st, JV{K: 'a', A: []JV{{K: '0', S: fmt.Sprint(i)}, {K: 's', S: "filler filler filler filler filler"}}}, sepStyle, r)
				i++
			}
			for len(s.b) < pad {
				s.b = append(s.b, ' ')
			}
		}
	}
	big := 64
	if r.OneIn(4) {
		big = 40000
	}
	for i := 0; i < n; i++ {
		o := &genOpts{depth: r.Choose(5), big: big, budget: 40}
		v, _ := enlarge(r, genValue(r, o, 0))
		s.add(st, v, sepStyle, r)
	}
	return s
}

func selfDelim(k byte) bool { return k == 'a' || k == 'o' }

func (s *stream) add(st *style, v JV, sepStyle int, r *R) {
	if n := len(s.docs); n > 0 {
		sep := []string{"\n", " ", "\r\n", "\t \n", ""}[sepStyle]
		if sep == "" && !(selfDelim(s.docs[n-1].v.K) && selfDelim(v.K)) {
			sep = "\n"
		}
		s.b = append(s.b, sep...)
	} else if len(s.b) == 0 && sepStyle == 3 {
		s.b = append(s.b, "\n  "...)
	}
	a := len(s.b)
	s.b = st.render(s.b, v)
	s.docs = append(s.docs, doc{v, a, len(s.b)})
}

var errInjected = errors.New("injected read failure")

// simReader delivers a byte stream in tape-chosen pieces.
type simReader struct {
	r       *R
	data    []byte
	pos     int
	mode    int
	scratch byte // what the unused part of p is overwritten with (0: nothing)
	zeros   int
	burst   int // empty reads still to come in a row
	reads   int
	avoid   []int // preferred cut positions, ascending

	failAt   int // position of the injected failure, -1: none
	failErr  error
	withData bool // failure together with the last bytes
	once     bool // the failure happens once, then the stream goes on
	failed   int
	eofData  bool // EOF together with the last bytes
	eofs     int

	onRead func(p []byte)
}

func newReader(r *R, data []byte) *simReader {
	sr := &simReader{r: r, data: data, failAt: -1, mode: r.Choose(6)}
	sr.scratch = []byte{0, '9', '}', '"', ' ', 0xff}[r.Choose(6)]
	sr.eofData = r.OneIn(3)
	if len(data) > 4000 && sr.mode == 1 && !r.OneIn(8) {
		sr.mode = 3 // one byte at a time is for short streams
	}
	if len(data) > 1<<18 && sr.mode != 4 {
		sr.mode = []int{0, 3}[sr.mode&1]
	}
	return sr
}

func (s *simReader) Read(p []byte) (int, error) {
	s.reads++
	if s.onRead != nil {
		s.onRead(p)
	}
	n, err := s.read(p)
	if s.scratch != 0 && len(p) > n {
		// A Reader may use all of p as scratch space.
		g := p[n:]
		if len(g) > 64 {
			g = g[:64]
		}
		for i := range g {
			g[i] = s.scratch
		}
	}
	simrt.Note(uint64(n)<<8 | 0x4ead)
	s.r.Trace("Read(len %d) = %d, %v", len(p), n, err)
	return n, err
}

func (s *simReader) read(p []byte) (int, error) {
	limit := len(s.data)
	if s.failAt >= 0 && s.failed == 0 {
		limit = s.failAt
	}
	left := limit - s.pos
	if s.failAt >= 0 && s.failed > 0 && !s.once {
		s.failed++
		return 0, s.failErr
	}
	if left == 0 {
		if s.failAt >= 0 && s.failed == 0 {
			s.failed++
			s.r.Count("fault.read_error")
			return 0, s.failErr
		}
		s.eofs++
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(left, len(p))
	full := n
	switch s.mode {
	case 0: // all
	case 1: // one byte
		n = 1
	case 2: // small
		n = min(n, 1+s.r.Choose(8))
	case 3: // mixed
		switch s.r.Pick(3, 2, 2, 2) {
		case 1:
			n = min(n, 1+s.r.Choose(4))
		case 2:
			n = min(n, 1+s.r.Choose(200))
		case 3:
			n = min(n, 1+s.r.Choose(40000))
		}
	case 4: // cut at a chosen position
		if c := s.nextCut(); c > 0 {
			n = min(n, c)
		}
	case 5: // mixed with empty reads
		if s.burst > 0 {
			s.burst--
			s.r.Count("fault.empty_read")
			return 0, nil
		}
		if s.zeros < 20 && s.r.OneIn(4) {
			s.zeros++
			if s.zeros == 5 && s.r.OneIn(8) {
				s.burst = []int{20, 70, 130, 1100}[s.r.Choose(4)]
			}
			s.r.Count("fault.empty_read")
			return 0, nil
		}
		n = min(n, 1+s.r.Choose(60))
	}
	if n < full {
		s.r.Count("fault.short_read")
		if c := s.data[s.pos+n-1]; !isSpace(c) && s.pos+n < len(s.data) && !isSpace(s.data[s.pos+n]) {
			s.r.Count("reach.cut_inside_token")
			s.r.nontrivial = true
		}
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == limit {
		if s.failAt >= 0 && s.failed == 0 && s.withData {
			s.failed++
			s.r.Count("fault.read_error_with_data")
			return n, s.failErr
		}
		if s.pos == len(s.data) && s.eofData && (s.failAt < 0 || s.failed > 0) {
			s.eofs++
			s.r.Count("fault.data_with_eof")
			return n, io.EOF
		}
	}
	return n, nil
}

// nextCut returns the distance to the next preferred cut.
func (s *simReader) nextCut() int {
	for _, c := range s.avoid {
		if c > s.pos {
			return c - s.pos
		}
	}
	return 0
}

// genCuts picks positions inside tokens, escapes and at document borders.
func genCuts(r *R, s *stream) []int {
	var cuts []int
	n := 1 + r.Choose(6)
	for i := 0; i < n; i++ {
		d := s.docs[r.Choose(len(s.docs))]
		var c int
		switch r.Choose(4) {
		case 0:
			c = d.end
		case 1:
			c = d.start + r.Choose(d.end-d.start+1)
		case 2: // next to an interesting byte
			c = d.start + r.Choose(d.end-d.start+1)
			for c < d.end && s.b[c] != '\\' && s.b[c] != '"' && s.b[c] != '.' && s.b[c] != 'e' {
				c++
			}
			c += r.Choose(4)
		case 3:
			c = d.end - r.Choose(min(8, d.end-d.start))
		}
		if c > 0 && c < len(s.b) {
			cuts = append(cuts, c)
		}
	}
	for i := range cuts {
		for j := i + 1; j < len(cuts); j++ {
			if cuts[j] < cuts[i] {
				cuts[i], cuts[j] = cuts[j], cuts[i]
			}
		}
	}
	return cuts
}

// sink decodes one document into a tape-chosen kind of destination and
// compares it with what was written.
type sink struct {
	useNumber bool
	kind      int
}

func (k sink) decode(dec *jsoncolor.Decoder) (func() (any, []byte), error) {
	switch k.kind {
	case 1:
		var m jsoncolor.RawMessage
		err := dec.Decode(&m)
		return func() (any, []byte) { return nil, m }, err
	case 2: // an interface field behind a pointer to a pointer
		var x any
		p := &x
		err := dec.Decode(&p)
		return func() (any, []byte) { return x, nil }, err
	}
	var x any
	err := dec.Decode(&x)
	return func() (any, []byte) { return x, nil }, err
}

func (k sink) check(r *R, class string, what string, get func() (any, []byte), want JV, text []byte) {
	v, raw := get()
	if k.kind == 1 {
		if string(raw) != string(text) {
			r.Fail(class, "%s: decoded raw value %s, written %s", what, q(raw), q(text))
		}
		simrt.NoteBytes(raw)
		return
	}
	if w := want.Any(k.useNumber); !equalAny(v, w) {
		r.Fail(class, "%s: decoded %s, written %s", what, short(fmt.Sprintf("%#v", v), 400), q(text))
	}
	simrt.Note(uint64(len(text)))
}

func newSink(r *R, dec *jsoncolor.Decoder) sink {
	k := sink{kind: r.Choose(3)}
	if r.OneIn(3) {
		k.useNumber = true
		dec.UseNumber()
	}
	return k
}

var malformed = []string{
	`tru]`, `nul1`, `falsy`, `-x`, `1.x`, `1.e5`, `1ex`, `1e+`, `+1`, `.5`, `'a'`, `{1:2}`, `[1 2]`, `]`, `}`, `,`, `:`,
	`{"a" 1}`, `{"a":1,}`, `[1,]`, `[,1]`, `{,}`, `{"a":1 "b":2}`, `{"a":}`, `"\x"`, `"\u12G4"`, "\"a\nb\"", "\"\x01\"",
	`{"a":1]`, `[1}`, `{"a\q":1}`, `nan`, `Infinity`, `[1,2,,3]`, `{"a":tru}`, `--1`, `[01x]`, `"\u00"x"`, "\x00", `#`, `{null:1}`, `{"k":1,null:2}`,
}

func isEOF(err error) bool { return err == io.EOF }

// c01: chunking independence.
func c01(r *R) {
	if r.OneIn(4) {
		c01typed(r)
		return
	}
	s := genStream(r, 5)
	full := s.b
	nOK := len(s.docs)
	wantEnd := io.EOF
	kind := r.Pick(4, 3, 3)
	end := "clean end"
	data := full
	bad := false
	switch kind {
	case 1: // truncation
		c := r.Choose(len(full) + 1)
		if r.OneIn(2) {
			d := s.docs[r.Choose(len(s.docs))]
			c = d.start + r.Choose(d.end-d.start+1)
		}
		data = full[:c]
		nOK = 0
		for i, d := range s.docs {
			if d.end <= c {
				nOK = i + 1
			} else if d.start < c {
				part := full[d.start:c]
				if json.Valid(part) { // a shorter number
					s.docs[i].end = c
					s.docs[i].v = JV{K: '0', S: string(part)}
					nOK = i + 1
				} else {
					wantEnd = io.ErrUnexpectedEOF
				}
				break
			}
		}
		end = fmt.Sprintf("truncated at %d", c)
		r.Count("fault.truncated_stream")
	case 2: // a malformed document
		i := r.Choose(len(s.docs))
		m := malformed[r.Choose(len(malformed))]
		switch r.Choose(3) {
		case 1:
			m = "[1,{\"a\":" + m + "}]"
		case 2:
			m = "{\"k\":[" + m + ",2]}"
		}
		data = append([]byte(nil), full[:s.docs[i].start]...)
		if n := len(data); n > 0 && !isSpace(data[n-1]) && i > 0 && !selfDelim(s.docs[i-1].v.K) {
			data = append(data, '\n')
		}
		data = append(data, m...)
		if r.Choose(2) == 0 {
			data = append(data, '\n')
			data = append(data, full[s.docs[i].start:]...)
		}
		nOK, bad = i, true
		end = fmt.Sprintf("malformed document %d: %q", i, m)
		r.Count("fault.malformed_document")
	}
	rd := newReader(r, data)
	rd.avoid = genCuts(r, s)
	in, _ := r.dress(rd, true)
	dec := jsoncolor.NewDecoder(in)
	k := newSink(r, dec)
	r.Trace("stream %s; %s", q(data), end)
	r.Sample("%d documents, %d bytes, %s, reader mode %d: %s", len(s.docs), len(data), end, rd.mode, short(fmt.Sprintf("%q", data), 200))
	for i := 0; i < nOK; i++ {
		get, err := k.decode(dec)
		if err != nil {
			r.Fail("lost", "document %d of %d (%s) not delivered: %v; %s", i, nOK, q(s.text(i)), err, end)
		}
		k.check(r, "altered", fmt.Sprintf("document %d", i), get, s.docs[i].v, s.text(i))
	}
	n := 3
	for i := 0; i < n; i++ {
		get, err := k.decode(dec)
		r.Trace("Decode at the end: %v", err)
		if err == nil {
			v, raw := get()
			r.Fail("fabricated", "after %d documents (%s), call %d returned a value: %v %s", nOK, end, i, v, q(raw))
		}
		if bad {
			if isEOF(err) {
				r.Fail("eof-on-malformed", "%s reported as io.EOF", end)
			}
			continue
		}
		if err != wantEnd {
			r.Fail("wrong-end", "%s: call %d returned %v, want %v", end, i, err, wantEnd)
		}
	}
}

// c01typed: documents of many types through a reader that cuts them anywhere,
// decoded into those types.
func c01typed(r *R) {
	type item struct {
		t    reflect.Type
		text []byte
	}
	var items []item
	var s stream
	n := 2 + r.Choose(5)
	for i := 0; i < n; i++ {
		var it item
		if i > 0 && r.OneIn(2) {
			it = item{items[i-1].t, similarDoc(r, items[i-1].text)}
		} else {
			g := docGen{unknown: r.OneIn(2), esc: []int{0, 2, 5}[r.Choose(3)], types: damagedTypes}
			if r.OneIn(3) {
				g.mism = 5
			}
			it.t, it.text = genDoc(r, g)
		}
		items = append(items, it)
		sep := []string{"\n", "\n", " ", "\n\n  \t"}[r.Choose(4)]
		s.docs = append(s.docs, doc{start: len(s.b), end: len(s.b) + len(it.text)})
		s.b = append(append(s.b, it.text...), sep...)
	}
	rd := newReader(r, s.b)
	rd.avoid = genCuts(r, &s)
	in, _ := r.dress(rd, true)
	dec := jsoncolor.NewDecoder(in)
	var flags jsoncolor.ParseFlags
	if r.OneIn(3) {
		dec.UseNumber()
		flags |= jsoncolor.UseNumber
	}
	if r.OneIn(6) {
		dec.DisallowUnknownFields()
		flags |= jsoncolor.DisallowUnknownFields
	}
	r.Trace("typed stream %s", q(s.b))
	r.Sample("%d typed documents, %d bytes, reader mode %d: %s", n, len(s.b), rd.mode, short(fmt.Sprintf("%q", s.b), 200))
	var got [][2]string
	for i, it := range items {
		v := reflect.New(it.t)
		err := dec.Decode(v.Interface())
		got = append(got, [2]string{dump(v.Elem()), errText(err)})
		r.Trace("document %d -> %s, %v", i, short(got[i][0], 200), err)
	}
	var x any
	if err := dec.Decode(&x); err != io.EOF {
		r.Fail("wrong-end", "after %d typed documents: %v, want io.EOF", n, err)
	}
	for i, it := range items {
		d, errs, _ := pristineParse(it.text, it.t, flags)
		if got[i] != [2]string{d, errs} {
			r.Fail("altered", "document %d %s into %s gave %s, error %q; alone it gives %s, error %q", i, q(it.text), it.t, short(got[i][0], 300), got[i][1], short(d, 300), errs)
		}
		simrt.Note(hash64(d + errs))
	}
	r.Count("reach.typed_stream")
}

// genFail arms the reader with a failure.
func genFail(r *R, rd *simReader, s *stream, data []byte) {
	p := r.Choose(len(data) + 1)
	if r.OneIn(2) {
		d := s.docs[r.Choose(len(s.docs))]
		p = d.start + r.Choose(d.end-d.start+1)
	}
	rd.failAt = min(p, len(data))
	rd.failErr = genErr(r)
	if r.OneIn(4) {
		rd.failErr = io.ErrUnexpectedEOF
	}
	rd.withData = r.OneIn(2)
	rd.once = r.OneIn(2)
}

// c02: read errors surface.
func c02(r *R) {
	s := genStream(r, 5)
	rd := newReader(r, s.b)
	rd.avoid = genCuts(r, s)
	genFail(r, rd, s, s.b)
	in, _ := r.dress(rd, false)
	dec := jsoncolor.NewDecoder(in)
	k := newSink(r, dec)
	// Documents complete before the failure. A bare number that ends exactly
	// at the failure point is not known to be complete.
	nOK := 0
	for i, d := range s.docs {
		if d.end < rd.failAt || (d.end == rd.failAt && d.v.K != '0') {
			nOK = i + 1
		}
	}
	inside := ""
	for _, d := range s.docs {
		if d.start < rd.failAt && rd.failAt < d.end {
			inside = "inside a document"
			r.Count("reach.failure_inside_value")
		}
	}
	r.nontrivial = true
	r.Trace("stream %s fails at %d %s with %v (with data %v, once %v)", q(s.b), rd.failAt, inside, rd.failErr, rd.withData, rd.once)
	r.Sample("failure %q at byte %d of %d %s, with data %v, once %v, reader mode %d", rd.failErr, rd.failAt, len(s.b), inside, rd.withData, rd.once, rd.mode)
	for i := 0; i < nOK; i++ {
		get, err := k.decode(dec)
		if err != nil {
			r.Fail("lost", "document %d (complete at %d, failure at %d) not delivered: %v", i, s.docs[i].end, rd.failAt, err)
		}
		k.check(r, "altered", fmt.Sprintf("document %d", i), get, s.docs[i].v, s.text(i))
	}
	for i := 0; i < 3; i++ {
		get, err := k.decode(dec)
		r.Trace("Decode after the failure point: %v", err)
		if err == nil {
			v, raw := get()
			r.Fail("fabricated", "call %d after the failure at byte %d returned a value: %v %s; stream %s", i, rd.failAt, v, q(raw), q(s.b))
		}
		if i == 0 && !errors.Is(err, rd.failErr) {
			r.Fail("swallowed", "reader failed with %v at byte %d of %s, Decode returned %v", rd.failErr, rd.failAt, q(s.b), err)
		}
		if isEOF(err) {
			r.Fail("swallowed", "call %d after a read failure returned io.EOF", i)
		}
	}
}

// c03: byte accounting.
func c03(r *R) {
	s := genStream(r, 5)
	data := s.b
	nDocs := len(s.docs)
	trail := ""
	switch r.Choose(4) {
	case 1:
		trail = " \n\t"
	case 2:
		c := r.Choose(len(data) + 1)
		data = data[:c]
		nDocs = 0
		for i, d := range s.docs {
			if d.end < c || (d.end == c && (d.v.K != '0')) {
				nDocs = i + 1
			}
		}
		r.Count("fault.truncated_stream")
	case 3:
		trail = "\n" + malformed[r.Choose(len(malformed))]
		r.Count("fault.malformed_document")
	}
	data = append(append([]byte(nil), data...), trail...)
	rd := newReader(r, data)
	rd.avoid = genCuts(r, s)
	if r.OneIn(4) {
		genFail(r, rd, s, data)
	}
	in, pos := r.dress(rd, rd.failAt < 0)
	dec := jsoncolor.NewDecoder(in)
	k := newSink(r, dec)
	last := int64(0)
	check := func(when string) {
		off := dec.InputOffset()
		if off < last {
			r.Fail("offset-back", "%s: InputOffset went from %d to %d", when, last, off)
		}
		last = off
		buf, err := io.ReadAll(dec.Buffered())
		if err != nil {
			r.Fail("buffered", "%s: Buffered: %v", when, err)
		}
		at := pos()
		if off < 0 || int(off)+len(buf) != at || string(data[off:at]) != string(buf) {
			r.Fail("accounting", "%s: InputOffset %d, Buffered %s, but the reader has delivered %d bytes (%s)", when, off, q(buf), at, q(data[min(int(off), at):at]))
		}
		simrt.Note(uint64(off) ^ 0x0ff5)
		r.Trace("%s: offset %d, %d buffered", when, off, len(buf))
	}
	check("before the first Decode")
	stop := -1
	if r.OneIn(2) {
		stop = r.Choose(nDocs + 1)
	}
	r.nontrivial = true
	r.Sample("%d bytes, %d documents, takeover after %d, reader mode %d", len(data), nDocs, stop, rd.mode)
	i := 0
	ended := false
	for ; i != stop; i++ {
		var err error
		mismatch := false
		var get func() (any, []byte)
		if i < nDocs && r.OneIn(4) {
			// a destination that cannot hold the document
			mismatch = true
			var c chan int
			err = dec.Decode(&c)
			r.Count("fault.type_mismatch")
		} else {
			get, err = k.decode(dec)
		}
		check(fmt.Sprintf("after Decode %d (%v)", i, err))
		if i < nDocs && (err == nil || mismatch) {
			d := s.docs[i]
			if !mismatch {
				k.check(r, "altered", fmt.Sprintf("document %d", i), get, d.v, s.text(i))
			} else if err == nil {
				r.Fail("mismatch-accepted", "document %s decoded into a channel", q(s.text(i)))
			}
			if rd.failed > 0 && (rd.failAt < d.end || rd.failAt == d.end && d.v.K == '0') {
				continue
			}
			off := int(dec.InputOffset())
			if off < d.end {
				r.Fail("offset-early", "after document %d ending at %d, InputOffset is %d", i, d.end, off)
			}
			for _, c := range data[d.end:off] {
				if !isSpace(c) {
					r.Fail("offset-late", "after document %d ending at %d, InputOffset is %d past %s", i, d.end, off, q(data[d.end:off]))
				}
			}
			continue
		}
		if err != nil {
			// twice more: still consistent
			for j := 0; j < 2; j++ {
				k.decode(dec)
				check("after failing again")
			}
			ended = true
			break
		}
	}
	if ended || rd.failAt >= 0 {
		return
	}
	// takeover by another consumer
	r.Count("reach.takeover")
	rest, err := io.ReadAll(io.MultiReader(dec.Buffered(), in))
	if err != nil {
		r.Fail("buffered", "takeover: %v", err)
	}
	if off := dec.InputOffset(); string(rest) != string(data[off:]) {
		r.Fail("takeover", "takeover at %d: got %s, want %s", off, q(rest), q(data[off:]))
	}
	from := 0
	if i > 0 {
		from = s.docs[i-1].end
	}
	nd := json.NewDecoder(readerOf(rest))
	nd.UseNumber()
	for j := i; j < nDocs; j++ {
		var x any
		if err := nd.Decode(&x); err != nil {
			r.Fail("takeover", "takeover after byte %d: document %d: %v", from, j, err)
		}
		if !equalAny(s.docs[j].v.Any(true), x) {
			r.Fail("takeover", "takeover: document %d differs: %v", j, x)
		}
	}
}

type byteReader struct{ b []byte }

func readerOf(b []byte) io.Reader { return &byteReader{b} }

func (x *byteReader) Read(p []byte) (int, error) {
	if len(x.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, x.b)
	x.b = x.b[n:]
	return n, nil
}

var streamReal = []string{"jsoncolor.Decoder, parser and codecs (instrumented real code)", "encoding/json for oracles"}

func init() {
	register(&Scenario{ID: "C01", Run: c01, Quick: 80_000, Thorough: 3_000_000, Real: streamReal,
		Stub: []string{"io.Reader (simulated transport: chunk sizes, empty reads, data with EOF, scratch use of the buffer, truncation)"},
		Rule: "one run = one generated stream (documents of all kinds, sometimes placed across 4K/32K/64K/128K boundaries; clean, truncated or with a malformed document) read through one tape-chosen chunking; non-trivial: at least one chunk border fell inside a token"})
	register(&Scenario{ID: "C02", Run: c02, Quick: 100_000, Thorough: 4_000_000, Real: streamReal,
		Stub: []string{"io.Reader (simulated transport failing at a chosen byte, with or without data, once or for ever)"},
		Rule: "one run = one stream with one injected read failure at a chosen byte; every run injects one, distinct by event log"})
	register(&Scenario{ID: "C03", Run: c03, Quick: 60_000, Thorough: 2_500_000, Real: streamReal,
		Stub: []string{"io.Reader (simulated transport)"},
		Rule: "one run = one stream decoded step by step with InputOffset/Buffered compared with the transport's own position after every call, possibly handing over to encoding/json; distinct by event log"})
}
