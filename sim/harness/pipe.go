package main

import (
	"bufio"
	"fmt"
	"io"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// seg is a run of bytes on its way through a pipe.
type seg struct {
	b  []byte
	at int64 // arrives at this time
}

// pipe is one direction of a simulated ordered connection.
type pipe struct {
	r      *R
	name   string
	room   int // how many bytes it holds; the writer waits for room
	held   int
	segs   []seg
	closed bool
	frag   int // how reads are cut
	cut    int // how writes are cut into segments
	delay  int
	lastAt int64
	writes int
	bytes  int
	open   bool // partitioned until heal
	heal   int64
}

func newPipe(r *R, name string) *pipe {
	p := &pipe{r: r, name: name}
	p.room = []int{1 << 30, 4096, 64, 7, 1}[r.Pick(6, 2, 2, 1, 1)]
	p.frag = r.Choose(5)
	p.cut = r.Choose(5)
	p.delay = []int{0, 1, 10, 1000}[r.Choose(4)]
	return p
}

func (p *pipe) hasRoom() bool { return p.held < p.room }
func (p *pipe) hasData() bool { return len(p.segs) > 0 || p.closed }

func (p *pipe) Write(b []byte) (int, error) {
	p.writes++
	simrt.NoteBytes(b)
	total := len(b)
	for len(b) > 0 {
		if !p.hasRoom() {
			p.r.Count("fault.backpressure")
			simrt.Block("write to "+p.name, p.hasRoom)
		}
		n := min(len(b), p.room-p.held)
		switch p.cut {
		case 1:
			n = min(n, 1+p.r.Choose(3))
		case 2:
			n = min(n, 1+p.r.Choose(40))
		case 3:
			n = min(n, 1+p.r.Choose(1500))
		case 4: // the last bytes travel on their own
			if k := p.r.Choose(4); n == len(b) && n > k && k > 0 {
				n -= k
			}
		}
		if total > 3000 && n < 64 && p.room > 64 {
			n = min(len(b), min(700, p.room-p.held))
		}
		at := max(simrt.Clock(), p.lastAt)
		if p.delay > 0 {
			at += int64(p.r.Choose(p.delay + 1))
			if at > simrt.Clock() {
				p.r.Count("fault.delay")
			}
		}
		if p.r.Choose(64) == 63 {
			at += 1_000_000
			p.r.Count("fault.partition_and_heal")
		}
		p.lastAt = at
		p.segs = append(p.segs, seg{append([]byte(nil), b[:n]...), at})
		p.held += n
		p.bytes += n
		b = b[n:]
		if p.r.Choose(4) == 3 {
			simrt.Yield()
		}
	}
	p.r.Trace("t=%d %s: sent %d bytes", simrt.Clock(), p.name, total)
	return total, nil
}

func (p *pipe) Read(b []byte) (int, error) {
	for {
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.segs) > 0 {
			if d := p.segs[0].at - simrt.Clock(); d > 0 {
				simrt.Sleep(d)
				continue
			}
			break
		}
		if p.closed {
			return 0, io.EOF
		}
		p.r.Trace("t=%d %s: reader waits", simrt.Clock(), p.name)
		simrt.Block("read from "+p.name, p.hasData)
	}
	n := 0
	most := len(b)
	switch p.frag {
	case 1:
		most = min(most, 1+p.r.Choose(2))
	case 2:
		most = min(most, 1+p.r.Choose(30))
	case 3:
		most = min(most, 1+p.r.Choose(2000))
	case 4:
		if p.r.OneIn(3) {
			p.r.Count("fault.empty_read")
			return 0, nil
		}
	}
	if p.held > 5000 && most < 64 {
		most = min(len(b), 3000)
	}
	for n < most && len(p.segs) > 0 && p.segs[0].at <= simrt.Clock() {
		s := &p.segs[0]
		k := copy(b[n:most], s.b)
		n += k
		s.b = s.b[k:]
		if len(s.b) == 0 {
			p.segs = p.segs[1:]
		}
		if p.frag == 0 && p.r.OneIn(2) {
			break // one segment per read
		}
	}
	p.held -= n
	if n < most {
		p.r.Count("fault.short_read")
	}
	simrt.Note(uint64(n)<<8 | 0x419e)
	p.r.Trace("t=%d %s: Read(len %d) = %d", simrt.Clock(), p.name, len(b), n)
	return n, nil
}

// msg is one document of a conversation.
type msg struct {
	v    JV
	raw  []byte // sent as these bytes instead of through an Encoder
	enc  any
	numb bool
}

func genMsg(r *R, st *style, rawParty bool, big bool) msg {
	o := &genOpts{depth: r.Choose(4), big: 60, budget: 14}
	if big && r.OneIn(6) {
		o.big = 70000
	}
	m := msg{v: genValue(r, o, 0)}
	m.numb = m.v.K == '0'
	if rawParty {
		if r.OneIn(4) {
			m.raw = append(m.raw, " \n\t\r"[:r.Choose(5)]...)
		}
		m.raw = st.render(m.raw, m.v)
		switch {
		case m.numb:
			m.raw = append(m.raw, " \n\t\r"[r.Choose(4)])
		case r.OneIn(3):
			m.raw = append(m.raw, '\n')
		}
	}
	return m
}

// c04 dispatches between the two views of promptness.
func c04(r *R) {
	if r.Choose(3) == 2 {
		c04reads(r)
		return
	}
	c04pingpong(r)
}

// c04reads flags a Decode that reads although its value is complete.
func c04reads(r *R) {
	s := genStream(r, 5)
	rd := newReader(r, s.b)
	rd.avoid = genCuts(r, s)
	in, _ := r.dress(rd, false)
	dec := jsoncolor.NewDecoder(in)
	k := newSink(r, dec)
	cur := 0
	rd.onRead = func(p []byte) {
		if cur >= len(s.docs) {
			return
		}
		d := s.docs[cur]
		need := d.end
		if d.v.K == '0' {
			need++
		}
		if rd.pos >= need && need <= len(s.b) {
			r.Fail("waits", "Decode of document %d, which ends at byte %d (%s), calls Read although %d bytes have been delivered", cur, d.end, q(s.text(cur)), rd.pos)
		}
	}
	r.nontrivial = true
	r.Sample("reads: %d documents, %d bytes, reader mode %d: %s", len(s.docs), len(s.b), rd.mode, short(fmt.Sprintf("%q", s.b), 160))
	for ; cur < len(s.docs); cur++ {
		get, err := k.decode(dec)
		if err != nil {
			r.Fail("lost", "document %d: %v", cur, err)
		}
		k.check(r, "altered", fmt.Sprintf("document %d", cur), get, s.docs[cur].v, s.text(cur))
	}
}

// c04pingpong runs conversations over simulated pipes.
func c04pingpong(r *R) {
	genPoolMode(r)
	nPairs := 1 + r.Pick(5, 2, 1)
	type half struct {
		in, out *pipe
		send    []msg
		expect  []msg
		raw     bool
		first   bool
		batch   int
		cfg     encCfg
		useNum  bool
		name    string
		got     int
		opts    int
		bufio   int
	}
	var halves []*half
	var pipes []*pipe
	for i := 0; i < nPairs; i++ {
		ab, ba := newPipe(r, fmt.Sprintf("pipe %d>", i)), newPipe(r, fmt.Sprintf("pipe %d<", i))
		pipes = append(pipes, ab, ba)
		a := &half{in: ba, out: ab, first: true, name: fmt.Sprintf("party %dA", i)}
		b := &half{in: ab, out: ba, name: fmt.Sprintf("party %dB", i)}
		batch := 1
		if r.OneIn(4) {
			batch = 1 + r.Choose(4)
			ab.room, ba.room = 1<<30, 1<<30
		}
		n := batch * (1 + r.Choose(4))
		for _, h := range []*half{a, b} {
			h.batch = batch
			h.raw = r.OneIn(3)
			h.opts = r.Choose(3)
			if !h.raw && r.OneIn(2) {
				h.cfg = genCfg(r)
				h.cfg.colors = 0
				h.cfg = h.cfg.asJSON()
			}
			h.useNum = r.OneIn(3)
			h.bufio = []int{0, 0, 0, 16, 4096, 1 << 16}[r.Choose(6)]
			st := genStyle(r)
			for j := 0; j < n; j++ {
				m := genMsg(r, st, h.raw, h.out.room > 100)
				if !h.raw {
					m.enc = m.v.Any(true)
				}
				h.send = append(h.send, m)
			}
		}
		a.expect, b.expect = b.send, a.send
		halves = append(halves, a, b)
	}
	party := func(h *half) func() {
		return func() {
			enc := jsoncolor.NewEncoder(h.out)
			h.cfg.apply(enc)
			var in io.Reader = h.in
			if h.bufio > 0 {
				in = bufio.NewReaderSize(in, h.bufio)
			}
			dec := jsoncolor.NewDecoder(in)
			if h.useNum {
				dec.UseNumber()
			}
			send := func(j int) {
				m := h.send[j]
				if h.raw {
					h.out.Write(m.raw)
					return
				}
				w, n := h.out.writes, h.out.bytes
				if err := enc.Encode(m.enc); err != nil {
					r.Fail("refused", "%s: Encode of document %d: %v", h.name, j, err)
				}
				if h.out.writes != w+1 || h.out.bytes == n {
					r.Fail("withheld", "%s: Encode of document %d returned after %d Write calls", h.name, j, h.out.writes-w)
				}
			}
			recv := func(j int) {
				var x any
				if err := dec.Decode(&x); err != nil {
					r.Fail("lost", "%s: document %d not received: %v", h.name, j, err)
				}
				if w := h.expect[j].v.Any(h.useNum); !equalAny(x, w) {
					r.Fail("altered", "%s: document %d received as %s, sent %s", h.name, j, short(fmt.Sprintf("%#v", x), 300), short(fmt.Sprintf("%#v", w), 300))
				}
				h.got++
			}
			for j := 0; j < len(h.send); j += h.batch {
				if h.first {
					for k := 0; k < h.batch; k++ {
						send(j + k)
					}
					for k := 0; k < h.batch; k++ {
						recv(j + k)
					}
				} else {
					for k := 0; k < h.batch; k++ {
						recv(j + k)
						send(j + k)
					}
				}
			}
			h.out.closed = true
			var x any
			if err := dec.Decode(&x); err != io.EOF {
				r.Fail("end", "%s: after the peer closed: %v, value %v", h.name, err, x)
			}
		}
	}
	var fns []func()
	for _, h := range halves {
		fns = append(fns, party(h))
	}
	pol := r.Policy()
	r.nontrivial = true
	r.Sample("%d conversations of %d documents, batch %d, rooms %d/%d, frag %d/%d, cut %d/%d, policy %v", nPairs, len(halves[0].send), halves[0].batch, pipes[0].room, pipes[1].room, pipes[0].frag, pipes[1].frag, pipes[0].cut, pipes[1].cut, pol)
	if r.RunTasks(pol, fns...) {
		s := ""
		for _, h := range halves {
			s += fmt.Sprintf("%s received %d of %d; ", h.name, h.got, len(h.expect))
		}
		r.Fail("stall", "every party waits although everything sent has been delivered: %s", s)
	}
}

func init() {
	register(&Scenario{ID: "C04", Run: c04, Quick: 60_000, Thorough: 2_000_000,
		Real: []string{"jsoncolor.Decoder, Encoder, parser and codecs (instrumented real code)"},
		Stub: []string{"the transport: simulated ordered pipes with bounded room, segments, delays, partitions that heal, read fragmentation", "the scheduler: parties are tasks switched at statements of the library, at pipe operations and at clock advances"},
		Rule: "one run = up to three concurrent two-party conversations (send, wait for the answer; through Encoder or as raw bytes without a trailing newline) that must reach their end without every party waiting, or (one third) one stream through a transport that reports any Read made although the pending value is complete; distinct by event log"})
}
