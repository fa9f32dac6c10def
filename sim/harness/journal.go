package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

var errNoSpace = errors.New("no space left on device")

// simDisk is a file on a simulated disk: what has been synced survives a
// crash, the rest survives in part.
type simDisk struct {
	r       *R
	data    []byte // as the running program sees it
	durable int    // bytes that survive for sure
	cap     int    // disk size
	sector  int
	nospace bool
}

func (d *simDisk) Write(p []byte) (int, error) {
	room := d.cap - len(d.data)
	if len(p) > room {
		n := max(0, room)
		if n > 0 && d.r.Choose(3) == 0 {
			n = d.r.Choose(n + 1)
		}
		d.data = append(d.data, p[:n]...)
		d.nospace = true
		d.r.Count("fault.disk_full")
		return n, errNoSpace
	}
	d.data = append(d.data, p...)
	return len(p), nil
}

func (d *simDisk) sync() { d.durable = len(d.data) }

// crash leaves on the disk what a power failure would. It reports what kind
// of damage happened and whether the damaged bytes can only be truncation or
// zeros (a torn tail, as opposed to corrupted bytes).
func (d *simDisk) crash() (kind string, torn bool) {
	lost := len(d.data) - d.durable
	torn = true
	switch d.r.Pick(3, 3, 2, 2, 2) {
	case 0: // everything had reached the disk
		kind = "crash, nothing lost"
	case 1: // a prefix of the unsynced bytes
		k := d.r.Choose(lost + 1)
		d.data = d.data[:d.durable+k]
		kind = fmt.Sprintf("crash, %d of %d unsynced bytes survive", k, lost)
		d.r.Count("fault.crash_torn_tail")
	case 2: // the length was written, some sectors were not
		n := 0
		for i := d.durable / d.sector * d.sector; i < len(d.data); i += d.sector {
			if d.r.OneIn(2) {
				for j := max(i, d.durable); j < min(i+d.sector, len(d.data)); j++ {
					d.data[j] = 0
				}
				n++
			}
		}
		kind = fmt.Sprintf("crash, %d unsynced sectors read as zeros", n)
		d.r.Count("fault.crash_lost_sectors")
	case 3: // all unsynced bytes lost
		d.data = d.data[:d.durable]
		kind = fmt.Sprintf("crash, all %d unsynced bytes lost", lost)
		d.r.Count("fault.crash_lost_tail")
	case 4: // torn, then the garbage of an older file
		k := d.r.Choose(lost + 1)
		d.data = d.data[:d.durable+k]
		g := []string{"\x00\x00\x00\x00", "}\n]\n", "\xff\xfe", "old garbage", "null", ",\"x\":1}\n", "\n\n"}[d.r.Choose(7)]
		d.data = append(d.data, g...)
		torn = false
		kind = fmt.Sprintf("crash, %d of %d unsynced bytes survive, followed by %q", k, lost, g)
		d.r.Count("fault.crash_stale_tail")
	}
	return
}

// rot damages bytes at rest.
func (d *simDisk) rot() string {
	if len(d.data) == 0 {
		return "nothing"
	}
	i := d.r.Choose(len(d.data))
	switch d.r.Choose(4) {
	case 0:
		d.data[i] ^= 1 << d.r.Choose(8)
		d.r.Count("fault.bit_flip")
		return fmt.Sprintf("bit flip at %d", i)
	case 1:
		n := min(len(d.data)-i, 1+d.r.Choose(d.sector))
		for j := 0; j < n; j++ {
			d.data[i+j] = 0
		}
		d.r.Count("fault.zeroed_bytes")
		return fmt.Sprintf("%d zero bytes at %d", n, i)
	case 2:
		d.data[i] = byte(d.r.Choose(256))
		d.r.Count("fault.byte_changed")
		return fmt.Sprintf("byte %d changed", i)
	}
	d.data = d.data[:i]
	d.r.Count("fault.truncated_file")
	return fmt.Sprintf("truncated at %d", i)
}

// c13: a journal survives crashes up to the damage point.
func c13(r *R) {
	genPoolMode(r)
	d := &simDisk{r: r, cap: 1 << 30, sector: []int{64, 16, 512, 4096}[r.Choose(4)]}
	var docs []doc      // the documents the journal ought to contain
	var intended []byte // and its bytes
	rounds := 1 + r.Choose(4)
	log := ""
	useNumber := r.OneIn(2)
	big := 60
	if r.OneIn(6) {
		big = 70000
	}
	for round := 0; round < rounds; round++ {
		// append
		if r.OneIn(4) {
			d.cap = len(d.data) + r.Choose(300)
		}
		enc := jsoncolor.NewEncoder(d)
		if r.OneIn(2) {
			c := genCfg(r)
			c.colors = 0
			c = c.asJSON()
			c.apply(enc)
		}
		n := r.Choose(6)
		failed := false
		for i := 0; i < n; i++ {
			v := genValue(r, &genOpts{depth: r.Choose(4), big: big, budget: 15}, 0)
			if r.OneIn(12) { // fills buffers to the brim, or nearly
				n := 1<<(6+r.Choose(10)) - 2 - r.Pick(4, 1, 1)
				v = JV{K: 's', S: strings.Repeat("0123456789abcdef", n/16+1)[:n]}
				r.Count("reach.brim")
			}
			if r.OneIn(8) {
				// a value that cannot be encoded leaves no trace
				before := len(d.data)
				if err := enc.Encode([]any{v.Any(true), make(chan int)}); err == nil {
					r.Fail("swallowed", "a channel was encoded")
				}
				if len(d.data) != before {
					r.Fail("trace", "a failed Encode appended %s", q(d.data[before:]))
				}
				r.Count("fault.unencodable_value")
			}
			before := len(d.data)
			err := enc.Encode(v.Any(true))
			if failed {
				if err == nil || len(d.data) != before {
					r.Fail("write-after-error", "after a failed write, Encode returned %v and appended %d bytes", err, len(d.data)-before)
				}
				continue
			}
			if err != nil {
				if !d.nospace || !errors.Is(err, errNoSpace) {
					r.Fail("refused", "Encode: %v", err)
				}
				failed = true
				continue
			}
			if d.nospace {
				r.Fail("error-lost", "the disk was full, Encode returned nil")
			}
			end := len(d.data)
			for end > before && isSpace(d.data[end-1]) {
				end--
			}
			if v.K == '0' || end < len(d.data) {
				docs = append(docs, doc{v, before, end})
			} else {
				r.Fail("newline", "Encode appended %s without a newline", q(d.data[before:]))
			}
			intended = append(intended, d.data[before:]...)
			if r.OneIn(3) {
				d.sync()
			}
		}
		d.nospace = false
		d.cap = 1 << 30
		// damage
		kind, torn := "clean", true
		stale := false
		if r.OneIn(5) {
			kind = "clean shutdown"
			d.sync()
		} else {
			kind, torn = d.crash()
			stale = !torn
		}
		if r.OneIn(4) {
			kind += ", " + d.rot()
			torn = false
		}
		log += fmt.Sprintf("[%d documents, %s] ", len(docs), kind)
		r.Trace("round %d: %s; file %s", round, kind, q(d.data))
		damage := 0
		for damage < len(d.data) && damage < len(intended) && d.data[damage] == intended[damage] {
			damage++
		}
		// The tail of a failed write is in the file but in no document.
		good := 0
		for _, x := range docs {
			if x.end < damage || x.end == damage && x.v.K != '0' {
				good++
			} else {
				break
			}
		}
		// read back
		rd := newReader(r, d.data)
		eio := -1
		if r.OneIn(6) {
			eio = r.Choose(len(d.data) + 1)
			rd.failAt, rd.failErr, rd.withData = eio, errInjected, r.OneIn(2)
			for good > 0 && (docs[good-1].end > eio || docs[good-1].end == eio && docs[good-1].v.K == '0') {
				good--
			}
			log += fmt.Sprintf("bad sector at %d ", eio)
		}
		in, _ := r.dress(rd, eio < 0)
		dec := jsoncolor.NewDecoder(in)
		if useNumber {
			dec.UseNumber()
		}
		off := int64(0)
		for i := 0; i < good; i++ {
			var x any
			if err := dec.Decode(&x); err != nil {
				r.Fail("lost", "%s: document %d (bytes %d to %d) lies before the first damaged byte %d, but: %v; file %s", log, i, docs[i].start, docs[i].end, damage, err, q(d.data))
			}
			if w := docs[i].v.Any(useNumber); !equalAny(x, w) {
				r.Fail("altered", "%s: document %d came back as %s, was %s", log, i, short(fmt.Sprintf("%#v", x), 300), short(fmt.Sprintf("%#v", w), 300))
			}
			off = dec.InputOffset()
		}
		// what follows is damaged: it must end, and a torn document is no value
		var last error
		behind := min(int(dec.InputOffset()), len(d.data)) // where the last value ended
		for k := 0; ; k++ {
			if k > len(d.data)+3 {
				r.Fail("endless", "%s: reading the damaged file does not end", log)
			}
			var x any
			o := dec.InputOffset()
			if last = dec.Decode(&x); last != nil {
				break
			}
			behind = min(int(dec.InputOffset()), len(d.data))
			if k == 0 {
				// The document delivered begins at o: judge its bytes.
				end := min(int(dec.InputOffset()), len(d.data))
				text := bytes.TrimSpace(d.data[min(int(o), end):end])
				if !json.Valid(text) {
					r.Fail("torn", "%s: bytes %s were delivered as the value %s", log, q(text), short(fmt.Sprintf("%#v", x), 300))
				}
				if torn && eio < 0 && good < len(docs) && len(text) > 0 && !(text[0] == '-' || text[0] >= '0' && text[0] <= '9') {
					r.Fail("torn", "%s: document %d is torn, but the value %s was delivered; file %s", log, good, short(fmt.Sprintf("%#v", x), 300), q(d.data))
				}
			}
		}
		// Whoever goes on after the damage may find whole documents, but no
		// parts of one.
		if !isEOF(last) && eio < 0 && !stale {
			for k := 0; k < 4; k++ {
				var x any
				o := dec.InputOffset()
				if err := dec.Decode(&x); err != nil {
					continue
				}
				end := min(int(dec.InputOffset()), len(d.data))
				text := bytes.TrimSpace(d.data[min(int(o), end):end])
				whole := false
				for _, x := range docs {
					whole = whole || bytes.Equal(text, intended[x.start:x.end])
				}
				if !whole && len(text) > 0 && !(text[0] == '-' || text[0] >= '0' && text[0] <= '9') {
					r.Fail("torn", "%s: after %v the bytes %s, which are no document, were delivered as the value %s; file %s", log, last, q(text), short(fmt.Sprintf("%#v", x), 300), q(d.data))
				}
			}
		}
		if isEOF(last) && eio < 0 {
			// a clean end: nothing but white space may be left
			if rest := bytes.TrimSpace(d.data[behind:]); len(rest) > 0 {
				r.Fail("swallowed", "%s: io.EOF with %s unread", log, q(rest))
			}
		}
		if isEOF(last) && eio >= 0 {
			r.Fail("swallowed", "%s: a bad sector was reported as io.EOF", log)
		}
		// recover
		if good < len(docs) || int(off) < len(d.data) {
			r.nontrivial = true
		}
		d.data = append([]byte(nil), d.data[:off]...)
		docs = docs[:good]
		intended = append([]byte(nil), d.data...)
		d.sync()
		simrt.Note(uint64(off))
	}
	// final reading of the recovered journal
	dec := jsoncolor.NewDecoder(newReader(r, d.data))
	if useNumber {
		dec.UseNumber()
	}
	for i := range docs {
		var x any
		if err := dec.Decode(&x); err != nil {
			r.Fail("recovery", "%s: after truncation at the reported offset, document %d: %v; file %s", log, i, err, q(d.data))
		}
		if w := docs[i].v.Any(useNumber); !equalAny(x, w) {
			r.Fail("recovery", "%s: after recovery document %d is %s, was %s", log, i, short(fmt.Sprintf("%#v", x), 300), short(fmt.Sprintf("%#v", w), 300))
		}
	}
	var x any
	if err := dec.Decode(&x); err != io.EOF {
		r.Fail("recovery", "%s: the recovered journal of %d documents goes on: %v %v; file %s", log, len(docs), x, err, q(d.data))
	}
	r.Sample("%s", log)
}

func init() {
	register(&Scenario{ID: "C13", Run: c13, Quick: 180_000, Thorough: 7_000_000,
		Real: []string{"jsoncolor.Encoder and Decoder (instrumented real code)"},
		Stub: []string{"the disk: simulated file with synced and unsynced bytes, sectors, capacity, crashes, stale and rotten bytes, bad sectors", "read fragmentation"},
		Rule: "one run = 1-4 rounds of appending documents (some unencodable, some hitting a full disk), crash or shutdown, bit rot, reading back through fragmented reads, truncation at the reported offset; non-trivial: some round lost or damaged bytes; distinct by event log"})
}
