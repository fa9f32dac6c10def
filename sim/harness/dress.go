package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"
)

// Readers and writers are often more than an io.Reader or io.Writer: what they
// are dressed as must not matter.

// richReader is a simReader with the other methods that readers tend to have.
type richReader struct {
	*simReader
	last int // bytes of the last ReadByte or ReadRune
}

func (x *richReader) Read(p []byte) (int, error) {
	x.last = 0
	return x.simReader.Read(p)
}

func (x *richReader) ReadByte() (byte, error) {
	var b [1]byte
	x.last = 0
	for i := 0; i < 2000; i++ {
		n, err := x.simReader.Read(b[:])
		if n == 1 {
			x.last = 1
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (x *richReader) UnreadByte() error {
	if x.last != 1 {
		return errors.New("nothing to unread")
	}
	x.pos--
	x.last = 0
	return nil
}

func (x *richReader) ReadRune() (rune, int, error) {
	b, err := x.ReadByte()
	if err != nil || b < utf8.RuneSelf {
		return rune(b), 1, err
	}
	p := []byte{b}
	for !utf8.FullRune(p) {
		b, err = x.ReadByte()
		if err != nil {
			return utf8.RuneError, 1, nil
		}
		p = append(p, b)
	}
	c, n := utf8.DecodeRune(p)
	x.last = n
	return c, n, nil
}

func (x *richReader) UnreadRune() error {
	if x.last == 0 {
		return errors.New("nothing to unread")
	}
	x.pos -= x.last
	x.last = 0
	return nil
}

func (x *richReader) WriteTo(w io.Writer) (int64, error) {
	var b [4096]byte
	var total int64
	for {
		n, err := x.simReader.Read(b[:])
		if n > 0 {
			n, werr := w.Write(b[:n])
			total += int64(n)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (x *richReader) Len() int     { return len(x.data) - x.pos }
func (x *richReader) Size() int64  { return int64(len(x.data)) }
func (x *richReader) Close() error { x.r.Count("reach.reader_closed"); return nil }

// closeReader is a reader that can be closed.
type closeReader struct {
	io.Reader
	io.Closer
}

// dress makes rd something more than a plain reader. The function returned
// tells how many bytes it has delivered. If calm, rd may be replaced with a
// reader from the standard library that delivers the same bytes.
func (r *R) dress(rd *simReader, calm bool) (io.Reader, func() int) {
	pos := func() int { return rd.pos }
	if r.Choose(3) != 1 {
		return rd, pos
	}
	n := 6
	if calm {
		n = 10
	}
	k := r.Choose(n)
	r.Count([]string{"reach.reader_with_methods", "reach.reader_bufio", "reach.reader_multi", "reach.reader_limited", "reach.reader_tee", "reach.reader_closer", "reach.reader_buffer", "reach.reader_bytes", "reach.reader_strings", "reach.reader_file"}[k])
	switch k {
	case 0:
		return &richReader{simReader: rd}, pos
	case 1:
		br := bufio.NewReaderSize(rd, []int{16, 100, 4096, 1 << 16}[r.Choose(4)])
		return br, func() int { return rd.pos - br.Buffered() }
	case 2:
		return io.MultiReader(strings.NewReader(""), rd), pos
	case 3:
		return io.LimitReader(rd, 1<<40), pos
	case 4:
		return io.TeeReader(rd, io.Discard), pos
	case 5:
		return closeReader{rd, io.NopCloser(nil)}, pos
	case 6:
		r.dressed = append(make([]byte, 0, len(rd.data)+[]int{0, 20, 600}[r.Choose(3)]), rd.data...)
		b := bytes.NewBuffer(r.dressed)
		return b, func() int { return len(rd.data) - b.Len() }
	case 7:
		r.dressed = append([]byte(nil), rd.data...)
		b := bytes.NewReader(r.dressed)
		return b, func() int { return len(rd.data) - b.Len() }
	case 8:
		b := strings.NewReader(string(rd.data))
		return b, func() int { return len(rd.data) - b.Len() }
	}
	if err := os.MkdirAll(scratchDir, 0o755); err != nil {
		panic(harnessError{err.Error()})
	}
	name := filepath.Join(scratchDir, "stream")
	if err := os.WriteFile(name, rd.data, 0o600); err != nil {
		panic(harnessError{err.Error()})
	}
	f, err := os.Open(name)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	os.Remove(name)
	r.Defer(func() { f.Close() })
	return f, func() int {
		n, err := f.Seek(0, io.SeekCurrent)
		if err != nil {
			panic(harnessError{err.Error()})
		}
		return int(n)
	}
}

// richWriter is a simWriter with the other methods that writers tend to have.
// Whatever way bytes are passed to it counts as a Write.
type richWriter struct{ *simWriter }

func (x richWriter) WriteString(s string) (int, error) { return x.Write([]byte(s)) }
func (x richWriter) WriteByte(c byte) error            { _, err := x.Write([]byte{c}); return err }
func (x richWriter) WriteRune(c rune) (int, error)     { return x.Write([]byte(string(c))) }
func (x richWriter) ReadFrom(rd io.Reader) (int64, error) {
	b, err := io.ReadAll(rd)
	if err != nil {
		return 0, err
	}
	n, err := x.Write(b)
	return int64(n), err
}
func (x richWriter) Close() error { return nil }
