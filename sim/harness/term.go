package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"

	jsoncolor "github.com/neilotoole/jsoncolor"
	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

func isTTY(fd int) bool {
	var t syscall.Termios
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	return e == 0
}

var ptyMaster, ptySlave *os.File
var ptyTried bool

// openPty opens a pseudo terminal once per process, if there is one to have.
func openPty() bool {
	if ptyTried {
		return ptySlave != nil
	}
	ptyTried = true
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return false
	}
	var unlock int32
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(m), 0x40045431, uintptr(unsafe.Pointer(&unlock)))                                  // TIOCSPTLCK
	s, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(m), 0x5441, uintptr(syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC)) // TIOCGPTPEER
	if e != 0 || !isTTY(int(s)) {
		syscall.Close(m)
		return false
	}
	ptyMaster, ptySlave = os.NewFile(uintptr(m), "ptmx"), os.NewFile(s, "pts")
	return true
}

// a writer that is not a file but has one
type fileWrapper struct{ *os.File }

type fdWriter struct{ fd uintptr }

func (fdWriter) Write(p []byte) (int, error) { return len(p), nil }
func (w fdWriter) Fd() uintptr               { return w.fd }

// c15: terminal detection follows the moment.
func c15(r *R) {
	vars := []string{"NO_COLOR", "FORCE_COLOR", "TERM"}
	env := map[string]string{}
	type saved struct {
		v  string
		ok bool
	}
	var old []saved
	for _, k := range append(vars, "COLORTERM", "CI", "CLICOLOR", "CLICOLOR_FORCE") {
		v, ok := os.LookupEnv(k)
		old = append(old, saved{v, ok})
		os.Unsetenv(k)
	}
	var files []*os.File
	r.Defer(func() {
		for i, k := range append(vars, "COLORTERM", "CI", "CLICOLOR", "CLICOLOR_FORCE") {
			if old[i].ok {
				os.Setenv(k, old[i].v)
			} else {
				os.Unsetenv(k)
			}
		}
		for _, f := range files {
			f.Close()
		}
	})
	must := func(err error) {
		if err != nil {
			panic(harnessError{err.Error()})
		}
	}
	os.MkdirAll(scratchDir, 0o755)
	havePty := openPty()
	if !havePty {
		r.Count("reach.no_pty_available")
	}
	dup := func(f *os.File) *os.File {
		fd, err := syscall.Dup(int(f.Fd()))
		must(err)
		n := os.NewFile(uintptr(fd), f.Name())
		files = append(files, n)
		return n
	}
	regular := func() *os.File {
		f, err := os.OpenFile(filepath.Join(scratchDir, "regular"), os.O_CREATE|os.O_RDWR, 0o644)
		must(err)
		files = append(files, f)
		return f
	}
	type target struct {
		w    io.Writer
		f    *os.File // nil: never a terminal
		what string
	}
	var ts []*target
	add := func(w io.Writer, f *os.File, what string) { ts = append(ts, &target{w, f, what}) }
	mk := func() {
		switch k := r.Choose(13); {
		case k == 0:
			add(nil, nil, "nil")
		case k == 1:
			add(&bytes.Buffer{}, nil, "buffer")
		case k == 2:
			f := regular()
			add(f, f, "regular file")
		case k == 3:
			a, b, err := os.Pipe()
			must(err)
			files = append(files, a, b)
			add(b, b, "pipe")
		case k == 4:
			f, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
			must(err)
			files = append(files, f)
			add(f, f, "null device")
		case k == 5:
			f := regular()
			f.Close()
			add(f, f, "closed file")
		case k == 6:
			var f *os.File
			add(f, nil, "nil *os.File")
		case k == 7 && havePty:
			f := dup(ptySlave)
			add(fileWrapper{f}, nil, "wrapper around a terminal")
		case k == 8 && havePty:
			add(fdWriter{ptySlave.Fd()}, nil, "writer with the Fd of a terminal")
		case k == 9 && havePty:
			f := dup(ptySlave)
			add(io.MultiWriter(f), nil, "multi writer over a terminal")
		case k == 10 && havePty:
			f := dup(ptyMaster)
			add(f, f, "master side of a terminal")
		case havePty:
			f := dup(ptySlave)
			add(f, f, "terminal")
		default:
			add(io.Discard, nil, "discard")
		}
	}
	for i, n := 0, 1+r.Choose(4); i < n; i++ {
		mk()
	}
	values := map[string][]string{
		"NO_COLOR":    {"1", "", "0", "false", " ", "no"},
		"FORCE_COLOR": {"1", "", "0", "false", "true", "3"},
		"TERM":        {"dumb", "xterm-256color", "", "dumb2", "DUMB", "linux", "dumb "},
	}
	hist := ""
	n := 2 + r.Choose(14)
	for i := 0; i < n; i++ {
		switch r.Pick(4, 4, 2, 1) {
		case 1: // the environment changes
			k := vars[r.Choose(3)]
			if r.OneIn(3) {
				os.Unsetenv(k)
				delete(env, k)
				hist += "unset " + k + "; "
			} else {
				v := values[k][r.Choose(len(values[k]))]
				os.Setenv(k, v)
				env[k] = v
				hist += fmt.Sprintf("%s=%q; ", k, v)
			}
			r.Count("fault.environment_change")
			r.nontrivial = true
			continue
		case 2: // a descriptor changes
			t := ts[r.Choose(len(ts))]
			if t.f == nil {
				continue
			}
			if fd := t.f.Fd(); fd == ^uintptr(0) {
				continue
			}
			switch r.Choose(3) {
			case 0:
				t.f.Close()
				hist += t.what + " closed; "
				r.Count("fault.descriptor_closed")
			case 1:
				must(syscall.Dup3(int(regular().Fd()), int(t.f.Fd()), syscall.O_CLOEXEC))
				hist += t.what + " now refers to a regular file; "
				r.Count("fault.descriptor_replaced")
			case 2:
				if havePty {
					must(syscall.Dup3(int(ptySlave.Fd()), int(t.f.Fd()), syscall.O_CLOEXEC))
					hist += t.what + " now refers to a terminal; "
					r.Count("fault.descriptor_replaced")
				}
			}
			r.nontrivial = true
			continue
		case 3:
			mk()
			continue
		}
		t := ts[r.Choose(len(ts))]
		want := false
		switch {
		case env["NO_COLOR"] != "":
		case env["FORCE_COLOR"] != "":
			want = true
		case env["TERM"] == "dumb":
		case t.f == nil:
		default:
			if fd := t.f.Fd(); fd != ^uintptr(0) {
				want = isTTY(int(fd))
				if want {
					r.Count("reach.terminal")
				}
			}
		}
		got := jsoncolor.IsColorTerminal(t.w)
		simrt.Note(hash64(fmt.Sprint(i, t.what, got)))
		r.Trace("%sIsColorTerminal(%s) = %v", hist, t.what, got)
		if got != want {
			var es []string
			for _, k := range vars {
				if v, ok := env[k]; ok {
					es = append(es, fmt.Sprintf("%s=%q", k, v))
				}
			}
			r.Fail("wrong-answer", "IsColorTerminal(%s) = %v with %s, want %v; history: %s", t.what, got, strings.Join(es, " "), want, hist)
		}
		hist += fmt.Sprintf("asked about %s; ", t.what)
		if r.OneIn(3) && t.w != nil {
			// the answer is not consumed, and asking changes nothing
			if again := jsoncolor.IsColorTerminal(t.w); again != got {
				r.Fail("unstable", "IsColorTerminal(%s) = %v, asked again %v; history: %s", t.what, got, again, hist)
			}
		}
	}
	r.Sample("%s", hist)
}

func init() {
	register(&Scenario{ID: "C15", Run: c15, Quick: 1_000_000, Thorough: 60_000_000,
		Real: []string{"jsoncolor.IsColorTerminal (instrumented real code)", "golang.org/x/term", "kernel descriptors: files, pipes, a pseudo terminal"},
		Stub: []string{"the environment and descriptor changes, decided by the tape"},
		Rule: "one run = a history of changes of NO_COLOR, FORCE_COLOR and TERM, of descriptors (closed, replaced by a file or a terminal under the same *os.File) and of questions about nil, non-file, wrapped, closed, regular, pipe, device and terminal writers; non-trivial: something changed; distinct by event log"})
}
