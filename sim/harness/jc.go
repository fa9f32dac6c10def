package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

// stripSGR removes colour sequences.
func stripSGR(b []byte) []byte {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] == 0x1b && i+1 < len(b) && b[i+1] == '[' {
			j := i + 2
			for j < len(b) && (b[j] == ';' || b[j] >= '0' && b[j] <= '9') {
				j++
			}
			if j < len(b) && b[j] == 'm' {
				i = j
				continue
			}
		}
		out = append(out, b[i])
	}
	return out
}

// cmpJSON compares two documents as jc sees them: numbers as float64.
func cmpJSON(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return equalAny(x, y)
}

var jcEnvs = [][]string{nil, {"NO_COLOR=1"}, {"FORCE_COLOR=1"}, {"TERM=dumb"}, {"NO_COLOR=1", "FORCE_COLOR=1"}, {"TERM=xterm-256color"}, {"NO_COLOR="}}

// damageDoc damages a document; the result may or may not be JSON.
func damageDoc(r *R, text []byte) ([]byte, string) {
	b := append([]byte(nil), text...)
	pos := func() int { return r.Choose(len(b) + 1) }
	if len(b) == 0 {
		return b, "empty"
	}
	switch r.Choose(13) {
	case 9, 10, 11, 12:
		return damageToken(r, b)
	case 1:
		i := r.Choose(len(b))
		b[i] ^= 1 << r.Choose(8)
		return b, fmt.Sprintf("bit flip at %d", i)
	case 2:
		i := pos()
		x := "{}[],:\"\\0-.eE \n\x00x\xff\x7f/*tn"
		j := r.Choose(len(x))
		b = append(b[:i], append([]byte{x[j]}, b[i:]...)...)
		return b, fmt.Sprintf("%q inserted at %d", x[j], i)
	case 3:
		i := r.Choose(len(b))
		n := 1 + r.Choose(min(3, len(b)-i))
		b = append(b[:i], b[i+n:]...)
		return b, fmt.Sprintf("%d bytes dropped at %d", n, i)
	case 4:
		i := r.Choose(len(b))
		n := min(len(b)-i, 1+r.Choose(8))
		for j := 0; j < n; j++ {
			b[i+j] = 0
		}
		return b, fmt.Sprintf("%d bytes zeroed at %d", n, i)
	case 5:
		i := r.Choose(len(b))
		b[i] = byte(r.Choose(256))
		return b, fmt.Sprintf("byte %d changed", i)
	case 6:
		i, j := pos(), pos()
		if i > j {
			i, j = j, i
		}
		b = append(b[:j:j], b[i:]...)
		return b, fmt.Sprintf("bytes %d to %d repeated", i, j)
	case 7:
		t := []string{"{}", " 1", "]", "\x00", "\ufeff", ",", "//c", "\n\n", "null"}[r.Choose(9)]
		if r.Choose(2) == 0 {
			return append(b, t...), fmt.Sprintf("followed by %q", t)
		}
		return append([]byte(t), b...), fmt.Sprintf("preceded by %q", t)
	case 8:
		i, j := r.Choose(len(b)), r.Choose(len(b))
		b[i], b[j] = b[j], b[i]
		return b, fmt.Sprintf("bytes %d and %d swapped", i, j)
	}
	i := r.Choose(len(b))
	return b[:i], fmt.Sprintf("truncated at %d", i)
}

// damageToken damages one place that matters to the grammar.
func damageToken(r *R, b []byte) ([]byte, string) {
	var at [6][]int // openers, closers, separators, number bytes, string bytes, literal bytes
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		k := -1
		switch {
		case in && c == '\\':
			at[4] = append(at[4], i)
			i++
			continue
		case c == '"':
			in = !in
			k = 4
		case in:
			k = 4
		case c == '{' || c == '[':
			k = 0
		case c == '}' || c == ']':
			k = 1
		case c == ',' || c == ':':
			k = 2
		case c == '-' || c == '+' || c == '.' || c >= '0' && c <= '9' || c == 'E' || c == 'e' && i > 0 && b[i-1] <= '9':
			k = 3
		case c >= 'a' && c <= 'z':
			k = 5
		}
		if k >= 0 {
			at[k] = append(at[k], i)
		}
	}
	k := r.Choose(6)
	for j := 0; j < 6 && len(at[k]) == 0; j++ {
		k = (k + 1) % 6
	}
	if len(at[k]) == 0 {
		return b, "no token to damage"
	}
	i := at[k][r.Choose(len(at[k]))]
	put := func(i, cut int, s string) ([]byte, string) {
		cut = min(cut, len(b)-i)
		w := fmt.Sprintf("%q at %d replaced with %q", b[i:i+cut], i, s)
		return append(b[:i:i], append([]byte(s), b[i+cut:]...)...), w
	}
	c := b[i]
	one := func(ss ...string) string { return ss[r.Choose(len(ss))] }
	if k < 3 && r.OneIn(8) {
		// what some take for space
		x := one("\f", "\v", "\u00a0", "\u2028", "\u0085", "//c\n", "/*c*/", "#c\n", "\x00", "\x1e", "\x1a", "\ufeff", "\\n", "\x7f")
		if r.OneIn(2) {
			return put(i, 1, x+string(c))
		}
		return put(i, 1, string(c)+x)
	}
	switch k {
	case 0:
		return put(i, 1, one(string(c)+",", string(c)+":", string(c^'['^'{'), string(c)+string(c), string(c)+"]", string(c)+"}", string(c)+"1", string(c)+"null,", "", string(c)+`"k"`, string(c)+`"k":`))
	case 1:
		return put(i, 1, one(","+string(c), ":"+string(c), string(c^']'^'}'), string(c)+string(c), "", " 1"+string(c), `,"k"`+string(c), `,"k":`+string(c), ",,"+string(c), " , "+string(c), string(c)+"1"))
	case 2:
		return put(i, 1, one("", ",,", "::", string(c^','^':'), string(c)+" "+string(c), ";", "=", string(c)+"1 ", " 1"+string(c), ",null,", ":1:", " "))
	case 3:
		cut := r.Choose(2)
		if r.OneIn(2) { // behind the number
			for cut = 0; i < len(b) && strings.IndexByte("+-.0123456789eE", b[i]) >= 0; i++ {
			}
		}
		return put(i, cut, one("", ".", "e", "E", "-", "+", "0", "00", "e+", "e-", "E5", ".0", "-0", "x", "_", " ", "0x", "1.", ".e", "e1.5", "+1", "Infinity", "٣"))
	case 4:
		return put(i, r.Choose(3), one("", `\`, `"`, `\"`, `\u`, `\u00`, `\u12g4`, `\ud800`, `\udc00`, `\ud83d\ude00`, `\ud800\u0041`, `\x`, `\'`, `\U0041`, "\n", "\t", "\x00", "\x1f", "\x7f", "\xff", "\xed\xa0\x80", `\n`, `\/`, `\u000`, `\u+123`, `\u 123`, `\\\`, "'"))
	}
	return put(i, r.Choose(3), one("", "l", "N", "T", "u", "null", "tru", "rue", "x", "s", "NaN", "undefined", "nulll", "True", "\x00", " "))
}

// c14: the jc command.
func c14(r *R) {
	dir := filepath.Join(scratchDir, "jc")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(harnessError{err.Error()})
	}
	r.Defer(func() { os.RemoveAll(dir) })
	must := func(err error) {
		if err != nil {
			panic(harnessError{err.Error()})
		}
	}
	// input
	o := &genOpts{depth: r.Choose(4), big: 80, budget: 15}
	if r.OneIn(6) {
		o.big = 100000
	}
	v := genValue(r, o, 0)
	if r.OneIn(25) { // empty composites and bare scalars
		v = []JV{{K: 'a'}, {K: 'o'}, {K: 'n'}, {K: 's'}, {K: '0', S: "0"}}[r.Choose(5)]
	}
	text := genStyle(r).render(nil, v)
	what := "valid input"
	if r.OneIn(3) {
		switch r.Choose(4) {
		case 0:
			m := malformed[r.Choose(len(malformed))]
			text, what = []byte(m), "malformed input"
		case 1:
			text, what = append(append(append([]byte(nil), text...), " \n"[r.Choose(2)]), text...), "two documents"
			r.Count("fault.trailing_document")
		default:
			text, what = damageDoc(r, text)
			r.Count("fault.damaged_input")
		}
	} else if r.OneIn(4) {
		text = append(text, " \n\t"[:1+r.Choose(3)]...)
	}
	huge := false
	if r.OneIn(40) {
		// much of nothing behind it, and perhaps something behind that
		huge = true
		text = append(text, bytes.Repeat([]byte(" \n"), []int{2 << 10, 16 << 10, 32 << 10, 512 << 10, 600 << 10, 2 << 20, 5 << 20}[r.Choose(7)])...)
		text = append(text, []string{"", "", "}", "1", "\x00", "{}", "x"}[r.Choose(7)]...)
		r.Count("reach.megabytes")
	}
	valid := json.Valid(text)
	var probe any
	representable := json.Unmarshal(text, &probe) == nil
	// the command line
	var args []string
	pretty, colour := !r.OneIn(3), !r.OneIn(3)
	if !pretty {
		args = append(args, "-p=false")
	} else if r.OneIn(4) {
		args = append(args, "-p=true")
	}
	if !colour {
		args = append(args, "-c=false")
	} else if r.OneIn(4) {
		args = append(args, "-c")
	}
	inFile := filepath.Join(dir, "in.json")
	must(os.WriteFile(inFile, text, 0o644))
	readable := true
	stdin := inFile
	inKind := r.Pick(4, 6, 1, 1)
	switch inKind {
	case 0:
		what += " on stdin"
	case 1:
		args = append(args, "-i", inFile)
		stdin = os.DevNull
	case 2:
		args = append(args, "-i", filepath.Join(dir, "missing.json"))
		stdin = os.DevNull
		readable = false
		what = "missing input file"
		r.Count("fault.input_missing")
	case 3:
		args = append(args, "-i", dir)
		stdin = os.DevNull
		readable = false
		what = "input is a directory"
		r.Count("fault.input_directory")
	}
	outFile := ""
	var old []byte
	hadOld := false
	writable := true
	switch r.Pick(3, 4, 2, 1, 1, 1) {
	case 1: // an existing file
		outFile = filepath.Join(dir, "out.json")
		old = []byte("precious old contents\n")
		if r.OneIn(3) {
			old = bytes.Repeat([]byte("a long old file "), 20000)
		}
		must(os.WriteFile(outFile, old, 0o644))
		hadOld = true
	case 2:
		outFile = filepath.Join(dir, "sub", "deep", "out.json")
	case 3: // over the input
		outFile = inFile
		old, hadOld = text, true
	case 4: // not a file
		outFile = dir
		writable = false
		r.Count("fault.output_is_directory")
	case 5: // below a file
		must(os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0o644))
		outFile = filepath.Join(dir, "plain", "out.json")
		writable = false
		r.Count("fault.output_below_file")
	}
	if outFile != "" {
		args = append(args, "-o", outFile)
	}
	// faults
	report := filepath.Join(dir, "report")
	plan := []string{"report=" + report}
	add := func(f string, a ...any) { plan = append(plan, fmt.Sprintf(f, a...)) }
	chunks := func() string {
		var l []string
		for i, n := 0, 1+r.Choose(4); i < n; i++ {
			l = append(l, fmt.Sprint([]int{0, 1, 2, 7, 100, 511, 4096}[r.Choose(7)]))
		}
		return strings.Join(l, ",")
	}
	if r.OneIn(2) && !huge {
		if len(text) < 3000 {
			add("rchunk=%s", chunks())
		} else {
			add("rchunk=%d,0", 500+r.Choose(4000))
		}
	}
	if r.OneIn(2) {
		if len(text) < 3000 {
			add("wchunk=%s", chunks())
		} else {
			add("wchunk=%d,0", 500+r.Choose(4000))
		}
	}
	if r.OneIn(6) {
		add("reintr=%d", 2+r.Choose(3))
		add("weintr=%d", 2+r.Choose(3))
	}
	errnos := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.ENXIO, syscall.EFBIG, syscall.ESTALE, syscall.EPIPE, syscall.EPERM, syscall.EACCES,
		syscall.EBADF, syscall.EINVAL, syscall.ENODEV, syscall.ENOMEM, syscall.EROFS, syscall.EISDIR, syscall.ECONNRESET, syscall.ETIMEDOUT, syscall.ENOTCONN, syscall.EOPNOTSUPP, syscall.ENOENT, syscall.EEXIST, syscall.EOVERFLOW}
	if r.OneIn(5) {
		add("rfail=%d;rerr=%d", r.Choose(len(text)+2), int(errnos[r.Choose(len(errnos))]))
	}
	sigpipe := false
	if r.OneIn(3) {
		n := len(text) + len(text)/2 + 10
		if r.OneIn(3) {
			n = 4
		}
		e := errnos[r.Choose(len(errnos))]
		add("wfail=%d;werr=%d", r.Choose(n), int(e))
		// The Go runtime turns EPIPE on standard output into SIGPIPE.
		sigpipe = e == syscall.EPIPE && outFile == ""
	}
	if r.OneIn(5) {
		add("cerr=%d", int(errnos[r.Choose(len(errnos))]))
	}
	env := jcEnvs[r.Choose(len(jcEnvs))]
	// run
	jc := os.Getenv("SIM_JC")
	if jc == "" {
		panic(harnessError{"SIM_JC not set"})
	}
	cmd := exec.Command(jc, args...)
	cmd.Env = append([]string{"SIM_JC_PLAN=" + strings.Join(plan, ";"), "HOME=" + dir}, env...)
	cmd.Dir = dir
	si, err := os.Open(stdin)
	must(err)
	defer si.Close()
	cmd.Stdin = si
	stdoutFile := filepath.Join(dir, "stdout")
	so, err := os.Create(stdoutFile)
	must(err)
	defer so.Close()
	usePipe := r.OneIn(3)
	var stdout, stderr bytes.Buffer
	if usePipe {
		cmd.Stdout = &stdout
	} else {
		cmd.Stdout = so
	}
	cmd.Stderr = &stderr
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		r.Fail("hang", "jc %q with %s did not end", args, what)
	}
	code := cmd.ProcessState.ExitCode()
	sout := stdout.Bytes()
	if !usePipe {
		sout, err = os.ReadFile(stdoutFile)
		must(err)
	}
	rep, _ := os.ReadFile(report)
	fired := map[string]bool{}
	for _, l := range strings.Fields(string(rep)) {
		if !fired[l] {
			r.Count("fault.jc_" + l)
		}
		fired[l] = true
	}
	clean := func(s string) string { return strings.ReplaceAll(s, dir, "DIR") }
	desc := clean(fmt.Sprintf("jc %q (env %q, %s, plan %q): exit %d, stderr %q, stdout %s, fired %q; input %s", args, env, what, strings.Join(plan[1:], ";"), code, short(stderr.String(), 120), q(sout), string(rep), q(text)))
	r.Trace("%s", desc)
	r.Sample("%s", short(desc, 600))
	simrt.Note(uint64(code) ^ hash64(clean(strings.Join(args, " "))+clean(strings.Join(plan, ";"))))
	simrt.NoteBytes(sout)
	r.nontrivial = len(fired) > 0 || !valid || !readable || !writable
	var file []byte
	exists := false
	if outFile != "" && writable {
		file, err = os.ReadFile(outFile)
		exists = err == nil
	}
	hard := fired["read"] || fired["write"] || fired["close"] || !readable || !writable
	if code == 0 {
		if hard {
			r.Fail("false-success", "%s", desc)
		}
		if !valid {
			r.Fail("accepted", "invalid input: %s", desc)
		}
		out := sout
		if outFile != "" {
			if !exists {
				r.Fail("no-output", "%s", desc)
			}
			out = file
			if len(sout) > 0 {
				r.Fail("stray-output", "stdout used with -o: %s", desc)
			}
		}
		mayColour := outFile == "" && colour && forced(env)
		if !mayColour && bytes.IndexByte(out, 0x1b) >= 0 {
			r.Fail("escapes", "output contains escape sequences: %s; output %s", desc, q(out))
		}
		plain := stripSGR(out)
		if len(plain) == 0 || plain[len(plain)-1] != '\n' {
			r.Fail("incomplete", "output %s: %s", q(plain), desc)
		}
		if !cmpJSON(plain, text) {
			r.Fail("wrong-output", "output %s: %s", q(plain), desc)
		}
		return
	}
	if sigpipe && fired["write"] && code < 0 && cmd.ProcessState.Sys().(syscall.WaitStatus).Signal() == syscall.SIGPIPE {
		r.Count("reach.sigpipe")
		return
	}
	if code > 0 && stderr.Len() == 0 {
		r.Fail("silent", "%s", desc)
	}
	if bytes.Contains(stderr.Bytes(), []byte("panic: ")) && bytes.Contains(stderr.Bytes(), []byte("goroutine ")) || code < 0 {
		r.Fail("crash", "%s", desc)
	}
	if valid && representable && !hard {
		r.Fail("refused", "nothing went wrong: %s", desc)
	}
	if (!valid || !readable || fired["read"]) && hadOld {
		if !exists || !bytes.Equal(file, old) {
			r.Fail("clobbered", "the existing output file became %s: %s", q(file), desc)
		}
		r.Count("reach.output_preserved")
	}
	if (!valid || !readable || fired["read"]) && len(sout) > 0 {
		r.Fail("stray-output", "output for unreadable or invalid input: %s", desc)
	}
}

func forced(env []string) bool {
	f := false
	for _, e := range env {
		switch e {
		case "NO_COLOR=1":
			return false
		case "FORCE_COLOR=1":
			f = true
		}
	}
	return f
}

func init() {
	register(&Scenario{ID: "C14", Run: c14, Quick: 48_000, Thorough: 1_600_000,
		Real: []string{"the jc binary (instrumented real code), one process per run", "file system (scratch directory)"},
		Stub: []string{"read, write and close system calls of jc: chunking, EINTR and errors at chosen byte positions decided by the tape"},
		Rule: "one run = one execution of jc on a generated valid, damaged or unreadable input with generated flags, environment, output target and system call faults; non-trivial: a fault fired, or input or output was unusable; distinct by event log"})
}
