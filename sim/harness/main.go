package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: zz_sim run|worker|replay|shrink|one ...")
	}
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(512 << 20)
	simrt.Snapshot()
	args := os.Args[2:]
	switch os.Args[1] {
	case "run":
		cmdRun(args)
	case "worker":
		cmdWorker(args)
	case "replay":
		cmdReplay(args)
	case "shrink":
		cmdShrink(args)
	case "one":
		cmdOne(args)
	case "tape":
		cmdTape(args)
	case "list":
		for id := range scenarios {
			fmt.Println(id)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

type workerOut struct {
	Runs      int
	Nontri    int
	Steps     int64
	Clock     int64
	Switches  int64
	Decisions int64
	Counters  map[string]int64
	Samples   []string
	Sites     []byte
	Violation *foundViolation
	LogDigest string
	WallS     float64
	Cut       bool
}

type foundViolation struct {
	Run    int
	Class  string
	Detail string
	Tape   []uint32
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	first := fs.Int("first", 0, "")
	stride := fs.Int("stride", 1, "")
	runs := fs.Int("runs", 0, "")
	dir := fs.String("dir", "", "")
	id := fs.Int("id", 0, "")
	cap := fs.Duration("cap", time.Hour, "")
	perlog := fs.Bool("perlog", false, "")
	fs.Parse(args)
	s := scenarios[*prop]
	if s == nil {
		fatal("no scenario %q", *prop)
	}
	runtime.GOMAXPROCS(2)
	status, err := os.OpenFile(filepath.Join(*dir, fmt.Sprintf("status%d", *id)), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fatal("%v", err)
	}
	scratchDir = filepath.Join(*dir, fmt.Sprintf("scratch%d", *id))
	start := time.Now()
	out := workerOut{}
	var hashes, scheds []uint64
	digest := uint64(0)
	var st [8]byte
	for i := *first; i < *runs; i += *stride {
		if time.Since(start) > *cap {
			out.Cut = true
			break
		}
		binary.LittleEndian.PutUint64(st[:], uint64(i)+1)
		status.WriteAt(st[:], 0)
		wantSample = out.Runs < 40 && len(out.Samples) < 3
		simrt.TapeSeed(runSeed(*prop, *seed, i))
		o := execute(s, false)
		out.Runs++
		out.Steps += o.steps
		out.Clock += o.clock
		out.Switches += o.sw
		out.Decisions += int64(o.used)
		digest = simrt.Mix(digest, o.hash, uint64(o.steps))
		if *perlog {
			fmt.Printf("%d %x %d %d\n", i, o.hash, o.steps, o.used)
		}
		if o.nontri {
			out.Nontri++
			hashes = append(hashes, o.hash)
		}
		scheds = append(scheds, o.sched)
		if o.sample != "" && o.nontri {
			out.Samples = append(out.Samples, fmt.Sprintf("run %d seed %d: %s", i, runSeed(*prop, *seed, i), o.sample))
		}
		if o.v != nil {
			out.Violation = &foundViolation{i, o.v.Class, o.v.Detail, simrt.TapeTaken()}
			break
		}
	}
	binary.LittleEndian.PutUint64(st[:], 0)
	status.WriteAt(st[:], 0)
	out.Counters = counterMap()
	out.LogDigest = fmt.Sprintf("%x", digest)
	out.WallS = time.Since(start).Seconds()
	n := simrt.NumSites()
	out.Sites = append(out.Sites, simrt.Cov[:n]...)
	writeHashes(filepath.Join(*dir, fmt.Sprintf("hash%d", *id)), hashes)
	writeHashes(filepath.Join(*dir, fmt.Sprintf("sched%d", *id)), scheds)
	writeJSON(filepath.Join(*dir, fmt.Sprintf("out%d", *id)), out)
}

func writeHashes(path string, h []uint64) {
	b := make([]byte, 8*len(h))
	for i, v := range h {
		binary.LittleEndian.PutUint64(b[8*i:], v)
	}
	os.WriteFile(path, b, 0o644)
}

func readHashes(path string, set map[uint64]struct{}) {
	b, _ := os.ReadFile(path)
	for i := 0; i+8 <= len(b); i += 8 {
		set[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// cmdOne executes one run by index, as in the batch, optionally after others.
func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", -1, "first run of the prefix")
	stride := fs.Int("stride", 1, "")
	run := fs.Int("run", 0, "")
	out := fs.String("out", "", "")
	mm := fs.String("mmap", "", "")
	fs.Parse(args)
	s := scenarios[*prop]
	tmp, _ := os.MkdirTemp("", "simone")
	defer os.RemoveAll(tmp)
	scratchDir = tmp
	runtime.GOMAXPROCS(2)
	if *from >= 0 {
		for i := *from; i < *run; i += *stride {
			simrt.TapeSeed(runSeed(*prop, *seed, i))
			execute(s, false)
		}
	}
	simrt.TapeSeed(runSeed(*prop, *seed, *run))
	if *mm != "" {
		if err := simrt.TapeFile(*mm); err != nil {
			fatal("%v", err)
		}
	}
	o := execute(s, true)
	report(o)
	if *out != "" {
		writeJSON(*out, simrt.TapeTaken())
	}
	if o.v != nil {
		os.Exit(1)
	}
}

func report(o outcome) {
	for _, l := range o.trace {
		fmt.Println("  " + l)
	}
	fmt.Printf("hash=%x steps=%d clock=%d decisions=%d\n", o.hash, o.steps, o.clock, o.used)
	if o.v != nil {
		fmt.Printf("class=%s\n%s\n", o.v.Class, o.v.Detail)
	}
}

// cmdTape executes a raw tape: exit 1 and "class=" on stdout when it violates.
func cmdTape(args []string) {
	fs := flag.NewFlagSet("tape", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	file := fs.String("file", "", "")
	fs.Parse(args)
	var t []uint32
	b, err := os.ReadFile(*file)
	if err == nil {
		err = json.Unmarshal(b, &t)
	}
	if err != nil {
		fatal("%v", err)
	}
	tmp, _ := os.MkdirTemp("", "simtape")
	defer os.RemoveAll(tmp)
	scratchDir = tmp
	simrt.TapeLoad(t)
	o := execute(scenarios[*prop], false)
	report(o)
	if o.v != nil {
		os.RemoveAll(tmp)
		os.Exit(1)
	}
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "")
	quiet := fs.Bool("quiet", false, "")
	child := fs.Bool("child", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fatal("%v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	s := scenarios[rf.Property]
	if s == nil {
		fatal("no scenario %q", rf.Property)
	}
	if (rf.Class == "race" || rf.Class == "crash") && !*child {
		// The violation ends the process.
		cls, out := replayCrash(*file)
		os.Stdout.WriteString(out)
		if cls == "" {
			fmt.Println("replay: the violation did not occur")
			return
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *file)
		os.Exit(1)
	}
	tmp, _ := os.MkdirTemp("", "simreplay")
	scratchDir = tmp
	runtime.GOMAXPROCS(2)
	if len(rf.Prefix) == 2 {
		for i := rf.Prefix[0]; i < rf.Run; i += rf.Prefix[1] {
			simrt.TapeSeed(runSeed(rf.Property, rf.Seed, i))
			execute(s, false)
		}
	}
	if rf.FromSeed {
		simrt.TapeSeed(rf.RunSeed)
	} else {
		simrt.TapeLoad(rf.Tape)
	}
	o := execute(s, !*quiet)
	os.RemoveAll(tmp)
	report(o)
	if o.v == nil {
		fmt.Println("replay: the violation did not occur")
		return
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *file)
	os.Exit(1)
}

// cmdShrink minimises in place: reads a replay file, writes the smaller one.
func cmdShrink(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	file := fs.String("file", "", "")
	limit := fs.Duration("limit", 30*time.Second, "")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fatal("%v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	s := scenarios[rf.Property]
	tmp, _ := os.MkdirTemp("", "simshrink")
	defer os.RemoveAll(tmp)
	scratchDir = tmp
	runtime.GOMAXPROCS(2)
	test := func(t []uint32) ([]uint32, bool) {
		simrt.TapeLoad(t)
		o := execute(s, false)
		return simrt.TapeTaken(), o.v != nil && o.v.Class == rf.Class
	}
	rf.Tape = shrinkTape(rf.Tape, time.Now().Add(*limit), test)
	simrt.TapeLoad(rf.Tape)
	o := execute(s, true)
	if o.v == nil || o.v.Class != rf.Class {
		fatal("minimised run does not fail")
	}
	rf.Detail, rf.Trace, rf.Hash = o.v.Detail, o.trace, fmt.Sprintf("%x", o.hash)
	rf.Minimised = true
	writeJSON(*file, rf)
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	ev := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "directory of replay files")
	workers := fs.Int("workers", 0, "")
	runsF := fs.Int("runs", 0, "")
	capF := fs.Duration("cap", 0, "wall clock limit of the search")
	known := fs.String("known", "", "known findings file")
	howto := fs.String("howto", "", "")
	fs.Parse(args)
	s := scenarios[*prop]
	if s == nil {
		fatal("no scenario %q", *prop)
	}
	start := time.Now()
	W := *workers
	if W == 0 {
		W = min(8, runtime.NumCPU())
	}
	runs := s.Quick
	capD := 240 * time.Second
	if *tier == "thorough" {
		runs = s.Thorough
		capD = 3 * time.Hour
	}
	if *runsF > 0 {
		runs = *runsF
	}
	if *capF > 0 {
		capD = *capF
	}
	dir, err := os.MkdirTemp("", "simrun")
	if err != nil {
		fatal("%v", err)
	}
	code := runBatch(s, *seed, *tier, runs, W, capD, dir, *ev, *replays, *known, *howto, start)
	os.RemoveAll(dir)
	os.Exit(code)
}

func selfCmd(args ...string) *exec.Cmd {
	exe, _ := os.Executable()
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=4", "GOTRACEBACK=single")
	return c
}

func runBatch(s *Scenario, seed uint64, tier string, runs, W int, capD time.Duration, dir, evPath, replayDir, knownFile, howto string, start time.Time) int {
	type wres struct {
		err    error
		stderr string
		hung   bool
	}
	res := make([]wres, W)
	var wg sync.WaitGroup
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := selfCmd("worker", "-prop", s.ID, "-seed", fmt.Sprint(seed), "-first", fmt.Sprint(w), "-stride", fmt.Sprint(W),
				"-runs", fmt.Sprint(runs), "-dir", dir, "-id", fmt.Sprint(w), "-cap", capD.String())
			var eb bytes.Buffer
			c.Stderr = &eb
			c.Stdout = &eb
			if err := c.Start(); err != nil {
				res[w] = wres{err: err}
				return
			}
			done := make(chan error, 1)
			go func() { done <- c.Wait() }()
			last, lastT := uint64(0), time.Now()
			tick := time.NewTicker(500 * time.Millisecond)
			defer tick.Stop()
			for {
				select {
				case err := <-done:
					res[w] = wres{err: err, stderr: eb.String(), hung: res[w].hung}
					return
				case <-tick.C:
					b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status%d", w)))
					if len(b) == 8 {
						if v := binary.LittleEndian.Uint64(b); v != last {
							last, lastT = v, time.Now()
						}
					}
					if time.Since(lastT) > 120*time.Second {
						res[w].hung = true
						c.Process.Kill()
					}
				}
			}
		}()
	}
	wg.Wait()

	total := workerOut{Counters: map[string]int64{}}
	hashes, scheds := map[uint64]struct{}{}, map[uint64]struct{}{}
	var all []*foundViolation
	cut := false
	trouble := ""
	for w := 0; w < W; w++ {
		var o workerOut
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d", w)))
		if err == nil {
			err = json.Unmarshal(b, &o)
		}
		if err != nil {
			// The worker died.
			sb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("status%d", w)))
			idx := -1
			if len(sb) == 8 {
				idx = int(binary.LittleEndian.Uint64(sb)) - 1
			}
			if res[w].hung {
				trouble = fmt.Sprintf("worker %d made no progress in run %d (watchdog)", w, idx)
				continue
			}
			cls, line := crashClass(res[w].stderr)
			if idx < 0 || cls == "" {
				trouble = fmt.Sprintf("worker %d failed in run %d: %v\n%s", w, idx, res[w].err, short(res[w].stderr, 4000))
				continue
			}
			all = append(all, &foundViolation{Run: idx, Class: cls, Detail: line})
			continue
		}
		total.Runs += o.Runs
		total.Nontri += o.Nontri
		total.Steps += o.Steps
		total.Clock += o.Clock
		total.Switches += o.Switches
		total.Decisions += o.Decisions
		for k, v := range o.Counters {
			total.Counters[k] += v
		}
		if len(total.Samples) < 4 && len(o.Samples) > 0 {
			total.Samples = append(total.Samples, o.Samples[0])
		}
		if total.Sites == nil {
			total.Sites = make([]byte, len(o.Sites))
		}
		for i := range o.Sites {
			total.Sites[i] |= o.Sites[i]
		}
		cut = cut || o.Cut
		readHashes(filepath.Join(dir, fmt.Sprintf("hash%d", w)), hashes)
		readHashes(filepath.Join(dir, fmt.Sprintf("sched%d", w)), scheds)
		if o.Violation != nil {
			all = append(all, o.Violation)
		}
	}
	search := time.Since(start)
	violations := 0
	exit := 0
	if len(all) > 0 {
		violations = 1
		// The earliest run first, then what other workers found.
		sort.Slice(all, func(i, j int) bool { return all[i].Run < all[j].Run })
		var found *foundViolation
		var path, msg string
		ok := false
		for _, found = range all {
			if path, ok, msg = confirm(s, seed, W, found, dir, replayDir, howto); ok {
				break
			}
			fmt.Fprintf(os.Stderr, "zz_sim: run %d: %s: %s\n", found.Run, found.Class, msg)
		}
		switch {
		case !ok:
			fmt.Fprintf(os.Stderr, "zz_sim: run %d failed (%s: %s) but could not be reproduced in a fresh process: %s\n", found.Run, found.Class, short(found.Detail, 2000), msg)
			exit = 4
		default:
			if k := matchKnown(knownFile, s.ID, found.Class, msg); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.ID, k)
				violations = 0
			} else {
				fmt.Printf("violation class %s: %s\n", found.Class, short(msg, 3000))
				fmt.Printf("VIOLATION property=%s replay=%s\n", s.ID, path)
				exit = 1
			}
		}
	} else if trouble != "" {
		fmt.Fprintln(os.Stderr, "zz_sim: "+trouble)
		exit = 4
	}
	wall := time.Since(start).Seconds()
	if evPath != "" {
		faults, probes := map[string]int64{}, map[string]int64{}
		for k, v := range total.Counters {
			if rest, ok := strings.CutPrefix(k, "fault."); ok {
				faults[rest] = v
			} else {
				probes[k] = v
			}
		}
		reached := 0
		for _, c := range total.Sites {
			if c != 0 {
				reached++
			}
		}
		perHour := 0.0
		if search > 0 {
			perHour = float64(total.Runs) / search.Hours()
		}
		cov := map[string]any{
			"evaluations":                        total.Runs,
			"distinct_nontrivial":                len(hashes),
			"rule":                               s.Rule,
			"samples":                            total.Samples,
			"runs_per_hour":                      int64(perHour),
			"simulated_steps":                    total.Steps,
			"simulated_time_units":               total.Clock,
			"simulated_time_note":                "the code has no clock; a step is one executed statement of the library, a time unit one tick of the simulated transport",
			"scheduling_and_fault_decisions":     total.Decisions,
			"task_switches":                      total.Switches,
			"distinct_interleavings":             len(scheds),
			"distinct_measure":                   "event log hash of runs that are non-trivial by the rule; interleavings: hash of (statement, from task, to task) over all switches",
			"faults_injected":                    faults,
			"conditions_reached":                 probes,
			"statements_reached_of_instrumented": fmt.Sprintf("%d/%d", reached, simrt.NumSites()),
			"components_real":                    s.Real,
			"components_stubbed":                 s.Stub,
			"workers":                            W,
			"stopped_by_time_limit":              cut,
			"race_detector":                      simrt.RaceBuild,
		}
		writeJSON(evPath, evidence{Property: s.ID, Tier: tier, Seed: int64(seed), Level: "exploration", Coverage: cov,
			Assumptions: []string{
				"statement granularity: a preemption can happen before every statement of the instrumented packages, not inside one",
				"the standard library and third-party modules are trusted and run uninterrupted between statements",
				"seeded sampling: a clean batch is evidence, not proof",
			}, WallS: wall, Violations: violations})
	}
	var keys []string
	for k := range total.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s tier=%s seed=%d runs=%d nontrivial_distinct=%d interleavings=%d steps=%d wall=%.1fs\n", s.ID, tier, seed, total.Runs, len(hashes), len(scheds), total.Steps, wall)
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, total.Counters[k])
	}
	return exit
}

// crashClass recognises ends of a worker that are the code's fault.
func crashClass(stderr string) (string, string) {
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		i := strings.Index(stderr, "WARNING: DATA RACE")
		return "race", short(stderr[i:], 3500)
	case strings.Contains(stderr, "stack overflow"):
		return "crash", "stack overflow\n" + headLines(stderr, 40)
	case strings.Contains(stderr, "fatal error: "), strings.Contains(stderr, "unexpected fault address"), strings.Contains(stderr, "checkptr"):
		i := strings.Index(stderr, "fatal error: ")
		if i < 0 {
			i = 0
		}
		if strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "zz_sim: ") {
			return "", ""
		}
		return "crash", headLines(stderr[i:], 40)
	}
	return "", ""
}

func headLines(s string, n int) string {
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(nil, 1<<20)
	var out []string
	for sc.Scan() && len(out) < n {
		out = append(out, sc.Text())
	}
	return strings.Join(out, "\n")
}

// confirm reproduces a violation in a fresh process, minimises it, and writes
// the replay file. It returns the file and the detail of the minimised run.
func confirm(s *Scenario, seed uint64, W int, f *foundViolation, dir, replayDir, howto string) (string, bool, string) {
	os.MkdirAll(replayDir, 0o755)
	path := filepath.Join(replayDir, fmt.Sprintf("%s-seed%d-run%d.json", s.ID, seed, f.Run))
	rf := ReplayFile{Property: s.ID, Class: f.Class, Detail: f.Detail, Seed: seed, Run: f.Run, RunSeed: runSeed(s.ID, seed, f.Run),
		Tape: f.Tape, Original: len(f.Tape), Race: simrt.RaceBuild, HowTo: strings.ReplaceAll(howto, "FILE", path)}
	crashed := f.Class == "race" || f.Class == "crash"
	if crashed {
		rf.FromSeed = true
	}
	writeJSON(path, rf)
	cls := runReplay(path)
	if cls != f.Class {
		// perhaps it depends on state left behind by earlier runs of the worker
		rf.Prefix = []int{f.Run % W, W}
		rf.FromSeed = true
		writeJSON(path, rf)
		if cls2 := runReplay(path); cls2 != f.Class {
			os.Remove(path)
			return "", false, fmt.Sprintf("replay gave %q, with prefix %q", cls, cls2)
		}
		return path, true, f.Detail
	}
	if crashed {
		// Every candidate in its own process; the tape is kept in a file.
		tf, mf := filepath.Join(dir, "tape.json"), filepath.Join(dir, "tape.mm")
		selfCmd("one", "-prop", s.ID, "-seed", fmt.Sprint(seed), "-run", fmt.Sprint(f.Run), "-mmap", mf).Run()
		full := simrt.TapeRead(mf)
		detail := f.Detail
		test := func(t []uint32) ([]uint32, bool) {
			writeJSON(tf, t)
			b, err := selfCmd("tape", "-prop", s.ID, "-file", tf).CombinedOutput()
			if err == nil {
				return t, false
			}
			c, d := crashClass(string(b))
			if c == f.Class {
				detail = d
			}
			return t, c == f.Class
		}
		if len(full) > 0 {
			if _, ok := test(full); ok {
				rf.Tape = shrinkTape(full, time.Now().Add(40*time.Second), test)
				rf.FromSeed, rf.Minimised, rf.Original = false, true, len(full)
				if _, ok := test(rf.Tape); ok {
					rf.Detail = detail
					writeJSON(path, rf)
					if runReplay(path) == f.Class {
						return path, true, detail
					}
				}
				rf.FromSeed, rf.Minimised, rf.Detail = true, false, f.Detail
				writeJSON(path, rf)
			}
		}
		return path, true, f.Detail
	}
	c := selfCmd("shrink", "-file", path, "-limit", "40s")
	if b, err := c.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "zz_sim: minimiser failed, reporting the original run: %v %s\n", err, short(string(b), 500))
		writeJSON(path, rf)
	}
	if cls := runReplay(path); cls != f.Class {
		writeJSON(path, rf)
		if cls := runReplay(path); cls != f.Class {
			return "", false, "flaky replay: " + cls
		}
	}
	b, _ := os.ReadFile(path)
	var r2 ReplayFile
	json.Unmarshal(b, &r2)
	return path, true, r2.Detail
}

// replayCrash replays a violation that ends the process. The schedule is the
// same each time, but which of the earlier accesses to a word the race
// detector still remembers is not, hence the attempts.
func replayCrash(path string) (string, string) {
	var out string
	for i := 0; i < 10; i++ {
		b, err := selfCmd("replay", "-child", "-file", path).CombinedOutput()
		out = string(b)
		if err == nil {
			continue
		}
		if cls, _ := crashClass(out); cls != "" {
			return cls, out
		}
	}
	return "", out
}

func runReplay(path string) string {
	b, err := selfCmd("replay", "-file", path).CombinedOutput()
	if err == nil {
		return ""
	}
	out := string(b)
	if cls, _ := crashClass(out); cls != "" {
		return cls
	}
	for _, l := range strings.Split(out, "\n") {
		if c, ok := strings.CutPrefix(l, "class="); ok {
			return c
		}
	}
	return "?"
}

// matchKnown looks a violation up in the known findings file. Lines:
//
//	known: property=<id> class=<class> match=<substring of the detail>; <text>
func matchKnown(file, prop, class, detail string) string {
	if file == "" {
		return ""
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" class="+class+" match=")
		if !ok {
			continue
		}
		m, text, ok := strings.Cut(rest, "; ")
		if ok && m != "" && strings.Contains(detail, m) {
			return text
		}
	}
	return ""
}

var scratchDir string
