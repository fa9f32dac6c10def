// Package main is the simulation harness: scenarios for the properties of
// jsoncolor, a worker that executes seeded runs, a replayer, a minimiser, and
// an orchestrator that runs workers and writes evidence.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"

	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
	simsync "github.com/neilotoole/jsoncolor/zz_simsync"
)

// Scenario decides one property.
type Scenario struct {
	ID       string
	Run      func(r *R)
	Quick    int // number of runs
	Thorough int
	Budget   int64 // statements of library code per run
	Race     bool  // run under the race detector
	Proc     bool  // every run in a fresh process
	Rule     string
	Real     []string
	Stub     []string
	Measure  string // what "distinct" counts
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) {
	if s.Budget == 0 {
		s.Budget = 400_000_000
	}
	scenarios[s.ID] = s
}

// Violation is what a run found.
type Violation struct {
	Class  string
	Detail string
}

// R is one run.
type R struct {
	s          *Scenario
	verbose    bool
	trace      []string
	nontrivial bool
	sample     string
	cleanup    []func()
	dressed    []byte // the memory behind a reader from the standard library
	near       string // what many strings are nearly equal to (empty: nothing)
	cap        int    // bounds the sizes of large parts (0: not bounded)
}

func (r *R) capped(n, div int) int {
	if r.cap == 0 {
		return n
	}
	return min(n, max(1, r.cap/div))
}

// Counters live in a fixed table, which tasks can update without the race
// detector seeing the harness's own accesses.
var counterNames [200]string
var counterVals [200]int64

// CountN counts n events.
func (r *R) CountN(name string, n int) {
	for ; n > 0; n-- {
		r.Count(name)
	}
}

// Count counts an injected fault or a reached condition.
//
//go:norace
func (r *R) Count(name string) {
	for i := range counterNames {
		if counterNames[i] == "" {
			counterNames[i] = name
		}
		if counterNames[i] == name {
			counterVals[i]++
			return
		}
	}
}

func counterMap() map[string]int64 {
	m := map[string]int64{}
	for i, n := range counterNames {
		if n != "" {
			m[n] = counterVals[i]
		}
	}
	return m
}

// Fail reports a violation and ends the run.
func (r *R) Fail(class, format string, args ...any) {
	panic(&Violation{class, fmt.Sprintf(format, args...)})
}

// Trace records a line for humans; it has no influence on the run.
func (r *R) Trace(format string, args ...any) {
	if r.verbose && len(r.trace) < 4000 && !(simrt.RaceBuild && simrt.TaskID() >= 0) {
		simrt.Aside(func() { r.trace = append(r.trace, fmt.Sprintf(format, args...)) })
	}
}

// Sample describes the run for the evidence file.
func (r *R) Sample(format string, args ...any) {
	if wantSample {
		simrt.Aside(func() { r.sample = fmt.Sprintf(format, args...) })
	}
}

var wantSample bool

func (r *R) Choose(n int) int { return simrt.Choose(n) }

// Range chooses in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + simrt.Choose(hi-lo+1) }

// Bool is true with probability 1/n.
func (r *R) OneIn(n int) bool { return simrt.Choose(n) == n-1 }

// Pick chooses an index by weights; index 0 is the simplest.
func (r *R) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := simrt.Choose(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Size chooses a size with a heavy tail, bounded by max.
func (r *R) Size(max int) int {
	switch r.Pick(6, 4, 2, 1) {
	case 0:
		return min(r.Choose(4), max)
	case 1:
		return min(r.Choose(16), max)
	case 2:
		return min(r.Choose(128), max)
	}
	return r.Choose(max + 1)
}

// Wide is rarely not 0: then the number of parts of something large, near a
// power of two.
func (r *R) Wide() int {
	if !r.OneIn(80) {
		return 0
	}
	r.Count("reach.wide")
	return r.capped(8<<r.Choose(8)-1+r.Choose(4), 10)
}

// Long is rarely not 0: then the length of a long text, near a power of two.
func (r *R) Long() int {
	if !r.OneIn(80) {
		return 0
	}
	r.Count("reach.long")
	return r.capped(128<<r.Choose(11)-3+r.Choose(12), 1)
}

// Deep is rarely not 0: then a number of levels.
func (r *R) Deep() int {
	if !r.OneIn(120) {
		return 0
	}
	r.Count("reach.deep")
	return r.capped(4<<r.Choose(6)-1+r.Choose(4), 30)
}

func (r *R) Defer(f func()) { r.cleanup = append(r.cleanup, f) }

// outcome of one run
type outcome struct {
	v      *Violation
	hash   uint64
	sched  uint64
	steps  int64
	clock  int64
	sw     int64
	used   int
	nontri bool
	sample string
	trace  []string
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func q(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q...%q (%d bytes)", b[:150], b[len(b)-80:], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// execute performs one run with whatever tape is loaded.
func execute(s *Scenario, verbose bool) (o outcome) {
	r := &R{s: s, verbose: verbose}
	if verbose {
		simrt.SetTrace(func(l string) { r.Trace("sched: %s", l) })
	} else {
		simrt.SetTrace(nil)
	}
	simrt.Reset()
	simsync.PoolMode = 0
	// The first decision seeds map layout and iteration order.
	simrt.Begin(s.Budget, 0)
	simrt.SetMapSeed(uint64(simrt.Choose(1 << 16)))
	func() {
		defer func() {
			if p := recover(); p != nil {
				o.v = toViolation(p, string(debug.Stack()))
			}
		}()
		if s.ID != "C20" {
			genNear(r)
			panicNow = panicValues[0]
			if r.OneIn(4) {
				panicNow = panicValues[r.Choose(len(panicValues))]
			}
		}
		s.Run(r)
	}()
	o.steps = simrt.Steps()
	o.clock = simrt.Clock()
	simrt.End()
	for _, f := range r.cleanup {
		f()
	}
	o.hash, o.sched, o.sw = simrt.LogHash(), simrt.SchedHash(), simrt.Switches
	o.used = simrt.TapeUsed()
	o.nontri, o.sample, o.trace = r.nontrivial, r.sample, r.trace
	return o
}

// taskPanic carries a task's panic to the controller.
type taskPanic struct {
	val   any
	stack string
}

func toViolation(p any, stack string) *Violation {
	switch p := p.(type) {
	case *Violation:
		return p
	case simrt.HangPanic:
		return &Violation{"hang", "no progress within the step budget, last at " + p.Site}
	case taskPanic:
		return toViolation(p.val, p.stack)
	case harnessError:
		panic(p)
	}
	if f, ok := p.(interface{ Addr() uintptr }); ok && inArena(f.Addr()) {
		return &Violation{"protected-memory", fmt.Sprintf("the library accessed memory it must not write, or no longer use: %v\n%s", p, trimStack(stack))}
	}
	return &Violation{"panic", fmt.Sprintf("unexpected panic: %v\n%s", p, trimStack(stack))}
}

// harnessError is a malfunction of the harness itself, never a violation.
type harnessError struct{ msg string }

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, ".go:") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// RunTasks runs tasks under a tape-chosen scheduling policy and rethrows the
// first violation or panic. It returns whether the tasks deadlocked.
func (r *R) RunTasks(p simrt.Policy, fns ...func()) bool {
	res, dead := simrt.RunTasks(p, fns...)
	if r.verbose {
		for _, l := range simrt.SchedLog() {
			r.Trace("sched: %s", l)
		}
	}
	for _, x := range res {
		if v, ok := x.Panic.(*Violation); ok {
			panic(v)
		}
	}
	for _, x := range res {
		if x.Panic != nil {
			panic(taskPanic{x.Panic, x.Stack})
		}
	}
	return dead
}

// Policy chooses how preemption is decided in this run.
func (r *R) Policy() simrt.Policy {
	switch r.Choose(7) {
	case 1:
		return simrt.Policy{Mode: 1, Gap: 8}
	case 2:
		return simrt.Policy{Mode: 1, Gap: 60}
	case 3:
		return simrt.Policy{Mode: 1, Gap: 600}
	case 4:
		return simrt.Policy{Mode: 2, Hot: r.Range(1, 6)}
	case 5:
		return simrt.Policy{Mode: 3, Gap: 300, Hot: r.Range(1, 12)}
	case 6:
		return simrt.Policy{Mode: 4, Gap: []int{50, 400, 4000}[r.Choose(3)]}
	}
	return simrt.Policy{}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func runSeed(prop string, seed uint64, i int) uint64 {
	return simrt.Mix(seed, hash64(prop), uint64(i)+1)
}

// ReplayFile is what a VIOLATION line points to.
type ReplayFile struct {
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Detail    string   `json:"detail"`
	Seed      uint64   `json:"verif_seed"`
	Run       int      `json:"run"`
	RunSeed   uint64   `json:"run_seed"`
	Tape      []uint32 `json:"tape"`
	Original  int      `json:"decisions_before_minimisation"`
	Race      bool     `json:"race_build"`
	FromSeed  bool     `json:"replay_from_seed,omitempty"`
	Prefix    []int    `json:"prefix,omitempty"` // run index range [first,last] and stride to execute before it
	Hash      string   `json:"event_log_hash"`
	Trace     []string `json:"trace"`
	HowTo     string   `json:"how_to_replay"`
	Minimised bool     `json:"minimised"`
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "zz_sim: "+format+"\n", args...)
	os.Exit(3)
}
