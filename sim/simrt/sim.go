// Package simrt is the simulator's runtime: a cooperative scheduler in which
// one task runs at a time and every preemption is decided by the tape, a
// simulated clock, blocking primitives, step accounting, an event log hash,
// and coverage counters.
//
// In race builds nothing here may create a happens-before edge between tasks
// or be reported itself, hence the go:norace pragmas and the RaceDisable
// around the baton hand-over.
package simrt

import (
	"fmt"
	"runtime/debug"
	"unsafe"
)

//go:linkname simRandOn runtime.simRandOn
var simRandOn bool

//go:linkname simRandState runtime.simRandState
var simRandState uint64

//go:linkname stdWork internal/bytealg.SimWork
var stdWork int64

var moved int64

// Moved counts elements that copy has moved.
func Moved(n int) int {
	moved += int64(n)
	return n
}

// Moves counts the elements of a slice or string that append or clear will go
// through.
func Moves[S any](s S) S {
	if unsafe.Sizeof(s) < 2*unsafe.Sizeof(uintptr(0)) {
		return s // a map
	}
	// The length is the second word of both.
	moved += int64(*(*int)(unsafe.Add(unsafe.Pointer(&s), unsafe.Sizeof(uintptr(0)))))
	return s
}

// Work returns the number of elements moved by copy and append, and of bytes
// the standard library searched through. Race builds do not count.
func Work() int64 { return moved + stdWork }

// HangPanic is raised in a task that exhausts the step budget of the run.
type HangPanic struct{ Site string }

// KillPanic unwinds a task that must not run any further.
type KillPanic struct{}

const maxTasks = 16

type task struct {
	id     int
	wake   chan struct{}
	done   bool
	killed bool
	cond   func() bool // blocked until cond holds (nil: runnable)
	wakeAt int64       // blocked until the clock reaches wakeAt (0: not sleeping)
	prio   int
	steps  int64
	pan    any
	stack  string
}

var (
	active    bool
	countdown int64 // statements until the next scheduling decision
	hotDown   int64 // shared-state statements until the next decision
	window    int64 // value countdown was last set to
	stepsDone int64 // statements executed before the current window
	budget    int64
	tasks     [maxTasks]*task
	ntasks    int
	cur       *task
	ctrl      chan struct{} // wakes the controller
	clock     int64
	nopreempt int
	deadlock  bool
	lastSite  uint32

	polMode int // 0: none, 1: uniform gaps, 2: hot points, 3: both, 4: change points with priorities
	polGap  int
	polHot  int

	logHash  uint64
	schedH   uint64
	Switches int64
	Preempts int64
	Cov      [1 << 16]uint8

	trace func(string)

	// Scheduling events of the run in race builds, where no function of the
	// harness may be called from a task.
	keepLog bool
	schedN  int
	schedB  [3000]schedEv
)

type schedEv struct {
	t    int64
	kind uint8
	site uint32
	a, b int
	what string
}

func (e schedEv) String() string {
	switch e.kind {
	case 0:
		return fmt.Sprintf("t=%d preempt task %d at %s, run task %d", e.t, e.a, SiteName(e.site), e.b)
	case 1:
		return fmt.Sprintf("t=%d task %d blocks: %s", e.t, e.a, e.what)
	case 2:
		return fmt.Sprintf("t=%d task %d yields to task %d", e.t, e.a, e.b)
	}
	return fmt.Sprintf("t=%d task %d ends", e.t, e.a)
}

//go:norace
func event(e schedEv) {
	if !RaceBuild {
		if trace != nil {
			trace(e.String())
		}
		return
	}
	if keepLog && schedN < len(schedB) {
		schedB[schedN] = e
		schedN++
	}
}

// SchedLog returns and forgets the scheduling events kept back in race builds.
//
//go:norace
func SchedLog() (l []string) {
	for _, e := range schedB[:schedN] {
		l = append(l, e.String())
	}
	schedN = 0
	return l
}

var siteTable string

// SetTrace installs a function called for every scheduling event (replay only).
func SetTrace(f func(string)) { trace, keepLog, schedN = f, f != nil, 0 }

//go:norace
func note(v uint64) {
	logHash = (logHash ^ v) * 0x100000001b3
	logHash ^= logHash >> 29
}

// Note mixes a harness event into the event log hash.
//
//go:norace
func Note(v uint64) { note(v) }

// NoteBytes mixes bytes into the event log hash.
//
//go:norace
func NoteBytes(b []byte) {
	h := uint64(len(b)) + 0x51
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	note(h)
}

// LogHash identifies the execution; two runs with equal tapes have equal hashes.
func LogHash() uint64 { return logHash }

// SchedHash identifies the interleaving (tasks and statements of all switches).
func SchedHash() uint64 { return schedH }

// Y is called before every statement of the code under test.
//
//go:norace
func Y(id uint32) {
	Cov[id&0xffff] = 1
	countdown--
	if countdown <= 0 {
		slow(id, false)
	}
}

// H is Y in front of a statement that touches package level state.
//
//go:norace
func H(id uint32) {
	Cov[id&0xffff] = 1
	countdown--
	hotDown--
	if hotDown <= 0 || countdown <= 0 {
		slow(id, hotDown <= 0)
	}
}

//go:norace
func steps() int64 { return stepsDone + (window - countdown) }

// Steps returns the number of statements of the code under test executed in this run.
func Steps() int64 { return steps() }

// Clock returns the simulated time.
//
//go:norace
func Clock() int64 { return clock }

//go:norace
func rearm() {
	stepsDone += window - countdown
	w := budget - stepsDone
	if w < 1 {
		w = 1
	}
	hotDown = 1 << 60
	if active && ntasks > 1 && nopreempt == 0 {
		switch polMode {
		case 1, 4:
			if g := int64(1 + Choose(polGap)); g < w {
				w = g
			}
		case 2:
			hotDown = int64(1 + Choose(polHot))
		case 3:
			if g := int64(1 + Choose(polGap)); g < w {
				w = g
			}
			hotDown = int64(1 + Choose(polHot))
		}
	}
	window, countdown = w, w
}

//go:norace
func slow(id uint32, hot bool) {
	lastSite = id
	if steps() >= budget {
		// Give the unwinding some room before failing again.
		stepsDone += window - countdown
		budget += 1 << 20
		rearm()
		panic(HangPanic{SiteName(id)})
	}
	if !active || cur == nil || ntasks < 2 || nopreempt > 0 {
		rearm()
		return
	}
	Preempts++
	if polMode == 4 && Choose(4) != 0 {
		// priority change point: the running task drops below the others
		cur.prio = -int(Preempts)
	}
	t := pick(false)
	rearm()
	if t != nil && t != cur {
		note(uint64(id)<<8 | uint64(t.id))
		schedH = (schedH ^ (uint64(id)<<8 | uint64(cur.id)<<4 | uint64(t.id))) * 0x100000001b3
		event(schedEv{clock, 0, id, cur.id, t.id, ""})
		handTo(t)
	}
}

// ready reports whether a task can run now.
//
//go:norace
func ready(t *task) bool {
	if t.done {
		return false
	}
	if t.wakeAt > clock {
		return false
	}
	if t.cond != nil && !t.killed {
		return t.cond()
	}
	return true
}

// pick selects the next task to run, advancing the clock when nobody is
// runnable. It returns nil if no task can ever run again.
//
//go:norace
func pick(mustLeave bool) *task {
	for {
		var rs [maxTasks]*task
		n := 0
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if mustLeave && t == cur {
				if !ready(t) {
					continue
				}
			}
			if ready(t) {
				rs[n] = t
				n++
			}
		}
		if n == 1 {
			return rs[0]
		}
		if n > 1 {
			if polMode == 4 {
				best := rs[0]
				for i := 1; i < n; i++ {
					if rs[i].prio > best.prio {
						best = rs[i]
					}
				}
				return best
			}
			return rs[Choose(n)]
		}
		// nobody: let time pass
		next := int64(0)
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if !t.done && t.wakeAt > clock && (next == 0 || t.wakeAt < next) {
				next = t.wakeAt
			}
		}
		if next == 0 {
			return nil
		}
		clock = next
	}
}

// handTo passes the baton to t and waits to get it back.
//
//go:norace
func handTo(t *task) {
	me := cur
	Switches++
	cur = t
	raceOff()
	t.wake <- struct{}{}
	<-me.wake
	raceOn()
	if me.killed {
		panic(KillPanic{})
	}
}

// Block suspends the running task until cond holds. Outside of a simulation
// with tasks it only checks that cond holds.
//
//go:norace
func Block(what string, cond func() bool) {
	for !cond() {
		if !active || cur == nil {
			panic("simrt: blocked forever outside of a simulation: " + what)
		}
		me := cur
		me.cond = cond
		t := pick(true)
		note(uint64(me.id) | 0xB10C00)
		event(schedEv{clock, 1, 0, me.id, 0, what})
		rearm()
		if t == nil {
			deadlock = true
			killAll()
			me.cond = nil
			panic(KillPanic{})
		}
		if t != me {
			handTo(t)
		}
		me.cond = nil
	}
}

// Sleep suspends the running task for d units of simulated time.
//
//go:norace
func Sleep(d int64) {
	if !active || cur == nil {
		clock += d
		return
	}
	me := cur
	me.wakeAt = clock + d
	t := pick(true)
	rearm()
	if t != me {
		handTo(t)
	}
	me.wakeAt = 0
}

// Yield is an explicit scheduling point of the harness.
//
//go:norace
func Yield() {
	if !active || cur == nil || ntasks < 2 || nopreempt > 0 {
		return
	}
	t := pick(false)
	rearm()
	if t != nil && t != cur {
		note(uint64(t.id) | 0x41E1D00)
		schedH = (schedH ^ (uint64(cur.id)<<4 | uint64(t.id) | 1<<40)) * 0x100000001b3
		event(schedEv{clock, 2, 0, cur.id, t.id, ""})
		handTo(t)
	}
}

// TaskID returns the id of the running task, or -1.
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

//go:norace
func killAll() {
	for i := 0; i < ntasks; i++ {
		if !tasks[i].done && tasks[i] != cur {
			tasks[i].killed = true
			tasks[i].cond = nil
			tasks[i].wakeAt = 0
		}
	}
}

// Policy describes how preemption is decided in a run.
type Policy struct{ Mode, Gap, Hot int }

// Begin starts a run: fresh counters, seeded map randomness, step budget.
func Begin(stepBudget int64, mapSeed uint64) {
	active, cur, ntasks = false, nil, 0
	stepsDone, window, countdown, budget = 0, 0, 0, stepBudget
	clock, nopreempt, deadlock = 0, 0, false
	logHash, schedH = 0xcbf29ce484222325, 0x9ae16a3b2f90404f
	Switches, Preempts = 0, 0
	polMode = 0
	simRandState, simRandOn = mapSeed, true
	rearm()
}

// End finishes a run.
func End() {
	simRandOn = false
	active, cur = false, nil
	budget = 1 << 60
	stepsDone += window - countdown
	window, countdown = 1<<60, 1<<60
	hotDown = 1 << 60
}

func init() { End() }

// SetMapSeed reseeds map layout and iteration order.
func SetMapSeed(s uint64) { simRandState = s }

// Aside runs f, whose use of map randomness may depend on earlier runs of this
// process (a cache filled or not), so that later map randomness does not.
//
//go:norace
func Aside(f func()) {
	s, c, h, w, d := simRandState, countdown, hotDown, window, stepsDone
	f()
	simRandState, countdown, hotDown, window, stepsDone = s, c, h, w, d
}

// TaskResult tells how a task ended.
type TaskResult struct {
	Panic any
	Stack string
}

// RunTasks runs the functions as tasks of the simulation until all are done.
// It reports whether the tasks deadlocked.
func RunTasks(p Policy, fns ...func()) (res []TaskResult, dead bool) {
	if len(fns) > maxTasks {
		panic("too many tasks")
	}
	polMode, polGap, polHot = p.Mode, p.Gap, p.Hot
	ctrl = make(chan struct{})
	ntasks = len(fns)
	deadlock = false
	for i, f := range fns {
		t := &task{id: i, wake: make(chan struct{}), prio: i}
		tasks[i] = t
		go t.main(f)
	}
	active = true
	cur = nil
	if polMode == 4 {
		for i := range fns {
			tasks[i].prio = Choose(64)
		}
	}
	t := pick(false)
	rearm()
	cur = t
	startBaton(t)
	waitBaton()
	active, cur = false, nil
	for i := range fns {
		res = append(res, TaskResult{tasks[i].pan, tasks[i].stack})
		tasks[i] = nil
	}
	ntasks = 0
	rearm()
	return res, deadlock
}

// The hand-over from and to the controller is a real synchronisation: what
// the controller did before the tasks, and does after, is ordered with them.
func startBaton(t *task) { t.wake <- struct{}{} }
func waitBaton()         { <-ctrl }

func (t *task) main(f func()) {
	t.first()
	defer t.finish()
	t.body(f)
}

func (t *task) body(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(KillPanic); !ok {
				t.pan = r
				t.stack = string(debug.Stack())
			}
		}
	}()
	if t.isKilled() {
		return
	}
	debug.SetPanicOnFault(true)
	f()
}

//go:norace
func (t *task) isKilled() bool { return t.killed }

//go:norace
func (t *task) first() {
	raceOff()
	<-t.wake
	raceOn()
}

var doneJoin = make(chan int, maxTasks)

// finish marks the task done and passes the baton on.
func (t *task) finish() {
	doneJoin <- 1 // ordered before the controller continues
	t.pass()
}

//go:norace
func (t *task) pass() {
	t.done = true
	note(uint64(t.id) | 0xD0D000)
	event(schedEv{clock, 3, 0, t.id, 0, ""})
	left := 0
	for i := 0; i < ntasks; i++ {
		if !tasks[i].done {
			left++
		}
	}
	if left == 0 {
		active = false
		n := ntasks
		cur = nil
		finalJoin(n)
		return
	}
	nx := pick(false)
	if nx == nil {
		deadlock = true
		killAll()
		nx = pick(false)
	}
	rearm()
	cur = nx
	Switches++
	raceOff()
	nx.wake <- struct{}{}
	raceOn()
}

// finalJoin orders everything all tasks did before the controller.
func finalJoin(n int) {
	for i := 0; i < n; i++ {
		<-doneJoin
	}
	ctrl <- struct{}{}
}

// NoPreempt disables preemption in the running task while f runs.
func NoPreempt(f func()) {
	inc(1)
	defer inc(-1)
	f()
}

//go:norace
func inc(d int) { nopreempt += d; rearm() }

var siteLines []string

// SiteName returns file:line of a yield site.
func SiteName(id uint32) string {
	if siteLines == nil {
		siteLines = splitLines(siteTable)
	}
	if int(id) < len(siteLines) {
		return siteLines[id]
	}
	return fmt.Sprint("site", id)
}

// NumSites returns the number of instrumented statements.
func NumSites() int {
	if siteLines == nil {
		siteLines = splitLines(siteTable)
	}
	return len(siteLines)
}

func splitLines(s string) []string {
	var out []string
	j := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[j:i])
			j = i + 1
		}
	}
	return out
}
