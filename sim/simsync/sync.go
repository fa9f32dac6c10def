// Package simsync stands in for package sync in the code under test. Blocking
// operations block in the simulator, and sync.Pool's freedom (reuse in any
// order, or forget) is decided by the tape.
package simsync

import (
	"sync"
	"unsafe"

	simrt "github.com/neilotoole/jsoncolor/zz_simrt"
)

type Locker = sync.Locker

// PoolStats counts what pools did.
var PoolGets, PoolNews, PoolReuses, PoolDrops int64

// PoolMode selects the behaviour of pools in a run: 0 always reuse the most
// recent item, 1 decide by tape, 2 never reuse.
var PoolMode int

const poolCap = 64

// Pool is sync.Pool under the simulator.
type Pool struct {
	New   func() any
	items [poolCap]any
	n     int
}

//go:norace
func (p *Pool) take() (x any) {
	PoolGets++
	if p.n == 0 || PoolMode == 2 {
		return nil
	}
	i := p.n - 1
	if PoolMode == 1 {
		switch simrt.Choose(8) {
		case 6: // forgotten by a garbage collection
			p.n--
			p.items[p.n] = nil
			PoolDrops++
			return nil
		case 7:
			i = simrt.Choose(p.n)
		}
	}
	x = p.items[i]
	p.n--
	p.items[i] = p.items[p.n]
	p.items[p.n] = nil
	PoolReuses++
	return x
}

//go:norace
func (p *Pool) give(x any) {
	if p.n >= poolCap || PoolMode == 2 || (PoolMode == 1 && simrt.Choose(16) == 15) {
		PoolDrops++
		return
	}
	p.items[p.n] = x
	p.n++
}

//go:norace
func countNew() { PoolNews++ }

type eface struct{ t, p unsafe.Pointer }

// Get is sync.Pool.Get.
func (p *Pool) Get() any {
	x := p.take()
	if x != nil {
		simrt.RaceAcquire(raceAddr(&x))
		return x
	}
	if p.New != nil {
		countNew()
		return p.New()
	}
	return nil
}

// Put is sync.Pool.Put.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.RaceRelease(raceAddr(&x))
	p.give(x)
}

var raceKeys [128]uint64

// raceAddr mirrors sync.Pool: ordering exists only between a Put and the Get
// of the same item (approximately: by hash of its address).
//
//go:norace
func raceAddr(x *any) unsafe.Pointer {
	ptr := uintptr((*eface)(unsafe.Pointer(x)).p)
	h := uint32((uint64(uint32(ptr)) * 0x85ebca6b) >> 16)
	return unsafe.Pointer(&raceKeys[h%uint32(len(raceKeys))])
}

// Mutex is sync.Mutex under the simulator.
type Mutex struct {
	locked bool
	key    byte
}

//go:norace
func (m *Mutex) tryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) free() bool { return !m.locked }

func (m *Mutex) Lock() {
	simrt.Yield()
	for !m.tryLock() {
		simrt.Block("mutex", m.free)
	}
	simrt.RaceAcquire(unsafe.Pointer(&m.key))
}

func (m *Mutex) TryLock() bool {
	if m.tryLock() {
		simrt.RaceAcquire(unsafe.Pointer(&m.key))
		return true
	}
	return false
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.key))
	m.locked = false
	simrt.Yield()
}

// RWMutex is sync.RWMutex under the simulator.
type RWMutex struct {
	w       bool
	readers int
	key     byte
	rkey    byte
}

//go:norace
func (m *RWMutex) tryW() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.w {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) freeW() bool { return !m.w && m.readers == 0 }

//go:norace
func (m *RWMutex) freeR() bool { return !m.w }

func (m *RWMutex) Lock() {
	simrt.Yield()
	for !m.tryW() {
		simrt.Block("rwmutex", m.freeW)
	}
	simrt.RaceAcquire(unsafe.Pointer(&m.key))
	simrt.RaceAcquire(unsafe.Pointer(&m.rkey))
}

func (m *RWMutex) RLock() {
	simrt.Yield()
	for !m.tryR() {
		simrt.Block("rwmutex(r)", m.freeR)
	}
	simrt.RaceAcquire(unsafe.Pointer(&m.key))
}

func (m *RWMutex) TryLock() bool {
	if m.tryW() {
		simrt.RaceAcquire(unsafe.Pointer(&m.key))
		simrt.RaceAcquire(unsafe.Pointer(&m.rkey))
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	if m.tryR() {
		simrt.RaceAcquire(unsafe.Pointer(&m.key))
		return true
	}
	return false
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.key))
	m.w = false
	simrt.Yield()
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rkey))
	m.readers--
	simrt.Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once under the simulator.
type Once struct {
	m    Mutex
	done bool
	key  byte
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	simrt.Yield()
	if o.isDone() {
		simrt.RaceAcquire(unsafe.Pointer(&o.key))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			simrt.RaceRelease(unsafe.Pointer(&o.key))
			o.setDone()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var pan any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					pan = recover()
					panic(pan)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(pan)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var w U
	g := OnceFunc(func() { v, w = f() })
	return func() (T, U) { g(); return v, w }
}

// WaitGroup is sync.WaitGroup under the simulator.
type WaitGroup struct {
	n   int
	key byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(&w.key))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

// Go is sync.WaitGroup.Go. Running f at once is one of its legal schedules.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	defer w.Done()
	f()
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

func (w *WaitGroup) Wait() {
	if !w.zero() {
		simrt.Block("waitgroup", w.zero)
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.key))
}

// Cond is sync.Cond under the simulator.
type Cond struct {
	L    Locker
	seq  int
	wake int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	my := c.ticket()
	c.L.Unlock()
	simrt.Block("cond", func() bool { return c.woken(my) })
	c.L.Lock()
}

//go:norace
func (c *Cond) ticket() int { c.seq++; return c.seq }

//go:norace
func (c *Cond) woken(t int) bool { return c.wake >= t }

//go:norace
func (c *Cond) Signal() {
	if c.wake < c.seq {
		c.wake++
	}
}

//go:norace
func (c *Cond) Broadcast() { c.wake = c.seq }

// Map is sync.Map under the simulator.
type Map struct {
	m   Mutex
	kv  map[any]any
	ord []any
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok = m.kv[k]
	return
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) set(k, v any) {
	if m.kv == nil {
		m.kv = map[any]any{}
	}
	if _, ok := m.kv[k]; !ok {
		m.ord = append(m.ord, k)
	}
	m.kv[k] = v
}

func (m *Map) del(k any) {
	delete(m.kv, k)
	for i, x := range m.ord {
		if x == k {
			m.ord = append(m.ord[:i:i], m.ord[i+1:]...)
			break
		}
	}
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.kv[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.kv[k]
	if ok {
		m.del(k)
	}
	return x, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.kv[k]
	m.set(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.kv[k]; ok && x == o {
		m.kv[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.kv[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.kv, m.ord = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	ks := append([]any(nil), m.ord...)
	m.m.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
