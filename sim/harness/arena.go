package main

import (
	"syscall"
	"unsafe"
)

// arena is memory outside the Go heap that can be made read-only (writing to
// it then faults) or inaccessible (reading, too).
type arena struct {
	mem []byte
	n   int
}

const (
	protRW   = syscall.PROT_READ | syscall.PROT_WRITE
	protRO   = syscall.PROT_READ
	protNone = syscall.PROT_NONE
)

var arenas []*arena

func newArena(size int) *arena {
	m, err := syscall.Mmap(-1, 0, size, protRW, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(harnessError{"mmap: " + err.Error()})
	}
	a := &arena{mem: m}
	arenas = append(arenas, a)
	return a
}

// reset makes the whole arena writable and empty.
func (a *arena) reset() {
	a.protect(protRW)
	a.n = 0
}

func (a *arena) protect(p int) {
	if err := syscall.Mprotect(a.mem, p); err != nil {
		panic(harnessError{"mprotect: " + err.Error()})
	}
}

// put copies b into the arena, with spare bytes of a marker behind it.
func (a *arena) put(b []byte, spare int) []byte {
	need := len(b) + spare
	var s []byte
	if a.n+need > len(a.mem) {
		s = make([]byte, need)
	} else {
		s = a.mem[a.n : a.n+need : a.n+need]
		a.n += (need + 15) &^ 15
	}
	copy(s, b)
	for i := len(b); i < need; i++ {
		s[i] = 0xA5
	}
	return s[:len(b)]
}

func (a *arena) putString(s string) string {
	b := a.put([]byte(s), 0)
	if len(b) == 0 {
		return ""
	}
	return unsafe.String(&b[0], len(b))
}

func inArena(addr uintptr) bool {
	for _, a := range arenas {
		base := uintptr(unsafe.Pointer(&a.mem[0]))
		if addr >= base && addr < base+uintptr(len(a.mem)) {
			return true
		}
	}
	return false
}

var mainArena *arena

func getArena() *arena {
	if mainArena == nil {
		mainArena = newArena(1 << 20)
	}
	mainArena.reset()
	return mainArena
}
