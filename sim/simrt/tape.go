package simrt

import (
	"encoding/binary"
	"os"
	"syscall"
	"unsafe"
)

// The tape is the single source of every decision of a run. While a run
// explores, decisions come from a splitmix64 generator seeded with the run's
// seed and are recorded; on replay they are read back. 0 is always the
// simplest choice, and an exhausted tape yields 0, which is what makes
// minimisation by editing the tape work.

const tapeCap = 1 << 18

var (
	tape    = new([tapeCap + 1]uint32) // decisions, recorded or given; last: how many
	tapeLen int                        // number of given decisions (replay)
	tapePos int
	tapeRec bool // exploring: draw from the generator
	tapeRng uint64
)

//go:norace
func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives a seed from several numbers.
func Mix(vs ...uint64) uint64 {
	s := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		s ^= v
		s = splitmix(&s) ^ (v << 1)
	}
	return splitmix(&s)
}

// TapeSeed starts an exploring run.
func TapeSeed(seed uint64) {
	tapeRec, tapeRng, tapePos, tapeLen = true, seed, 0, 0
}

// TapeLoad starts a replaying run.
func TapeLoad(t []uint32) {
	tapeRec, tapePos, tapeLen = false, 0, copy(tape[:], t)
}

// TapeTaken returns a copy of the decisions taken so far.
func TapeTaken() []uint32 {
	n := tapePos
	if n > tapeCap {
		n = tapeCap
	}
	return append([]uint32(nil), tape[:n]...)
}

// TapeFile keeps the tape in a file, where it survives a crash of the process.
func TapeFile(path string) error {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return err
	}
	if err := f.Truncate(4 * (tapeCap + 1)); err != nil {
		return err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 4*(tapeCap+1), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return err
	}
	tape = (*[tapeCap + 1]uint32)(unsafe.Pointer(&b[0]))
	return nil
}

// TapeRead reads the decisions left in such a file.
func TapeRead(path string) []uint32 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) != 4*(tapeCap+1) {
		return nil
	}
	t := make([]uint32, tapeCap+1)
	for i := range t {
		t[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	return t[:min(int(t[tapeCap]), tapeCap)]
}

// TapeUsed returns the number of decisions taken.
func TapeUsed() int { return tapePos }

// Choose returns a decision in [0,n).
//
//go:norace
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if tapePos < tapeCap {
		if tapeRec {
			v = uint32(splitmix(&tapeRng)>>33) % uint32(n)
			tape[tapePos] = v
		} else if tapePos < tapeLen {
			v = tape[tapePos] % uint32(n)
			tape[tapePos] = v
		} else {
			tape[tapePos] = 0
		}
	}
	tapePos++
	tape[tapeCap] = uint32(tapePos)
	note(uint64(v) ^ 0xC400)
	return int(v)
}

// Aux returns a decision drawn from the generator without being recorded
// individually; only its seed is on the tape. It is used for bulk data whose
// details do not matter for minimisation.
type Aux struct{ s uint64 }

// NewAux takes one decision from the tape and returns a generator.
//
//go:norace
func NewAux() *Aux { return &Aux{uint64(Choose(1 << 16))} }

//go:norace
func (a *Aux) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(splitmix(&a.s) >> 33 % uint64(n))
}

// AuxFrom returns a generator with a fixed seed; it takes no decision.
func AuxFrom(seed uint64) Aux { return Aux{seed} }
