//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
