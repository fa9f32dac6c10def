//go:build !race

package simrt

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

func RaceRelease(p unsafe.Pointer) {}
func RaceAcquire(p unsafe.Pointer) {}
