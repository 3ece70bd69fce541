//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

// The scheduler's own hand-offs are hidden from the race detector, so that the
// only happens-before edges it sees are those of the program under test.
func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int              { return runtime.RaceErrors() }
