//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

// With the race detector, the scheduler's own hand-overs are invisible and only the operations of the
// program under test order its memory accesses.
const raceEnabled = true

func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceCount() int                    { return runtime.RaceErrors() }
