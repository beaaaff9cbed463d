//go:build !race

package vrt

import "unsafe"

const raceEnabled = false

func raceOff()                        {}
func raceOn()                         {}
func raceAcquire(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}
func raceCount() int                  { return 0 }
