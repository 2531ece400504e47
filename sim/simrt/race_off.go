//go:build !race

package simrt

import "unsafe"

// RaceMode reports whether this binary carries the race detector.
const RaceMode = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                   { return 0 }
