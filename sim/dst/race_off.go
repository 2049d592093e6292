//go:build !race

package dst

import "unsafe"

// RaceBuild tells whether the binary carries the race detector.
const RaceBuild = false

func raceOff()                        {}
func raceOn()                         {}
func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}
func raceReleaseAll()                 {}
func raceAcquireAll(*sched)           {}
func raceAcquireDead(*sched)          {}
