//go:build race

package dst

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the binary carries the race detector.
const RaceBuild = true

func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceReleaseAll()                   {}

// raceAcquireAll orders everything the finished tasks did before the next run.
func raceAcquireAll(k *sched) {
	for _, t := range k.tasks {
		runtime.RaceAcquire(unsafe.Pointer(&t.raceTok))
	}
}

// raceAcquireDead orders what the tasks of dead processes did before what the
// running task does from here on.
func raceAcquireDead(k *sched) {
	for _, t := range k.tasks {
		if t.state == stDead && t.grp != nil && t.grp.Dead {
			runtime.RaceAcquire(unsafe.Pointer(&t.raceTok))
		}
	}
}
