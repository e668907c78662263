//go:build !race

package vs

import "unsafe"

// RaceBuild reports whether this is a -race build.
const RaceBuild = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }

func raceReadRange(b []byte, n int)  {}
func raceWriteRange(b []byte, n int) {}
