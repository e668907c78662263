//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether this is a -race build.
const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far.
//
//go:norace
func RaceErrors() int { return runtime.RaceErrors() }

//go:norace
func raceReadRange(b []byte, n int) {
	if n > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), n)
	}
}

//go:norace
func raceWriteRange(b []byte, n int) {
	if n > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), n)
	}
}
