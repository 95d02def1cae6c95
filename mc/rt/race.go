//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the build carries the race detector.
const RaceEnabled = true

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far in this process.
//
//go:norace
func RaceErrors() int { return runtime.RaceErrors() }
