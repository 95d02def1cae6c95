//go:build !race

package rt

import "unsafe"

// RaceEnabled reports whether the build carries the race detector.
const RaceEnabled = false

func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}
func raceDisable()                    {}
func raceEnable()                     {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
