//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether this is a race-detector build.
const RaceEnabled = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceAcquire and RaceRelease add the happens-before edges that the real
// synchronisation primitive would add.
//
//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func RaceErrors() int { return runtime.RaceErrors() }
