package simrt

import "unsafe"

// the runtime overlay provides this
//
//go:linkname simSetRandFn runtime.simSetRandFn
func simSetRandFn(f func() uint64)

//go:linkname simHeapClass runtime.simHeapClass
func simHeapClass(p uintptr) int

// Unscanned reports whether p points to heap memory that the collector does
// not look into for pointers.
func Unscanned(p unsafe.Pointer) bool { return simHeapClass(uintptr(p)) == 1 }

// OnHeap reports whether p points to memory managed by the collector.
func OnHeap(p unsafe.Pointer) bool { return simHeapClass(uintptr(p)) >= 0 }

var randSeed uint64

// SetRuntimeRand makes map seeds and iteration starts a function of seed and of
// the position in the run (not of how many maps were made before, which would
// depend on lazily made maps elsewhere in the process). Zero gives the runtime
// its own source back.
func SetRuntimeRand(seed uint64) {
	randSeed = seed
	if seed == 0 {
		simSetRandFn(nil)
		return
	}
	simSetRandFn(mapRand)
}

//go:norace
func mapRand() uint64 {
	if !active || cur == nil {
		return Mix(randSeed, 1)
	}
	return Mix(randSeed, uint64(Steps())<<8|uint64(cur.ID)<<1|1)
}
