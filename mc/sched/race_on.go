//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector watches this binary.
const RaceBuild = true

//go:norace
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
