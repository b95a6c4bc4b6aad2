//go:build !race

package sched

import "unsafe"

// RaceBuild tells whether the race detector watches this binary.
const RaceBuild = false

func acquire(p unsafe.Pointer)      {}
func release(p unsafe.Pointer)      {}
func releaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
