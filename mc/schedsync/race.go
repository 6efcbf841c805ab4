//go:build race

package schedsync

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func acq(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func rel(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func off()                 { runtime.RaceDisable() }
func on()                  { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
