//go:build !race

package schedsync

import "unsafe"

const RaceBuild = false

func acq(p unsafe.Pointer) {}
func rel(p unsafe.Pointer) {}
func off()                 {}
func on()                  {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
