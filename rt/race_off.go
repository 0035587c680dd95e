//go:build !race

package verifsim

import "unsafe"

// RaceEnabled tells whether this is the -race build.
const RaceEnabled = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
