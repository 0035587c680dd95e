//go:build race

package verifsim

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether this is the -race build.
const RaceEnabled = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int              { return runtime.RaceErrors() }
