//go:build race

package zzverif

import (
	"runtime"
	"unsafe"
)

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Acquire and Release tell the race detector about emulated synchronisation.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
