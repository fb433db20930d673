//go:build !race

package zzverif

import "unsafe"

func raceOff() {}
func raceOn()  {}

// Acquire and Release tell the race detector about emulated synchronisation.
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
