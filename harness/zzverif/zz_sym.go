// Package zzverif is the runtime of the verification harnesses. This file is what the
// symbolic engine loads: it intercepts every function. zz_nat.go has the native bodies.
package zzverif

// Byte is an arbitrary byte.
func Byte(name string) byte { return 0 }

// ByteMax is an arbitrary byte in [0, hi].
func ByteMax(name string, hi byte) byte { return 0 }

// U64 is an arbitrary 64-bit value.
func U64(name string) uint64 { return 0 }

// U32 is an arbitrary 32-bit value.
func U32(name string) uint32 { return 0 }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return false }

// IntRange is an arbitrary (symbolic) int in [lo, hi].
func IntRange(name string, lo, hi int) int { return 0 }

// Choice is an int in [0, n) that is concrete on each path.
func Choice(name string, n int) int { return 0 }

// Assume restricts the inputs.
func Assume(c bool) {}

// Assert states the property.
func Assert(c bool, msg string) {}

// Fail reports a violation.
func Fail(msg string) {}

// Kill abandons the path.
func Kill() {}

// Cover marks a reachability witness.
func Cover(name string) {}

// OutStr and OutInt record outputs for the comparison with native execution.
func OutStr(key, s string)        {}
func OutInt(key string, v uint64) {}

// Symbolic tells whether the engine runs the harness.
func Symbolic() bool { return true }

// Fix makes the value concrete on each path.
func Fix(v uint64) uint64 { return v }

// Preempt sets the remaining number of preemptions; Timers that of early timer firings.
func Preempt(n int) {}
func Timers(n int)  {}

// Block waits until *cell is not zero.
func Block(cell *uint32) {}

// Yield is a scheduling point.
func Yield() {}

// Quiesce waits until no other goroutine can run.
func Quiesce() {}

// Live is the number of goroutines that have not ended.
func Live() int { return 0 }

// Now is the virtual time in nanoseconds.
func Now() int64 { return 0 }

// Advance moves the virtual clock.
func Advance(d int64) {}

// SameObject reports whether the memory of two slices overlaps.
func SameObject(a, b []byte) bool { return false }

// Alive reports whether the memory cells of b are all inside one allocated object.
func Alive(b []byte) bool { return true }
