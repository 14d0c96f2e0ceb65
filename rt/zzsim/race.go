//go:build race

package zzsim

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func RaceErrors() int { return runtime.RaceErrors() }

//go:norace
func raceGoStart(t *Task) {}

//go:norace
func raceGoBegin(t *Task) {}

//go:norace
func raceTaskEnd(t *Task) { runtime.RaceReleaseMerge(unsafe.Pointer(t)) }

//go:norace
func raceTaskJoin(t *Task) { runtime.RaceAcquire(unsafe.Pointer(t)) }
