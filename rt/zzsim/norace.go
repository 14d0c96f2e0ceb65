//go:build !race

package zzsim

import "unsafe"

const RaceEnabled = false

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
func raceGoStart(t *Task)          {}
func raceGoBegin(t *Task)          {}
func raceTaskEnd(t *Task)          {}
func raceTaskJoin(t *Task)         {}
