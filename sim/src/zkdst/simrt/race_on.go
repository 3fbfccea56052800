//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func raceOff()                 { runtime.RaceDisable() }
func raceOn()                  { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int          { return runtime.RaceErrors() }
