//go:build !race

package simrt

import "unsafe"

const RaceBuild = false

func raceOff()                 {}
func raceOn()                  {}
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
func RaceErrors() int          { return 0 }
