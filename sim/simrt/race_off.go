//go:build !race

package simrt

import "unsafe"

// RaceMode says whether accesses of the code under test are checked for
// data races (see race_on.go).
const RaceMode = false

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func raceReadMap(p unsafe.Pointer) {}
func raceErrors() int              { return 0 }
func raceReport() string           { return "" }
