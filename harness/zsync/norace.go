//go:build !race

package zsync

import "unsafe"

func raceDisable()                    {}
func raceEnable()                     {}
func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}
