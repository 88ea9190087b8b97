//go:build !race

package vsync

import "unsafe"

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func races() int                        { return 0 }
