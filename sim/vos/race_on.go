//go:build race

package vos

import "runtime"
import "unsafe"

var fsLock int

// held marks what follows as a critical section, like the locks of a kernel's file system: operations never yield, so
// only the race detector has to be told.
func held() func() {
	runtime.RaceAcquire(unsafe.Pointer(&fsLock))
	return func() { runtime.RaceReleaseMerge(unsafe.Pointer(&fsLock)) }
}
