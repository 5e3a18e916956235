//go:build race

package vpool

import (
	"runtime"
	"unsafe"
)

func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
