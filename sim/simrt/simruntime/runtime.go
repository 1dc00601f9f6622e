// Package simruntime replaces scheduling-related parts of package runtime.
package simruntime

import (
	"runtime"

	"simrt"
)

func Gosched()                            { simrt.Yield() }
func NumCPU() int                         { return simrt.Opt.NumCPU }
func GOMAXPROCS(n int) int                { return simrt.Opt.NumCPU }
func NumGoroutine() int                   { return simrt.NumGoroutine() }
func GC()                                 {}
func SetFinalizer(obj any, finalizer any) {}
func LockOSThread()                       {}
func UnlockOSThread()                     {}

func Stack(buf []byte, all bool) int { return runtime.Stack(buf, all) }
