// Package vruntime is package runtime for the controlled runtime.
package vruntime

import (
	"runtime"

	"github.com/exascience/pargo/zz_verif/vrt"
)

type Error = runtime.Error
type TypeAssertionError = runtime.TypeAssertionError
type PanicNilError = runtime.PanicNilError
type Func = runtime.Func
type MemStats = runtime.MemStats
type Frame = runtime.Frame
type Frames = runtime.Frames

const GOOS = runtime.GOOS
const GOARCH = runtime.GOARCH

func GOMAXPROCS(n int) int                         { return vrt.GOMAXPROCS(n) }
func NumCPU() int                                  { return 11 } // differs from any GOMAXPROCS used
func NumGoroutine() int                            { return vrt.NumGoroutine() }
func Gosched()                                     { vrt.Gosched() }
func Goexit()                                      { vrt.Goexit() }
func GC()                                          {}
func KeepAlive(x interface{})                      {}
func LockOSThread()                                {}
func UnlockOSThread()                              {}
func Version() string                              { return runtime.Version() }
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }
func Callers(skip int, pc []uintptr) int           { return runtime.Callers(skip+1, pc) }
func CallersFrames(pc []uintptr) *Frames           { return runtime.CallersFrames(pc) }
func FuncForPC(pc uintptr) *Func                   { return runtime.FuncForPC(pc) }
func Stack(buf []byte, all bool) int {
	return copy(buf, "goroutine 1 [running]:\n(controlled runtime)\n")
}
func ReadMemStats(m *MemStats)        { runtime.ReadMemStats(m) }
func SetFinalizer(obj, f interface{}) {}
