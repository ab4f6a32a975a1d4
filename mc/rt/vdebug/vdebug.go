// Package vdebug is package runtime/debug for the controlled runtime.
package vdebug

import "runtime/debug"

// Stack returns a fixed text: real stack traces are not deterministic.
func Stack() []byte { return []byte("goroutine 1 [running]:\n(controlled runtime)\n") }

func PrintStack()                             {}
func SetGCPercent(p int) int                  { return 100 }
func FreeOSMemory()                           {}
func SetMaxStack(b int) int                   { return debug.SetMaxStack(b) }
func ReadBuildInfo() (*debug.BuildInfo, bool) { return debug.ReadBuildInfo() }
