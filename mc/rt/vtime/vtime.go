// Package vtime is package time for the controlled runtime: sleeping is a scheduling
// point, timers may fire at any time.
package vtime

import (
	"time"

	"github.com/exascience/pargo/zz_verif/vrt"
)

type Duration = time.Duration
type Time = time.Time
type Month = time.Month
type Location = time.Location

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
)

func Sleep(d Duration)                 { vrt.Gosched() }
func Now() Time                        { return time.Unix(0, vrt.Now()) }
func Since(t Time) Duration            { return Now().Sub(t) }
func Until(t Time) Duration            { return t.Sub(Now()) }
func Unix(s, n int64) Time             { return time.Unix(s, n) }
func After(d Duration) *vrt.Chan[Time] { return NewTimer(d).C }

type Timer struct {
	C       *vrt.Chan[Time]
	stopped bool
	fired   bool
	o       vrt.Obj
}

func (t *Timer) start(f func()) {
	vrt.Go(func() {
		fire := false
		vrt.ObjOp(&t.o, true, "timer", func(*vrt.Thread) { fire = !t.stopped; t.fired = fire })
		if fire {
			f()
		}
	})
}

func (t *Timer) Stop() (was bool) {
	vrt.ObjOp(&t.o, true, "Timer.Stop", func(*vrt.Thread) { was = !t.fired && !t.stopped; t.stopped = true })
	return
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: vrt.MakeChan[Time](1)}
	t.start(func() { t.C.Send(Now()) })
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	t.start(f)
	return t
}
