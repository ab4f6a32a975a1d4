// Package vh is the interface between harness and runner (controlled flavour).
package vh

import (
	"fmt"

	"github.com/exascience/pargo/zz_verif/vrt"
)

// Instance is one closed program to be explored.
type Instance struct {
	Prop, Name string
	Body       func(t *T)
	Bound      int   // 0: unbounded; n>0: at most n-1 preemptions
	Delay      int   // n>0: at most n-1 deviations from the first-enabled-thread schedule
	Strict     bool  // with Delay: taking another alternative of a select counts as a deviation
	Cap        int64 // state cap (0: default)
	Thorough   bool  // only in the thorough tier
	NoNative   bool  // not run natively
	NoLeak     bool  // goroutines that never end are ignored
	Alone      bool  // not combined with other programs
}

var Instances []Instance

func Register(i Instance) {
	// names are unique, because the native outcomes are compared by name
	k := i.Prop + " " + i.Name
	names[k]++
	if n := names[k]; n > 1 {
		if i.Prop[0] == 'F' {
			return // the names of programs on pipelines describe them completely
		}
		i.Name = fmt.Sprintf("%s~%d", i.Name, n)
	}
	Instances = append(Instances, i)
}

var names = map[string]int{}

// T is the handle of one execution.
type T struct {
	outcomes []string
	NCases   int64
}

// Last is the handle of the execution that ran last.
var Last *T

func (t *T) OutcomeString() (s string) {
	for _, o := range t.outcomes {
		s += o + "\n"
	}
	return
}

func (t *T) Failf(format string, a ...interface{}) {
	vrt.Fail("violation", fmt.Sprintf(format, a...))
}

func (t *T) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		t.Failf(format, a...)
	}
}

func (t *T) Outcome(format string, a ...interface{}) {
	if !vrt.Aborting() {
		t.outcomes = append(t.outcomes, fmt.Sprintf(format, a...))
	}
}

func (t *T) Cases(n int)      { t.NCases += int64(n) }
func (t *T) Procs(n int)      { vrt.GOMAXPROCS(n) }
func (t *T) Yield()           { vrt.Point() }
func (t *T) Choose(n int) int { return vrt.Choose(n) }
func (t *T) Inv() int64       { return vrt.Inv() }
func (t *T) Ret() int64       { return vrt.Ret() }
func (t *T) Final(f func())   { vrt.Final(f) }
func (t *T) AllowLeak()       { vrt.AllowLeak() }
func (t *T) MapOrder(o int)   { vrt.SetMapOrder(o) }

// Controlled reports whether the schedule is under control.
func (t *T) Controlled() bool { return true }

// Body returns the function to explore.
func (i Instance) Run() {
	t := &T{}
	Last = t
	if i.NoLeak {
		vrt.AllowLeak()
	}
	i.Body(t)
}

// Catch runs f and returns the value it panicked with.
func Catch(f func()) (p interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	f()
	panicked = false
	return
}
