// Package vh is the interface between harness and runner (native flavour: the harness and
// the code under test run unmodified on the Go runtime).
package vh

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Instance is one closed program to be explored.
type Instance struct {
	Prop, Name string
	Body       func(t *T)
	Bound      int   // 0: unbounded; n>0: at most n-1 preemptions
	Delay      int   // n>0: at most n-1 deviations from the first-enabled-thread schedule
	Strict     bool  // with Delay: taking another alternative of a select counts as a deviation
	Cap        int64 // state cap (0: default)
	Thorough   bool  // only in the thorough tier
	NoNative   bool  // not run natively
	NoLeak     bool  // goroutines that never end are ignored
	Alone      bool  // not combined with other programs
}

var Instances []Instance

func Register(i Instance) {
	// names are unique, because the native outcomes are compared by name
	k := i.Prop + " " + i.Name
	names[k]++
	if n := names[k]; n > 1 {
		if i.Prop[0] == 'F' {
			return // the names of programs on pipelines describe them completely
		}
		i.Name = fmt.Sprintf("%s~%d", i.Name, n)
	}
	Instances = append(Instances, i)
}

var names = map[string]int{}

// T is the handle of one execution.
type T struct {
	mu       sync.Mutex
	outcomes []string
	fail     string
	finals   []func()
	clock    int64
	cases    int64
	seed     uint64
	leak     int32
}

func (t *T) Failf(format string, a ...interface{}) {
	t.mu.Lock()
	if t.fail == "" {
		t.fail = fmt.Sprintf(format, a...)
	}
	t.mu.Unlock()
	runtime.Goexit()
}

func (t *T) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		t.Failf(format, a...)
	}
}

func (t *T) Outcome(format string, a ...interface{}) {
	t.mu.Lock()
	t.outcomes = append(t.outcomes, fmt.Sprintf(format, a...))
	t.mu.Unlock()
}

func (t *T) Cases(n int) { atomic.AddInt64(&t.cases, int64(n)) }
func (t *T) Procs(n int) { runtime.GOMAXPROCS(n) }
func (t *T) Yield()      { runtime.Gosched() }
func (t *T) Choose(n int) int {
	t.seed = t.seed*6364136223846793005 + 1442695040888963407
	return int((t.seed >> 33) % uint64(n))
}
func (t *T) Inv() int64 { return atomic.AddInt64(&t.clock, 1) }
func (t *T) Ret() int64 { return atomic.AddInt64(&t.clock, 1) }
func (t *T) Final(f func()) {
	t.mu.Lock()
	t.finals = append(t.finals, f)
	t.mu.Unlock()
}
func (t *T) AllowLeak()     { atomic.StoreInt32(&t.leak, 1) }
func (t *T) MapOrder(o int) {}

// Controlled reports whether the schedule is under control.
func (t *T) Controlled() bool { return false }

// Result of a native run.
type Result struct {
	Outcome string
	Fail    string
	Done    bool // body returned within the time limit
	Settled bool // all goroutines ended, finals ran
}

// Run performs one native run of i.
func Run(i Instance, seed uint64, limit time.Duration) Result {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	t := &T{seed: seed}
	base := runtime.NumGoroutine()
	for k := 0; k < 20; k++ { // goroutines of the previous run may be about to end
		runtime.Gosched()
		if n := runtime.NumGoroutine(); n < base {
			base = n
		}
	}
	done := make(chan bool)
	var once sync.Once
	go func() {
		ok := false
		defer once.Do(func() {
			if !ok {
				if p := recover(); p != nil {
					t.mu.Lock()
					if t.fail == "" {
						t.fail = fmt.Sprintf("uncaught panic: %v", p)
					}
					t.mu.Unlock()
				}
			}
			close(done)
		})
		i.Body(t)
		ok = true
	}()
	var r Result
	select {
	case <-done:
		r.Done = true
	case <-time.After(limit):
	}
	if r.Done {
		for k := 0; k < 2000; k++ {
			if k >= 105 && (i.NoLeak || atomic.LoadInt32(&t.leak) != 0) {
				break // goroutines may never end
			}
			if runtime.NumGoroutine() <= base {
				r.Settled = true
				break
			}
			if k < 100 {
				runtime.Gosched()
			} else {
				time.Sleep(time.Millisecond)
			}
		}
		t.mu.Lock()
		bad := t.fail != ""
		t.mu.Unlock()
		if r.Settled && !bad {
			fin := make(chan bool)
			go func() {
				defer close(fin)
				for _, f := range t.finals {
					f()
				}
			}()
			<-fin
		}
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, o := range t.outcomes {
		r.Outcome += o + "\n"
	}
	r.Fail = t.fail
	return r
}

// Catch runs f and returns the value it panicked with.
func Catch(f func()) (p interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	f()
	panicked = false
	return
}
