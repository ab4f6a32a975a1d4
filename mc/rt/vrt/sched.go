// Package vrt is the controlled runtime: it runs goroutines of the program under
// test one at a time, decides every scheduling choice, and explores all of them.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- hashing

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 29
	return h
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- vector clocks

type VC []uint32

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	w := *v
	for i, c := range o {
		if c > w[i] {
			w[i] = c
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

// Obj is the dependence and happens-before bookkeeping of a synchronisation object.
type Obj struct {
	lastW uint64
	rsum  uint64
	vc    VC // release clock
	rvc   VC // reader release clock (rwmutex)
}

// ---------------------------------------------------------------- threads

// Op is a pending operation of a parked thread.
type Op interface {
	Alts(th *Thread) int      // number of enabled alternatives (0: blocked)
	Exec(th *Thread, alt int) // effect; th is resumed afterwards (unless Requeue)
	Name() string
}

// invisible operations commute with everything: when enabled they are scheduled
// without branching (a persistent set of size one).
type invisible interface{ Invisible() bool }

type Thread struct {
	idx     int
	id      uint64
	h       uint64
	vc      VC
	gate    chan struct{}
	pend    Op
	done    bool
	spawned int
	yielded bool
	steps   int
	hvc     int
	name    string
}

func (t *Thread) tick() { t.vc[t.idx]++ }

// release: publish th's clock into v
func (t *Thread) rel(v *VC) { v.join(t.vc); t.tick() }
func (t *Thread) acq(v VC)  { t.vc.join(v) }

func (t *Thread) ev(vals ...uint64) {
	h := t.h
	for _, v := range vals {
		h = mix(h, v)
	}
	t.h = mix(h, 0x51)
}

// write-class event on o
func (t *Thread) evW(o *Obj, kind uint64) {
	t.h = mix(mix(mix(t.h, kind), o.lastW), o.rsum)
	o.lastW = t.h
	o.rsum = 0
}

// read-class event on o: commutes with other reads
func (t *Thread) evR(o *Obj, kind uint64) {
	t.h = mix(mix(t.h, kind), o.lastW)
	o.rsum += mix(t.h, 0x77)
}

// ---------------------------------------------------------------- exploration state

type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type nodeT struct {
	n, idx int
	hash   uint64
	data   bool
}

type Config struct {
	Strict    bool // with delays: taking another alternative of a select is a delay, too
	Preempt   int  // -1: unbounded; >=0: at most that many preemptions; <=-10: at most -10-Preempt delays
	MaxStates int64
	MaxSteps  int // per execution horizon
	Trace     bool
	Fair      bool        // one round-robin execution (livelock test)
	Deadline  func() bool // true: stop
	AfterExec func()
}

type Stats struct {
	Execs, States, Transitions, Terminal int64
	Pruned                               int64
	MaxDepth                             int
	MaxThreads                           int
	Capped                               bool
	CapReason                            string
	Horizon                              int64
	Diverged                             string
	Restarts                             int
	HotWG, HotPoll                       bool
}

type sched struct {
	cfg       Config
	ctl       chan struct{}
	cur       *Thread
	threads   []*Thread
	live      int
	runq      []*Thread
	abort     bool
	viol      *Violation
	pruned    bool
	horizon   bool
	stack     []nodeT
	pos       int
	cache     map[uint64]int32
	cost      int
	last      *Thread
	stats     *Stats
	shadow    map[unsafe.Pointer]*cell
	atomics   map[unsafe.Pointer]*Obj
	steps     int
	newSteps  int64
	trace     []string
	diverged  string
	mainDone  bool
	leakOK    bool
	inMain    bool
	finals    []func()
	finalsRun bool
	// dynamic refinement flags (sticky per exploration)
	hotWG, hotPoll bool
	needRestart    bool
	procs          int
	mapOrder       int
	clock          int64
	hist           Obj
	histA, histB   uint64
	stamp          int64
	rngState       uint64
	seqDepth       int
	chooseHook     func(n int) int
}

var s *sched

// Active reports whether code runs under the controlled scheduler.
func Active() bool { return s != nil && s.cur != nil }

type resetHook struct {
	pkg, idx int
	f        func()
}

var resetHooks []resetHook
var resetPkgs = map[string]int{}

// OnResetAt registers a re-initialiser of package-level variables; hooks run by package
// (packages register in dependency order) and ascending idx.
func OnResetAt(pkg string, idx int, f func()) {
	k, ok := resetPkgs[pkg]
	if !ok {
		k = len(resetPkgs)
		resetPkgs[pkg] = k
	}
	resetHooks = append(resetHooks, resetHook{k, idx, f})
	sort.SliceStable(resetHooks, func(i, j int) bool {
		a, b := resetHooks[i], resetHooks[j]
		return a.pkg < b.pkg || a.pkg == b.pkg && a.idx < b.idx
	})
}

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func Aborting() bool { return s != nil && s.abort }

// ---------------------------------------------------------------- failing

func (sc *sched) fail(kind, msg string) {
	if sc.viol == nil && !sc.abort {
		sc.viol = &Violation{kind, msg}
	}
}

// Fail reports a violation from the running thread and ends the execution.
func Fail(kind, msg string) {
	if s == nil {
		panic("vrt.Fail outside of an exploration: " + msg)
	}
	if s.abort {
		return
	}
	s.fail(kind, msg)
	if s.cur != nil {
		runtime.Goexit()
	}
}

// Fatal is an unrecoverable runtime error ("fatal error: ...") of the program under test.
func Fatal(msg string) { Fail("crash", "fatal error: "+msg) }

// ---------------------------------------------------------------- threads: creation and parking

func (sc *sched) newThread(parent *Thread, f func()) *Thread {
	th := &Thread{idx: len(sc.threads), gate: make(chan struct{}, 1)}
	if parent != nil {
		parent.spawned++
		th.id = mix(mix(parent.id, uint64(parent.spawned)), 0xabc)
		th.vc = parent.vc.clone()
		parent.tick()
		th.h = mix(parent.h, uint64(parent.spawned))
		parent.ev(0x60)
	} else {
		th.id = 1
		th.h = 1
	}
	for len(th.vc) <= th.idx {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.idx] = 1
	sc.threads = append(sc.threads, th)
	if len(sc.threads) > sc.stats.MaxThreads {
		sc.stats.MaxThreads = len(sc.threads)
	}
	sc.live++
	go func() {
		<-th.gate
		normal := false
		defer func() {
			if !normal && !sc.abort && sc.viol == nil {
				if p := recover(); p != nil {
					sc.fail("crash", fmt.Sprintf("uncaught panic in goroutine %d (the process would crash): %v%s", th.idx, firstLine(p), panicSite()))
				} else if sc.viol == nil && !th.done {
					// runtime.Goexit by the program
					th.h = mix(th.h, 0x6e)
				}
			} else if !normal {
				recover()
			}
			th.done = true
			th.pend = nil
			sc.live--
			if th.idx == 0 {
				sc.mainDone = true
			}
			sc.ctl <- struct{}{}
		}()
		if sc.abort {
			normal = true
			return
		}
		f()
		normal = true
	}()
	return th
}

func panicSite() string {
	st := string(debug.Stack())
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, ".go:"); i >= 0 && !strings.Contains(l, "/vrt/") && !strings.Contains(l, "/runtime/") {
			if j := strings.LastIndex(l, " +"); j > 0 {
				l = l[:j]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return " [at " + strings.Join(out, " < ") + "]"
}

func firstLine(p interface{}) string {
	str := fmt.Sprintf("%v", p)
	if i := strings.IndexByte(str, '\n'); i >= 0 {
		str = str[:i] + " ..."
	}
	return str
}

// Go starts f as a new goroutine.
func Go(f func()) {
	if s == nil || s.cur == nil {
		panic("vrt.Go outside of an exploration")
	}
	if s.abort {
		return
	}
	if len(s.threads) > 4000 {
		s.horizon = true
		s.stats.CapReason = "more than 4000 goroutines in one execution"
		runtime.Goexit()
	}
	th := s.newThread(s.cur, f)
	s.runq = append(s.runq, th)
}

// resume runs th until it parks or exits.
func (sc *sched) resume(th *Thread) {
	sc.cur = th
	th.gate <- struct{}{}
	<-sc.ctl
	sc.cur = nil
}

// park blocks the running thread on op until the scheduler executed it.
func park(op Op) {
	sc := s
	th := sc.cur
	if sc.abort {
		runtime.Goexit()
	}
	th.pend = op
	sc.ctl <- struct{}{}
	<-th.gate
	if sc.abort {
		runtime.Goexit()
	}
}

// doOp performs op: directly if no other thread is alive and it has exactly one alternative.
func doOp(op Op) {
	sc := s
	if sc == nil || sc.cur == nil {
		panic("vrt: synchronisation operation outside of an exploration: " + op.Name())
	}
	if sc.abort {
		runtime.Goexit()
	}
	th := sc.cur
	if sc.live == 1 && len(sc.runq) == 0 {
		if op.Alts(th) == 1 {
			sc.count(th, op, 0)
			op.Exec(th, 0)
			return
		}
	}
	park(op)
}

func (sc *sched) count(th *Thread, op Op, alt int) {
	th.steps++
	sc.steps++
	if sc.pos >= len(sc.stack) {
		sc.newSteps++
	}
	if sc.cfg.Trace {
		sc.traceOp(th, op.Name(), alt)
	}
	if sc.steps > sc.cfg.MaxSteps {
		sc.horizon = true
	}
}

func (sc *sched) traceOp(th *Thread, name string, alt int) {
	line := fmt.Sprintf("g%d %s", th.idx, name)
	if alt != 0 {
		line += fmt.Sprintf(" (alternative %d)", alt)
	}
	sc.trace = append(sc.trace, line)
}

func Tracef(format string, args ...interface{}) {
	if s != nil && s.cfg.Trace && s.cur != nil && !s.abort {
		s.trace = append(s.trace, fmt.Sprintf("g%d ", s.cur.idx)+fmt.Sprintf(format, args...))
	}
}

// note an immediate (non-branching) operation in the trace
func note(name string) {
	if s.cfg.Trace && s.cur != nil {
		s.trace = append(s.trace, fmt.Sprintf("g%d %s", s.cur.idx, name))
	}
}

type trans struct {
	th  *Thread
	alt int
}

func (sc *sched) stateHash() uint64 {
	var h uint64
	for _, th := range sc.threads {
		h += mix(th.id, th.h)
		if th.yielded {
			h += mix(th.id, 0x1e1d)
		}
	}
	return h
}

// decide picks one of n alternatives. costs may be nil.
func (sc *sched) decide(n int, data bool, keyExtra uint64) (int, bool) {
	if sc.pos < len(sc.stack) {
		nd := &sc.stack[sc.pos]
		h := sc.stateHash()
		if nd.n < 0 && nd.idx < n {
			nd.n, nd.data = n, data
		}
		if nd.n != n || nd.data != data || (nd.hash != 0 && nd.hash != h) {
			sc.diverged = fmt.Sprintf("replay diverged at decision %d: %d/%d alternatives, hash match %v", sc.pos, nd.n, n, nd.hash == h)
			return 0, false
		}
		nd.hash = h
		sc.pos++
		return nd.idx, true
	}
	sc.stack = append(sc.stack, nodeT{n: n, data: data, hash: sc.stateHash()})
	sc.pos++
	if len(sc.stack) > sc.stats.MaxDepth {
		sc.stats.MaxDepth = len(sc.stack)
	}
	return 0, true
}

// Choose is a nondeterministic choice 0..n-1 by the running thread.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if s.abort {
		runtime.Goexit()
	}
	c, ok := s.decide(n, true, 0)
	if !ok {
		runtime.Goexit()
	}
	s.cur.ev(0x99, uint64(c))
	note(fmt.Sprintf("choose %d of %d", c, n))
	return c
}

func (sc *sched) finishAbort() {
	sc.abort = true
	for _, th := range sc.threads {
		for i := 0; !th.done; i++ {
			if i > 1000 {
				panic("vrt: thread does not end on abort")
			}
			sc.resume(th)
		}
	}
	// threads spawned while aborting do not exist (Go is a no-op)
}

// runOne performs one execution following the stack.
func (sc *sched) runOne(body func()) {
	sc.threads = sc.threads[:0]
	sc.live = 0
	sc.runq = sc.runq[:0]
	sc.abort, sc.pruned, sc.horizon, sc.mainDone, sc.leakOK = false, false, false, false, false
	sc.viol = nil
	sc.pos, sc.cost, sc.steps = 0, 0, 0
	sc.last = nil
	sc.diverged = ""
	sc.shadow = make(map[unsafe.Pointer]*cell)
	sc.atomics = make(map[unsafe.Pointer]*Obj)
	sc.trace = sc.trace[:0]
	sc.finals = nil
	sc.finalsRun = false
	sc.needRestart = false
	sc.procs = 2
	sc.mapOrder = 0
	sc.clock = 0
	sc.hist = Obj{}
	sc.histA, sc.histB, sc.stamp = 0, 0, 0
	sc.rngState = 0x1234567
	for _, h := range resetHooks {
		h.f()
	}
	main := sc.newThread(nil, body)
	sc.runq = append(sc.runq, main)
	var tr []trans
	for {
		for len(sc.runq) > 0 {
			th := sc.runq[0]
			sc.runq = sc.runq[1:]
			sc.resume(th)
			if sc.viol != nil || sc.diverged != "" || sc.needRestart || sc.horizon {
				break
			}
		}
		if sc.viol != nil || sc.diverged != "" || sc.needRestart || sc.horizon {
			break
		}
		tr = tr[:0]
		anyYield := false
		inv := -1
		for _, th := range sc.threads {
			if th.pend == nil {
				continue
			}
			if th.yielded {
				anyYield = true
				continue
			}
			n := th.pend.Alts(th)
			if n > 0 {
				if iv, ok := th.pend.(invisible); ok && n == 1 && iv.Invisible() {
					inv = len(tr)
				}
				for a := 0; a < n; a++ {
					tr = append(tr, trans{th, a})
				}
				if inv >= 0 {
					break
				}
			}
		}
		if inv >= 0 {
			tr[0] = tr[inv]
			tr = tr[:1]
		}
		if len(tr) == 0 && anyYield {
			for _, th := range sc.threads {
				if th.yielded {
					th.yielded = false
				}
			}
			continue
		}
		if len(tr) == 0 {
			if sc.live > 0 {
				var b []string
				for _, th := range sc.threads {
					if !th.done && th.pend != nil {
						b = append(b, fmt.Sprintf("g%d blocked in %s", th.idx, th.pend.Name()))
					}
				}
				if sc.finalsRun {
					sc.fail("deadlock", "final check cannot make progress: "+strings.Join(b, "; "))
				} else if !sc.mainDone {
					sc.fail("deadlock", "no goroutine can make progress: "+strings.Join(b, "; "))
				} else if !sc.leakOK {
					sc.fail("leak", "goroutines never terminate: "+strings.Join(b, "; "))
				}
			}
			if sc.viol == nil && len(sc.finals) > 0 && !sc.finalsRun {
				// everything has ended: the final checks run as one more thread
				sc.finalsRun = true
				finals := sc.finals
				h := sc.stateHash()
				th := sc.newThread(nil, func() {
					for _, f := range finals {
						f()
					}
				})
				th.id, th.h = 2, h
				for _, o := range sc.threads {
					th.vc.join(o.vc)
				}
				sc.runq = append(sc.runq, th)
				continue
			}
			break
		}
		choice := 0
		if len(tr) > 1 {
			// canonical order: last running thread first
			if sc.last != nil {
				sort.SliceStable(tr, func(i, j int) bool { return tr[i].th == sc.last && tr[j].th != sc.last })
			}
			contEnabled := sc.last != nil && tr[0].th == sc.last
			delays, bounded := -10-sc.cfg.Preempt, sc.cfg.Preempt != -1
			if delays >= 0 {
				// the scheduler takes the first thread of the order; each thread skipped costs one
				k, d := 0, 0
				for k < len(tr) {
					if k > 0 && (sc.cfg.Strict || tr[k].th != tr[k-1].th) {
						d++
					}
					if sc.cost+d > delays {
						break
					}
					k++
				}
				tr = tr[:k]
			} else if bounded && contEnabled && sc.cost >= sc.cfg.Preempt {
				k := 0
				for k < len(tr) && tr[k].th == sc.last {
					k++
				}
				tr = tr[:k]
			}
			if sc.cfg.Fair {
				for i := range tr {
					if tr[i].th.steps < tr[choice].th.steps {
						choice = i
					}
				}
			} else if len(tr) > 1 {
				if sc.pos >= len(sc.stack) {
					key := sc.stateHash()
					if bounded {
						lid := uint64(0)
						if sc.last != nil {
							lid = sc.last.id
						}
						key = mix(key, lid)
					}
					rem := int32(sc.cfg.Preempt - sc.cost)
					if delays >= 0 {
						rem = int32(delays - sc.cost)
					}
					if old, seen := sc.cache[key]; seen && (!bounded || old >= rem) {
						sc.pruned = true
						sc.stats.Pruned++
						break
					} else {
						if !seen {
							sc.stats.States++
						}
						sc.cache[key] = rem
					}
				}
				c, ok := sc.decide(len(tr), false, 0)
				if !ok {
					break
				}
				choice = c
				if delays >= 0 {
					for i := 1; i <= choice; i++ {
						if sc.cfg.Strict || tr[i].th != tr[i-1].th {
							sc.cost++
						}
					}
				} else if contEnabled && tr[choice].th != sc.last {
					sc.cost++
				}
			}
		}
		t := tr[choice]
		op := t.th.pend
		sc.count(t.th, op, t.alt)
		if sc.horizon {
			break
		}
		if _, ok := op.(*yieldOp); !ok {
			for _, th := range sc.threads {
				if th != t.th {
					th.yielded = false
				}
			}
		}
		t.th.pend = nil
		if inv < 0 {
			sc.last = t.th
		}
		sc.runq = append(sc.runq, t.th)
		op.Exec(t.th, t.alt)
	}
	if sc.viol == nil && sc.diverged == "" && !sc.needRestart && !sc.horizon && !sc.pruned {
		// complete execution
		sc.stats.Terminal++
	}
	if sc.viol == nil && sc.horizon {
		sc.stats.Horizon++
	}
	v := sc.viol
	sc.finishAbort()
	sc.viol = v
	sc.threads = nil
	sc.shadow = nil
}

// Explore enumerates all schedules of body. It returns the first violation and its choices.
func Explore(body func(), cfg Config, st *Stats) (viol *Violation, choices []int) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	sc := &sched{cfg: cfg, ctl: make(chan struct{}), stats: st, cache: map[uint64]int32{}}
	s = sc
	defer func() { s = nil }()
	for {
		sc.runOne(body)
		st.Execs++
		st.Transitions += sc.newSteps
		sc.newSteps = 0
		if cfg.AfterExec != nil && sc.viol == nil && !sc.pruned && !sc.horizon && sc.diverged == "" && !sc.needRestart {
			cfg.AfterExec()
		}
		if sc.viol != nil {
			for _, n := range sc.stack[:sc.pos] {
				choices = append(choices, n.idx)
			}
			return sc.viol, choices
		}
		if sc.diverged != "" {
			st.Diverged = sc.diverged
			st.Capped = true
			st.CapReason = "replay divergence"
			return nil, nil
		}
		if sc.needRestart {
			st.Restarts++
			if st.Restarts > 8 {
				st.Capped = true
				st.CapReason = "too many refinement restarts"
				return nil, nil
			}
			sc.stack = sc.stack[:0]
			sc.cache = map[uint64]int32{}
			st.States = 0
			st.HotWG, st.HotPoll = sc.hotWG, sc.hotPoll
			continue
		}
		if sc.horizon {
			st.Capped = true
			if st.CapReason == "" {
				st.CapReason = "horizon reached in an execution"
			}
			if st.Horizon > 20 {
				return nil, nil
			}
		}
		if st.States > cfg.MaxStates && cfg.MaxStates > 0 {
			st.Capped = true
			st.CapReason = "state cap"
			return nil, nil
		}
		if cfg.Deadline != nil && cfg.Deadline() {
			st.Capped = true
			st.CapReason = "deadline"
			return nil, nil
		}
		// backtrack
		i := len(sc.stack) - 1
		for i >= 0 && sc.stack[i].idx+1 >= sc.stack[i].n {
			i--
		}
		if i < 0 {
			return nil, nil
		}
		sc.stack = sc.stack[:i+1]
		sc.stack[i].idx++
	}
}

// FairRun performs one execution with round-robin scheduling; it reports whether the
// execution ended within maxSteps.
func FairRun(body func(), maxSteps int) (ended bool) {
	st := &Stats{}
	sc := &sched{cfg: Config{Preempt: -1, MaxSteps: maxSteps, Fair: true}, ctl: make(chan struct{}), stats: st, cache: map[uint64]int32{}}
	sc.hotWG, sc.hotPoll = true, true
	s = sc
	defer func() { s = nil }()
	sc.runOne(body)
	return !sc.horizon
}

// Replay performs the single execution given by choices.
func Replay(body func(), cfg Config, choices []int, hotWG, hotPoll bool) (viol *Violation, trace []string, err string) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	st := &Stats{}
	sc := &sched{cfg: cfg, ctl: make(chan struct{}), stats: st, cache: map[uint64]int32{}}
	sc.hotWG, sc.hotPoll = hotWG, hotPoll
	s = sc
	defer func() { s = nil }()
	for _, c := range choices {
		sc.stack = append(sc.stack, nodeT{n: -1, idx: c})
	}
	sc.runOne(body)
	tr := append([]string(nil), sc.trace...)
	if sc.diverged != "" {
		return nil, tr, sc.diverged
	}
	return sc.viol, tr, ""
}
