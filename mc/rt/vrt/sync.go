package vrt

import (
	"runtime"
	"unsafe"
)

// ---------------------------------------------------------------- points

type pointOp struct{}

func (*pointOp) Alts(*Thread) int       { return 1 }
func (*pointOp) Exec(th *Thread, _ int) { th.ev(0x70) }
func (*pointOp) Name() string           { return "point" }

// Point is an explicit scheduling point.
func Point() { doOp(&pointOp{}) }

type yieldOp struct{}

func (*yieldOp) Alts(*Thread) int       { return 1 }
func (*yieldOp) Exec(th *Thread, _ int) { th.ev(0x71) }
func (*yieldOp) Name() string           { return "Gosched" }

// Gosched yields: the thread is not scheduled again before another thread made a step.
func Gosched() {
	if s.abort {
		runtime.Goexit()
	}
	s.cur.yielded = true
	park(&yieldOp{})
}

// ---------------------------------------------------------------- atomics

type atomicOp struct {
	o    *Obj
	p    unsafe.Pointer
	load bool
	name string
}

func (a *atomicOp) Alts(*Thread) int { return 1 }
func (a *atomicOp) Name() string     { return a.name }
func (a *atomicOp) Exec(th *Thread, _ int) {
	th.acq(a.o.vc)
	if a.load {
		th.evR(a.o, 0x80)
	} else {
		th.evW(a.o, 0x81)
		th.rel(&a.o.vc)
	}
}

// AtomicObj returns the bookkeeping object of an address.
func AtomicObj(p unsafe.Pointer) *Obj {
	o := s.atomics[p]
	if o == nil {
		o = &Obj{}
		s.atomics[p] = o
	}
	return o
}

// Atomic is a scheduling point before an atomic access to *p.
func Atomic[T any](p *T, load bool, name string) {
	if s == nil || s.cur == nil || s.abort {
		return
	}
	q := unsafe.Pointer(p)
	doOp(&atomicOp{AtomicObj(q), q, load, name})
	if load {
		onAccess(q, false, true, name)
	} else {
		onAccess(q, true, true, name)
	}
}

// ---------------------------------------------------------------- mutex

type MutexState struct {
	O      Obj
	locked bool
}

type lockOp struct{ m *MutexState }

func (l *lockOp) Alts(*Thread) int {
	if l.m.locked {
		return 0
	}
	return 1
}
func (l *lockOp) Name() string { return "Mutex.Lock" }
func (l *lockOp) Exec(th *Thread, _ int) {
	l.m.locked = true
	th.acq(l.m.O.vc)
	th.evW(&l.m.O, 0x10)
}

func (m *MutexState) Lock() { doOp(&lockOp{m}) }

func (m *MutexState) TryLock() bool {
	Point()
	if m.locked {
		s.cur.evR(&m.O, 0x12)
		return false
	}
	(&lockOp{m}).Exec(s.cur, 0)
	return true
}

// UnlockPoints makes releases scheduling points (set if the program uses TryLock).
var UnlockPoints bool

func (m *MutexState) Unlock() {
	if s == nil || s.abort {
		m.locked = false
		return
	}
	if UnlockPoints {
		Point()
	}
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
		return
	}
	m.locked = false
	note("Mutex.Unlock")
	s.cur.rel(&m.O.vc)
	s.cur.evW(&m.O, 0x11)
}

// ---------------------------------------------------------------- rwmutex

type RWState struct {
	O       Obj
	readers int
	wPend   bool // a writer announced itself (blocks new readers)
	writer  bool
}

type rlockOp struct{ m *RWState }

func (l *rlockOp) Alts(*Thread) int {
	if l.m.wPend {
		return 0
	}
	return 1
}
func (l *rlockOp) Name() string { return "RWMutex.RLock" }
func (l *rlockOp) Exec(th *Thread, _ int) {
	l.m.readers++
	th.acq(l.m.O.vc)
	th.evR(&l.m.O, 0x20)
}

func (m *RWState) RLock() { doOp(&rlockOp{m}) }

func (m *RWState) RUnlock() {
	if s == nil || s.abort {
		m.readers--
		return
	}
	if UnlockPoints {
		Point()
	}
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.readers--
	note("RWMutex.RUnlock")
	s.cur.rel(&m.O.rvc)
	s.cur.evR(&m.O, 0x21)
}

type wlock1Op struct{ m *RWState }

func (l *wlock1Op) Alts(*Thread) int {
	if l.m.wPend {
		return 0
	}
	return 1
}
func (l *wlock1Op) Name() string { return "RWMutex.Lock" }
func (l *wlock1Op) Exec(th *Thread, _ int) {
	l.m.wPend = true
	th.evW(&l.m.O, 0x22)
	if l.m.readers == 0 {
		(&wlock2Op{l.m}).Exec(th, 0)
	}
}

type wlock2Op struct{ m *RWState }

func (l *wlock2Op) Alts(*Thread) int {
	if l.m.readers > 0 {
		return 0
	}
	return 1
}
func (l *wlock2Op) Name() string    { return "RWMutex.Lock (waiting for readers)" }
func (l *wlock2Op) Invisible() bool { return true }
func (l *wlock2Op) Exec(th *Thread, _ int) {
	l.m.writer = true
	th.acq(l.m.O.vc)
	th.acq(l.m.O.rvc)
	th.evW(&l.m.O, 0x23)
}

func (m *RWState) Lock() {
	doOp(&wlock1Op{m})
	if !m.writer {
		doOp(&wlock2Op{m})
	}
}

func (m *RWState) TryLock() bool {
	Point()
	if m.wPend || m.readers > 0 {
		s.cur.evR(&m.O, 0x25)
		return false
	}
	m.wPend = true
	(&wlock2Op{m}).Exec(s.cur, 0)
	return true
}

func (m *RWState) TryRLock() bool {
	Point()
	if m.wPend {
		s.cur.evR(&m.O, 0x26)
		return false
	}
	(&rlockOp{m}).Exec(s.cur, 0)
	return true
}

func (m *RWState) Unlock() {
	if s == nil || s.abort {
		m.writer, m.wPend = false, false
		return
	}
	if UnlockPoints {
		Point()
	}
	if !m.writer {
		Fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.writer, m.wPend = false, false
	note("RWMutex.Unlock")
	s.cur.rel(&m.O.vc)
	s.cur.evW(&m.O, 0x24)
}

// ---------------------------------------------------------------- waitgroup

type WGState struct {
	O     Obj
	n     int
	sum   uint64
	adds  []acc // concurrent-use detection for lazily scheduled Add
	waits []acc
}

type wgAddOp struct {
	w *WGState
	d int
}

func (a *wgAddOp) Alts(*Thread) int       { return 1 }
func (a *wgAddOp) Name() string           { return "WaitGroup.Add" }
func (a *wgAddOp) Exec(th *Thread, _ int) { a.w.add(th, a.d) }

func (w *WGState) add(th *Thread, d int) {
	w.n += d
	th.rel(&w.O.vc)
	th.ev(0x30, uint64(int64(d)))
	w.sum += mix(th.h, 0x31)
}

func (w *WGState) Add(d int) {
	if s == nil || s.abort {
		w.n += d
		return
	}
	th := s.cur
	if d > 0 {
		if s.hotWG {
			doOp(&wgAddOp{w, d})
		} else {
			for _, a := range w.waits {
				if a.tid != th.idx && a.clk > th.vc.at(a.tid) {
					s.hotWG, s.needRestart = true, true
					runtime.Goexit()
				}
			}
			w.adds = append(w.adds, acc{tid: th.idx, clk: th.vc[th.idx]})
			note("WaitGroup.Add")
			w.add(th, d)
		}
	} else {
		note("WaitGroup.Done")
		w.add(th, d)
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

type wgWaitOp struct{ w *WGState }

func (a *wgWaitOp) Alts(*Thread) int {
	if a.w.n > 0 {
		return 0
	}
	return 1
}
func (a *wgWaitOp) Name() string    { return "WaitGroup.Wait" }
func (a *wgWaitOp) Invisible() bool { return !s.hotWG }
func (a *wgWaitOp) Exec(th *Thread, _ int) {
	a.w.check(th)
	th.acq(a.w.O.vc)
	th.ev(0x32, a.w.sum)
}

// check: an Add that is concurrent with this Wait makes Adds scheduling points
func (w *WGState) check(th *Thread) {
	if s.hotWG {
		return
	}
	w.waits = append(w.waits, acc{tid: th.idx, clk: th.vc[th.idx]})
	for _, a := range w.adds {
		if a.tid != th.idx && a.clk > th.vc.at(a.tid) {
			s.hotWG = true
			s.needRestart = true
			return
		}
	}
}

func (w *WGState) Wait() {
	if s == nil {
		panic("Wait outside of exploration")
	}
	if s.abort {
		runtime.Goexit()
	}
	w.check(s.cur)
	if s.needRestart {
		runtime.Goexit()
	}
	if w.n == 0 && !s.hotWG {
		note("WaitGroup.Wait")
		(&wgWaitOp{w}).Exec(s.cur, 0)
		return
	}
	doOp(&wgWaitOp{w})
}

// ---------------------------------------------------------------- cond

type CondState struct {
	O       Obj
	waiters []*condWait
}

type condWait struct {
	c   *CondState
	sig bool
	vc  VC
}

func (a *condWait) Alts(*Thread) int {
	if !a.sig {
		return 0
	}
	return 1
}
func (a *condWait) Name() string { return "Cond.Wait" }

// waking up commutes with everything; the lock is taken again afterwards
func (a *condWait) Invisible() bool { return true }
func (a *condWait) Exec(th *Thread, _ int) {
	th.acq(a.vc)
	th.ev(0x41)
}

// entering the wait queue is a scheduling point: a Signal without the lock may come first
type condEnq struct {
	c *CondState
	w *condWait
}

func (a *condEnq) Alts(*Thread) int { return 1 }
func (a *condEnq) Name() string     { return "Cond.Wait (enqueue)" }
func (a *condEnq) Exec(th *Thread, _ int) {
	th.evW(&a.c.O, 0x40)
	a.c.waiters = append(a.c.waiters, a.w)
}

func (c *CondState) Wait(unlock, lock func()) {
	if s.abort {
		runtime.Goexit()
	}
	w := &condWait{c: c}
	doOp(&condEnq{c, w})
	unlock()
	park(w)
	lock()
}

type sigOp struct {
	c   *CondState
	all bool
}

func (a *sigOp) Alts(*Thread) int { return 1 }
func (a *sigOp) Name() string {
	if a.all {
		return "Cond.Broadcast"
	}
	return "Cond.Signal"
}
func (a *sigOp) Exec(th *Thread, _ int) {
	c := a.c
	th.evW(&c.O, 0x42)
	n := len(c.waiters)
	if !a.all && n > 1 {
		n = 1
	}
	for _, w := range c.waiters[:n] {
		w.sig = true
		w.vc = th.vc.clone()
	}
	th.tick()
	c.waiters = append([]*condWait(nil), c.waiters[n:]...)
}

func (c *CondState) Signal(all bool) {
	if s == nil || s.abort {
		return
	}
	doOp(&sigOp{c, all})
}
