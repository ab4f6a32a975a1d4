package vrt

import (
	"fmt"
	"runtime"
)

// ChanCore is the untyped part of a channel.
type ChanCore struct {
	O      Obj
	cap    int
	buf    []msg
	closed bool
	clVC   VC
	clH    uint64
	polls  []acc // lazily executed polls (concurrent close/send => refinement)
	slots  []VC  // release clocks of freed buffer slots
	name   string
}

type msg struct {
	v  interface{}
	vc VC
	h  uint64
}

type Chan[T any] struct{ c ChanCore }

func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{ChanCore{cap: n}}
}

func (c *Chan[T]) Core() *ChanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

// SelCase is one case of a select.
type SelCase struct {
	Ch   *ChanCore
	Send bool
	V    interface{}
}

type Sel struct {
	I  int
	V  interface{}
	Ok bool
}

type selOp struct {
	cases  []SelCase
	def    bool
	th     *Thread
	res    Sel
	panicv string
	single string
}

func (o *selOp) Name() string {
	if o.single != "" {
		return o.single
	}
	n := "select("
	for i, c := range o.cases {
		if i > 0 {
			n += ", "
		}
		if c.Send {
			n += "send"
		} else {
			n += "recv"
		}
	}
	if o.def {
		n += ", default"
	}
	return n + ")"
}

type selAlt struct {
	i    int // case index; -1: default
	pth  *Thread
	pi   int
	kind byte // 'b' buffered/closed, 'r' rendezvous as receiver, 'd' default
}

// alts enumerates the enabled alternatives of th's pending select.
func (o *selOp) alts(th *Thread, f func(a selAlt) bool) {
	solid := false
	for i, cs := range o.cases {
		c := cs.Ch
		if c == nil {
			continue
		}
		if cs.Send {
			if c.closed || len(c.buf) < c.cap {
				solid = true
				if f(selAlt{i: i, kind: 'b'}) {
					return
				}
			}
			continue
		}
		if len(c.buf) > 0 || c.closed {
			solid = true
			if f(selAlt{i: i, kind: 'b'}) {
				return
			}
			continue
		}
		if c.cap == 0 {
			for _, p := range s.threads {
				if p == th || p.pend == nil {
					continue
				}
				po, ok := p.pend.(*selOp)
				if !ok {
					continue
				}
				for j, pc := range po.cases {
					if pc.Send && pc.Ch == c {
						if po.def && o.def {
							// two non-blocking operations never meet
							continue
						}
						if f(selAlt{i: i, pth: p, pi: j, kind: 'r'}) {
							return
						}
					}
				}
			}
		}
	}
	if o.def && !solid {
		f(selAlt{i: -1, kind: 'd'})
	}
}

func (o *selOp) Alts(th *Thread) int {
	n := 0
	o.alts(th, func(selAlt) bool { n++; return false })
	return n
}

func (o *selOp) nth(th *Thread, k int) (r selAlt) {
	n := 0
	found := false
	o.alts(th, func(a selAlt) bool {
		if n == k {
			r = a
			found = true
			return true
		}
		n++
		return false
	})
	if !found {
		panic("vrt: select alternative vanished")
	}
	return
}

func (o *selOp) Exec(th *Thread, alt int) {
	a := o.nth(th, alt)
	switch a.kind {
	case 'd':
		o.res = Sel{I: -1}
		th.ev(0x50)
	case 'r':
		o.rendezvous(th, a)
	case 'b':
		cs := o.cases[a.i]
		c := cs.Ch
		o.res.I = a.i
		if cs.Send {
			if c.closed {
				o.panicv = "send on closed channel"
				th.ev(0x51, uint64(a.i))
				return
			}
			c.hotCheck(th)
			th.evW(&c.O, 0x52+uint64(a.i)<<8)
			// the k-th receive happens before the (k+cap)-th send completes
			if len(c.slots) > 0 {
				th.acq(c.slots[0])
				c.slots = c.slots[1:]
			}
			c.buf = append(c.buf, msg{cs.V, th.vc.clone(), th.h})
			th.tick()
			o.res.V = nil
			return
		}
		if len(c.buf) > 0 {
			m := c.buf[0]
			c.buf = append([]msg(nil), c.buf[1:]...)
			th.acq(m.vc)
			th.evW(&c.O, 0x53+uint64(a.i)<<8)
			c.slots = append(c.slots, th.vc.clone())
			th.tick()
			o.res.V, o.res.Ok = m.v, true
			return
		}
		// closed
		th.acq(c.clVC)
		th.ev(0x54, uint64(a.i), c.clH)
		o.res.V, o.res.Ok = nil, false
	}
}

func (o *selOp) rendezvous(th *Thread, a selAlt) {
	c := o.cases[a.i].Ch
	p := a.pth
	po := p.pend.(*selOp)
	o.res = Sel{I: a.i, V: po.cases[a.pi].V, Ok: true}
	po.res = Sel{I: a.pi}
	c.hotCheck(th)
	c.hotCheck(p)
	if s.cfg.Trace {
		s.trace = append(s.trace, fmt.Sprintf("g%d   receives from g%d", th.idx, p.idx))
	}
	// joint event
	hs, hr := p.h, th.h
	p.h = mix(mix(mix(hs, hr), 0x55), uint64(a.pi))
	th.h = mix(mix(mix(hr, hs), 0x56), uint64(a.i))
	th.vc.join(p.vc)
	p.vc.join(th.vc)
	th.tick()
	p.tick()
	p.pend = nil
	p.yielded = false
	s.runq = append(s.runq, p)
}

// hotCheck: a lazily executed poll concurrent with a change of the channel
func (c *ChanCore) hotCheck(th *Thread) {
	if s.hotPoll {
		return
	}
	for _, a := range c.polls {
		if a.tid != th.idx && a.clk > th.vc.at(a.tid) {
			s.hotPoll = true
			s.needRestart = true
			return
		}
	}
}

// Select performs a select statement; I == -1 is the default case.
func Select(def bool, cases ...SelCase) Sel {
	if s == nil || s.cur == nil {
		panic("vrt: select outside of an exploration")
	}
	if s.abort {
		runtime.Goexit()
	}
	th := s.cur
	if def && !s.hotPoll {
		// a poll of channels nobody has touched concurrently is not a scheduling point
		lazy := true
		for _, c := range cases {
			if c.Send {
				lazy = false
				break
			}
			if c.Ch == nil {
				continue
			}
			if c.Ch.closed {
				if c.Ch.clVC.leq(th.vc) {
					continue
				}
				s.hotPoll, s.needRestart = true, true
				runtime.Goexit()
			}
			if len(c.Ch.buf) > 0 || c.Ch.pendingSender() {
				lazy = false
				break
			}
		}
		if lazy {
			for i, c := range cases {
				if c.Ch != nil && c.Ch.closed {
					th.ev(0x54, uint64(i), c.Ch.clH)
					note("poll: closed")
					return Sel{I: i}
				}
			}
			for _, c := range cases {
				if c.Ch != nil {
					c.Ch.addPoll(th)
				}
			}
			th.ev(0x50)
			note("poll: default")
			return Sel{I: -1}
		}
		s.hotPoll, s.needRestart = true, true
		runtime.Goexit()
	}
	op := &selOp{cases: cases, def: def, th: th}
	doOp(op)
	if op.panicv != "" {
		panic(plainError(op.panicv))
	}
	return op.res
}

func (c *ChanCore) addPoll(th *Thread) {
	for i := range c.polls {
		if c.polls[i].tid == th.idx {
			c.polls[i].clk = th.vc[th.idx]
			return
		}
	}
	c.polls = append(c.polls, acc{tid: th.idx, clk: th.vc[th.idx]})
}

func (v VC) leq(o VC) bool {
	for i, c := range v {
		if c > o.at(i) {
			return false
		}
	}
	return true
}

func (c *ChanCore) pendingSender() bool {
	for _, p := range s.threads {
		if po, ok := p.pend.(*selOp); ok && p.pend != nil {
			for _, pc := range po.cases {
				if pc.Send && pc.Ch == c {
					return true
				}
			}
		}
	}
	return false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (plainError) RuntimeError()   {}

func (c *Chan[T]) RecvCase() SelCase { return SelCase{Ch: c.Core()} }
func (c *Chan[T]) SendCase(v T) SelCase {
	return SelCase{Ch: c.Core(), Send: true, V: v}
}
func (c *Chan[T]) Got(r Sel) T {
	v, _ := r.V.(T)
	return v
}
func (c *Chan[T]) Got2(r Sel) (T, bool) {
	v, _ := r.V.(T)
	return v, r.Ok
}

func (c *Chan[T]) Send(v T) {
	op := &selOp{cases: []SelCase{c.SendCase(v)}, single: "chan send"}
	c.do(op)
	if op.panicv != "" {
		panic(plainError(op.panicv))
	}
}

func (c *Chan[T]) do(op *selOp) {
	if s == nil || s.cur == nil {
		panic("vrt: channel operation outside of an exploration")
	}
	if s.abort {
		runtime.Goexit()
	}
	op.th = s.cur
	doOp(op)
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c *Chan[T]) Recv2() (T, bool) {
	op := &selOp{cases: []SelCase{c.RecvCase()}, single: "chan recv"}
	c.do(op)
	v, _ := op.res.V.(T)
	return v, op.res.Ok
}

func Range0[T any](c *Chan[T]) (*Chan[T], T, bool) {
	v, ok := c.Recv2()
	return c, v, ok
}

type closeOp struct {
	c   *ChanCore
	bad bool
}

func (o *closeOp) Alts(*Thread) int { return 1 }
func (o *closeOp) Name() string     { return "close" }
func (o *closeOp) Exec(th *Thread, _ int) {
	if o.c.closed {
		o.bad = true
		th.ev(0x57)
		return
	}
	o.c.CloseBy(th)
}

func (c *ChanCore) CloseBy(th *Thread) {
	c.hotCheck(th)
	c.closed = true
	th.evW(&c.O, 0x58)
	c.clVC = th.vc.clone()
	c.clH = th.h
	th.tick()
}

func (c *Chan[T]) Close() {
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	if s == nil || s.abort {
		return
	}
	op := &closeOp{c: &c.c}
	doOp(op)
	if op.bad {
		panic(plainError("close of closed channel"))
	}
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	if c.c.cap > 0 {
		Point()
		s.cur.evW(&c.c.O, 0x59)
	}
	return len(c.c.buf)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

// Block blocks forever (select {}).
func Block() {
	Select(false)
}

// Current returns the running thread (for shims).
func Current() *Thread { return s.cur }

// ---------------------------------------------------------------- generic read/write event on an object

type objOp struct {
	o     *Obj
	write bool
	name  string
	eff   func(th *Thread)
}

func (a *objOp) Alts(*Thread) int { return 1 }
func (a *objOp) Name() string     { return a.name }
func (a *objOp) Exec(th *Thread, _ int) {
	th.acq(a.o.vc)
	if a.write {
		th.evW(a.o, 0x90)
	} else {
		th.evR(a.o, 0x91)
	}
	if a.eff != nil {
		a.eff(th)
	}
	if a.write {
		th.rel(&a.o.vc)
	}
}

// ObjOp performs a synchronising operation on o with the given effect.
func ObjOp(o *Obj, write bool, name string, eff func(th *Thread)) {
	if s == nil || s.cur == nil || s.abort {
		if eff != nil && s != nil && s.cur != nil && !s.abort {
			eff(s.cur)
		}
		return
	}
	doOp(&objOp{o, write, name, eff})
}

// Immediate performs the synchronising operation without a scheduling point.
func Immediate(o *Obj, write bool, name string, eff func(th *Thread)) {
	if s == nil || s.cur == nil || s.abort {
		return
	}
	note(name)
	(&objOp{o, write, name, eff}).Exec(s.cur, 0)
}

// AnyChan is implemented by every *Chan[T].
type AnyChan interface {
	Core() *ChanCore
	IsVrtChan()
	SendAny(v interface{}) SelCase
	MakeAny(n int) AnyChan
	NilChan() bool
	CloseAny()
}

func (c *Chan[T]) IsVrtChan()    {}
func (c *Chan[T]) CloseAny()     { c.Close() }
func (c *Chan[T]) NilChan() bool { return c == nil }
func (c *Chan[T]) SendAny(v interface{}) SelCase {
	x, _ := v.(T)
	return SelCase{Ch: c.Core(), Send: true, V: x}
}
func (c *Chan[T]) MakeAny(n int) AnyChan { return MakeChan[T](n) }
func (c *Chan[T]) ElemZero() (z T)       { return }

func (c *ChanCore) BufLen() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func (c *ChanCore) BufCap() int {
	if c == nil {
		return 0
	}
	return c.cap
}
