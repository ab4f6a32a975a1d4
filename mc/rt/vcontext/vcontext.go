// Package vcontext is package context for the controlled runtime. A cancellation is one
// atomic event that closes the Done channels of the context and all its descendants.
package vcontext

import (
	"context"
	"errors"
	"time"

	"github.com/exascience/pargo/zz_verif/vrt"
)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vrt.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

type emptyCtx struct{}

func (emptyCtx) Deadline() (t time.Time, ok bool) { return }
func (emptyCtx) Done() *vrt.Chan[struct{}]        { return nil }
func (emptyCtx) Err() error                       { return nil }
func (emptyCtx) Value(interface{}) interface{}    { return nil }

func Background() Context { return emptyCtx{} }
func TODO() Context       { return emptyCtx{} }

type cancelCtx struct {
	parent   Context
	o        vrt.Obj
	done     *vrt.Chan[struct{}]
	err      error
	cause    error
	children []*cancelCtx
	after    []func()
}

type cancelKey struct{}

func (c *cancelCtx) Deadline() (time.Time, bool) { return c.parent.Deadline() }
func (c *cancelCtx) Done() *vrt.Chan[struct{}]   { return c.done }
func (c *cancelCtx) Value(k interface{}) interface{} {
	if _, ok := k.(cancelKey); ok {
		return c
	}
	return c.parent.Value(k)
}
func (c *cancelCtx) Err() (err error) {
	vrt.ObjOp(&c.o, false, "Context.Err", func(*vrt.Thread) { err = c.err })
	return
}

func (c *cancelCtx) cancelNow(th *vrt.Thread, err, cause error, after *[]func()) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	c.done.Core().CloseBy(th)
	*after = append(*after, c.after...)
	for _, ch := range c.children {
		ch.cancelNow(th, err, cause, after)
	}
}

func (c *cancelCtx) cancel(err, cause error) {
	var after []func()
	vrt.ObjOp(&c.o, true, "cancel", func(th *vrt.Thread) { c.cancelNow(th, err, cause, &after) })
	for _, f := range after {
		vrt.Go(f)
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: vrt.MakeChan[struct{}](0)}
	if p, ok := parent.Value(cancelKey{}).(*cancelCtx); ok && p != nil {
		vrt.ObjOp(&p.o, true, "WithCancel", func(th *vrt.Thread) {
			if p.err != nil {
				var a []func()
				c.cancelNow(th, p.err, p.cause, &a)
			} else {
				p.children = append(p.children, c)
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func Cause(c Context) error {
	if p, ok := c.Value(cancelKey{}).(*cancelCtx); ok {
		p.Err()
		return p.cause
	}
	return c.Err()
}

type timerCtx struct {
	*cancelCtx
	d time.Time
}

func (t timerCtx) Deadline() (time.Time, bool) { return t.d, true }

// WithDeadline: the deadline may pass at any time; a deadline in the past has passed.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c := newCancel(parent)
	if d.UnixNano() <= vrt.Now() {
		c.cancel(DeadlineExceeded, nil)
		return timerCtx{c, d}, func() { c.cancel(Canceled, nil) }
	}
	vrt.Go(func() {
		vrt.Point()
		c.cancel(DeadlineExceeded, nil)
	})
	return timerCtx{c, d}, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Unix(0, vrt.Now()).Add(d))
}

type valueCtx struct {
	Context
	k, v interface{}
}

func (v valueCtx) Value(k interface{}) interface{} {
	if k == v.k {
		return v.v
	}
	return v.Context.Value(k)
}

func WithValue(parent Context, k, v interface{}) Context { return valueCtx{parent, k, v} }

type withoutCancel struct{ c Context }

func (w withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (w withoutCancel) Done() *vrt.Chan[struct{}]        { return nil }
func (w withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k interface{}) interface{} {
	if _, ok := k.(cancelKey); ok {
		return nil
	}
	return w.c.Value(k)
}
func WithoutCancel(c Context) Context { return withoutCancel{c} }

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCancel(ctx)
	stopped := false
	started := false
	g := func() { started = true; f() }
	vrt.ObjOp(&c.o, true, "AfterFunc", func(*vrt.Thread) {})
	if c.err != nil {
		vrt.Go(g)
	} else {
		c.after = append(c.after, func() {
			if !stopped {
				g()
			}
		})
	}
	return func() bool {
		vrt.ObjOp(&c.o, true, "AfterFunc.stop", func(*vrt.Thread) {
			if c.err == nil {
				stopped = true
			}
		})
		return stopped && !started
	}
}

var _ = errors.New
