// Package vsync is package sync for the controlled runtime.
package vsync

import "github.com/exascience/pargo/zz_verif/vrt"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ m vrt.MutexState }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m vrt.RWState }

func (m *RWMutex) Lock()           { m.m.Lock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) RLock()          { m.m.RLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ w vrt.WGState }

func (w *WaitGroup) Add(d int) { w.w.Add(d) }
func (w *WaitGroup) Done()     { w.w.Add(-1) }
func (w *WaitGroup) Wait()     { w.w.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L Locker
	c vrt.CondState
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        { c.c.Wait(c.L.Unlock, c.L.Lock) }
func (c *Cond) Signal()      { c.c.Signal(false) }
func (c *Cond) Broadcast()   { c.c.Signal(true) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p interface{}
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

type Pool struct {
	New   func() interface{}
	o     vrt.Obj
	items []interface{}
}

func (p *Pool) Get() (r interface{}) {
	vrt.ObjOp(&p.o, true, "Pool.Get", func(*vrt.Thread) {
		if n := len(p.items); n > 0 {
			r = p.items[n-1]
			p.items = p.items[:n-1]
		}
	})
	if r == nil && p.New != nil {
		r = p.New()
	}
	return
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	vrt.ObjOp(&p.o, true, "Pool.Put", func(*vrt.Thread) { p.items = append(p.items, x) })
}

// Map is sync.Map: every operation is atomic.
type Map struct {
	o    vrt.Obj
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(append([]interface{}(nil), m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	vrt.ObjOp(&m.o, false, "Map.Load", func(*vrt.Thread) { v, ok = m.m[k] })
	return
}
func (m *Map) Store(k, v interface{}) {
	vrt.ObjOp(&m.o, true, "Map.Store", func(*vrt.Thread) { m.set(k, v) })
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	vrt.ObjOp(&m.o, true, "Map.LoadAndDelete", func(*vrt.Thread) { v, ok = m.m[k]; m.del(k) })
	return
}
func (m *Map) LoadOrStore(k, v interface{}) (a interface{}, loaded bool) {
	vrt.ObjOp(&m.o, true, "Map.LoadOrStore", func(*vrt.Thread) {
		if a, loaded = m.m[k]; !loaded {
			m.set(k, v)
			a = v
		}
	})
	return
}
func (m *Map) Swap(k, v interface{}) (a interface{}, loaded bool) {
	vrt.ObjOp(&m.o, true, "Map.Swap", func(*vrt.Thread) { a, loaded = m.m[k]; m.set(k, v) })
	return
}
func (m *Map) CompareAndSwap(k, old, v interface{}) (done bool) {
	vrt.ObjOp(&m.o, true, "Map.CompareAndSwap", func(*vrt.Thread) {
		if a, ok := m.m[k]; ok && a == old {
			m.set(k, v)
			done = true
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, old interface{}) (done bool) {
	vrt.ObjOp(&m.o, true, "Map.CompareAndDelete", func(*vrt.Thread) {
		if a, ok := m.m[k]; ok && a == old {
			m.del(k)
			done = true
		}
	})
	return
}
func (m *Map) Clear() {
	vrt.ObjOp(&m.o, true, "Map.Clear", func(*vrt.Thread) { m.m, m.keys = nil, nil })
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	var keys []interface{}
	vrt.ObjOp(&m.o, false, "Map.Range", func(*vrt.Thread) { keys = append(keys, m.keys...) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
