package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

type acc struct {
	tid    int
	clk    uint32
	atomic bool
	site   string
}

type cell struct {
	w     acc
	hasW  bool
	reads []acc
}

func race(kind string, a acc, kind2 string, th *Thread, site string) {
	Fail("race", fmt.Sprintf("data race: %s at %s (g%d) is concurrent with %s at %s (g%d)", kind2, site, th.idx, kind, a.site, a.tid))
}

func onRead(p unsafe.Pointer, site string)  { onAccess(p, false, false, site) }
func onWrite(p unsafe.Pointer, site string) { onAccess(p, true, false, site) }

func onAccess(p unsafe.Pointer, write, atomic bool, site string) {
	sc := s
	th := sc.cur
	c := sc.shadow[p]
	if c == nil {
		c = &cell{}
		sc.shadow[p] = c
	}
	if c.hasW && c.w.tid != th.idx && !(atomic && c.w.atomic) && c.w.clk > th.vc.at(c.w.tid) {
		k := "read"
		if write {
			k = "write"
		}
		race("write", c.w, k, th, site)
		return
	}
	clk := th.vc[th.idx]
	if write {
		for _, r := range c.reads {
			if r.tid != th.idx && !(atomic && r.atomic) && r.clk > th.vc.at(r.tid) {
				race("read", r, "write", th, site)
				return
			}
		}
		c.w = acc{th.idx, clk, atomic, site}
		c.hasW = true
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].tid == th.idx && c.reads[i].atomic == atomic {
			c.reads[i].clk, c.reads[i].site = clk, site
			return
		}
	}
	// drop reads ordered before this one
	k := 0
	for _, r := range c.reads {
		if r.clk > th.vc.at(r.tid) {
			c.reads[k] = r
			k++
		}
	}
	c.reads = append(c.reads[:k], acc{th.idx, clk, atomic, site})
}

func on() bool { return s != nil && s.cur != nil && !s.abort }

// R logs a read of *p and returns p.
func R[T any](p *T, site string) *T {
	if p != nil && on() && unsafe.Sizeof(*p) > 0 {
		onRead(unsafe.Pointer(p), site)
	}
	return p
}

// W logs a write of *p and returns p.
func W[T any](p *T, site string) *T {
	if p != nil && on() && unsafe.Sizeof(*p) > 0 {
		onWrite(unsafe.Pointer(p), site)
	}
	return p
}

// RW logs a read and a write of *p and returns p.
func RW[T any](p *T, site string) *T {
	R(p, site)
	return W(p, site)
}

// Set returns a function that performs *p = v, logging the write after v was evaluated.
func Set[T any](p *T, site string) func(T) {
	return func(v T) { *W(p, site) = v }
}

// mapPtr returns the identity of a map.
func mapPtr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func MapR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if m != nil && on() {
		onRead(mapPtr(map[K]V(m)), site)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if m != nil && on() {
		onWrite(mapPtr(map[K]V(m)), site)
	}
	return m
}

// MapKeys returns the keys of m in a deterministic order.
func MapKeys[M ~map[K]V, K comparable, V any](m M, site string) []K {
	MapR(m, site)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		strs := make(map[K]string, len(keys))
		for _, k := range keys {
			strs[k] = fmt.Sprintf("%T/%v", interface{}(k), interface{}(k))
		}
		sort.SliceStable(keys, func(i, j int) bool {
			a, b := strs[keys[i]], strs[keys[j]]
			if len(a) != len(b) {
				return len(a) < len(b)
			}
			return a < b
		})
		if s != nil && s.mapOrder == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// SliceR / SliceW log an access to every element of a slice (copy, append of a slice).
func SliceR[S ~[]E, E any](sl S, n int, site string) S {
	if on() {
		for i := 0; i < n && i < len(sl); i++ {
			R(&sl[i], site)
		}
	}
	return sl
}

func SliceW[S ~[]E, E any](sl S, n int, site string) S {
	if on() {
		for i := 0; i < n && i < len(sl); i++ {
			W(&sl[i], site)
		}
	}
	return sl
}

// Copy is the builtin copy for slices with access logging.
func Copy[D ~[]E, S ~[]E, E any](dst D, src S, site string) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	SliceR(src, n, site)
	SliceW(dst, n, site)
	return copy(dst, src)
}

// ReflectR and ReflectW log accesses made through reflection.
func ReflectR(v reflect.Value, site string) {
	if on() && v.CanAddr() && v.Type().Size() > 0 {
		onRead(unsafe.Pointer(v.UnsafeAddr()), site)
	}
}

func ReflectW(v reflect.Value, site string) {
	if on() && v.CanAddr() && v.Type().Size() > 0 {
		onWrite(unsafe.Pointer(v.UnsafeAddr()), site)
	}
}

// ---------------------------------------------------------------- misc state for harness and shims

func GOMAXPROCS(n int) int {
	if s == nil {
		return runtime.GOMAXPROCS(n)
	}
	old := s.procs
	if n > 0 {
		s.procs = n
	}
	return old
}

func SetMapOrder(o int) {
	if s != nil {
		s.mapOrder = o
	}
}

func NumGoroutine() int {
	if s == nil {
		return runtime.NumGoroutine()
	}
	return s.live
}

func Goexit() { runtime.Goexit() }

// Now returns a strictly increasing virtual time.
func Now() int64 {
	if s == nil {
		return 0
	}
	s.clock++
	return s.clock
}

func Rand() uint64 {
	if s == nil {
		return 4
	}
	s.rngState ^= s.rngState << 13
	s.rngState ^= s.rngState >> 7
	s.rngState ^= s.rngState << 17
	return s.rngState
}

func AllowLeak() { s.leakOK = true }

// Final registers a function that runs after all threads ended in a complete execution.
func Final(f func()) { s.finals = append(s.finals, f) }

// FailFinal reports a violation from a Final function.
func FailFinal(kind, msg string) { s.fail(kind, msg) }

// ---------------------------------------------------------------- history events

type invOp struct{}

func (*invOp) Alts(*Thread) int { return 1 }
func (*invOp) Name() string     { return "invoke" }
func (*invOp) Exec(th *Thread, _ int) {
	// depends on all returns so far; invocations commute
	th.h = mix(mix(th.h, 0x1a), s.histB)
	s.histA += mix(th.h, 3)
	s.stamp++
}

// Inv marks an operation invocation and returns its time stamp.
func Inv() int64 {
	doOp(&invOp{})
	return s.stamp
}

// Ret marks an operation return and returns its time stamp.
func Ret() int64 {
	if s.abort {
		return 0
	}
	th := s.cur
	th.h = mix(mix(th.h, 0x1b), s.histA)
	s.histB += mix(th.h, 5)
	s.stamp++
	return s.stamp
}

// Observe mixes a value that influences control flow outside of the hash into the history.
func Observe(v uint64) {
	if s != nil && s.cur != nil && !s.abort {
		s.cur.ev(0x33, v)
	}
}
