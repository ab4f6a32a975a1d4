// Package vatomic is package sync/atomic for the controlled runtime.
package vatomic

import (
	"unsafe"

	"github.com/exascience/pargo/zz_verif/vrt"
)

func LoadInt32(p *int32) int32         { vrt.Atomic(p, true, "atomic.LoadInt32"); return *p }
func StoreInt32(p *int32, v int32)     { vrt.Atomic(p, false, "atomic.StoreInt32"); *p = v }
func AddInt32(p *int32, d int32) int32 { vrt.Atomic(p, false, "atomic.AddInt32"); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 {
	vrt.Atomic(p, false, "atomic.SwapInt32")
	o := *p
	*p = v
	return o
}
func AndInt32(p *int32, m int32) int32 {
	vrt.Atomic(p, false, "atomic.AndInt32")
	o := *p
	*p &= m
	return o
}
func OrInt32(p *int32, m int32) int32 {
	vrt.Atomic(p, false, "atomic.OrInt32")
	o := *p
	*p |= m
	return o
}
func CompareAndSwapInt32(p *int32, old, v int32) bool {
	vrt.Atomic(p, false, "atomic.CompareAndSwapInt32")
	if *p == old {
		*p = v
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                      { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                    { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32                { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32               { return SwapInt32(&x.v, v) }
func (x *Int32) And(v int32) int32                { return AndInt32(&x.v, v) }
func (x *Int32) Or(v int32) int32                 { return OrInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(old, v int32) bool { return CompareAndSwapInt32(&x.v, old, v) }

func LoadInt64(p *int64) int64         { vrt.Atomic(p, true, "atomic.LoadInt64"); return *p }
func StoreInt64(p *int64, v int64)     { vrt.Atomic(p, false, "atomic.StoreInt64"); *p = v }
func AddInt64(p *int64, d int64) int64 { vrt.Atomic(p, false, "atomic.AddInt64"); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 {
	vrt.Atomic(p, false, "atomic.SwapInt64")
	o := *p
	*p = v
	return o
}
func AndInt64(p *int64, m int64) int64 {
	vrt.Atomic(p, false, "atomic.AndInt64")
	o := *p
	*p &= m
	return o
}
func OrInt64(p *int64, m int64) int64 {
	vrt.Atomic(p, false, "atomic.OrInt64")
	o := *p
	*p |= m
	return o
}
func CompareAndSwapInt64(p *int64, old, v int64) bool {
	vrt.Atomic(p, false, "atomic.CompareAndSwapInt64")
	if *p == old {
		*p = v
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                      { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                    { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64                { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64               { return SwapInt64(&x.v, v) }
func (x *Int64) And(v int64) int64                { return AndInt64(&x.v, v) }
func (x *Int64) Or(v int64) int64                 { return OrInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(old, v int64) bool { return CompareAndSwapInt64(&x.v, old, v) }

func LoadUint32(p *uint32) uint32     { vrt.Atomic(p, true, "atomic.LoadUint32"); return *p }
func StoreUint32(p *uint32, v uint32) { vrt.Atomic(p, false, "atomic.StoreUint32"); *p = v }
func AddUint32(p *uint32, d uint32) uint32 {
	vrt.Atomic(p, false, "atomic.AddUint32")
	*p += d
	return *p
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vrt.Atomic(p, false, "atomic.SwapUint32")
	o := *p
	*p = v
	return o
}
func AndUint32(p *uint32, m uint32) uint32 {
	vrt.Atomic(p, false, "atomic.AndUint32")
	o := *p
	*p &= m
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	vrt.Atomic(p, false, "atomic.OrUint32")
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint32(p *uint32, old, v uint32) bool {
	vrt.Atomic(p, false, "atomic.CompareAndSwapUint32")
	if *p == old {
		*p = v
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                      { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                    { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32               { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32              { return SwapUint32(&x.v, v) }
func (x *Uint32) And(v uint32) uint32               { return AndUint32(&x.v, v) }
func (x *Uint32) Or(v uint32) uint32                { return OrUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(old, v uint32) bool { return CompareAndSwapUint32(&x.v, old, v) }

func LoadUint64(p *uint64) uint64     { vrt.Atomic(p, true, "atomic.LoadUint64"); return *p }
func StoreUint64(p *uint64, v uint64) { vrt.Atomic(p, false, "atomic.StoreUint64"); *p = v }
func AddUint64(p *uint64, d uint64) uint64 {
	vrt.Atomic(p, false, "atomic.AddUint64")
	*p += d
	return *p
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vrt.Atomic(p, false, "atomic.SwapUint64")
	o := *p
	*p = v
	return o
}
func AndUint64(p *uint64, m uint64) uint64 {
	vrt.Atomic(p, false, "atomic.AndUint64")
	o := *p
	*p &= m
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	vrt.Atomic(p, false, "atomic.OrUint64")
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint64(p *uint64, old, v uint64) bool {
	vrt.Atomic(p, false, "atomic.CompareAndSwapUint64")
	if *p == old {
		*p = v
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                      { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                    { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64               { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64              { return SwapUint64(&x.v, v) }
func (x *Uint64) And(v uint64) uint64               { return AndUint64(&x.v, v) }
func (x *Uint64) Or(v uint64) uint64                { return OrUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(old, v uint64) bool { return CompareAndSwapUint64(&x.v, old, v) }

func LoadUintptr(p *uintptr) uintptr     { vrt.Atomic(p, true, "atomic.LoadUintptr"); return *p }
func StoreUintptr(p *uintptr, v uintptr) { vrt.Atomic(p, false, "atomic.StoreUintptr"); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vrt.Atomic(p, false, "atomic.AddUintptr")
	*p += d
	return *p
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vrt.Atomic(p, false, "atomic.SwapUintptr")
	o := *p
	*p = v
	return o
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	vrt.Atomic(p, false, "atomic.AndUintptr")
	o := *p
	*p &= m
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	vrt.Atomic(p, false, "atomic.OrUintptr")
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUintptr(p *uintptr, old, v uintptr) bool {
	vrt.Atomic(p, false, "atomic.CompareAndSwapUintptr")
	if *p == old {
		*p = v
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                      { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                    { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr              { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr             { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(v uintptr) uintptr              { return AndUintptr(&x.v, v) }
func (x *Uintptr) Or(v uintptr) uintptr               { return OrUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(old, v uintptr) bool { return CompareAndSwapUintptr(&x.v, old, v) }

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool       { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(b bool)     { StoreUint32(&x.v, b2u(b)) }
func (x *Bool) Swap(b bool) bool { return SwapUint32(&x.v, b2u(b)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	return CompareAndSwapUint32(&x.v, b2u(o), b2u(n))
}

type Value struct{ v interface{} }

func (x *Value) Load() interface{} { vrt.Atomic(&x.v, true, "Value.Load"); return x.v }
func (x *Value) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	vrt.Atomic(&x.v, false, "Value.Store")
	x.v = v
}
func (x *Value) Swap(v interface{}) interface{} {
	vrt.Atomic(&x.v, false, "Value.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	vrt.Atomic(&x.v, false, "Value.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T   { vrt.Atomic(&x.p, true, "Pointer.Load"); return x.p }
func (x *Pointer[T]) Store(p *T) { vrt.Atomic(&x.p, false, "Pointer.Store"); x.p = p }
func (x *Pointer[T]) Swap(p *T) *T {
	vrt.Atomic(&x.p, false, "Pointer.Swap")
	o := x.p
	x.p = p
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vrt.Atomic(&x.p, false, "Pointer.CompareAndSwap")
	if x.p == o {
		x.p = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vrt.Atomic(p, true, "atomic.LoadPointer")
	return *p
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vrt.Atomic(p, false, "atomic.StorePointer")
	*p = v
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vrt.Atomic(p, false, "atomic.CompareAndSwapPointer")
	if *p == o {
		*p = n
		return true
	}
	return false
}
