// Package vrand is package math/rand with a deterministic generator.
package vrand

import "github.com/exascience/pargo/zz_verif/vrt"

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type src struct{ s uint64 }

func (x *src) Int63() int64 {
	x.s ^= x.s << 13
	x.s ^= x.s >> 7
	x.s ^= x.s << 17
	return int64(x.s >> 1)
}
func (x *src) Seed(seed int64) { x.s = uint64(seed)*2862933555777941757 + 3037000493 }

type global struct{}

func (global) Int63() int64 { return int64(vrt.Rand() >> 1) }
func (global) Seed(int64)   {}

func NewSource(seed int64) Source { s := &src{}; s.Seed(seed); return s }

type Rand struct{ s Source }

func New(s Source) *Rand { return &Rand{s} }

var g = &Rand{global{}}

func (r *Rand) Int63() int64     { return r.s.Int63() }
func (r *Rand) Int() int         { return int(r.Int63()) }
func (r *Rand) Int31() int32     { return int32(r.Int63() >> 32) }
func (r *Rand) Uint32() uint32   { return uint32(r.Int63() >> 31) }
func (r *Rand) Uint64() uint64   { return uint64(r.Int63())>>31 | uint64(r.Int63())<<32 }
func (r *Rand) Seed(s int64)     { r.s.Seed(s) }
func (r *Rand) Float64() float64 { return float64(r.Int63()>>10) / (1 << 53) }
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(r.Int63() % int64(n))
}
func (r *Rand) Int63n(n int64) int64 { return r.Int63() % n }
func (r *Rand) Int31n(n int32) int32 { return int32(r.Int63() % int64(n)) }
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := r.Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

func Seed(s int64)                    {}
func Int() int                        { return g.Int() }
func Intn(n int) int                  { return g.Intn(n) }
func Int63() int64                    { return g.Int63() }
func Int63n(n int64) int64            { return g.Int63n(n) }
func Int31() int32                    { return g.Int31() }
func Int31n(n int32) int32            { return g.Int31n(n) }
func Uint32() uint32                  { return g.Uint32() }
func Uint64() uint64                  { return g.Uint64() }
func Float64() float64                { return g.Float64() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }
