package harness

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/exascience/pargo/speculative"
	"github.com/exascience/pargo/zz_verif/vh"
)

// Ranges at the limits of int, and ranges whose size is near them.

type hugeVariant struct {
	name string
	// run returns the result in terms of the number of batches, or -1
	run func(low, high, n int, f func(lo, hi int)) int
}

func parHuge(api string, a parAPI) []hugeVariant {
	b2i := func(b bool) int {
		if b {
			return -1
		}
		return -2
	}
	return []hugeVariant{
		{api + ".Range", func(l, h, n int, f func(lo, hi int)) int { a.Range(l, h, n, f); return -1 }},
		{api + ".RangeAnd", func(l, h, n int, f func(lo, hi int)) int {
			return b2i(a.RangeAnd(l, h, n, func(l, h int) bool { f(l, h); return true }))
		}},
		{api + ".RangeOr", func(l, h, n int, f func(lo, hi int)) int {
			return b2i(!a.RangeOr(l, h, n, func(l, h int) bool { f(l, h); return false }))
		}},
		{api + ".RangeReduce", func(l, h, n int, f func(lo, hi int)) int {
			return a.RangeReduce(l, h, n, func(l, h int) interface{} { f(l, h); return 1 }, func(x, y interface{}) interface{} { return x.(int) + y.(int) }).(int)
		}},
		{api + ".RangeReduceInt", func(l, h, n int, f func(lo, hi int)) int {
			return a.RangeReduceInt(l, h, n, func(l, h int) int { f(l, h); return 1 }, func(x, y int) int { return x + y })
		}},
		{api + ".RangeReduceIntSum", func(l, h, n int, f func(lo, hi int)) int {
			return a.RangeReduceIntSum(l, h, n, func(l, h int) int { f(l, h); return 1 })
		}},
		{api + ".RangeReduceIntProduct", func(l, h, n int, f func(lo, hi int)) int {
			k := 0
			for p := a.RangeReduceIntProduct(l, h, n, func(l, h int) int { f(l, h); return 2 }); p > 1; p /= 2 {
				k++
			}
			return k
		}},
		{api + ".RangeReduceFloat64", func(l, h, n int, f func(lo, hi int)) int {
			return int(a.RangeReduceFloat64(l, h, n, func(l, h int) float64 { f(l, h); return 1 }, func(x, y float64) float64 { return x + y }))
		}},
		{api + ".RangeReduceFloat64Sum", func(l, h, n int, f func(lo, hi int)) int {
			return int(a.RangeReduceFloat64Sum(l, h, n, func(l, h int) float64 { f(l, h); return 1 }))
		}},
		{api + ".RangeReduceFloat64Product", func(l, h, n int, f func(lo, hi int)) int {
			return int(math.Log2(a.RangeReduceFloat64Product(l, h, n, func(l, h int) float64 { f(l, h); return 2 })))
		}},
		{api + ".RangeReduceString", func(l, h, n int, f func(lo, hi int)) int {
			return len(a.RangeReduceString(l, h, n, func(l, h int) string { f(l, h); return "x" }, func(x, y string) string { return x + y }))
		}},
		{api + ".RangeReduceStringSum", func(l, h, n int, f func(lo, hi int)) int {
			return len(a.RangeReduceStringSum(l, h, n, func(l, h int) string { f(l, h); return "x" }))
		}},
	}
}

func specHuge() []hugeVariant {
	b2i := func(b bool) int {
		if b {
			return -1
		}
		return -2
	}
	return []hugeVariant{
		{"speculative.Range", func(l, h, n int, f func(lo, hi int)) int {
			return b2i(!speculative.Range(l, h, n, func(l, h int) bool { f(l, h); return false }))
		}},
		{"speculative.RangeOr", func(l, h, n int, f func(lo, hi int)) int {
			return b2i(!speculative.RangeOr(l, h, n, func(l, h int) bool { f(l, h); return false }))
		}},
		{"speculative.RangeAnd", func(l, h, n int, f func(lo, hi int)) int {
			return b2i(speculative.RangeAnd(l, h, n, func(l, h int) bool { f(l, h); return true }))
		}},
		{"speculative.RangeReduce", func(l, h, n int, f func(lo, hi int)) int {
			r, _ := speculative.RangeReduce(l, h, n, func(l, h int) (interface{}, bool) { f(l, h); return 1, false }, func(x, y interface{}) (interface{}, bool) { return x.(int) + y.(int), false })
			return r.(int)
		}},
		{"speculative.RangeReduceInt", func(l, h, n int, f func(lo, hi int)) int {
			r, _ := speculative.RangeReduceInt(l, h, n, func(l, h int) (int, bool) { f(l, h); return 1, false }, func(x, y int) (int, bool) { return x + y, false })
			return r
		}},
		{"speculative.RangeReduceFloat64", func(l, h, n int, f func(lo, hi int)) int {
			r, _ := speculative.RangeReduceFloat64(l, h, n, func(l, h int) (float64, bool) { f(l, h); return 1, false }, func(x, y float64) (float64, bool) { return x + y, false })
			return int(r)
		}},
		{"speculative.RangeReduceString", func(l, h, n int, f func(lo, hi int)) int {
			r, _ := speculative.RangeReduceString(l, h, n, func(l, h int) (string, bool) { f(l, h); return "x", false }, func(x, y string) (string, bool) { return x + y, false })
			return len(r)
		}},
	}
}

func init() {
	hv := append(append(parHuge("parallel", parallelAPI), parHuge("sequential", sequentialAPI)...), specHuge()...)
	for _, v := range hv {
		v := v
		// all schedules of small ranges at the ends
		for size := 0; size <= 10; size++ {
			size := size
			for n := 1; n <= size+1 && n <= 9; n++ {
				n := n
				for _, low := range []int{math.MinInt64, math.MaxInt64 - size} {
					low := low
					reg("A05", fmt.Sprintf("%s/low=%d/size=%d/n=%d", v.name, low, size, n), func(t *vh.T) {
						s := newSlots(t, low, size)
						r := v.run(low, low+size, n, s.visit)
						b := s.check(true)
						t.Check(b <= n || size == 0, "%d batches for size %d, n %d", b, size, n)
						t.Check(r == -1 && !strings.Contains(v.name, "Reduce") || r == b, "result %d of %d batches", r, b)
						t.Outcome("%d batches", b)
					})
				}
			}
		}
		sizes := []int{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 + 3, 1<<53 + 1, 1 << 62, math.MaxInt64 - 12, math.MaxInt64 - 1, math.MaxInt64}
		for size := 1; size < 40; size++ {
			sizes = append(sizes, size)
		}
		for _, size := range sizes {
			size := size
			vh.Register(vh.Instance{Prop: "A05", Name: fmt.Sprintf("many/huge/%s/size=%d", v.name, size), Delay: 1, Strict: true, Body: func(t *vh.T) { v.check(t, size) }})
		}
	}
}

func (v hugeVariant) check(t *vh.T, size int) {
	t.Procs(3)
	lows := []int{0, math.MinInt64, math.MinInt64 + 1, -size / 2, math.MaxInt64 - size}
	if size < 40 {
		lows = []int{math.MinInt64, math.MaxInt64 - size, math.MaxInt64 - size - 2}
	}
	for _, low := range lows {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 33, size - 1, size - 2, size / 2, size, size + 1} {
			if n < 0 || n > 50 {
				continue
			}
			var mu sync.Mutex
			var bs [][2]int
			r := v.run(low, low+size, n, func(lo, hi int) {
				mu.Lock()
				bs = append(bs, [2]int{lo, hi})
				mu.Unlock()
			})
			sort.Slice(bs, func(i, j int) bool { return bs[i][0] < bs[j][0] })
			next := low
			for _, b := range bs {
				t.Check(b[0] == next && b[1] > next, "size %d, low %d, n %d: batches %v", size, low, n, bs)
				next = b[1]
			}
			max := n
			if n == 0 {
				max = 6
			}
			t.Check(next == low+size && len(bs) <= max, "size %d, low %d, n %d: batches %v", size, low, n, bs)
			t.Check(r == -1 && !strings.Contains(v.name, "Reduce") || r == len(bs), "size %d, low %d, n %d: result %d of batches %v", size, low, n, r, bs)
			t.Cases(1)
		}
	}
}
