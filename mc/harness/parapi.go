package harness

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/zz_verif/vh"
)

// parAPI is the common signature of packages parallel and sequential.
type parAPI struct {
	Reduce                    func(join func(x, y interface{}) interface{}, f func() interface{}, fs ...func() interface{}) interface{}
	ReduceFloat64             func(join func(x, y float64) float64, f func() float64, fs ...func() float64) float64
	ReduceFloat64Sum          func(fs ...func() float64) float64
	ReduceFloat64Product      func(fs ...func() float64) float64
	ReduceInt                 func(join func(x, y int) int, f func() int, fs ...func() int) int
	ReduceIntSum              func(fs ...func() int) int
	ReduceIntProduct          func(fs ...func() int) int
	ReduceString              func(join func(x, y string) string, f func() string, fs ...func() string) string
	ReduceStringSum           func(fs ...func() string) string
	Do                        func(fs ...func())
	And                       func(fs ...func() bool) bool
	Or                        func(fs ...func() bool) bool
	Range                     func(low, high, n int, f func(low, high int))
	RangeAnd                  func(low, high, n int, f func(low, high int) bool) bool
	RangeOr                   func(low, high, n int, f func(low, high int) bool) bool
	RangeReduce               func(low, high, n int, r func(low, high int) interface{}, join func(x, y interface{}) interface{}) interface{}
	RangeReduceInt            func(low, high, n int, r func(low, high int) int, join func(x, y int) int) int
	RangeReduceIntSum         func(low, high, n int, r func(low, high int) int) int
	RangeReduceIntProduct     func(low, high, n int, r func(low, high int) int) int
	RangeReduceFloat64        func(low, high, n int, r func(low, high int) float64, join func(x, y float64) float64) float64
	RangeReduceFloat64Sum     func(low, high, n int, r func(low, high int) float64) float64
	RangeReduceFloat64Product func(low, high, n int, r func(low, high int) float64) float64
	RangeReduceString         func(low, high, n int, r func(low, high int) string, join func(x, y string) string) string
	RangeReduceStringSum      func(low, high, n int, r func(low, high int) string) string
}

var parallelAPI = parAPI{
	parallel.Reduce, parallel.ReduceFloat64, parallel.ReduceFloat64Sum, parallel.ReduceFloat64Product,
	parallel.ReduceInt, parallel.ReduceIntSum, parallel.ReduceIntProduct, parallel.ReduceString, parallel.ReduceStringSum,
	parallel.Do, parallel.And, parallel.Or, parallel.Range, parallel.RangeAnd, parallel.RangeOr,
	parallel.RangeReduce, parallel.RangeReduceInt, parallel.RangeReduceIntSum, parallel.RangeReduceIntProduct,
	parallel.RangeReduceFloat64, parallel.RangeReduceFloat64Sum, parallel.RangeReduceFloat64Product,
	parallel.RangeReduceString, parallel.RangeReduceStringSum,
}

var sequentialAPI = parAPI{
	sequential.Reduce, sequential.ReduceFloat64, sequential.ReduceFloat64Sum, sequential.ReduceFloat64Product,
	sequential.ReduceInt, sequential.ReduceIntSum, sequential.ReduceIntProduct, sequential.ReduceString, sequential.ReduceStringSum,
	sequential.Do, sequential.And, sequential.Or, sequential.Range, sequential.RangeAnd, sequential.RangeOr,
	sequential.RangeReduce, sequential.RangeReduceInt, sequential.RangeReduceIntSum, sequential.RangeReduceIntProduct,
	sequential.RangeReduceFloat64, sequential.RangeReduceFloat64Sum, sequential.RangeReduceFloat64Product,
	sequential.RangeReduceString, sequential.RangeReduceStringSum,
}

// call is one invocation of a function of the API. Function i of n stands for the
// interval [i, i+1); a batch stands for the interval it covers.
type call struct {
	t         *vh.T
	n         int // number of functions
	low, high int // range
	nb        int // number of batches
	leaf      func(lo, hi int)
	pred      []bool      // value of predicate i (by offset from low)
	join      func(m int) // called when the parts left and right of m are joined
	procs     int         // GOMAXPROCS for split-wise functions (0: number of splits)
	post      func()      // to be done when the call has ended
	zero      *ival       // the interval represented by the zero value (0, "", nil)
	w         []int       // what is summed up or multiplied, by offset from low
	same      int         // if not 0, all functions and joins return the same value: the zero value (1) or another one (see sameI ...)
}

func (c *call) gomaxprocs() int {
	if c.procs > 0 {
		return c.procs
	}
	return c.n
}

func (c *call) finish() {
	if c.post != nil {
		c.post()
	}
}

func (c *call) do(lo, hi int) {
	if c.leaf != nil {
		c.leaf(lo, hi)
	}
}

// interval values: a join is defined on adjacent intervals only

type ival struct{ lo, hi int }

// sameVal stands for what all functions and joins return
var sameVal = ival{-7, -7}

func (c *call) glue(x, y ival) ival {
	if c.same != 0 {
		if x != sameVal || y != sameVal {
			c.t.Failf("join called with values no function returned")
		}
		c.join(0)
		return sameVal
	}
	if x.hi != y.lo || x.lo > x.hi || y.lo > y.hi {
		c.t.Failf("join called with [%d,%d) and [%d,%d)", x.lo, x.hi, y.lo, y.hi)
	}
	if c.join != nil {
		c.join(x.hi)
	}
	return ival{x.lo, y.hi}
}

const ibase = 1 << 20

func (c *call) isZero(v ival) bool { return c.zero != nil && v == *c.zero }

// special values of all types
const sameKinds = 6

func sameI(k int) int {
	return []int{0, 42, -1, math.MaxInt64, math.MinInt64, 1}[k-1]
}

func sameF(k int) float64 {
	return []float64{0, 4.25, math.NaN(), math.Inf(1), math.Copysign(0, -1), math.Inf(-1)}[k-1]
}

func eqF(x, y float64) bool { return math.Float64bits(x) == math.Float64bits(y) }

func sameS(k int) string {
	return []string{"", "same", "\x00", " ", strings.Repeat("long", 1000), "\xff"}[k-1]
}

func sameV(k int) interface{} {
	return []interface{}{nil, "same", (*int)(nil), []int{1}, map[int]int(nil), false}[k-1]
}

func (c *call) encI(v ival) int {
	if c.same != 0 {
		return sameI(c.same)
	}
	if c.isZero(v) {
		return 0
	}
	return (v.lo-c.low)*ibase + (v.hi - c.low) + 7*ibase*ibase
}

func (c *call) decI(x int) ival {
	if c.same != 0 {
		if x != c.encI(sameVal) {
			c.t.Failf("a value no function returned: %v", x)
		}
		return sameVal
	}
	if x == 0 && c.zero != nil {
		return *c.zero
	}
	x -= 7 * ibase * ibase
	if x < 0 || x/ibase >= ibase {
		c.t.Failf("join called with a value no function returned: %d", x)
	}
	return ival{x/ibase + c.low, x%ibase + c.low}
}

func (c *call) encF(v ival) float64 {
	if c.same != 0 {
		return sameF(c.same)
	}
	if c.isZero(v) {
		return 0
	}
	return float64((v.lo-c.low)*4096+(v.hi-c.low)) + 0.5
}

func (c *call) decF(x float64) ival {
	if c.same != 0 {
		if !eqF(x, c.encF(sameVal)) {
			c.t.Failf("a value no function returned: %v", x)
		}
		return sameVal
	}
	if x == 0 && c.zero != nil {
		return *c.zero
	}
	y := int(x - 0.5)
	if float64(y)+0.5 != x || y < 0 {
		c.t.Failf("join called with a value no function returned: %v", x)
	}
	return ival{y/4096 + c.low, y%4096 + c.low}
}

func encS(v ival) string { return fmt.Sprintf("%d:%d", v.lo, v.hi) }

func (c *call) encS(v ival) string {
	if c.same != 0 {
		return sameS(c.same)
	}
	if c.isZero(v) {
		return ""
	}
	return encS(v)
}

func (c *call) encV(v ival) interface{} {
	if c.same != 0 {
		return sameV(c.same)
	}
	if c.isZero(v) {
		return nil
	}
	return v
}

func (c *call) decV(x interface{}) ival {
	if c.same != 0 {
		if !reflect.DeepEqual(x, c.encV(sameVal)) {
			c.t.Failf("a value no function returned: %v", x)
		}
		return sameVal
	}
	if x == nil && c.zero != nil {
		return *c.zero
	}
	v, ok := x.(ival)
	if !ok {
		c.t.Failf("a value no function returned: %v", x)
	}
	return v
}

func (c *call) decS(s string) ival {
	if c.same != 0 {
		if s != c.encS(sameVal) {
			c.t.Failf("a value no function returned: %v", s)
		}
		return sameVal
	}
	if s == "" && c.zero != nil {
		return *c.zero
	}
	k := strings.Index(s, ":")
	if k < 0 {
		c.t.Failf("join called with a value no function returned: %q", s)
	}
	a, e1 := strconv.Atoi(s[:k])
	b, e2 := strconv.Atoi(s[k+1:])
	if e1 != nil || e2 != nil {
		c.t.Failf("join called with a value no function returned: %q", s)
	}
	return ival{a, b}
}

func (c *call) addend(x int) int {
	if c.w != nil {
		return c.w[x-c.low]
	}
	return 1 << (uint(x-c.low) % 62)
}

func (c *call) factor(x int) int {
	if c.w != nil {
		return c.w[x-c.low]
	}
	return primes[(x-c.low)%len(primes)]
}

func (c *call) sumI(lo, hi int) (r int) {
	for x := lo; x < hi; x++ {
		r += c.addend(x)
	}
	return
}

func (c *call) prodI(lo, hi int) int {
	r := 1
	for x := lo; x < hi; x++ {
		r *= c.factor(x)
	}
	return r
}

// special floating point numbers are written as big integers
const wInf, wNinf, wNaN = 100, 101, 102

func specialF(x int) float64 {
	switch x {
	case wInf:
		return math.Inf(1)
	case wNinf:
		return math.Inf(-1)
	case wNaN:
		return math.NaN()
	}
	return float64(x)
}

func (c *call) sumF(lo, hi int) (r float64) {
	if c.w == nil {
		return float64(c.sumI(lo, hi))
	}
	for x := lo; x < hi; x++ {
		r += specialF(c.w[x-c.low])
	}
	return
}

func (c *call) prodF(lo, hi int) float64 {
	if c.w == nil {
		return float64(c.prodI(lo, hi))
	}
	r := 1.0
	for x := lo; x < hi; x++ {
		r *= specialF(c.w[x-c.low])
	}
	return r
}

func fmtF(x float64) string {
	if x == 0 {
		x = 0
	}
	return fmt.Sprintf("%.0f", x)
}

func (c *call) letters(lo, hi int) (s string) {
	for x := lo; x < hi; x++ {
		if c.w == nil || c.w[x-c.low] != 0 {
			s += string(rune('a' + x - c.low))
		}
	}
	return
}

func (c *call) all(lo, hi int) bool {
	for x := lo; x < hi; x++ {
		if !c.pred[x-c.low] {
			return false
		}
	}
	return true
}

func (c *call) any(lo, hi int) bool {
	for x := lo; x < hi; x++ {
		if c.pred[x-c.low] {
			return true
		}
	}
	return false
}

type variant struct {
	name   string
	ranged bool
	min    int  // least number of functions
	kind   byte // 'd' do, '&', '|', 'j' join, 's' sum or product
	run    func(c *call) string
	want   func(c *call) string
}

func (v *variant) max() int { return 13 }

func variants(a parAPI) []*variant {
	whole := func(c *call) string { return encS(ival{c.low, c.high}) }
	fnsI := func(c *call, f func(lo, hi int) int) (r []func() int) {
		for i := 0; i < c.n; i++ {
			i := i
			r = append(r, func() int { c.do(i, i+1); return f(i, i+1) })
		}
		return
	}
	fnsF := func(c *call, f func(lo, hi int) float64) (r []func() float64) {
		for i := 0; i < c.n; i++ {
			i := i
			r = append(r, func() float64 { c.do(i, i+1); return f(i, i+1) })
		}
		return
	}
	fnsS := func(c *call, f func(lo, hi int) string) (r []func() string) {
		for i := 0; i < c.n; i++ {
			i := i
			r = append(r, func() string { c.do(i, i+1); return f(i, i+1) })
		}
		return
	}
	fnsB := func(c *call) (r []func() bool) {
		for i := 0; i < c.n; i++ {
			i := i
			r = append(r, func() bool { c.do(i, i+1); return c.pred[i] })
		}
		return
	}
	joinI := func(c *call) func(x, y int) int {
		return func(x, y int) int { return c.encI(c.glue(c.decI(x), c.decI(y))) }
	}
	joinF := func(c *call) func(x, y float64) float64 {
		return func(x, y float64) float64 { return c.encF(c.glue(c.decF(x), c.decF(y))) }
	}
	joinS := func(c *call) func(x, y string) string {
		return func(x, y string) string { return c.encS(c.glue(c.decS(x), c.decS(y))) }
	}
	joinV := func(c *call) func(x, y interface{}) interface{} {
		return func(x, y interface{}) interface{} {
			return c.encV(c.glue(c.decV(x), c.decV(y)))
		}
	}
	vs := []*variant{
		{"Reduce", false, 1, 'j', func(c *call) string {
			var fs []func() interface{}
			for i := 0; i < c.n; i++ {
				i := i
				fs = append(fs, func() interface{} { c.do(i, i+1); return c.encV(ival{i, i + 1}) })
			}
			return encS(c.decV(a.Reduce(joinV(c), fs[0], fs[1:]...)))
		}, whole},
		{"ReduceFloat64", false, 1, 'j', func(c *call) string {
			fs := fnsF(c, func(lo, hi int) float64 { return c.encF(ival{lo, hi}) })
			return encS(c.decF(a.ReduceFloat64(joinF(c), fs[0], fs[1:]...)))
		}, whole},
		{"ReduceInt", false, 1, 'j', func(c *call) string {
			fs := fnsI(c, func(lo, hi int) int { return c.encI(ival{lo, hi}) })
			return encS(c.decI(a.ReduceInt(joinI(c), fs[0], fs[1:]...)))
		}, whole},
		{"ReduceString", false, 1, 'j', func(c *call) string {
			fs := fnsS(c, func(lo, hi int) string { return c.encS(ival{lo, hi}) })
			return encS(c.decS(a.ReduceString(joinS(c), fs[0], fs[1:]...)))
		}, whole},
		{"ReduceFloat64Sum", false, 0, 's', func(c *call) string {
			return fmtF(a.ReduceFloat64Sum(fnsF(c, c.sumF)...))
		}, func(c *call) string { return fmtF(c.sumF(c.low, c.high)) }},
		{"ReduceIntSum", false, 0, 's', func(c *call) string {
			return fmt.Sprint(a.ReduceIntSum(fnsI(c, c.sumI)...))
		}, func(c *call) string { return fmt.Sprint(c.sumI(c.low, c.high)) }},
		{"ReduceFloat64Product", false, 0, 's', func(c *call) string {
			return fmtF(a.ReduceFloat64Product(fnsF(c, c.prodF)...))
		}, func(c *call) string { return fmtF(c.prodF(c.low, c.high)) }},
		{"ReduceIntProduct", false, 0, 's', func(c *call) string {
			return fmt.Sprint(a.ReduceIntProduct(fnsI(c, c.prodI)...))
		}, func(c *call) string { return fmt.Sprint(c.prodI(c.low, c.high)) }},
		{"ReduceStringSum", false, 0, 's', func(c *call) string {
			return a.ReduceStringSum(fnsS(c, c.letters)...)
		}, func(c *call) string { return c.letters(c.low, c.high) }},
		{"Do", false, 0, 'd', func(c *call) string {
			var fs []func()
			for i := 0; i < c.n; i++ {
				i := i
				fs = append(fs, func() { c.do(i, i+1) })
			}
			a.Do(fs...)
			return ""
		}, func(c *call) string { return "" }},
		{"And", false, 0, '&', func(c *call) string { return fmt.Sprint(a.And(fnsB(c)...)) },
			func(c *call) string { return fmt.Sprint(c.all(c.low, c.high)) }},
		{"Or", false, 0, '|', func(c *call) string { return fmt.Sprint(a.Or(fnsB(c)...)) },
			func(c *call) string { return fmt.Sprint(c.any(c.low, c.high)) }},

		{"Range", true, 0, 'd', func(c *call) string {
			a.Range(c.low, c.high, c.nb, func(lo, hi int) { c.do(lo, hi) })
			return ""
		}, func(c *call) string { return "" }},
		{"RangeAnd", true, 0, '&', func(c *call) string {
			return fmt.Sprint(a.RangeAnd(c.low, c.high, c.nb, func(lo, hi int) bool { c.do(lo, hi); return c.all(lo, hi) }))
		}, func(c *call) string { return fmt.Sprint(c.all(c.low, c.high)) }},
		{"RangeOr", true, 0, '|', func(c *call) string {
			return fmt.Sprint(a.RangeOr(c.low, c.high, c.nb, func(lo, hi int) bool { c.do(lo, hi); return c.any(lo, hi) }))
		}, func(c *call) string { return fmt.Sprint(c.any(c.low, c.high)) }},
		{"RangeReduce", true, 0, 'j', func(c *call) string {
			return encS(c.decV(a.RangeReduce(c.low, c.high, c.nb, func(lo, hi int) interface{} { c.do(lo, hi); return c.encV(ival{lo, hi}) }, joinV(c))))
		}, whole},
		{"RangeReduceInt", true, 0, 'j', func(c *call) string {
			return encS(c.decI(a.RangeReduceInt(c.low, c.high, c.nb, func(lo, hi int) int { c.do(lo, hi); return c.encI(ival{lo, hi}) }, joinI(c))))
		}, whole},
		{"RangeReduceFloat64", true, 0, 'j', func(c *call) string {
			return encS(c.decF(a.RangeReduceFloat64(c.low, c.high, c.nb, func(lo, hi int) float64 { c.do(lo, hi); return c.encF(ival{lo, hi}) }, joinF(c))))
		}, whole},
		{"RangeReduceString", true, 0, 'j', func(c *call) string {
			return encS(c.decS(a.RangeReduceString(c.low, c.high, c.nb, func(lo, hi int) string { c.do(lo, hi); return c.encS(ival{lo, hi}) }, joinS(c))))
		}, whole},
		{"RangeReduceIntSum", true, 0, 's', func(c *call) string {
			return fmt.Sprint(a.RangeReduceIntSum(c.low, c.high, c.nb, func(lo, hi int) int { c.do(lo, hi); return c.sumI(lo, hi) }))
		}, func(c *call) string { return fmt.Sprint(c.sumI(c.low, c.high)) }},
		{"RangeReduceIntProduct", true, 0, 's', func(c *call) string {
			return fmt.Sprint(a.RangeReduceIntProduct(c.low, c.high, c.nb, func(lo, hi int) int { c.do(lo, hi); return c.prodI(lo, hi) }))
		}, func(c *call) string { return fmt.Sprint(c.prodI(c.low, c.high)) }},
		{"RangeReduceFloat64Sum", true, 0, 's', func(c *call) string {
			return fmtF(a.RangeReduceFloat64Sum(c.low, c.high, c.nb, func(lo, hi int) float64 { c.do(lo, hi); return c.sumF(lo, hi) }))
		}, func(c *call) string { return fmtF(c.sumF(c.low, c.high)) }},
		{"RangeReduceFloat64Product", true, 0, 's', func(c *call) string {
			return fmtF(a.RangeReduceFloat64Product(c.low, c.high, c.nb, func(lo, hi int) float64 { c.do(lo, hi); return c.prodF(lo, hi) }))
		}, func(c *call) string { return fmtF(c.prodF(c.low, c.high)) }},
		{"RangeReduceStringSum", true, 0, 's', func(c *call) string {
			return a.RangeReduceStringSum(c.low, c.high, c.nb, func(lo, hi int) string { c.do(lo, hi); return c.letters(lo, hi) })
		}, func(c *call) string { return c.letters(c.low, c.high) }},
	}
	return vs
}

// setup makes c a call of v with n functions, or a range of size n in nb batches.
func (v *variant) setup(t *vh.T, n, low, nb int) *call {
	c := &call{t: t, n: n, nb: nb}
	if v.ranged {
		c.low = low
		c.high = low + n
	} else {
		c.high = n
	}
	c.pred = make([]bool, n)
	for i := range c.pred {
		c.pred[i] = v.kind == '&'
	}
	return c
}

// slots counts invocations by element; reading and writing them is race checked.
type slots struct {
	t     *vh.T
	low   int
	n     []int
	start []int // end of the batch that starts here
	empty int
}

func newSlots(t *vh.T, low, size int) *slots {
	s := &slots{t: t, low: low, n: make([]int, size), start: make([]int, size)}
	return s
}

func (s *slots) visit(lo, hi int) {
	if lo > hi || lo < s.low || hi > s.low+len(s.n) {
		s.t.Failf("batch [%d,%d) is not in the range [%d,%d)", lo, hi, s.low, s.low+len(s.n))
	}
	if lo == hi {
		s.empty++
		if len(s.n) > 0 {
			s.t.Failf("empty batch [%d,%d) for the range [%d,%d)", lo, hi, s.low, s.low+len(s.n))
		}
		return
	}
	for x := lo; x < hi; x++ {
		s.n[x-s.low]++
	}
	s.start[lo-s.low] = hi
}

// check: every element exactly once; returns the number of batches.
func (s *slots) check(ranged bool) int {
	for i, k := range s.n {
		if k != 1 {
			s.t.Failf("element %d of [%d,%d) was covered by %d batches", i+s.low, s.low, s.low+len(s.n), k)
		}
	}
	if len(s.n) == 0 {
		if ranged && s.empty != 1 {
			s.t.Failf("an empty range yields %d batches", s.empty)
		}
		return s.empty
	}
	b := 0
	for x := 0; x < len(s.n); {
		e := s.start[x]
		if e <= s.low+x {
			s.t.Failf("no batch starts at %d", x+s.low)
		}
		x = e - s.low
		b++
	}
	return b
}
