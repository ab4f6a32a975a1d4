package harness

import (
	"fmt"
	"reflect"
	"sync"

	"github.com/exascience/pargo/speculative"
	"github.com/exascience/pargo/zz_verif/vh"
)

// scall is one invocation of a function of package speculative. ev performs function
// i = [i, i+1) or a batch and says what it reports: 'N' neutral, 'D' decisive.
type scall struct {
	t         *vh.T
	n         int
	low, high int
	nb        int
	ev        func(lo, hi int) byte
	join      func(m int) byte // 'N', or 'D': the join is decisive
	procs     int              // GOMAXPROCS for split-wise functions (0: number of splits)
	post      func()           // to be done when the call has ended and everything may run
	zero      *sval            // what the zero value (0, "", nil) stands for
	same      int              // if not 0, all functions and joins return the same value: the zero value (1) or another one (see sameI ...)
}

func (c *scall) gomaxprocs() int {
	if c.procs > 0 {
		return c.procs
	}
	return c.n
}

func (c *scall) finish() {
	if c.post != nil {
		c.post()
	}
}

type svariant struct {
	name     string
	ranged   bool
	min      int
	kind     byte // 'd' (true decides), 'a' (false decides), 'j'
	run      func(c *scall) string
	neutral  string
	decisive func(c *scall, lo, hi int) string // result if [lo,hi) decides
}

type sval struct {
	lo, hi int
	dec    bool
}

// sameSval stands for what all functions and joins return
var sameSval = sval{-7, -7, false}

func (c *scall) glue(x, y sval) (sval, bool) {
	if c.same != 0 {
		if x != sameSval || y != sameSval {
			c.t.Failf("join called with values no function returned: %v, %v", x, y)
		}
		return sameSval, c.join(0) == 'D'
	}
	if x.dec || y.dec {
		c.t.Failf("join called with a decisive value: %v, %v", x, y)
	}
	if x.hi != y.lo || x.lo > x.hi || y.lo > y.hi {
		c.t.Failf("join called with [%d,%d) and [%d,%d)", x.lo, x.hi, y.lo, y.hi)
	}
	if c.join != nil && c.join(x.hi) == 'D' {
		return sval{x.hi, x.hi, true}, true
	}
	return sval{x.lo, y.hi, false}, false
}

func (v sval) String() string {
	if v.dec {
		return fmt.Sprintf("decided by %d:%d", v.lo, v.hi)
	}
	return fmt.Sprintf("%d:%d", v.lo, v.hi)
}

const sbase = 1 << 12

func (c *scall) encI(v sval) int {
	if c.same != 0 {
		return sameI(c.same)
	}
	if c.zero != nil && v == *c.zero {
		return 0
	}
	r := (v.lo-c.low)*sbase + (v.hi - c.low) + 3*sbase*sbase
	if v.dec {
		r += sbase * sbase
	}
	return r
}

func (c *scall) decI(x int) sval {
	if c.same != 0 {
		if x != c.encI(sameSval) {
			c.t.Failf("a value no function returned: %d", x)
		}
		return sameSval
	}
	if x == 0 && c.zero != nil {
		return *c.zero
	}
	x -= 3 * sbase * sbase
	if x < 0 || x >= 2*sbase*sbase {
		return sval{-99, -99, false}
	}
	d := x >= sbase*sbase
	x %= sbase * sbase
	return sval{x/sbase + c.low, x%sbase + c.low, d}
}

func (c *scall) encF(v sval) float64 {
	if c.same != 0 {
		return sameF(c.same)
	}
	return float64(c.encI(v))
}

func (c *scall) decF(x float64) sval {
	if c.same != 0 {
		if !eqF(x, sameF(c.same)) {
			c.t.Failf("a value no function returned: %v", x)
		}
		return sameSval
	}
	return c.decI(int(x))
}

func (c *scall) encS(v sval) string {
	if c.same != 0 {
		return sameS(c.same)
	}
	if x := c.encI(v); x != 0 {
		return fmt.Sprintf("s%d", x)
	}
	return ""
}

func (c *scall) decS(s string) sval {
	if c.same != 0 {
		if s != sameS(c.same) {
			c.t.Failf("a value no function returned: %q", s)
		}
		return sameSval
	}
	x := 0
	if s != "" {
		if n, _ := fmt.Sscanf(s, "s%d", &x); n != 1 {
			return sval{-99, -99, false}
		}
	}
	return c.decI(x)
}

func (c *scall) encV(v sval) interface{} {
	if c.same != 0 {
		return sameV(c.same)
	}
	if c.zero != nil && v == *c.zero {
		return nil
	}
	return v
}

func (c *scall) decV(x interface{}) sval {
	if c.same != 0 {
		if !reflect.DeepEqual(x, c.encV(sameSval)) {
			c.t.Failf("a value no function returned: %v", x)
		}
		return sameSval
	}
	if x == nil && c.zero != nil {
		return *c.zero
	}
	v, ok := x.(sval)
	if !ok {
		return sval{-99, -99, false}
	}
	return v
}

func specVariants() []*svariant {
	fnsB := func(c *scall, onD bool) (r []func() bool) {
		for i := 0; i < c.n; i++ {
			i := i
			r = append(r, func() bool { return (c.ev(i, i+1) == 'D') == onD })
		}
		return
	}
	leaf := func(c *scall, lo, hi int) sval { return sval{lo, hi, c.ev(lo, hi) == 'D'} }
	res := func(v sval, b bool) string { return fmt.Sprintf("%v,%v", v, b) }
	jdec := func(c *scall, lo, hi int) string { return res(sval{lo, hi, true}, true) }
	joinV := func(c *scall) func(x, y interface{}) (interface{}, bool) {
		return func(x, y interface{}) (interface{}, bool) {
			v, b := c.glue(c.decV(x), c.decV(y))
			return c.encV(v), b
		}
	}
	joinI := func(c *scall) func(x, y int) (int, bool) {
		return func(x, y int) (int, bool) {
			v, b := c.glue(c.decI(x), c.decI(y))
			return c.encI(v), b
		}
	}
	joinF := func(c *scall) func(x, y float64) (float64, bool) {
		return func(x, y float64) (float64, bool) {
			v, b := c.glue(c.decF(x), c.decF(y))
			return c.encF(v), b
		}
	}
	joinS := func(c *scall) func(x, y string) (string, bool) {
		return func(x, y string) (string, bool) {
			v, b := c.glue(c.decS(x), c.decS(y))
			return c.encS(v), b
		}
	}
	yes := func(*scall, int, int) string { return "true" }
	no := func(*scall, int, int) string { return "false" }
	return []*svariant{
		{"Reduce", false, 1, 'j', func(c *scall) string {
			var fs []func() (interface{}, bool)
			for i := 0; i < c.n; i++ {
				i := i
				fs = append(fs, func() (interface{}, bool) { v := leaf(c, i, i+1); return c.encV(v), v.dec })
			}
			r, b := speculative.Reduce(joinV(c), fs[0], fs[1:]...)
			return res(c.decV(r), b)
		}, "", jdec},
		{"ReduceInt", false, 1, 'j', func(c *scall) string {
			var fs []func() (int, bool)
			for i := 0; i < c.n; i++ {
				i := i
				fs = append(fs, func() (int, bool) { v := leaf(c, i, i+1); return c.encI(v), v.dec })
			}
			r, b := speculative.ReduceInt(joinI(c), fs[0], fs[1:]...)
			return res(c.decI(r), b)
		}, "", jdec},
		{"ReduceFloat64", false, 1, 'j', func(c *scall) string {
			var fs []func() (float64, bool)
			for i := 0; i < c.n; i++ {
				i := i
				fs = append(fs, func() (float64, bool) { v := leaf(c, i, i+1); return c.encF(v), v.dec })
			}
			r, b := speculative.ReduceFloat64(joinF(c), fs[0], fs[1:]...)
			return res(c.decF(r), b)
		}, "", jdec},
		{"ReduceString", false, 1, 'j', func(c *scall) string {
			var fs []func() (string, bool)
			for i := 0; i < c.n; i++ {
				i := i
				fs = append(fs, func() (string, bool) { v := leaf(c, i, i+1); return c.encS(v), v.dec })
			}
			r, b := speculative.ReduceString(joinS(c), fs[0], fs[1:]...)
			return res(c.decS(r), b)
		}, "", jdec},
		{"Do", false, 0, 'd', func(c *scall) string { return fmt.Sprint(speculative.Do(fnsB(c, true)...)) }, "false", yes},
		{"Or", false, 0, 'd', func(c *scall) string { return fmt.Sprint(speculative.Or(fnsB(c, true)...)) }, "false", yes},
		{"And", false, 0, 'a', func(c *scall) string { return fmt.Sprint(speculative.And(fnsB(c, false)...)) }, "true", no},
		{"Range", true, 0, 'd', func(c *scall) string {
			return fmt.Sprint(speculative.Range(c.low, c.high, c.nb, func(lo, hi int) bool { return c.ev(lo, hi) == 'D' }))
		}, "false", yes},
		{"RangeOr", true, 0, 'd', func(c *scall) string {
			return fmt.Sprint(speculative.RangeOr(c.low, c.high, c.nb, func(lo, hi int) bool { return c.ev(lo, hi) == 'D' }))
		}, "false", yes},
		{"RangeAnd", true, 0, 'a', func(c *scall) string {
			return fmt.Sprint(speculative.RangeAnd(c.low, c.high, c.nb, func(lo, hi int) bool { return c.ev(lo, hi) != 'D' }))
		}, "true", no},
		{"RangeReduce", true, 0, 'j', func(c *scall) string {
			r, b := speculative.RangeReduce(c.low, c.high, c.nb, func(lo, hi int) (interface{}, bool) { v := leaf(c, lo, hi); return c.encV(v), v.dec }, joinV(c))
			return res(c.decV(r), b)
		}, "", jdec},
		{"RangeReduceInt", true, 0, 'j', func(c *scall) string {
			r, b := speculative.RangeReduceInt(c.low, c.high, c.nb, func(lo, hi int) (int, bool) { v := leaf(c, lo, hi); return c.encI(v), v.dec }, joinI(c))
			return res(c.decI(r), b)
		}, "", jdec},
		{"RangeReduceFloat64", true, 0, 'j', func(c *scall) string {
			r, b := speculative.RangeReduceFloat64(c.low, c.high, c.nb, func(lo, hi int) (float64, bool) { v := leaf(c, lo, hi); return c.encF(v), v.dec }, joinF(c))
			return res(c.decF(r), b)
		}, "", jdec},
		{"RangeReduceString", true, 0, 'j', func(c *scall) string {
			r, b := speculative.RangeReduceString(c.low, c.high, c.nb, func(lo, hi int) (string, bool) { v := leaf(c, lo, hi); return c.encS(v), v.dec }, joinS(c))
			return res(c.decS(r), b)
		}, "", jdec},
	}
}

func (v *svariant) setup(t *vh.T, n, low, nb int) *scall {
	c := &scall{t: t, n: n, nb: nb, low: 0, high: n}
	if v.ranged {
		c.low, c.high = low, low+n
	}
	return c
}

// all-neutral result
func (v *svariant) fold(c *scall) string {
	if v.kind == 'j' {
		return fmt.Sprintf("%v,false", sval{c.low, c.high, false})
	}
	return v.neutral
}

// check: what a call returned given that [lo,hi) decided (lo < 0, decided false: nothing)
func (v *svariant) check(c *scall, got string, lo, hi int) {
	v.check2(c, got, lo >= 0, lo, hi)
}

func (v *svariant) check2(c *scall, got string, decided bool, lo, hi int) {
	want := ""
	if !decided {
		want = v.fold(c)
	} else {
		want = v.decisive(c, lo, hi)
	}
	if got != want {
		c.t.Failf("%s returned %q instead of %q", v.name, got, want)
	}
}

func first(w string, set string) int {
	for i := 0; i < len(w); i++ {
		for k := 0; k < len(set); k++ {
			if w[i] == set[k] {
				return i
			}
		}
	}
	return -1
}

func init() {
	vs := specVariants()
	b01("B01", vs)
	szeros("B01", vs)
	szeros("B02", vs)
	ssames("B01", vs)
	ssames("B02", vs)
	b02("B02", vs)
	b03("B03", vs)
}

func b01(prop string, vs []*svariant) {
	for _, v := range vs {
		v := v
		for n := v.min; n <= 7; n++ {
			n := n
			vectors("ND", n, func(w string) {
				reg(prop, fmt.Sprintf("%s/%s", v.name, w), func(t *vh.T) {
					c := v.setup(t, n, 0, n)
					c.ev = func(lo, hi int) byte {
						if lo == hi {
							return 'N'
						}
						return w[lo]
					}
					got := v.run(c)
					k := first(w, "D")
					v.check(c, got, k, k+1)
					t.Outcome("%s", got)
				})
				if n <= 4 {
					reg(prop, fmt.Sprintf("%s/%s/yield", v.name, w), func(t *vh.T) {
						c := v.setup(t, n, 0, n)
						c.ev = func(lo, hi int) byte {
							t.Yield()
							if lo == hi {
								return 'N'
							}
							return w[lo]
						}
						got := v.run(c)
						k := first(w, "D")
						v.check(c, got, k, k+1)
						t.Outcome("%s", got)
					})
				}
				if !v.ranged {
					return
				}
				// fewer and more batches than elements, other offsets
				for _, nb := range []int{0, 1, 2, 3, 4, 5, 9} {
					nb := nb
					if nb == n {
						continue
					}
					reg(prop, fmt.Sprintf("%s/%s/nb=%d", v.name, w, nb), func(t *vh.T) {
						for _, low := range []int{0, -3} {
							c := v.setup(t, n, low, nb)
							s := newSlots(t, low, n)
							los := make([]int, n+1)
							his := make([]int, n+1)
							c.ev = func(lo, hi int) byte {
								s.visit(lo, hi)
								for x := lo; x < hi; x++ {
									if w[x-low] == 'D' {
										los[x-low] = lo
										his[x-low] = hi
										return 'D'
									}
								}
								return 'N'
							}
							got := v.run(c)
							if k := first(w, "D"); k >= 0 {
								v.check2(c, got, true, los[k], his[k])
							} else {
								v.check2(c, got, false, 0, 0)
							}
						}
					})
				}
			})
		}
		// decisive joins
		if v.kind == 'j' {
			for n := 2; n <= 6; n++ {
				for m := 1; m < n; m++ {
					for _, yield := range []bool{false, true} {
						n, m, yield := n, m, yield
						if yield && n > 4 {
							continue
						}
						reg(prop, fmt.Sprintf("%s/join/%d-%d/yield=%v", v.name, n, m, yield), func(t *vh.T) {
							c := v.setup(t, n, 0, n)
							c.ev = func(lo, hi int) byte {
								if yield {
									t.Yield()
								}
								return 'N'
							}
							c.join = func(x int) byte {
								if x == m {
									return 'D'
								}
								return 'N'
							}
							got := v.run(c)
							v.check(c, got, m, m)
							t.Outcome("%s", got)
						})
					}
				}
			}
		}
		// concurrent and nested calls
		vectors("ND", 2, func(w string) {
			reg(prop, fmt.Sprintf("%s/%s/concurrent", v.name, w), func(t *vh.T) {
				var wg sync.WaitGroup
				for k := 0; k < 2; k++ {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						c := v.setup(t, 3, 0, 3)
						ww := "N" + w
						if k == 1 {
							ww = w + "N"
						}
						c.ev = func(lo, hi int) byte { t.Yield(); return ww[lo] }
						got := v.run(c)
						x := first(ww, "D")
						v.check(c, got, x, x+1)
					}()
				}
				wg.Wait()
			})
			for pos := 0; pos < 3; pos++ {
				pos := pos
				reg(prop, fmt.Sprintf("%s/%s/nested%d", v.name, w, pos), func(t *vh.T) {
					c := v.setup(t, 3, 0, 3)
					c.ev = func(lo, hi int) byte {
						if lo == pos {
							c2 := v.setup(t, 2, 0, 2)
							c2.ev = func(lo, hi int) byte { return w[lo] }
							got := v.run(c2)
							x := first(w, "D")
							v.check(c2, got, x, x+1)
							if x >= 0 {
								return 'D'
							}
						}
						return 'N'
					}
					got := v.run(c)
					if first(w, "D") >= 0 {
						v.check(c, got, pos, pos+1)
					} else {
						v.check(c, got, -1, 0)
					}
				})
			}
		})
	}
}

// specWord runs v on the word w: N neutral, D decisive, P panic, and, after the call has
// returned only: n neutral, d decisive, p panic.
func specWord(t *vh.T, v *svariant, w string, kind string, yield bool) {
	n := len(w)
	c := v.setup(t, n, 0, n)
	gate := make(chan bool)
	cnt := make([]int, n)
	c.ev = func(lo, hi int) byte {
		if lo == hi {
			return 'N'
		}
		if hi != lo+1 {
			t.Failf("batch [%d,%d) for size %d in %d batches", lo, hi, n, n)
		}
		cnt[lo]++
		if cnt[lo] > 1 {
			t.Failf("function %d is invoked twice", lo)
		}
		if yield {
			t.Yield()
		}
		ev := w[lo]
		switch ev {
		case 'n', 'd', 'p':
			<-gate
			ev -= 'a' - 'A'
		}
		if ev == 'P' {
			throw(kind, lo)
		}
		return ev
	}
	var got string
	pv, panicked := vh.Catch(func() { got = v.run(c) })
	k := first(w, "DP")
	if k >= 0 && w[k] == 'P' {
		checkPanic(t, pv, panicked, kind, k)
	} else {
		if panicked {
			t.Failf("%s panics with %v although %q", v.name, pv, w)
		}
		v.check(c, got, k, k+1)
		// everything to the left has finished
		for i := 0; i < n && (k < 0 || i <= k); i++ {
			if cnt[i] != 1 {
				t.Failf("function %d was invoked %d times when the call returned", i, cnt[i])
			}
		}
	}
	close(gate)
	t.Final(c.finish)
	t.Outcome("%s %v", got, panicked)
}

func b02(prop string, vs []*svariant) {
	for _, v := range vs {
		v := v
		for n := v.min; n <= 5; n++ {
			n := n
			// a decisive function with everything possible to its right
			for k := 0; k <= n; k++ {
				alpha := "NDn"
				if n <= 4 {
					alpha = "NDnd"
				}
				vectors(alpha, n-min(n, k+1), func(r string) {
					w := ""
					for i := 0; i < k; i++ {
						w += "N"
					}
					if k < n {
						w += "D" + r
					}
					reg(prop, fmt.Sprintf("%s/%s", v.name, w), func(t *vh.T) { specWord(t, v, w, "", false) })
					if n <= 3 {
						reg(prop, fmt.Sprintf("%s/%s/yield", v.name, w), func(t *vh.T) { specWord(t, v, w, "", true) })
					}
				})
			}
		}
		// bigger ones: never-finishing functions everywhere to the right
		for n := 6; n <= 9; n++ {
			thorough := n > 7 && prop != "B02"
			for k := 0; k < n; k++ {
				w := ""
				for i := 0; i < n; i++ {
					switch {
					case i < k:
						w += "N"
					case i == k:
						w += "D"
					default:
						w += "n"
					}
				}
				regT(prop, fmt.Sprintf("%s/%s", v.name, w), thorough, func(t *vh.T) { specWord(t, v, w, "", false) })
			}
		}
		// the decisive function waits for others: all run concurrently
		for n := 2; n <= 4; n++ {
			for k := 0; k < n; k++ {
				n, k := n, k
				reg(prop, fmt.Sprintf("%s/barrier/%d-%d", v.name, n, k), func(t *vh.T) {
					c := v.setup(t, n, 0, n)
					chs := make([]chan bool, n)
					for i := range chs {
						chs[i] = make(chan bool)
					}
					never := make(chan bool)
					c.ev = func(lo, hi int) byte {
						close(chs[lo])
						if lo > k {
							<-never
							return 'N'
						}
						for i := range chs {
							<-chs[i]
						}
						if lo == k {
							return 'D'
						}
						return 'N'
					}
					v.check(c, v.run(c), k, k+1)
					close(never)
				})
			}
		}
		// a decisive join in the left half makes the rest superfluous: left-most pair of functions
		if v.kind == 'j' {
			for n := 3; n <= 6; n++ {
				n := n
				reg(prop, fmt.Sprintf("%s/leftjoin/%d", v.name, n), func(t *vh.T) {
					c := v.setup(t, n, 0, n)
					cnt := make([]int, n)
					c.ev = func(lo, hi int) byte { t.Yield(); cnt[lo]++; return 'N' }
					c.join = func(m int) byte {
						if m == 1 {
							return 'D'
						}
						return 'N'
					}
					v.check(c, v.run(c), 1, 1)
					if cnt[0] != 1 {
						t.Failf("function 0 has not finished")
					}
				})
			}
		}
	}
}

func b03(prop string, vs []*svariant) {
	for _, v := range vs {
		v := v
		for n := 1; n <= 5; n++ {
			n := n
			// the left-most event is a panic: everything to the right finishes by itself
			for k := 0; k < n; k++ {
				vectors("NDP", n-k-1, func(r string) {
					w := ""
					for i := 0; i < k; i++ {
						w += "N"
					}
					w += "P" + r
					for ki, kind := range panicKinds {
						kind := kind
						if n > 3 && ki > 0 || n > 2 && ki > 2 {
							continue
						}
						reg(prop, fmt.Sprintf("%s/%s/%s", v.name, w, kind), func(t *vh.T) { specWord(t, v, w, kind, false) })
						if n <= 3 && ki == 0 {
							reg(prop, fmt.Sprintf("%s/%s/%s/yield", v.name, w, kind), func(t *vh.T) { specWord(t, v, w, kind, true) })
						}
					}
				})
				// the left-most event is decisive: panics to the right, also late ones
				alpha := "NDPp"
				if n >= 5 {
					alpha = "NPp"
				}
				vectors(alpha, n-k-1, func(r string) {
					if first(r, "Pp") < 0 {
						return
					}
					w := ""
					for i := 0; i < k; i++ {
						w += "N"
					}
					w += "D" + r
					reg(prop, fmt.Sprintf("%s/%s", v.name, w), func(t *vh.T) { specWord(t, v, w, "error", false) })
					if n <= 3 {
						reg(prop, fmt.Sprintf("%s/%s/yield", v.name, w), func(t *vh.T) { specWord(t, v, w, "runtime", true) })
					}
				})
			}
		}
		// panicking joins
		if v.kind == 'j' {
			for n := 2; n <= 5; n++ {
				for m := 1; m < n; m++ {
					for _, kind := range []string{"string", "error", "runtime"} {
						n, m, kind := n, m, kind
						reg(prop, fmt.Sprintf("%s/join/%d-%d/%s", v.name, n, m, kind), func(t *vh.T) {
							c := v.setup(t, n, 0, n)
							c.ev = func(lo, hi int) byte { return 'N' }
							c.join = func(x int) byte {
								if x == m {
									throw(kind, m)
								}
								return 'N'
							}
							pv, panicked := vh.Catch(func() { v.run(c) })
							t.Final(c.finish)
							checkPanic(t, pv, panicked, kind, m)
						})
					}
				}
			}
		}
		// batches of several elements
		if v.ranged {
			for size := 1; size <= 6; size++ {
				for nb := 0; nb <= 3; nb++ {
					for e := 0; e < size; e++ {
						size, nb, e := size, nb, e
						reg(prop, fmt.Sprintf("%s/size=%d/n=%d/at=%d", v.name, size, nb, e), func(t *vh.T) {
							c := v.setup(t, size, 0, nb)
							c.ev = func(lo, hi int) byte {
								if lo <= e && e < hi {
									throw("error", e)
								}
								return 'N'
							}
							pv, panicked := vh.Catch(func() { v.run(c) })
							t.Final(c.finish)
							checkPanic(t, pv, panicked, "error", e)
						})
					}
				}
			}
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// szeros: zero values (0, "", nil) among the results
func szeros(prop string, vs []*svariant) {
	for _, v := range vs {
		v := v
		if v.kind != 'j' {
			continue
		}
		for n := 1; n <= 4; n++ {
			n := n
			vectors("ND", n, func(w string) {
				var zs []sval
				for i := 0; i < n; i++ {
					if w[i] == 'D' {
						zs = append(zs, sval{i, i + 1, true})
					}
					for j := i + 1; j <= n; j++ {
						zs = append(zs, sval{i, j, false})
					}
				}
				for _, z := range zs {
					for m := 0; m < n; m++ {
						if m > 0 && first(w, "D") >= 0 {
							break
						}
						m, z := m, z
						if m > 0 && z.hi == n && z.lo == 0 {
							z = sval{m, m, true}
						}
						reg(prop, fmt.Sprintf("%s/%s/join=%d/zero=%d-%d-%v", v.name, w, m, z.lo, z.hi, z.dec), func(t *vh.T) {
							c := v.setup(t, n, 0, n)
							c.zero = &z
							cnt := make([]int, n)
							c.ev = func(lo, hi int) byte {
								if n <= 3 {
									t.Yield()
								}
								cnt[lo]++
								return w[lo]
							}
							c.join = func(x int) byte {
								if x == m {
									return 'D'
								}
								return 'N'
							}
							got := v.run(c)
							k := first(w, "D")
							if m > 0 {
								v.check(c, got, m, m)
								return
							}
							v.check(c, got, k, k+1)
							for i := 0; i < n && (k < 0 || i <= k); i++ {
								if cnt[i] != 1 {
									t.Failf("function %d was invoked %d times when the call returned", i, cnt[i])
								}
							}
						})
					}
				}
			})
		}
	}
}

// ssames: all functions and joins return the same value; only the second results differ
func ssames(prop string, vs []*svariant) {
	for _, v := range vs {
		v := v
		if v.kind != 'j' {
			continue
		}
		for n := 1; n <= 4; n++ {
			n := n
			vectors("ND", n, func(w string) {
				for same := 1; same <= sameKinds; same++ {
					for _, jd := range []bool{false, true} {
						same, jd := same, jd
						if jd && (n == 1 || first(w, "D") >= 0) {
							continue
						}
						reg(prop, fmt.Sprintf("%s/%s/same=%d/join=%v", v.name, w, same, jd), func(t *vh.T) {
							c := v.setup(t, n, 0, n)
							c.same = same
							cnt := make([]int, n)
							c.ev = func(lo, hi int) byte {
								if n <= 3 {
									t.Yield()
								}
								cnt[lo]++
								return w[lo]
							}
							c.join = func(int) byte {
								if jd {
									return 'D'
								}
								return 'N'
							}
							got := v.run(c)
							k := first(w, "D")
							if x := fmt.Sprintf("%v,%v", sameSval, k >= 0 || jd); got != x {
								t.Failf("%s returned %q instead of %q", v.name, got, x)
							}
							if jd {
								return
							}
							for i := 0; i < n && (k < 0 || i <= k); i++ {
								if cnt[i] != 1 {
									t.Failf("function %d was invoked %d times when the call returned", i, cnt[i])
								}
							}
						})
					}
				}
			})
		}
	}
}
