package harness

import (
	"fmt"
	"runtime"
	"sync"

	"github.com/exascience/pargo/zz_verif/vh"
)

func init() {
	vs := variants(parallelAPI)
	a01("A01", vs)
	a02()
	a03("A03", vs)
	zeros("A01", vs)
	sames("A01", vs)
	zeros("A03", vs)
	sames("A03", vs)
	zeros("C01", variants(sequentialAPI))
	sames("C01", variants(sequentialAPI))
	a04("A04", vs)
	c01()
}

func checkCall(t *vh.T, v *variant, c *call, s *slots) {
	got := v.run(c)
	s.check(v.ranged)
	if w := v.want(c); got != w {
		t.Failf("%s returned %q instead of %q", v.name, got, w)
	}
}

func a01(prop string, vs []*variant) {
	for _, v := range vs {
		v := v
		// every function exactly once, finished, effects visible
		for n := v.min; n <= 9; n++ {
			n := n
			for _, yield := range []bool{false, true} {
				yield := yield
				if yield && n > 4 {
					continue
				}
				reg(prop, fmt.Sprintf("%s/once/%d/yield=%v", v.name, n, yield), func(t *vh.T) {
					c := v.setup(t, n, 3, n)
					s := newSlots(t, c.low, n)
					c.leaf = func(lo, hi int) {
						if yield {
							t.Yield()
						}
						s.visit(lo, hi)
					}
					checkCall(t, v, c, s)
					t.Outcome("ok")
				})
			}
		}
		// a predicate vector never keeps a function from being invoked
		if v.kind == '&' || v.kind == '|' {
			for n := 1; n <= 4; n++ {
				bools(n, func(p []bool) {
					n := n
					reg(prop, fmt.Sprintf("%s/noshortcut/%s", v.name, bstr(p)), func(t *vh.T) {
						c := v.setup(t, n, 0, n)
						copy(c.pred, p)
						s := newSlots(t, c.low, n)
						c.leaf = func(lo, hi int) { t.Yield(); s.visit(lo, hi) }
						checkCall(t, v, c, s)
					})
				})
			}
		}
		// all functions run at the same time: each waits for all others
		for n := 2; n <= 5; n++ {
			n := n
			regT(prop, fmt.Sprintf("%s/barrier/%d", v.name, n), n > 4, func(t *vh.T) {
				c := v.setup(t, n, 0, n)
				s := newSlots(t, c.low, n)
				chs := make([]chan bool, n)
				for i := range chs {
					chs[i] = make(chan bool)
				}
				c.leaf = func(lo, hi int) {
					s.visit(lo, hi)
					close(chs[lo])
					for i := range chs {
						<-chs[i]
					}
				}
				checkCall(t, v, c, s)
				t.Outcome("ok")
			})
		}
		// one function waits for another one
		for n := 2; n <= 6; n++ {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i == j {
						continue
					}
					n, i, j := n, i, j
					reg(prop, fmt.Sprintf("%s/wait/%d-%d-%d", v.name, n, i, j), func(t *vh.T) {
						c := v.setup(t, n, 0, n)
						s := newSlots(t, c.low, n)
						ch := make(chan bool)
						c.leaf = func(lo, hi int) {
							if lo == i {
								<-ch
							}
							s.visit(lo, hi)
							if lo == j {
								close(ch)
							}
						}
						checkCall(t, v, c, s)
					})
				}
			}
		}
		// nested calls
		for n := 2; n <= 3; n++ {
			for k := 0; k < n; k++ {
				n, k := n, k
				reg(prop, fmt.Sprintf("%s/nested/%d-%d", v.name, n, k), func(t *vh.T) {
					c := v.setup(t, n, 0, n)
					s := newSlots(t, c.low, n)
					c.leaf = func(lo, hi int) {
						if lo == k {
							c2 := v.setup(t, 3, 5, 3)
							s2 := newSlots(t, c2.low, 3)
							c2.leaf = func(lo, hi int) { t.Yield(); s2.visit(lo, hi) }
							checkCall(t, v, c2, s2)
						}
						s.visit(lo, hi)
					}
					checkCall(t, v, c, s)
				})
			}
		}
		// concurrent calls
		for _, w := range []int{2, 3} {
			w := w
			reg(prop, fmt.Sprintf("%s/concurrent/%d", v.name, w), func(t *vh.T) {
				var wg sync.WaitGroup
				for k := 0; k < 2; k++ {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						c := v.setup(t, w+k, 10*k, w+k)
						s := newSlots(t, c.low, w+k)
						c.leaf = func(lo, hi int) { t.Yield(); s.visit(lo, hi) }
						checkCall(t, v, c, s)
					}()
				}
				wg.Wait()
			})
		}
	}
}

var a02Sizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}

// rangeGrid checks the batches of one range function.
func rangeGrid(prop, name string, run func(t *vh.T, low, high, n int, visit func(lo, hi int))) {
	for _, size := range a02Sizes {
		size := size
		for n := 0; n <= 14; n++ {
			n := n
			reg(prop, fmt.Sprintf("%s/size=%d/n=%d", name, size, n), func(t *vh.T) {
				procs := []int{2}
				if n == 0 {
					procs = []int{1, 2, 3, 4, 5}
				}
				for _, pr := range procs {
					t.Procs(pr)
					for _, low := range []int{0, -size / 2, -100, 1 << 40, -(1 << 40)} {
						s := newSlots(t, low, size)
						run(t, low, low+size, n, s.visit)
						b := s.check(true)
						max := n
						if n == 0 {
							max = 2 * pr
						}
						if b > max {
							t.Failf("%d batches for size %d, n %d, GOMAXPROCS %d", b, size, n, pr)
						}
						t.Cases(1)
					}
				}
			})
		}
	}
	for _, size := range []int{50, 64, 65, 100} {
		for _, n := range []int{1, 2, 3, 7, 31, 33, 63, 64, 65, 99, 100, 101, 1000} {
			size, n := size, n
			reg(prop, fmt.Sprintf("%s/size=%d/n=%d", name, size, n), func(t *vh.T) {
				s := newSlots(t, 7, size)
				run(t, 7, 7+size, n, s.visit)
				if b := s.check(true); b > n {
					t.Failf("%d batches for size %d, n %d", b, size, n)
				}
				t.Cases(1)
			})
		}
	}
	reg(prop, name+"/invalid", func(t *vh.T) {
		try := func(low, high, n int) {
			_, panicked := vh.Catch(func() {
				run(t, low, high, n, func(lo, hi int) {
					t.Failf("the batch function was invoked for range [%d,%d), n %d", low, high, n)
				})
			})
			if !panicked {
				t.Failf("no panic for range [%d,%d), n %d", low, high, n)
			}
			t.Cases(1)
		}
		for low := -2; low <= 2; low++ {
			for high := low - 4; high <= low+3; high++ {
				for n := -3; n <= 3; n++ {
					if high < low || n < 0 {
						try(low, high, n)
					}
				}
			}
		}
		try(0, 10, -1<<62)
		try(1<<40, 0, 0)
		try(5, 5, -1)
	})
}

func a02() {
	for _, api := range []struct {
		name string
		a    parAPI
	}{{"parallel", parallelAPI}, {"sequential", sequentialAPI}} {
		for _, v := range variants(api.a) {
			v := v
			if !v.ranged {
				continue
			}
			rangeGrid("A02", api.name+"."+v.name, func(t *vh.T, low, high, n int, visit func(lo, hi int)) {
				c := &call{t: t, low: low, high: high, nb: n, leaf: visit}
				if high > low {
					c.pred = make([]bool, high-low)
					for i := range c.pred {
						c.pred[i] = v.kind == '&'
					}
				}
				v.run(c)
			})
		}
	}
	for _, v := range specVariants() {
		v := v
		if v.ranged {
			rangeGrid("A02", "speculative."+v.name, func(t *vh.T, low, high, n int, visit func(lo, hi int)) {
				c := &scall{t: t, low: low, high: high, nb: n, ev: func(lo, hi int) byte { visit(lo, hi); return 'N' }}
				v.run(c)
			})
		}
	}
}

func a03(prop string, vs []*variant) {
	for _, v := range vs {
		v := v
		for n := v.min; n <= 9; n++ {
			n := n
			nbs := []int{n}
			if v.ranged {
				nbs = []int{0, 1, 2, 3, 4, 5, 9}
			}
			for _, nb := range nbs {
				nb := nb
				if v.kind == 'd' {
					continue
				}
				vec := [][]bool{nil}
				if v.kind == '&' || v.kind == '|' {
					vec = nil
					if n > 6 {
						continue
					}
					bools(n, func(p []bool) { vec = append(vec, p) })
				}
				for _, p := range vec {
					p := p
					for _, yield := range []bool{false, true} {
						yield := yield
						if yield && (n > 3 || (v.ranged && nb != n)) {
							continue
						}
						reg(prop, fmt.Sprintf("%s/%d/%d/%s/yield=%v", v.name, n, nb, bstr(p), yield), func(t *vh.T) {
							lows := []int{0}
							if v.ranged && !yield {
								lows = []int{0, -5, 1000}
							}
							for _, low := range lows {
								c := v.setup(t, n, low, nb)
								if p != nil {
									copy(c.pred, p)
								}
								if yield {
									c.leaf = func(lo, hi int) { t.Yield() }
								}
								got := v.run(c)
								if w := v.want(c); got != w {
									t.Failf("%s returned %q instead of %q", v.name, got, w)
								}
								t.Cases(1)
							}
							t.Outcome("ok")
						})
					}
				}
			}
		}
		// concurrent reductions do not mix
		reg(prop, v.name+"/concurrent", func(t *vh.T) {
			var wg sync.WaitGroup
			for k := 0; k < 2; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					c := v.setup(t, 3+k, 7*k, 3+k)
					c.leaf = func(lo, hi int) { t.Yield() }
					got := v.run(c)
					if w := v.want(c); got != w {
						t.Failf("%s returned %q instead of %q", v.name, got, w)
					}
				}()
			}
			wg.Wait()
		})
	}
}

func a04(prop string, vs []*variant) {
	for _, v := range vs {
		v := v
		for n := 1; n <= 6; n++ {
			n := n
			bools(n, func(p []bool) {
				first := -1
				for i := range p {
					if p[i] {
						first = i
						break
					}
				}
				if first < 0 {
					return
				}
				for ki, kind := range panicKinds {
					kind := kind
					if n > 3 && ki > 2 || n > 5 && ki > 0 {
						continue
					}
					for _, yield := range []bool{false, true} {
						yield := yield
						if yield && (n > 4 || ki > 0) {
							continue
						}
						reg(prop, fmt.Sprintf("%s/%s/%s/yield=%v", v.name, bstr(p), kind, yield), func(t *vh.T) {
							c := v.setup(t, n, 0, n)
							c.leaf = func(lo, hi int) {
								if yield {
									t.Yield()
								}
								if p[lo] {
									throw(kind, lo)
								}
							}
							pv, panicked := vh.Catch(func() { v.run(c) })
							t.Final(c.finish)
							checkPanic(t, pv, panicked, kind, first)
							t.Outcome("panic %d", first)
						})
					}
				}
				// mixed kinds: the left-most one must keep its own kind
				if n <= 4 {
					for k := range panicKinds {
						k := k
						reg(prop, fmt.Sprintf("%s/%s/mixed%d", v.name, bstr(p), k), func(t *vh.T) {
							c := v.setup(t, n, 0, n)
							c.leaf = func(lo, hi int) {
								if p[lo] {
									throw(panicKinds[(lo+k)%len(panicKinds)], lo)
								}
							}
							pv, panicked := vh.Catch(func() { v.run(c) })
							t.Final(c.finish)
							checkPanic(t, pv, panicked, panicKinds[(first+k)%len(panicKinds)], first)
						})
					}
				}
			})
		}
		// larger ranges than batches, and empty ranges
		if v.ranged {
			for size := 0; size <= 7; size++ {
				for nb := 0; nb <= 4; nb++ {
					for e := 0; e < size || e == 0; e++ {
						size, nb, e := size, nb, e
						reg(prop, fmt.Sprintf("%s/size=%d/n=%d/at=%d", v.name, size, nb, e), func(t *vh.T) {
							c := v.setup(t, size, 0, nb)
							c.leaf = func(lo, hi int) {
								if lo <= e && e < hi || lo == hi {
									throw("error", e)
								}
							}
							pv, panicked := vh.Catch(func() { v.run(c) })
							t.Final(c.finish)
							checkPanic(t, pv, panicked, "error", e)
						})
					}
				}
			}
		}
		// a panicking join
		if v.kind == 'j' {
			for n := 2; n <= 6; n++ {
				for m := 1; m < n; m++ {
					for _, kind := range []string{"string", "error", "runtime"} {
						n, m, kind := n, m, kind
						reg(prop, fmt.Sprintf("%s/join/%d-%d/%s", v.name, n, m, kind), func(t *vh.T) {
							c := v.setup(t, n, 0, n)
							c.join = func(x int) {
								if x == m {
									throw(kind, m)
								}
							}
							pv, panicked := vh.Catch(func() { v.run(c) })
							t.Final(c.finish)
							checkPanic(t, pv, panicked, kind, m)
						})
					}
				}
			}
		}
		// the caller survives, and a concurrent call is not affected
		reg(prop, v.name+"/concurrent", func(t *vh.T) {
			var wg sync.WaitGroup
			for k := 0; k < 2; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					c := v.setup(t, 3, 0, 3)
					c.leaf = func(lo, hi int) {
						t.Yield()
						if k == 1 && lo > 0 {
							throw("error", lo)
						}
					}
					pv, panicked := vh.Catch(func() { v.run(c) })
					t.Final(c.finish)
					if k == 0 {
						if panicked {
							t.Failf("a call without a panicking function panics: %v", pv)
						}
					} else {
						checkPanic(t, pv, panicked, "error", 1)
					}
				}()
			}
			wg.Wait()
		})
		// nested: the panic of an inner call passes through two levels
		for k := 0; k < 3; k++ {
			for q := 0; q < 3; q++ {
				k, q := k, q
				reg(prop, fmt.Sprintf("%s/nested/%d-%d", v.name, k, q), func(t *vh.T) {
					c := v.setup(t, 3, 0, 3)
					c.leaf = func(lo, hi int) {
						if lo == k {
							c2 := v.setup(t, 3, 0, 3)
							c2.leaf = func(lo, hi int) {
								if lo >= q {
									throw("runtime", lo)
								}
							}
							v.run(c2)
						}
					}
					pv, panicked := vh.Catch(func() { v.run(c) })
					t.Final(c.finish)
					checkPanic(t, pv, panicked, "runtime", q)
				})
			}
		}
	}
}

func c01() {
	for _, v := range variants(sequentialAPI) {
		v := v
		one := func(t *vh.T, c *call, size int, kind string, at int) {
			next := c.low
			stopped := false
			threads := 0
			if t.Controlled() {
				threads = runtime.NumGoroutine()
			}
			calls := 0
			c.leaf = func(lo, hi int) {
				calls++
				if stopped {
					t.Failf("[%d,%d) is invoked after a panic", lo, hi)
				}
				if lo != next || hi < lo || hi > c.high || (lo == hi && size > 0) {
					t.Failf("[%d,%d) is invoked, next should be %d", lo, hi, next)
				}
				next = hi
				if t.Controlled() && runtime.NumGoroutine() != threads {
					t.Failf("a goroutine was started")
				}
				if kind != "" && lo <= at && at < hi {
					stopped = true
					throw(kind, at)
				}
			}
			if kind != "" {
				pv, panicked := vh.Catch(func() { v.run(c) })
				checkPanic(t, pv, panicked, kind, at)
				if s := fmt.Sprintf("%v", pv); s != panicText(kind, at) {
					t.Failf("the panic value changed: %q", s)
				}
				return
			}
			got := v.run(c)
			if w := v.want(c); got != w {
				t.Failf("%s returned %q instead of %q", v.name, got, w)
			}
			decided := v.kind == '&' && got == "false" || v.kind == '|' && got == "true"
			if next != c.high && !decided {
				t.Failf("only [%d,%d) was invoked", c.low, next)
			}
			if v.ranged && size == 0 && calls != 1 {
				t.Failf("an empty range yields %d batches", calls)
			}
			if v.ranged {
				max := c.nb
				if max == 0 {
					max = 2 * runtime.GOMAXPROCS(0)
				}
				if calls > max {
					t.Failf("%d batches for n %d", calls, c.nb)
				}
			}
			if t.Controlled() && runtime.NumGoroutine() != threads {
				t.Failf("a goroutine was started")
			}
			t.Cases(1)
		}
		for n := v.min; n <= 9; n++ {
			n := n
			reg("C01", fmt.Sprintf("%s/%d", v.name, n), func(t *vh.T) {
				nbs := []int{n}
				if v.ranged {
					nbs = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
				}
				for _, nb := range nbs {
					for _, low := range []int{0, -4, 77} {
						vec := [][]bool{nil}
						if v.kind == '&' || v.kind == '|' {
							vec = nil
							bools(n, func(p []bool) {
								if n < 7 || low == 0 {
									vec = append(vec, p)
								}
							})
						}
						for _, p := range vec {
							c := v.setup(t, n, low, nb)
							copy(c.pred, p)
							one(t, c, n, "", 0)
						}
						for _, kind := range panicKinds {
							for at := 0; at < n; at++ {
								c := v.setup(t, n, 0, nb)
								one(t, c, n, kind, at)
							}
						}
					}
				}
			})
		}
	}
}

// zeros: zero values, neutral and absorbing elements among the values to be reduced
func zeros(prop string, vs []*variant) {
	for _, v := range vs {
		v := v
		one := func(name string, n, nb int, yield bool, set func(c *call)) {
			reg(prop, fmt.Sprintf("%s/%d/nb=%d/%s/yield=%v", v.name, n, nb, name, yield), func(t *vh.T) {
				c := v.setup(t, n, 0, nb)
				s := newSlots(t, c.low, n)
				set(c)
				c.leaf = func(lo, hi int) {
					if yield {
						t.Yield()
					}
					s.visit(lo, hi)
				}
				checkCall(t, v, c, s)
			})
		}
		for n := 1; n <= 5; n++ {
			nbs := []int{n}
			if v.ranged && n > 2 {
				nbs = append(nbs, 2)
			}
			for _, nb := range nbs {
				for _, yield := range []bool{false, true} {
					if yield && n > 3 {
						continue
					}
					switch v.kind {
					case 'j':
						for i := 0; i < n; i++ {
							for j := i + 1; j <= n; j++ {
								z := ival{i, j}
								one(fmt.Sprintf("zero=%d-%d", i, j), n, nb, yield, func(c *call) { c.zero = &z })
							}
						}
					case 's':
						alpha := "01-2"
						if n == 4 {
							alpha = "01-"
						} else if n == 5 {
							alpha = "02"
						}
						if prop == "A01" && n > 2 {
							alpha = "01"
						}
						set := func(w string) func(c *call) {
							return func(c *call) {
								for _, x := range w {
									c.w = append(c.w, map[rune]int{'0': 0, '1': 1, '-': -1, '2': 2, 'I': wInf, 'i': wNinf, 'N': wNaN}[x])
								}
							}
						}
						vectors(alpha, n, func(w string) { one("w="+w, n, nb, yield, set(w)) })
						if first(v.name, "F") >= 0 && n <= 3 && prop != "A01" {
							vectors("01IiN", n, func(w string) {
								if first(w, "IiN") >= 0 {
									one("w="+w, n, nb, yield, set(w))
								}
							})
						}
					}
				}
			}
		}
	}
}

// sames: all functions and joins return the same value
func sames(prop string, vs []*variant) {
	for _, v := range vs {
		v := v
		if v.kind != 'j' {
			continue
		}
		for n := 1; n <= 5; n++ {
			for nb := 1; nb <= n; nb++ {
				if nb < n && (!v.ranged || nb == 3) {
					continue
				}
				for same := 1; same <= sameKinds; same++ {
					n, nb, same := n, nb, same
					reg(prop, fmt.Sprintf("%s/%d/nb=%d/same=%d", v.name, n, nb, same), func(t *vh.T) {
						c := v.setup(t, n, 0, nb)
						s := newSlots(t, c.low, n)
						c.same = same
						var joins, parts vh.Counter
						c.leaf = func(lo, hi int) {
							if n <= 3 {
								t.Yield()
							}
							parts.Add(1)
							s.visit(lo, hi)
						}
						c.join = func(int) { joins.Add(1) }
						got := v.run(c)
						s.check(v.ranged)
						if w := encS(sameVal); got != w {
							t.Failf("%s returned %q instead of %q", v.name, got, w)
						}
						if joins.Get() != parts.Get()-1 {
							t.Failf("%s joined %d times %d results", v.name, joins.Get(), parts.Get())
						}
					})
				}
			}
		}
	}
}
