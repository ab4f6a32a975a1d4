package harness

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/zz_verif/vh"
)

// Values of GOMAXPROCS, with sizes and numbers of batches that do not divide each other: the first
// schedule.

var (
	procValues = []int{1, 2, 3, 4, 5, 7, 8, 16, 17, 64}
	procSizes  = []int{1, 2, 3, 5, 6, 7, 9, 10, 13, 29, 33, 100}
	procNbs    = []int{0, 1, 2, 3, 4, 7, 8, 16, 50}
	procLows   = []int{0, 5, -7}
)

func procCases(ranged bool, min int, f func(n, low, nb int)) {
	for i, n := range procSizes {
		if n < min {
			continue
		}
		for j, nb := range procNbs {
			if !ranged && j > 0 {
				break
			}
			f(n, procLows[(i+j)%3], nb)
		}
	}
}

func regProcs(prop, name string, body func(t *vh.T, procs int)) {
	for _, procs := range procValues {
		procs := procs
		vh.Register(vh.Instance{Prop: prop, Name: fmt.Sprintf("many/procs=%d/%s", procs, name), Delay: 1, Strict: true, Alone: true, Body: func(t *vh.T) {
			t.Procs(procs)
			body(t, procs)
			t.Outcome("ok")
		}})
	}
}

func procPar(t *vh.T, v *variant, n, low, nb int) (*call, *slots) {
	c := v.setup(t, n, low, nb)
	s := newSlots(t, c.low, n)
	manyWeights(c, n)
	c.leaf = s.visit
	return c, s
}

func init() {
	for gi, vs := range [][]*variant{variants(parallelAPI), variants(sequentialAPI)} {
		for _, v := range vs {
			v := v
			par := gi == 0
			fold := func(t *vh.T, procs int) {
				procCases(v.ranged, v.min, func(n, low, nb int) {
					c, s := procPar(t, v, n, low, nb)
					if !par && nb == 0 && v.ranged {
						s = newSlots(t, c.low, n)
						c.leaf = s.visit
					}
					got := v.run(c)
					if par || v.kind != '&' && v.kind != '|' {
						s.check(v.ranged)
					}
					if w := v.want(c); got != w {
						t.Failf("%s of %d functions (%d batches, GOMAXPROCS %d) returned %q instead of %q", v.name, n, nb, procs, got, w)
					}
					t.Cases(1)
					if v.kind == '&' || v.kind == '|' {
						for _, at := range []int{0, n / 2, n - 1} {
							c, s := procPar(t, v, n, low, nb)
							for i := range c.pred {
								c.pred[i] = v.kind == '&'
							}
							c.pred[at] = !c.pred[at]
							got := v.run(c)
							if par {
								s.check(v.ranged)
							}
							if w := v.want(c); got != w {
								t.Failf("%s of %d functions (%d batches, GOMAXPROCS %d) returned %q instead of %q", v.name, n, nb, procs, got, w)
							}
							t.Cases(1)
						}
					}
				})
			}
			if !par {
				regProcs("C01", v.name, fold)
				continue
			}
			regProcs("A01", v.name, fold)
			regProcs("A03", v.name, fold)
			regProcs("A04", v.name, func(t *vh.T, procs int) {
				procCases(v.ranged, v.min, func(n, low, nb int) {
					at := low + (n*procs+nb)%n
					c, _ := procPar(t, v, n, low, nb)
					if !v.ranged {
						at -= low
					}
					c.leaf = func(lo, hi int) {
						for x := lo; x < hi; x++ {
							if x == at || x > at && (x-at)%3 == 0 {
								throw("error", x+1000)
							}
						}
					}
					pv, panicked := vh.Catch(func() { v.run(c) })
					t.Final(c.finish)
					checkPanic(t, pv, panicked, "error", at+1000)
					t.Cases(1)
				})
			})
		}
	}
	for _, v := range specVariants() {
		v := v
		// words: special elements k, and every third to its right
		run := func(t *vh.T, n, low, nb, k int, ev byte) {
			c := v.setup(t, n, low, nb)
			if !v.ranged {
				low = 0
			}
			los, his := make([]int, n), make([]int, n)
			c.ev = func(lo, hi int) byte {
				for x := lo; x < hi; x++ {
					if y := x - low; k >= 0 && (y == k || y > k && (y-k)%3 == 0) {
						if y == k {
							los[k], his[k] = lo, hi
						}
						if ev == 'P' {
							throw("error", y)
						}
						return 'D'
					}
				}
				return 'N'
			}
			var got string
			pv, panicked := vh.Catch(func() { got = v.run(c) })
			t.Final(c.finish)
			t.Cases(1)
			if k >= 0 && ev == 'P' {
				checkPanic(t, pv, panicked, "error", k)
				return
			}
			if panicked {
				t.Failf("%s panics with %v", v.name, pv)
			}
			if k >= 0 {
				v.check2(c, got, true, los[k], his[k])
			} else {
				v.check2(c, got, false, 0, 0)
			}
		}
		regProcs("B01", v.name, func(t *vh.T, procs int) {
			procCases(v.ranged, v.min, func(n, low, nb int) {
				run(t, n, low, nb, -1, 'D')
				run(t, n, low, nb, (n*procs+nb)%n, 'D')
			})
		})
		regProcs("B03", v.name, func(t *vh.T, procs int) {
			procCases(v.ranged, v.min, func(n, low, nb int) { run(t, n, low, nb, (n*procs+nb)%n, 'P') })
		})
	}
	// sorting
	for _, kind := range []string{"Sort/coll", "Sort/int", "StableSort/coll", "StableSort/string"} {
		kind := kind
		sizes := []int{3, qgrain - 1, qgrain + 1, 3000, 4*qgrain + 11}
		if kind[1] == 't' {
			sizes = []int{3, mgrain - 1, mgrain + 1, 2*mgrain + 3}
		}
		for pi, p := range append([]pattern{mod(7919, 0), mod(7919, 3)}, imbalanced[:2]...) {
			p := p
			for _, prop := range []string{"E01", "E02", "E04"} {
				if prop == "E02" && kind != "StableSort/coll" || prop != "E01" && pi > 1 {
					continue
				}
				prop := prop
				regProcs(prop, noSpace(kind+"/"+p.name), func(t *vh.T, procs int) {
					for _, n := range sizes {
						sortProg(t, kind, p.gen(n), prop == "E02")
						t.Cases(1)
					}
				})
			}
		}
	}
	regProcs("E03", "IsSorted", func(t *vh.T, procs int) {
		for _, n := range []int{3, qgrain - 1, qgrain, qgrain + 1, 3*qgrain + 2, 8*qgrain + 13} {
			for _, a := range []int{0, 1, 9, 10, 11, n / 3, n / 2, n - 1} {
				if a >= n {
					continue
				}
				if got := sort.IsSorted(stepsDown{n, a, 0}); got != (a == 0) {
					t.Failf("IsSorted returns %v for %d elements with a step down at %d", got, n, a)
				}
				t.Cases(1)
			}
		}
	})
	for _, p := range []pattern{imbalanced[1], mod(7919, 3)} {
		p := p
		for _, alg := range []string{"IsSorted", "Sort", "StableSort"} {
			alg := alg
			regProcs("E05", noSpace(alg+"/"+p.name), func(t *vh.T, procs int) {
				n := 2*qgrain + 3
				if alg == "StableSort" {
					n = mgrain + 5
				}
				sortCountProg(t, alg, p.gen(n), 3, 1, procs)
			})
		}
	}
	// pipelines
	for _, spec := range []string{"P", "L", "O", "S", "X", "PO", "LO", "LS", "LX", "SL", "OLP", "LL"} {
		for _, m := range []int{1, 2, 3, 7, 20, 33} {
			for _, w := range []string{"id", "rev", "mod"} {
				if m == 33 && len(spec) > 1 || w == "mod" && m != 7 {
					continue
				}
				spec, m, w := spec, m, w
				prop := "F02"
				if strings.Trim(spec, "PL") == "" {
					prop = "F01"
				}
				async := strings.Contains(spec, "X")
				regProcs(prop, fmt.Sprintf("%s/m=%d/%s", spec, m, w), func(t *vh.T, procs int) {
					permProg(t, spec, m, permutation(w, m), async, -1)
				})
			}
		}
	}
}
