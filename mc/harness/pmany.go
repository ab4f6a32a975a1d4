package harness

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/zz_verif/vh"
)

// Many functions and batches: the first schedule, and for the smaller ones also those with one
// deviation from it.

var manySizes = []int{10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 25, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 513, 1025}

func regMany(prop, name string, n int, body func(t *vh.T)) {
	vh.Register(vh.Instance{Prop: prop, Name: "many/" + name, Delay: 1, Body: body})
	if n > 100 && !strings.Contains(name, "sequential") {
		return
	}
	vh.Register(vh.Instance{Prop: prop, Name: "many/" + name + "/delays", Delay: 2, Thorough: n > 12, Body: body})
}

func manyWeights(c *call, n int) {
	for i := 0; i < n; i++ {
		if n > 100 { // few factors
			c.w = append(c.w, map[bool]int{true: 3, false: 1 - i%3%2*2}[i%37 == 5])
			continue
		}
		c.w = append(c.w, []int{3, 1, 2, -1}[i%4])
	}
}

func positions(n int) []int {
	if n > 100 {
		return []int{0, n / 2, n - 1}
	}
	l := []int{0, 1, n/4 - 1, n / 4, n/2 - 1, n / 2, n/2 + 1, n * 3 / 4, n - 2, n - 1}
	var r []int
	for _, x := range l {
		if len(r) == 0 || r[len(r)-1] < x {
			r = append(r, x)
		}
	}
	return r
}

func init() {
	manyPar(variants(parallelAPI), "A01", "A03", "A04", manySizes)
	manySeq()
	manySpec(specVariants(), "B01", "B02", "B03", manySizes)
	joinAndEvent()
	manyMaps()
}

func manyPar(vs []*variant, pOnce, pFold, pPanic string, manySizes []int) {
	regMany := func(prop, name string, n int, body func(t *vh.T)) {
		if prop != "" {
			regMany(prop, name, n, body)
		}
	}
	for _, v := range vs {
		v := v
		for _, n := range manySizes {
			n := n
			nbs := []int{n}
			if v.ranged {
				nbs = []int{n, n - 1, n/2 + 1, n / 3, 0}
				if n > 100 {
					nbs = []int{n, n - 1}
				}
			}
			for _, nb := range nbs {
				nb := nb
				body := func(t *vh.T) {
					c := v.setup(t, n, 0, nb)
					s := newSlots(t, c.low, n)
					manyWeights(c, n)
					c.leaf = s.visit
					checkCall(t, v, c, s)
				}
				regMany(pOnce, fmt.Sprintf("%s/%d/nb=%d", v.name, n, nb), n, body)
				regMany(pFold, fmt.Sprintf("%s/%d/nb=%d", v.name, n, nb), n, body)
				for _, at := range positions(n) {
					at := at
					if v.kind == '&' || v.kind == '|' {
						regMany(pFold, fmt.Sprintf("%s/%d/nb=%d/not=%d", v.name, n, nb, at), n, func(t *vh.T) {
							c := v.setup(t, n, 0, nb)
							s := newSlots(t, c.low, n)
							for i := range c.pred {
								c.pred[i] = v.kind == '&'
							}
							c.pred[at] = !c.pred[at]
							c.leaf = s.visit
							checkCall(t, v, c, s)
						})
					}
					regMany(pPanic, fmt.Sprintf("%s/%d/nb=%d/at=%d", v.name, n, nb, at), n, func(t *vh.T) {
						c := v.setup(t, n, 0, nb)
						manyWeights(c, n)
						c.leaf = func(lo, hi int) {
							for x := lo; x < hi; x++ {
								if x == at || x > at && (x-at)%3 == 0 {
									throw("error", x)
								}
							}
						}
						pv, panicked := vh.Catch(func() { v.run(c) })
						t.Final(c.finish)
						checkPanic(t, pv, panicked, "error", at)
					})
				}
			}
		}
	}
}

func manySeq() {
	for _, v := range variants(sequentialAPI) {
		v := v
		for _, n := range manySizes {
			n := n
			for _, nb := range []int{n, n - 1, n/2 + 1, n / 3, 0} {
				nb := nb
				if nb != n && !v.ranged {
					continue
				}
				regMany("C01", fmt.Sprintf("%s/%d/nb=%d", v.name, n, nb), 100, func(t *vh.T) {
					c := v.setup(t, n, 0, nb)
					manyWeights(c, n)
					next := 0
					c.leaf = func(lo, hi int) {
						if lo != next {
							t.Failf("[%d,%d) is invoked, next should be %d", lo, hi, next)
						}
						next = hi
					}
					if got, w := v.run(c), v.want(c); got != w {
						t.Failf("%s returned %q instead of %q", v.name, got, w)
					}
					if next != n && v.kind != '&' && v.kind != '|' {
						t.Failf("only [0,%d) was invoked", next)
					}
				})
			}
		}
	}
}

func manySpec(vs []*svariant, p1, p2, p3 string, manySizes []int) {
	for _, v := range vs {
		v := v
		for _, n := range manySizes {
			n := n
			word := func(prop, w, kind string) {
				if prop == "" {
					return
				}
				regMany(prop, fmt.Sprintf("%s/%d/%s", v.name, n, short(w)), n, func(t *vh.T) { specWord(t, v, w, kind, false) })
			}
			word(p1, strings.Repeat("N", n), "")
			word(p2, strings.Repeat("N", n), "")
			for _, at := range positions(n) {
				left := strings.Repeat("N", at)
				r := n - at - 1
				word(p1, left+"D"+strings.Repeat("N", r), "")
				word(p1, left+"D"+strings.Repeat("D", r), "")
				word(p2, left+"D"+strings.Repeat("n", r), "")
				word(p2, left+"D"+strings.Repeat("nDN", r)[:r], "")
				word(p3, left+"P"+strings.Repeat("NP", r)[:r], "error")
				word(p3, left+"P"+strings.Repeat("DN", r)[:r], "runtime")
				word(p3, left+"D"+strings.Repeat("pP", r)[:r], "string")
				word(p3, left+"D"+strings.Repeat("np", r)[:r], "error")
			}
			// decisive joins
			if v.kind == 'j' && p1 != "" {
				for _, m := range positions(n) {
					m := m
					if m == 0 {
						continue
					}
					regMany(p1, fmt.Sprintf("%s/%d/join=%d", v.name, n, m), n, func(t *vh.T) {
						c := v.setup(t, n, 0, n)
						c.ev = func(lo, hi int) byte { return 'N' }
						c.join = func(x int) byte {
							if x == m {
								return 'D'
							}
							return 'N'
						}
						v.check(c, v.run(c), m, m)
					})
				}
			}
		}
	}
}

func joinAndEvent() {
	for _, v := range specVariants() {
		v := v
		// a decisive join and a decisive or panicking function: either the function or the join is
		// the left-most, depending on the order in which values are joined
		if v.kind == 'j' {
			for n := 3; n <= 6; n++ {
				for m := 1; m < n; m++ {
					for at := 0; at < n; at++ {
						for _, ev := range []byte("DP") {
							n, m, at, ev := n, m, at, ev
							prop := "B01"
							if ev == 'P' {
								prop = "B03"
							}
							reg(prop, fmt.Sprintf("%s/join=%d/%c=%d/of=%d", v.name, m, ev, at, n), func(t *vh.T) {
								c := v.setup(t, n, 0, n)
								c.ev = func(lo, hi int) byte {
									if lo == at {
										if ev == 'P' {
											throw("error", at)
										}
										return ev
									}
									return 'N'
								}
								c.join = func(x int) byte {
									if x == m {
										return 'D'
									}
									return 'N'
								}
								var got string
								pv, panicked := vh.Catch(func() { got = v.run(c) })
								t.Final(c.finish)
								join := v.decisive(c, m, m)
								if ev == 'P' {
									if panicked || at < m {
										checkPanic(t, pv, panicked, "error", at)
									} else if got != join {
										t.Failf("%s returned %q instead of %q", v.name, got, join)
									}
									t.Outcome("%s %v", got, panicked)
									return
								}
								if panicked {
									t.Failf("%s panics with %v", v.name, pv)
								}
								if fn := v.decisive(c, at, at+1); got != fn && (at < m || got != join) {
									t.Failf("%s returned %q instead of %q", v.name, got, fn)
								}
								t.Outcome("%s", got)
							})
						}
					}
				}
			}
		}
	}
}

// short abbreviates a word.
func short(w string) string {
	s := ""
	for i := 0; i < len(w); {
		j := i
		for j < len(w) && w[j] == w[i] {
			j++
		}
		if j-i > 3 {
			s += fmt.Sprintf("%c%d", w[i], j-i)
		} else {
			s += w[i:j]
		}
		i = j
	}
	if len(s) > 40 {
		s = fmt.Sprintf("%s..%d", s[:40], len(w))
	}
	return s
}
