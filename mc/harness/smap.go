package harness

import (
	"fmt"
	gosync "sync"

	"github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/vh"
)

type skey struct {
	h  uint64
	id int
}

func (k skey) Hash() uint64 { return k.h }

type smap = map[interface{}]interface{}

func init() {
	d01()
	d02()
	a01("D04", mapVariants("p"))
	a03("D04", mapVariants("p"))
	zeros("D04", mapVariants("p"))
	sames("D04", mapVariants("p"))
	sames("D04", mapVariants("s"))
	zeros("D04", mapVariants("s"))
	sv := mapSpecVariants(false)
	szeros("D04", sv)
	ssames("D04", sv)
	b01("D04", sv[1:])
	b02("D04", sv[1:])
	a01("D03", mapVariants("r"))
	b01("D03", sv[:1])
	b02("D03", sv[:1])
	a04("D06", mapVariants("rpu"))
	b03("D06", mapSpecVariants(true))
	d03()
	d04()
	d05()
	d06()
}

// ---------------------------------------------------------------- split-wise functions as variants

// splitMap is a map with n splits; split i has the entry with hash value i and value i.
func splitMap(t *vh.T, n int) *sync.Map {
	m := sync.NewMap(n)
	for i := 0; i < n; i++ {
		k := skey{uint64(i), i}
		m.Split(k).Map[k] = i
	}
	return m
}

// splitOf says which split mp is the map of.
func splitOf(t *vh.T, m *sync.Map, mp smap) int {
	for k, v := range mp {
		i := k.(skey).id
		if v != i || len(mp) != 1 {
			t.Failf("a function sees the map %v", mp)
		}
		return i
	}
	t.Failf("a function is invoked on an empty map")
	return -1
}

// usable checks that nothing in m is locked and that all entries are as they were.
func usable(t *vh.T, m *sync.Map, n int) {
	for i := 0; i < n; i++ {
		k := skey{uint64(i), i}
		if v, ok := m.Load(k); !ok || v != i {
			t.Failf("entry %d is now %v, %v", i, v, ok)
		}
		// other visits may still go on, so nothing is changed here
		m.Delete(skey{uint64(i), i + n})
		if v, ok := m.Modify(k, func(v interface{}, ok bool) (interface{}, bool) { return v, ok }); !ok || v != i {
			t.Failf("Modify of entry %d: %v, %v", i, v, ok)
		}
	}
	c := 0
	m.Range(func(_, _ interface{}) bool { c++; return true })
	if c != n {
		t.Failf("%d entries instead of %d", c, n)
	}
}

// mapVariants: parallel split-wise functions. r: iteration, p: predicates and reductions, u: check
// that the map is usable at the end.
func mapVariants(sel string) []*variant {
	has := func(b byte) bool { return first(sel, string(b)) >= 0 }
	mk := func(c *call) *sync.Map {
		c.t.Procs(c.gomaxprocs())
		m := splitMap(c.t, c.n)
		if has('u') {
			c.post = func() { usable(c.t, m, c.n) }
		}
		return m
	}
	// leaf for the split with map mp
	lf := func(c *call, m *sync.Map, mp smap) int {
		i := splitOf(c.t, m, mp)
		c.do(i, i+1)
		return i
	}
	whole := func(c *call) string { return encS(ival{c.low, c.high}) }
	type red struct {
		name string
		min  int
		kind byte
		run  func(c *call, m *sync.Map, par bool) string
		want func(c *call) string
	}
	sum := func(c *call) string { return fmt.Sprint(c.sumI(c.low, c.high)) }
	prod := func(c *call) string { return fmt.Sprint(c.prodI(c.low, c.high)) }
	reds := []red{
		{"Reduce", 1, 'j', func(c *call, m *sync.Map, par bool) string {
			f := m.Reduce
			if par {
				f = m.ParallelReduce
			}
			return encS(c.decV(f(func(mp map[interface{}]interface{}) interface{} { i := lf(c, m, mp); return c.encV(ival{i, i + 1}) },
				func(x, y interface{}) interface{} { return c.encV(c.glue(c.decV(x), c.decV(y))) })))
		}, whole},
		{"ReduceFloat64", 1, 'j', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceFloat64
			if par {
				f = m.ParallelReduceFloat64
			}
			return encS(c.decF(f(func(mp map[interface{}]interface{}) float64 { i := lf(c, m, mp); return c.encF(ival{i, i + 1}) },
				func(x, y float64) float64 { return c.encF(c.glue(c.decF(x), c.decF(y))) })))
		}, whole},
		{"ReduceInt", 1, 'j', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceInt
			if par {
				f = m.ParallelReduceInt
			}
			return encS(c.decI(f(func(mp map[interface{}]interface{}) int { i := lf(c, m, mp); return c.encI(ival{i, i + 1}) },
				func(x, y int) int { return c.encI(c.glue(c.decI(x), c.decI(y))) })))
		}, whole},
		{"ReduceString", 1, 'j', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceString
			if par {
				f = m.ParallelReduceString
			}
			return encS(c.decS(f(func(mp map[interface{}]interface{}) string { i := lf(c, m, mp); return c.encS(ival{i, i + 1}) },
				func(x, y string) string { return c.encS(c.glue(c.decS(x), c.decS(y))) })))
		}, whole},
		{"ReduceFloat64Sum", 1, 's', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceFloat64Sum
			if par {
				f = m.ParallelReduceFloat64Sum
			}
			return fmtF(f(func(mp map[interface{}]interface{}) float64 { i := lf(c, m, mp); return c.sumF(i, i+1) }))
		}, func(c *call) string { return fmtF(c.sumF(c.low, c.high)) }},
		{"ReduceFloat64Product", 1, 's', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceFloat64Product
			if par {
				f = m.ParallelReduceFloat64Product
			}
			return fmtF(f(func(mp map[interface{}]interface{}) float64 { i := lf(c, m, mp); return c.prodF(i, i+1) }))
		}, func(c *call) string { return fmtF(c.prodF(c.low, c.high)) }},
		{"ReduceIntSum", 1, 's', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceIntSum
			if par {
				f = m.ParallelReduceIntSum
			}
			return fmt.Sprint(f(func(mp map[interface{}]interface{}) int { i := lf(c, m, mp); return c.sumI(i, i+1) }))
		}, sum},
		{"ReduceIntProduct", 1, 's', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceIntProduct
			if par {
				f = m.ParallelReduceIntProduct
			}
			return fmt.Sprint(f(func(mp map[interface{}]interface{}) int { i := lf(c, m, mp); return c.prodI(i, i+1) }))
		}, prod},
		{"ReduceStringSum", 1, 's', func(c *call, m *sync.Map, par bool) string {
			f := m.ReduceStringSum
			if par {
				f = m.ParallelReduceStringSum
			}
			return f(func(mp map[interface{}]interface{}) string { i := lf(c, m, mp); return c.letters(i, i+1) })
		}, func(c *call) string { return c.letters(c.low, c.high) }},
	}
	var vs []*variant
	if has('r') {
		vs = append(vs, &variant{"Map.ParallelRange", false, 1, 'd', func(c *call) string {
			mk(c).ParallelRange(func(k, v interface{}) {
				if k.(skey).id != v {
					c.t.Failf("ParallelRange: entry %v, %v", k, v)
				}
				c.do(v.(int), v.(int)+1)
			})
			return ""
		}, func(c *call) string { return "" }})
	}
	if !has('p') && !has('s') {
		return vs
	}
	if has('s') {
		// sequential reductions
		for _, r := range reds {
			r := r
			vs = append(vs, &variant{"Map." + r.name, false, r.min, r.kind, func(c *call) string { return r.run(c, mk(c), false) }, r.want})
		}
		return vs
	}
	vs = append(vs, &variant{"Map.ParallelAnd", false, 1, '&', func(c *call) string {
		m := mk(c)
		return fmt.Sprint(m.ParallelAnd(func(mp map[interface{}]interface{}) bool { return c.pred[lf(c, m, mp)] }))
	}, func(c *call) string { return fmt.Sprint(c.all(0, c.n)) }})
	vs = append(vs, &variant{"Map.ParallelOr", false, 1, '|', func(c *call) string {
		m := mk(c)
		return fmt.Sprint(m.ParallelOr(func(mp map[interface{}]interface{}) bool { return c.pred[lf(c, m, mp)] }))
	}, func(c *call) string { return fmt.Sprint(c.any(0, c.n)) }})
	for _, r := range reds {
		r := r
		vs = append(vs, &variant{"Map.Parallel" + r.name, false, r.min, r.kind, func(c *call) string { return r.run(c, mk(c), true) }, r.want})
	}
	return vs
}

func mapSpecVariants(post bool) []*svariant {
	mk := func(c *scall) *sync.Map {
		c.t.Procs(c.gomaxprocs())
		m := splitMap(c.t, c.n)
		if post {
			c.post = func() { usable(c.t, m, c.n) }
		}
		return m
	}
	lf := func(c *scall, m *sync.Map, mp smap) (sval, bool) {
		i := splitOf(c.t, m, mp)
		d := c.ev(i, i+1) == 'D'
		return sval{i, i + 1, d}, d
	}
	res := func(v sval, b bool) string { return fmt.Sprintf("%v,%v", v, b) }
	jdec := func(c *scall, lo, hi int) string { return res(sval{lo, hi, true}, true) }
	yes := func(*scall, int, int) string { return "true" }
	no := func(*scall, int, int) string { return "false" }
	return []*svariant{
		{"Map.SpeculativeRange", false, 1, 'd', func(c *scall) string {
			mk(c).SpeculativeRange(func(k, v interface{}) bool {
				i := v.(int)
				if k.(skey).id != i {
					c.t.Failf("SpeculativeRange: entry %v, %v", k, v)
				}
				return c.ev(i, i+1) != 'D'
			})
			return ""
		}, "", func(*scall, int, int) string { return "" }},
		{"Map.SpeculativeAnd", false, 1, 'a', func(c *scall) string {
			m := mk(c)
			return fmt.Sprint(m.SpeculativeAnd(func(mp map[interface{}]interface{}) bool { _, d := lf(c, m, mp); return !d }))
		}, "true", no},
		{"Map.SpeculativeOr", false, 1, 'd', func(c *scall) string {
			m := mk(c)
			return fmt.Sprint(m.SpeculativeOr(func(mp map[interface{}]interface{}) bool { _, d := lf(c, m, mp); return d }))
		}, "false", yes},
		{"Map.SpeculativeReduce", false, 1, 'j', func(c *scall) string {
			m := mk(c)
			r, b := m.SpeculativeReduce(func(mp map[interface{}]interface{}) (interface{}, bool) { v, d := lf(c, m, mp); return c.encV(v), d },
				func(x, y interface{}) (interface{}, bool) {
					v, d := c.glue(c.decV(x), c.decV(y))
					return c.encV(v), d
				})
			return res(c.decV(r), b)
		}, "", jdec},
		{"Map.SpeculativeReduceFloat64", false, 1, 'j', func(c *scall) string {
			m := mk(c)
			r, b := m.SpeculativeReduceFloat64(func(mp map[interface{}]interface{}) (float64, bool) {
				v, d := lf(c, m, mp)
				return c.encF(v), d
			}, func(x, y float64) (float64, bool) {
				v, d := c.glue(c.decF(x), c.decF(y))
				return c.encF(v), d
			})
			return res(c.decF(r), b)
		}, "", jdec},
		{"Map.SpeculativeReduceInt", false, 1, 'j', func(c *scall) string {
			m := mk(c)
			r, b := m.SpeculativeReduceInt(func(mp map[interface{}]interface{}) (int, bool) {
				v, d := lf(c, m, mp)
				return c.encI(v), d
			}, func(x, y int) (int, bool) {
				v, d := c.glue(c.decI(x), c.decI(y))
				return c.encI(v), d
			})
			return res(c.decI(r), b)
		}, "", jdec},
		{"Map.SpeculativeReduceString", false, 1, 'j', func(c *scall) string {
			m := mk(c)
			r, b := m.SpeculativeReduceString(func(mp map[interface{}]interface{}) (string, bool) {
				v, d := lf(c, m, mp)
				return c.encS(v), d
			}, func(x, y string) (string, bool) {
				v, d := c.glue(c.decS(x), c.decS(y))
				return c.encS(v), d
			})
			return res(c.decS(r), b)
		}, "", jdec},
	}
}

type seqRed struct {
	name string
	run  func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string
	want func(n int) string
}

// seqMapReds are the sequential split-wise functions.
func seqMapReds() []seqRed {
	pr := func(n int) int {
		r := 1
		for i := 0; i < n; i++ {
			r *= primes[i]
		}
		return r
	}
	letters := func(n int) (s string) {
		for i := 0; i < n; i++ {
			s += string(rune('a' + i))
		}
		return
	}
	// non-commutative associative integer operation: composition of x -> a*x+b modulo 97
	pack := func(a, b int) int { return a*100 + b }
	compose := func(x, y int) int {
		return pack((x/100)*(y/100)%97, ((x%100)*(y/100)+y%100)%97)
	}
	fold := func(n int) int {
		r := pack(2, 3)
		for i := 1; i < n; i++ {
			r = compose(r, pack(2+i, 3+2*i))
		}
		return r
	}
	return []seqRed{
		{"Reduce", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return m.Reduce(func(mp map[interface{}]interface{}) interface{} {
				i := idx(mp)
				leaf(i)
				return string(rune('a' + i))
			}, func(x, y interface{}) interface{} { return x.(string) + y.(string) }).(string)
		}, letters},
		{"ReduceString", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return m.ReduceString(func(mp map[interface{}]interface{}) string {
				i := idx(mp)
				leaf(i)
				return string(rune('a' + i))
			}, func(x, y string) string { return x + y })
		}, letters},
		{"ReduceStringSum", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return m.ReduceStringSum(func(mp map[interface{}]interface{}) string {
				i := idx(mp)
				leaf(i)
				return string(rune('a' + i))
			})
		}, letters},
		{"ReduceInt", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprint(m.ReduceInt(func(mp map[interface{}]interface{}) int { i := idx(mp); leaf(i); return pack(2+i, 3+2*i) }, compose))
		}, func(n int) string { return fmt.Sprint(fold(n)) }},
		{"ReduceFloat64", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprint(m.ReduceFloat64(func(mp map[interface{}]interface{}) float64 {
				i := idx(mp)
				leaf(i)
				return float64(pack(2+i, 3+2*i))
			},
				func(x, y float64) float64 { return float64(compose(int(x), int(y))) }))
		}, func(n int) string { return fmt.Sprint(fold(n)) }},
		{"ReduceIntSum", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprint(m.ReduceIntSum(func(mp map[interface{}]interface{}) int { i := idx(mp); leaf(i); return 1 << uint(i) }))
		}, func(n int) string { return fmt.Sprint(1<<uint(n) - 1) }},
		{"ReduceFloat64Sum", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprint(m.ReduceFloat64Sum(func(mp map[interface{}]interface{}) float64 {
				i := idx(mp)
				leaf(i)
				return float64(int(1) << uint(i))
			}))
		}, func(n int) string { return fmt.Sprint(1<<uint(n) - 1) }},
		{"ReduceIntProduct", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprint(m.ReduceIntProduct(func(mp map[interface{}]interface{}) int { i := idx(mp); leaf(i); return primes[i] }))
		}, func(n int) string { return fmt.Sprint(pr(n)) }},
		{"ReduceFloat64Product", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprintf("%.0f", m.ReduceFloat64Product(func(mp map[interface{}]interface{}) float64 {
				i := idx(mp)
				leaf(i)
				return float64(primes[i])
			}))
		}, func(n int) string { return fmt.Sprint(pr(n)) }},
		{"And", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprint(m.And(func(mp map[interface{}]interface{}) bool { return leaf(idx(mp)) != 'D' }))
		}, func(int) string { return "true" }},
		{"Or", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			return fmt.Sprint(m.Or(func(mp map[interface{}]interface{}) bool { return leaf(idx(mp)) == 'D' }))
		}, func(int) string { return "false" }},
		{"Range", func(m *sync.Map, leaf func(i int) byte, idx func(mp smap) int) string {
			m.Range(func(k, v interface{}) bool { return leaf(v.(int)) != 'D' })
			return ""
		}, func(int) string { return "" }},
	}
}

func d04() {
	// sequential variants
	for _, r := range seqMapReds() {
		r := r
		for n := 1; n <= 7; n++ {
			n := n
			prop := "D04"
			if r.name == "Range" {
				prop = "D03"
			}
			reg(prop, fmt.Sprintf("Map.%s/%d", r.name, n), func(t *vh.T) {
				for k := -1; k < n; k++ {
					if k >= 0 && r.name != "And" && r.name != "Or" && r.name != "Range" {
						break
					}
					m := splitMap(t, n)
					var log []int
					got := r.run(m, func(i int) byte {
						log = append(log, i)
						if i == k {
							return 'D'
						}
						return 'N'
					}, func(mp smap) int { return splitOf(t, m, mp) })
					want, upto := r.want(n), n-1
					if k >= 0 {
						upto = k
						switch r.name {
						case "And":
							want = "false"
						case "Or":
							want = "true"
						}
					}
					if got != want {
						t.Failf("%s on %d splits (decisive: %d) returns %s instead of %s", r.name, n, k, got, want)
					}
					if len(log) != upto+1 {
						t.Failf("%s on %d splits (decisive: %d) visits %v", r.name, n, k, log)
					}
					for i, x := range log {
						if i != x {
							t.Failf("%s on %d splits (decisive: %d) visits %v", r.name, n, k, log)
						}
					}
					usable(t, m, n)
					t.Cases(1)
				}
			})
		}
	}
	// several splits per batch: predicates
	for _, v := range mapSpecVariants(false)[:3] {
		v := v
		prop := "D04"
		if v.name == "Map.SpeculativeRange" {
			prop = "D03"
		}
		for n := 2; n <= 6; n++ {
			vectors("ND", n, func(w string) {
				for p := 1; 2*p < n; p++ {
					p := p
					reg(prop, fmt.Sprintf("%s/%s/procs=%d", v.name, w, p), func(t *vh.T) {
						c := v.setup(t, len(w), 0, len(w))
						c.procs = p
						s := make([]int, len(w))
						c.ev = func(lo, hi int) byte {
							s[lo]++
							if s[lo] > 1 {
								t.Failf("split %d is visited twice", lo)
							}
							return w[lo]
						}
						got := v.run(c)
						k := first(w, "D")
						v.check(c, got, k, k+1)
						for i := 0; i < len(w) && (k < 0 || i <= k); i++ {
							if s[i] != 1 {
								t.Failf("split %d was visited %d times", i, s[i])
							}
						}
					})
				}
			})
		}
	}
	for _, v := range mapVariants("rp") {
		v := v
		prop := "D04"
		if v.name == "Map.ParallelRange" {
			prop = "D03"
		}
		if v.kind != 'd' && v.kind != '&' && v.kind != '|' {
			continue
		}
		for n := 2; n <= 7; n++ {
			n := n
			bools(n, func(p []bool) {
				if v.kind == 'd' && first(bstr(p), "1") >= 0 {
					return
				}
				for pr := 1; 2*pr < n; pr++ {
					pr := pr
					reg(prop, fmt.Sprintf("%s/%s/procs=%d", v.name, bstr(p), pr), func(t *vh.T) {
						c := v.setup(t, n, 0, n)
						c.procs = pr
						copy(c.pred, p)
						s := make([]int, n)
						c.leaf = func(lo, hi int) {
							s[lo]++
							if s[lo] > 1 {
								t.Failf("split %d is visited twice", lo)
							}
						}
						got := v.run(c)
						if w := v.want(c); got != w {
							t.Failf("%s returned %s instead of %s", v.name, got, w)
						}
						neutral := true
						for i := range p {
							neutral = neutral && p[i] == (v.kind == '&')
						}
						for i := range s {
							if s[i] != 1 && (neutral || v.kind == 'd') {
								t.Failf("split %d was visited %d times", i, s[i])
							}
						}
						c.finish()
					})
				}
			})
		}
	}
	// the lock is held exclusively during a visit: the visitor writes to the entry while
	// another thread uses the map
	type visitor struct {
		name  string
		visit func(m *sync.Map, f func(mp smap))
	}
	var vis []visitor
	add := func(name string, visit func(m *sync.Map, f func(mp smap))) { vis = append(vis, visitor{name, visit}) }
	add("Reduce", func(m *sync.Map, f func(mp smap)) {
		m.Reduce(func(mp map[interface{}]interface{}) interface{} { f(mp); return 0 }, func(x, y interface{}) interface{} { return 0 })
	})
	add("ReduceInt", func(m *sync.Map, f func(mp smap)) {
		m.ReduceInt(func(mp map[interface{}]interface{}) int { f(mp); return 0 }, func(x, y int) int { return 0 })
	})
	add("ReduceIntSum", func(m *sync.Map, f func(mp smap)) {
		m.ReduceIntSum(func(mp map[interface{}]interface{}) int { f(mp); return 0 })
	})
	add("ReduceIntProduct", func(m *sync.Map, f func(mp smap)) {
		m.ReduceIntProduct(func(mp map[interface{}]interface{}) int { f(mp); return 0 })
	})
	add("ReduceFloat64", func(m *sync.Map, f func(mp smap)) {
		m.ReduceFloat64(func(mp map[interface{}]interface{}) float64 { f(mp); return 0 }, func(x, y float64) float64 { return 0 })
	})
	add("ReduceFloat64Sum", func(m *sync.Map, f func(mp smap)) {
		m.ReduceFloat64Sum(func(mp map[interface{}]interface{}) float64 { f(mp); return 0 })
	})
	add("ReduceFloat64Product", func(m *sync.Map, f func(mp smap)) {
		m.ReduceFloat64Product(func(mp map[interface{}]interface{}) float64 { f(mp); return 0 })
	})
	add("ReduceString", func(m *sync.Map, f func(mp smap)) {
		m.ReduceString(func(mp map[interface{}]interface{}) string { f(mp); return "" }, func(x, y string) string { return "" })
	})
	add("ReduceStringSum", func(m *sync.Map, f func(mp smap)) {
		m.ReduceStringSum(func(mp map[interface{}]interface{}) string { f(mp); return "" })
	})
	add("ParallelReduce", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduce(func(mp map[interface{}]interface{}) interface{} { f(mp); return 0 }, func(x, y interface{}) interface{} { return 0 })
	})
	add("ParallelReduceInt", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceInt(func(mp map[interface{}]interface{}) int { f(mp); return 0 }, func(x, y int) int { return 0 })
	})
	add("ParallelReduceIntSum", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceIntSum(func(mp map[interface{}]interface{}) int { f(mp); return 0 })
	})
	add("ParallelReduceIntProduct", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceIntProduct(func(mp map[interface{}]interface{}) int { f(mp); return 0 })
	})
	add("ParallelReduceFloat64", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceFloat64(func(mp map[interface{}]interface{}) float64 { f(mp); return 0 }, func(x, y float64) float64 { return 0 })
	})
	add("ParallelReduceFloat64Sum", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceFloat64Sum(func(mp map[interface{}]interface{}) float64 { f(mp); return 0 })
	})
	add("ParallelReduceFloat64Product", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceFloat64Product(func(mp map[interface{}]interface{}) float64 { f(mp); return 0 })
	})
	add("ParallelReduceString", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceString(func(mp map[interface{}]interface{}) string { f(mp); return "" }, func(x, y string) string { return "" })
	})
	add("ParallelReduceStringSum", func(m *sync.Map, f func(mp smap)) {
		m.ParallelReduceStringSum(func(mp map[interface{}]interface{}) string { f(mp); return "" })
	})
	add("SpeculativeReduce", func(m *sync.Map, f func(mp smap)) {
		m.SpeculativeReduce(func(mp map[interface{}]interface{}) (interface{}, bool) { f(mp); return 0, false }, func(x, y interface{}) (interface{}, bool) { return 0, false })
	})
	add("SpeculativeReduceInt", func(m *sync.Map, f func(mp smap)) {
		m.SpeculativeReduceInt(func(mp map[interface{}]interface{}) (int, bool) { f(mp); return 0, false }, func(x, y int) (int, bool) { return 0, false })
	})
	add("SpeculativeReduceFloat64", func(m *sync.Map, f func(mp smap)) {
		m.SpeculativeReduceFloat64(func(mp map[interface{}]interface{}) (float64, bool) { f(mp); return 0, false }, func(x, y float64) (float64, bool) { return 0, false })
	})
	add("SpeculativeReduceString", func(m *sync.Map, f func(mp smap)) {
		m.SpeculativeReduceString(func(mp map[interface{}]interface{}) (string, bool) { f(mp); return "", false }, func(x, y string) (string, bool) { return "", false })
	})
	tr := func(mp map[interface{}]interface{}, f func(mp smap)) bool { f(mp); return true }
	add("And", func(m *sync.Map, f func(mp smap)) {
		m.And(func(mp map[interface{}]interface{}) bool { return tr(mp, f) })
	})
	add("Or", func(m *sync.Map, f func(mp smap)) {
		m.Or(func(mp map[interface{}]interface{}) bool { return !tr(mp, f) })
	})
	add("ParallelAnd", func(m *sync.Map, f func(mp smap)) {
		m.ParallelAnd(func(mp map[interface{}]interface{}) bool { return tr(mp, f) })
	})
	add("ParallelOr", func(m *sync.Map, f func(mp smap)) {
		m.ParallelOr(func(mp map[interface{}]interface{}) bool { return !tr(mp, f) })
	})
	add("SpeculativeAnd", func(m *sync.Map, f func(mp smap)) {
		m.SpeculativeAnd(func(mp map[interface{}]interface{}) bool { return tr(mp, f) })
	})
	add("SpeculativeOr", func(m *sync.Map, f func(mp smap)) {
		m.SpeculativeOr(func(mp map[interface{}]interface{}) bool { return !tr(mp, f) })
	})
	for _, v := range vis {
		v := v
		for n := 1; n <= 4; n++ {
			for at := 0; at < n; at++ {
				for _, o := range []byte("LSD") {
					n, o, at := n, o, at
					reg("D04", fmt.Sprintf("Map.%s/exclusive/%d/%d/%c", v.name, n, at, o), func(t *vh.T) {
						t.Procs(n)
						m := splitMap(t, n)
						k := skey{uint64(at), at}
						var x interface{}
						var ok bool
						var wg gosync.WaitGroup
						wg.Add(1)
						go func() {
							defer wg.Done()
							switch o {
							case 'L':
								x, ok = m.Load(k)
							case 'S':
								x, ok = m.LoadOrStore(k, 55)
							case 'D':
								x, ok = m.DeleteOrStore(k, 55)
							}
						}()
						v.visit(m, func(mp smap) {
							y, here := mp[k]
							if !here {
								return
							}
							mp[k] = 101
							t.Yield()
							if mp[k] != 101 {
								t.Failf("the entry changed during a visit: %v", mp[k])
							}
							mp[k] = y.(int) + 200
						})
						wg.Wait()
						if !ok || x != at && x != at+200 {
							t.Failf("operation %c during a visit returned %v, %v", o, x, ok)
						}
						t.Outcome("%v", x)
					})
				}
			}
			// empty splits are visited, too, and exclusively
			for at := 0; at < n && n <= 3; at++ {
				for _, o := range []byte("LSCcID") {
					n, at, o := n, at, o
					reg("D04", fmt.Sprintf("Map.%s/empty/%d/%d/%c", v.name, n, at, o), func(t *vh.T) {
						t.Procs(n)
						m := splitMap(t, n)
						k := skey{uint64(at), at}
						m.Delete(k)
						var x interface{}
						var ok bool
						var wg gosync.WaitGroup
						wg.Add(1)
						go func() {
							defer wg.Done()
							x, ok = applyOp(m, o, k, 55)
						}()
						mine := 0
						v.visit(m, func(mp smap) {
							y, here := mp[k]
							if len(mp) == 1 && !here {
								t.Yield()
								return
							}
							mine++
							if len(mp) > 1 || here && y != 55 {
								t.Failf("a function sees the map %v", mp)
							}
							mp[skey{uint64(at), 99}] = 7
							t.Yield()
							if z, h := mp[k]; h != here || z != y {
								t.Failf("the split changed during a visit: %v", mp)
							}
							delete(mp, skey{uint64(at), 99})
						})
						if mine != 1 {
							t.Failf("split %d was visited %d times", at, mine)
						}
						wg.Wait()
						wr, wo, wa := specOp(o, false, 0, 55)
						if val(x) != wr || ok != wo {
							t.Failf("operation %c during a visit returned %v, %v", o, x, ok)
						}
						if z, h := m.Load(k); h != (wa != 0) || val(z) != wa {
							t.Failf("operation %c during a visit leaves %v, %v", o, z, h)
						}
						t.Outcome("ok")
					})
				}
			}
			if n <= 2 {
				n := n
				reg("D04", fmt.Sprintf("Map.%s/two/%d", v.name, n), func(t *vh.T) {
					t.Procs(n)
					m := splitMap(t, n)
					visit := func() {
						v.visit(m, func(mp smap) {
							for k, x := range mp {
								mp[k] = x.(int) + 1000
								t.Yield()
								mp[k] = x.(int) + 100
							}
						})
					}
					var wg gosync.WaitGroup
					wg.Add(1)
					go func() { defer wg.Done(); visit() }()
					visit()
					wg.Wait()
					for i := 0; i < n; i++ {
						if x, _ := m.Load(skey{uint64(i), i}); x != i+200 {
							t.Failf("two visits: entry %d is %v", i, x)
						}
					}
				})
			}
		}
	}
}
