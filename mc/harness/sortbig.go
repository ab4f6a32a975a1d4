package harness

import (
	"fmt"

	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/zz_verif/vh"
)

// Inputs found by an adversary of quicksort, and IsSorted for many sizes.

// advProg lets Sort sort a collection that decides its elements while they are compared, then the
// elements that were decided.
func advProg(t *vh.T, kind string, n int, desc bool) {
	a := vh.NewAdversary(n, desc)
	sort.Sort(a)
	in := a.Values()
	if desc {
		for i := range in {
			in[i] = n + 2 - in[i]
		}
	}
	sortProg(t, kind, in, false)
	t.Cases(1)
}

// desc is a collection of n elements i - 2n*(number of steps at or before i).
type stepsDown struct {
	n    int
	a, b int
}

func (s stepsDown) val(i int) int {
	if i < 0 || i >= s.n {
		panic(fmt.Sprintf("index %d of %d", i, s.n))
	}
	v := i
	if s.a > 0 && i >= s.a {
		v -= 2 * s.n
	}
	if s.b > 0 && i >= s.b {
		v -= 2 * s.n
	}
	return v
}
func (s stepsDown) Len() int           { return s.n }
func (s stepsDown) Less(i, j int) bool { return s.val(i) < s.val(j) }
func (s stepsDown) Swap(i, j int)      { panic("IsSorted swaps elements") }

// steps are the positions at which descents are tried for size n.
func steps(n int, dense bool) (r []int) {
	seen := map[int]bool{}
	add := func(p int) {
		if p > 0 && p < n && !seen[p] {
			seen[p] = true
			r = append(r, p)
		}
	}
	for i := 1; i <= 20; i++ {
		add(i)
		if i < 5 {
			add(n - i)
		}
	}
	if dense {
		for i := 0; i < n; i++ {
			add(i)
		}
		return
	}
	for k := 1; k < 16; k++ {
		for d := -1; d <= 1; d++ {
			add(10 + (n-10)*k/16 + d)
			if d >= 0 {
				add(n*k/16 + d)
				add(n*k/12 + d)
			}
		}
	}
	for k := qgrain; k < n; k += qgrain {
		add(k)
		add(k + 10)
	}
	for k := 1024; k < n; k += 1024 {
		add(k)
		add(k + 1)
	}
	return
}

func isSortedSizes(name string, sizes []int, dense bool, thorough bool) {
	type q struct{ n, a int }
	var all []q
	for _, n := range sizes {
		all = append(all, q{n, 0})
		for _, a := range steps(n, dense) {
			all = append(all, q{n, a})
		}
	}
	per := 1000000 / sizes[len(sizes)-1]
	if per > 60 {
		per = 60
	}
	for i := 0; i*per < len(all); i++ {
		l := all[i*per:]
		if len(l) > per {
			l = l[:per]
		}
		vh.Register(vh.Instance{Prop: "E03", Name: fmt.Sprintf("many/IsSorted/%s/%d", name, i), Delay: 1, Strict: true, Alone: true, NoNative: i%10 != 0, Thorough: thorough, Body: func(t *vh.T) {
			for _, x := range l {
				if got := sort.IsSorted(stepsDown{x.n, x.a, 0}); got != (x.a == 0) {
					t.Failf("IsSorted returns %v for %d elements with a step down at %d", got, x.n, x.a)
				}
				t.Cases(1)
			}
		}})
	}
}

func init() {
	for _, prop := range []string{"E01", "E04"} {
		for _, n := range []int{qgrain, qgrain + 1, 1400, 1500, 1700, 2000, 2600, 3000, 4000} {
			for _, desc := range []bool{false, true} {
				for _, kind := range []string{"Sort/coll", "Sort/int", "StableSort/coll"} {
					if kind != "Sort/coll" && prop == "E04" {
						continue
					}
					n, desc, kind := n, desc, kind
					vh.Register(vh.Instance{Prop: prop, Name: fmt.Sprintf("many/adversary/%s/n=%d/%v", kind, n, desc), Delay: 1, Strict: true, Alone: true, Body: func(t *vh.T) { advProg(t, kind, n, desc) }})
				}
			}
		}
	}
	var r []int
	for n := qgrain - 2; n < 2*qgrain+60; n++ {
		if n%3 == 0 || n < qgrain+40 || n > 2*qgrain-20 {
			r = append(r, n)
		}
	}
	isSortedSizes("small", r, false, false)
	r = nil
	for k := 3; k <= 34; k++ {
		for d := -3; d <= 12; d++ {
			if k <= 10 && d%2 == 0 || d == 0 || d == 10 || d == 11 || k%8 == 0 && d >= -1 {
				r = append(r, k*qgrain+d)
			}
		}
		r = append(r, k*qgrain+qgrain/2+k)
	}
	isSortedSizes("large", r, false, false)
	isSortedSizes("dense", []int{qgrain + 3, 3*qgrain + 5, 4*qgrain + 10}, true, false)
	isSortedSizes("dense8", []int{8*qgrain + 11}, true, true)
	isSortedSizes("far", []int{65536, 65546, 65547, 131082, 200000}, false, false)
	for k := 2; k < 80; k += 3 {
		r = append(r, k*1000+k, k*1024, k*1024+10)
	}
	isSortedSizes("larger", r, false, true)
	// two descents, some schedules
	for _, n := range []int{8*qgrain + 9, 10 * qgrain, 16*qgrain + 13} {
		for _, a := range []int{1, 11, n / 4, n/4 + 10, n / 2, n/2 + 6, n * 3 / 4, n - 1} {
			for _, b := range []int{0, n / 8, n/2 + 5, n - 1} {
				n, a, b := n, a, b
				vh.Register(vh.Instance{Prop: "E03", Name: fmt.Sprintf("many/IsSorted/n=%d/%d,%d", n, a, b), Delay: 2, Strict: true, Cap: 400, Body: func(t *vh.T) {
					if sort.IsSorted(stepsDown{n, a, b}) {
						t.Failf("IsSorted returns true for %d elements with steps down at %d and %d", n, a, b)
					}
				}})
			}
		}
	}
	n := 1<<20 + 11
	for _, a := range []int{1, 11, 65536, n / 4, n / 2, n * 3 / 4, n - 1} {
		for _, b := range []int{0, n / 3} {
			a, b := a, b
			vh.Register(vh.Instance{Prop: "E03", Name: fmt.Sprintf("many/IsSorted/n=%d/%d,%d", n, a, b), Delay: 1, Strict: true, Alone: true, Body: func(t *vh.T) {
				if sort.IsSorted(stepsDown{n, a, b}) {
					t.Failf("IsSorted returns true for %d elements with steps down at %d and %d", n, a, b)
				}
			}})
		}
	}
}
