package harness

import (
	"fmt"

	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/zz_verif/vh"
)

// E05: the k-th call of a method panics, for calls spread over the whole execution.

type countState struct {
	calls vh.Calls
	what  string
	k     int
	kind  string
	hit   vh.Counter
}

// countColl is a collection whose elements are not looked at by the race detection; they are in the
// other programs.
type countColl struct {
	v    *vh.Store
	st   *countState
	temp string
}

func (c *countColl) at(what string, i, j int) {
	what = c.temp + what
	if c.st.calls.Call(what, i, j) == c.st.k && what == c.st.what {
		c.st.hit.Add(1)
		throw(c.st.kind, c.st.k)
	}
}

func (c *countColl) Len() int {
	c.at("len", 0, 0)
	return c.v.Len()
}

func (c *countColl) Less(i, j int) bool {
	c.at("less", i, j)
	return c.v.Less(i, j)
}

func (c *countColl) Swap(i, j int) {
	c.at("swap", i, j)
	c.v.Swap(i, j)
}

func (c *countColl) SequentialSort(i, j int) {
	c.at("seq", i, j)
	c.v.Sort(i, j)
}

func (c *countColl) NewTemp() sort.StableSorter {
	c.at("newtemp", 0, 0)
	return &countColl{vh.NewStore(make([]int, c.v.Len())), c.st, "t"}
}

func (c *countColl) Assign(source sort.StableSorter) func(i, j, len int) {
	c.at("assign", 0, 0)
	src := source.(*countColl)
	return func(i, j, len int) {
		c.at("put", i, j)
		c.v.Put(i, src.v, j, len)
	}
}

func runAlg(alg string, c *countColl) bool {
	switch alg {
	case "Sort":
		sort.Sort(c)
	case "StableSort":
		sort.StableSort(c)
	case "IsSorted":
		return sort.IsSorted(c)
	}
	return true
}

// sortCountProg: m calls of each method that is called, and m calls elsewhere than their predecessors
func sortCountProg(t *vh.T, alg string, in []int, m, nth, kinds int) {
	mk := func(st *countState) *countColl {
		return &countColl{vh.NewStore(in), st, ""}
	}
	st := &countState{k: -1}
	c := mk(st)
	want := runAlg(alg, c)
	seq := 0
	for _, what := range []string{"len", "less", "tless", "swap", "seq", "newtemp", "assign", "tassign", "put", "tput"} {
		for _, k := range st.calls.Some(what, m) {
			seq++
			if seq%nth != 0 {
				continue
			}
			s := &countState{what: what, k: k, kind: panicKinds[(seq+kinds)%len(panicKinds)]}
			c := mk(s)
			res := false
			pv, panicked := vh.Catch(func() { res = runAlg(alg, c) })
			if s.hit.Get() > 0 {
				if !panicked {
					t.Failf("call %d of %s of the collection panics, but %s returns normally", k, what, alg)
				}
				checkPanic(t, pv, panicked, s.kind, k)
			} else if panicked {
				t.Failf("%s panics with %v", alg, pv)
			} else if res != want {
				t.Failf("%s returns %v and then %v", alg, want, res)
			}
			t.Cases(1)
		}
	}
}

var imbalanced = []pattern{
	{"smallsecond", func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
			if i >= n/2 && i < n/2+n/4 {
				r[i] = -1
			}
		}
		return r
	}},
	{"rotated", func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = (i + n/3) % n
		}
		return r
	}},
	{"pipe", func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
			if i > n/2 {
				r[i] = n - i
			}
		}
		return r
	}},
	{"fewlarge", func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i % 7
			if i < n/8 {
				r[i] = n + i
			}
		}
		return r
	}},
	mod(7919, 0),
	mod(7919, 3),
}

func init() {
	sizes := map[string][]int{
		"StableSort": {mgrain, mgrain + 1, 2*mgrain + 1, 3 * mgrain, 4*mgrain + 3, 0x10000},
		"Sort":       {qgrain, qgrain + 1, 2*qgrain + 3, 4*qgrain + 1, 10000},
		"IsSorted":   {qgrain, 2*qgrain + 10, 4*qgrain + 10, 8*qgrain + 11},
	}
	for _, alg := range []string{"IsSorted", "Sort", "StableSort"} {
		for ni, n := range sizes[alg] {
			ps := append([]pattern{special[0], special[1]}, imbalanced...)
			if alg == "IsSorted" {
				// steps down
				for _, l := range [][2]int{{11, 0}, {n / 4, 0}, {n/4 + 30, n - 1}, {n / 2, 0}, {n/2 + 5, n/2 + 20}, {n * 3 / 4, 0}, {n - 1, 0}} {
					l := l
					ps = append(ps, pattern{fmt.Sprintf("down%d,%d", l[0], l[1]), func(n int) []int {
						r := make([]int, n)
						for i := range r {
							r[i] = stepsDown{n, l[0], l[1]}.val(i)
						}
						return r
					}})
				}
			}
			for pi, p := range ps {
				alg, n, p := alg, n, p
				m, nth := 12, 1
				if alg == "StableSort" {
					m = 6
				}
				kinds := ni*7 + pi*3
				vh.Register(vh.Instance{Prop: "E05", Name: noSpace(fmt.Sprintf("many/calls/%s/n=%d/%s", alg, n, p.name)), Delay: 1, Strict: true, Alone: true, NoNative: true,
					Body: func(t *vh.T) { sortCountProg(t, alg, p.gen(n), m, nth, kinds) }})
			}
		}
	}
	// all schedules with few deviations: one step down, and a panic elsewhere
	for _, n := range []int{2*qgrain + 10, 2*qgrain + 11, 4*qgrain + 10} {
		at := []int{10, 11, n/4 + 1, n/2 - 1, n / 2, n/2 + 5, n/2 + 6, n * 3 / 4, n - 1}
		for i, down := range at {
			for j, site := range at {
				n, down, site := n, down, site
				kind := panicKinds[(i*5+j)%len(panicKinds)]
				body := func(t *vh.T) {
					x := &vh.Sites{What: []string{"less"}, Tags: []int{site}}
					c := &panicSteps{stepsDown{n, down, 0}, x, kind}
					res := false
					pv, panicked := vh.Catch(func() { res = sort.IsSorted(c) })
					switch {
					case x.Hits(0):
						checkPanic(t, pv, panicked, kind, site)
					case panicked:
						t.Failf("IsSorted panics with %v", pv)
					case res:
						t.Failf("IsSorted returns true for %d elements with a step down at %d", n, down)
					}
					t.Outcome("%v", panicked)
				}
				vh.Register(vh.Instance{Prop: "E05", Name: fmt.Sprintf("IsSorted/n=%d/down=%d/panic=%d/%s", n, down, site, kind), Cap: 2000, Body: body})
			}
		}
	}
}

// panicSteps panics when a pair of elements with the given second index is compared.
type panicSteps struct {
	stepsDown
	x    *vh.Sites
	kind string
}

func (c *panicSteps) Less(i, j int) bool {
	if c.x.Hit("less", i) >= 0 {
		throw(c.kind, i)
	}
	return c.stepsDown.Less(i, j)
}
