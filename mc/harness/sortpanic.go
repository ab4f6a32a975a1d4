package harness

import (
	"fmt"
	"slices"
	gosort "sort"
	"strings"

	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/zz_verif/vh"
)

// E05: methods of collections that panic.
//
// Sites: len, less:<tag> (Less with the element), swap:<tag>, seq:<tag> (SequentialSort of a range
// with the element), newtemp, assign (Assign of the collection), tassign (of the temporary one),
// put:<tag> (assigning the element to the collection), tput:<tag>, tless:<tag>
type panicColl struct {
	coll
	x    *vh.Sites
	kind string
	temp bool
}

func (c *panicColl) at(what string, tags ...int) {
	if i := c.x.Hit(what, tags...); i >= 0 {
		throw(c.kind, i)
	}
}

func (c *panicColl) t(what string) string {
	if c.temp {
		return "t" + what
	}
	return what
}

func tags(l []elem) (r []int) {
	for _, e := range l {
		r = append(r, e.tag)
	}
	return
}

func (c *panicColl) Len() int {
	c.at("len")
	return len(c.v)
}

func (c *panicColl) Less(i, j int) bool {
	a, b := c.v[i], c.v[j]
	c.at(c.t("less"), a.tag, b.tag)
	return a.k < b.k
}

func (c *panicColl) Swap(i, j int) {
	a, b := c.v[i], c.v[j]
	c.at("swap", a.tag, b.tag)
	c.v[i], c.v[j] = b, a
}

func (c *panicColl) SequentialSort(i, j int) {
	tmp := append([]elem(nil), c.v[i:j]...)
	if c.x.Has("seq") {
		c.at("seq", tags(tmp)...)
	}
	slices.SortStableFunc(tmp, func(a, b elem) int { return a.k - b.k })
	copy(c.v[i:j], tmp)
}

func (c *panicColl) NewTemp() sort.StableSorter {
	c.at("newtemp")
	return &panicColl{coll{make([]elem, len(c.v))}, c.x, c.kind, true}
}

func (c *panicColl) Assign(source sort.StableSorter) func(i, j, len int) {
	c.at(c.t("assign"))
	src := source.(*panicColl)
	return func(i, j, len int) {
		if w := c.t("put"); c.x.Has(w) {
			c.at(w, tags(src.v[j:j+len])...)
		}
		copy(c.v[i:i+len], src.v[j:j+len])
	}
}

func sortPanicProg(t *vh.T, alg string, in []int, sites []string, kind string) {
	x := &vh.Sites{}
	for _, s := range sites {
		what, tag, ok := strings.Cut(s, ":")
		k := -1
		if ok {
			fmt.Sscan(tag, &k)
		}
		x.What, x.Tags = append(x.What, what), append(x.Tags, k)
	}
	c := &panicColl{x: x, kind: kind}
	for i, k := range in {
		c.v = append(c.v, elem{k, i})
	}
	res := false
	pv, panicked := vh.Catch(func() {
		switch alg {
		case "Sort":
			sort.Sort(c)
		case "StableSort":
			sort.StableSort(c)
		case "IsSorted":
			res = sort.IsSorted(c)
		}
	})
	first := -1
	for i := range sites {
		if x.Hits(i) && (first < 0 || panicked && strings.HasPrefix(fmt.Sprint(pv), panicText(kind, i))) {
			first = i
		}
	}
	if first < 0 {
		if panicked {
			t.Failf("%s panics with %v", alg, pv)
		}
		if alg == "IsSorted" {
			t.Check(res == gosort.IntsAreSorted(in), "IsSorted returns %v", res)
		} else {
			for i := 1; i < len(c.v); i++ {
				if c.v[i].k < c.v[i-1].k {
					t.Failf("%s does not sort", alg)
				}
			}
		}
	} else {
		checkPanic(t, pv, panicked, kind, first)
	}
	t.Outcome("%v", panicked)
	// everything is usable afterwards
	if len(in) < 4000 {
		sortProg(t, map[bool]string{true: "StableSort/coll", false: "Sort/coll"}[alg == "StableSort"], in, false)
	}
}

func e05() {
	ts := func(n int) []int { return []int{0, 1, n / 4, n/2 - 1, n / 2, n * 3 / 4, n - 2, n - 1} }
	inputs := []pattern{special[0], special[1], special[2], mod(7919, 0), mod(7919, 3)}
	for _, alg := range []string{"IsSorted", "Sort", "StableSort"} {
		sizes := []int{0, 1, 2, 12, qgrain - 1, qgrain, qgrain + 1, 2*qgrain + 11}
		if alg == "StableSort" {
			sizes = []int{0, 1, 2, 12, mgrain - 1, mgrain, mgrain + 3, 4*mgrain + 5}
		}
		for _, n := range sizes {
			sites := []string{"len"}
			for _, w := range []string{"less", "swap", "seq", "put", "tput", "tless"} {
				if alg == "IsSorted" && w != "less" || alg == "Sort" && strings.Trim(w, "tpu") == "" || alg == "StableSort" && w == "swap" {
					continue
				}
				for _, tag := range ts(n) {
					if tag >= 0 && tag < n {
						sites = append(sites, fmt.Sprintf("%s:%d", w, tag))
					}
				}
			}
			if alg == "StableSort" {
				sites = append(sites, "newtemp", "assign", "tassign")
			}
			for pi, p := range inputs {
				for si, s := range sites {
					var pairs [][]string
					pairs = append(pairs, []string{s})
					if n > 12 {
						for k := 1; k < len(sites); k += 5 {
							pairs = append(pairs, []string{s, sites[(si+k)%len(sites)]})
						}
					}
					for k, l := range pairs {
						alg, n, p, l := alg, n, p, l
						kind := panicKinds[(si+pi+k)%len(panicKinds)]
						body := func(t *vh.T) { sortPanicProg(t, alg, p.gen(n), l, kind) }
						delay := 1
						if n == qgrain || n == qgrain+1 || n == mgrain+3 && len(l) == 1 {
							delay = 2
						}
						if n < qgrain || n == mgrain-1 {
							delay = 0 // all schedules
						}
						big := k > 0 && (pi+si+k)%4 > 0 || n > 40000 && (pi != 3 || k > 0)
						vh.Register(vh.Instance{Prop: "E05", Name: noSpace(fmt.Sprintf("%s/n=%d/%s/%v/%s", alg, n, p.name, l, kind)), Delay: delay, Strict: true, Thorough: big, Body: body})
						if n == qgrain+1 && k == 0 || n == mgrain && k == 0 && pi == 3 {
							vh.Register(vh.Instance{Prop: "E05", Name: noSpace(fmt.Sprintf("schedules/%s/n=%d/%s/%v/%s", alg, n, p.name, l, kind)), Cap: 3000, Thorough: n > qgrain+1 && si%3 > 0, Body: body})
						}
					}
				}
			}
		}
	}
}

func init() { e05() }
