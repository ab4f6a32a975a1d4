package harness

import (
	"fmt"
	"math"
	"slices"
	gosort "sort"
	"strings"

	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/zz_verif/vh"
)

type elem struct{ k, tag int }

// coll is a user-defined collection; accesses to v are race checked element by element.
type coll struct {
	v []elem
}

func (c *coll) Len() int           { return len(c.v) }
func (c *coll) Less(i, j int) bool { return c.v[i].k < c.v[j].k }
func (c *coll) Swap(i, j int)      { c.v[i], c.v[j] = c.v[j], c.v[i] }

func (c *coll) SequentialSort(i, j int) {
	tmp := append([]elem(nil), c.v[i:j]...)
	slices.SortStableFunc(tmp, func(a, b elem) int { return a.k - b.k })
	copy(c.v[i:j], tmp)
}

func (c *coll) NewTemp() sort.StableSorter {
	return &coll{make([]elem, len(c.v))}
}

func (c *coll) Assign(source sort.StableSorter) func(i, j, len int) {
	src := source.(*coll)
	return func(i, j, len int) { copy(c.v[i:i+len], src.v[j:j+len]) }
}

// ---------------------------------------------------------------- inputs

type pattern struct {
	name string
	gen  func(n int) []int
}

// blocks: block b of len(w) has level w[b]; within a block: constant, ascending or descending
func blocks(w string, within byte) pattern {
	return pattern{w + string(within), func(n int) []int {
		r := make([]int, n)
		nb := len(w)
		for i := range r {
			b := i * nb / n
			lo := b * n / nb
			r[i] = int(w[b]-'0') * 2 * n
			switch within {
			case 'a':
				r[i] += i - lo
			case 'd':
				r[i] -= i - lo
			case 'm':
				r[i] += (i - lo) * 7 % 5
			}
		}
		return r
	}}
}

// ones: each of the q blocks used by StableSort at the top level has a number of ones
var oneCounts = []byte("01hnN")

func ones(w string) pattern {
	return pattern{"ones" + w, func(n int) []int {
		r := make([]int, n)
		q := n / 4
		for b := 0; b < 4; b++ {
			lo, hi := b*q, (b+1)*q
			if b == 3 {
				hi = n
			}
			sz := hi - lo
			k := 0
			switch w[b] {
			case '1':
				k = 1
			case 'h':
				k = sz / 2
			case 'n':
				k = sz - 1
			case 'N':
				k = sz
			}
			// the ones are spread over the block
			for i := 0; i < sz; i++ {
				if (i+1)*k/sz > i*k/sz {
					r[lo+i] = 1
				}
			}
		}
		return r
	}}
}

// mod: i*m mod n, reduced to d distinct values
func mod(m, d int) pattern {
	return pattern{fmt.Sprintf("mod%d-%d", m, d), func(n int) []int {
		r := make([]int, n)
		for i := range r {
			x := (i * m) % n
			if d > 0 {
				x %= d
			}
			r[i] = x
		}
		return r
	}}
}

var special = []pattern{
	{"sorted", func(n int) []int { return seqOf(n, func(i int) int { return i }) }},
	{"reverse", func(n int) []int { return seqOf(n, func(i int) int { return n - i }) }},
	{"const", func(n int) []int { return seqOf(n, func(i int) int { return 5 }) }},
	{"pipe", func(n int) []int {
		return seqOf(n, func(i int) int {
			if i < n/2 {
				return i
			}
			return n - i
		})
	}},
	{"valley", func(n int) []int {
		return seqOf(n, func(i int) int {
			if i < n/2 {
				return n - i
			}
			return i
		})
	}},
	{"alternate", func(n int) []int { return seqOf(n, func(i int) int { return i % 2 }) }},
	{"alternate2", func(n int) []int { return seqOf(n, func(i int) int { return (i + 1) % 2 * n / (i + 1) }) }},
	{"rotated1", func(n int) []int { return seqOf(n, func(i int) int { return (i + 1) % (n + 1) % n }) }},
	{"rotated", func(n int) []int { return seqOf(n, func(i int) int { return (i + n/3) % (n + 1) }) }},
	{"negative", func(n int) []int { return seqOf(n, func(i int) int { return (i*37)%n - n/2 }) }},
	{"extreme", func(n int) []int {
		return seqOf(n, func(i int) int { return []int{math.MaxInt32, math.MinInt32, 0}[(i*5/2)%3] })
	}},
}

// outliers: constant except at up to three places
func outliers(pos []int, delta []int) pattern {
	return pattern{fmt.Sprintf("out%v%v", pos, delta), func(n int) []int {
		r := make([]int, n)
		for i, p := range pos {
			if p < 0 {
				p += n
			}
			r[p] = delta[i]
		}
		return r
	}}
}

func seqOf(n int, f func(i int) int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

func noSpace(s string) string {
	return strings.NewReplacer(" ", ",", "[", "", "]", ";").Replace(s)
}

// ---------------------------------------------------------------- programs

// sortProg sorts data with one of the sorting functions and checks the result.
func sortProg(t *vh.T, kind string, in []int, stable bool) {
	n := len(in)
	want := append([]int(nil), in...)
	gosort.Ints(want)
	bad := func(i int, x, y interface{}) {
		t.Failf("%s: element %d of %d is %v instead of %v", kind, i, n, x, y)
	}
	sortIt := func(x interface{}) {
		if strings.HasPrefix(kind, "StableSort") {
			sort.StableSort(x.(sort.StableSorter))
		} else {
			sort.Sort(x.(sort.Sorter))
		}
	}
	switch kind[strings.Index(kind, "/")+1:] {
	case "coll":
		c := &coll{make([]elem, n)}
		for i, x := range in {
			c.v[i] = elem{x, i}
		}
		sortIt(c)
		seen := make([]bool, n)
		var prev elem
		for i, e := range c.v {
			if e.k != want[i] || e.k != in[e.tag] {
				bad(i, e.k, want[i])
			}
			if seen[e.tag] {
				t.Failf("%s: an element occurs twice", kind)
			}
			seen[e.tag] = true
			if stable && i > 0 && prev.k == e.k && prev.tag > e.tag {
				t.Failf("%s: equal elements %d and %d are in the wrong order (at %d of %d)", kind, prev.tag, e.tag, i, n)
			}
			prev = e
			// the call has ended: nobody else uses the collection
			c.v[i] = elem{}
		}
	case "int":
		a := append([]int(nil), in...)
		sortIt(sort.IntSlice(a))
		for i := range a {
			if a[i] != want[i] {
				bad(i, a[i], want[i])
			}
			a[i] = 0
		}
	case "float64":
		a := make([]float64, n)
		for i := range a {
			a[i] = float64(in[i]) + 0.25
		}
		sortIt(sort.Float64Slice(a))
		for i := range a {
			if a[i] != float64(want[i])+0.25 {
				bad(i, a[i], want[i])
			}
			a[i] = 0
		}
	case "string":
		str := func(x int) string { return fmt.Sprintf("%012d", x+1<<35) }
		a := make([]string, n)
		for i := range a {
			a[i] = str(in[i])
		}
		sortIt(sort.StringSlice(a))
		for i := range a {
			if a[i] != str(want[i]) {
				bad(i, a[i], str(want[i]))
			}
			a[i] = ""
		}
	}
}

func sortNames(prop, kind string, n int, p pattern, bound int, thorough bool) {
	vh.Register(vh.Instance{Prop: prop, Name: noSpace(fmt.Sprintf("%s/n=%d/%s", kind, n, p.name)), Delay: bound, Thorough: thorough, NoNative: false,
		Body: func(t *vh.T) {
			sortProg(t, kind, p.gen(n), prop == "E02")
			t.Cases(1)
		}})
}

// delays is the bound for the sorts of words: races are looked for in more schedules
func delays(prop, kd string, n int) int {
	if prop == "E04" && kd == "coll" && n <= qgrain+1 {
		return 3
	}
	return 1
}

func init() {
	e0124()
	e03()
}

const (
	qgrain = 0x500
	mgrain = 0x3000
)

func e0124() {
	kinds := []string{"coll", "int", "float64", "string"}
	var words, ow []pattern
	vectors("012", 4, func(w string) { words = append(words, blocks(w, 'c')) })
	vectors("012", 3, func(w string) {
		for _, c := range []byte("adm") {
			words = append(words, blocks(w, c))
		}
	})
	vectors(string(oneCounts), 4, func(w string) { ow = append(ow, ones(w)) })
	mods := []pattern{mod(7, 0), mod(7919, 0), mod(7919, 2), mod(7919, 3), mod(7919, 10), mod(104729, 100), mod(611, 0), mod(3, 0), mod(3, 2), mod(5, 7)}
	for _, prop := range []string{"E01", "E02", "E04"} {
		for _, alg := range []string{"Sort", "StableSort"} {
			if prop == "E02" && alg == "Sort" {
				continue
			}
			for _, kd := range kinds {
				if (prop == "E02") && kd != "coll" {
					continue
				}
				kind := alg + "/" + kd
				// far above the thresholds
				if alg == "Sort" || prop != "E04" {
					for i, n := range []int{65536, 70001, 131073, 200003} {
						for j, p := range []pattern{mods[1], mods[3], special[1], special[2], mods[6]} {
							sortNames(prop, kind, n, pattern{"far/" + p.name, p.gen}, 1, i == 2 && prop != "E02" || j > 3 || alg == "Sort" && prop == "E04" && (i > 1 || kd != "int") || (i+j+len(kd))%3 != 0 && prop != "E02" || i == 3 && j != 0)
						}
					}
				}
				// below the thresholds
				for n := 0; n <= 5; n++ {
					n := n
					vectors("012", n, func(w string) {
						sortNames(prop, kind, n, pattern{"w" + w, func(n int) []int { return seqOf(n, func(i int) int { return int(w[i]) }) }}, 0, false)
					})
				}
				for _, n := range []int{6, 7, 8, 9, 10, 11, 12, 20, 40, 100, qgrain - 1} {
					for _, p := range append(special, mods...) {
						sortNames(prop, kind, n, p, 0, false)
					}
				}
				if alg == "Sort" {
					for _, n := range []int{qgrain, qgrain + 1, qgrain + 2, qgrain + 7, 2 * qgrain, 2*qgrain + 1, 3000, 4*qgrain + 11, 10000} {
						for _, p := range append(special, mods...) {
							sortNames(prop, kind, n, p, 1, n > 6000)
						}
						if kd == "coll" && prop != "E02" || kd == "int" && prop == "E01" {
							for _, p := range words {
								sortNames(prop, kind, n, p, delays(prop, kd, n), n > qgrain+1 && n != 3000 || kd == "int" && n != qgrain+1)
							}
						}
					}
					if kd == "coll" {
						ps := []int{0, 1, 2, qgrain / 8, qgrain / 4, qgrain / 2, qgrain/2 + 1, qgrain / 8 * 7, -2, -1}
						for _, n := range []int{qgrain, qgrain + 1} {
							for i, a := range ps {
								for _, b := range ps[i+1:] {
									for _, d := range [][]int{{-1, -1}, {-1, 1}, {1, -1}, {1, 1}} {
										sortNames(prop, kind, n, outliers([]int{a, b}, d), 1, n > qgrain && prop != "E01")
									}
								}
								for _, d := range []int{-1, 1} {
									sortNames(prop, kind, n, outliers([]int{a}, []int{d}), 1, false)
								}
							}
						}
					}
					// all schedules
					for _, p := range append(append([]pattern(nil), special...), mods[:4]...) {
						for _, n := range []int{qgrain, 2*qgrain + 1} {
							if kd == "coll" {
								p := pattern{"schedules/" + p.name, p.gen}
								sortNames(prop, kind, n, p, 0, n > qgrain)
							}
						}
					}
				} else {
					for _, n := range []int{mgrain - 1, mgrain, mgrain + 1, mgrain + 2, mgrain + 3, 20000, 2 * mgrain, 4*mgrain - 1, 4 * mgrain, 4*mgrain + 1, 4*mgrain + 3} {
						for _, p := range append(special, mods...) {
							sortNames(prop, kind, n, p, 1, n > mgrain+3 || n != mgrain+1 && n != mgrain+3 && kd != "coll")
						}
						if kd == "coll" && prop != "E04" {
							for k, p := range ow {
								sortNames(prop, kind, n, p, 1, n != mgrain+1 && !(n == mgrain+3 && k%5 == 0))
							}
							for _, p := range words {
								sortNames(prop, kind, n, p, 1, n != mgrain+2)
							}
						}
						if kd == "coll" && prop == "E04" {
							for k, p := range ow {
								sortNames(prop, kind, n, p, 1, n != mgrain+1 || k%5 != 0)
							}
						}
					}
					if kd == "coll" {
						for _, p := range []pattern{special[1], mods[1], mods[3]} {
							sortNames(prop, kind, 4*mgrain+1, pattern{"big/" + p.name, p.gen}, 1, false)
							sortNames(prop, kind, mgrain, pattern{"schedules/" + p.name, p.gen}, 2, false)
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- IsSorted

// descents: 0,1,2,... with a step down at each of the positions
func descents(n int, at []int, flat bool) []int {
	r := make([]int, n)
	x := 0
	for i := range r {
		if i > 0 {
			if !flat {
				x++
			}
			for _, p := range at {
				if p == i {
					x -= 2
				}
			}
		}
		r[i] = x
	}
	return r
}

func isSortedProg(t *vh.T, kind string, in []int) {
	want := gosort.IntsAreSorted(in)
	got := false
	switch kind {
	case "IsSorted":
		c := &coll{make([]elem, len(in))}
		for i, x := range in {
			c.v[i] = elem{x, i}
		}
		got = sort.IsSorted(c)
		for i := range c.v {
			if c.v[i].k != in[i] {
				t.Failf("IsSorted changes the collection")
			}
			c.v[i].k = 0 // nobody else uses the collection any more
		}
	case "IntsAreSorted":
		got = sort.IntsAreSorted(append([]int(nil), in...))
	case "Float64sAreSorted":
		a := make([]float64, len(in))
		for i := range a {
			a[i] = float64(in[i])
		}
		got = sort.Float64sAreSorted(a)
	case "StringsAreSorted":
		a := make([]string, len(in))
		for i := range a {
			a[i] = fmt.Sprintf("%012d", in[i]+1<<35)
		}
		got = sort.StringsAreSorted(a)
	}
	if got != want {
		t.Failf("%s returns %v", kind, got)
	}
	t.Outcome("%v", got)
}

func e03() {
	kinds := []string{"IsSorted", "IntsAreSorted", "Float64sAreSorted", "StringsAreSorted"}
	rg := func(prop, kind string, n int, at []int, flat bool, thorough bool, bound int) {
		regB(prop, noSpace(fmt.Sprintf("%s/n=%d/descents=%v/flat=%v", kind, n, at, flat)), bound, thorough, func(t *vh.T) {
			isSortedProg(t, kind, descents(n, at, flat))
		})
	}
	for _, kind := range kinds {
		kind := kind
		for n := 0; n <= 5; n++ {
			n := n
			vectors("012", n, func(w string) {
				reg("E03", fmt.Sprintf("%s/w%s", kind, w), func(t *vh.T) {
					isSortedProg(t, kind, seqOf(n, func(i int) int { return int(w[i]) }))
				})
			})
		}
		for _, n := range []int{6, 9, 10, 11, 12, 40} {
			for p := 0; p < n; p++ {
				rg("E03", kind, n, []int{p}, p%2 == 0, false, 0)
			}
		}
		for _, n := range []int{qgrain - 1, qgrain, qgrain + 9, qgrain + 10, qgrain + 11, 2*qgrain + 10, 2*qgrain + 11, 4*qgrain + 13} {
			big := n > 4*qgrain && kind != "IsSorted"
			rg("E03", kind, n, nil, false, false, 0)
			rg("E03", kind, n, nil, true, false, 0)
			for p := 1; p < n; p++ {
				// close to a multiple of a half, of 1024, and the ends
				near := p < 14 || n-p < 4
				for _, h := range []int{1, 2, 3, 4, 5, 6, 7, 8} {
					d := p - 10 - (n-10)*h/8
					near = near || d >= -2 && d <= 2
				}
				near = near || p%1024 < 2 || p%1024 > 1021
				all := kind == "IsSorted" && (n == qgrain+10 || n == 2*qgrain+11)
				if near || all {
					rg("E03", kind, n, []int{p}, p%2 == 0, big, 0)
				} else if kind == "IsSorted" {
					rg("E03", kind, n, []int{p}, p%2 == 0, true, 0)
				}
			}
		}
	}
	// two calls at the same time
	for _, n := range []int{qgrain + 10, 2*qgrain + 11, 4*qgrain + 13} {
		for _, n2 := range []int{qgrain + 10, 2*qgrain + 11} {
			for _, at := range []int{1, 10, n2 / 4, n2/2 + 5, n2 - 1} {
				n, n2, at := n, n2, at
				vh.Register(vh.Instance{Prop: "E03", Name: fmt.Sprintf("twice/IsSorted/n=%d/sorted+n=%d/descent=%d", n, n2, at), Delay: 3, Body: func(t *vh.T) {
					together(t, func(t *vh.T) { isSortedProg(t, "IsSorted", descents(n, nil, at%2 == 0)) },
						func(t *vh.T) { isSortedProg(t, "IsSorted", descents(n2, []int{at}, false)) })
				}})
			}
		}
	}
	// several descents: all schedules, and nothing goes on afterwards
	for _, n := range []int{qgrain + 10, qgrain + 11, 2*qgrain + 10, 2*qgrain + 11} {
		pos := []int{1, 9, 10, 11, n / 4, n/2 - 10, n/2 + 4, n/2 + 5, n/2 + 6, n / 4 * 3, 1023, 1024, 1025, n - 2, n - 1}
		for i := range pos {
			for j := i + 1; j < len(pos); j++ {
				rg("E03", "IsSorted", n, []int{pos[i], pos[j]}, false, n > 2*qgrain && (i+j)%3 != 0, 0)
				rg("E04", "IsSorted", n, []int{pos[i], pos[j]}, false, n > 2*qgrain && (i+j)%3 != 0, 0)
			}
			rg("E04", "IsSorted", n, []int{pos[i]}, false, false, 0)
		}
		rg("E04", "IsSorted", n, nil, false, false, 0)
	}
}
