package harness

import (
	"context"
	"fmt"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/speculative"
	"github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/vh"
)

// Programs in which functions passed to one part of the library use other parts of it.

// action calls leaf(i) exactly once for every i < slots, as a function passed to some function of
// the library, and returns a text that depends on all of them only if they have run.
type action struct {
	prop, name string
	slots      int
	crash      bool // panics are not passed on
	run        func(t *vh.T, leaf func(i int))
}

// calm is a collection of n sorted elements without memory.
type calm struct {
	n    int
	leaf func(i, j int)
	less func(i, j int)
}

func (c *calm) Len() int { return c.n }
func (c *calm) Less(i, j int) bool {
	if c.less != nil {
		c.less(i, j)
	}
	return i < j
}
func (c *calm) Swap(i, j int) {}
func (c *calm) SequentialSort(i, j int) {
	if c.leaf != nil {
		c.leaf(i, j)
	}
}
func (c *calm) NewTemp() sort.StableSorter                       { return &calm{n: c.n} }
func (c *calm) Assign(src sort.StableSorter) func(i, j, len int) { return func(i, j, len int) {} }

func nestMap(n, splits int) *sync.Map {
	m := sync.NewMap(splits)
	for i := 0; i < n; i++ {
		k := skey{uint64(i), i}
		m.Split(k).Map[k] = i
	}
	return m
}

func nestActions() (l []action) {
	add := func(prop, name string, slots int, run func(t *vh.T, leaf func(i int))) {
		l = append(l, action{prop, name, slots, prop[0] == 'F', run})
	}
	each := func(leaf func(i int)) func(lo, hi int) {
		return func(lo, hi int) {
			for i := lo; i < hi; i++ {
				leaf(i)
			}
		}
	}
	// parallel
	add("A01", "Do", 2, func(t *vh.T, leaf func(i int)) {
		parallel.Do(func() { leaf(0) }, func() { leaf(1) })
	})
	add("A01", "Do3", 3, func(t *vh.T, leaf func(i int)) {
		parallel.Do(func() { leaf(0) }, func() { leaf(1) }, func() { leaf(2) })
	})
	add("A01", "And", 2, func(t *vh.T, leaf func(i int)) {
		t.Check(!parallel.And(func() bool { leaf(0); return false }, func() bool { leaf(1); return true }), "And returns true")
	})
	add("A01", "Range", 3, func(t *vh.T, leaf func(i int)) {
		parallel.Range(0, 3, 2, each(leaf))
	})
	add("A01", "Range/default", 3, func(t *vh.T, leaf func(i int)) {
		parallel.Range(0, 3, 0, each(leaf))
	})
	add("A01", "RangeOr", 2, func(t *vh.T, leaf func(i int)) {
		t.Check(parallel.RangeOr(0, 2, 2, func(lo, hi int) bool { each(leaf)(lo, hi); return lo == 0 }), "RangeOr returns false")
	})
	add("A03", "ReduceString", 2, func(t *vh.T, leaf func(i int)) {
		s := parallel.ReduceString(func(x, y string) string { return x + y }, func() string { leaf(0); return "a" }, func() string { leaf(1); return "b" })
		t.Check(s == "ab", "ReduceString returns %q", s)
	})
	add("A03", "RangeReduceIntSum", 3, func(t *vh.T, leaf func(i int)) {
		s := parallel.RangeReduceIntSum(0, 3, 3, func(lo, hi int) int { each(leaf)(lo, hi); return lo + 1 })
		t.Check(s == 6, "RangeReduceIntSum returns %v", s)
	})
	add("A03", "RangeReduce", 2, func(t *vh.T, leaf func(i int)) {
		s := parallel.RangeReduce(0, 2, 2, func(lo, hi int) interface{} { each(leaf)(lo, hi); return fmt.Sprint(lo) }, func(x, y interface{}) interface{} { return x.(string) + y.(string) })
		t.Check(s == "01", "RangeReduce returns %v", s)
	})
	// speculative
	add("B01", "speculative.Or", 2, func(t *vh.T, leaf func(i int)) {
		t.Check(!speculative.Or(func() bool { leaf(0); return false }, func() bool { leaf(1); return false }), "speculative.Or returns true")
	})
	add("B01", "speculative.Range", 2, func(t *vh.T, leaf func(i int)) {
		t.Check(!speculative.Range(0, 2, 2, func(lo, hi int) bool { each(leaf)(lo, hi); return false }), "speculative.Range returns true")
	})
	add("B01", "speculative.ReduceString", 2, func(t *vh.T, leaf func(i int)) {
		s, d := speculative.ReduceString(func(x, y string) (string, bool) { return x + y, false }, func() (string, bool) { leaf(0); return "a", false }, func() (string, bool) { leaf(1); return "b", false })
		t.Check(s == "ab" && !d, "ReduceString returns %q, %v", s, d)
	})
	add("B01", "speculative.RangeAnd/last", 3, func(t *vh.T, leaf func(i int)) {
		t.Check(!speculative.RangeAnd(0, 3, 3, func(lo, hi int) bool { each(leaf)(lo, hi); return lo < 2 }), "RangeAnd returns true")
	})
	// sequential
	add("C01", "sequential.Do", 2, func(t *vh.T, leaf func(i int)) {
		sequential.Do(func() { leaf(0) }, func() { leaf(1) })
	})
	add("C01", "sequential.RangeReduceStringSum", 2, func(t *vh.T, leaf func(i int)) {
		s := sequential.RangeReduceStringSum(0, 2, 2, func(lo, hi int) string { each(leaf)(lo, hi); return fmt.Sprint(lo) })
		t.Check(s == "01", "RangeReduceStringSum returns %q", s)
	})
	// maps
	key := func(i int) skey { return skey{uint64(i), i} }
	add("D02", "LoadOrCompute", 1, func(t *vh.T, leaf func(i int)) {
		v, ok := nestMap(0, 2).LoadOrCompute(key(1), func() interface{} { leaf(0); return 5 })
		t.Check(v == 5 && !ok, "LoadOrCompute returns %v, %v", v, ok)
	})
	add("D02", "DeleteOrCompute", 1, func(t *vh.T, leaf func(i int)) {
		v, ok := nestMap(0, 2).DeleteOrCompute(key(1), func() interface{} { leaf(0); return 5 })
		t.Check(v == 5 && !ok, "DeleteOrCompute returns %v, %v", v, ok)
	})
	add("D02", "Modify", 1, func(t *vh.T, leaf func(i int)) {
		v, ok := nestMap(2, 2).Modify(key(1), func(v interface{}, ok bool) (interface{}, bool) { leaf(0); return v.(int) + 5, true })
		t.Check(v == 6 && ok, "Modify returns %v, %v", v, ok)
	})
	add("D03", "Map.Range", 2, func(t *vh.T, leaf func(i int)) {
		nestMap(2, 2).Range(func(k, v interface{}) bool { leaf(v.(int)); return true })
	})
	add("D03", "Map.ParallelRange", 2, func(t *vh.T, leaf func(i int)) {
		nestMap(2, 2).ParallelRange(func(k, v interface{}) { leaf(v.(int)) })
	})
	add("D03", "Map.SpeculativeRange", 2, func(t *vh.T, leaf func(i int)) {
		nestMap(2, 2).SpeculativeRange(func(k, v interface{}) bool { leaf(v.(int)); return true })
	})
	add("D04", "Map.ParallelReduceIntSum", 2, func(t *vh.T, leaf func(i int)) {
		m := nestMap(2, 2)
		s := m.ParallelReduceIntSum(func(mp map[interface{}]interface{}) int { i := splitOf(t, m, mp); leaf(i); return i + 1 })
		t.Check(s == 3, "ParallelReduceIntSum returns %v", s)
	})
	add("D04", "Map.ParallelOr", 2, func(t *vh.T, leaf func(i int)) {
		m := nestMap(2, 2)
		t.Check(m.ParallelOr(func(mp map[interface{}]interface{}) bool { i := splitOf(t, m, mp); leaf(i); return i == 0 }), "ParallelOr returns false")
	})
	add("D04", "Map.SpeculativeReduceString", 2, func(t *vh.T, leaf func(i int)) {
		m := nestMap(2, 2)
		s, d := m.SpeculativeReduceString(func(mp map[interface{}]interface{}) (string, bool) {
			i := splitOf(t, m, mp)
			leaf(i)
			return fmt.Sprint(i), false
		}, func(x, y string) (string, bool) { return x + y, false })
		t.Check(s == "01" && !d, "SpeculativeReduceString returns %q, %v", s, d)
	})
	// sorting
	// whatever the grain sizes, slot k is the one of the interval that contains its point
	slotted := func(t *vh.T, n, slots int, leaf func(i int)) *calm {
		return &calm{n: n, leaf: func(i, j int) {
			t.Check(0 <= i && i <= j && j <= n, "SequentialSort(%d, %d) of %d elements", i, j, n)
			for k := 0; k < slots; k++ {
				if p := (2*k + 1) * n / (2 * slots); i <= p && p < j {
					leaf(k)
				}
			}
		}}
	}
	add("E02", "StableSort", 4, func(t *vh.T, leaf func(i int)) {
		sort.StableSort(slotted(t, 0x3000, 4, leaf))
	})
	add("E01", "Sort", 1, func(t *vh.T, leaf func(i int)) {
		sort.Sort(slotted(t, 0x40, 1, leaf))
	})
	add("E03", "IsSorted", 2, func(t *vh.T, leaf func(i int)) {
		r := sort.IsSorted(&calm{n: 0x700, less: func(i, j int) {
			switch i {
			case 0x200:
				leaf(0)
			case 0x6f0:
				leaf(1)
			}
		}})
		t.Check(r, "IsSorted returns false")
	})
	// pipelines
	pipe := func(prop, name string, slots int, run func(t *vh.T, p *pipeline.Pipeline, leaf func(i int))) {
		add(prop, name, slots, func(t *vh.T, leaf func(i int)) {
			var p pipeline.Pipeline
			run(t, &p, leaf)
			p.Run()
			t.Check(p.Err() == nil, "Err returns %v", p.Err())
		})
	}
	for _, kind := range "POSLX" {
		kind := byte(kind)
		prop := "F02"
		if kind == 'P' || kind == 'L' {
			prop = "F01"
		}
		pipe(prop, fmt.Sprintf("pipeline/%c", kind), 2, func(t *vh.T, p *pipeline.Pipeline, leaf func(i int)) {
			p.Source([]int{0, 1})
			p.NofBatches(2)
			p.Add(mkNode(t, kind, []pipeline.Filter{pipeline.Receive(func(_ int, d interface{}) interface{} {
				for _, e := range d.([]int) {
					leaf(e)
				}
				return d
			})}))
		})
	}
	pipe("F06", "pipeline/source", 2, func(t *vh.T, p *pipeline.Pipeline, leaf func(i int)) {
		i := 0
		p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
			if i == 2 {
				return nil, 0, nil
			}
			leaf(i)
			i++
			return i, 1, nil
		}))
		p.SetVariableBatchSize(1, 1)
		p.Add(pipeline.Par(pipeline.Receive(func(_ int, d interface{}) interface{} { return d })))
	})
	pipe("F01", "pipeline/filter+finalizer", 2, func(t *vh.T, p *pipeline.Pipeline, leaf func(i int)) {
		p.Source([]int{0, 1})
		p.NofBatches(2)
		p.Add(pipeline.Seq(func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
			leaf(0)
			return func(_ int, d interface{}) interface{} { return d }, func() { leaf(1) }
		}))
	})
	add("F10", "pipeline/context", 2, func(t *vh.T, leaf func(i int)) {
		ctx, cancel := context.WithCancel(context.Background())
		var p pipeline.Pipeline
		p.Source([]int{0, 1})
		p.NofBatches(2)
		p.Add(pipeline.Ord(pipeline.Receive(func(i int, d interface{}) interface{} { leaf(i); return d })))
		p.RunWithContext(ctx, cancel)
		t.Check(ctx.Err() == nil, "the context is cancelled")
		cancel()
	})
	return
}

// counted wraps leaf so that it checks that every slot is used exactly once per run.
func (a *action) counted(t *vh.T, leaf func(i int)) {
	n := make([]int, a.slots)
	a.run(t, func(i int) {
		if i < 0 || i >= a.slots {
			t.Failf("%s: slot %d", a.name, i)
		}
		n[i]++
		t.Check(n[i] == 1, "%s: function %d is invoked twice", a.name, i)
		leaf(i)
		n[i] += 10
	})
	for i, k := range n {
		t.Check(k == 11, "%s: function %d has not run to its end (%d)", a.name, i, k)
	}
}

func nest() {
	l := nestActions()
	none := func(int) {}
	isort := func(a *action) bool { return a.prop[0] == 'E' }
	for k := range l {
		for j := range l {
			a, b := &l[k], &l[j]
			for _, procs := range []int{0, 1} {
				procs := procs
				body := func(t *vh.T) {
					if procs > 0 {
						t.Procs(procs)
					}
					a.counted(t, func(i int) {
						if i < 2 {
							b.counted(t, none)
						}
					})
				}
				n := fmt.Sprintf("many/nest/%s/%s/procs=%d", a.name, b.name, procs)
				vh.Register(vh.Instance{Prop: a.prop, Name: n, Delay: 1, Alone: true, Body: body})
				heavy := isort(a) || isort(b)
				vh.Register(vh.Instance{Prop: a.prop, Name: n + "/delays", Delay: 2, Cap: 3000, Strict: true, Alone: true, Thorough: procs > 0 && heavy, Body: body})
				vh.Register(vh.Instance{Prop: a.prop, Name: n + "/delays2", Delay: 3, Cap: 3000, Strict: true, Alone: true, Thorough: procs > 0 || heavy, Body: body})
				if procs == 0 {
					vh.Register(vh.Instance{Prop: a.prop, Name: n + "/all", Cap: 20000, Alone: true, Thorough: heavy || a.crash || b.crash, Body: body})
				}
			}
			// three levels, and an action next to another one
			for q := range l {
				c := &l[q]
				vh.Register(vh.Instance{Prop: a.prop, Name: fmt.Sprintf("many/nest/%s/%s/%s", a.name, b.name, c.name), Delay: 1, Alone: true,
					Thorough: isort(a) && isort(b) || isort(b) && isort(c) || isort(a) && isort(c), Body: func(t *vh.T) {
						a.counted(t, func(i int) {
							if i == a.slots-1 {
								b.counted(t, func(i int) {
									if i == 0 {
										c.counted(t, none)
									}
								})
							} else {
								c.counted(t, none)
							}
						})
					}})
			}
			// panics pass through
			if a.crash || b.crash {
				continue
			}
			prop := map[byte]string{'A': "A04", 'B': "B03", 'C': "C01", 'D': "D06", 'E': "E05"}[a.prop[0]]
			for ki, kind := range []string{"string", "error", "runtime", "percenterr", "customrt"} {
				kind := kind
				vh.Register(vh.Instance{Prop: prop, Name: fmt.Sprintf("many/nest/%s/%s/%s", a.name, b.name, kind), Delay: 1 + (k+j+ki)%3/2, Cap: 2000, Strict: true, Alone: true,
					Body: func(t *vh.T) {
						p, panicked := vh.Catch(func() {
							a.run(t, func(i int) {
								if i == a.slots-1 {
									b.run(t, func(i int) {
										if i == 0 {
											throw(kind, 0)
										}
									})
								}
							})
						})
						checkPanic(t, p, panicked, kind, 0)
					}})
			}
		}
	}
}

// deep: an action inside the same action, many levels deep; crowd: many calls at the same time,
// each of which waits in its last function until all others have got there.
func deep() {
	l := nestActions()
	for k := range l {
		a := &l[k]
		for _, d := range []int{5, 9, 17, 33, 40, 70, 140} {
			for _, procs := range []int{0, 1, 3} {
				d, procs := d, procs
				name := func(s string) string { return fmt.Sprintf("many/nest/%s/%s/%d/procs=%d", s, a.name, d, procs) }
				set := func(t *vh.T) {
					if procs > 0 {
						t.Procs(procs)
					}
				}
				if a.prop[0] != 'E' || d < 10 {
					for _, w := range []string{"deep", "deepfirst"} {
						first := w == "deepfirst"
						vh.Register(vh.Instance{Prop: a.prop, Name: name(w), Delay: 1, Alone: true, Body: func(t *vh.T) {
							set(t)
							var f func(d int)
							f = func(d int) {
								a.counted(t, func(i int) {
									if d > 0 && (i == 0) == first && (first || i == a.slots-1) {
										f(d - 1)
									}
								})
							}
							f(d)
						}})
					}
				}
				vh.Register(vh.Instance{Prop: a.prop, Name: name("crowd"), Delay: 1, Alone: true, Thorough: a.prop[0] == 'E' && d > 40, Body: func(t *vh.T) {
					set(t)
					arrived := make(chan bool, d)
					goon := make(chan bool)
					done := make(chan bool, d)
					for i := 0; i < d; i++ {
						go func() {
							a.counted(t, func(i int) {
								if i == a.slots-1 {
									arrived <- true
									<-goon
								}
							})
							done <- true
						}()
					}
					for i := 0; i < d; i++ {
						<-arrived
					}
					close(goon)
					for i := 0; i < d; i++ {
						<-done
					}
				}})
			}
		}
	}
}

func init() {
	nest()
	deep()
}
