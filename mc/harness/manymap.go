package harness

import (
	"fmt"

	"github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/vh"
)

// Maps with many splits.

var manySplits = []int{8, 9, 11, 12, 13, 16, 17, 24, 31, 32, 33, 64, 65, 100}

func manyMaps() {
	manyPar(mapVariants("p"), "D04", "D04", "", manySplits)
	manyPar(mapVariants("s"), "D04", "D04", "", []int{8, 9, 16, 33, 100})
	manyPar(mapVariants("rpu"), "", "", "D06", []int{8, 11, 16, 33})
	manyPar(mapVariants("r"), "D03", "", "", manySplits)
	sv := mapSpecVariants(false)
	manySpec(sv[1:], "D04", "D04", "", manySplits)
	manySpec(sv[:1], "D03", "D03", "", manySplits)
	manySpec(mapSpecVariants(true), "", "", "D06", []int{8, 11, 16, 33})
	procs := []int{1, 2, 3, 4, 5, 8, 16, 33}
	for _, n := range manySplits {
		for kind := 0; kind < 3; kind++ {
			n, kind := n, kind
			// kind 0: an entry in every split; 1: every third split empty, others with one or two entries; 2: nearly all empty
			d := make([]int, n)
			total := 0
			for i := range d {
				switch kind {
				case 0:
					d[i] = 1
				case 1:
					d[i] = i % 3
				case 2:
					if i%7 == 4 {
						d[i] = 3
					}
				}
				total += d[i]
			}
			regMany("D03", fmt.Sprintf("Range/%d/%d", n, kind), 100, func(t *vh.T) {
				for stop := 0; stop <= total; stop++ {
					x := newDmap(t, d)
					visits, ended := 0, false
					x.m.Range(func(k, v interface{}) bool {
						if ended {
							t.Failf("Range goes on after false")
						}
						visits++
						r := x.visit(k, v, func(int) bool { return visits == stop })
						ended = !r
						return r
					})
					if stop == 0 {
						x.all()
					} else if visits != stop {
						t.Failf("Range stopped after %d instead of %d visits", visits, stop)
					}
					t.Cases(1)
				}
			})
			for _, p := range procs {
				p := p
				regMany("D03", fmt.Sprintf("ParallelRange/%d/%d/procs=%d", n, kind, p), n, func(t *vh.T) {
					t.Procs(p)
					x := newDmap(t, d)
					x.m.ParallelRange(func(k, v interface{}) { x.visit(k, v, nil) })
					x.all()
				})
				for _, stop := range append([]int{-1}, positions(total)...) {
					stop := stop
					regMany("D03", fmt.Sprintf("SpeculativeRange/%d/%d/procs=%d/stop=%d", n, kind, p, stop), n, func(t *vh.T) {
						t.Procs(p)
						x := newDmap(t, d)
						x.m.SpeculativeRange(func(k, v interface{}) bool {
							return x.visit(k, v, func(id int) bool { return id == stop })
						})
						if stop < 0 {
							x.all()
						}
					})
				}
			}
		}
	}
	largeMaps()
	for _, size := range []int{511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000, 65536, 65537} {
		size := size
		vh.Register(vh.Instance{Prop: "D05", Name: fmt.Sprintf("many/NewMap/%d", size), Delay: 1, Alone: true, Body: func(t *vh.T) { checkSplits(t, sync.NewMap(size), size) }})
		vh.Register(vh.Instance{Prop: "D05", Name: fmt.Sprintf("many/NewMap/0/procs=%d", size), Delay: 1, Alone: true, NoNative: true, Body: func(t *vh.T) {
			t.Procs(size)
			checkSplits(t, sync.NewMap(0), size)
		}})
	}
	// sizes of maps, GOMAXPROCS
	for _, size := range []int{10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500} {
		size := size
		reg("D05", fmt.Sprintf("many/NewMap/%d", size), func(t *vh.T) { checkSplits(t, sync.NewMap(size), size) })
		for _, arg := range []int{0, -1, -size} {
			arg := arg
			reg("D05", fmt.Sprintf("many/NewMap/%d/procs=%d", arg, size), func(t *vh.T) {
				t.Procs(size)
				m := sync.NewMap(arg)
				t.Procs(3)
				checkSplits(t, m, size)
			})
		}
		for _, op := range "LSCscITXD" {
			op := byte(op)
			reg("D05", fmt.Sprintf("many/%c/size=%d", op, size), func(t *vh.T) {
				hs := append([]uint64(nil), hashes...)
				for h := 0; h < 40; h++ {
					hs = append(hs, uint64(h*7919), uint64(size)+uint64(h-20), ^uint64(0)-uint64(h*size))
				}
				for _, h := range hs {
					m := sync.NewMap(size)
					k := skey{h, 0}
					m.LoadOrStore(k, 5)
					res, ok := applyOp(m, op, k, 70)
					wantRes, wantOK, wantAfter := specOp(op, true, 5, 70)
					if val(res) != wantRes || ok != wantOK {
						t.Failf("%c on hash %d with %d splits: %v, %v instead of %v, %v", op, h, size, res, ok, wantRes, wantOK)
					}
					got := m.Split(k).Map[k]
					if val(got) != wantAfter {
						t.Failf("%c on hash %d with %d splits leaves %v in Split(key), not %v", op, h, size, got, wantAfter)
					}
					t.Cases(1)
				}
			})
		}
	}
	// keys of any type with equal and different hash values; uncomparable values
	reg("D01", "kinds-of-keys", func(t *vh.T) {
		for n := 1; n <= 3; n++ {
			m := sync.NewMap(n)
			a, b := &pkey{1}, &pkey{1}
			ks := []sync.Hasher{skey{1, 0}, ikey(1), okey(1), fkey("x"), fkey("y"), a, b, skey{1, 1}}
			vs := []interface{}{[]int{1}, map[int]int{2: 2}, func() {}, struct{ x []int }{[]int{3}}, 5, nil, [2][]int{{1}, {2}}, "s"}
			str := func(x interface{}) string {
				if _, ok := x.(func()); ok {
					return "func"
				}
				return fmt.Sprintf("%T %v", x, x)
			}
			is := func(what string, x interface{}, ok bool, want interface{}, wantOK bool) {
				if str(x) != str(want) || ok != wantOK {
					t.Failf("%s: %s, %v instead of %s, %v", what, str(x), ok, str(want), wantOK)
				}
			}
			for i, k := range ks {
				v := vs[i]
				x, ok := m.Load(k)
				is("Load", x, ok, nil, false)
				x, ok = m.LoadOrStore(k, v)
				is("LoadOrStore", x, ok, v, false)
				x, ok = m.LoadOrStore(k, vs[(i+1)%len(vs)])
				is("LoadOrStore", x, ok, v, true)
				x, ok = m.LoadOrCompute(k, func() interface{} { t.Failf("LoadOrCompute calls its function"); return nil })
				is("LoadOrCompute", x, ok, v, true)
			}
			for i, k := range ks {
				v, w := vs[i], vs[(i+3)%len(vs)]
				x, ok := m.Load(k)
				is("Load", x, ok, v, true)
				x, ok = m.DeleteOrStore(k, w)
				is("DeleteOrStore", x, ok, v, true)
				x, ok = m.DeleteOrStore(k, w)
				is("DeleteOrStore", x, ok, w, false)
				x, ok = m.DeleteOrCompute(k, func() interface{} { t.Failf("DeleteOrCompute calls its function"); return nil })
				is("DeleteOrCompute", x, ok, w, true)
				x, ok = m.DeleteOrCompute(k, func() interface{} { return v })
				is("DeleteOrCompute", x, ok, v, false)
				x, ok = m.Modify(k, func(o interface{}, ok bool) (interface{}, bool) {
					is("Modify", o, ok, v, true)
					return w, true
				})
				is("Modify", x, ok, w, true)
				x, ok = m.Modify(k, func(o interface{}, ok bool) (interface{}, bool) {
					is("Modify", o, ok, w, true)
					return v, false
				})
				is("Modify", x, ok, v, false)
				x, ok = m.Load(k)
				is("Load", x, ok, nil, false)
				x, ok = m.LoadOrCompute(k, func() interface{} { return w })
				is("LoadOrCompute", x, ok, w, false)
			}
			cnt := 0
			m.Range(func(k, v interface{}) bool {
				for i := range ks {
					if k == ks[i] {
						cnt++
						is("Range", v, true, vs[(i+3)%len(vs)], true)
					}
				}
				return true
			})
			t.Check(cnt == len(ks), "Range visits %d entries", cnt)
			for i, k := range ks {
				m.Delete(k)
				for j := i + 1; j < len(ks); j++ {
					x, ok := m.Load(ks[j])
					is("Load", x, ok, vs[(j+3)%len(vs)], true)
				}
				x, ok := m.Load(k)
				is("Load", x, ok, nil, false)
			}
			t.Cases(1)
		}
	})
}

type ikey int

func (k ikey) Hash() uint64 { return 1 }

type okey int

func (k okey) Hash() uint64 { return 1 }

type fkey string

func (k fkey) Hash() uint64 { return uint64(len(k)) << 63 }

type pkey struct{ h uint64 }

func (k *pkey) Hash() uint64 { return k.h }

// checkSplits checks that m has want different splits, used for the hash values modulo want.
func checkSplits(t *vh.T, m *sync.Map, want int) {
	distinct := map[*sync.Split]bool{}
	hashes := 64 * want
	if want > 600 {
		hashes = 24 * want
	}
	for h := 0; h < hashes; h++ {
		s := m.Split(skey{uint64(h), 0})
		distinct[s] = true
		if s.Map == nil || len(s.Map) != 0 {
			t.Failf("a split of a new map holds %v", s.Map)
		}
	}
	if want <= 5000 { // the number of steps of an execution is limited
		visited := 0
		m.And(func(mp map[interface{}]interface{}) bool { visited++; return true })
		if visited != want {
			t.Failf("the map has %d splits instead of %d", visited, want)
		}
	}
	if len(distinct) != want {
		t.Failf("%d of %d splits are used", len(distinct), want)
	}
	var locked []*sync.Split
	for s := range distinct {
		if len(locked) > 600 {
			break
		}
		s.Lock()
		s.Map[skey{0, len(locked)}] = 1
		locked = append(locked, s)
	}
	for _, s := range locked {
		if len(s.Map) != 1 {
			t.Failf("splits share a map: %v", s.Map)
		}
		s.Unlock()
	}
}

// largeMaps: many entries in a split
func largeMaps() {
	for _, n := range []int{1, 2, 3} {
		for _, k := range []int{6, 9, 17, 33, 50, 65, 130, 300, 1100} {
			n, k := n, k
			d := make([]int, n)
			for i := range d {
				d[i] = k
			}
			for _, it := range []string{"Range", "ParallelRange", "SpeculativeRange"} {
				it := it
				iter := func(x *dmap, f func(k, v interface{}) bool) {
					switch it {
					case "Range":
						x.m.Range(f)
					case "ParallelRange":
						x.m.ParallelRange(func(k, v interface{}) { f(k, v) })
					case "SpeculativeRange":
						x.m.SpeculativeRange(f)
					}
				}
				name := fmt.Sprintf("many/large/%s/splits=%d/entries=%d", it, n, k)
				reg("D03", name, func(t *vh.T) {
					x := newDmap(t, d)
					iter(x, func(k, v interface{}) bool { return x.visit(k, v, nil) })
					x.all()
				})
				for _, op := range "McLS" {
					op := byte(op)
					if n == 3 && op != 'M' {
						continue
					}
					// another goroutine works on an entry, or on a new one of the same split
					vh.Register(vh.Instance{Prop: "D03", Name: name + "/concurrent/" + string(op), Delay: 4, Body: func(t *vh.T) {
						x := newDmap(t, d)
						visits := 0 // in split 0
						check := func() {
							if visits != 0 && visits != k {
								t.Failf("an operation takes effect after %d of %d entries of the split were visited", visits, k)
							}
						}
						done := make(chan bool)
						fresh := skey{0, n*k + 5}
						go func() {
							switch op {
							case 'M':
								x.m.Modify(x.keys[k/2], func(v interface{}, ok bool) (interface{}, bool) {
									check()
									return v, ok
								})
							case 'c':
								x.m.DeleteOrCompute(fresh, func() interface{} {
									check()
									return 1
								})
							case 'L':
								x.m.Load(x.keys[k/2])
							case 'S':
								x.m.LoadOrStore(fresh, 1)
							}
							close(done)
						}()
						seenFresh := false
						iter(x, func(key, v interface{}) bool {
							if key == fresh {
								if seenFresh {
									t.Failf("the new key is visited twice")
								}
								seenFresh = true
								return true
							}
							if key.(skey).h%uint64(n) == 0 {
								visits++
							}
							return x.visit(key, v, nil)
						})
						<-done
						x.all()
						t.Outcome("%v", seenFresh)
					}})
				}
			}
			// every operation on every key
			if n*k > 600 {
				continue
			}
			regAlone("D01", fmt.Sprintf("many/large/splits=%d/entries=%d", n, k), func(t *vh.T) {
				m := sync.NewMap(n)
				ref := map[skey]int{}
				step := func(op byte, key skey, arg int) {
					old, present := ref[key]
					wantRes, wantOK, wantAfter := specOp(op, present, old, arg)
					res, ok := applyOp(m, op, key, arg)
					if val(res) != wantRes || ok != wantOK {
						t.Failf("%c on %v: %v, %v instead of %v, %v", op, key, res, ok, wantRes, wantOK)
					}
					if wantAfter == 0 {
						delete(ref, key)
					} else {
						ref[key] = wantAfter
					}
				}
				keys := func(f func(i int, key skey)) {
					for i := 0; i < n*k; i++ {
						f(i, skey{uint64(i * 3), i % 7})
					}
				}
				for r, op := range []byte("SLcsICTXLcSDLC") {
					keys(func(i int, key skey) { step(op, key, 100+r*10000+i) })
					keys(func(i int, key skey) { step('L', key, 0) })
					t.Cases(n * k)
				}
				cnt := 0
				m.Range(func(key, v interface{}) bool {
					cnt++
					if w, ok := ref[key.(skey)]; !ok || w != v {
						t.Failf("Range visits %v, %v; should be %v, %v", key, v, w, ok)
					}
					return true
				})
				t.Check(cnt == len(ref), "Range visits %d of %d entries", cnt, len(ref))
			})
			// a panic at one of many entries
			for _, at := range positions(k) {
				at := at
				if at >= k {
					continue
				}
				vh.Register(vh.Instance{Prop: "D06", Name: fmt.Sprintf("many/large/splits=%d/entries=%d/at=%d", n, k, at), Delay: 2, Strict: k > 9, Alone: true, Thorough: k > 65, Body: func(t *vh.T) {
					for it := 0; it < 3; it++ {
						x := newDmap(t, d)
						visits := make([]int, n)
						f := func(key, v interface{}) bool {
							s := int(key.(skey).h % uint64(n))
							if visits[s]++; s == n/2 && visits[s] == at+1 {
								throw("error", 5)
							}
							return x.visit(key, v, nil)
						}
						pv, panicked := vh.Catch(func() {
							switch it {
							case 0:
								x.m.Range(f)
							case 1:
								x.m.ParallelRange(func(k, v interface{}) { f(k, v) })
							case 2:
								x.m.SpeculativeRange(f)
							}
						})
						checkPanic(t, pv, panicked, "error", 5)
						for _, key := range x.keys {
							if v, ok := x.m.LoadOrStore(key, 1); !ok || v != dval(key.id) {
								t.Failf("key %v has the value %v, %v afterwards", key, v, ok)
							}
						}
					}
				}})
			}
		}
	}
}
