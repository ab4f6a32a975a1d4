package harness

import (
	"fmt"
	gosync "sync"

	"github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/vh"
)

// distributions of keys over n splits
func dists(n, maxPer, maxAll int, f func(d []int)) {
	d := make([]int, n)
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == n {
			f(append([]int(nil), d...))
			return
		}
		for k := 0; k <= maxPer && k <= left; k++ {
			d[i] = k
			rec(i+1, left-k)
		}
		d[i] = 0
	}
	rec(0, maxAll)
}

// dval is the value of the key with number id; some values are nil
func dval(id int) interface{} {
	if id%3 == 1 {
		return nil
	}
	return 100 + id
}

type dmap struct {
	t       *vh.T
	m       *sync.Map
	keys    []skey
	cnt     []int
	stopped []bool // by split: the function has returned false there
}

func newDmap(t *vh.T, d []int) *dmap {
	x := &dmap{t: t, m: sync.NewMap(len(d)), stopped: make([]bool, len(d))}
	id := 0
	for s, k := range d {
		for j := 0; j < k; j++ {
			key := skey{uint64(s + j*len(d)), id}
			if v, ok := x.m.LoadOrStore(key, dval(id)); ok || v != dval(id) {
				t.Failf("LoadOrStore: %v, %v", v, ok)
			}
			x.keys = append(x.keys, key)
			id++
		}
	}
	x.cnt = make([]int, id)
	return x
}

// visit is the function passed to the iteration.
func (x *dmap) visit(k, v interface{}, stop func(id int) bool) bool {
	key := k.(skey)
	if key.id >= len(x.keys) || x.keys[key.id] != key {
		x.t.Failf("an unknown key is visited: %v", key)
	}
	if v != dval(key.id) {
		x.t.Failf("the value of key %v is %v", key, v)
	}
	s := int(key.h % uint64(len(x.stopped)))
	if x.stopped[s] {
		x.t.Failf("key %v is visited after the function returned false in this split", key)
	}
	x.cnt[key.id]++
	if x.cnt[key.id] > 1 {
		x.t.Failf("key %v is visited twice", key)
	}
	if stop != nil && stop(key.id) {
		x.stopped[s] = true
		return false
	}
	return true
}

func (x *dmap) all() {
	for i, c := range x.cnt {
		if c != 1 {
			x.t.Failf("key %v was visited %d times when the call returned", x.keys[i], c)
		}
	}
}

func d03() {
	for n := 1; n <= 4; n++ {
		n := n
		dists(n, 2, 5, func(d []int) {
			total := 0
			for _, k := range d {
				total += k
			}
			nm := fmt.Sprint(d)[1:]
			nm = nm[:len(nm)-1]
			b := []byte(nm)
			for i := range b {
				if b[i] == ' ' {
					b[i] = '-'
				}
			}
			nm = string(b)
			reg("D03", "Range/"+nm, func(t *vh.T) {
				for o := 0; o < 2; o++ {
					t.MapOrder(o)
					for stop := 0; stop <= total; stop++ {
						x := newDmap(t, d)
						visits := 0
						ended := false
						x.m.Range(func(k, v interface{}) bool {
							if ended {
								t.Failf("Range goes on after false")
							}
							visits++
							r := x.visit(k, v, func(int) bool { return visits == stop })
							ended = !r
							return r
						})
						if stop == 0 {
							x.all()
						} else if visits != stop {
							t.Failf("Range stopped after %d instead of %d visits", visits, stop)
						}
						t.Cases(1)
					}
				}
			})
			for p := 1; p <= 3; p++ {
				p := p
				if 2*(p-1) >= n {
					break
				}
				for _, yield := range []bool{false, true} {
					yield := yield
					if yield && total > 4 {
						continue
					}
					reg("D03", fmt.Sprintf("ParallelRange/%s/procs=%d/yield=%v", nm, p, yield), func(t *vh.T) {
						t.Procs(p)
						x := newDmap(t, d)
						x.m.ParallelRange(func(k, v interface{}) {
							if yield {
								t.Yield()
							}
							x.visit(k, v, nil)
						})
						x.all()
						t.Outcome("ok")
					})
					for stop := -1; stop < total; stop++ {
						stop := stop
						reg("D03", fmt.Sprintf("SpeculativeRange/%s/procs=%d/stop=%d/yield=%v", nm, p, stop, yield), func(t *vh.T) {
							t.Procs(p)
							x := newDmap(t, d)
							x.m.SpeculativeRange(func(k, v interface{}) bool {
								if yield {
									t.Yield()
								}
								return x.visit(k, v, func(id int) bool { return id == stop })
							})
							if stop < 0 {
								x.all()
							}
							t.Outcome("ok")
						})
					}
				}
				if total >= 2 && total <= 4 {
					for s1 := 0; s1 < total; s1++ {
						for s2 := s1 + 1; s2 < total; s2++ {
							s1, s2 := s1, s2
							reg("D03", fmt.Sprintf("SpeculativeRange/%s/procs=%d/stop=%d,%d", nm, p, s1, s2), func(t *vh.T) {
								t.Procs(p)
								x := newDmap(t, d)
								x.m.SpeculativeRange(func(k, v interface{}) bool {
									return x.visit(k, v, func(id int) bool { return id == s1 || id == s2 })
								})
							})
						}
					}
				}
			}
		})
	}
	// a concurrent thread using the map
	iters := []string{"Range", "ParallelRange", "SpeculativeRange"}
	for _, it := range iters {
		for n := 1; n <= 3; n++ {
			for _, op := range "LSCscITXD" {
				for _, present := range []bool{false, true} {
					it, n, op, present := it, n, byte(op), present
					reg("D03", fmt.Sprintf("%s/%d/writer/%c/%v", it, n, op, present), func(t *vh.T) {
						t.Procs(2)
						m := sync.NewMap(n)
						// a and b share the hash value, c is in the same split if n <= 2
						for k := 0; k < 4; k++ {
							if k != 1 || present {
								m.LoadOrStore(mapKeys[k], 1+k)
							}
						}
						r := mrec{op: op, key: 1, operand: 70}
						var wg gosync.WaitGroup
						wg.Add(1)
						go func() {
							defer wg.Done()
							r.perform(t, m, false, nil)
						}()
						cnt := make([]int, 4)
						enter := make([]int64, 4)
						leave := make([]int64, 4)
						vals := make([]interface{}, 4)
						f := func(k, v interface{}) {
							i := k.(skey).id
							enter[i] = t.Ret()
							cnt[i]++
							vals[i] = v
							if i != 1 && v != 1+i {
								t.Failf("the value of key %d is %v", i, v)
							}
							leave[i] = t.Inv()
						}
						switch it {
						case "Range":
							m.Range(func(k, v interface{}) bool { f(k, v); return true })
						case "ParallelRange":
							m.ParallelRange(func(k, v interface{}) { f(k, v) })
						case "SpeculativeRange":
							m.SpeculativeRange(func(k, v interface{}) bool { f(k, v); return true })
						}
						for i, c := range cnt {
							if i != 1 && c != 1 || c > 1 {
								t.Failf("key %d was visited %d times", i, c)
							}
						}
						wg.Wait()
						// the value of key 1 seen is one it had
						x, ok := m.Load(mapKeys[1])
						before := 0
						if present {
							before = 2
						}
						after := val(x)
						if ok != (x != nil) {
							t.Failf("Load returned %v, %v", x, ok)
						}
						if seen := val(vals[1]); seen != before && seen != after {
							t.Failf("key 1 was visited with %v; it was %v, then %v", vals[1], before, after)
						}
						if cnt[1] == 0 && before != 0 && after != 0 {
							t.Failf("key 1 was not visited although present all the time")
						}
						// nothing in the split takes effect while it is visited
						for i := range cnt {
							for j := range cnt {
								if cnt[i] == 1 && cnt[j] == 1 && mapKeys[i].h%uint64(n) == mapKeys[1].h%uint64(n) && mapKeys[j].h%uint64(n) == mapKeys[1].h%uint64(n) &&
									enter[i] < r.inv && r.ret < leave[j] {
									t.Failf("operation %c took place while its split was visited", op)
								}
							}
						}
						t.Outcome("%v %v", vals[1], x)
					})
				}
			}
		}
	}
	// the visitor of Range may use other splits
	for n := 2; n <= 4; n++ {
		n := n
		reg("D03", fmt.Sprintf("Range/uses-other-splits/%d", n), func(t *vh.T) {
			m := splitMap(t, n)
			m.Range(func(k, v interface{}) bool {
				for i := 0; i < n; i++ {
					if i != v.(int) {
						if x, ok := m.Load(skey{uint64(i), i}); !ok || x != i {
							t.Failf("Load: %v, %v", x, ok)
						}
					}
				}
				return true
			})
		})
	}
	// two iterations at the same time
	for _, a := range iters {
		for _, b := range iters {
			a, b := a, b
			reg("D03", fmt.Sprintf("%s|%s", a, b), func(t *vh.T) {
				t.Procs(2)
				x := newDmap(t, []int{1, 2})
				c2 := make([]int, len(x.cnt))
				run := func(it string, f func(k, v interface{})) {
					switch it {
					case "Range":
						x.m.Range(func(k, v interface{}) bool { f(k, v); return true })
					case "ParallelRange":
						x.m.ParallelRange(func(k, v interface{}) { f(k, v) })
					case "SpeculativeRange":
						x.m.SpeculativeRange(func(k, v interface{}) bool { f(k, v); return true })
					}
				}
				var wg gosync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					run(a, func(k, v interface{}) { x.visit(k, v, nil) })
				}()
				run(b, func(k, v interface{}) { c2[k.(skey).id]++ })
				wg.Wait()
				x.all()
				for i := range c2 {
					if c2[i] != 1 {
						t.Failf("key %d was visited %d times", i, c2[i])
					}
				}
			})
		}
	}
}

var hashes = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1<<16 - 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<31 + 1,
	1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1<<62 + 3, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<63 + 2, 1<<63 + 3, 1<<64 - 3, 1<<64 - 2, 1<<64 - 1, 0xdeadbeefcafebabe}

func d05() {
	for size := -1; size <= 9; size++ {
		for p := 1; p <= 4; p++ {
			if size > 0 && p > 1 {
				break
			}
			size, p := size, p
			reg("D05", fmt.Sprintf("NewMap/%d/procs=%d", size, p), func(t *vh.T) {
				t.Procs(p)
				want := size
				if want <= 0 {
					want = p
				}
				m := sync.NewMap(size)
				t.Procs(5)
				distinct := map[*sync.Split]bool{}
				for h := 0; h < 64*want; h++ {
					s := m.Split(skey{uint64(h), 0})
					distinct[s] = true
					if s.Map == nil || len(s.Map) != 0 {
						t.Failf("a split of a new map holds %v", s.Map)
					}
				}
				if len(distinct) != want {
					t.Failf("NewMap(%d) with GOMAXPROCS %d uses %d splits", size, p, len(distinct))
				}
				visited := 0
				m.And(func(mp map[interface{}]interface{}) bool { visited++; return true })
				if visited != want {
					t.Failf("NewMap(%d) with GOMAXPROCS %d has %d splits", size, p, visited)
				}
				// independent locks and maps
				var locked []*sync.Split
				i := 0
				for h := 0; h < 64*want; h++ {
					s := m.Split(skey{uint64(h), 0})
					if distinct[s] {
						distinct[s] = false
						s.Lock()
						s.Map[skey{uint64(h), 0}] = i
						i++
						locked = append(locked, s)
					}
				}
				for _, s := range locked {
					if len(s.Map) != 1 {
						t.Failf("splits share a map: %v", s.Map)
					}
					s.Unlock()
				}
				t.Cases(1)
			})
		}
	}
	// another map is unaffected
	reg("D05", "two-maps", func(t *vh.T) {
		a, b := sync.NewMap(2), sync.NewMap(2)
		for i := 0; i < 4; i++ {
			a.LoadOrStore(skey{uint64(i), i}, i)
			if x, ok := b.Load(skey{uint64(i), i}); ok {
				t.Failf("two maps share entries: %v", x)
			}
		}
	})
	for size := 1; size <= 9; size++ {
		for _, op := range "LSCscITXD" {
			size, op := size, byte(op)
			reg("D05", fmt.Sprintf("%c/size=%d", op, size), func(t *vh.T) {
				hs := append([]uint64(nil), hashes...)
				for h := uint64(0); h < uint64(3*size); h++ {
					hs = append(hs, h)
				}
				for _, h := range hs {
					for _, present := range []bool{false, true} {
						m := sync.NewMap(size)
						k, k2 := skey{h, 0}, skey{h, 1}
						s := m.Split(k)
						if m.Split(k) != s || m.Split(k2) != s {
							t.Failf("keys with the same hash %d are in different splits", h)
						}
						if present {
							s.Lock()
							s.Map[k] = 5
							s.Unlock()
						}
						res, ok := applyOp(m, op, k, 70)
						// what remains, seen through the split and through the map
						wantRes, wantOK, wantAfter := specOp(op, present, 5, 70)
						if val(res) != wantRes || ok != wantOK {
							t.Failf("%c on hash %d with %d splits: %v, %v instead of %v, %v", op, h, size, res, ok, wantRes, wantOK)
						}
						got := s.Map[k]
						if val(got) != wantAfter {
							t.Failf("%c on hash %d with %d splits leaves %v in Split(key), not %v", op, h, size, got, wantAfter)
						}
						n := 0
						m.Range(func(kk, v interface{}) bool {
							n++
							if kk != k || v != wantAfter {
								t.Failf("%c on hash %d with %d splits leaves the entry %v: %v", op, h, size, kk, v)
							}
							return true
						})
						if n != len(s.Map) || (n == 1) != (wantAfter != 0) {
							t.Failf("%c on hash %d with %d splits leaves %d entries, %d in Split(key)", op, h, size, n, len(s.Map))
						}
						if x, ok := m.Load(k); val(x) != wantAfter || ok != (wantAfter != 0) {
							t.Failf("Load after %c on hash %d with %d splits: %v, %v", op, h, size, x, ok)
						}
						if x, ok := m.Load(k2); ok || x != nil {
							t.Failf("Load of another key with the same hash: %v, %v", x, ok)
						}
						t.Cases(1)
					}
				}
			})
		}
	}
	// the lock of Split(key) keeps the operations out
	for _, op := range "LSCscITXD" {
		for n := 1; n <= 3; n++ {
			op, n := byte(op), n
			reg("D05", fmt.Sprintf("%ca/locked-split/%d", op, n), func(t *vh.T) {
				m := sync.NewMap(n)
				k := mapKeys[0]
				m.LoadOrStore(k, 5)
				var wg gosync.WaitGroup
				wg.Add(1)
				var res interface{}
				var ok bool
				go func() {
					defer wg.Done()
					res, ok = applyOp(m, op, k, 70)
				}()
				s := m.Split(k)
				s.Lock()
				old := s.Map[k]
				s.Map[k] = 6
				t.Yield()
				if s.Map[k] != 6 {
					t.Failf("%c takes effect while the split is locked", op)
				}
				if old == nil {
					delete(s.Map, k)
				} else {
					s.Map[k] = old
				}
				s.Unlock()
				wg.Wait()
				wr, wo, _ := specOp(op, true, 5, 70)
				if val(res) != wr || ok != wo {
					t.Failf("%c returned %v, %v", op, res, ok)
				}
			})
		}
	}
}

func applyOp(m *sync.Map, op byte, k skey, operand int) (res interface{}, ok bool) {
	switch op {
	case 'L':
		return m.Load(k)
	case 'S':
		return m.LoadOrStore(k, operand)
	case 'C':
		return m.LoadOrCompute(k, func() interface{} { return operand })
	case 's':
		return m.DeleteOrStore(k, operand)
	case 'c':
		return m.DeleteOrCompute(k, func() interface{} { return operand })
	case 'I':
		return m.Modify(k, func(v interface{}, ok bool) (interface{}, bool) {
			if ok {
				return v.(int) + 100, true
			}
			return operand, true
		})
	case 'T':
		return m.Modify(k, func(v interface{}, ok bool) (interface{}, bool) { return operand, !ok })
	case 'X':
		return m.Modify(k, func(v interface{}, ok bool) (interface{}, bool) { return v, false })
	case 'D':
		m.Delete(k)
	}
	return nil, false
}

// specOp: result and remaining value (0: none)
func specOp(op byte, present bool, cur, operand int) (res int, ok bool, after int) {
	if !present {
		cur = 0
	}
	switch op {
	case 'L':
		return cur, present, cur
	case 'S', 'C':
		if present {
			return cur, true, cur
		}
		return operand, false, operand
	case 's', 'c':
		if present {
			return cur, true, 0
		}
		return operand, false, operand
	case 'I':
		if present {
			return cur + 100, true, cur + 100
		}
		return operand, true, operand
	case 'T':
		if present {
			return operand, false, 0
		}
		return operand, true, operand
	case 'X':
		return cur, false, 0
	}
	return 0, false, 0
}

func d06() {
	// single-key operations
	for _, op := range "CcM" {
		for _, present := range []bool{false, true} {
			for _, kind := range panicKinds {
				op, present, kind := byte(op), present, kind
				if op == 'C' && present || op == 'c' && present {
					continue
				}
				try := func(t *vh.T, m *sync.Map, yield bool) {
					pv, panicked := vh.Catch(func() {
						f := func() interface{} {
							if yield {
								t.Yield()
							}
							throw(kind, 3)
							return 70
						}
						switch op {
						case 'C':
							m.LoadOrCompute(mapKeys[0], f)
						case 'c':
							m.DeleteOrCompute(mapKeys[0], f)
						case 'M':
							m.Modify(mapKeys[0], func(v interface{}, ok bool) (interface{}, bool) { return f(), true })
						}
					})
					checkPanic(t, pv, panicked, kind, 3)
				}
				for n := 1; n <= 2; n++ {
					n := n
					reg("D06", fmt.Sprintf("%ca/%v/%s/splits=%d", op, present, kind, n), func(t *vh.T) {
						m := sync.NewMap(n)
						for k := 1; k < 4; k++ {
							m.LoadOrStore(mapKeys[k], 1+k)
						}
						if present {
							m.LoadOrStore(mapKeys[0], 1)
						}
						try(t, m, false)
						try(t, m, false)
						for k := 0; k < 4; k++ {
							x, ok := m.Load(mapKeys[k])
							if p := k > 0 || present; ok != p || p && x != 1+k {
								t.Failf("after the panic, key %d is %v, %v", k, x, ok)
							}
							m.Delete(mapKeys[k])
							if x, ok := m.LoadOrStore(mapKeys[k], 9); ok || x != 9 {
								t.Failf("LoadOrStore after the panic: %v, %v", x, ok)
							}
							if x, ok := applyOp(m, 'I', mapKeys[k], 9); !ok || x != 109 {
								t.Failf("Modify after the panic: %v, %v", x, ok)
							}
						}
						c := 0
						m.ParallelRange(func(k, v interface{}) {})
						m.Range(func(k, v interface{}) bool { c++; return true })
						if c != 4 {
							t.Failf("%d entries", c)
						}
					})
				}
				if kind != "error" {
					continue
				}
				for _, o2 := range "LSCscITXD" {
					o2 := byte(o2)
					reg("D06", fmt.Sprintf("%ca/%v/concurrent/%c", op, present, o2), func(t *vh.T) {
						m := sync.NewMap(1)
						if present {
							m.LoadOrStore(mapKeys[0], 5)
						}
						var wg gosync.WaitGroup
						wg.Add(1)
						var res interface{}
						var ok bool
						go func() {
							defer wg.Done()
							res, ok = applyOp(m, o2, mapKeys[0], 70)
						}()
						pv, panicked := vh.Catch(func() {
							f := func() interface{} { t.Yield(); throw(kind, 3); return 8 }
							switch op {
							case 'C':
								m.LoadOrCompute(mapKeys[0], f)
							case 'c':
								m.DeleteOrCompute(mapKeys[0], f)
							case 'M':
								m.Modify(mapKeys[0], func(v interface{}, ok bool) (interface{}, bool) { return f(), true })
							}
						})
						if panicked || op == 'M' {
							checkPanic(t, pv, panicked, kind, 3)
						}
						wg.Wait()
						wr, wo, wa := specOp(o2, present, 5, 70)
						if !panicked && op == 'c' {
							// it deleted what the other thread stored
							wa = 0
						}
						if val(res) != wr || ok != wo {
							t.Failf("%c returned %v, %v", o2, res, ok)
						}
						if x, ok := m.Load(mapKeys[0]); val(x) != wa || ok != (wa != 0) {
							t.Failf("the entry is %v, %v instead of %v", x, ok, wa)
						}
					})
				}
			}
		}
	}
	// sequential split-wise functions
	for _, r := range seqMapReds() {
		r := r
		for n := 1; n <= 4; n++ {
			for k := 0; k < n; k++ {
				for _, kind := range panicKinds {
					n, k, kind := n, k, kind
					reg("D06", fmt.Sprintf("Map.%s/%d-%d/%s", r.name, n, k, kind), func(t *vh.T) {
						m := splitMap(t, n)
						pv, panicked := vh.Catch(func() {
							r.run(m, func(i int) byte {
								if i >= k {
									throw(kind, i)
								}
								return 'N'
							}, func(mp smap) int { return splitOf(t, m, mp) })
						})
						checkPanic(t, pv, panicked, kind, k)
						usable(t, m, n)
					})
				}
			}
		}
	}
	// several entries per split, several splits per batch
	for _, it := range []string{"Range", "ParallelRange", "SpeculativeRange"} {
		for n := 1; n <= 3; n++ {
			dists(n, 2, 4, func(d []int) {
				total := 0
				nm := ""
				for _, k := range d {
					total += k
					nm += fmt.Sprint(k)
				}
				for e := 0; e < total; e++ {
					it, e := it, e
					reg("D06", fmt.Sprintf("%s/%s/at=%d", it, nm, e), func(t *vh.T) {
						t.Procs(1)
						x := newDmap(t, d)
						f := func(k, v interface{}) bool {
							if k.(skey).id == e {
								throw("error", e)
							}
							return true
						}
						pv, panicked := vh.Catch(func() {
							switch it {
							case "Range":
								x.m.Range(f)
							case "ParallelRange":
								x.m.ParallelRange(func(k, v interface{}) { f(k, v) })
							case "SpeculativeRange":
								x.m.SpeculativeRange(f)
							}
						})
						checkPanic(t, pv, panicked, "error", e)
						for _, k := range x.keys {
							if v, ok := x.m.LoadOrStore(k, 3); !ok || v != dval(k.id) {
								t.Failf("after the panic, %v is %v, %v", k, v, ok)
							}
							x.m.Delete(k)
						}
					})
				}
			})
		}
	}
}
