package harness

import (
	"fmt"
	gosync "sync"

	"github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/vh"
)

// A step takes effect atomically between the time stamps inv and ret.
type step struct {
	op, pos  int // operation, position within the operation
	inv, ret int64
	apply    func(st []int) bool // st[k]: value of key k, 0: absent; false: impossible here
}

// linearizable: is there an order of the steps consistent with the time stamps in which
// all are possible and that ends in the state fin?
func linearizable(steps []step, st, fin []int) bool {
	done := make([]bool, len(steps))
	var rec func(left int, st []int) bool
	rec = func(left int, st []int) bool {
		if left == 0 {
			for i := range st {
				if st[i] != fin[i] {
					return false
				}
			}
			return true
		}
	next:
		for i := range steps {
			if done[i] {
				continue
			}
			for j := range steps {
				if j != i && !done[j] && (steps[j].ret < steps[i].inv || steps[j].op == steps[i].op && steps[j].pos < steps[i].pos) {
					continue next
				}
			}
			s2 := append([]int(nil), st...)
			if !steps[i].apply(s2) {
				continue
			}
			done[i] = true
			if rec(left-1, s2) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return rec(len(steps), st)
}

/* operations:
   L Load   S LoadOrStore   C LoadOrCompute   s DeleteOrStore   c DeleteOrCompute
   I Modify: store value+100, or the operand if absent
   T Modify: delete, or store the operand if absent
   X Modify: delete
   D Delete */

// mapProg is a concurrent program: per thread a string of operation and key, as in "LaSb".
type mapProg struct {
	threads []string
	init    string // keys present at the beginning
	strict  bool   // the moments of the callbacks count
	nils    int    // mask of the threads whose operands are nil; 128: the initial values, too
}

func (p mapProg) name() string {
	s := ""
	for i, t := range p.threads {
		if i > 0 {
			s += "|"
		}
		s += t
	}
	s += "/" + p.init
	if p.nils != 0 {
		s += fmt.Sprintf("/nil=%d", p.nils)
	}
	return s
}

// nilV stands for the value nil of a key that is present (0: the key is absent)
const nilV = -1

func iface(x int) interface{} {
	if x == 0 || x == nilV {
		return nil
	}
	return x
}

func code(x interface{}, ok bool) int {
	if ok && x == nil {
		return nilV
	}
	return val(x)
}

// record of one operation
type mrec struct {
	op         byte
	key        int
	operand    int
	inv, ret   int64
	cbs, cbe   int64 // callback start and end
	calls      int
	seen       interface{}
	seenOK     bool
	res        interface{}
	ok         bool
	exclusive  bool
	repl       interface{}
	storeNotDe bool
}

// keys a and b share a hash value, c is in the same split, d in another split (of two)
var mapKeys = []skey{{4, 0}, {4, 1}, {6, 2}, {7, 3}}

func val(x interface{}) int {
	if x == nil {
		return 0
	}
	return x.(int)
}

// perform executes r on m.
func (r *mrec) perform(t *vh.T, m *sync.Map, strict bool, inner func()) {
	k := mapKeys[r.key]
	r.inv = t.Inv()
	cb := func() {
		r.calls++
		if strict {
			r.cbs = t.Ret()
		}
		if inner != nil {
			inner()
		}
		if strict {
			r.cbe = t.Inv()
		} else {
			t.Yield()
		}
	}
	comp := func() interface{} { cb(); return iface(r.operand) }
	mod := func(v interface{}, ok bool) (interface{}, bool) {
		r.seen, r.seenOK = v, ok
		cb()
		switch r.op {
		case 'I':
			if ok && v != nil {
				r.repl, r.storeNotDe = v.(int)+100, true
			} else {
				r.repl, r.storeNotDe = iface(r.operand), true
			}
		case 'T':
			if ok {
				r.repl, r.storeNotDe = iface(r.operand+5), false
			} else {
				r.repl, r.storeNotDe = iface(r.operand), true
			}
		case 'X':
			r.repl, r.storeNotDe = v, false
			if !ok { // the entry that is not there is deleted
				r.repl = iface(r.operand + 7)
			}
		}
		return r.repl, r.storeNotDe
	}
	switch r.op {
	case 'L':
		r.res, r.ok = m.Load(k)
	case 'S':
		r.res, r.ok = m.LoadOrStore(k, iface(r.operand))
	case 'C':
		r.res, r.ok = m.LoadOrCompute(k, comp)
	case 's':
		r.res, r.ok = m.DeleteOrStore(k, iface(r.operand))
	case 'c':
		r.res, r.ok = m.DeleteOrCompute(k, comp)
	case 'I', 'T', 'X':
		r.res, r.ok = m.Modify(k, mod)
	case 'D':
		m.Delete(k)
	}
	r.ret = t.Ret()
}

func (r *mrec) String() string {
	return fmt.Sprintf("%c%c[%d,%d]=%v,%v", r.op, 'a'+r.key, r.inv, r.ret, r.res, r.ok)
}

// steps of r for the linearizability check
func (r *mrec) steps(t *vh.T, i int, strict bool) []step {
	k := r.key
	inv, ret := r.inv, r.ret
	one := func(apply func(st []int) bool) []step { return []step{{i, 0, inv, ret, apply}} }
	ok := r.ok
	is := func(x int) bool { return r.res == iface(x) }
	switch r.op {
	case 'L':
		return one(func(st []int) bool { return ok == (st[k] != 0) && is(st[k]) })
	case 'S', 'C':
		store := func(st []int) bool {
			if st[k] != 0 {
				return ok && is(st[k])
			}
			st[k] = r.operand
			return !ok && is(r.operand)
		}
		if r.op == 'C' && strict {
			if r.calls > 1 {
				t.Failf("LoadOrCompute invoked its function %d times", r.calls)
			}
			if r.calls == 1 {
				return []step{
					{i, 0, r.inv, r.cbs, func(st []int) bool { return st[k] == 0 }},
					{i, 1, r.cbe, r.ret, store},
				}
			}
			return one(func(st []int) bool { return ok && st[k] != 0 && is(st[k]) })
		}
		return one(store)
	case 's', 'c':
		if r.op == 'c' && strict {
			want := 1
			if ok {
				want = 0
			}
			if r.calls != want {
				t.Failf("DeleteOrCompute invoked its function %d times: %v", r.calls, r)
			}
			if r.calls == 1 {
				inv, ret = r.cbs, r.cbe
			}
		}
		return one(func(st []int) bool {
			if st[k] != 0 {
				x := st[k]
				st[k] = 0
				return ok && is(x)
			}
			st[k] = r.operand
			return !ok && is(r.operand)
		})
	case 'I', 'T', 'X':
		if strict {
			if r.calls != 1 {
				t.Failf("Modify invoked its function %d times", r.calls)
			}
			inv, ret = r.cbs, r.cbe
		}
		if r.res != r.repl || r.ok != r.storeNotDe {
			t.Failf("Modify returned %v, %v; its function returned %v, %v", r.res, r.ok, r.repl, r.storeNotDe)
		}
		return one(func(st []int) bool {
			if r.seenOK != (st[k] != 0) || r.seen != iface(st[k]) {
				return false
			}
			if r.storeNotDe {
				st[k] = code(r.repl, true)
			} else {
				st[k] = 0
			}
			return true
		})
	case 'D':
		return one(func(st []int) bool { st[k] = 0; return true })
	}
	panic("unknown operation")
}

func runMapProg(t *vh.T, p mapProg, splits int, inner func(m *sync.Map, thread, pos int) func()) {
	m := sync.NewMap(splits)
	st := make([]int, len(mapKeys))
	for i := range p.init {
		k := int(p.init[i] - 'a')
		st[k] = 1 + k
		if p.nils&128 != 0 {
			st[k] = nilV
		}
		if x, ok := m.LoadOrStore(mapKeys[k], iface(st[k])); ok || x != iface(st[k]) {
			t.Failf("LoadOrStore into an empty map: %v, %v", x, ok)
		}
	}
	recs := make([][]mrec, len(p.threads))
	var wg gosync.WaitGroup
	for i, prog := range p.threads {
		i := i
		for j := 0; j < len(prog); j += 2 {
			r := mrec{op: prog[j], key: int(prog[j+1] - 'a'), operand: 10*(i+1) + j}
			if p.nils>>uint(i)&1 != 0 {
				r.operand = nilV
			}
			recs[i] = append(recs[i], r)
		}
		body := func() {
			for j := range recs[i] {
				var in func()
				if inner != nil {
					in = inner(m, i, j)
				}
				recs[i][j].perform(t, m, p.strict, in)
			}
		}
		if i == len(p.threads)-1 {
			body()
		} else {
			wg.Add(1)
			go func() { defer wg.Done(); body() }()
		}
	}
	wg.Wait()
	fin := make([]int, len(mapKeys))
	n := 0
	for k := range mapKeys {
		x, ok := m.Load(mapKeys[k])
		if !ok && x != nil {
			t.Failf("Load(%c) returned %v, %v", 'a'+k, x, ok)
		}
		fin[k] = code(x, ok)
		if ok {
			n++
		}
	}
	m.Range(func(k, v interface{}) bool { n--; return true })
	if n != 0 {
		t.Failf("the map has other entries than those of its keys")
	}
	var steps []step
	log := ""
	for i := range recs {
		for j := range recs[i] {
			r := &recs[i][j]
			steps = append(steps, r.steps(t, len(recs[0])*0+i*10+j, p.strict)...)
			log += r.String() + " "
		}
	}
	if p.strict {
		// nothing else takes effect in the same split during a callback that holds the lock
		for i := range recs {
			for j := range recs[i] {
				r := &recs[i][j]
				if r.calls == 0 || r.op == 'C' {
					continue
				}
				for i2 := range recs {
					for j2 := range recs[i2] {
						q := &recs[i2][j2]
						if i2 != i && q.key == r.key && q.inv > r.cbs && q.ret < r.cbe {
							t.Failf("%v took place during the callback of %v", q, r)
						}
					}
				}
			}
		}
	}
	if !linearizable(steps, st, fin) {
		t.Failf("not linearizable: %v-> %v", log, fin)
	}
	t.Outcome("%s", outcomeOf(recs, fin))
}

func outcomeOf(recs [][]mrec, fin []int) string {
	s := ""
	for i := range recs {
		for j := range recs[i] {
			s += fmt.Sprintf("%v,%v;", recs[i][j].res, recs[i][j].ok)
		}
	}
	return s + fmt.Sprint(fin)
}

func opWords(kinds string, keys string) (r []string) {
	// keys "ab": words of two operations, the first on a, the second on b
	r = []string{""}
	for i := range keys {
		var q []string
		for _, w := range r {
			for _, k := range kinds {
				q = append(q, w+string(k)+string(keys[i]))
			}
		}
		r = q
	}
	return
}

var progsSeen = map[string]bool{}

func regProg(prop string, thorough bool, p mapProg) {
	if n := prop + p.name(); progsSeen[n] {
		return
	} else {
		progsSeen[n] = true
	}
	regT(prop, p.name(), thorough, func(t *vh.T) { runMapProg(t, p, 2, nil) })
}

// nilProgs: nil as a value in the map
func nilProgs(prop string, strict bool) {
	all := "LSCscITXD"
	for i, a := range opWords(all, "a") {
		for j, b := range opWords(all, "a") {
			for nils := 0; nils < 4; nils++ {
				for _, in := range []string{"", "a"} {
					for _, ini := range []int{0, 128} {
						if nils+ini == 0 || in == "" && ini > 0 {
							continue
						}
						if i <= j || nils == 1 || nils == 2 {
							regProg(prop, false, mapProg{threads: []string{a, b}, init: in, strict: strict, nils: nils + ini})
						}
						for k, c := range opWords("LSCcID", "a") {
							if nils > 1 || (i <= j && j <= k) {
								regProg(prop, nils == 2, mapProg{threads: []string{a, b + c}, init: in, strict: strict, nils: nils + ini})
							}
							if i <= j && nils == 3 {
								regProg(prop, false, mapProg{threads: []string{a, b, c}, init: in, strict: strict, nils: nils + ini})
							}
						}
					}
				}
			}
		}
	}
}

func d01() {
	all := "LSCscITXD"
	most := "LSCscITD"
	nilProgs("D01", false)
	// 2 threads x 2 operations on one key
	for i, a := range opWords(most, "aa") {
		for j, b := range opWords(most, "aa") {
			if i <= j {
				regProg("D01", false, mapProg{threads: []string{a, b}})
				regProg("D01", false, mapProg{threads: []string{a, b}, init: "a"})
			}
		}
	}
	// 2 x 1, two keys, all present/absent patterns
	for _, k := range []string{"aa", "ab", "ac", "ad"} {
		for _, a := range opWords(all, k[:1]) {
			for _, b := range opWords(all, k[1:]) {
				for _, in := range []string{"", "a", k[1:], "a" + k[1:]} {
					if in != "aa" {
						regProg("D01", false, mapProg{threads: []string{a, b}, init: in})
					}
				}
			}
		}
	}
	// two keys, 2 x 2
	for _, q := range [][2]string{{"ab", "ab"}, {"ab", "ba"}, {"aa", "ab"}, {"ad", "da"}, {"ac", "ca"}} {
		kinds := "LSsI"
		for _, a := range opWords(kinds, q[0]) {
			for _, b := range opWords(kinds, q[1]) {
				regProg("D01", q[0] == "ac", mapProg{threads: []string{a, b}, init: "b"})
			}
		}
		for _, a := range opWords(most, q[0]) {
			for _, b := range opWords(most, q[1]) {
				regProg("D01", true, mapProg{threads: []string{a, b}})
				regProg("D01", true, mapProg{threads: []string{a, b}, init: "a" + q[0][1:]})
			}
		}
	}
	// 3 threads x 1
	for i, a := range opWords(all, "a") {
		for j, b := range opWords(all, "a") {
			for k, c := range opWords(all, "a") {
				if i <= j && j <= k {
					regProg("D01", false, mapProg{threads: []string{a, b, c}})
					regProg("D01", false, mapProg{threads: []string{a, b, c}, init: "a"})
				}
			}
			for _, c := range opWords(all, "b") {
				if i <= j {
					regProg("D01", false, mapProg{threads: []string{a, b, c}})
					regProg("D01", true, mapProg{threads: []string{a, b, c}, init: "ab"})
				}
			}
		}
	}
	// thorough: 2+1+1, 4 x 1, 3+2
	for _, w := range opWords(most, "aa") {
		for j, b := range opWords(most, "a") {
			for k, c := range opWords(most, "a") {
				if j <= k {
					regProg("D01", true, mapProg{threads: []string{w, b, c}})
					regProg("D01", true, mapProg{threads: []string{w, b, c}, init: "a"})
				}
			}
		}
	}
	few := "LSCsID"
	for i, a := range opWords(few, "a") {
		for j, b := range opWords(few, "a") {
			for k, c := range opWords(few, "a") {
				for l, d := range opWords(few, "a") {
					if i <= j && j <= k && k <= l {
						regProg("D01", true, mapProg{threads: []string{a, b, c, d}})
						regProg("D01", true, mapProg{threads: []string{a, b, c, d}, init: "a"})
					}
				}
			}
		}
	}
	for _, a := range opWords("LSsI", "aaa") {
		for _, b := range opWords("LSCsI", "aa") {
			regProg("D01", true, mapProg{threads: []string{a, b}})
		}
	}
}

func d02() {
	all := "LSCscITXD"
	cb := "CcIT"
	nilProgs("D02", true)
	// one callback operation against up to two operations of another thread
	for _, a := range opWords(cb, "a") {
		for _, in := range []string{"", "a"} {
			for _, b := range opWords(all, "a") {
				regProg("D02", false, mapProg{threads: []string{a, b}, init: in, strict: true})
			}
			for _, b := range opWords(all, "aa") {
				regProg("D02", false, mapProg{threads: []string{a, b}, init: in, strict: true})
			}
			for _, b := range opWords(all, "b") {
				regProg("D02", false, mapProg{threads: []string{a, b}, init: in, strict: true})
			}
			for i, b := range opWords(all, "a") {
				for j, c := range opWords(all, "a") {
					if i <= j {
						regProg("D02", false, mapProg{threads: []string{a, b, c}, init: in, strict: true})
					}
				}
			}
		}
	}
	for _, a := range opWords(cb, "aa") {
		for _, b := range opWords(all, "aa") {
			for _, in := range []string{"", "a"} {
				regProg("D02", true, mapProg{threads: []string{a, b}, init: in, strict: true})
			}
		}
	}
	// the function of LoadOrCompute uses the map itself
	for _, op := range all {
		for _, key := range []byte("abcd") {
			for _, in := range []string{"", "b", "d"} {
				op, key, in := byte(op), key, in
				reg("D02", fmt.Sprintf("Ca/inner/%c%c/%s", op, key, in), func(t *vh.T) {
					p := mapProg{threads: []string{"Ca"}, init: in, strict: true}
					m := sync.NewMap(2)
					for i := range in {
						m.LoadOrStore(mapKeys[in[i]-'a'], 1)
					}
					calls := 0
					x, loaded := m.LoadOrCompute(mapKeys[0], func() interface{} {
						calls++
						r := mrec{op: op, key: int(key - 'a'), operand: 77}
						r.perform(t, m, false, nil)
						return 10
					})
					_ = p
					want, wl := 10, false
					if key == 'a' && first("SCscIT", string(op)) >= 0 {
						want, wl = 77, true
					}
					if x != want || loaded != wl || calls != 1 {
						t.Failf("LoadOrCompute returned %v, %v after %d calls", x, loaded, calls)
					}
				})
			}
		}
	}
	type mapFn struct {
		name string
		f    func(m *sync.Map)
	}
	for _, f := range []mapFn{
		{"Range", func(m *sync.Map) { m.Range(func(_, _ interface{}) bool { return true }) }},
		{"ParallelRange", func(m *sync.Map) { m.ParallelRange(func(_, _ interface{}) {}) }},
		{"And", func(m *sync.Map) { m.And(func(map[interface{}]interface{}) bool { return true }) }},
		{"Split.Lock", func(m *sync.Map) { s := m.Split(mapKeys[0]); s.Lock(); s.Map[mapKeys[1]] = 5; s.Unlock() }},
	} {
		f := f
		reg("D02", "Ca/inner/"+f.name, func(t *vh.T) {
			m := sync.NewMap(2)
			x, loaded := m.LoadOrCompute(mapKeys[0], func() interface{} { f.f(m); return 10 })
			if x != 10 || loaded {
				t.Failf("LoadOrCompute returned %v, %v", x, loaded)
			}
		})
	}
	// the function of LoadOrCompute waits for an operation of another thread
	for _, op := range all {
		for _, key := range []byte("abcd") {
			for _, in := range []string{"", "b"} {
				op, key, in := byte(op), key, in
				reg("D02", fmt.Sprintf("Ca/waits/%c%c/%s", op, key, in), func(t *vh.T) {
					m := sync.NewMap(2)
					for i := range in {
						m.LoadOrStore(mapKeys[in[i]-'a'], 1)
					}
					go1, done := make(chan bool), make(chan bool)
					go func() {
						<-go1
						r := mrec{op: op, key: int(key - 'a'), operand: 77}
						r.perform(t, m, false, nil)
						close(done)
					}()
					calls := 0
					x, loaded := m.LoadOrCompute(mapKeys[0], func() interface{} {
						calls++
						close(go1)
						<-done
						return 10
					})
					want, wl := 10, false
					if key == 'a' && first("SCscIT", string(op)) >= 0 {
						want, wl = 77, true
					}
					if x != want || loaded != wl || calls != 1 {
						t.Failf("LoadOrCompute returned %v, %v after %d calls", x, loaded, calls)
					}
				})
			}
		}
	}
	// two LoadOrCompute at the same time, each waiting for the other's function
	reg("D02", "Ca|Ca/rendezvous", func(t *vh.T) {
		m := sync.NewMap(1)
		a, b := make(chan bool), make(chan bool)
		var x, y interface{}
		var lx, ly bool
		var wg gosync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			x, lx = m.LoadOrCompute(mapKeys[0], func() interface{} { close(a); <-b; return 1 })
		}()
		<-a
		y, ly = m.LoadOrCompute(mapKeys[0], func() interface{} { close(b); return 2 })
		wg.Wait()
		if x != y || lx == ly {
			t.Failf("two LoadOrCompute: %v,%v and %v,%v", x, lx, y, ly)
		}
		if z, ok := m.Load(mapKeys[0]); !ok || z != x {
			t.Failf("Load: %v, %v", z, ok)
		}
		t.Outcome("%v %v", x, lx)
	})
	// other splits are free during a callback
	for _, cbop := range "cIT" {
		for _, op := range all {
			cbop, op := byte(cbop), byte(op)
			reg("D05", fmt.Sprintf("%ca/othersplit/%cd", cbop, op), func(t *vh.T) {
				m := sync.NewMap(2)
				r := mrec{op: cbop, key: 0, operand: 5}
				r.perform(t, m, false, func() {
					q := mrec{op: op, key: 3, operand: 77}
					q.perform(t, m, false, nil)
				})
				if r.calls != 1 {
					t.Failf("the callback was invoked %d times", r.calls)
				}
			})
		}
	}
}
