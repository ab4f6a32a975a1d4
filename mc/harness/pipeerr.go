package harness

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/vh"
)

// ---------------------------------------------------------------- F04

type limNode struct {
	kind   byte // L: LimitedPar(limit), other kinds as in mkNode
	limit  int
	active int32
	peak   int32
	nf     int // number of filters
}

// f04Prog: spec is a sequence of "L<k>", "O", "S", "P", "X", "-" (empty node)
// With hold, receivers wait for a goroutine that starts last, so that as many of them as possible
// are active at the same time in schedules that prefer goroutines that started earlier.
func f04Prog(t *vh.T, spec string, procs, m int, meet, cancel bool, known bool, hold bool) {
	t.Procs(procs)
	stop, wake := make(chan bool), make(chan chan bool, 100)
	var once sync.Once
	release := func() {
		go func() {
			for {
				select {
				case ch := <-wake:
					ch <- true
				case <-stop:
					return
				}
			}
		}()
	}
	var p pipeline.Pipeline
	var nodes []*limNode
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	for _, ns := range strings.Split(spec, ",") {
		n := &limNode{kind: ns[0], nf: 1}
		if ns[0] == 'L' {
			fmt.Sscan(ns[1:], &n.limit)
		}
		if ns == "-" {
			p.Add(pipeline.Ord())
			continue
		}
		nodes = append(nodes, n)
		limit := n.limit
		if n.limit <= 0 {
			limit = procs
		}
		met := 0
		rec := func(seq int, data interface{}) interface{} {
			if n.kind == 'L' {
				a := atomic.AddInt32(&n.active, 1)
				if int(a) > limit {
					t.Failf("%d receivers of LimitedPar(%d) are active at the same time (GOMAXPROCS %d)", a, n.limit, procs)
				}
				if hold {
					once.Do(release)
					ch := make(chan bool, 1)
					wake <- ch
					<-ch
				} else if meet {
					// the first k batches wait for each other
					mu.Lock()
					met++
					if met <= limit {
						if met == limit {
							cond.Broadcast()
						}
						for met < limit {
							cond.Wait()
						}
					}
					mu.Unlock()
				} else {
					t.Yield()
				}
				if cancel && seq == 0 {
					p.Cancel()
				}
				atomic.AddInt32(&n.active, -1)
			}
			return data
		}
		f := pipeline.Receive(rec)
		if n.kind == 'L' {
			p.Add(pipeline.LimitedPar(n.limit, f))
		} else {
			p.Add(mkNode(t, n.kind, []pipeline.Filter{f}))
		}
	}
	k := 0
	size := -1
	if known {
		size = m
	}
	p.Source(pipeline.NewFunc(size, func(int) (interface{}, int, error) {
		if k == m {
			return nil, 0, nil
		}
		k++
		return k, 1, nil
	}))
	if m > 0 {
		p.NofBatches(m)
	}
	p.Run()
	close(stop)
	t.Check(runtime.GOMAXPROCS(0) == procs, "GOMAXPROCS has changed")
	t.Final(func() {
		for i, n := range nodes {
			t.Check(atomic.LoadInt32(&n.active) == 0, "receivers of node %d are active at the end", i)
		}
	})
}

func f04() {
	add := func(spec string, procs, m int, meet, cancel bool, bound int, thorough bool) {
		name := fmt.Sprintf("%s/procs=%d/m=%d", spec, procs, m)
		if meet {
			name += "/meet"
		}
		if cancel {
			name += "/cancel"
		}
		vh.Register(vh.Instance{Prop: "F04", Name: name, Bound: bound, Thorough: thorough, Body: func(t *vh.T) {
			f04Prog(t, spec, procs, m, meet, cancel, m%2 == 0, false)
		}})
	}
	delays := func(spec string, procs, m, delay int, thorough bool) {
		vh.Register(vh.Instance{Prop: "F04", Name: fmt.Sprintf("delays/%s/procs=%d/m=%d", spec, procs, m), Delay: delay, Thorough: thorough, Body: func(t *vh.T) {
			f04Prog(t, spec, procs, m, false, false, m%2 == 0, false)
		}})
		vh.Register(vh.Instance{Prop: "F04", Name: fmt.Sprintf("hold/%s/procs=%d/m=%d", spec, procs, m), Delay: 2, Body: func(t *vh.T) {
			f04Prog(t, spec, procs, m, false, false, m%2 == 0, true)
		}})
	}
	for k := -2; k <= 4; k++ {
		for procs := 1; procs <= 3; procs++ {
			lim := k
			if k <= 0 {
				lim = procs
			} else if procs > 1 && procs != 3 {
				continue
			}
			l := fmt.Sprintf("L%d", k)
			for _, spec := range []string{"%", "P,%", "O,%", "S,%", "%,O", "%,X", "X,%", "P,%,X", "%,%", "%,-,%", "P,-,%,-,O"} {
				s := strings.Replace(spec, "%", l, -1)
				w := strings.Count(spec, ",")
				if strings.Contains(spec, "-") {
					w--
				}
				for m := lim; m <= lim+1; m++ {
					big := lim > 2 && w > 0 || lim > 3 || m > 3 && w > 0
					if k == 1 {
						big = false
					}
					add(s, procs, m, true, false, lim/3*2, big || procs == 3 && k > 0 || m > lim && (lim > 1 && w > 0 || lim > 2))
					// overlaps are looked for with one batch more than allowed
					add(s, procs, m, false, false, 2, big || procs == 3 && k > 0)
					delays(s, procs, m, lim+2, lim > 3 || w > 1)
				}
				if w < 2 {
					add(s, procs, min(lim+1, 3), false, true, 2, lim > 2 || procs == 3 && k > 0)
				}
			}
		}
	}
	for _, pr := range [][2]int{{1, 2}, {2, 1}, {2, 3}, {3, 2}, {1, 1}, {2, 2}, {1, 3}, {3, 1}, {4, 2}, {2, 4}, {0, 2}, {2, 0}, {0, 1}, {3, 0}} {
		for _, mid := range []string{",", ",-,", ",O,"} {
			s := fmt.Sprintf("L%d%sL%d", pr[0], mid, pr[1])
			for m := 2; m <= 4; m++ {
				add(s, 2, m, false, false, 2, m > 3 || mid == ",O," && m > 2 || pr[0] == 3 && m > 2 || pr[0] == 4 || pr[1] == 4 || pr[0] == 0)
				delays(s, 2, m, 4, m > 3 || mid == ",O,")
			}
		}
	}
}

// ---------------------------------------------------------------- F05

// f05Prog: actors set errors at the given places:
//
//	f<j>: filter j, before anything is fetched   g<j>: a goroutine started by filter j
//	r<j>.<s>: receiver j at batch s   z<j>: finalizer j   a: after Run
//	s<k>: the source returns an error with fetch k   q: the source returns an error at its end
//	c<j>.<s>: receiver j cancels at batch s      C: another goroutine cancels the context
//	e: a goroutine calls Err repeatedly   p: Prepare of the source   R: run it again if there is an error
//
// The errors differ (same = 0), are all the same one (1), or are of a type that
// cannot be compared (2).
func f05Prog(t *vh.T, spec string, m int, acts []string, known bool, same int) {
	eq := func(x, y error) bool {
		return x == nil && y == nil || x != nil && y != nil && x.Error() == y.Error()
	}
	var p pipeline.Pipeline
	srcErr := errors.New("source error")
	mk := func(a string) error {
		switch same {
		case 1:
			return srcErr
		case 2:
			return listError{a}
		}
		return errors.New("error of " + a)
	}
	type slot struct {
		err  error
		ok   bool
		done bool
		seen error
	}
	slots := map[string]*slot{}
	for _, a := range acts {
		slots[a] = &slot{err: mk(a)}
	}
	has := func(a string) bool { return slots[a] != nil }
	act := func(a string) {
		s := slots[a]
		s.ok = p.SetErr(s.err)
		s.seen = p.Err()
		s.done = true
		if s.seen == nil {
			t.Failf("%s: Err is nil after SetErr", a)
		}
		if s.ok {
			t.Check(eq(s.seen, s.err), "%s: SetErr returned true, but Err is %v", a, s.seen)
			t.Check(p.Context().Err() != nil, "%s: SetErr returned true, but the context is not cancelled", a)
		}
	}
	srcErrs := 0
	fetched := 0
	var reads [2]error
	for j, w := range spec {
		j := j
		var filters []pipeline.Filter
		filters = append(filters, func(*pipeline.Pipeline, pipeline.NodeKind, *int) (r pipeline.Receiver, z pipeline.Finalizer) {
			if has(fmt.Sprintf("f%d", j)) {
				act(fmt.Sprintf("f%d", j))
			}
			if has(fmt.Sprintf("g%d", j)) {
				go act(fmt.Sprintf("g%d", j))
			}
			if has(fmt.Sprintf("h%d", j)) {
				go act(fmt.Sprintf("h%d", j))
			}
			if has("e") && j == 0 {
				go func() {
					reads[0] = p.Err()
					reads[1] = p.Err()
				}()
			}
			r = func(seq int, data interface{}) interface{} {
				if a := fmt.Sprintf("r%d.%d", j, seq); has(a) {
					act(a)
				}
				if a := fmt.Sprintf("c%d.%d", j, seq); has(a) {
					p.Cancel()
				}
				return data
			}
			z = func() {
				if a := fmt.Sprintf("z%d", j); has(a) {
					act(a)
				}
			}
			return
		})
		p.Add(mkNode(t, byte(w), filters))
	}
	size := -1
	if known {
		size = m
	}
	p.Source(prepSource{func() {
		if has("p") {
			act("p")
		}
	}, pipeline.NewFunc(size, func(int) (interface{}, int, error) {
		t.Check(srcErrs == 0, "Fetch after the source returned an error")
		k := fetched
		t.Check(k <= m, "Fetch after the end of the source")
		fetched++
		if k == m {
			if has("q") {
				srcErrs++
				return nil, 0, srcErr
			}
			return nil, 0, nil
		}
		if has(fmt.Sprintf("s%d", k)) {
			srcErrs++
			return k, 1, srcErr
		}
		return k, 1, nil
	})})
	p.NofBatches(max(m, 1))
	p.SetVariableBatchSize(1, 1)
	ctx, cancel := context.WithCancel(context.Background())
	if has("C") {
		go cancel()
	}
	p.RunWithContext(ctx, cancel)
	after := p.Err()
	cancel()
	if srcErrs > 0 {
		t.Check(after != nil, "Err is nil after Run although the source had an error")
	}
	if has("a") {
		act("a")
	}
	if has("R") && after != nil {
		n := fetched
		p.Run()
		t.Check(fetched == n, "a batch is fetched by Run although the pipeline has an error")
		t.Check(eq(p.Err(), after), "Err is %v instead of %v after another Run", p.Err(), after)
	}
	t.Final(func() {
		winner, oks := error(nil), 0
		for _, a := range acts {
			if s := slots[a]; s.ok {
				oks++
				t.Check(oks == 1, "two calls of SetErr returned true")
				winner = s.err
				t.Outcome("%s", a)
			}
		}
		if winner == nil && srcErrs > 0 {
			winner = srcErr
			t.Outcome("source")
		}
		for _, a := range acts {
			if s := slots[a]; s.done {
				t.Check(winner != nil && eq(s.seen, winner), "%s: Err was %v instead of %v", a, s.seen, winner)
			}
		}
		t.Check(eq(p.Err(), winner), "Err is %v instead of %v", p.Err(), winner)
		t.Check(after == nil || eq(after, winner), "Err was %v when Run had returned, and is %v later", after, winner)
		t.Check(reads[0] == nil || eq(reads[0], winner), "Err was %v", reads[0])
		t.Check(reads[1] == nil && reads[0] == nil || eq(reads[1], winner), "Err was %v", reads[1])
		for _, a := range acts {
			// what happened before Run returned is reported after Run
			if s := slots[a]; s.done && s.ok && a[0] != 'g' && a[0] != 'h' && a[0] != 'a' && a[0] != 'r' {
				t.Check(eq(after, winner), "Err was %v when Run had returned instead of %v", after, winner)
			}
		}
		if winner == nil {
			t.Outcome("none")
		}
	})
}

// prepSource calls f in Prepare
type prepSource struct {
	f func()
	pipeline.Source
}

func (s prepSource) Prepare(ctx context.Context) int {
	s.f()
	return s.Source.Prepare(ctx)
}

// listError cannot be compared
type listError []string

func (l listError) Error() string { return strings.Join(l, ",") }

func f05() {
	add := func(spec string, m int, acts string, thorough bool) {
		for _, known := range []bool{true, false} {
			known := known
			bound := 0
			if weight(spec) > 6 && m > 0 {
				bound = 2
			}
			regB("F05", fmt.Sprintf("%s/m=%d/known=%v/%s", spec, m, known, acts), bound, thorough, func(t *vh.T) {
				var l []string
				if acts != "" {
					l = strings.Split(acts, ",")
				}
				f05Prog(t, spec, m, l, known, 0)
			})
			if n := strings.Count(acts, ","); m <= 1 && weight(spec) <= 4 && acts != "" && (n > 0 || !known) {
				for same := 1; same <= 2 && (same == 1 || weight(spec) <= 2) && (m == 0 || weight(spec) <= 2); same++ {
					same := same
					regB("F05", fmt.Sprintf("%s/m=%d/known=%v/%s/same=%d", spec, m, known, acts, same), bound, thorough, func(t *vh.T) {
						f05Prog(t, spec, m, strings.Split(acts, ","), known, same)
					})
				}
			}
		}
	}
	for _, spec := range []string{"O", "S", "P", "L", "X", "OP", "PO", "SX", "PX", "PS", "LO", "PL", "LX"} {
		n := len(spec)
		l := fmt.Sprint(n - 1)
		wt := weight(spec)
		for m := 0; m <= 3; m++ {
			big := m > 2 && wt > 2
			add(spec, m, "", big)
			var single []string
			single = append(single, "f0", "g0", "z0", "a", "q", "C", "z"+l, "f"+l, "p")
			for s := 0; s < m; s++ {
				single = append(single, fmt.Sprintf("r0.%d", s), fmt.Sprintf("s%d", s), fmt.Sprintf("r%s.%d", l, s), fmt.Sprintf("c%s.%d", l, s))
			}
			seen := map[string]bool{}
			for i, a := range single {
				if !seen[a] {
					if m < 2 && wt <= 3 {
						add(spec, m, a+",R", false)
					}
					add(spec, m, a, m > 2 && wt > 1 || m > 1 && wt > 3)
					if m < 3 {
						add(spec, m, a+",e", m > 1 && wt > 1)
					}
				}
				seen[a] = true
				for _, b := range append(single[i+1:], "h0") {
					if b == a || seen[b] || b[0] == 'C' && a[0] == 'C' {
						continue
					}
					add(spec, m, a+","+b, m > 2 || m > 1 && wt > 1 || m > 0 && wt > 3 || wt > 4)
				}
			}
			add(spec, m, "g0,h0,q", m > 1 || m > 0 && wt > 2)
			add(spec, m, "g0,h0,z0", m > 1 || m > 0 && wt > 2)
			add(spec, m, "g0,h0,a", m > 1 || m > 0 && wt > 2)
		}
	}
}

// ---------------------------------------------------------------- F08

func f08() {
	neutral := []string{"O", "S", "P", "L", "X", "1", "OI", "PI", "Oi", "Si", "Pi", "Lii", "Xi", "M"}
	do := func(parts []string, m int, thorough bool) {
		spec := strings.Join(parts, ",")
		pprog{spec: spec, m: m, src: "func"}.reg("F08", 0, thorough)
	}
	ins := func(parts []string, i int, x string) []string {
		r := append([]string(nil), parts[:i]...)
		r = append(r, x)
		return append(r, parts[i:]...)
	}
	for n := 1; n <= 3; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			var parts []string
			for i := range w {
				parts = append(parts, w[i:i+1]+[]string{"f", "er", "fz"}[(i+len(w))%3])
			}
			wt := weight(w)
			m := 2
			if wt > 6 {
				m = 1
			}
			for i := 0; i <= n; i++ {
				for _, x := range neutral {
					q := ins(parts, i, x)
					do(q, m, false)
					if n > 1 || i > 0 {
						for i2 := 0; i2 <= n+1; i2++ {
							for _, x2 := range []string{"O", "P", "Li", "X"} {
								do(ins(q, i2, x2), m, n > 2 || n == 2 && wt > 4)
							}
						}
					}
				}
			}
			// filters that do nothing inside of nodes
			for i := range parts {
				q := append([]string(nil), parts...)
				q[i] = q[i][:1] + "i" + q[i][1:2] + "I" + q[i][2:] + "i"
				do(q, m, false)
				pprog{spec: strings.Join(q, ","), m: m, src: "ufunc", stop: "cancel:0:0"}.reg("F08", 0, wt > 4)
			}
			if n == 3 && wt <= 6 {
				// the same filters in one node
				for _, k := range pipeKinds {
					do([]string{string(k) + "frz" + "e"}, 3, k == 'L')
				}
				// an error or a cancellation with a node that disappears
				for i := 0; i <= n; i++ {
					for _, st := range []string{"cancel:0:0", "err:1:0", "srcerr:0:0"} {
						pprog{spec: strings.Join(ins(parts, i, "O"), ","), m: 1, src: "ufunc", stop: st}.reg("F08", 0, wt > 5)
					}
				}
			}
		})
	}
	// the node kind stays as strict after merging: a filter of an ordered node
	for _, w := range []string{"Sr,Or", "Or,Sr", "Pr,Sr,O,Or", "Pr,S,Or", "Pr,Or,S,Sr", "Pr,Xr,Sr", "Pr,X,Sr,Or", "Pr,Sr,Or,Xr", "Pr,1r,Or", "Pr,or,sr", "Pr,sr,or"} {
		for m := 2; m <= 4; m++ {
			pprog{spec: w, m: m, src: "func"}.reg("F08", 0, m > 3)
		}
	}
}

func init() {
	f04()
	f05()
	f08()
}
