package harness

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/vh"
)

// ---------------------------------------------------------------- F09: nodes defined by the user

// Kinds of user-defined nodes:
//
//	U: forwards in Feed       A: forwards from another goroutine, waited for in End
//	D: drops out in Begin     Z: sets the size   H: holds all batches back until End
//	M: merges with any M      m: merges with an m once both are started
//	E: drops out if it is not followed by anything new (size 0)
type unode struct {
	r        *unodeRun
	kind     byte
	id       int
	merged   []int // ids of the nodes merged into this one
	gone     bool  // merged into another
	begun    int
	kept     bool
	index    int // seen by Begin
	fed      []int
	idx      []int // seen by Feed
	feedIdx  int
	ended    int
	in       []bool // Feed of the batch is active
	wg       sync.WaitGroup
	mu       sync.Mutex
	held     []func()
	order    int
	tried    int
	sizeSeen int
}

type unodeRun struct {
	t       *vh.T
	p       *pipeline.Pipeline
	m       int
	fetched *int
	order   int
	ends    []int
	nodes   []*unode
	yield   bool
}

func (n *unode) TryMerge(next pipeline.Node) bool {
	n.tried++
	o, ok := next.(*unode)
	if !ok || n.gone {
		return false
	}
	if n.kind == 'M' && o.kind == 'M' || n.kind == 'm' && o.kind == 'm' && n.begun == 1 && o.begun == 1 {
		n.merged = append(append(n.merged, o.id), o.merged...)
		o.gone = true
		return true
	}
	return false
}

func (n *unode) Begin(p *pipeline.Pipeline, index int, dataSize *int) bool {
	t := n.r.t
	t.Check(p == n.r.p, "Begin gets another pipeline")
	t.Check(!n.gone, "Begin of a node that was merged")
	t.Check(*n.r.fetched == 0, "Begin after Feed")
	t.Check(p.Context() != nil, "no context in Begin")
	n.begun++
	n.index = index
	n.sizeSeen = *dataSize
	n.order = n.r.order
	n.r.order++
	if n.kind == 'Z' {
		*dataSize = 1000 + n.id
	}
	n.kept = n.kind != 'D'
	return n.kept
}

func (n *unode) Feed(p *pipeline.Pipeline, index int, seqNo int, data interface{}) {
	t := n.r.t

	t.Check(p == n.r.p, "Feed gets another pipeline")
	t.Check(n.begun == 1 && n.kept && !n.gone, "Feed of a node that is not in use")
	t.Check(n.ended == 0, "Feed after End")
	t.Check(seqNo >= 0 && seqNo < n.r.m, "sequence number %d", seqNo)
	n.fed[seqNo]++
	t.Check(n.fed[seqNo] == 1, "batch %d is fed twice", seqNo)
	n.idx[seqNo] = index
	n.in[seqNo] = true
	s, _ := data.(string)
	t.Check(strings.HasPrefix(s, fmt.Sprintf("b%d", seqNo)), "batch %d is %v", seqNo, data)
	out := s + fmt.Sprintf(">%d", n.id)
	for _, m := range n.merged {
		out += fmt.Sprintf(">%d", m)
	}
	switch n.kind {
	case 'A':
		n.wg.Add(1)
		go func() {
			defer n.wg.Done()
			p.FeedForward(index, seqNo, out)
		}()
	case 'H':
		n.mu.Lock()
		n.held = append(n.held, func() { p.FeedForward(index, seqNo, out) })
		n.mu.Unlock()
	default:
		if n.r.yield {
			t.Yield()
		}
		p.FeedForward(index, seqNo, out)
	}
	n.in[seqNo] = false
}

func (n *unode) End() {
	t := n.r.t
	n.ended++
	t.Check(n.ended == 1 && n.kept && !n.gone, "End of a node that is not in use, or twice")
	for i := range n.in {
		t.Check(!n.in[i], "End while Feed is active")
	}
	for i, k := range n.fed {
		t.Check(k == 1, "End of node %d before batch %d was fed", n.id, i)
	}
	for i := len(n.held) - 1; i >= 0; i-- {
		n.held[i]()
	}
	n.wg.Wait()
	n.r.ends = append(n.r.ends, n.id)
}

// unodeProg: letters UADZHM m for user-defined nodes, others as in mkNode.
func unodeProg(t *vh.T, spec string, m int, known, addAll, yield bool) {
	var p pipeline.Pipeline
	r := &unodeRun{t: t, p: &p, m: m, yield: yield}
	size := -1
	if known {
		size = m
	}
	k := 0
	r.fetched = &k
	p.Source(pipeline.NewFunc(size, func(int) (interface{}, int, error) {
		if k == m {
			return nil, 0, nil
		}
		k++
		return fmt.Sprintf("b%d", k-1), 1, nil
	}))
	p.NofBatches(max(m, 1))
	var nodes []pipeline.Node
	want := map[int]int{} // size each node should see
	cur := size
	seen := make([][]string, len(spec))
	filterSize := map[int]int{}
	for i := range spec {
		i := i
		seen[i] = make([]string, m)
		if strings.IndexByte("UADZHMm", spec[i]) >= 0 {
			n := &unode{r: r, kind: spec[i], id: i, fed: make([]int, m), idx: make([]int, m), in: make([]bool, m), feedIdx: -1}
			r.nodes = append(r.nodes, n)
			nodes = append(nodes, n)
			want[i] = cur
			if n.kind == 'Z' {
				cur = 1000 + i
			}
			continue
		}
		want[i] = cur
		nodes = append(nodes, mkNode(t, spec[i], []pipeline.Filter{func(pp *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
			filterSize[i] = *size
			return func(seq int, data interface{}) interface{} {
				t.Check(seen[i][seq] == "", "receiver %d gets batch %d twice", i, seq)
				seen[i][seq] = data.(string)
				return data.(string) + fmt.Sprintf(">%d", i)
			}, nil
		}}))
	}
	if addAll {
		p.Add(nodes...)
	} else {
		for _, n := range nodes {
			p.Add(n)
		}
	}
	p.Run()
	t.Check(p.Err() == nil, "Err is %v", p.Err())
	t.Check(k == m || len(nodes) == 0 || strings.Trim(spec, "D") == "", "only %d batches are fetched", k)
	// positions seen by Begin: nodes that are merged when they are added, or that dropped out
	// before, do not count
	position := map[int]int{}
	for i, pos, head := 0, 0, byte(0); i < len(spec); i++ {
		c := spec[i]
		switch {
		case c == 'M' && head == 'M', c == 'P' && head == 'P', c == 'L' && head == 'L',
			(c == 'O' || c == 'S') && strings.IndexByte("OSX", head) >= 0, c == 'X' && head == 'X':
			continue
		}
		position[i] = pos
		head = c
		if c != 'D' {
			pos++
		}
	}
	// what a batch looks like behind node i
	trail := ""
	at := make([]string, len(spec))
	for i := 0; i < len(spec); i++ {
		at[i] = trail
		if spec[i] != 'D' {
			trail += fmt.Sprintf(">%d", i)
		}
	}
	for i := range spec {
		if strings.IndexByte("UADZHMm", spec[i]) < 0 {
			for s, d := range seen[i] {
				if w := fmt.Sprintf("b%d", s) + at[i]; d != w {
					t.Failf("receiver %d gets %s instead of %s", i, d, w)
				}
			}
			t.Check(filterSize[i] == want[i], "filter %d sees size %d instead of %d", i, filterSize[i], want[i])
		}
	}
	last := -1
	for _, id := range r.ends {
		t.Check(id > last, "nodes are ended in the order %v", r.ends)
		last = id
	}
	lastBegin, lastFeed := -1, -1
	for _, n := range r.nodes {
		if n.gone && n.begun == 0 {
			continue
		}
		t.Check(n.begun == 1, "Begin of node %d is called %d times", n.id, n.begun)
		t.Check(n.order > lastBegin, "nodes begin in another order")
		lastBegin = n.order
		t.Check(n.index == position[n.id], "Begin of node %d gets index %d instead of %d", n.id, n.index, position[n.id])
		t.Check(n.sizeSeen == want[n.id], "node %d sees size %d instead of %d", n.id, n.sizeSeen, want[n.id])
		for s, k := range n.fed {
			if k > 0 {
				if n.feedIdx < 0 {
					n.feedIdx = n.idx[s]
				}
				t.Check(n.feedIdx == n.idx[s], "index %d, then %d", n.feedIdx, n.idx[s])
			}
		}
		if n.kind == 'D' || n.gone {
			t.Check(n.ended == 0 && n.feedIdx < 0, "a node that dropped out is used")
			continue
		}
		t.Check(n.ended == 1, "End of node %d is called %d times", n.id, n.ended)
		for s, k := range n.fed {
			t.Check(k == 1, "batch %d is fed %d times to node %d", s, k, n.id)
		}
		if m > 0 {
			// positions among the nodes that are left
			t.Check(n.feedIdx > lastFeed && n.feedIdx <= n.index, "node %d is fed with index %d after %d; Begin saw %d", n.id, n.feedIdx, lastFeed, n.index)
			lastFeed = n.feedIdx
		}
	}
	t.Outcome("ok")
}

func f09() {
	const users = "UADZHMm"
	for n := 1; n <= 4; n++ {
		alpha := users + "OSPLX"
		if n == 4 {
			alpha = "UADMmOP"
		}
		nodeSeqs(alpha, n, func(w string) {
			if strings.Trim(w, "OSPLX") == "" {
				return
			}
			// a strictly ordered node needs the batches in order if they come from one goroutine
			wt := 0
			for i := range w {
				switch w[i] {
				case 'P', 'X':
					wt += 2
				case 'L', 'A':
					wt += 3
				case 'O', 'S', 'H':
					wt++
				}
			}
			if i := strings.LastIndexByte(w, 'X'); i >= 0 && strings.IndexByte(w[:i], 'H') >= 0 {
				return
			}
			for m := 0; m <= 3; m++ {
				w, m := w, m
				big := n == 4 && wt > 3 || m > 2 && wt > 2 || m > 1 && wt > 5 || n == 4 && m > 2
				regT("F09", fmt.Sprintf("%s/m=%d", w, m), big, func(t *vh.T) { unodeProg(t, w, m, m%2 == 0, n%2 == 0, false) })
				if n <= 2 {
					regT("F09", fmt.Sprintf("%s/m=%d/yield", w, m), big, func(t *vh.T) { unodeProg(t, w, m, m%2 == 1, n%2 == 1, true) })
				}
			}
		})
	}
	// ComposeFilters
	vectors("frzi", 4, func(w string) {
		for _, kind := range []pipeline.NodeKind{pipeline.Ordered, pipeline.Sequential, pipeline.Parallel} {
			w, kind := w, kind
			reg("F09", fmt.Sprintf("ComposeFilters/%s/%v", w, kind), func(t *vh.T) {
				var p pipeline.Pipeline
				var log, wr, wf []int
				var fs []pipeline.Filter
				size := 7
				for i := range w {
					i := i
					if w[i] == 'f' || w[i] == 'r' {
						wr = append(wr, i)
					}
					if w[i] == 'f' || w[i] == 'z' {
						wf = append(wf, i)
					}
					fs = append(fs, func(pp *pipeline.Pipeline, kd pipeline.NodeKind, sz *int) (r pipeline.Receiver, z pipeline.Finalizer) {
						t.Check(pp == &p && kd == kind && sz == &size && *sz == 7+i, "filter %d gets %v, %v, %d", i, pp, kd, *sz)
						*sz++
						log = append(log, i)
						if w[i] == 'f' || w[i] == 'r' {
							r = func(int, interface{}) interface{} { return i }
						}
						if w[i] == 'f' || w[i] == 'z' {
							z = func() { log = append(log, 100+i) }
						}
						return
					})
				}
				for cut := 0; cut <= len(w); cut++ {
					size, log = 7, nil
					rs, zs := pipeline.ComposeFilters(&p, kind, &size, fs[:cut])
					nr, nz := 0, 0
					for i := 0; i < cut; i++ {
						if w[i] == 'f' || w[i] == 'r' {
							t.Check(nr < len(rs) && rs[nr](0, nil) == i, "receiver %d", nr)
							nr++
						}
						if w[i] == 'f' || w[i] == 'z' {
							log = nil
							t.Check(nz < len(zs), "finalizer %d", nz)
							zs[nz]()
							t.Check(len(log) == 1 && log[0] == 100+i, "finalizer %d", nz)
							nz++
						}
					}
					t.Check(len(rs) == nr && len(zs) == nz && size == 7+cut, "%d receivers, %d finalizers, size %d", len(rs), len(zs), size)
					t.Cases(1)
				}
			})
		}
	})
}

// ---------------------------------------------------------------- F10: contexts

type ctxKey string

// ctxProg runs a pipeline with a context derived from another one.
//
// how: run (Run), bg (RunWithContext), parent (RunWithContext with a child of a context that is
// cancelled by another goroutine), deadline: the child of a child, nocancel: cancel function that
// only counts.
// what: what happens: "", cancel:j:s, err:j:s, zcancel:j (finalizer), fcancel:j (filter)
func ctxProg(t *vh.T, spec string, m int, how, what string, known bool) {
	var p pipeline.Pipeline
	kind, j, s := what, -1, -1
	if parts := strings.Split(what, ":"); len(parts) > 1 {
		kind = parts[0]
		fmt.Sscan(parts[1], &j)
		if len(parts) > 2 {
			fmt.Sscan(parts[2], &s)
		}
	}
	var ctx context.Context
	var calls int32
	inner := func() {}
	if how != "run" {
		base := context.WithValue(context.Background(), ctxKey("k"), "v")
		parent, pcancel := context.WithCancel(base)
		switch how {
		case "parent":
			ctx, inner = context.WithCancel(parent)
			go pcancel()
		case "grandparent":
			mid, _ := context.WithCancel(parent)
			ctx, inner = context.WithCancel(mid)
			go pcancel()
		case "deadline":
			ctx, inner = context.WithTimeout(parent, time.Millisecond)
		case "expired":
			ctx, inner = context.WithDeadline(parent, time.Unix(1, 0))
		case "before":
			ctx, inner = parent, pcancel
			pcancel()
		case "cause":
			c, cc := context.WithCancelCause(base)
			ctx, inner = context.WithCancel(c)
			go cc(errPipe)
		case "own":
			ctx, inner = &ownCtx{parent, t}, pcancel
			go pcancel()
		default:
			ctx, inner = parent, pcancel
		}
	}
	acted := int32(0)
	var got context.Context
	look := func(where string) {
		c := p.Context()
		if where == "Prepare" {
			got = c
		}
		t.Check(c != nil && got == c, "%s: another context", where)
		if how != "run" {
			t.Check(c == ctx, "%s: not the context passed to RunWithContext", where)
			t.Check(c.Value(ctxKey("k")) == "v", "%s: the context has lost its values", where)
		}
		if what == "" && (how == "run" || how == "bg") && (how != "run" || where != "after") {
			t.Check(c.Err() == nil, "%s: the context is cancelled although nobody did", where)
		}
	}
	act := func() {
		switch kind {
		case "cancel", "zcancel", "fcancel":
			p.Cancel()
		case "err", "zerr", "ferr":
			t.Check(p.SetErr(errPipe), "SetErr returns false")
		}
		err := p.Context().Err()
		t.Check(err == context.Canceled || err == context.DeadlineExceeded && (how == "deadline" || how == "expired"), "the context is not cancelled by %s: %v", what, err)
		atomic.AddInt32(&acted, 1)
	}
	fins := make([]int, len(spec))
	recvs := make([]int32, len(spec))
	for i := range spec {
		i := i
		p.Add(mkNode(t, spec[i], []pipeline.Filter{func(pp *pipeline.Pipeline, _ pipeline.NodeKind, _ *int) (pipeline.Receiver, pipeline.Finalizer) {
			look("filter")
			if kind[:min(1, len(kind))] == "f" && j == i {
				act()
			}
			return func(seq int, data interface{}) interface{} {
					look("receiver")
					atomic.AddInt32(&recvs[i], 1)
					if (kind == "cancel" || kind == "err") && j == i && s == seq {
						act()
					}
					return data
				}, func() {
					look("finalizer")
					fins[i]++
					if kind[:min(1, len(kind))] == "z" && j == i {
						act()
					}
				}
		}}))
	}
	u := &ctxSource{t: t, n: m, known: known, look: look}
	p.Source(u)
	p.NofBatches(max(m, 1))
	p.SetVariableBatchSize(1, 1)
	if how == "run" {
		p.Run()
		t.Check(p.Context().Err() == context.Canceled, "the context is not cancelled when Run has returned")
	} else {
		p.RunWithContext(ctx, func() { atomic.AddInt32(&calls, 1); inner() })
		if n := atomic.LoadInt32(&calls); atomic.LoadInt32(&acted) == 0 && what == "" {
			t.Check(n == 0, "RunWithContext calls the cancel function although nobody asked for it")
			if how == "bg" {
				t.Check(ctx.Err() == nil, "RunWithContext has cancelled the context")
			}
		}
	}
	look("after")
	if strings.Contains(kind, "err") {
		t.Check(atomic.LoadInt32(&acted) == 0 || p.Err() == errPipe, "Err is %v", p.Err())
	} else {
		t.Check(p.Err() == nil, "Err is %v although nobody set an error", p.Err())
	}
	if u.prepared != 1 {
		t.Failf("Prepare is called %d times", u.prepared)
	}
	if how != "run" {
		t.Check(u.ctx == ctx, "Prepare gets another context")
	} else {
		t.Check(u.ctx == p.Context(), "Prepare gets another context")
	}
	if how == "run" || how == "bg" {
		if what == "" {
			for i := range spec {
				t.Check(fins[i] == 1 && int(recvs[i]) == m, "receiver %d ran %d times, finalizer %d times", i, recvs[i], fins[i])
			}
		}
	}
	inner()
	t.Final(func() {
		if acted == 0 && what != "" && kind[0] == 'f' {
			t.Failf("a filter was not invoked")
		}
		if acted > 0 && how != "run" {
			t.Check(calls >= 1, "the cancel function was not called")
		}
	})
}

// ownCtx is a context of the user's own.
type ownCtx struct {
	context.Context
	t *vh.T
}

func (c *ownCtx) Value(k interface{}) interface{} {
	if s, ok := k.(ctxKey); ok && s == "own" {
		return c
	}
	return c.Context.Value(k)
}

type ctxSource struct {
	t        *vh.T
	n, pos   int
	known    bool
	prepared int
	ctx      context.Context
	look     func(string)
}

func (u *ctxSource) Err() error { return nil }
func (u *ctxSource) Prepare(ctx context.Context) int {
	u.prepared++
	u.ctx = ctx
	u.look("Prepare")
	if u.known {
		return u.n
	}
	return -1
}
func (u *ctxSource) Fetch(size int) int {
	u.look("Fetch")
	if u.pos == u.n {
		return 0
	}
	u.pos++
	return 1
}
func (u *ctxSource) Data() interface{} { return u.pos }

func f10() {
	for n := 1; n <= 2; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			wt := weight(w)
			for m := 0; m <= 3; m++ {
				acts := []string{""}
				for j := 0; j < n; j++ {
					acts = append(acts, fmt.Sprintf("zcancel:%d", j), fmt.Sprintf("fcancel:%d", j), fmt.Sprintf("zerr:%d", j), fmt.Sprintf("ferr:%d", j))
					for s := 0; s < m; s++ {
						acts = append(acts, fmt.Sprintf("cancel:%d:%d", j, s), fmt.Sprintf("err:%d:%d", j, s))
					}
				}
				for _, how := range []string{"run", "bg", "parent", "grandparent", "deadline", "expired", "before", "cause", "own"} {
					for _, a := range acts {
						w, m, how, a := w, m, how, a
						if (how == "grandparent" || how == "parent" && a != "") && (m > 1 || wt > 3) || how != "run" && how != "bg" && !strings.HasSuffix(how, "parent") && (m > 2 || wt > 3 || a != "" && n > 1) {
							continue
						}
						big := m > 2 && wt > 2 || m > 1 && wt > 3 || how[0] != 'r' && how[0] != 'b' && wt > 3
						name := fmt.Sprintf("%s/m=%d/%s", w, m, how)
						if a != "" {
							name += "/" + a
						}
						regT("F10", name, big, func(t *vh.T) { ctxProg(t, w, m, how, a, m%2 == 1) })
						if m == 0 || n == 1 {
							regT("F10", name+"/other", big, func(t *vh.T) { ctxProg(t, w, m, how, a, m%2 == 0) })
						}
					}
				}
			}
		})
	}
	for n := 3; n <= 4; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			for _, how := range []string{"run", "bg"} {
				for _, a := range []string{"", "cancel:0:1", "err:1:0", "cancel:2:0", "zcancel:1", "zerr:0", "ferr:1"} {
					w, how, a := w, how, a
					vh.Register(vh.Instance{Prop: "F10", Name: fmt.Sprintf("many/%s/%s/%s", w, how, a), Delay: 1, Strict: true, Body: func(t *vh.T) { ctxProg(t, w, 3, how, a, n == 3) }})
				}
			}
		})
	}
}

func init() {
	f09()
	f10()
}
