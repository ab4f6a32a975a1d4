package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/vh"
)

// pprog is a pipeline whose receivers and finalizers record what they see.
//
// spec: nodes separated by commas; each is a letter for the kind (O ordered, S sequential,
// P parallel, X strictly ordered, L/M limited with 2/3 goroutines, D limited by GOMAXPROCS,
// 1 limited with 1 goroutine, o/s/p made by NewNode) and one letter per filter (f receiver and finalizer,
// r receiver, n receiver that turns every batch into nil, N only every other batch, z finalizer, i neither, I pipeline.Identity, e the filter changes the size;
// R, Z, F are made by pipeline.Receive, Finalize, ReceiveAndFinalize; G, H by ReceiveAndFinalize
// with only one function; j are made by these functions without any function).
type pprog struct {
	spec   string
	m      int    // number of batches
	src    string // func: known size; ufunc: unknown size; nfunc: batches are nil; chan, bchan: SingletonChan; stuck: a SingletonChan that is never closed; stuckch: a channel that is never closed
	stop   string // "": nothing; ctx: another goroutine cancels the context; err: another goroutine calls SetErr; cancel:j:s / err:j:s: receiver j does at batch s; srcerr:k
	yield  bool   // receivers have a scheduling point
	addAll bool   // one call of Add with all nodes
	shared bool   // nodes are merged into nodes made from the same slice
	pre    int    // cancel/err before or while the filters are invoked (by filter pre-1)
}

type pfstate struct {
	letter, node         byte
	made                 bool // by pipeline.Receive etc.
	nodeIdx              int
	kind                 pipeline.NodeKind
	calls                int
	started, ended, next int
	recv, done           []int
	fin                  int
	expect               func(seq int) string
	recvd                bool
}

var errPipe = errors.New("pipe error")

func strictness(k pipeline.NodeKind) int {
	switch k {
	case pipeline.Ordered:
		return 2
	case pipeline.Sequential:
		return 1
	}
	return 0
}

func requested(node byte) int {
	switch node {
	case 'O', 'X', 'o':
		return 2
	case 'S', '1', 's':
		return 1
	}
	return 0
}

func mkNode(t *vh.T, kind byte, filters []pipeline.Filter) pipeline.Node {
	switch kind {
	case 'O':
		return pipeline.Ord(filters...)
	case 'S':
		return pipeline.Seq(filters...)
	case 'P':
		return pipeline.Par(filters...)
	case 'X':
		return pipeline.StrictOrd(filters...)
	case '1':
		return pipeline.LimitedPar(1, filters...)
	case 'L':
		return pipeline.LimitedPar(2, filters...)
	case 'M':
		return pipeline.LimitedPar(3, filters...)
	case 'D':
		return pipeline.LimitedPar(0, filters...)
	case 'o':
		return pipeline.NewNode(pipeline.Ordered, filters...)
	case 's':
		return pipeline.NewNode(pipeline.Sequential, filters...)
	case 'p':
		return pipeline.NewNode(pipeline.Parallel, filters...)
	}
	panic("mkNode")
}

func (c pprog) name() string {
	s := fmt.Sprintf("%s/m=%d/%s", c.spec, c.m, c.src)
	if c.stop != "" {
		s += "/" + c.stop
	}
	if c.pre > 0 {
		s += fmt.Sprintf("@%d", c.pre)
	}
	if c.yield {
		s += "/yield"
	}
	if c.shared {
		s += "/shared"
	}
	return s
}

func (c pprog) run(t *vh.T) {
	var p pipeline.Pipeline
	var fs []*pfstate
	var nodes []pipeline.Node
	expect := func(seq int) string { return fmt.Sprintf("b%d", seq) }
	if c.src == "nfunc" {
		expect = func(seq int) string { return "nil" }
	}
	size := c.m
	if c.src != "func" && c.src != "nfunc" {
		size = -1
	}
	want := size
	stopKind, stopJ, stopS := c.stop, -1, -1
	if parts := strings.Split(c.stop, ":"); len(parts) == 3 {
		stopKind = parts[0]
		fmt.Sscan(parts[1], &stopJ)
		fmt.Sscan(parts[2], &stopS)
	}
	fetches := 0
	// every node is merged into one that was made from this slice
	shared := append(make([]pipeline.Filter, 0, 16), pipeline.Identity)
	for ni, ns := range strings.Split(c.spec, ",") {
		var filters []pipeline.Filter
		for k := 1; k < len(ns); k++ {
			if ns[k] == 'I' {
				filters = append(filters, pipeline.Identity)
				continue
			}
			if ns[k] == 'j' {
				filters = append(filters, pipeline.Receive(nil), pipeline.Finalize(nil), pipeline.ReceiveAndFinalize(nil, nil))
				continue
			}
			j := len(fs)
			made := ns[k]
			letter := made
			if k := strings.IndexByte("RZFGH", made); k >= 0 {
				letter = "rzfrz"[k]
			} else {
				made = 0
			}
			f := &pfstate{letter: letter, made: made != 0, kind: pipeline.Parallel, node: ns[0], nodeIdx: ni, expect: expect, recv: make([]int, c.m), done: make([]int, c.m)}
			fs = append(fs, f)
			if strings.IndexByte("frenN", f.letter) >= 0 {
				f.recvd = true
				expect = func(seq int) string {
					if f.letter == 'n' || f.letter == 'N' && seq%2 == 1 {
						return "nil"
					}
					return f.expect(seq) + fmt.Sprintf(">%d", j)
				}
			}
			wantHere := want
			if f.letter == 'e' {
				want = 100 + j
			}
			receive := func(seq int, data interface{}) interface{} {
				if seq < 0 || seq >= c.m {
					t.Failf("receiver %d: sequence number %d", j, seq)
				}
				s, _ := data.(string)
				if l, ok := data.([]string); ok {
					s = strings.Join(l, "|")
				} else if data == nil {
					s = "nil"
				}
				if want := f.expect(seq); s != want {
					t.Failf("receiver %d of batch %d got %v instead of %s", j, seq, data, want)
				}
				strict := requested(f.node)
				if k := strictness(f.kind); k > strict {
					strict = k
				}
				if strict > 0 {
					if f.started != f.ended {
						t.Failf("receiver %d is active more than once at the same time", j)
					}
					f.started++
				}
				if strict == 2 {
					if f.next != seq {
						t.Failf("ordered receiver %d got batch %d instead of %d", j, seq, f.next)
					}
					f.next++
				}
				f.recv[seq]++
				if f.recv[seq] > 1 {
					t.Failf("receiver %d got batch %d more than once", j, seq)
				}
				if c.yield {
					t.Yield()
				}
				if j == stopJ && seq == stopS {
					if stopKind == "cancel" {
						p.Cancel()
					} else {
						p.SetErr(errPipe)
					}
				}
				f.done[seq]++
				if strict > 0 {
					f.ended++
				}
				if f.letter == 'n' || f.letter == 'N' && seq%2 == 1 {
					return nil
				}
				return s + fmt.Sprintf(">%d", j)
			}
			finalize := func() {
				f.fin++
				if c.stop == "" {
					for _, g := range fs {
						if g.nodeIdx != f.nodeIdx || !g.recvd {
							continue
						}
						for s := range g.recv {
							if g.recv[s] != 1 || g.done[s] != 1 {
								t.Failf("finalizer of filter %d runs before batch %d has passed its node", j, s)
							}
						}
					}
				}
			}
			switch made {
			case 'R':
				filters = append(filters, pipeline.Receive(receive))
				continue
			case 'Z':
				filters = append(filters, pipeline.Finalize(finalize))
				continue
			case 'F':
				filters = append(filters, pipeline.ReceiveAndFinalize(receive, finalize))
				continue
			case 'G':
				filters = append(filters, pipeline.ReceiveAndFinalize(receive, nil))
				continue
			case 'H':
				filters = append(filters, pipeline.ReceiveAndFinalize(nil, finalize))
				continue
			}
			filters = append(filters, func(pp *pipeline.Pipeline, kind pipeline.NodeKind, dataSize *int) (r pipeline.Receiver, z pipeline.Finalizer) {
				f.calls++
				f.kind = kind
				t.Check(pp == &p, "filter %d is invoked with another pipeline", j)
				t.Check(fetches == 0, "filter %d is invoked after a batch was fetched", j)
				if strictness(kind) < requested(f.node) {
					t.Failf("filter %d: node kind %v is weaker than requested", j, kind)
				}
				if *dataSize != wantHere {
					t.Failf("filter %d: data size %d instead of %d", j, *dataSize, wantHere)
				}
				if f.letter == 'e' {
					*dataSize = 100 + j
				}
				if c.pre == j+1 {
					switch c.stop {
					case "cancel":
						p.Cancel()
					case "seterr":
						t.Check(p.SetErr(errPipe), "SetErr returns false")
					case "err":
						go func() {
							t.Check(p.SetErr(errPipe), "SetErr returns false")
						}()
					case "gocancel":
						go p.Cancel()
					}
				}
				if f.recvd {
					r = receive
				}
				if f.letter == 'f' || f.letter == 'z' {
					z = finalize
				}
				return
			})
		}
		if c.shared {
			nodes = append(nodes, mkNode(t, ns[0], shared))
		}
		nodes = append(nodes, mkNode(t, ns[0], filters))
	}
	ended := false
	fetch := func(n int) (interface{}, int, error) {
		t.Check(!ended, "a batch is fetched after the end of the source")
		if fetches >= c.m {
			ended = true
			return nil, 0, nil
		}
		k := fetches
		fetches++
		if stopKind == "srcerr" && k == stopS {
			ended = true
			return fmt.Sprintf("b%d", k), 1, errPipe
		}
		if c.src == "nfunc" {
			return nil, 1, nil
		}
		return fmt.Sprintf("b%d", k), 1, nil
	}
	gone := make(chan bool)
	switch c.src {
	case "func", "ufunc", "nfunc":
		p.Source(pipeline.NewFunc(size, fetch))
	case "chan", "stuck", "stuckch":
		ch := make(chan string)
		go func() {
			for k := 0; k < c.m; k++ {
				select {
				case ch <- fmt.Sprintf("b%d", k):
				case <-gone:
					return
				}
			}
			if c.src == "chan" {
				close(ch)
			}
		}()
		if c.src == "stuckch" {
			p.Source(ch)
		} else {
			p.Source(pipeline.NewSingletonChan(ch))
		}
	case "bchan":
		ch := make(chan string, c.m)
		for k := 0; k < c.m; k++ {
			ch <- fmt.Sprintf("b%d", k)
		}
		close(ch)
		p.Source(pipeline.NewSingletonChan(ch))
	}
	if c.m > 0 {
		p.NofBatches(c.m)
	}
	p.SetVariableBatchSize(1, 1)
	if c.addAll {
		p.Add(nodes...)
	} else {
		for _, n := range nodes {
			p.Add(n)
		}
	}
	if c.stop == "ctx" {
		ctx, cancel := context.WithCancel(context.Background())
		go cancel()
		p.RunWithContext(ctx, cancel)
		cancel()
	} else if c.stop == "ctxbefore" {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		p.RunWithContext(ctx, cancel)
	} else {
		p.Run()
	}
	close(gone)
	failing := strings.HasPrefix(c.stop, "err") || stopKind == "srcerr" || stopKind == "seterr"
	if stopKind == "srcerr" || stopKind == "seterr" {
		t.Check(p.Err() == errPipe, "Err is %v after Run", p.Err())
	}
	if c.stop == "" {
		t.Check(p.Err() == nil, "Err is %v", p.Err())
		t.Check(c.src == "chan" || c.src == "bchan" || fetches == c.m && ended || len(fs) == 0, "only %d batches were fetched", fetches)
		t.Outcome("ok")
	}
	check := func() {
		for j, f := range fs {
			t.Check(f.made || f.calls == 1 || failing && f.calls <= 1, "filter %d is invoked %d times", j, f.calls)
			wantFin := 0
			if f.letter == 'f' || f.letter == 'z' {
				wantFin = 1
			}
			if f.fin > wantFin || f.fin < wantFin && c.stop == "" {
				t.Failf("finalizer %d ran %d times", j, f.fin)
			}
			if !f.recvd {
				continue
			}
			for s := range f.recv {
				n := f.recv[s]
				if n > 1 || n != f.done[s] || n != 1 && c.stop == "" {
					t.Failf("receiver %d got batch %d %d times", j, s, n)
				}
				strict := requested(f.node)
				if k := strictness(f.kind); k > strict {
					strict = k
				}
				if strict == 2 && n == 1 && s > 0 && f.recv[s-1] != 1 {
					t.Failf("ordered receiver %d got batch %d but not the one before", j, s)
				}
			}
		}
	}
	if c.stop == "" {
		check()
	} else {
		if !failing {
			// all finalizers are invoked
			for j, f := range fs {
				if (f.letter == 'f' || f.letter == 'z') && f.fin != 1 {
					t.Failf("finalizer %d ran %d times", j, f.fin)
				}
			}
		}
		t.Final(func() {
			check()
			if strings.HasPrefix(c.stop, "err") && (c.stop == "err" || fs[stopJ].recv[stopS] == 1) {
				t.Check(p.Err() == errPipe, "Err is %v", p.Err())
			}
			if stopKind == "cancel" || stopKind == "ctx" {
				t.Check(p.Err() == nil, "Err is %v", p.Err())
			}
			s := ""
			for _, f := range fs {
				for _, n := range f.recv {
					s += fmt.Sprint(n)
				}
				s += "."
			}
			t.Outcome("%s", s)
		})
	}
}

func (c pprog) reg(prop string, bound int, thorough bool) {
	vh.Register(vh.Instance{Prop: prop, Name: c.name(), Bound: bound, Thorough: thorough, Body: func(t *vh.T) { c.run(t) }})
}

func (c pprog) regD(prop string, delay int, thorough bool) {
	vh.Register(vh.Instance{Prop: prop, Name: fmt.Sprintf("delays/%s", c.name()), Delay: delay, Thorough: thorough, Body: func(t *vh.T) { c.run(t) }})
}

// nodeSeqs calls f with all sequences of n node kinds.
func nodeSeqs(alphabet string, n int, f func(w string)) { vectors(alphabet, n, f) }

func specOf(w, filters string) string {
	var s []string
	for i := range w {
		s = append(s, w[i:i+1]+filters)
	}
	return strings.Join(s, ",")
}

func init() {
	f01()
	f02()
	f03()
}

const pipeKinds = "OSPLX"

// weight is the number of nodes that make the number of schedules grow quickly
func weight(w string) (n int) {
	for _, c := range w {
		switch c {
		case 'P', 'X':
			n += 2
		case 'L', 'D', 'p':
			n += 3
		case 'M':
			n += 4
		default:
			n++
		}
	}
	if i := strings.IndexAny(w, "LDM"); i >= 0 && strings.Contains(w[i:], "X") {
		n += 2
	}
	return
}

func f01() {
	for n := 1; n <= 4; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			for m := 0; m <= 4; m++ {
				wt := weight(w)
				big := m > 3 && wt > 3 || m > 2 && wt > 6 || m > 1 && wt > 9 || n == 4 && m == 0
				pprog{spec: specOf(w, "f"), m: m, src: "func"}.reg("F01", 0, big)
				pprog{spec: specOf(w, "rfz"), m: m, src: "ufunc", addAll: true}.reg("F01", 0, n > 3 || m > 2 || wt > 6)
			}
		})
	}
	for n := 1; n <= 2; n++ {
		nodeSeqs("OSPLXMD1osp", n, func(w string) {
			if strings.Trim(w, pipeKinds) != "" {
				for m := 1; m <= 3; m++ {
					big := m > 2 && weight(w) > 3
					pprog{spec: specOf(w, "f"), m: m, src: "func"}.reg("F01", 0, big)
					pprog{spec: specOf(w, "fzr"), m: m, src: "chan"}.reg("F01", 0, m > 1 && weight(w) > 3)
				}
			}
		})
	}
	// the functions that make filters
	for n := 1; n <= 3; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			for m := 0; m <= 2; m++ {
				wt := weight(w)
				pprog{spec: specOf(w, "RZF"), m: m, src: "func"}.reg("F01", 0, m > 1 && wt > 2 || wt > 5)
				pprog{spec: specOf(w, "FjHG"), m: m, src: "ufunc", addAll: true}.reg("F01", 0, m > 1 && wt > 2 || wt > 5)
				pprog{spec: specOf(w, "Z"), m: m, src: "func"}.reg("F01", 0, m > 1 && wt > 2 || wt > 5)
				pprog{spec: specOf(w, "ZfHrGj"), m: m, src: "chan"}.reg("F01", 0, m > 1 && wt > 2 || wt > 3)
			}
		})
	}
	// batches that are nil
	for n := 1; n <= 3; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			for m := 1; m <= 4; m++ {
				wt := weight(w)
				pprog{spec: specOf(w, "r"), m: m, src: "nfunc"}.reg("F01", 0, m > 2 && wt > 2 || m > 1 && wt > 4 || wt > 6)
				pprog{spec: specOf(w, "n"), m: m, src: "ufunc"}.reg("F01", 0, m > 2 && wt > 4 || m > 1 && wt > 6 || m > 3 && wt > 3)
				pprog{spec: specOf(w, "fN"), m: m, src: "func"}.reg("F01", 0, m > 3 || m > 2 && wt > 3 || m > 1 && wt > 4 || wt > 6)
			}
		})
	}
	for n := 1; n <= 3; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			for m := 1; m <= 3; m++ {
				wt := weight(w)
				pprog{spec: specOf(w, "f"), m: m, src: "chan", yield: true}.reg("F01", 0, m > 2 && wt > 2 || m > 1 && wt > 3 || wt > 5)
			}
		})
	}
}

func f02() {
	stops := []string{"ctx", "cancel:0:1", "err:0:1"}
	for n := 1; n <= 3; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			if strings.Trim(w, "PL") == "" {
				return
			}
			for m := 2; m <= 5; m++ {
				wt := weight(w)
				big := m > 4 && wt > 3 || m > 3 && wt > 4 || m > 2 && wt > 6
				pprog{spec: specOf(w, "r"), m: m, src: "func"}.reg("F02", 0, big)
				pprog{spec: specOf(w, "r"), m: m, src: "func", yield: true}.reg("F02", 0, big || m > 3 || m > 2 && wt > 4)
				for _, st := range stops {
					pprog{spec: specOf(w, "r"), m: m, src: "func", stop: st}.reg("F02", 0, big || m > 3 || m > 2 && wt > 3 || wt > 5)
				}
				for _, j := range []int{1, 2} {
					if j < n {
						pprog{spec: specOf(w, "r"), m: m, src: "func", stop: fmt.Sprintf("cancel:%d:0", j)}.reg("F02", 0, big || m > 3 || m > 2 && wt > 3 || wt > 5)
					}
				}
			}
		})
	}
}

func f03() {
	for n := 1; n <= 3; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			wt := weight(w)
			for m := 1; m <= 3; m++ {
				big := m > 2 && wt > 4 || m > 1 && wt > 6
				pprog{spec: specOf(w, "f"), m: m, src: "func"}.reg("F03", 0, big)
				var stops []string
				for j := 0; j < n; j++ {
					for s := 0; s < m; s++ {
						stops = append(stops, fmt.Sprintf("cancel:%d:%d", j, s), fmt.Sprintf("err:%d:%d", j, s))
					}
				}
				for s := 0; s < m; s++ {
					stops = append(stops, fmt.Sprintf("srcerr:0:%d", s))
				}
				stops = append(stops, "ctx", "ctxbefore")
				for _, st := range stops {
					pprog{spec: specOf(w, "f"), m: m, src: "func", stop: st}.reg("F03", 0, m > 2 && wt > 2 || m > 1 && wt > 4 || wt > 7)
				}
				for _, st := range []string{"", "ctx", "srcerr:0:0", "cancel:0:0", fmt.Sprintf("err:%d:0", n-1)} {
					pprog{spec: specOf(w, "F"), m: m, src: "func", stop: st}.reg("F03", 0, m > 1 && wt > 2 || wt > 4)
					pprog{spec: specOf(w, "FHG"), m: m, src: "ufunc", stop: st}.reg("F03", 0, m > 1 && wt > 2 || wt > 4)
				}
				for pre := 1; pre <= n; pre++ {
					for _, st := range []string{"cancel", "seterr", "err", "gocancel"} {
						pprog{spec: specOf(w, "f"), m: m, src: "ufunc", stop: st, pre: pre}.reg("F03", 0, m > 2 && wt > 2 || m > 1 && wt > 3 || wt > 5)
					}
				}
				if n < 3 || m == 1 {
					for _, src := range []string{"stuck", "stuckch"} {
						for _, st := range []string{"ctx", fmt.Sprintf("cancel:0:%d", m-1), fmt.Sprintf("err:%d:%d", n-1, m-1), "cancel:0:0"} {
							pprog{spec: specOf(w, "f"), m: m, src: src, stop: st}.reg("F03", 0, m > 2 && wt > 1 || m > 1 && wt > 2 || wt > 3)
						}
					}
				}
				pprog{spec: specOf(w, "f"), m: m, src: "chan", stop: "ctx"}.reg("F03", 0, m > 2 && wt > 2 || m > 1 && wt > 2 || wt > 5)
			}
		})
	}
	// strictly ordered nodes after limited and parallel ones
	for _, w := range []string{"PLX", "LX", "PX", "PLLX", "PMX", "SLX", "LSX", "PSX", "XPX", "PXP", "PXL", "LXP"} {
		for _, m := range []int{2, 3} {
			for _, st := range []string{"ctx", "cancel:0:0", "cancel:0:1", "err:0:0", "cancel:1:0", "err:1:1", "srcerr:0:0", "srcerr:0:1"} {
				pprog{spec: specOf(w, "r"), m: m, src: "func", stop: st}.regD("F03", 4, m > 2)
			}
		}
	}
}
