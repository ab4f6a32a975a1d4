package harness

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/vh"
)

// ---------------------------------------------------------------- F01, F02: orders of arrival

// permNode holds back window batches and releases them in another order: one after another from
// the goroutine that fed the last of them, or each from a goroutine of its own.
type permNode struct {
	m, window int
	perm      []int // of window elements
	async     bool
	n         int
	held      []func()
	done      chan bool
	p         *pipeline.Pipeline
	index     int
}

func (n *permNode) TryMerge(pipeline.Node) bool { return false }
func (n *permNode) Begin(p *pipeline.Pipeline, index int, _ *int) bool {
	n.done = make(chan bool, n.m)
	return true
}

func (n *permNode) release() {
	for _, i := range n.perm {
		if i >= len(n.held) {
			continue
		}
		if f := n.held[i]; n.async {
			go func() {
				f()
				n.done <- true
			}()
		} else {
			f()
			n.done <- true
		}
	}
	n.held = n.held[:0]
}

func (n *permNode) Feed(p *pipeline.Pipeline, index int, seqNo int, data interface{}) {
	n.held = append(n.held, func() { p.FeedForward(index, seqNo, data) })
	if len(n.held) == n.window {
		n.release()
	}
	n.n++
}

func (n *permNode) End() {
	n.release()
	for i := 0; i < n.n; i++ {
		<-n.done
	}
}

// permutation returns one of several permutations of 0..n-1.
func permutation(kind string, n int) (p []int) {
	switch kind {
	case "id":
		return seqOf(n, func(i int) int { return i })
	case "rev":
		return seqOf(n, func(i int) int { return n - 1 - i })
	case "first-last": // 1 2 ... n-1 0
		return seqOf(n, func(i int) int { return (i + 1) % n })
	case "last-first":
		return seqOf(n, func(i int) int { return (i + n - 1) % n })
	case "rot":
		return seqOf(n, func(i int) int { return (i + n/2) % n })
	case "odd-even":
		for i := 1; i < n; i += 2 {
			p = append(p, i)
		}
		for i := 0; i < n; i += 2 {
			p = append(p, i)
		}
	case "even-odd":
		for i := 0; i < n; i += 2 {
			p = append(p, i)
		}
		for i := 1; i < n; i += 2 {
			p = append(p, i)
		}
	case "inout": // 0 n-1 1 n-2 ...
		for i := 0; i < (n+1)/2; i++ {
			p = append(p, i)
			if n-1-i != i {
				p = append(p, n-1-i)
			}
		}
	case "outin":
		p = permutation("inout", n)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	case "blocks": // blocks of three, each reversed
		for i := 0; i < n; i += 3 {
			for j := min(i+2, n-1); j >= i; j-- {
				p = append(p, j)
			}
		}
	case "mod":
		k := 3
		for gcd(k, n) != 1 {
			k++
		}
		return seqOf(n, func(i int) int { return i * k % n })
	default:
		panic(kind)
	}
	return
}

func gcd(a, b int) int {
	for b > 0 {
		a, b = b, a%b
	}
	return a
}

var permKinds = []string{"id", "rev", "first-last", "last-first", "rot", "odd-even", "even-odd", "inout", "outin", "blocks", "mod"}

// permProg: the nodes of spec after a permNode.
func permProg(t *vh.T, spec string, m int, perm []int, async bool, stop int) {
	var p pipeline.Pipeline
	g := &permNode{m: m, window: len(perm), perm: perm, async: async}
	p.Add(g)
	next := make([]int, len(spec))
	seen := make([][]bool, len(spec))
	active := make([]bool, len(spec))
	fins := make([]int, len(spec))
	for i := range spec {
		i := i
		seen[i] = make([]bool, m)
		strict := requested(spec[i])
		p.Add(mkNode(t, spec[i], []pipeline.Filter{func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
			return func(seq int, data interface{}) interface{} {
					if strict > 0 {
						t.Check(!active[i], "receiver %d is active more than once at the same time", i)
						active[i] = true
					}
					if strict == 2 {
						if next[i] != seq {
							t.Failf("ordered receiver %d got batch %d instead of %d", i, seq, next[i])
						}
						next[i]++
					}
					t.Check(seq >= 0 && seq < m && !seen[i][seq], "receiver %d got batch %d twice", i, seq)
					seen[i][seq] = true
					if data != seq+1000*i {
						t.Failf("receiver %d of batch %d got %v", i, seq, data)
					}
					if stop == seq && i == 0 {
						p.Cancel()
					}
					if strict > 0 {
						active[i] = false
					}
					return seq + 1000*(i+1)
				}, func() {
					fins[i]++
					if stop < 0 {
						for s := range seen[i] {
							t.Check(seen[i][s], "receiver %d did not get batch %d", i, s)
						}
					}
				}
		}}))
	}
	k := 0
	p.Source(pipeline.NewFunc(m, func(int) (interface{}, int, error) {
		if k == m {
			return nil, 0, nil
		}
		k++
		return k - 1, 1, nil
	}))
	p.NofBatches(m)
	p.Run()
	t.Check(p.Err() == nil, "Err is %v", p.Err())
	t.Final(func() {
		for i := range spec {
			t.Check(fins[i] == 1, "finalizer %d ran %d times", i, fins[i])
			gap := false
			for s := range seen[i] {
				if !seen[i][s] {
					t.Check(stop >= 0, "receiver %d did not get batch %d", i, s)
					gap = true
				} else if gap && requested(spec[i]) == 2 {
					t.Failf("ordered receiver %d got batch %d but not all before", i, s)
				}
			}
		}
	})
}

func allPerms(n int) (r [][]int) {
	if n == 0 {
		return [][]int{{}}
	}
	for _, p := range allPerms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			r = append(r, append(q, p[i:]...))
		}
	}
	return
}

func permProgs() {
	specs := []string{"O", "S", "P", "L", "OP", "PO", "SO", "LO", "OS", "PS", "OPO"}
	asyncSpecs := []string{"O", "S", "X", "L", "OX", "PX", "PO", "XO", "SX", "LX", "XX", "SO"}
	rg := func(spec string, m int, name string, perm []int, async bool, stop int, delay int, thorough bool) {
		prop := "F02"
		if strings.Trim(spec, "PL") == "" {
			prop = "F01"
		}
		if stop >= 0 {
			prop = "F03"
		}
		nm := fmt.Sprintf("many/arrival/%s/m=%d/%s/async=%v/stop=%d/%d", spec, m, name, async, stop, delay)
		vh.Register(vh.Instance{Prop: prop, Name: nm, Delay: delay, Strict: true, Thorough: thorough, Alone: true, Body: func(t *vh.T) {
			permProg(t, spec, m, perm, async, stop)
		}})
	}
	for _, spec := range []string{"O", "S", "P", "PO", "LO", "SO", "OO"} {
		for _, m := range []int{255, 256, 258, 300, 513, 700, 1025} {
			for _, kind := range []string{"rev", "rot", "last-first", "odd-even", "mod", "outin"} {
				if kind == "rev" || kind == "last-first" || m == 300 || len(spec) == 1 && m < 1025 {
					rg(spec, m, fmt.Sprintf("%s-%d", kind, m), permutation(kind, m), false, -1, 1, len(spec) > 1 && m > 300)
				}
			}
		}
	}
	for _, async := range []bool{false, true} {
		l := specs
		if async {
			l = asyncSpecs
		}
		for si, spec := range l {
			for m := 2; m <= 5; m++ {
				for i, perm := range allPerms(m) {
					big := m == 5 && (si > 3 || async && si > 2)
					rg(spec, m, noSpace(fmt.Sprint(perm)), perm, async, -1, 1, big)
					rg(spec, m, noSpace(fmt.Sprint(perm)), perm, async, -1, 2, m > 3 || m == 3 && len(spec) > 1)
					if m < 5 {
						rg(spec, m, noSpace(fmt.Sprint(perm)), perm, async, i%m, 1, false)
					}
				}
			}
			for _, m := range []int{6, 7, 8, 9, 15, 16, 17, 18, 19, 31, 32, 33, 34, 63, 64, 65, 66, 100, 128, 129, 130, 257} {
				for _, w := range []int{m, (m + 1) / 2, 3} {
					for ki, kind := range permKinds {
						if w == 3 && (m < 7 || m > 40) || m > 140 && ki%3 != 1 {
							continue
						}
						rg(spec, m, fmt.Sprintf("%s-%d", kind, w), permutation(kind, w), async, -1, 1, m > 70 && si > 2 || len(spec) > 2)
						if w == m && m < 20 {
							rg(spec, m, fmt.Sprintf("%s-%d", kind, w), permutation(kind, w), async, m/2, 1, si > 4)
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- F03: channels that are never closed

// openChan: the elements of a channel that is not closed; b, max: batch size
//
// src: chan, recv (<-chan), single; buf: capacity of the channel
// stop: ctx (another goroutine cancels), late (the producer cancels after the last element),
// mid (the producer cancels before the last element), rcancel / rerr: receiver at its first batch,
// parent: the parent context is cancelled by the producer
func openChanProg(t *vh.T, spec string, src string, buf, elems, b, max int, stop string) {
	var p pipeline.Pipeline
	ch := make(chan int, buf)
	gone := make(chan bool)
	parent, pcancel := context.WithCancel(context.Background())
	ctx, cancel := context.WithCancel(parent)
	began := make(chan bool)
	go func() {
		<-began
		for i := 0; i < elems; i++ {
			if stop == "mid" && i == elems-1 {
				p.Cancel()
			}
			select {
			case ch <- i:
			case <-gone:
				return
			}
		}
		switch stop {
		case "late":
			p.Cancel()
		case "laterr":
			t.Check(p.SetErr(errPipe), "SetErr returns false")
		case "parent":
			pcancel()
		}
	}()
	switch src {
	case "chan":
		p.Source(ch)
	case "recv":
		p.Source((<-chan int)(ch))
	case "single":
		p.Source(pipeline.NewSingletonChan(ch))
	}
	p.SetVariableBatchSize(b, max)
	seen := make([][]bool, len(spec))
	fins := make([]int, len(spec))
	for i := range spec {
		i := i
		seen[i] = make([]bool, elems)
		last := -1
		p.Add(mkNode(t, spec[i], []pipeline.Filter{func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
			if i == 0 {
				close(began)
				if stop == "ctx" {
					go p.Cancel()
				}
			}
			return func(seq int, data interface{}) interface{} {
					var l []int
					switch d := data.(type) {
					case []int:
						l = d
					case int:
						l = []int{d}
					}
					for _, e := range l {
						if e < 0 || e >= elems || seen[i][e] {
							t.Failf("receiver %d got %v", i, data)
						}
						seen[i][e] = true
						if requested(spec[i]) == 2 {
							t.Check(e == last+1, "ordered receiver %d got %d after %d", i, e, last)
							last = e
						}
					}
					if i == 0 && seq == 0 {
						switch stop {
						case "rcancel":
							p.Cancel()
						case "rerr":
							t.Check(p.SetErr(errPipe), "SetErr returns false")
						}
					}
					return data
				}, func() {
					fins[i]++
				}
		}}))
	}
	p.RunWithContext(ctx, cancel)
	close(gone)
	for i := range fins {
		t.Check(fins[i] == 1 || strings.HasSuffix(stop, "err") && fins[i] == 0, "finalizer %d ran %d times", i, fins[i])
	}
	if strings.HasSuffix(stop, "err") {
		t.Check(p.Err() == errPipe, "Err is %v", p.Err())
	} else {
		t.Check(p.Err() == nil, "Err is %v", p.Err())
	}
	cancel()
	pcancel()
	// after an error, receivers may still be running
	t.Final(func() { t.Outcome("%v", seen) })
}

func openChanProgs() {
	for n := 1; n <= 2; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			wt := weight(w)
			for _, src := range []string{"chan", "recv", "single"} {
				for buf := 0; buf <= 2; buf++ {
					for elems := 1; elems <= 4; elems++ {
						for _, bm := range [][2]int{{1, 1}, {2, 2}, {1, 3}, {3, 3}} {
							for _, stop := range []string{"ctx", "late", "mid", "laterr", "parent", "rcancel", "rerr"} {
								w, src, buf, elems, bm, stop := w, src, buf, elems, bm, stop
								if stop[0] == 'r' && src != "single" && elems < bm[0] {
									continue // the source is not cancelled
								}
								if src != "chan" && (bm[0] > 1 || buf == 1 || elems > 2) {
									continue
								}
								body := func(t *vh.T) { openChanProg(t, w, src, buf, elems, bm[0], bm[1], stop) }
								name := fmt.Sprintf("openchan/%s/%s/%d/%d/%v/%s", w, src, buf, elems, noSpace(fmt.Sprint(bm)), stop)
								big := n > 1 && (elems > 2 || buf == 1 || wt > 3) || elems == 4 || bm[0] == 3 && elems < 3
								vh.Register(vh.Instance{Prop: "F03", Name: name, Delay: 3, Thorough: big, Body: body})
								if n == 1 && elems < 3 && wt < 2 {
									vh.Register(vh.Instance{Prop: "F03", Name: "all/" + name, Thorough: buf == 1, Body: body})
								}
							}
						}
					}
				}
			}
		})
	}
}

// ---------------------------------------------------------------- F05: scanners that fail

// faultyReader delivers its text in chunks and fails after fail bytes.
type faultyReader struct {
	text        string
	chunk, fail int
	with        bool // the error comes with the last bytes
	ended       int
}

func (r *faultyReader) Read(b []byte) (int, error) {
	if r.ended > 0 {
		r.ended++
	}
	if r.fail == 0 {
		r.ended++
		return 0, errPipe
	}
	if len(r.text) == 0 {
		r.ended++
		return 0, io.EOF
	}
	n := min(len(b), min(r.chunk, len(r.text)))
	if r.fail > 0 {
		n = min(n, r.fail)
		r.fail -= n
	}
	copy(b, r.text[:n])
	r.text = r.text[n:]
	if r.with && r.fail == 0 {
		return n, errPipe
	}
	return n, nil
}

var errSplit = errors.New("split error")

// split returns the split function of one of several kinds.
func splitFunc(kind string) bufio.SplitFunc {
	switch kind {
	case "lines":
		return bufio.ScanLines
	case "words":
		return bufio.ScanWords
	case "bytes":
		return bufio.ScanBytes
	case "runes":
		return bufio.ScanRunes
	}
	// custom: lines; an error for the line "!", the final token for the line "."
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := bufio.ScanLines(data, atEOF)
		if string(tok) == "!" {
			return 0, nil, errSplit
		}
		if string(tok) == "." {
			return adv, tok, bufio.ErrFinalToken
		}
		return adv, tok, err
	}
}

func scannerProg(t *vh.T, w string, bytes bool, text string, chunk, fail int, with bool, split string, buffer int, b, max int) {
	// what bufio.Scanner makes of it
	ref := bufio.NewScanner(&faultyReader{text: text, chunk: chunk, fail: fail, with: with})
	ref.Split(splitFunc(split))
	if buffer > 0 {
		ref.Buffer(nil, buffer)
	}
	var want []string
	for ref.Scan() {
		want = append(want, ref.Text())
	}
	var p pipeline.Pipeline
	rd := &faultyReader{text: text, chunk: chunk, fail: fail, with: with}
	if bytes {
		s := pipeline.NewBytesScanner(rd)
		s.Split(splitFunc(split))
		if buffer > 0 {
			s.Buffer(nil, buffer)
		}
		p.Source(s)
	} else {
		s := pipeline.NewScanner(rd)
		s.Split(splitFunc(split))
		if buffer > 0 {
			s.Buffer(nil, buffer)
		}
		p.Source(s)
	}
	p.SetVariableBatchSize(b, max)
	got := make([][]string, len(want)+1)
	p.Add(mkNode(t, w[0], []pipeline.Filter{pipeline.Receive(func(seq int, data interface{}) interface{} {
		t.Check(seq < len(got) && got[seq] == nil, "batch %d", seq)
		if l, ok := data.([]string); ok {
			got[seq] = l
		}
		if l, ok := data.([][]byte); ok {
			for _, x := range l {
				got[seq] = append(got[seq], string(x))
			}
		}
		return data
	})}))
	p.Run()
	what := fmt.Sprintf("%q in chunks of %d failing at %d (split %s, buffer %d, batches %d, %d)", text, chunk, fail, split, buffer, b, max)
	if p.Err() != ref.Err() {
		t.Failf("%s: Err is %v instead of %v", what, p.Err(), ref.Err())
	}
	k := 0
	for i, l := range got {
		for _, x := range l {
			if k >= len(want) || x != want[k] {
				t.Failf("%s: element %d is %q", what, k, x)
			}
			k++
		}
		if l == nil && i+1 < len(got) && got[i+1] != nil && requested(w[0]) > 0 {
			t.Failf("%s: batch %d is missing", what, i)
		}
		if requested(w[0]) == 0 && ref.Err() != nil && l == nil {
			break // parallel nodes stop anywhere after the error
		}
	}
	if ref.Err() == nil && k != len(want) {
		t.Failf("%s: %d instead of %d elements", what, k, len(want))
	}
	t.Cases(1)
}

func scannerProgs() {
	texts := []string{"", "a", "a\n", "a\nb\nc", "\n\nx\r\ny\n", "one two  three\nfour five\n", "1\n2\n!\n3\n", "1\n2\n3\n.\n4\n", "a long line of text\nb\nanother rather long line\n"}
	for _, w := range []string{"O", "S", "X"} {
		for _, bytes := range []bool{false, true} {
			for _, split := range []string{"lines", "words", "bytes", "runes", "custom"} {
				for ti, text := range texts {
					for _, with := range []bool{false, true} {
						for _, buffer := range []int{0, 4, 12} {
							w, bytes, split, text, with, buffer := w, bytes, split, text, with, buffer
							if buffer > 0 && (split == "bytes" || split == "runes") {
								continue
							}
							for fail := -1; fail <= len(text); fail++ {
								if fail < 0 && with {
									continue
								}
								fail := fail
								vh.Register(vh.Instance{Prop: "F05", Name: fmt.Sprintf("many/scanner/%s/%v/%s/%d/%v/%d/%d", w, bytes, split, ti, with, buffer, fail), Delay: 1, Strict: true, Alone: true, NoNative: fail%5 != 0, Thorough: w != "O" && fail%4 > 0, Body: func(t *vh.T) {
									for _, chunk := range []int{1, 3, 100} {
										for _, bm := range [][2]int{{1, 1}, {2, 2}, {3, 3}, {1, 4}, {5, 100}} {
											scannerProg(t, w, bytes, text, chunk, fail, with, split, buffer, bm[0], bm[1])
										}
									}
								}})
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	permProgs()
	openChanProgs()
	scannerProgs()
}
