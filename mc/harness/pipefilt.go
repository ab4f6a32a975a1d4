package harness

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/vh"
)

// A stage of a pipeline of standard filters:
//
//	L5 / l5: Limit(5, false) / Limit(5, true)      K2: Skip(2)
//	C.: Count    A.: Slice    (in a node of kind .)
//	E. N. S. T.: Every NotEvery Some NotAny; e. n. s. t.: the same with cancelWhenKnown
//	D.: a filter that empties the batches that contain a multiple of 3 and declares the size unknown
//	U.: a filter that declares the size unknown
type stageT struct {
	op   byte
	arg  int
	node byte
}

func parseStages(s string) (r []stageT) {
	for _, x := range strings.Split(s, ",") {
		st := stageT{op: x[0]}
		switch x[0] {
		case 'L', 'l', 'K':
			fmt.Sscan(x[1:], &st.arg)
			st.node = 'O'
		default:
			st.node = x[1]
		}
		r = append(r, st)
	}
	return
}

// predicate: the batch contains no element x with x%4 == 2
func batchPred(data interface{}) bool {
	l, _ := data.([]int)
	for _, x := range l {
		if x%4 == 2 {
			return false
		}
	}
	return true
}

// reference: what stage k sees
func refStages(in [][]int, stages []stageT) (seen [][][]int) {
	cur := in
	for _, st := range stages {
		seen = append(seen, cur)
		var out [][]int
		pos := 0
		for _, b := range cur {
			o := b
			switch st.op {
			case 'L', 'l':
				if st.arg >= 0 {
					o = nil
					for i := range b {
						if pos+i < st.arg {
							o = append(o, b[i])
						}
					}
				}
			case 'K':
				o = nil
				for i := range b {
					if pos+i >= st.arg {
						o = append(o, b[i])
					}
				}
			case 'D':
				for _, x := range b {
					if x%3 == 0 {
						o = nil
					}
				}
			}
			pos += len(b)
			out = append(out, o)
		}
		cur = out
	}
	return append(seen, cur)
}

func flat(bs [][]int) (r []int) {
	for _, b := range bs {
		r = append(r, b...)
	}
	return
}

// filtRun runs the stages on n elements in batches of b elements.
func filtRun(t *vh.T, stages []stageT, n, b int, known bool, merge int) {
	var in [][]int
	for i := 0; i < n; i += b {
		var l []int
		for k := i; k < i+b && k < n; k++ {
			l = append(l, k)
		}
		in = append(in, l)
	}
	seen := refStages(in, stages)
	var p pipeline.Pipeline
	k := 0
	size := -1
	if known {
		size = n
	}
	p.Source(pipeline.NewFunc(size, func(int) (interface{}, int, error) {
		if k >= len(in) {
			return nil, 0, nil
		}
		k++
		return append([]int(nil), in[k-1]...), len(in[k-1]), nil
	}))
	counts := make([]int, len(stages))
	slices := make([][]int, len(stages))
	results := make([]bool, len(stages))
	var filters []pipeline.Filter
	var kind byte
	flush := func() {
		if len(filters) > 0 {
			p.Add(mkNode(t, kind, filters))
			filters = nil
		}
	}
	for i, st := range stages {
		var f pipeline.Filter
		switch st.op {
		case 'L':
			flush()
			p.Add(pipeline.Limit(st.arg, false))
			continue
		case 'l':
			flush()
			p.Add(pipeline.Limit(st.arg, true))
			continue
		case 'K':
			flush()
			p.Add(pipeline.Skip(st.arg))
			continue
		case 'C':
			counts[i] = 1000
			f = pipeline.Count(&counts[i])
		case 'A':
			slices[i] = append(make([]int, 0, 1+i%3*4), -7)
			f = pipeline.Slice(&slices[i])
		case 'E', 'e':
			results[i] = i%2 == 0
			f = pipeline.Every(&results[i], st.op == 'e', batchPred)
		case 'N', 'n':
			results[i] = i%2 == 0
			f = pipeline.NotEvery(&results[i], st.op == 'n', batchPred)
		case 'S', 's':
			results[i] = i%2 == 0
			f = pipeline.Some(&results[i], st.op == 's', func(d interface{}) bool { return !batchPred(d) })
		case 'T', 't':
			results[i] = i%2 == 0
			f = pipeline.NotAny(&results[i], st.op == 't', func(d interface{}) bool { return !batchPred(d) })
		case 'D', 'U':
			st := st
			f = func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (r pipeline.Receiver, z pipeline.Finalizer) {
				*size = -1
				if st.op == 'U' {
					return
				}
				r = func(_ int, data interface{}) interface{} {
					l, _ := data.([]int)
					for _, x := range l {
						if x%3 == 0 {
							return l[:0]
						}
					}
					return data
				}
				return
			}
		}
		if len(filters) > 0 && kind != st.node || merge == 0 {
			flush()
		}
		kind = st.node
		filters = append(filters, f)
	}
	flush()
	ctx, cancel := context.WithCancel(context.Background())
	p.RunWithContext(ctx, cancel)
	cancelled := ctx.Err() != nil
	if k < len(in) {
		// nothing had to be fetched
		cancelled = cancelled || len(in) == 0
	}
	cancel()
	what := func(i int) string {
		return fmt.Sprintf("stage %d (%c%c) on %d elements in batches of %d (known size: %v)", i, stages[i].op, stages[i].node, n, b, known)
	}
	t.Check(p.Err() == nil, "Err is %v", p.Err())
	mayCancel := -1 // the stage that cancels
	mustCancel := false
	total := len(flat(in))
	for i, st := range stages {
		switch st.op {
		case 'e', 'n', 's', 't':
			mayCancel = i
			for _, b := range seen[i] {
				if !batchPred(b) {
					mustCancel = true
				}
			}
		case 'l':
			if st.arg >= 0 && len(flat(seen[i])) >= st.arg {
				mayCancel = i
				// with a known size, the limit may be a no-op
				mustCancel = len(flat(seen[i])) > st.arg
			}
		}
	}
	_ = total
	if mayCancel < 0 || !mustCancel && stages[mayCancel].op != 'l' {
		t.Check(!cancelled, "the pipeline is cancelled")
	}
	if mustCancel {
		t.Check(cancelled, "the pipeline is not cancelled although the result is known")
	}
	for i, st := range stages {
		if mayCancel >= 0 && cancelled {
			// only the result of the cancelling filter is defined, and what an ordered
			// node collects is a prefix
			if st.op == 'A' && (st.node == 'O' || st.node == 'X') {
				ref := append([]int{-7}, flat(seen[i])...)
				if len(slices[i]) < 1 || len(slices[i]) > len(ref) || !reflect.DeepEqual(slices[i], ref[:len(slices[i])]) {
					t.Failf("%s: %v is not a prefix of %v", what(i), slices[i], ref)
				}
				if i == mayCancel+1 && stages[mayCancel].op == 'l' && st.node == 'O' && len(slices[i]) != len(ref) {
					// in the same node as the limit
					t.Failf("%s: %v instead of %v", what(i), slices[i], ref)
				}
			}
			if i != mayCancel || st.op == 'l' {
				continue
			}
		}
		ref := flat(seen[i])
		all := true
		for _, b := range seen[i] {
			all = all && batchPred(b)
		}
		switch st.op {
		case 'C':
			t.Check(counts[i] == len(ref), "%s: Count is %d instead of %d", what(i), counts[i], len(ref))
		case 'A':
			ref = append([]int{-7}, ref...)
			got := slices[i]
			if st.node != 'O' && st.node != 'X' {
				got = append([]int(nil), got...)
				// the batches are contiguous, in any order
				if len(got) > 1 {
					sort.Ints(got[1:])
				}
			}
			if !reflect.DeepEqual(got, ref) {
				t.Failf("%s: Slice is %v instead of %v", what(i), got, ref)
			}
			for x := 1; x < len(slices[i]); x++ {
				e := slices[i][x]
				if x > 1 && slices[i][x-1] != e-1 && e%b != 0 && e != firstElem(seen[i], e) {
					t.Failf("%s: Slice %v tears a batch apart", what(i), slices[i])
				}
			}
		case 'E', 'e', 'T', 't':
			t.Check(results[i] == all, "%s: result %v instead of %v", what(i), results[i], all)
		case 'N', 'n', 'S', 's':
			t.Check(results[i] == !all, "%s: result %v instead of %v", what(i), results[i], !all)
		}
	}
}

// firstElem is the first element of the batch that contains e.
func firstElem(bs [][]int, e int) int {
	for _, b := range bs {
		for _, x := range b {
			if x == e {
				return b[0]
			}
		}
	}
	return -1
}

func regFilt(spec string, ns, bs []int, bound int, thorough bool) {
	stages := parseStages(spec)
	add := func(ns, bs []int, known, thorough bool) {
		vh.Register(vh.Instance{Prop: "F07", Name: fmt.Sprintf("%s/known=%v/n=%v/b=%v", noSpace(spec), known, noSpace(fmt.Sprint(ns)), noSpace(fmt.Sprint(bs))), Bound: bound, Thorough: thorough, Body: func(t *vh.T) {
			cases := 0
			for _, n := range ns {
				for _, b := range bs {
					filtRun(t, stages, n, b, known, cases%2)
					cases++
				}
			}
			t.Cases(cases)
		}})
	}
	most, conc := 100, ""
	for _, st := range stages {
		m := 100
		switch st.node {
		case 'S', '1':
			m = 5
		case 'P', 'X', 'p':
			m = 3
			if conc != "" && conc[len(conc)-1] != st.node {
				m = 2
			}
			conc += string(st.node)
		case 'L', 'M':
			m = 2
		}
		if st.op >= 'a' {
			m = min(m, 5)
			if m == 3 {
				m = 2
			}
		}
		if m < most {
			most = m
		}
	}
	for _, known := range []bool{true, false} {
		if most == 100 {
			add(ns, bs, known, thorough)
			continue
		}
		for _, n := range ns {
			for _, b := range bs {
				if n > 0 && b > n {
					continue
				}
				add([]int{n}, []int{b}, known, thorough || (n+b-1)/b > most)
			}
		}
	}
}

func seqInts(a, b int) (r []int) {
	for ; a <= b; a++ {
		r = append(r, a)
	}
	return
}

func f07() {
	// Limit and Skip in any composition, observed before, in between and after
	var ls []string
	for k := -1; k <= 5; k++ {
		ls = append(ls, fmt.Sprintf("L%d", k))
	}
	for k := 0; k <= 5; k++ {
		ls = append(ls, fmt.Sprintf("K%d", k))
	}
	for _, a := range ls {
		regFilt("CO,AO,"+a+",CO,AO", seqInts(0, 6), []int{1, 2, 3}, 0, false)
		regFilt(a+",AO,CO,EO", seqInts(0, 6), []int{1, 2, 3}, 0, false)
		for _, nd := range "SPLX" {
			regFilt(fmt.Sprintf("%s,A%c,C%c", a, nd, nd), []int{0, 1, 3, 4}, []int{1, 2}, 0, nd == 'L')
			regFilt(fmt.Sprintf("C%c,%s,A%c", nd, a, nd), []int{0, 1, 3, 4}, []int{2}, 0, nd == 'L')
		}
		for _, b := range ls {
			regFilt(a+","+b+",CO,AO", seqInts(0, 6), []int{1, 2, 3}, 0, false)
			regFilt(a+",CO,"+b+",AO,CO", seqInts(0, 5), []int{1, 2, 4}, 0, false)
			regFilt(a+",UO,"+b+",CO,AO,SO", seqInts(0, 5), []int{2}, 0, false)
			regFilt("DO,"+a+","+b+",CO,AO,SO", seqInts(0, 6), []int{2}, 0, false)
			for _, c := range ls {
				if a[0] != 'L' || a[1] != '-' {
					regFilt(a+","+b+","+c+",CO,AO", seqInts(0, 7), []int{1, 2, 3}, 0, true)
				}
			}
		}
		for k := 0; k <= 4; k++ {
			regFilt(fmt.Sprintf("%s,l%d,AO", a, k), seqInts(0, 5), []int{1, 2, 3}, 0, false)
			regFilt(fmt.Sprintf("l%d,AO,%s,AP", k, a), seqInts(0, 5), []int{2}, 0, k > 2)
			regFilt(fmt.Sprintf("l%d,AX,%s", k, a), seqInts(0, 4), []int{1, 2}, 0, k > 2)
		}
	}
	// observers in every kind of node
	for _, nd := range "OSPLMX1op" {
		for _, op := range "CAENSTensto" {
			if op == 'o' {
				continue
			}
			spec := fmt.Sprintf("%c%c", op, nd)
			heavy := nd == 'L' || nd == 'M'
			ns := []int{0, 1, 2, 3, 4, 5}
			regFilt(spec, ns, []int{1, 2, 3}, 0, heavy)
			regFilt(spec, []int{0, 2, 3}, []int{1}, 0, false)
			regFilt(spec, []int{3, 6}, []int{2, 3}, 0, nd == 'M')
			regFilt("D"+spec[1:]+","+spec, []int{3, 4}, []int{2}, 0, false)
			regFilt("U"+spec[1:]+","+spec, []int{0, 3}, []int{1}, 0, false)
			for _, nd2 := range "OSPX" {
				regFilt(fmt.Sprintf("C%c,%s,A%c", nd2, spec, nd2), []int{2, 3}, []int{1}, 0, heavy || nd2 == 'P' && nd == 'P')
				regFilt(fmt.Sprintf("A%c,%s", nd2, spec), []int{3, 4}, []int{2}, 0, false)
			}
		}
	}
	for _, nd := range "OSPLX" {
		for _, known := range []int{-1, 0, 3} {
			for k := 0; k < 6; k++ {
				nd, known, k := nd, known, k
				reg("F07", fmt.Sprintf("errors/%c/size=%d/%d", nd, known, k), func(t *vh.T) {
					var p pipeline.Pipeline
					left := 3
					if known >= 0 {
						left = known
					}
					p.Source(pipeline.NewFunc(known, func(int) (interface{}, int, error) {
						if left == 0 {
							return nil, 0, nil
						}
						left--
						return []int{left}, 1, nil
					}))
					x, s, m := 5, "s", map[int]int{}
					var arr [3]int
					bad := []interface{}{&x, &s, &m, &arr}
					cnt := 0
					switch {
					case k < 4:
						p.Add(mkNode(t, byte(nd), []pipeline.Filter{pipeline.Slice(bad[k]), pipeline.Count(&cnt)}))
					case k == 4:
						p.Add(pipeline.Skip(-1))
						p.Add(mkNode(t, byte(nd), []pipeline.Filter{pipeline.Count(&cnt)}))
					case k == 5:
						p.Add(mkNode(t, byte(nd), []pipeline.Filter{pipeline.Count(&cnt)}))
						p.Add(pipeline.Skip(-3), pipeline.Limit(2, false))
					}
					p.Run()
					t.Check(p.Err() != nil, "Err is nil")
					t.Check(x == 5 && s == "s" && len(m) == 0 && arr == [3]int{}, "the result is changed")
				})
			}
		}
	}
}

func init() { f07() }
