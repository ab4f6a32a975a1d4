package harness

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/vh"
)

// sinkNode is a user-defined node that keeps the batches it is fed.
type sinkNode struct {
	t       *vh.T
	batches []interface{}
	size    int
	began   int
	ended   int
	onFeed  func(seq int)
}

func (n *sinkNode) TryMerge(pipeline.Node) bool { return false }
func (n *sinkNode) Begin(p *pipeline.Pipeline, index int, dataSize *int) bool {
	n.began++
	n.size = *dataSize
	n.t.Check(index == 0, "Begin: index %d", index)
	return true
}
func (n *sinkNode) Feed(p *pipeline.Pipeline, index int, seqNo int, data interface{}) {
	n.t.Check(index == 0 && seqNo == len(n.batches), "Feed(index %d, seqNo %d) after %d batches", index, seqNo, len(n.batches))
	n.batches = append(n.batches, data)
	if n.onFeed != nil {
		n.onFeed(seqNo)
	}
	p.FeedForward(index, seqNo, data)
}
func (n *sinkNode) End() { n.ended++ }

type named []int
type namedString string
type pair struct{ a, b int }

// sliceInputs are sources of known size with n elements.
func sliceInputs(n int) map[string]interface{} {
	m := map[string]interface{}{}
	ints := make([]int, n, n+3)
	strs := make([]string, n)
	pairs := make([]pair, n)
	ptrs := make([]*int, n)
	ifcs := make([]interface{}, n)
	str := ""
	for i := 0; i < n; i++ {
		ints[i], strs[i], pairs[i], ptrs[i] = i+10, fmt.Sprint("e", i), pair{i, -i}, &ints[i]
		if i%2 == 0 {
			ifcs[i] = i
		}
		str += string(rune('!' + i%90))
	}
	m["ints"], m["strings"], m["structs"], m["pointers"], m["interfaces"] = ints, strs, pairs, ptrs, ifcs
	m["string"], m["named"], m["namedstring"], m["bytes"] = str, named(ints), namedString(str), []byte(str)
	// strings and slices of other kinds of elements
	text := strings.Repeat("\u00e9a\xff\u4e16\x00\U0001f600\n\xe4\xb8", n/15+1)
	m["text"], m["textbytes"] = text[:n], []byte(text[:n])
	m["cont"] = strings.Repeat("\u00e9\u4e16\x80\x80", n+1)[1 : n+1]
	m["empties"], m["bools"], m["runes"] = make([]struct{}, n), make([]bool, n), []rune(strings.Repeat("\u4e16b", n))[:n]
	nested, maps, errs := make([][]int, n), make([]map[string]int, n), make([]error, n)
	floats := make([]float64, n)
	for i := 0; i < n; i++ {
		nested[i], maps[i] = []int{i, i}[:i%3%2], map[string]int{"k": i}
		if i%3 == 1 {
			nested[i], maps[i], errs[i] = nil, nil, fmt.Errorf("error %d", i)
		}
		floats[i] = float64(i) / 3
	}
	m["nested"], m["maps"], m["errors"], m["floats"] = nested, maps, errs, floats
	m["emptyarray"] = reflect.New(reflect.ArrayOf(n, reflect.TypeOf(struct{}{}))).Elem().Interface()
	arr := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(0))).Elem()
	sarr := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(""))).Elem()
	reflect.Copy(arr, reflect.ValueOf(ints))
	reflect.Copy(sarr, reflect.ValueOf(strs))
	m["array"], m["stringarray"] = arr.Interface(), sarr.Interface()
	if n == 0 {
		m["nil"] = []int(nil)
		m["array0"] = [0]int{}
	}
	if n == 3 {
		m["array3"] = [3]pair{{1, 2}, {3, 4}, {5, 6}}
	}
	return m
}

func sortedKeys(m map[string]interface{}) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func elemsOf(x interface{}) (r []interface{}) {
	v := reflect.ValueOf(x)
	for i := 0; i < v.Len(); i++ {
		r = append(r, v.Index(i).Interface())
	}
	return
}

func sizesOf(bs []interface{}) (r []int) {
	for _, b := range bs {
		r = append(r, reflect.ValueOf(b).Len())
	}
	return
}

// checkBatches compares the concatenation of batches with the elements.
func checkBatches(t *vh.T, what string, bs []interface{}, elems []interface{}) {
	k := 0
	for i, b := range bs {
		if b == nil {
			t.Failf("%s: batch %d is nil", what, i)
		}
		for _, e := range elemsOf(b) {
			if k >= len(elems) || !reflect.DeepEqual(e, elems[k]) {
				t.Failf("%s: element %d is %v (batch sizes %v)", what, k, e, sizesOf(bs))
			}
			k++
		}
	}
	t.Check(k == len(elems), "%s: %d of %d elements were delivered", what, k, len(elems))
}

// checkKnown checks the sizes of the batches of a source with known size n.
func checkKnown(t *vh.T, what string, sizes []int, n, nof int) {
	t.Check(len(sizes) <= nof, "%s: %d batches instead of at most %d", what, len(sizes), nof)
	for i, s := range sizes {
		t.Check(s > 0 && (s == sizes[0] || i == len(sizes)-1 && s < sizes[0]), "%s: batch sizes %v", what, sizes)
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func f06Known(n int) {
	for procs := 1; procs <= 3; procs++ {
		procs := procs
		reg("F06", fmt.Sprintf("known/n=%d/procs=%d", n, procs), func(t *vh.T) {
			t.Procs(procs)
			cases := 0
			for nof := -1; nof <= n+2; nof++ {
				ins := sliceInputs(n)
				for _, name := range sortedKeys(ins) {
					in := ins[name]
					want := nof
					if nof < 1 {
						want = 2 * procs
					}
					what := fmt.Sprintf("%s of size %d with NofBatches(%d)", name, n, nof)
					var p pipeline.Pipeline
					sink := &sinkNode{t: t}
					switch cases % 3 {
					case 0:
						p.Source(in)
						got := p.NofBatches(nof)
						t.Check(got == want, "NofBatches(%d) returns %d", nof, got)
					case 1:
						p.Source([]string{"x", "y"})
						p.NofBatches(nof + 5)
						p.NofBatches(max(nof, 1))
						want = max(nof, 1)
						p.Source(in)
					case 2:
						if nof >= 1 {
							p.NofBatches(nof)
						}
						p.Source(in)
					}
					p.Add(sink)
					p.Run()
					t.Check(p.Err() == nil, "%s: Err is %v", what, p.Err())
					t.Check(sink.began == 1 && sink.ended == 1 && sink.size == n, "%s: announced size %d", what, sink.size)
					checkBatches(t, what, sink.batches, elemsOf(in))
					checkKnown(t, what, sizesOf(sink.batches), n, want)
					t.Check(p.NofBatches(0) == want, "%s: NofBatches(0) returns %d", what, p.NofBatches(0))
					cases++
				}
			}
			t.Cases(cases)
		})
	}
}

// f06Append: receivers that append to their batches do not change other batches.
func f06Append() {
	for n := 1; n <= 9; n++ {
		n := n
		reg("F06", fmt.Sprintf("append/n=%d", n), func(t *vh.T) {
			for nof := 1; nof <= n; nof++ {
				for k := 0; k < 5; k++ {
					var p pipeline.Pipeline
					var seen []int
					want := make([]int, n)
					for i := range want {
						want[i] = i + 10
					}
					switch in := append(make([]int, 0, n+3), want...); k {
					case 0:
						p.Source(in)
					case 1:
						p.Source(named(in))
					case 2:
						arr := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(0))).Elem()
						reflect.Copy(arr, reflect.ValueOf(in))
						p.Source(arr.Interface())
					case 3, 4:
						ch := make(chan int, n)
						for _, x := range in {
							ch <- x
						}
						close(ch)
						if k == 3 {
							p.Source(ch)
						} else {
							p.Source((<-chan int)(ch))
						}
					}
					p.NofBatches(nof)
					p.SetVariableBatchSize(1, max(n/nof, 1))
					p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data interface{}) interface{} {
						v := reflect.ValueOf(data)
						for i := 0; i < v.Len(); i++ {
							seen = append(seen, int(v.Index(i).Int()))
						}
						return reflect.Append(v, reflect.ValueOf(-1), reflect.ValueOf(-2)).Interface()
					})))
					p.Run()
					t.Check(fmt.Sprint(seen) == fmt.Sprint(want), "a receiver that appends to its batches gets %v instead of %v", seen, want)
					t.Cases(1)
				}
			}
		})
	}
}

// f06Func: the requested sizes of a source of known or unknown size.
func f06Func() {
	reg("F06", "func/known", func(t *vh.T) {
		cases := 0
		for procs := 1; procs <= 4; procs++ {
			t.Procs(procs)
			for _, size := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 97, 100, 101, 1 << 20, 1<<31 - 1, 1 << 40} {
				for nof := 0; nof <= 13; nof++ {
					want := nof
					if nof == 0 {
						want = 2 * procs
					}
					var p pipeline.Pipeline
					sink := &sinkNode{t: t}
					var req []int
					left := size
					end := false
					p.Source(pipeline.NewFunc(size, func(n int) (interface{}, int, error) {
						t.Check(!end, "Fetch after the end")
						t.Check(n >= 1, "a batch of size %d is requested", n)
						if left == 0 {
							end = true
							return nil, 0, nil
						}
						f := min(n, left)
						left -= f
						req = append(req, f)
						return len(req), f, nil
					}))
					p.NofBatches(nof)
					p.Add(sink)
					p.Run()
					what := fmt.Sprintf("size %d, NofBatches(%d)", size, nof)
					t.Check(p.Err() == nil && end && left == 0, "%s: not all is fetched", what)
					checkKnown(t, what, req, size, want)
					t.Check(len(sink.batches) == len(req) && sink.size == size, "%s: %d batches", what, len(sink.batches))
					for i, b := range sink.batches {
						t.Check(b == i+1, "%s: batch %d is %v", what, i, b)
					}
					cases++
				}
			}
		}
		t.Cases(cases)
	})
	reg("F06", "func/unknown", func(t *vh.T) {
		cases := 0
		incs := []int{-5, 0, 1, 2, 3, 4, 5, 7, 1000, 1 << 20, 1 << 62, 1<<63 - 1}
		maxs := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1000, 1 << 26, 1<<63 - 1}
		for _, inc := range incs {
			for _, mx := range maxs {
				for _, set := range []bool{true, false} {
					if !set && (inc > 0 || mx > 0) {
						continue
					}
					for _, total := range []int{0, 1, 2, 5, 9} {
						var p pipeline.Pipeline
						sink := &sinkNode{t: t}
						k := 0
						inc1, mx1 := inc, mx
						if inc1 < 1 {
							inc1 = 1024
						}
						if mx1 < 1 {
							mx1 = 0x2000000
						}
						p.Source(pipeline.NewFunc(-1, func(n int) (interface{}, int, error) {
							t.Check(k <= total, "Fetch after the end")
							k++
							full := mx1
							if inc1 <= mx1/k {
								full = min(k*inc1, mx1)
							}
							t.Check(n == full, "SetVariableBatchSize(%d, %d): batch %d is requested with size %d", inc, mx, k-1, n)
							if k > total {
								return nil, 0, nil
							}
							return k, 1, nil
						}))
						if set {
							p.SetVariableBatchSize(99, 3)
							p.SetVariableBatchSize(inc, mx)
						}
						p.NofBatches(3)
						p.Add(sink)
						p.Run()
						t.Check(p.Err() == nil && sink.size == -1 && len(sink.batches) == total && k == total+1, "%d of %d batches are delivered", len(sink.batches), total)
						cases++
					}
				}
			}
		}
		t.Cases(cases)
	})
}

// chunkReader returns at most n bytes at a time and then err.
type chunkReader struct {
	data string
	n    int
	err  error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := copy(p, r.data[:min(r.n, len(r.data))])
	r.data = r.data[n:]
	return n, nil
}

var errRead = errors.New("read error")

func f06Scanners() {
	for _, kind := range []string{"Scanner", "BytesScanner"} {
		for _, split := range []string{"lines", "words", "runes", "bytes"} {
			for inc := 1; inc <= 4; inc++ {
				kind, split, inc := kind, split, inc
				reg("F06", fmt.Sprintf("%s/%s/inc=%d", kind, split, inc), func(t *vh.T) {
					cases := 0
					texts := []string{"", "\n", "a", "a\n", "a\nb", "ab\ncde\n\nf", "one\ntwo\nthree\nfour\nfive\nsix\nseven\neight\nnine\nten\n", "x y  z\nuu vv\nwww\n", strings.Repeat("0123456789\n", 9) + "last", "ä\nöü\n"}
					for _, text := range texts {
						for mx := 1; mx <= 6; mx++ {
							for _, chunk := range []int{1, 3, 100} {
								for _, rerr := range []error{io.EOF, errRead} {
									ref := bufio.NewScanner(&chunkReader{text, chunk, rerr})
									sp := map[string]bufio.SplitFunc{"lines": bufio.ScanLines, "words": bufio.ScanWords, "runes": bufio.ScanRunes, "bytes": bufio.ScanBytes}[split]
									ref.Split(sp)
									var toks []string
									for ref.Scan() {
										toks = append(toks, ref.Text())
									}
									var p pipeline.Pipeline
									sink := &sinkNode{t: t}
									r := &chunkReader{text, chunk, rerr}
									if kind == "Scanner" {
										s := pipeline.NewScanner(r)
										s.Buffer(make([]byte, 0, 13), 64)
										if split != "lines" {
											s.Split(sp)
										}
										p.Source(s)
									} else {
										s := pipeline.NewBytesScanner(r)
										s.Buffer(make([]byte, 0, 13), 64)
										if split != "lines" {
											s.Split(sp)
										}
										p.Source(s)
									}
									p.SetVariableBatchSize(inc, mx)
									p.Add(sink)
									p.Run()
									what := fmt.Sprintf("%s(%q)", kind, text)
									if rerr == errRead {
										t.Check(p.Err() == errRead, "%s: Err is %v", what, p.Err())
										// everything before the error has been delivered in order
									} else {
										t.Check(p.Err() == nil, "%s: Err is %v", what, p.Err())
									}
									t.Check(sink.size == -1, "%s: size %d", what, sink.size)
									k := 0
									for i, b := range sink.batches {
										n := 0
										switch v := b.(type) {
										case []string:
											n = len(v)
											for _, s := range v {
												t.Check(kind == "Scanner" && k < len(toks) && s == toks[k], "%s: token %d is %q", what, k, s)
												k++
											}
										case [][]byte:
											n = len(v)
											for _, s := range v {
												t.Check(kind == "BytesScanner" && k < len(toks) && bytes.Equal(s, []byte(toks[k])), "%s: token %d is %q", what, k, s)
												k++
											}
										default:
											t.Failf("%s: batch %T", what, b)
										}
										full := min((i+1)*inc, mx)
										t.Check(n == full || i == len(sink.batches)-1 && n < full && n > 0, "%s: batch %d has %d tokens (inc %d, max %d)", what, i, n, inc, mx)
									}
									t.Check(k == len(toks) || rerr != io.EOF && k <= len(toks), "%s: %d of %d tokens", what, k, len(toks))
									cases++
								}
							}
						}
					}
					// a token that does not fit
					for _, d := range []int{63, 64, 65} {
						var p pipeline.Pipeline
						sink := &sinkNode{t: t}
						r := strings.NewReader("a b " + strings.Repeat("x", d) + " c")
						s := pipeline.NewScanner(r)
						s.Buffer(make([]byte, 0, 13), 64)
						s.Split(bufio.ScanWords)
						p.Source(s)
						p.SetVariableBatchSize(inc, 4)
						p.Add(sink)
						p.Run()
						if d < 64 {
							t.Check(p.Err() == nil, "Err is %v", p.Err())
						} else {
							t.Check(p.Err() == bufio.ErrTooLong, "Err is %v", p.Err())
						}
					}
					t.Cases(cases)
				})
			}
		}
	}
}

// userSource is a user-defined source of slices of a ring buffer that is never reused.
type userSource struct {
	t        *vh.T
	n, pos   int
	known    bool
	prepared int
	ctx      context.Context
	data     []int
	over     bool
	short    bool // delivers less than it is asked for
	req      []int
}

func (u *userSource) Err() error { return nil }
func (u *userSource) Prepare(ctx context.Context) int {
	u.prepared++
	u.ctx = ctx
	if u.known {
		return u.n
	}
	return -1
}
func (u *userSource) Fetch(size int) int {
	u.t.Check(!u.over, "Fetch after the end")
	u.t.Check(u.prepared == 1, "Prepare was called %d times", u.prepared)
	u.req = append(u.req, size)
	if u.short && size > 1 {
		size--
	}
	f := min(size, u.n-u.pos)
	u.data = nil
	for i := 0; i < f; i++ {
		u.data = append(u.data, u.pos)
		u.pos++
	}
	u.over = f == 0
	return f
}
func (u *userSource) Data() interface{} { return u.data }

func f06User() {
	for n := 0; n <= 9; n++ {
		n := n
		reg("F06", fmt.Sprintf("user/n=%d", n), func(t *vh.T) {
			cases := 0
			for k := 0; k < 4; k++ {
				for inc := 1; inc <= 4; inc++ {
					for mx := 1; mx <= 6; mx++ {
						var p pipeline.Pipeline
						sink := &sinkNode{t: t}
						u := &userSource{t: t, n: n, known: k&1 == 1, short: k&2 == 2}
						p.Source(u)
						p.NofBatches(mx)
						p.SetVariableBatchSize(inc, mx)
						p.Add(sink)
						ctx, cancel := context.WithCancel(context.Background())
						p.RunWithContext(ctx, cancel)
						t.Check(ctx.Err() == nil, "the pipeline is cancelled")
						cancel()
						t.Check(u.ctx == ctx && p.Context() == ctx, "wrong context")
						k := 0
						for _, b := range sink.batches {
							for _, e := range b.([]int) {
								t.Check(e == k, "element %d is %d", k, e)
								k++
							}
						}
						t.Check(k == n && u.over, "%d of %d elements", k, n)
						for i, r := range u.req {
							if u.known {
								t.Check(r == u.req[0] && r >= 1, "requested sizes %v", u.req)
							} else {
								t.Check(r == min((i+1)*inc, mx), "requested sizes %v", u.req)
							}
						}
						cases++
					}
				}
			}
			t.Cases(cases)
		})
	}
}

func f06Chan() {
	for n := 0; n <= 4; n++ {
		for buf := 0; buf <= 2; buf++ {
			for inc := 1; inc <= 3; inc++ {
				for mx := 1; mx <= 3; mx++ {
					for _, prod := range []int{1, 2} {
						for _, stop := range []string{"", "cancel", "stuck"} {
							if prod == 2 && (n < 2 || n > 3 || stop != "") || mx < inc && mx > 1 {
								continue
							}
							n, buf, inc, mx, prod, stop := n, buf, inc, mx, prod, stop
							name := fmt.Sprintf("chan/n=%d/buf=%d/inc=%d/max=%d/prod=%d", n, buf, inc, mx, prod)
							if stop != "" {
								name += "/" + stop
							}
							body := func(t *vh.T, single bool) {
								ch := make(chan int, buf)
								fin := make(chan bool, prod)
								for q := 0; q < prod; q++ {
									q := q
									go func() {
										for i := 0; i < n; i++ {
											if i%prod == q {
												ch <- i
											}
										}
										fin <- true
									}()
								}
								if stop != "stuck" {
									go func() {
										for q := 0; q < prod; q++ {
											<-fin
										}
										close(ch)
									}()
								} else {
									t.AllowLeak()
								}
								var p pipeline.Pipeline
								sink := &sinkNode{t: t}
								if single {
									p.Source(pipeline.NewSingletonChan(ch))
								} else if n%2 == 0 {
									p.Source(ch)
								} else {
									p.Source((<-chan int)(ch))
								}
								p.SetVariableBatchSize(inc, mx)
								p.Add(sink)
								if stop != "" {
									ctx, cancel := context.WithCancel(context.Background())
									go cancel()
									p.RunWithContext(ctx, cancel)
									t.AllowLeak()
								} else {
									p.Run()
								}
								t.Check(p.Err() == nil && sink.size == -1, "Err is %v, size %d", p.Err(), sink.size)
								var all []int
								for i, b := range sink.batches {
									if single {
										all = append(all, b.(int))
										continue
									}
									l := b.([]int)
									full := min((i+1)*inc, mx)
									t.Check(len(l) == full || (i == len(sink.batches)-1 || stop != "") && len(l) < full && len(l) > 0, "batch %d has %d elements", i, len(l))
									all = append(all, l...)
								}
								t.Check(len(all) == n || stop != "" && len(all) < n, "%v of %d elements", all, n)
								next := make([]int, prod)
								for q := range next {
									next[q] = q
								}
								for _, x := range all {
									t.Check(x >= 0 && x < n && x == next[x%prod], "elements %v", all)
									next[x%prod] += prod
								}
								t.Outcome("%v", sizesOrElems(sink.batches, single))
							}
							reg("F06", name, func(t *vh.T) { body(t, false) })
							if inc == 1 && mx == 1 {
								reg("F06", "singleton"+name, func(t *vh.T) { body(t, true) })
							}
						}
					}
				}
			}
		}
	}
	// large batches and the default batch sizes
	reg("F06", "chan/default", func(t *vh.T) {
		for _, single := range []bool{true, false} {
			n := 3100
			if single {
				n = 60
			}
			ch := make(chan string, n)
			for i := 0; i < n; i++ {
				ch <- fmt.Sprint(i)
			}
			close(ch)
			var p pipeline.Pipeline
			sink := &sinkNode{t: t}
			if single {
				p.Source(pipeline.NewSingletonChan(ch))
			} else {
				p.Source(ch)
			}
			p.Add(sink)
			p.Run()
			k := 0
			for i, b := range sink.batches {
				if single {
					t.Check(b.(string) == fmt.Sprint(i), "batch %d is %v", i, b)
					k++
					continue
				}
				l := b.([]string)
				t.Check(len(l) == min(1024*(i+1), n-k), "batch %d has %d elements", i, len(l))
				for _, s := range l {
					t.Check(s == fmt.Sprint(k), "element %d is %s", k, s)
					k++
				}
			}
			t.Check(k == n, "%d elements", k)
		}
	})
}

func sizesOrElems(bs []interface{}, single bool) interface{} {
	if single {
		return bs
	}
	return sizesOf(bs)
}

func init() {
	for n := 0; n <= 12; n++ {
		f06Known(n)
	}
	f06Func()
	f06Append()
	f06Scanners()
	f06User()
	f06Chan()
	f06ChanTypes()
}

// chanTypes: closed channels with n elements, among them nil and zero values.
var chanTypes = map[string]func(n int) (ch interface{}, elems interface{}){
	"interface": func(n int) (interface{}, interface{}) {
		ch, l := make(chan interface{}, n), []interface{}{nil, 0, "", (*int)(nil), error(nil), false, []int(nil), 1.5}
		var s []interface{}
		for i := 0; i < n; i++ {
			ch <- l[i*(n+1)%len(l)]
			s = append(s, l[i*(n+1)%len(l)])
		}
		close(ch)
		return ch, s
	},
	"nils": func(n int) (interface{}, interface{}) {
		ch := make(chan interface{}, n)
		for i := 0; i < n; i++ {
			ch <- nil
		}
		close(ch)
		return ch, make([]interface{}, n)
	},
	"error": func(n int) (interface{}, interface{}) {
		ch := make(chan error, n)
		var s []error
		for i := 0; i < n; i++ {
			var e error
			if i%2 == 1 {
				e = fmt.Errorf("error %d", i)
			}
			ch <- e
			s = append(s, e)
		}
		close(ch)
		return (<-chan error)(ch), s
	},
	"pointer": func(n int) (interface{}, interface{}) {
		ch := make(chan *string, n)
		var s []*string
		for i := 0; i < n; i++ {
			var e *string
			if i%3 != 0 {
				e = new(string)
			}
			ch <- e
			s = append(s, e)
		}
		close(ch)
		return ch, s
	},
	"slice": func(n int) (interface{}, interface{}) {
		ch := make(chan []int, n)
		var s [][]int
		for i := 0; i < n; i++ {
			e := []int{i, 2}[:i%3]
			if i%4 == 0 {
				e = nil
			}
			ch <- e
			s = append(s, e)
		}
		close(ch)
		return ch, s
	},
	"map": func(n int) (interface{}, interface{}) {
		ch := make(chan map[string]int, n)
		var s []map[string]int
		for i := 0; i < n; i++ {
			var e map[string]int
			if i%2 == 0 {
				e = map[string]int{"a": i}
			}
			ch <- e
			s = append(s, e)
		}
		close(ch)
		return (<-chan map[string]int)(ch), s
	},
	"string": func(n int) (interface{}, interface{}) {
		ch := make(chan string, n)
		var s []string
		for i := 0; i < n; i++ {
			e := []string{"", "\x00", "x", "", "y"}[i%5]
			ch <- e
			s = append(s, e)
		}
		close(ch)
		return ch, s
	},
	"empty": func(n int) (interface{}, interface{}) {
		ch := make(chan struct{}, n)
		for i := 0; i < n; i++ {
			ch <- struct{}{}
		}
		close(ch)
		return ch, make([]struct{}, n)
	},
	"bool": func(n int) (interface{}, interface{}) {
		ch := make(chan bool, n)
		var s []bool
		for i := 0; i < n; i++ {
			ch <- i%3 == 2
			s = append(s, i%3 == 2)
		}
		close(ch)
		return (<-chan bool)(ch), s
	},
	"int": func(n int) (interface{}, interface{}) {
		ch := make(chan int, n)
		for i := 0; i < n; i++ {
			ch <- 0
		}
		close(ch)
		return ch, make([]int, n)
	},
	"array": func(n int) (interface{}, interface{}) {
		ch := make(chan [2]byte, n)
		var s [][2]byte
		for i := 0; i < n; i++ {
			ch <- [2]byte{0, byte(i)}
			s = append(s, [2]byte{0, byte(i)})
		}
		close(ch)
		return ch, s
	},
}

func f06ChanTypes() {
	for name, mk := range chanTypes {
		mk := mk
		for _, single := range []bool{false, true} {
			single := single
			reg("F06", fmt.Sprintf("chan/types/%s/single=%v", name, single), func(t *vh.T) {
				cases := 0
				for n := 0; n <= 9; n++ {
					for inc := 1; inc <= 4; inc++ {
						for mx := inc; mx <= 4; mx++ {
							if single && mx > 1 {
								continue
							}
							ch, elems := mk(n)
							e := reflect.ValueOf(elems)
							var p pipeline.Pipeline
							sink := &sinkNode{t: t}
							if single {
								p.Source(pipeline.NewSingletonChan(ch))
							} else {
								p.Source(ch)
							}
							p.SetVariableBatchSize(inc, mx)
							p.Add(sink)
							p.Run()
							t.Check(p.Err() == nil && sink.size == -1, "Err is %v, size %d", p.Err(), sink.size)
							k := 0
							for i, b := range sink.batches {
								if single {
									t.Check(k < n && reflect.DeepEqual(b, e.Index(k).Interface()), "batch %d of %d is %v", i, n, b)
									k++
									continue
								}
								v := reflect.ValueOf(b)
								full := min((i+1)*inc, mx)
								t.Check(v.Len() == full || i == len(sink.batches)-1 && v.Len() < full && v.Len() > 0, "batch %d of %d elements has %d elements", i, n, v.Len())
								for j := 0; j < v.Len(); j++ {
									t.Check(k < n && reflect.DeepEqual(v.Index(j).Interface(), e.Index(k).Interface()), "element %d of %d is %v", k, n, v.Index(j).Interface())
									k++
								}
							}
							t.Check(k == n, "%d of %d elements", k, n)
							cases++
						}
					}
				}
				t.Cases(cases)
			})
		}
	}
}
