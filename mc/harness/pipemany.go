package harness

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/vh"
)

// Many batches and many nodes: the first schedules only.

func (c pprog) regMany(prop string, delay int, thorough bool) {
	vh.Register(vh.Instance{Prop: prop, Name: fmt.Sprintf("many/%d/%s", delay, c.name()), Delay: delay, Strict: true, Thorough: thorough, Body: func(t *vh.T) { c.run(t) }})
}

func init() {
	ms := []int{6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33, 50, 100, 129, 257, 600, 1030}
	for n := 1; n <= 3; n++ {
		nodeSeqs(pipeKinds, n, func(w string) {
			for _, m := range ms {
				if n == 3 && m > 9 || n == 2 && (m == 129 || m == 1030) {
					continue
				}
				ordered := strings.Trim(w, "PL") != ""
				for _, src := range []string{"func", "chan", "bchan"} {
					if src != "func" && m > 20 {
						continue
					}
					pprog{spec: specOf(w, "f"), m: m, src: src}.regMany("F01", 1, n == 3 && src != "func")
					pprog{spec: specOf(w, "f"), m: m, src: src}.regMany("F03", 1, n == 3 && src != "func")
					if ordered {
						pprog{spec: specOf(w, "r"), m: m, src: src, yield: true}.regMany("F02", 1, n == 3 && src != "func")
					}
				}
				pprog{spec: specOf(w, "f"), m: m, src: "func"}.regMany("F01", 2, n > 2 || m > 10)
				if ordered {
					pprog{spec: specOf(w, "r"), m: m, src: "func"}.regMany("F02", 2, n > 2 || m > 10)
				}
				if m > 100 {
					for _, st := range []string{"cancel:0:%d", "err:0:%d", "srcerr:0:%d"} {
						pprog{spec: specOf(w, "f"), m: m, src: "func", stop: fmt.Sprintf(st, m-3)}.regMany("F03", 1, false)
					}
					continue
				}
				for _, s := range []int{0, m / 2, m - 1} {
					for j := 0; j < n; j++ {
						for _, st := range []string{"cancel:%d:%d", "err:%d:%d"} {
							pprog{spec: specOf(w, "f"), m: m, src: "func", stop: fmt.Sprintf(st, j, s)}.regMany("F03", 1, n > 2 && j > 0)
							pprog{spec: specOf(w, "f"), m: m, src: "func", stop: fmt.Sprintf(st, j, s)}.regMany("F03", 2, n > 2 || m > 7)
							if ordered {
								pprog{spec: specOf(w, "r"), m: m, src: "func", stop: fmt.Sprintf(st, j, s)}.regMany("F02", 2, n > 1 || m > 9)
							}
						}
					}
					pprog{spec: specOf(w, "f"), m: m, src: "func", stop: fmt.Sprintf("srcerr:0:%d", s)}.regMany("F03", 1, false)
				}
				pprog{spec: specOf(w, "f"), m: m, src: "func", stop: "ctx"}.regMany("F03", 2, n > 2 || m > 9)
			}
		})
	}
	// many nodes: all words of length 5; all of length 8 over a few kinds
	nodeSeqs(pipeKinds, 5, func(w string) {
		for _, m := range []int{1, 3} {
			pprog{spec: specOf(w, "f"), m: m, src: "func"}.regMany("F01", 1, m == 1)
			if strings.Trim(w, "PL") != "" {
				pprog{spec: specOf(w, "r"), m: m, src: "func"}.regMany("F02", 1, m == 1)
			}
		}
		pprog{spec: specOf(w, "f"), m: 2, src: "func", stop: "cancel:2:1"}.regMany("F03", 1, false)
		pprog{spec: specOf(w, "f"), m: 2, src: "func", stop: "err:4:0"}.regMany("F03", 1, false)
		pprog{spec: specOf(w, "f"), m: 2, src: "func", stop: "ctx"}.regMany("F03", 1, false)
	})
	for _, k := range []string{"OP", "SP", "PX", "LX", "OS", "LO"} {
		nodeSeqs(k, 8, func(w string) {
			pprog{spec: specOf(w, "f"), m: 3, src: "func"}.regMany("F01", 1, false)
			pprog{spec: specOf(w, "r"), m: 3, src: "func"}.regMany("F02", 1, false)
			pprog{spec: specOf(w, "f"), m: 2, src: "func", stop: "cancel:3:1"}.regMany("F03", 1, true)
		})
	}
	// very many nodes
	for _, w := range []string{"OP", "SPO", "PXPL", "LP", "OPSL", "LO", "XP"} {
		for _, n := range []int{16, 17, 33, 65, 130} {
			spec := specOf(strings.Repeat(w, n)[:n], "f")
			for _, m := range []int{1, 3, 7} {
				pprog{spec: spec, m: m, src: "func"}.regMany("F01", 1, m > 1 && n > 65)
				pprog{spec: specOf(strings.Repeat(w, n)[:n], "r"), m: m, src: "func"}.regMany("F02", 1, m > 1 && n > 65)
				if m > 1 {
					pprog{spec: spec, m: m, src: "func", stop: fmt.Sprintf("cancel:%d:1", n/2)}.regMany("F03", 1, m > 3)
					pprog{spec: spec, m: m, src: "func", stop: fmt.Sprintf("err:%d:0", n-1)}.regMany("F03", 1, m > 3)
				}
			}
		}
	}
	// many filters in a node
	for _, k := range pipeKinds {
		for _, n := range []int{4, 5, 8, 9, 16, 17, 33} {
			for _, fs := range []string{"f", "rz", "fi", "fIr", "iIfz", "N", "RZ", "F", "jHGf"} {
				f := strings.Repeat(fs, n)[:n]
				for _, m := range []int{1, 2, 4} {
					pprog{spec: string(k) + f, m: m, src: "func"}.regMany("F01", 1, false)
					pprog{spec: string(k) + f + ",O" + f, m: m, src: "ufunc", addAll: true}.regMany("F01", 1, false)
				}
			}
		}
	}
}

func init() {
	// F04: higher limits, more batches
	for _, k := range []int{4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 64, 65, 130, 300} {
		for _, spec := range []string{"%", "P,%", "%,O", "%,X", "%,%", "%,-,%", "S,%,P", "%,O,%"} {
			s := strings.Replace(spec, "%", fmt.Sprintf("L%d", k), -1)
			for _, m := range []int{k - 1, k, k + 1, 2*k + 1} {
				for _, hold := range []bool{false, true} {
					k, m, hold := k, m, hold
					for _, def := range []bool{false, true} {
						s, procs := s, 2
						if def { // the default limit
							s, procs = strings.Replace(spec, "%", fmt.Sprintf("L%d", -(k%2)), -1), k
						}
						name := fmt.Sprintf("many/%s/procs=%d/m=%d/hold=%v", s, procs, m, hold)
						if hold && m >= k {
							// the first k batches wait for each other
							vh.Register(vh.Instance{Prop: "F04", Name: name + "/meet", Delay: 1, Strict: true, Thorough: k > 9 && len(spec) > 3 || k > 130 && len(spec) > 1, Body: func(t *vh.T) {
								f04Prog(t, s, procs, m, true, false, m%2 == 0, false)
							}})
						}
						vh.Register(vh.Instance{Prop: "F04", Name: name, Delay: 1, Strict: true, Thorough: k > 9 && len(spec) > 3 || k == 33 || k > 33 && len(spec) > 1, Body: func(t *vh.T) {
							f04Prog(t, s, procs, m, false, false, m%2 == 0, hold)
						}})
						vh.Register(vh.Instance{Prop: "F04", Name: name + "/delays", Delay: 2, Strict: true, Thorough: k > 5 || m > k+1 || !hold || len(spec) > 3, Body: func(t *vh.T) {
							f04Prog(t, s, procs, m, false, false, m%2 == 0, hold)
						}})
					}
				}
			}
		}
	}
	for _, a := range []int{2, 3, 5, 8} {
		for _, b := range []int{2, 3, 4, 7, 9} {
			if a != b {
				for _, mid := range []string{",", ",-,", ",O,", ",P,"} {
					a, b, mid := a, b, mid
					for _, hold := range []bool{false, true} {
						s := fmt.Sprintf("L%d%sL%d", a, mid, b)
						for _, m := range []int{5, 10} {
							hold, m := hold, m
							vh.Register(vh.Instance{Prop: "F04", Name: fmt.Sprintf("many/%s/m=%d/hold=%v", s, m, hold), Delay: 1, Strict: true, Body: func(t *vh.T) {
								f04Prog(t, s, 2, m, false, false, true, hold)
							}})
						}
					}
				}
			}
		}
	}
	// F05: errors late in long runs
	for _, spec := range []string{"O", "S", "P", "L", "X", "OP", "PX", "LO", "PSP", "OPXL", "SPOPS", "LLOO", "XPLO"} {
		n := len(spec)
		for _, m := range []int{5, 8, 17} {
			for _, known := range []bool{true, false} {
				acts := []string{"", "q", "s0", fmt.Sprintf("s%d", m-1), fmt.Sprintf("s%d", m/2), "z0", fmt.Sprintf("z%d", n-1), "a", "C", fmt.Sprintf("f%d", n-1), "q,z0", "g0,h0", "f0,q"}
				for j := 0; j < n; j++ {
					for _, s := range []int{0, m / 2, m - 1} {
						acts = append(acts, fmt.Sprintf("r%d.%d", j, s), fmt.Sprintf("r%d.%d,q", j, s), fmt.Sprintf("c%d.%d,q", j, s), fmt.Sprintf("r%d.%d,r%d.%d", j, s, n-1-j, m-1-s),
							fmt.Sprintf("r%d.%d,s%d", j, s, min(s+1, m-1)), fmt.Sprintf("r%d.%d,z%d,e", j, s, j))
					}
				}
				for _, a := range acts {
					spec, m, known, a := spec, m, known, a
					body := func(t *vh.T) {
						var l, u []string
						if a != "" {
							l = strings.Split(a, ",")
						}
						for i := range l {
							if i == 0 || l[i] != l[0] {
								u = append(u, l[i])
							}
						}
						f05Prog(t, spec, m, u, known, len(u)%3)
					}
					name := fmt.Sprintf("many/%s/m=%d/known=%v/%s", spec, m, known, a)
					vh.Register(vh.Instance{Prop: "F05", Name: name, Delay: 1, Strict: true, Body: body})
					vh.Register(vh.Instance{Prop: "F05", Name: name + "/delays", Delay: 2, Strict: true, Thorough: m > 5 || n > 2, Body: body})
				}
			}
		}
	}
	// F06: more elements, more batches
	for _, n := range []int{13, 14, 15, 16, 17, 19, 20, 23, 25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 1000, 1023, 1024, 1025} {
		n := n
		reg("F06", fmt.Sprintf("many/known/n=%d", n), func(t *vh.T) {
			cases := 0
			for _, nof := range []int{-1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, n/2 - 1, n / 2, n/2 + 1, n - 2, n - 1, n, n + 1, 2 * n} {
				for procs := 1; procs <= 5; procs++ {
					if procs > 1 && nof > 0 {
						break
					}
					t.Procs(procs)
					ins := sliceInputs(n)
					for _, name := range sortedKeys(ins) {
						if n > 100 && name != "ints" && name != "array" && name != "bytes" {
							continue
						}
						in := ins[name]
						want := nof
						if nof < 1 {
							want = 2 * procs
						}
						var p pipeline.Pipeline
						sink := &sinkNode{t: t}
						p.Source(in)
						t.Check(p.NofBatches(nof) == want, "NofBatches")
						p.Add(sink)
						p.Run()
						what := fmt.Sprintf("%s of size %d with NofBatches(%d)", name, n, nof)
						t.Check(p.Err() == nil && sink.size == n, "%s: Err %v, size %d", what, p.Err(), sink.size)
						checkBatches(t, what, sink.batches, elemsOf(in))
						checkKnown(t, what, sizesOf(sink.batches), n, want)
						cases++
					}
				}
			}
			t.Cases(cases)
		})
	}
	// F07: more elements
	sizes := []int{10, 11, 16, 17, 25, 33, 64, 100}
	for _, spec := range []string{"L%,CO,AO", "K%,CO,AO", "L%,K7,AO,CO", "K7,L%,AO,CO,EO", "K%,K3,L9,CO,AO", "L%,L11,CO,AO", "CO,L%,UO,K3,CO,AO", "DO,L%,CO,AO", "DO,K%,AO,CO"} {
		for _, k := range []int{6, 7, 8, 9, 10, 15, 16, 17, 32, 50, 99, 100, 101} {
			stages := parseStages(strings.Replace(spec, "%", fmt.Sprint(k), -1))
			for _, known := range []bool{true, false} {
				known := known
				vh.Register(vh.Instance{Prop: "F07", Name: fmt.Sprintf("many/%s/%d/known=%v", spec, k, known), Delay: 1, Strict: true, Body: func(t *vh.T) {
					cases := 0
					for _, n := range sizes {
						for _, b := range []int{1, 3, 4, 7, 8, 16} {
							filtRun(t, stages, n, b, known, cases%2)
							cases++
						}
					}
					t.Cases(cases)
				}})
			}
		}
	}
	for _, nd := range "SPLMX1D" {
		for _, ops := range []string{"C", "A", "E", "N", "S", "T", "e", "s"} {
			spec := fmt.Sprintf("%s%c", ops, nd)
			for _, pre := range []string{"", "DO,", "CO,", "K5,", "L9,"} {
				stages := parseStages(pre + spec)
				for _, n := range []int{9, 10, 16, 17, 33} {
					for _, b := range []int{1, 3, 4} {
						for _, known := range []bool{true, false} {
							n, b, known := n, b, known
							vh.Register(vh.Instance{Prop: "F07", Name: fmt.Sprintf("many/%s%s/n=%d/b=%d/known=%v", pre, spec, n, b, known), Delay: 1 + b/4, Strict: true, Thorough: n > 17, Body: func(t *vh.T) {
								filtRun(t, stages, n, b, known, n%2)
							}})
						}
					}
				}
			}
		}
	}
	// F08: merges in long pipelines
	for _, w := range []string{"OOSS", "SSOO", "PPPP", "LLLL", "XXXX", "OSOSOS", "PPOOPP", "XOXS", "LLPPLL", "SXOP", "OPOPOP", "MLLM", "PLOXSLP"} {
		for mask := 0; mask < 1<<uint(len(w)+1); mask++ {
			if len(w) > 4 && mask%5 != 0 {
				continue
			}
			var parts []string
			for i := 0; i <= len(w); i++ {
				if mask>>uint(i)&1 == 1 {
					parts = append(parts, []string{"O", "Pi", "S", "X", "LI", "Oi", "1"}[(i+mask)%7])
				}
				if i < len(w) {
					parts = append(parts, w[i:i+1]+[]string{"f", "er", "fz", "r", "z", "zz", "F", "ZR", "jG"}[(i*(mask/7%5+1)+mask)%9])
				}
			}
			for _, all := range []bool{false, true} {
				pprog{spec: strings.Join(parts, ","), m: 3, src: "func", addAll: all}.regMany("F08", 1, false)
				pprog{spec: strings.Join(parts, ","), m: 2, src: "func", addAll: all, shared: true}.regMany("F08", 1, false)
				pprog{spec: strings.Join(parts, ","), m: 2, src: "ufunc", addAll: all}.regMany("F08", 2, mask%3 != 0)
			}
		}
	}
}
