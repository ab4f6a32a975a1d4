// Command ctl explores all schedules of the registered instances of one property.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	_ "github.com/exascience/pargo/zz_verif/harness"
	"github.com/exascience/pargo/zz_verif/vh"
	"github.com/exascience/pargo/zz_verif/vrt"
)

// Result of one instance.
type Result struct {
	Idx        int            `json:"idx"`
	Name       string         `json:"name"`
	Execs      int64          `json:"execs"`
	States     int64          `json:"states"`
	Trans      int64          `json:"transitions"`
	Terminal   int64          `json:"terminal"`
	Cases      int64          `json:"cases"`
	Threads    int            `json:"threads"`
	Depth      int            `json:"depth"`
	Bound      int            `json:"bound"` // completed preemption bound; -1: unbounded
	Complete   bool           `json:"complete"`
	Exhaustive bool           `json:"exhaustive"`
	CapReason  string         `json:"cap_reason,omitempty"`
	Outcomes   []string       `json:"outcomes"`
	OutTrunc   bool           `json:"out_trunc,omitempty"`
	Viol       *vrt.Violation `json:"violation,omitempty"`
	Choices    []int          `json:"choices,omitempty"`
	HotWG      bool           `json:"hot_wg,omitempty"`
	HotPoll    bool           `json:"hot_poll,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Unrepro    string         `json:"unreproducible,omitempty"`
	Short      bool           `json:"short,omitempty"` // looked at briefly only
	Secs       float64        `json:"secs"`
}

// shortCap is the number of states up to which an instance is explored in the first pass.
const shortCap = 800

const maxOutcomes = 4000

var (
	prop     = flag.String("prop", "", "property")
	tier     = flag.String("tier", "quick", "quick or thorough")
	worker   = flag.Bool("worker", false, "internal")
	budget   = flag.Float64("budget", 100, "seconds for the exploration")
	deadline = flag.Int64("deadline", 0, "internal: unix nanoseconds")
	out      = flag.String("out", "", "result file")
	workers  = flag.Int("j", 8, "worker processes")
	only     = flag.String("only", "", "only instances whose name contains this")
	list     = flag.Bool("list", false, "list instances")
	replay   = flag.String("replay", "", "replay file")
	verbose  = flag.Bool("v", false, "verbose")
	hang     = flag.Float64("hang", 90, "seconds without progress that count as a hang")
)

func instances() []vh.Instance {
	var l []vh.Instance
	for _, i := range vh.Instances {
		if i.Prop == *prop && (*tier == "thorough" || !i.Thorough) && strings.Contains(i.Name, *only) {
			l = append(l, i)
		}
	}
	return l
}

func main() {
	flag.Parse()
	switch {
	case *replay != "":
		doReplay()
	case *worker:
		doWorker()
	case *list:
		for k, i := range instances() {
			fmt.Println(k, i.Name)
		}
	default:
		drive()
	}
}

var beat int64
var current atomic.Value

func capFor(i vh.Instance) int64 {
	c := i.Cap
	if c == 0 {
		c = 20000
	}
	if *tier == "thorough" {
		c *= 20
	}
	return c
}

func runInstance(idx int, inst vh.Instance, short bool) (res Result) {
	start := time.Now()
	res.Idx, res.Name = idx, inst.Name
	res.Bound = -2
	defer func() { res.Secs = time.Since(start).Seconds() }()
	bounds := []int{-1, 0, 1, 2, 3, 4, 5}
	if inst.Delay > 0 {
		bounds = []int{-10 - (inst.Delay - 1)}
		if *tier == "thorough" {
			bounds = append(bounds, -10-inst.Delay, -10-inst.Delay-1, 0, -1)
			if inst.Strict {
				bounds = bounds[:2]
			}
		}
	} else if inst.Bound > 0 {
		bounds = nil
		for b := 0; b < inst.Bound; b++ {
			bounds = append(bounds, b)
		}
		if *tier == "thorough" {
			bounds = append(bounds, inst.Bound, inst.Bound+1, -1)
		}
		if len(bounds) > 2 { // the last but one and the last subsume the others
			bounds = bounds[1:]
		}
	}
	maxStates := capFor(inst)
	if short && maxStates > shortCap {
		// the first pass gives every instance a chance before the deadline
		maxStates = shortCap
		single := len(bounds) == 1
		if bounds[0] == -1 {
			bounds = []int{-1, 1}
		} else {
			bounds = bounds[:1]
		}
		defer func() {
			res.Short = res.Viol == nil && res.Unrepro == "" && !(single && res.Complete) && !res.Exhaustive
		}()
	}
	for _, b := range bounds {
		outs := map[string]bool{}
		trunc := false
		st := &vrt.Stats{}
		var cases int64
		cfg := vrt.Config{Preempt: b, Strict: inst.Strict, MaxStates: maxStates}
		n := 0
		cfg.Deadline = func() bool {
			n++
			if n%64 != 0 {
				return false
			}
			return *deadline != 0 && time.Now().UnixNano() > *deadline
		}
		cfg.AfterExec = func() {
			cases = vh.Last.NCases
			o := vh.Last.OutcomeString()
			if len(outs) < maxOutcomes {
				outs[o] = true
			} else if !outs[o] {
				trunc = true
			}
		}
		body := func() { atomic.AddInt64(&beat, 1); inst.Run() }
		v, choices := vrt.Explore(body, cfg, st)
		res.Execs += st.Execs
		res.Trans += st.Transitions
		if st.States+st.Terminal > res.States {
			res.States = st.States + st.Terminal
		}
		res.Terminal = st.Terminal
		if st.MaxThreads > res.Threads {
			res.Threads = st.MaxThreads
		}
		if st.MaxDepth > res.Depth {
			res.Depth = st.MaxDepth
		}
		if cases > res.Cases {
			res.Cases = cases
		}
		if st.HotWG {
			res.HotWG = true
		}
		if st.HotPoll {
			res.HotPoll = true
		}
		if v == nil && st.Horizon > 0 {
			if !vrt.FairRun(body, 300000) && !vrt.FairRun(body, 10000000) {
				v = &vrt.Violation{Kind: "livelock", Msg: "an execution does not end within 10000000 steps under fair scheduling"}
				res.Viol = v
				res.Trace = []string{"fair round-robin schedule"}
				return
			}
		}
		if v != nil {
			// reproduce
			var tr []string
			for k := 0; k < 5; k++ {
				c := cfg
				c.Trace = k == 4
				v2, t, e := vrt.Replay(body, c, choices, st.HotWG, st.HotPoll)
				if e != "" || v2 == nil || v2.Kind != v.Kind {
					res.Unrepro = fmt.Sprintf("%s: %s (replay %d: %v %s)", v.Kind, v.Msg, k, v2, e)
					res.CapReason = "unreproducible violation"
					return
				}
				tr = t
			}
			res.Viol, res.Choices, res.Trace = v, choices, tr
			res.HotWG, res.HotPoll = st.HotWG, st.HotPoll
			res.Bound = b
			return
		}
		var ol []string
		for o := range outs {
			ol = append(ol, o)
		}
		sort.Strings(ol)
		if !st.Capped {
			res.Bound, res.Complete, res.Exhaustive = b, true, b == -1
			res.Outcomes, res.OutTrunc = ol, trunc
			if b == -1 {
				res.CapReason = ""
				return
			}
			continue
		}
		if b == -1 || len(res.Outcomes) == 0 {
			res.Outcomes, res.OutTrunc = ol, true
		} else {
			res.OutTrunc = true
		}
		res.CapReason = st.CapReason
		if st.Diverged != "" {
			res.CapReason += ": " + st.Diverged
			return
		}
		if b != -1 && inst.Delay == 0 || st.CapReason == "deadline" {
			return
		}
	}
	return
}

func doWorker() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(200)
	insts := instances()
	enc := json.NewEncoder(os.Stdout)
	go func() {
		last := int64(-1)
		t := time.Now()
		for {
			time.Sleep(time.Second)
			b := atomic.LoadInt64(&beat)
			idle, _ := current.Load().(string)
			if b != last || idle == "" {
				last, t = b, time.Now()
			} else if time.Since(t).Seconds() > *hang {
				fmt.Fprintf(os.Stderr, "VHANG %s\n", idle)
				os.Exit(7)
			}
		}
	}()
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var i, phase int
		fmt.Sscan(sc.Text(), &i, &phase)
		current.Store(insts[i].Name)
		atomic.AddInt64(&beat, 1)
		r := runInstance(i, insts[i], phase == 0)
		current.Store("")
		enc.Encode(r)
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func spawn() *proc {
	cmd := exec.Command(os.Args[0], "-worker", "-prop", *prop, "-tier", *tier, "-only", *only,
		"-deadline", fmt.Sprint(*deadline), "-hang", fmt.Sprint(*hang))
	in, _ := cmd.StdinPipe()
	o, _ := cmd.StdoutPipe()
	t := &tail{}
	cmd.Stderr = t
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return &proc{cmd, in, bufio.NewReaderSize(o, 1<<20), t}
}

func drive() {
	insts := instances()
	*deadline = time.Now().Add(time.Duration(*budget * float64(time.Second))).UnixNano()
	var stop int64
	results := make([]*Result, len(insts))
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	next, running := 0, 0
	var again []int
	// take returns the next instance; those that the first pass did not complete come again.
	take := func() (i, phase int) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if atomic.LoadInt64(&stop) != 0 || time.Now().UnixNano() > *deadline {
				return -1, 0
			}
			if next < len(insts) {
				next++
				running++
				return next - 1, 0
			}
			if len(again) > 0 {
				i, again = again[0], again[1:]
				return i, 1
			}
			if running == 0 {
				return -1, 0
			}
			cond.Wait()
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := spawn()
			defer func() { p.in.Close(); p.cmd.Process.Kill(); p.cmd.Wait() }()
			deaths := 0
			for {
				i, phase := take()
				if i < 0 {
					return
				}
			again:
				fmt.Fprintln(p.in, i, phase)
				line, err := p.out.ReadBytes('\n')
				var r Result
				if err == nil {
					err = json.Unmarshal(line, &r)
				}
				if err != nil {
					p.cmd.Wait()
					msg := p.err.String()
					deaths++
					if atomic.LoadInt64(&stop) != 0 {
						mu.Lock()
						cond.Broadcast()
						mu.Unlock()
						return
					}
					first := msg
					if k := strings.IndexByte(first, '\n'); k > 0 {
						first = first[:k]
					}
					fmt.Fprintf(os.Stderr, "worker died in %s (%d): %s\n", insts[i].Name, deaths, first)
					p = spawn()
					if deaths < 2 {
						goto again
					}
					kind := "crash"
					if strings.Contains(msg, "VHANG") {
						kind, first = "hang", "the execution makes no progress and does not end"
					}
					r = Result{Idx: i, Name: insts[i].Name, Viol: &vrt.Violation{Kind: kind, Msg: first}, Trace: strings.Split(msg, "\n")}
					if kind == "crash" && !strings.Contains(msg, "goroutine") && !strings.Contains(msg, "fatal error") && !strings.Contains(msg, "panic") {
						// killed from outside (memory): no verdict
						r.Viol = nil
						r.CapReason = "worker was killed: " + first
					}
				}
				deaths = 0
				mu.Lock()
				if phase == 0 {
					running--
					if r.Short {
						again = append(again, i)
					}
					cond.Broadcast()
				}
				if o := results[i]; o == nil || r.Viol != nil || r.Complete || !o.Complete {
					if o != nil {
						r.Execs += o.Execs
						r.Trans += o.Trans
					}
					results[i] = &r
				}
				mu.Unlock()
				if r.Viol != nil && !known(r) {
					atomic.StoreInt64(&stop, 1)
				}
				if *verbose {
					v := ""
					if r.Viol != nil {
						v = " VIOL " + r.Viol.Kind + ": " + r.Viol.Msg
					}
					fmt.Fprintf(os.Stderr, "%-60s execs=%d states=%d outs=%d bound=%d complete=%v %s %s %.2fs%s\n", r.Name, r.Execs, r.States, len(r.Outcomes), r.Bound, r.Complete, r.CapReason, r.Unrepro, r.Secs, v)
				}
			}
		}()
	}
	wg.Wait()
	var done []*Result
	for _, r := range results {
		if r != nil {
			done = append(done, r)
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"total": len(insts), "results": done})
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
}

// known: listed in the known-findings file (VERIF_KNOWN: lines instance\tkind)
func known(r Result) bool {
	for _, l := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 2 && f[0] == r.Name && f[1] == r.Viol.Kind {
			return true
		}
	}
	return false
}

func doReplay() {
	b, err := os.ReadFile(*replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var r struct {
		Property string `json:"property"`
		Result   Result `json:"result"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, i := range vh.Instances {
		if i.Prop == r.Property && i.Name == r.Result.Name {
			v, tr, e := vrt.Replay(i.Run, vrt.Config{Preempt: r.Result.Bound, Strict: i.Strict, Trace: true}, r.Result.Choices, r.Result.HotWG, r.Result.HotPoll)
			for _, l := range tr {
				fmt.Println("  " + l)
			}
			if e != "" {
				fmt.Println("replay:", e)
				os.Exit(2)
			}
			if v != nil {
				fmt.Printf("%s: %s\n", v.Kind, v.Msg)
				os.Exit(1)
			}
			fmt.Println("no violation")
			return
		}
	}
	fmt.Println("no such instance")
	os.Exit(2)
}
