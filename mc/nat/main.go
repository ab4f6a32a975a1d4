// Command nat runs instances on the unmodified code and the Go runtime, and compares what it
// observes with the outcomes found by exhaustive exploration.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	_ "github.com/exascience/pargo/zz_verif/harness"
	"github.com/exascience/pargo/zz_verif/vh"
)

type res struct {
	Name       string   `json:"name"`
	Complete   bool     `json:"complete"`
	Exhaustive bool     `json:"exhaustive"`
	Outcomes   []string `json:"outcomes"`
	OutTrunc   bool     `json:"out_trunc"`
}

type report struct {
	Runs       int64             `json:"runs"`
	Validated  int64             `json:"validated"`
	Instances  int               `json:"instances"`
	Mismatches []string          `json:"mismatches"`
	Failures   map[string]string `json:"failures"`
	Unstable   []string          `json:"unstable"`
	Hangs      []string          `json:"hangs"`
	Sample     string            `json:"sample"`
}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	conf := flag.String("conf", "", "")
	out := flag.String("out", "", "")
	budget := flag.Float64("budget", 4, "")
	limit := flag.Float64("limit", 20, "seconds after which a run counts as hanging")
	flag.Parse()
	known := map[string]*res{}
	if *conf != "" {
		var c struct {
			Results []*res `json:"results"`
		}
		b, err := os.ReadFile(*conf)
		if err == nil {
			json.Unmarshal(b, &c)
		}
		for _, r := range c.Results {
			known[r.Name] = r
		}
	}
	var insts []vh.Instance
	for _, i := range vh.Instances {
		if i.Prop == *prop && (*tier == "thorough" || !i.Thorough) && !i.NoNative {
			if *conf == "" || (known[i.Name] != nil && known[i.Name].Exhaustive && !known[i.Name].OutTrunc) {
				insts = append(insts, i)
			}
		}
	}
	rep := report{Failures: map[string]string{}}
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	lim := time.Duration(*limit * float64(time.Second))
	write := func() {
		b, _ := json.Marshal(rep)
		os.WriteFile(*out, b, 0o644)
	}
	used := map[string]bool{}
	rounds := 0
	for time.Now().Before(end) && len(insts) > 0 && rounds < 200 {
		// spread over the instances: a stride in every round
		for k := range insts {
			i := insts[(k*7919+rounds)%len(insts)]
			if time.Now().After(end) {
				break
			}
			if rep.Failures[i.Name] != "" {
				continue
			}
			used[i.Name] = true
			r := vh.Run(i, uint64(rounds*1000003+k), lim)
			rep.Runs++
			if !r.Done {
				rep.Hangs = append(rep.Hangs, i.Name)
				write()
				os.Exit(0) // the stuck goroutines cannot be removed
			}
			if r.Fail != "" {
				n := 1
				for j := 0; j < 4; j++ {
					r2 := vh.Run(i, uint64(rounds*1000003+k), lim)
					if r2.Done && r2.Fail != "" {
						n++
					}
				}
				if n == 5 {
					rep.Failures[i.Name] = r.Fail
				} else {
					rep.Unstable = append(rep.Unstable, i.Name+": "+r.Fail)
				}
				continue
			}
			if kn := known[i.Name]; kn != nil {
				ok := false
				for _, o := range kn.Outcomes {
					if o == r.Outcome {
						ok = true
						break
					}
				}
				if ok {
					rep.Validated++
					if rep.Sample == "" && r.Outcome != "" {
						rep.Sample = i.Name + ": " + strings.TrimSpace(r.Outcome)
					}
				} else if r.Settled {
					if len(rep.Mismatches) < 20 {
						rep.Mismatches = append(rep.Mismatches, fmt.Sprintf("%s: native outcome %q was not explored", i.Name, r.Outcome))
					}
				}
			}
		}
		rounds++
	}
	rep.Instances = len(used)
	write()
}
