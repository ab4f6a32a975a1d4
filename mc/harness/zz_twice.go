package harness

import (
	"strings"
	"sync"

	"github.com/exascience/pargo/zz_verif/vh"
)

// Programs of two calls: every property speaks about any call, whatever else is going on in the
// process. For a spread of the instances of each property, the program is run twice at the same
// time by two goroutines, at the same time as another one, and one after another.

// together runs f and g in two goroutines and waits for both.
func together(t *vh.T, f, g func(*vh.T)) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		f(t)
	}()
	g(t)
	wg.Wait()
}

// spread returns at most k elements of l, evenly spaced.
func spread(l []vh.Instance, k int) (r []vh.Instance) {
	for i := 0; i < k; i++ {
		j := (2*i + 1) * len(l) / (2 * k)
		if len(l) < k {
			if j = i; j >= len(l) {
				break
			}
		}
		r = append(r, l[j])
	}
	return
}

func init() {
	byProp := map[string][]vh.Instance{}
	many := map[string][]vh.Instance{}
	var props []string
	for _, i := range vh.Instances {
		if i.Thorough || i.Alone {
			continue
		}
		if strings.HasPrefix(i.Name, "many/") {
			if i.Prop != "A05" && i.Prop != "D05" && i.Prop != "F06" && i.Prop != "F07" {
				many[i.Prop] = append(many[i.Prop], i)
			}
			continue
		}
		if byProp[i.Prop] == nil {
			props = append(props, i.Prop)
		}
		byProp[i.Prop] = append(byProp[i.Prop], i)
	}
	reg := func(prop, name string, delay int, thorough bool, leak bool, body func(t *vh.T)) {
		vh.Register(vh.Instance{Prop: prop, Name: name, Delay: delay, Strict: strings.Contains(name, "many/"), Cap: 4000, Thorough: thorough, NoLeak: leak, Body: body})
	}
	for _, p := range props {
		l := byProp[p]
		// some programs set GOMAXPROCS: only combined with themselves
		mixed := strings.Index("A01 A03 A04 B01 B02 B03 C01 E01 E02 E03 E04 F01 F02 F03 F05 F07 F08 F09 F10", p) >= 0
		for k, i := range append(spread(l, 120), spread(many[p], 24)...) {
			i := i
			big := k%4 != 1
			if p == "D05" || p == "F06" { // big programs
				big = k%20 != 1
			}
			if p == "A02" { // sets GOMAXPROCS to several values
				reg(p, "again/"+i.Name, 1, false, i.NoLeak, func(t *vh.T) { i.Body(t); i.Body(t) })
				continue
			}
			reg(p, "twice/"+i.Name, 2, big, i.NoLeak, func(t *vh.T) { together(t, i.Body, i.Body) })
			reg(p, "twice3/"+i.Name, 3, true, i.NoLeak, func(t *vh.T) { together(t, i.Body, i.Body) })
			reg(p, "again/"+i.Name, 1, false, i.NoLeak, func(t *vh.T) { i.Body(t); i.Body(t) })
		}
		if mixed {
			s := spread(l, 90)
			for k := range s {
				i, j := s[k], s[(k*7+31)%len(s)]
				big := k%3 != 1
				leak := i.NoLeak || j.NoLeak
				reg(p, "both/"+i.Name+"+"+j.Name, 2, big, leak, func(t *vh.T) { together(t, i.Body, j.Body) })
				reg(p, "after/"+i.Name+"+"+j.Name, 1, false, leak, func(t *vh.T) { i.Body(t); j.Body(t) })
			}
		}
	}
}
