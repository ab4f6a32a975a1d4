package vh

import (
	"sort"
	"sync"
	"sync/atomic"
)

// Adversary is a collection that decides the values of its elements while it is being sorted, such
// that quicksort gets bad pivots (M. D. McIlroy: A Killer Adversary for Quicksort). Its accesses
// are not scheduling points.
type Adversary struct {
	mu         sync.Mutex
	desc       bool // the greatest (instead of the smallest) values are decided first
	val, ptr   []int
	gas, solid int
	cand       int
}

func NewAdversary(n int, desc bool) *Adversary {
	a := &Adversary{desc: desc, gas: n, val: make([]int, n), ptr: make([]int, n)}
	for i := range a.val {
		a.val[i], a.ptr[i] = n, i
	}
	// not sorted
	if n > 1 {
		a.val[0], a.val[1] = n+1, -1
		if desc {
			a.val[0], a.val[1] = -1, n+1
		}
	}
	return a
}

func (a *Adversary) Len() int { return len(a.ptr) }

func (a *Adversary) Swap(i, j int) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.ptr[i], a.ptr[j] = a.ptr[j], a.ptr[i]
}

func (a *Adversary) freeze(x int) {
	a.val[x] = a.solid
	a.solid++
}

func (a *Adversary) Less(i, j int) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	x, y := a.ptr[i], a.ptr[j]
	if a.val[x] == a.gas && a.val[y] == a.gas {
		if x == a.cand {
			a.freeze(x)
		} else {
			a.freeze(y)
		}
	}
	if a.val[x] == a.gas {
		a.cand = x
	} else if a.val[y] == a.gas {
		a.cand = y
	}
	if a.desc {
		return a.val[x] > a.val[y]
	}
	return a.val[x] < a.val[y]
}

func (a *Adversary) SequentialSort(i, j int) {
	a.mu.Lock()
	defer a.mu.Unlock()
	for k := i; k < j; k++ {
		if a.val[a.ptr[k]] == a.gas {
			a.freeze(a.ptr[k])
		}
	}
	p := a.ptr[i:j]
	sort.SliceStable(p, func(k, l int) bool {
		if a.desc {
			return a.val[p[k]] > a.val[p[l]]
		}
		return a.val[p[k]] < a.val[p[l]]
	})
}

// Values returns the values in their original order.
func (a *Adversary) Values() (r []int) {
	for i := len(a.val) - 1; i >= 0; i-- {
		if a.val[i] == a.gas {
			a.freeze(i)
		}
	}
	return append(r, a.val...)
}

// Counter is a counter whose accesses are not scheduling points.
type Counter struct{ n int64 }

func (c *Counter) Add(n int) int { return int(atomic.AddInt64(&c.n, int64(n))) }
func (c *Counter) Get() int      { return int(atomic.LoadInt64(&c.n)) }

// Sites are places where something happens. Its accesses are not scheduling points, and are not
// looked at by the race detection.
type Sites struct {
	What []string
	Tags []int // -1: any
	hits Counter
}

// Has reports whether there is a site of that name.
func (x *Sites) Has(what string) bool {
	for _, s := range x.What {
		if s == what {
			return true
		}
	}
	return false
}

// Hit returns the first site that is hit, or -1.
func (x *Sites) Hit(what string, tags ...int) int {
	for i, s := range x.What {
		if s == what {
			hit := x.Tags[i] < 0
			for _, t := range tags {
				hit = hit || t == x.Tags[i]
			}
			if hit {
				x.hits.Add(1 << uint(8*i))
				return i
			}
		}
	}
	return -1
}

// Hits reports whether site i was hit.
func (x *Sites) Hits(i int) bool { return x.hits.Get()>>uint(8*i)&255 > 0 }

// Calls counts calls, and notes the ones that are somewhere else than their predecessors. Its
// accesses are not scheduling points, and are not looked at by the race detection.
type Calls struct {
	mu    sync.Mutex
	n     map[string]int
	at    map[string][2]int
	jumps map[string][]int
}

// Call returns the number of preceding calls of that name.
func (c *Calls) Call(what string, i, j int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.n == nil {
		c.n, c.at, c.jumps = map[string]int{}, map[string][2]int{}, map[string][]int{}
	}
	k := c.n[what]
	c.n[what]++
	p, ok := c.at[what]
	far := func(d int) bool { return d > 64 || d < -64 }
	if !ok || far(p[0]-i) || far(p[1]-j) {
		c.jumps[what] = append(c.jumps[what], k)
	}
	c.at[what] = [2]int{i, j}
	return k
}

func (c *Calls) Count(what string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n[what]
}

// Some returns some calls of that name: up to m evenly distributed ones and up to m jumps.
func (c *Calls) Some(what string, m int) (r []int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	seen := map[int]bool{}
	add := func(k int) {
		if !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	n, l := c.n[what], c.jumps[what]
	for i := 0; i < m && n > 0; i++ {
		add(i * (n - 1) / m)
		if len(l) > 0 {
			add(l[i*(len(l)-1)/m])
		}
	}
	if n > 0 {
		add(n - 1)
	}
	return
}

// Store is a slice whose accesses are not looked at by the race detection.
type Store struct{ v []int }

func NewStore(l []int) *Store { return &Store{append([]int(nil), l...)} }

func (s *Store) Len() int                      { return len(s.v) }
func (s *Store) Get(i int) int                 { return s.v[i] }
func (s *Store) Less(i, j int) bool            { return s.v[i] < s.v[j] }
func (s *Store) Swap(i, j int)                 { s.v[i], s.v[j] = s.v[j], s.v[i] }
func (s *Store) Sort(i, j int)                 { sort.Stable(sort.IntSlice(s.v[i:j])) }
func (s *Store) Put(i int, t *Store, j, n int) { copy(s.v[i:i+n], t.v[j:j+n]) }
