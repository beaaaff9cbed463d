// Command c17: the caches of identifiers that were already seen.
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/netsec-ethz/fpki/pkg/cache"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

type ID = common.SHA256Output

func id(n int) *ID {
	i := ID{}
	i[31*(n%2)] = byte(n + 1) // identifiers that differ in their first or last byte only
	return &i
}

func ids(l ...int) (r []*ID) {
	for _, n := range l {
		r = append(r, id(n))
	}
	return
}

// ---- operation sequences

// model of a cache; capacity 0: unbounded, -1: holds nothing.
type model struct {
	cap   int
	order []int // least recently added first
}

func (m *model) has(n int) bool {
	for _, x := range m.order {
		if x == n {
			return true
		}
	}
	return false
}

func (m *model) add(n int) {
	if m.cap < 0 {
		return
	}
	var o []int
	for _, x := range m.order {
		if x != n {
			o = append(o, x)
		}
	}
	m.order = append(o, n)
	if m.cap > 0 && len(m.order) > m.cap {
		m.order = m.order[1:]
	}
}

// run applies a sequence of operations to a fresh cache; after each of them, query says whether all
// identifiers are asked for (in the model queries have no effect).
func run(mk func() cache.Cache, capacity, nids int, seq [][]int, query bool) error {
	c := mk()
	m := &model{cap: capacity}
	ask := func(k, n int) error {
		x := id(n)
		if got, want := c.Contains(x), m.has(n); got != want {
			return fmt.Errorf("after operation %d of %v: Contains(%d)=%v, expected %v", k, seq, n, got, want)
		}
		if *x != *id(n) {
			return fmt.Errorf("the query changed the identifier")
		}
		return nil
	}
	for k, op := range seq {
		if len(op) == 1 && op[0] < 0 { // a query
			if err := ask(k, -op[0]-1); err != nil {
				return err
			}
			continue
		}
		args := ids(op...)
		c.AddIDs(args...)
		for _, n := range op {
			m.add(n)
		}
		for i, a := range args { // the caller may reuse its memory
			if *a != *id(op[i]) {
				return fmt.Errorf("AddIDs changed an identifier")
			}
			*a = ID{0xee}
		}
		if query {
			for n := range nids {
				if err := ask(k, n); err != nil {
					return err
				}
			}
		}
	}
	for n := range nids {
		if err := ask(len(seq)-1, n); err != nil {
			return err
		}
	}
	return nil
}

func sequences(r *core.Run) {
	const n = 4
	var ops [][]int
	for i := range n {
		ops = append(ops, []int{i}, []int{-i - 1})
	}
	ops = append(ops, []int{}, []int{0, 1}, []int{1, 0}, []int{2, 2}, []int{0, 1, 2, 3, 0})
	type kind struct {
		name string
		cap  int
		mk   func() cache.Cache
	}
	kinds := []kind{{"none", -1, func() cache.Cache { return cache.NewNoCache() }}, {"presence", 0, func() cache.Cache { return cache.NewPresenceCache(1) }}}
	for c := 1; c <= 4; c++ {
		kinds = append(kinds, kind{fmt.Sprint("lru", c), c, func() cache.Cache { return cache.NewLruCache(c) }})
	}
	depth := r.Pick(4, 6)
	type job struct {
		k     kind
		first int
	}
	var jobs []job
	for _, k := range kinds {
		for f := range ops {
			jobs = append(jobs, job{k, f})
		}
	}
	r.Parallel("operation sequences", len(jobs), func(i int) {
		j := jobs[i]
		var rec func(seq [][]int)
		rec = func(seq [][]int) {
			if r.Expired("operation sequences") {
				return
			}
			for _, q := range []bool{false, true} {
				if r.Case(fmt.Sprintf("%s %v query=%v", j.k.name, seq, q), nil, func() error { return run(j.k.mk, j.k.cap, n, seq, q) }) {
					r.Distinct.Add(1)
				}
			}
			d := depth
			if j.k.name == "none" {
				d = 2
			}
			if len(seq) == d {
				return
			}
			for _, o := range ops {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
		rec([][]int{ops[j.first]})
	})
	// large caches
	r.Parallel("large caches", 3, func(i int) {
		c := []int{100, 1000, 10000}[i]
		r.Case(fmt.Sprint("large lru ", c), nil, func() error {
			x := cache.NewLruCache(c)
			big := func(n int) *ID { return &ID{byte(n), byte(n >> 8), byte(n >> 16)} }
			for n := range 3 * c {
				if x.Contains(big(n)) {
					return fmt.Errorf("unseen identifier %d reported", n)
				}
				x.AddIDs(big(n))
				if !x.Contains(big(n)) || n >= c && x.Contains(big(n-c)) || n >= c-1 && !x.Contains(big(n-c+1)) {
					return fmt.Errorf("wrong contents after adding %d", n)
				}
			}
			return nil
		})
	})
}

// ---- concurrent callers

// one thread of a scenario: groups of identifiers it adds (positive lists), or one it asks for
type act struct {
	add []int
	ask int
}

type state struct {
	mu        sync.Mutex
	started   map[int]bool // an addition of it has begun
	completed map[int]bool // an addition of it has ended
	seen      map[int]bool // reported once
}

func conc(name string, mk func() cache.Cache, keeps bool, threads [][]act, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name: name, Quick: q, Deep: d, NoCache: true, Shards: 1,
		Body: func() error {
			c := mk()
			s := &state{started: map[int]bool{}, completed: map[int]bool{}, seen: map[int]bool{}}
			errs := make(chan error, len(threads))
			do := func(l []act) error {
				for _, a := range l {
					vrt.Step("act")
					vrt.Touch("act")
					if a.add != nil {
						s.mu.Lock()
						for _, n := range a.add {
							s.started[n] = true
						}
						s.mu.Unlock()
						c.AddIDs(ids(a.add...)...)
						s.mu.Lock()
						for _, n := range a.add {
							s.completed[n] = true
						}
						s.mu.Unlock()
						continue
					}
					s.mu.Lock()
					must := keeps && (s.completed[a.ask] || s.seen[a.ask])
					s.mu.Unlock()
					got := c.Contains(id(a.ask))
					s.mu.Lock()
					may := s.started[a.ask]
					if got {
						s.seen[a.ask] = true
					}
					s.mu.Unlock()
					if got && !may {
						return fmt.Errorf("identifier %d reported as seen, but it was never added", a.ask)
					}
					if !got && must {
						return fmt.Errorf("identifier %d not reported, although its addition had ended or it had been reported before", a.ask)
					}
				}
				return nil
			}
			for _, l := range threads {
				go func() { errs <- do(l) }()
			}
			var err error
			for range threads {
				if e := <-errs; e != nil {
					err = e
				}
			}
			if err != nil {
				return err
			}
			if keeps {
				for n := range 8 {
					if c.Contains(id(n)) != s.completed[n] {
						return fmt.Errorf("at the end identifier %d: %v instead of %v", n, !s.completed[n], s.completed[n])
					}
				}
			}
			return nil
		},
		Outcome: func(r *vrt.Result) string { return r.Status.String() },
	}
}

func main() {
	var l []*vrt.Scenario
	add := func(n ...int) act { return act{add: n} }
	ask := func(n int) act { return act{ask: n} }
	sets := []struct {
		name string
		t    [][]act
		q, d int
	}{
		{"writer, reader", [][]act{{add(0), add(1)}, {ask(0), ask(1), ask(0), ask(2)}}, 2, 4},
		{"writer of two, reader", [][]act{{add(0, 1), add(2)}, {ask(0), ask(1), ask(2), ask(0)}}, 2, 4},
		{"two writers", [][]act{{add(0), ask(0), ask(1)}, {add(1), ask(1), ask(0)}}, 2, 4},
		{"two writers of the same", [][]act{{add(0, 1), ask(1)}, {add(1, 0), ask(0)}}, 2, 4},
		{"two writers, reader", [][]act{{add(0), add(2)}, {add(1)}, {ask(0), ask(1), ask(0), ask(1)}}, 2, 3},
		{"writer, two readers", [][]act{{add(0), add(1)}, {ask(0), ask(1), ask(0)}, {ask(0), ask(1), ask(0)}}, 2, 3},
		{"seen or add", [][]act{{ask(0), add(0), ask(0)}, {ask(0), add(0), ask(0)}}, 2, 4},
	}
	for _, s := range sets {
		l = append(l, conc("presence: "+s.name, func() cache.Cache { return cache.NewPresenceCache(0) }, true, s.t, s.q, s.d))
		l = append(l, conc("lru: "+s.name, func() cache.Cache { return cache.NewLruCache(3) }, true, s.t, s.q, s.d))
		l = append(l, conc("small lru: "+s.name, func() cache.Cache { return cache.NewLruCache(1) }, false, s.t, s.q, s.d))
	}
	var more func(*core.Run)
	if os.Getenv("VERIF_RACEPART") == "" {
		more = sequences
	}
	vrt.Main("C17", "all operation sequences up to a depth over 4 identifiers, and every schedule of concurrent callers with a bounded number of deviations from four base policies", l, more)
}
