// C01: the sparse Merkle tree is a map with a history-independent root.
package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/netsec-ethz/fpki/verifmc/core"
	tx "github.com/netsec-ethz/fpki/verifmc/triex"
)

type plan struct {
	geoms  []tx.Geometry
	steps  func(n int) [][]tx.Step
	cache  []int
	atomic []bool
}

func main() {
	r := core.Start("C01", "exploration")
	r.Rule = "one case = one (key geometry, cache setting, history of batches with commit/reopen in between); non-trivial if at least one key is overwritten or deleted or two batches touch the tree; after every step all keys and probe keys are read and the root is compared with the root of a fresh tree built in one batch"
	bits := []int{0, 3, 4, 8, 253}
	allAfter := []tx.After{tx.Nothing, tx.Commit, tx.Reopen}
	var plans []plan
	two := func(n int) [][]tx.Step {
		b := tx.Batches(n, 2)
		return [][]tx.Step{tx.Steps(b, allAfter...), tx.Steps(b, tx.Nothing)}
	}
	three := func(n int) [][]tx.Step {
		// contents first (no deletes in an empty tree), then anything, then anything
		var first [][]int
		for _, b := range tx.Batches(n, 1) {
			first = append(first, b)
		}
		b := tx.Batches(n, 2)
		return [][]tx.Step{tx.Steps(first, tx.Nothing, tx.Reopen), tx.Steps(b, allAfter...), tx.Steps(b, tx.Nothing)}
	}
	plans = append(plans, plan{tx.Triples(bits, []byte{0x00, 0xff}), two, []int{-1, 0}, []bool{false}})
	plans = append(plans, plan{tx.Triples([]int{0, 4, 253}, []byte{0x55}), two, []int{-1, 0, 252}, []bool{false, true}})
	plans = append(plans, plan{tx.Triples([]int{3, 4}, []byte{0x00}), three, []int{-1}, []bool{false}})
	plans = append(plans, plan{tx.Quads([][3]int{{0, 4, 5}, {4, 8, 253}, {3, 253, 9}}, []byte{0x00}), func(n int) [][]tx.Step {
		b := tx.Batches(n, 1)
		return [][]tx.Step{tx.Steps(b, tx.Nothing, tx.Reopen), tx.Steps(b, tx.Nothing)}
	}, []int{-1}, []bool{false}})
	plans = append(plans, plan{tx.Triples([]int{4}, []byte{0x00}), func(n int) [][]tx.Step {
		b := tx.Batches(n, 1)
		return [][]tx.Step{tx.Steps(b, tx.Nothing, tx.ReopenCache), tx.Steps(b, tx.Nothing, tx.Commit), tx.Steps(b, tx.ReopenCache)}
	}, []int{0}, []bool{false}})
	if r.Thorough() {
		more := []int{0, 1, 2, 3, 4, 5, 7, 8, 12, 252, 253}
		plans = append(plans, plan{tx.Triples(more, []byte{0x00, 0xff, 0xaa}), two, []int{-1, 0}, []bool{false, true}})
		plans = append(plans, plan{tx.Triples(bits, []byte{0x00, 0xff}), three, []int{-1, 0}, []bool{false}})
		plans = append(plans, plan{tx.Triples([]int{3, 4, 253}, []byte{0}), func(n int) [][]tx.Step {
			b := tx.Batches(n, 1)
			s := tx.Steps(b, tx.Nothing, tx.Commit)
			return [][]tx.Step{s, s, s, tx.Steps(b, tx.Nothing)}
		}, []int{-1}, []bool{false}})
		plans = append(plans, plan{tx.Quads([][3]int{{0, 4, 5}, {4, 8, 253}, {3, 253, 9}, {1, 2, 3}}, []byte{0x00, 0xff}), func(n int) [][]tx.Step {
			b := tx.Batches(n, 2)
			return [][]tx.Step{tx.Steps(b, tx.Nothing, tx.Reopen), tx.Steps(b, tx.Nothing)}
		}, []int{-1}, []bool{false}})
	}

	type job struct {
		g      tx.Geometry
		steps  [][]tx.Step
		cache  int
		atomic bool
	}
	var jobs []job
	for _, p := range plans {
		for _, g := range p.geoms {
			st := p.steps(len(g.Keys))
			for _, c := range p.cache {
				for _, a := range p.atomic {
					// split the first step over jobs
					for k := 0; k < len(st[0]); k += 16 {
						e := min(k+16, len(st[0]))
						s2 := append([][]tx.Step{st[0][k:e]}, st[1:]...)
						jobs = append(jobs, job{g, s2, c, a})
					}
				}
			}
		}
	}
	var mu sync.Mutex
	fresh := map[string][]byte{}
	byRoot := map[string]string{}
	freshRoot := func(g *tx.Geometry, content []int) ([]byte, error) {
		key := g.Name + tx.ContentKey(content)
		mu.Lock()
		defer mu.Unlock()
		if v, ok := fresh[key]; ok {
			return v, nil
		}
		v, err := tx.FreshRoot(g, content)
		if err != nil {
			return nil, err
		}
		v = append([]byte{}, v...)
		fresh[key] = v
		rk := g.Name + string(v)
		if o, ok := byRoot[rk]; ok && o != key {
			return nil, fmt.Errorf("contents %s and %s have the same root", o, key)
		}
		byRoot[rk] = key
		return v, nil
	}
	r.Parallel("histories", len(jobs), func(i int) {
		j := jobs[i]
		n := int64(0)
		tx.Histories(j.steps, func(h tx.History) bool {
			n++
			if n%256 == 0 && (r.Stop() || r.Expired("histories")) {
				return false
			}
			key := fmt.Sprintf("%s cache=%d atomic=%v %s", j.g.Name, j.cache, j.atomic, h)
			r.Case(key, nil, func() error {
				s, err := tx.Open(&j.g, j.cache)
				if err != nil {
					return err
				}
				s.Atomic = j.atomic
				for k, st := range h {
					if err := s.Step(st); err != nil {
						return fmt.Errorf("step %d: %w", k, err)
					}
					want, err := freshRoot(&j.g, s.Content)
					if err != nil {
						return fmt.Errorf("fresh tree with contents %v: %w", s.Content, err)
					}
					if !bytes.Equal(want, s.T.Root) {
						return fmt.Errorf("step %d: root %x after this history, but %x when the same contents %v are built in one batch", k, s.T.Root, want, s.Content)
					}
					// reads after the last step only; prefixes are histories of their own
					if k == len(h)-1 {
						if err := tx.CheckReads(s.T, &j.g, s.Content); err != nil {
							return fmt.Errorf("step %d: %w", k, err)
						}
					}
				}
				return nil
			})
			if len(h) > 1 {
				r.Distinct.Add(1)
			}
			return true
		})
	})
	r.Extra("distinct_contents", len(fresh))
	r.Extra("geometries_histories_jobs", len(jobs))
	mismatched(r)
	large(r)
	r.Finish()
}

// mismatched: malformed calls are errors and change nothing.
func mismatched(r *core.Run) {
	g := tx.Triples([]int{0}, []byte{0})[0]
	r.Case("keys/values length mismatch", nil, func() error {
		s, err := tx.Open(&g, -1)
		if err != nil {
			return err
		}
		if err := s.Batch([]int{1, 2, -1}); err != nil {
			return err
		}
		root := append([]byte{}, s.T.Root...)
		if _, err := s.T.Update(tx.Ctx, [][]byte{g.Keys[0], g.Keys[1]}, [][]byte{tx.Val(1)}); err == nil {
			return fmt.Errorf("Update with 2 keys and 1 value succeeded")
		}
		if !bytes.Equal(root, s.T.Root) {
			return fmt.Errorf("a rejected Update changed the root")
		}
		return tx.CheckReads(s.T, &g, s.Content)
	})
}
