// C04: a committed tree survives reopening and interrupted commits.
package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/verifmc/core"
	tx "github.com/netsec-ethz/fpki/verifmc/triex"
)

func main() {
	r := core.Start("C04", "fault_enumeration")
	r.Rule = "one case = one history of batches/commits/reopens plus, for its last commit, one fault: none, an error or crash before/after the n-th storage write, with repetition on the same or on a reopened tree; or an error of the n-th storage read of one operation. Non-trivial = the fault point exists and the contents changed"
	bits := []int{0, 3, 4, 8, 253}
	type job struct {
		g      tx.Geometry
		steps  [][]tx.Step
		cache  int
		atomic bool
		faults bool
	}
	var jobs []job
	add := func(gs []tx.Geometry, cache []int, atomic, faults bool, mk func(n int) [][]tx.Step) {
		for _, g := range gs {
			st := mk(len(g.Keys))
			for _, c := range cache {
				for k := 0; k < len(st[0]); k += 8 {
					jobs = append(jobs, job{g, append([][]tx.Step{st[0][k:min(k+8, len(st[0]))]}, st[1:]...), c, atomic, faults})
				}
			}
		}
	}
	two := func(n int) [][]tx.Step {
		return [][]tx.Step{tx.Steps(tx.Batches(n, 1), tx.Nothing, tx.Commit, tx.Reopen), tx.Steps(tx.Batches(n, 2), tx.Nothing)}
	}
	add(tx.Triples([]int{0, 4, 253}, []byte{0x00}), []int{-1}, false, true, two)
	add(tx.Triples([]int{3, 8}, []byte{0xff}), []int{-1}, false, true, two)
	add(tx.Triples([]int{4}, []byte{0x5a}), []int{0}, true, true, two)
	add(tx.Triples([]int{3, 4}, []byte{0x00}), []int{-1}, false, false, func(n int) [][]tx.Step {
		b := tx.Steps(tx.Batches(n, 2), tx.Nothing)
		return [][]tx.Step{tx.Steps(tx.Batches(n, 1), tx.Commit, tx.Reopen), b, b}
	})
	if r.Thorough() {
		add(tx.Triples([]int{0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 252, 253}, []byte{0x00, 0xff}), []int{-1, 0}, false, true, two)
		add(tx.Triples(bits, []byte{0x00, 0xff}), []int{-1, 0}, false, false, func(n int) [][]tx.Step {
			b := tx.Steps(tx.Batches(n, 2), tx.Nothing)
			return [][]tx.Step{tx.Steps(tx.Batches(n, 1), tx.Commit, tx.Reopen), b, b}
		})
		add(tx.Quads([][3]int{{0, 4, 5}, {4, 8, 253}, {3, 253, 9}}, []byte{0x00, 0xff}), []int{-1}, false, true, func(n int) [][]tx.Step {
			return [][]tx.Step{tx.Steps(tx.Batches(n, 1), tx.Nothing, tx.Reopen), tx.Steps(tx.Batches(n, 1), tx.Nothing)}
		})
	}
	r.Parallel("histories", len(jobs), func(i int) {
		j := jobs[i]
		tx.Histories(j.steps, func(h tx.History) bool {
			if r.Stop() || r.Expired("histories") {
				return false
			}
			key := fmt.Sprintf("%s cache=%d atomic=%v %s", j.g.Name, j.cache, j.atomic, h)
			run := func() (*tx.Sys, error) {
				s, err := tx.Open(&j.g, j.cache)
				if err != nil {
					return nil, err
				}
				s.Atomic = j.atomic
				for k, st := range h {
					if err := s.Step(st); err != nil {
						return nil, fmt.Errorf("step %d: %w", k, err)
					}
				}
				return s, nil
			}
			writes := 0
			ok := r.Case(key+" commit", nil, func() error {
				s, err := run()
				if err != nil {
					return err
				}
				s.Store.Writes = 0
				if err := s.Commit(); err != nil {
					return err
				}
				writes = s.Store.Writes
				if err := readable(s.Store, s.CRoot, &j.g, s.Content); err != nil {
					return fmt.Errorf("after a successful commit: %w", err)
				}
				if err := warm(s.Store, s.CRoot, &j.g, s.Content); err != nil {
					return fmt.Errorf("after a successful commit: %w", err)
				}
				return update(s.Store, s.CRoot, &j.g, s.Content)
			})
			if !ok || !j.faults {
				return true
			}
			r.AddExtra("write_operations_enumerated", int64(writes))
			for n := 1; n <= writes; n++ {
				for mode := 0; mode < 3; mode++ { // 0: op n fails cleanly, 1: crash before op n, 2: fails after being applied
					r.Distinct.Add(1)
					r.Case(fmt.Sprintf("%s commit fault=%d mode=%d", key, n, mode), nil, func() error {
						return faulty(run, &j.g, n, mode)
					})
				}
			}
			if h[len(h)-2].After == tx.Reopen && untouched(h[len(h)-1].Set) {
				readFaults(r, key, run, &j.g)
			}
			return true
		})
	})
	r.Finish()
}

// untouched: only one key is touched (the read faults do not depend on how the version was reached).
func untouched(set []int) bool {
	n := 0
	for _, v := range set {
		if v >= 0 {
			n++
		}
	}
	return n == 1
}

func open(st *tx.Store, root []byte) (*trie.Trie, error) {
	if len(root) == 0 {
		root = nil
	}
	return tx.OpenAt(st, append([]byte(nil), root...))
}

// readable: a tree opened at root has exactly the contents, and can prove all of them.
func readable(st *tx.Store, root []byte, g *tx.Geometry, content []int) error {
	st.FailW, st.FailR = 0, 0
	if len(root) == 0 {
		root = nil
	}
	t, err := open(st, root)
	if err != nil {
		return err
	}
	if err := tx.CheckReads(t, g, content); err != nil {
		return err
	}
	for n, k := range g.Keys {
		ap, inc, pk, pv, err := t.MerkleProof(tx.Ctx, k)
		if err != nil {
			return fmt.Errorf("proof of key %d: %w", n, err)
		}
		if inc != (content[n] != 0) {
			return fmt.Errorf("proof of key %d says included=%v", n, inc)
		}
		if inc && !trie.VerifyInclusion(root, ap, k, pv) || !inc && !trie.VerifyNonInclusion(root, ap, k, pv, pk) {
			return fmt.Errorf("proof of key %d does not verify", n)
		}
	}
	return nil
}

func warm(st *tx.Store, root []byte, g *tx.Geometry, content []int) error {
	t, err := open(st, root)
	if err != nil {
		return err
	}
	t.CacheHeightLimit = 0
	if err := t.LoadCache(tx.Ctx, t.Root); err != nil {
		return fmt.Errorf("LoadCache: %w", err)
	}
	return tx.CheckReads(t, g, content)
}

// update: overwrite everything on a reopened tree, commit, read back.
func update(st *tx.Store, root []byte, g *tx.Geometry, content []int) error {
	st = st.Clone()
	t, err := open(st, root)
	if err != nil {
		return err
	}
	next := make([]int, len(content))
	var ks, vs [][]byte
	for i, v := range content {
		next[i] = (v + 1) % 3
		ks = append(ks, append([]byte{}, g.Keys[i]...))
		vs = append(vs, tx.Val(next[i]))
	}
	if _, err := t.Update(tx.Ctx, ks, vs); err != nil {
		return fmt.Errorf("update of the reopened tree: %w", err)
	}
	if err := t.Commit(tx.Ctx); err != nil {
		return err
	}
	if err := readable(st, t.Root, g, next); err != nil {
		return fmt.Errorf("after updating the reopened tree: %w", err)
	}
	return nil
}

func faulty(run func() (*tx.Sys, error), g *tx.Geometry, n, mode int) error {
	s, err := run()
	if err != nil {
		return err
	}
	newRoot := append([]byte{}, s.T.Root...)
	newContent := append([]int{}, s.Content...)
	oldRoot, oldContent := s.CRoot, s.Committed
	s.Store.Writes = 0
	s.Store.FailW = n
	s.Store.Partial = 0
	if mode == 2 {
		s.Store.Partial = 1 << 30
	}
	err = s.T.Commit(tx.Ctx)
	s.Store.FailW = 0
	if mode != 1 {
		if err == nil {
			return fmt.Errorf("the storage failed but Commit reported success")
		}
		if !errors.Is(err, tx.ErrInjected) {
			return fmt.Errorf("Commit reported %v instead of the storage error", err)
		}
	}
	snapshot := s.Store.Clone()
	eo := readable(s.Store.Clone(), oldRoot, g, oldContent)
	en := readable(s.Store.Clone(), newRoot, g, newContent)
	if eo != nil && en != nil {
		return fmt.Errorf("neither the previous nor the new version is readable: previous: %v; new: %v", eo, en)
	}
	if mode == 0 {
		// repeat the commit on the same tree: success must mean durable
		if err := s.T.Commit(tx.Ctx); err == nil {
			if err := readable(s.Store.Clone(), newRoot, g, newContent); err != nil {
				return fmt.Errorf("the repeated Commit succeeded, but: %w", err)
			}
		}
	}
	if eo == nil {
		// run the same update again, from the previous version
		t, err := open(snapshot, oldRoot)
		if err != nil {
			return err
		}
		var ks, vs [][]byte
		for i := range newContent {
			ks = append(ks, append([]byte{}, g.Keys[i]...))
			vs = append(vs, tx.Val(newContent[i]))
		}
		if _, err := t.Update(tx.Ctx, ks, vs); err != nil {
			return fmt.Errorf("re-run of the update: %w", err)
		}
		if !bytes.Equal(t.Root, newRoot) {
			return fmt.Errorf("re-run of the update has root %x instead of %x", t.Root, newRoot)
		}
		if err := t.Commit(tx.Ctx); err != nil {
			return err
		}
		if err := readable(snapshot, t.Root, g, newContent); err != nil {
			return fmt.Errorf("after the re-run: %w", err)
		}
	}
	return nil
}

// readFaults: an error of any storage read is reported by the operation that needed it.
func readFaults(r *core.Run, key string, run func() (*tx.Sys, error), g *tx.Geometry) {
	s, err := run()
	if err != nil || s.Commit() != nil {
		return
	}
	root := append([]byte{}, s.CRoot...)
	if len(root) == 0 {
		return
	}
	content := s.Content
	ops := map[string]func(t *trie.Trie) error{
		"Get": func(t *trie.Trie) error {
			_, err := t.Get(tx.Ctx, g.Keys[0])
			return err
		},
		"MerkleProof": func(t *trie.Trie) error { _, _, _, _, err := t.MerkleProof(tx.Ctx, g.Keys[0]); return err },
		"MerkleProofCompressed": func(t *trie.Trie) error {
			_, _, _, _, _, _, err := t.MerkleProofCompressed(tx.Ctx, g.Keys[0])
			return err
		},
		"LoadCache": func(t *trie.Trie) error { t.CacheHeightLimit = 0; return t.LoadCache(tx.Ctx, root) },
		"Update": func(t *trie.Trie) error {
			var ks, vs [][]byte
			for i, k := range g.Keys {
				ks = append(ks, append([]byte{}, k...))
				vs = append(vs, tx.Val((content[i]+1)%3))
			}
			_, err := t.Update(tx.Ctx, ks, vs)
			return err
		},
	}
	for name, op := range ops {
		st := s.Store.Clone()
		t, err := open(st, root)
		if err != nil {
			return
		}
		if err := op(t); err != nil {
			continue // reported by the fault-free cases
		}
		reads := min(st.Reads, 2) // LoadCache reads concurrently; the first few suffice
		if name != "LoadCache" {
			reads = st.Reads
		}
		for n := 1; n <= reads; n++ {
			r.Distinct.Add(1)
			r.Case(fmt.Sprintf("%s %s read-fault=%d", key, name, n), nil, func() error {
				st := s.Store.Clone()
				t, err := open(st, root)
				if err != nil {
					return err
				}
				st.FailR = n
				if err := op(t); err == nil {
					return fmt.Errorf("%s succeeded although a storage read failed", name)
				}
				if name == "Update" {
					if !bytes.Equal(t.Root, root) {
						return fmt.Errorf("a failed Update changed the root")
					}
				}
				st.FailR = 0
				return readable(st, root, g, content)
			})
		}
	}
	// a node missing from the store is an error, never an absent key
	for _, k := range sortedKeys(s.Store) {
		r.Case(fmt.Sprintf("%s missing-node %x", key, k[:4]), nil, func() error {
			st := s.Store.Clone()
			delete(st.M, k)
			t, err := open(st, root)
			if err != nil {
				return err
			}
			for i, key := range g.Keys {
				v, err := t.Get(tx.Ctx, key)
				if err == nil && content[i] != 0 && !bytes.Equal(v, tx.Val(content[i])) {
					return fmt.Errorf("node %x is missing and key %d reads as %x without an error", k, i, v)
				}
			}
			return nil
		})
	}
}

func sortedKeys(s *tx.Store) (l []common.SHA256Output) {
	for k := range s.M {
		l = append(l, k)
	}
	return
}
