// C02: every key has a correct Merkle proof of presence or absence.
package main

import (
	"bytes"
	"fmt"

	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/verifmc/core"
	tx "github.com/netsec-ethz/fpki/verifmc/triex"
)

func main() {
	r := core.Start("C02", "exploration")
	r.Rule = "one case = one (key geometry, cache setting, history of batches with commit/reopen); after it, plain and compressed proofs of every key and probe key are requested at the current root (and at the last committed root) and verified; non-trivial = distinct (geometry, contents) with at least one key present"
	bits := []int{0, 3, 4, 8, 253}
	type job struct {
		g     tx.Geometry
		steps [][]tx.Step
		cache int
	}
	var jobs []job
	add := func(gs []tx.Geometry, cache []int, mk func(n int) [][]tx.Step) {
		for _, g := range gs {
			st := mk(len(g.Keys))
			for _, c := range cache {
				for k := 0; k < len(st[0]); k += 8 {
					jobs = append(jobs, job{g, append([][]tx.Step{st[0][k:min(k+8, len(st[0]))]}, st[1:]...), c})
				}
			}
		}
	}
	one := func(n int) [][]tx.Step { return [][]tx.Step{tx.Steps(tx.Batches(n, 1), tx.Nothing, tx.Reopen)} }
	two := func(n int) [][]tx.Step {
		return [][]tx.Step{tx.Steps(tx.Batches(n, 1), tx.Nothing, tx.Commit, tx.Reopen), tx.Steps(tx.Batches(n, 2), tx.Nothing, tx.Reopen)}
	}
	more := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 100, 247, 248, 251, 252, 253}
	add(tx.Triples(more, []byte{0x00, 0xff, 0x5a}), []int{-1, 0}, one)
	add(tx.Triples(bits, []byte{0x00, 0xff}), []int{-1}, two)
	add(tx.Quads([][3]int{{0, 4, 5}, {4, 8, 253}, {3, 253, 9}}, []byte{0x00, 0xaa}), []int{-1, 0}, one)
	if r.Thorough() {
		add(tx.Triples(more, []byte{0x00, 0xff}), []int{-1, 0}, two)
		add(tx.Quads([][3]int{{0, 4, 5}, {4, 8, 253}, {3, 253, 9}, {1, 2, 3}, {7, 8, 9}}, []byte{0x00, 0xff}), []int{-1}, two)
	}
	r.Parallel("histories", len(jobs), func(i int) {
		j := jobs[i]
		tx.Histories(j.steps, func(h tx.History) bool {
			if r.Stop() || r.Expired("histories") {
				return false
			}
			key := fmt.Sprintf("%s cache=%d %s", j.g.Name, j.cache, h)
			r.Case(key, nil, func() error {
				s, err := tx.Open(&j.g, j.cache)
				if err != nil {
					return err
				}
				for k, st := range h {
					if err := s.Step(st); err != nil {
						return fmt.Errorf("step %d: %w", k, err)
					}
				}
				for _, v := range s.Content {
					if v > 0 {
						if r.First(j.g.Name + tx.ContentKey(s.Content)) {
							r.Distinct.Add(1)
						}
						break
					}
				}
				if err := proofs(s.T, s.T.Root, &j.g, s.Content); err != nil {
					return err
				}
				// the last committed version stays provable by root, if it is still stored
				if h[0].After != tx.Nothing && h[len(h)-1].After == tx.Nothing && len(s.CRoot) > 0 {
					t2, err := tx.OpenAt(s.Store, s.CRoot)
					if err != nil {
						return err
					}
					if err := proofs(t2, s.CRoot, &j.g, s.Committed); err != nil {
						return fmt.Errorf("committed version: %w", err)
					}
					if err := proofsR(t2, s.CRoot, &j.g, s.Committed); err != nil {
						return fmt.Errorf("committed version by root: %w", err)
					}
					// asked from trees whose own root is another one
					if err := proofsRV(s.T, t2, s.CRoot, &j.g, s.Committed); err != nil {
						return fmt.Errorf("committed version by root, from the tree with later changes: %w", err)
					}
					t3, err := tx.OpenAt(s.Store, nil)
					if err != nil {
						return err
					}
					if err := proofsRV(t3, t2, s.CRoot, &j.g, s.Committed); err != nil {
						return fmt.Errorf("committed version by root, from an empty tree: %w", err)
					}
				}
				return nil
			})
			return true
		})
	})
	r.Finish()
}

type proof struct {
	ap                   [][]byte
	included             bool
	proofKey, proofValue []byte
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

func proofs(t *trie.Trie, root []byte, g *tx.Geometry, content []int) error {
	for n, k := range append(append([][]byte{}, g.Keys...), g.Probes...) {
		want := 0
		if n < len(g.Keys) {
			want = content[n]
		}
		ap, inc, pk, pv, err := t.MerkleProof(tx.Ctx, cp(k))
		if err != nil {
			return fmt.Errorf("MerkleProof(key %d): %w", n, err)
		}
		if err := checkPlain(root, k, want, ap, inc, pk, pv); err != nil {
			return fmt.Errorf("plain proof of key %d: %w", n, err)
		}
		bitmap, apc, length, inc, pk, pv, err := t.MerkleProofCompressed(tx.Ctx, cp(k))
		if err != nil {
			return fmt.Errorf("MerkleProofCompressed(key %d): %w", n, err)
		}
		if err := checkCompressed(t, k, want, bitmap, apc, length, inc, pk, pv); err != nil {
			return fmt.Errorf("compressed proof of key %d: %w", n, err)
		}
	}
	return nil
}

func proofsR(t *trie.Trie, root []byte, g *tx.Geometry, content []int) error {
	return proofsRV(t, t, root, g, content)
}

// proofsRV requests proofs at a root from t; the compressed ones are verified by v, a tree with that root.
func proofsRV(t, v *trie.Trie, root []byte, g *tx.Geometry, content []int) error {
	own := cp(t.Root)
	for n, k := range append(append([][]byte{}, g.Keys...), g.Probes...) {
		want := 0
		if n < len(g.Keys) {
			want = content[n]
		}
		ap, inc, pk, pv, err := t.MerkleProofR(tx.Ctx, cp(k), root)
		if err != nil {
			return fmt.Errorf("MerkleProofR(key %d): %w", n, err)
		}
		if err := checkPlain(root, k, want, ap, inc, pk, pv); err != nil {
			return fmt.Errorf("plain proof of key %d: %w", n, err)
		}
		bitmap, apc, length, inc, pk, pv, err := t.MerkleProofCompressedR(tx.Ctx, cp(k), root)
		if err != nil {
			return err
		}
		if err := checkCompressed(v, k, want, bitmap, apc, length, inc, pk, pv); err != nil {
			return fmt.Errorf("compressed proof of key %d: %w", n, err)
		}
	}
	if !bytes.Equal(t.Root, own) {
		return fmt.Errorf("requesting proofs changed the root of the tree")
	}
	return nil
}

func checkFlag(want int, inc bool, pv []byte) error {
	if inc != (want != 0) {
		return fmt.Errorf("inclusion flag %v, but the key's value is %d", inc, want)
	}
	if inc && !bytes.Equal(pv, tx.Val(want)) {
		return fmt.Errorf("proof carries value %x, stored value is %x", pv, tx.Val(want))
	}
	return nil
}

func checkPlain(root, k []byte, want int, ap [][]byte, inc bool, pk, pv []byte) error {
	if err := checkFlag(want, inc, pv); err != nil {
		return err
	}
	if inc {
		if !trie.VerifyInclusion(root, ap, k, pv) {
			return fmt.Errorf("presence proof (path length %d) does not verify", len(ap))
		}
	} else if !trie.VerifyNonInclusion(root, ap, k, pv, pk) {
		return fmt.Errorf("absence proof (path length %d, proof key %x) does not verify", len(ap), pk)
	}
	return nil
}

func checkCompressed(t *trie.Trie, k []byte, want int, bitmap []byte, ap [][]byte, length int, inc bool, pk, pv []byte) error {
	if err := checkFlag(want, inc, pv); err != nil {
		return err
	}
	if inc {
		if !t.VerifyInclusionC(bitmap, k, pv, ap, length) {
			return fmt.Errorf("presence proof (length %d) does not verify", length)
		}
	} else if !t.VerifyNonInclusionC(ap, length, bitmap, k, pv, pk) {
		return fmt.Errorf("absence proof (length %d, proof key %x) does not verify", length, pk)
	}
	return nil
}
