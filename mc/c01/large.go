package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
	tx "github.com/netsec-ethz/fpki/verifmc/triex"
)

// large: batches with as many keys as it takes to update branches concurrently, against the definition of
// the root.
func large(r *core.Run) {
	hash := func(kind byte, i int) (h memdb.ID) {
		var b [9]byte
		b[0] = kind
		binary.BigEndian.PutUint64(b[1:], uint64(i))
		return sha256.Sum256(b[:])
	}
	shapes := map[string]func(id memdb.ID, i int) memdb.ID{
		"even": func(id memdb.ID, i int) memdb.ID { return id },
		"left": func(id memdb.ID, i int) memdb.ID { // all but a few in the left half
			if i%1000 != 7 {
				id[0] &= 0x7f
			}
			return id
		},
		"deep": func(id memdb.ID, i int) memdb.ID { // a long common beginning
			copy(id[:], "\xaa\xaa\xaa")
			return id
		},
	}
	next := map[string]func(i, n int) int{ // of the key i of n: 0 stays, 1 is deleted, 2 gets another value
		"every second deleted":      func(i, n int) int { return i % 2 },
		"all but one deleted":       func(i, n int) int { return min(i, 1) },
		"all deleted":               func(i, n int) int { return 1 },
		"all changed":               func(i, n int) int { return 2 },
		"few changed, most deleted": func(i, n int) int { return 1 + i%50/49 },
	}
	sizes := []int{4095, 4097, 9000}
	if r.Thorough() {
		sizes = append(sizes, 4096, 8191, 8192, 16384, 20000, 40000)
	}
	type job struct {
		n           int
		shape, then string
		fresh       bool // keys that are new in the second batch
	}
	var jobs []job
	for _, n := range sizes {
		for s := range shapes {
			for t := range next {
				for _, f := range []bool{false, true} {
					jobs = append(jobs, job{n, s, t, f})
				}
			}
		}
	}
	r.Parallel("large batches", len(jobs), func(k int) {
		j := jobs[k]
		r.Case(fmt.Sprintf("%d keys %s, then %s, new keys %v", j.n, j.shape, j.then, j.fresh), nil, func() error {
			st := tx.NewStore()
			t, err := trie.NewTrie(nil, common.SHA256Hash, st)
			if err != nil {
				return err
			}
			content := map[memdb.ID][]byte{}
			step := func(set map[memdb.ID][]byte) error {
				var ks, vs [][]byte
				for _, id := range memdb.SortedKeys(set) {
					v := set[id]
					ks = append(ks, append([]byte{}, id[:]...))
					if v == nil {
						delete(content, id)
						v = trie.DefaultLeaf
					} else {
						content[id] = v
					}
					vs = append(vs, append([]byte{}, v...))
				}
				root, err := t.Update(tx.Ctx, ks, vs)
				if err != nil {
					return err
				}
				if want := rootOf(content); !bytes.Equal(root, want) || !bytes.Equal(t.Root, want) {
					return fmt.Errorf("root %x for %d keys, expected %x", root, len(content), want)
				}
				return nil
			}
			reads := func(t *trie.Trie) error {
				for i := 0; i < j.n; i += max(1, j.n/100) {
					for _, kind := range []byte{0, 1, 2} {
						id := shapes[j.shape](hash(kind, i), i)
						v, err := t.Get(tx.Ctx, id[:])
						if err != nil {
							return err
						}
						if !bytes.Equal(v, content[id]) {
							return fmt.Errorf("value %x of %x, expected %x", v, id, content[id])
						}
					}
				}
				return nil
			}
			set := map[memdb.ID][]byte{}
			for i := 0; i < j.n; i++ {
				v := hash(10, i)
				set[shapes[j.shape](hash(0, i), i)] = v[:]
			}
			if err := step(set); err != nil {
				return fmt.Errorf("first batch: %w", err)
			}
			if err := t.Commit(tx.Ctx); err != nil {
				return err
			}
			if err := reads(t); err != nil {
				return err
			}
			set = map[memdb.ID][]byte{}
			for i := 0; i < j.n; i++ {
				id := shapes[j.shape](hash(0, i), i)
				switch next[j.then](i, j.n) {
				case 1:
					set[id] = nil
				case 2:
					v := hash(11, i)
					set[id] = v[:]
				}
				if j.fresh {
					v := hash(12, i)
					set[shapes[j.shape](hash(1, i), i)] = v[:]
				}
			}
			if err := step(set); err != nil {
				return fmt.Errorf("second batch: %w", err)
			}
			if err := reads(t); err != nil {
				return err
			}
			if err := t.Commit(tx.Ctx); err != nil {
				return err
			}
			if t, err = tx.OpenAt(st, t.Root); err != nil {
				return err
			}
			r.Distinct.Add(1)
			return reads(t)
		})
	})
}

// rootOf is the root of the tree that holds the values, by definition.
func rootOf(values map[memdb.ID][]byte) []byte {
	var rec func(k []memdb.ID, height int) []byte
	rec = func(k []memdb.ID, height int) []byte {
		switch len(k) {
		case 0:
			return trie.DefaultLeaf
		case 1:
			return common.SHA256Hash(k[0][:], values[k[0]], []byte{byte(height)})
		}
		bit, i := 256-height, 0
		for i < len(k) && k[i][bit/8]&(0x80>>(bit%8)) == 0 {
			i++
		}
		return common.SHA256Hash(rec(k[:i], height-1), rec(k[i:], height-1))
	}
	if len(values) == 0 {
		return nil
	}
	return rec(memdb.SortedKeys(values), 256)
}
