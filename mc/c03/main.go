// C03: no Merkle proof verifies for a false statement.
package main

import (
	"bytes"
	"fmt"
	"sync/atomic"

	"github.com/netsec-ethz/fpki/pkg/common"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/verifmc/core"
	tx "github.com/netsec-ethz/fpki/verifmc/triex"
)

func cp(b []byte) []byte { return append([]byte{}, b...) }
func cat(l ...[]byte) []byte {
	var r []byte
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

// world is a tree whose contents are known.
type world struct {
	name    string
	t       *trie.Trie
	root    []byte
	keys    [][]byte // present
	values  [][]byte
	absent  [][]byte
	preims  [][]byte // hash inputs of the nodes of the tree
	paths   [][][]byte
	pathsOf []string
	ambig   atomic.Bool
}

func (w *world) lookup(k []byte) ([]byte, bool) {
	for i, x := range w.keys {
		if bytes.Equal(x, k) {
			return w.values[i], true
		}
	}
	return nil, false
}

func build(name string, keys, values, absent [][]byte) (*world, error) {
	w := &world{name: name, keys: keys, values: values, absent: absent}
	st := tx.NewStore()
	t, err := trie.NewTrie(nil, common.SHA256Hash, st)
	if err != nil {
		return nil, err
	}
	var ks, vs [][]byte
	for i := range keys {
		ks = append(ks, cp(keys[i]))
		vs = append(vs, cp(values[i]))
	}
	if _, err := t.Update(tx.Ctx, ks, vs); err != nil {
		return nil, err
	}
	if err := t.Commit(tx.Ctx); err != nil {
		return nil, err
	}
	w.t, w.root = t, cp(t.Root)
	for i, k := range append(append([][]byte{}, keys...), absent...) {
		ap, _, _, _, err := t.MerkleProof(tx.Ctx, k)
		if err != nil {
			return nil, err
		}
		w.paths = append(w.paths, ap)
		w.pathsOf = append(w.pathsOf, fmt.Sprintf("path of key %d", i))
		// reconstruct the hash inputs along the path of present keys
		if i < len(keys) {
			w.collect(keys[i], values[i], ap)
		}
	}
	return w, nil
}

func bit(k []byte, i int) bool { return k[i/8]&(1<<uint(7-i%8)) != 0 }

func (w *world) collect(k, v []byte, ap [][]byte) {
	pre := cat(k, v, []byte{byte(256 - len(ap))})
	w.preims = append(w.preims, pre)
	h := common.SHA256Hash(pre)
	for i := len(ap) - 1; i >= 0; i-- {
		sib := ap[len(ap)-1-i]
		if bit(k, i) {
			pre = cat(sib, h)
		} else {
			pre = cat(h, sib)
		}
		w.preims = append(w.preims, pre)
		h = common.SHA256Hash(pre)
	}
	if !bytes.Equal(h, w.root) {
		w.preims = nil // the hash scheme is another one: no preimages to re-split
	}
}

// checkIncl / checkAbs: the verdict of the verifier must imply the truth.
func (w *world) checkIncl(ap [][]byte, k, v []byte) error {
	if trie.VerifyInclusion(cp(w.root), ap, k, v) {
		if tv, ok := w.lookup(k); !ok || !bytes.Equal(tv, v) {
			return fmt.Errorf("presence of key %x value %x verifies (path length %d), but the tree holds (%v, %x)", k, v, len(ap), ok, tv)
		}
	}
	return nil
}

func (w *world) checkAbs(ap [][]byte, k, v, pk []byte) error {
	if trie.VerifyNonInclusion(cp(w.root), ap, k, v, pk) {
		if _, ok := w.lookup(k); ok && len(pk) == 0 && len(ap) > 0 && w.ambiguous(ap[0]) {
			w.ambig.Store(true)
		} else if ok {
			return fmt.Errorf("absence of the present key %x verifies (path length %d, proof key %x, value %x)", k, len(ap), pk, v)
		}
	}
	return nil
}

func (w *world) checkC(bitmap []byte, ap [][]byte, length int, k, v, pk []byte) error {
	if w.t.VerifyInclusionC(bitmap, k, v, ap, length) {
		if tv, ok := w.lookup(k); !ok || !bytes.Equal(tv, v) {
			return fmt.Errorf("compressed presence of key %x value %x verifies, but the tree holds (%v, %x)", k, v, ok, tv)
		}
	}
	if w.t.VerifyNonInclusionC(ap, length, bitmap, k, v, pk) {
		if _, ok := w.lookup(k); ok && len(pk) == 0 && len(ap) > 0 && w.ambiguous(ap[0]) {
			w.ambig.Store(true)
		} else if ok {
			return fmt.Errorf("compressed absence of the present key %x verifies (proof key %x, value %x)", k, pk, v)
		}
	}
	return nil
}

func (w *world) checkProver(ap [][]byte, name string, id, val [32]byte, certIDs []byte, pt mapCommon.ProofType, pk, pv []byte) error {
	resp := &mapCommon.MapServerResponse{
		DomainEntry: &mapCommon.DomainEntry{DomainName: name, DomainID: id, DomainValue: val, CertIDs: certIDs},
		PoI:         mapCommon.PoI{ProofType: pt, Proof: ap, Root: cp(w.root), ProofKey: pk, ProofValue: pv},
	}
	got, ok, err := prover.VerifyProofByDomain(resp)
	if err != nil || !ok {
		return nil
	}
	tid := common.SHA256Hash([]byte(name))
	tv, present := w.lookup(tid)
	if got == mapCommon.PoP {
		if !present || !bytes.Equal(tv, common.SHA256Hash(certIDs)) {
			return fmt.Errorf("the client accepts the entry %x for %q, but the tree holds (%v, %x)", certIDs, name, present, tv)
		}
	} else if present {
		return fmt.Errorf("the client accepts the absence of %q, which is present", name)
	}
	return nil
}

// ambiguous recognizes the one ambiguity that is inherent in the hash scheme (known finding): the
// input 0x00||r of a node with an empty left child, with r ending in 0x00, is also y||0x00.
func (w *world) ambiguous(y []byte) bool {
	for _, p := range w.preims {
		if len(p) == 33 && p[0] == 0 && p[32] == 0 && (bytes.Equal(p[:32], y) || bytes.Equal(p[1:], y)) {
			return true
		}
	}
	return false
}

// splits returns sub-slices used as forged path elements, keys and values.
func splits(b []byte) (res [][]byte) {
	for _, n := range []int{1, 31, 32, 33, 63, 64} {
		if n < len(b) {
			res = append(res, b[:n], b[n:])
		}
	}
	return append(res, b)
}

func main() {
	r := core.Start("C03", "exploration")
	r.Rule = "one case = one (tree contents, proof obtained from the honest proofs by up to two structural edits, claimed statement); non-trivial = the proof differs from the honest one for the statement or the statement is false"
	var worlds []*world
	mk := func(name string, keys, values, absent [][]byte) {
		w, err := build(name, keys, values, absent)
		if err != nil {
			r.InternalError("%s: %v", name, err)
			return
		}
		worlds = append(worlds, w)
	}
	geoms := tx.Triples([]int{0, 1, 4, 9}, []byte{0x00, 0xff})
	if r.Thorough() {
		geoms = tx.Triples([]int{0, 1, 2, 3, 4, 5, 8, 9, 16, 253}, []byte{0x00, 0xff, 0x5a})
	}
	for _, g := range geoms {
		for mask := 1; mask < 8; mask++ {
			var ks, vs, abs [][]byte
			for i, k := range g.Keys {
				if mask&(1<<i) != 0 {
					ks = append(ks, k)
					vs = append(vs, common.SHA256Hash([]byte{byte(i)}))
				} else {
					abs = append(abs, k)
				}
			}
			abs = append(abs, g.Probes[:min(4, len(g.Probes))]...)
			mk(fmt.Sprintf("%s mask=%d", g.Name, mask), ks, vs, abs)
		}
	}
	// contents ground so that hashes start or end with the byte of an empty subtree
	worlds = append(worlds, ground(r)...)
	r.Extra("trees", len(worlds))

	r.Parallel("trees", len(worlds), func(i int) { explore(r, worlds[i]) })
	for _, w := range worlds {
		if w.ambig.Load() {
			r.Violation("empty-sibling-ambiguity", w.name+": absence of a present key verifies: the input of a node with an empty child is read with the child on the other side", nil)
		}
	}
	domains(r)
	r.Finish()
}

// edits calls f with all proofs obtained from path by one structural edit.
func (w *world) edits(path [][]byte, f func(name string, ap [][]byte)) {
	clone := func() [][]byte { return append([][]byte{}, path...) }
	f("honest", path)
	pool := [][]byte{{}, {0}, {0, 0}, make([]byte, 32), w.root}
	for _, p := range w.preims {
		pool = append(pool, splits(p)...)
		pool = append(pool, common.SHA256Hash(p))
	}
	for _, x := range path {
		pool = append(pool, x)
		if len(x) == 32 {
			pool = append(pool, x[:31], cat(x, []byte{0}))
		}
	}
	uniq := map[string]bool{}
	var elems [][]byte
	for _, p := range pool {
		if !uniq[string(p)] {
			uniq[string(p)] = true
			elems = append(elems, p)
		}
	}
	for i := range path {
		a := clone()
		f(fmt.Sprintf("drop %d", i), append(a[:i:i], a[i+1:]...))
		f(fmt.Sprintf("cut-low %d", i), clone()[i+1:])
		f(fmt.Sprintf("cut-high %d", i), clone()[:i])
		if i > 0 {
			a := clone()
			a[i], a[i-1] = a[i-1], a[i]
			f(fmt.Sprintf("swap %d", i), a)
		}
	}
	for n, e := range elems {
		for i := 0; i <= len(path); i++ {
			a := clone()
			a = append(a[:i:i], append([][]byte{e}, path[i:]...)...)
			f(fmt.Sprintf("insert elem%d at %d", n, i), a)
			if i < len(path) {
				a := clone()
				a[i] = e
				f(fmt.Sprintf("set elem%d at %d", n, i), a)
				// replace everything below as well
				f(fmt.Sprintf("set elem%d at %d and cut below", n, i), a[i:])
			}
		}
	}
	if len(path) < 240 {
		for _, n := range []int{256, 257} {
			a := clone()
			for len(a) < n {
				a = append([][]byte{{0}}, a...)
			}
			f(fmt.Sprintf("pad to %d", n), a)
		}
	}
}

func explore(r *core.Run, w *world) {
	// claims
	var claimKeys [][]byte
	for i, k := range w.keys {
		claimKeys = append(claimKeys, k, k[:31], cat(k, w.values[i][:1]), cat(k, []byte{0}))
	}
	claimKeys = append(claimKeys, w.absent...)
	claimKeys = append(claimKeys, []byte{})
	type leaf struct{ k, v []byte }
	var leaves []leaf
	for i, k := range w.keys {
		v := w.values[i]
		leaves = append(leaves, leaf{k, v}, leaf{k[:31], cat(k[31:], v)}, leaf{cat(k, v[:1]), v[1:]}, leaf{nil, cat(k, v)}, leaf{cat(k, v), nil},
			leaf{k, cat(v, []byte{0})}, leaf{k, v[:31]})
		// another key whose leaf would have the same input except for the key's last bits
		k2 := cp(k)
		k2[31] ^= 1
		leaves = append(leaves, leaf{k2, v})
	}
	for _, k := range w.absent {
		leaves = append(leaves, leaf{k, w.values[0]})
	}
	for _, p := range w.preims {
		if len(p) == 64 { // interior node read as a leaf
			leaves = append(leaves, leaf{p[:32], p[32:63]}, leaf{p[:31], p[31:63]}, leaf{p[:32], p[32:]})
		}
		if len(p) == 33 {
			leaves = append(leaves, leaf{p[:32], nil}, leaf{p[:16], p[16:32]})
		}
	}
	leaves = append(leaves, leaf{nil, nil}, leaf{[]byte{}, trie.DefaultLeaf})
	one := func(name string, ap [][]byte) {
		if r.Stop() || r.Expired("edits") {
			return
		}
		// presence
		r.Case(fmt.Sprintf("%s / %s / claims", w.name, name), nil, func() error {
			for _, l := range leaves {
				if err := w.checkIncl(ap, l.k, l.v); err != nil {
					return err
				}
			}
			for _, k := range claimKeys {
				for _, l := range leaves {
					if err := w.checkAbs(ap, k, l.v, l.k); err != nil {
						return err
					}
				}
			}
			return nil
		})
		n := int64(len(leaves) * (1 + len(claimKeys)))
		r.Distinct.Add(1)
		r.AddExtra("verifications", n)
	}
	for i, p := range w.paths {
		w.edits(p, func(name string, ap [][]byte) { one(w.pathsOf[i]+" "+name, ap) })
		if r.Thorough() && len(p) <= 3 {
			w.edits(p, func(n1 string, a1 [][]byte) {
				if len(a1) <= 4 {
					w.edits(a1, func(n2 string, a2 [][]byte) { one(w.pathsOf[i]+" "+n1+" + "+n2, a2) })
				}
			})
		}
	}
	// compressed proofs: bitmap bit flips, length changes, dropped or inserted elements
	for _, key := range append(append([][]byte{}, w.keys...), w.absent...) {
		bm, ap, length, _, _, _, err := w.t.MerkleProofCompressed(tx.Ctx, key)
		if err != nil {
			continue
		}
		try := func(name string, bm []byte, ap [][]byte, length int) {
			r.Distinct.Add(1)
			r.Case(fmt.Sprintf("%s / compressed %s", w.name, name), nil, func() error {
				for _, k := range claimKeys {
					for _, l := range leaves {
						if err := w.checkC(bm, ap, length, k, l.v, l.k); err != nil {
							return err
						}
					}
				}
				for _, l := range leaves {
					if err := w.checkC(bm, ap, length, l.k, l.v, nil); err != nil {
						return err
					}
				}
				return nil
			})
		}
		try("honest", bm, ap, length)
		for d := -2; d <= 2; d++ {
			try(fmt.Sprintf("length%+d", d), bm, ap, length+d)
		}
		try("length 257", bm, ap, 257)
		try("no bitmap", nil, ap, length)
		for b := 0; b < min(length+2, len(bm)*8); b++ {
			c := cp(bm)
			c[b/8] ^= 1 << uint(7-b%8)
			try(fmt.Sprintf("flip bit %d", b), c, ap, length)
			if len(ap) > 0 {
				try(fmt.Sprintf("flip bit %d, drop", b), c, ap[1:], length)
				try(fmt.Sprintf("flip bit %d, dup", b), c, append([][]byte{ap[0]}, ap...), length)
			}
			try(fmt.Sprintf("flip bit %d, default", b), c, append([][]byte{{0}}, ap...), length)
		}
		for i := range ap {
			for _, p := range w.preims {
				for _, s := range splits(p) {
					a := append([][]byte{}, ap...)
					a[i] = s
					try(fmt.Sprintf("set %d", i), bm, a, length)
				}
			}
		}
	}
}

// ground builds trees whose node hashes start or end with a zero byte, so that a node input can be
// confused with a node that has an empty child.
func ground(r *core.Run) (res []*world) {
	a := make([]byte, 32)
	flip := func(k []byte, bits ...int) []byte {
		c := cp(k)
		for _, b := range bits {
			c[b/8] ^= 1 << uint(7-b%8)
		}
		return c
	}
	// two keys on different sides: interior input l||r with l[0]==0 or r[31]==0
	for side := 0; side < 2; side++ {
		for n := 0; n < 1<<16; n++ {
			v1 := common.SHA256Hash([]byte("ground"), []byte{byte(n >> 8), byte(n)})
			v2 := common.SHA256Hash([]byte("other"))
			if side == 1 {
				v1, v2 = v2, v1
			}
			k1, k2 := flip(a, 5), flip(a, 0, 9)
			l := common.SHA256Hash(k1, v1, []byte{255})
			rr := common.SHA256Hash(k2, v2, []byte{255})
			if side == 0 && l[0] == 0 || side == 1 && rr[31] == 0 {
				w, err := build(fmt.Sprintf("ground-interior-%d", side), [][]byte{k1, k2}, [][]byte{v1, v2}, [][]byte{a, flip(a, 0)})
				if err == nil {
					res = append(res, w)
				}
				break
			}
		}
	}
	// an interior node whose last byte looks like a leaf height
	for n := 0; n < 1<<16; n++ {
		v1 := common.SHA256Hash([]byte("other"))
		v2 := common.SHA256Hash([]byte("ground"), []byte{byte(n >> 8), byte(n)})
		k1, k2 := flip(a, 5), flip(a, 0, 9)
		rr := common.SHA256Hash(k2, v2, []byte{255})
		if rr[31] == 0 { // height 256 of a leaf at the root
			w, err := build("ground-leaf-height", [][]byte{k1, k2}, [][]byte{v1, v2}, [][]byte{a})
			if err == nil {
				res = append(res, w)
			}
			break
		}
	}
	// an empty left (right) subtree whose sibling hash ends (starts) with zero
	for side := 0; side < 2; side++ {
		for n := 0; n < 1<<18; n++ {
			v1 := common.SHA256Hash([]byte("ground"), []byte{byte(n >> 16), byte(n >> 8), byte(n)})
			v2 := common.SHA256Hash([]byte("other"))
			var k1, k2 []byte
			if side == 0 {
				k1, k2 = flip(a, 0), flip(a, 0, 1)
			} else {
				k1, k2 = a, flip(a, 1)
			}
			l := common.SHA256Hash(k1, v1, []byte{254})
			rr := common.SHA256Hash(k2, v2, []byte{254})
			h := common.SHA256Hash(l, rr)
			if side == 0 && h[31] == 0 || side == 1 && h[0] == 0 {
				w, err := build(fmt.Sprintf("ground-empty-%d", side), [][]byte{k1, k2}, [][]byte{v1, v2}, [][]byte{flip(k1, 0)})
				if err == nil {
					res = append(res, w)
				}
				break
			}
		}
	}
	return
}

// domains: forgeries against the client's verification of a response.
func domains(r *core.Run) {
	names := []string{"a.com", "b.a.com", "c.com", "d.org"}
	id := func(n string) (o [32]byte) { copy(o[:], common.SHA256Hash([]byte(n))); return }
	certs := func(n string) []byte { return common.SHA256Hash([]byte("cert of " + n)) }
	for mask := 1; mask < 1<<len(names); mask++ {
		var ks, vs, abs [][]byte
		var present []string
		ids := map[string]string{}
		for i, n := range names {
			x := id(n)
			ids[string(x[:])] = n
			if mask&(1<<i) != 0 {
				present = append(present, n)
				ks = append(ks, x[:])
			} else {
				abs = append(abs, x[:])
			}
		}
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				if bytes.Compare(ks[j], ks[i]) < 0 {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		for _, k := range ks {
			vs = append(vs, common.SHA256Hash(certs(ids[string(k)])))
		}
		w, err := build(fmt.Sprintf("domains mask=%d", mask), ks, vs, abs)
		if err != nil {
			r.InternalError("%v", err)
			return
		}
		var vals [][]byte
		for _, n := range names {
			vals = append(vals, common.SHA256Hash(certs(n)))
		}
		for pi, p := range w.paths {
			for _, name := range names {
				for _, idn := range names {
					for vi, v := range vals {
						for _, cn := range names {
							for _, pt := range []mapCommon.ProofType{mapCommon.PoA, mapCommon.PoP, 7} {
								for _, pkn := range append([]string{""}, names...) {
									var pk []byte
									if pkn != "" {
										x := id(pkn)
										pk = x[:]
									}
									if r.Stop() || r.Expired("responses") {
										return
									}
									r.Distinct.Add(1)
									key := fmt.Sprintf("%s / response name=%s id=%s value#%d certs=%s type=%d proofKey=%s path=%d", w.name, name, idn, vi, cn, pt, pkn, pi)
									r.Case(key, nil, func() error {
										return w.checkProver(p, name, id(idn), [32]byte(v), certs(cn), pt, pk, v)
									})
								}
							}
						}
					}
				}
			}
		}
	}
}
