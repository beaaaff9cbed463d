// Command c13: verification of inclusion proofs, consistency proofs and log roots of the policy log.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"slices"

	"github.com/google/trillian"
	"github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/rfc"
)

// The reference follows the recursive definitions of RFC 6962, section 2.1.
var leafHash, node, split, mth, path = rfc.LeafHash, rfc.Node, rfc.Split, rfc.MTH, rfc.Path
var consistency, included, extends = rfc.Consistency, rfc.Included, rfc.Extends

func wantInclusion(index int64, size uint64, root, leaf []byte, p [][]byte) bool {
	if uint64(index) >= size || len(leaf) != 32 {
		return false
	}
	got := included(uint64(index), size, leaf, p)
	return got != nil && bytes.Equal(got, root)
}

func wantRoot(m, n uint64, r1, r2 []byte, p [][]byte) bool {
	switch {
	case m == 0:
		return true // nothing was trusted yet
	case m > n:
		return false
	case m == n:
		return len(p) == 0 && bytes.Equal(r1, r2)
	}
	a, b, ok := extends(m, n, true, r1, p)
	return ok && bytes.Equal(a, r1) && bytes.Equal(b, r2)
}

var verifier = logverifier.NewLogVerifier(nil)

func root(n uint64, h []byte) *types.LogRootV1 {
	return &types.LogRootV1{TreeSize: n, RootHash: h, TimestampNanos: 7, Revision: 3, Metadata: []byte{}}
}

func proofs(index int64, p [][]byte) []*trillian.Proof {
	return []*trillian.Proof{{LeafIndex: index, Hashes: p}}
}

func word(ok bool) string {
	if ok {
		return "accepted"
	}
	return "rejected"
}

func checkInclusion(what func() string, index int64, size uint64, rt, leaf []byte, p [][]byte, want bool) error {
	err := verifier.VerifyInclusionByHash(root(size, rt), leaf, proofs(index, p))
	if (err == nil) != want {
		return fmt.Errorf("inclusion of %s: index %d, size %d, %d hashes: %s (%v), expected %s", what(), index, size, len(p), word(err == nil), err, word(want))
	}
	return nil
}

func checkRoot(what func() string, m, n uint64, r1, r2 []byte, p [][]byte, want bool) error {
	next := root(n, r2)
	got, err := verifier.VerifyRoot(root(m, r1), next, p)
	if (err == nil) != want {
		return fmt.Errorf("log root of %s: sizes %d, %d, %d hashes: %s (%v), expected %s", what(), m, n, len(p), word(err == nil), err, word(want))
	}
	if err == nil && got != next || err != nil && got != nil {
		return fmt.Errorf("log root of %s: sizes %d, %d: returned %v with error %v", what(), m, n, got, err)
	}
	return nil
}

func flip(h []byte, i int) []byte {
	h = slices.Clone(h)
	h[i/8] ^= 1 << (i % 8)
	return h
}

type altered struct {
	name string
	p    [][]byte
}

// alterations are all single changes of a list of hashes.
func alterations(p [][]byte, foreign [][]byte) []altered {
	var out []altered
	add := func(name string, q [][]byte) { out = append(out, altered{name, q}) }
	with := func(i int, h []byte) [][]byte { q := slices.Clone(p); q[i] = h; return q }
	for i := range p {
		add(fmt.Sprintf("hash %d removed", i), slices.Delete(slices.Clone(p), i, i+1))
		add(fmt.Sprintf("hash %d twice", i), slices.Insert(slices.Clone(p), i, p[i]))
		for j := range i {
			q := slices.Clone(p)
			q[i], q[j] = q[j], q[i]
			add(fmt.Sprintf("hashes %d and %d swapped", j, i), q)
		}
		for _, b := range []int{0, 7, 100, 255} {
			add(fmt.Sprintf("hash %d with bit %d changed", i, b), with(i, flip(p[i], b)))
		}
		add(fmt.Sprintf("hash %d short", i), with(i, p[i][:31]))
		add(fmt.Sprintf("hash %d long", i), with(i, append(slices.Clone(p[i]), 0)))
		add(fmt.Sprintf("hash %d missing", i), with(i, nil))
		for j, f := range foreign {
			add(fmt.Sprintf("hash %d replaced by %d", i, j), with(i, f))
		}
	}
	for i := 0; i <= len(p); i++ {
		for j, f := range foreign {
			add(fmt.Sprintf("hash %d inserted at %d", j, i), slices.Insert(slices.Clone(p), i, f))
		}
		add(fmt.Sprintf("nothing inserted at %d", i), slices.Insert(slices.Clone(p), i, []byte(nil)))
	}
	return out
}

func equal(a, b [][]byte) bool { return slices.EqualFunc(a, b, bytes.Equal) }

func clone(p [][]byte) [][]byte {
	var out [][]byte
	for _, h := range p {
		out = append(out, slices.Clone(h))
	}
	return out
}

func logOf(n int) [][]byte {
	var out [][]byte
	for i := range n {
		out = append(out, leafHash(fmt.Sprintf("entry %d", i)))
	}
	return out
}

// inclusionCase checks the genuine proof of one entry and every alteration of it.
func inclusionCase(r *core.Run, n, i, top int) error {
	d := logOf(n)
	rt, p := mth(d), path(uint64(i), d)
	what := func(s string) func() string {
		return func() string { return fmt.Sprintf("entry %d of %d, %s", i, n, s) }
	}
	if !wantInclusion(int64(i), uint64(n), rt, d[i], p) {
		r.InternalError("the reference rejects its own proof for %d of %d", i, n)
	}
	kept, keptLeaf, keptRoot := clone(p), slices.Clone(d[i]), slices.Clone(rt)
	if err := checkInclusion(what("genuine"), int64(i), uint64(n), rt, d[i], p, true); err != nil {
		return err
	}
	if !equal(kept, p) || !bytes.Equal(keptLeaf, d[i]) || !bytes.Equal(keptRoot, rt) {
		return errors.New("verification changed its arguments")
	}
	count := int64(1)
	// Other positions and sizes.
	sizes := []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 + 1, 1 << 62, uint64(n) + 1<<32}
	for s := range top + 2 {
		sizes = append(sizes, uint64(s))
	}
	indices := []int64{-1, math.MinInt64, math.MaxInt64, int64(i) - 1<<32, int64(i) + 1<<32, 1 << 62, int64(i) ^ math.MinInt64}
	for s := range top + 2 {
		indices = append(indices, int64(s))
	}
	for _, s := range sizes {
		for _, x := range indices {
			want := wantInclusion(x, s, rt, d[i], p)
			if s == uint64(n) && want != (x == int64(i)) {
				r.InternalError("the reference accepts entry %d at %d of %d", i, x, n)
			}
			if err := checkInclusion(what("other position"), x, s, rt, d[i], p, want); err != nil {
				return err
			}
			count++
		}
	}
	// Other hashes.
	foreign := [][]byte{d[i], d[(i+1)%n], rt, leafHash("other"), mth(nil)}
	for _, a := range alterations(p, foreign) {
		if equal(a.p, p) {
			continue
		}
		if err := checkInclusion(what(a.name), int64(i), uint64(n), rt, d[i], a.p, false); err != nil {
			return err
		}
		count++
	}
	// Other entries and roots.
	leaves := [][]byte{nil, {}, d[i][:31], append(slices.Clone(d[i]), 0), leafHash("other"), mth(nil), make([]byte, 32)}
	for j := range d {
		if j != i {
			leaves = append(leaves, d[j])
		}
	}
	if n > 1 {
		leaves = append(leaves, rt)
		leaves = append(leaves, p...)
		leaves = append(leaves, node(d[0], d[1]))
	}
	for b := range 256 {
		leaves = append(leaves, flip(d[i], b))
	}
	for j, l := range leaves {
		if bytes.Equal(l, d[i]) {
			continue
		}
		if err := checkInclusion(what(fmt.Sprintf("entry replaced by %d", j)), int64(i), uint64(n), rt, l, p, false); err != nil {
			return err
		}
		count++
	}
	roots := [][]byte{nil, {}, rt[:31], append(slices.Clone(rt), 0), mth(nil), make([]byte, 32), mth(logOf(n + 1))}
	for b := range 256 {
		roots = append(roots, flip(rt, b))
	}
	for j, x := range roots {
		if err := checkInclusion(what(fmt.Sprintf("root replaced by %d", j)), int64(i), uint64(n), x, d[i], p, false); err != nil {
			return err
		}
		count++
	}
	r.Distinct.Add(count)
	r.Evaluations.Add(count)
	return nil
}

// rootCase checks the genuine consistency proof of two sizes and every alteration of it.
func rootCase(r *core.Run, m, n, top int) error {
	d := logOf(n)
	r1, r2 := mth(d[:m]), mth(d)
	var p [][]byte
	if m > 0 {
		p = consistency(uint64(m), d, true)
	}
	what := func(s string) func() string {
		return func() string { return fmt.Sprintf("%d to %d entries, %s", m, n, s) }
	}
	if !wantRoot(uint64(m), uint64(n), r1, r2, p) {
		r.InternalError("the reference rejects its own proof from %d to %d", m, n)
	}
	kept, k1, k2 := clone(p), slices.Clone(r1), slices.Clone(r2)
	if err := checkRoot(what("genuine"), uint64(m), uint64(n), r1, r2, p, true); err != nil {
		return err
	}
	if !equal(kept, p) || !bytes.Equal(k1, r1) || !bytes.Equal(k2, r2) {
		return errors.New("verification changed its arguments")
	}
	if m == 0 {
		r.Distinct.Add(1)
		return nil
	}
	count := int64(1)
	// The same proof the other way round and for other sizes.
	sizes := []uint64{math.MaxUint64, 1 << 63, 1<<63 + 1}
	for s := range top + 2 {
		sizes = append(sizes, uint64(s))
	}
	for _, a := range sizes {
		for _, b := range sizes {
			want := wantRoot(a, b, r1, r2, p)
			if err := checkRoot(what("other sizes"), a, b, r1, r2, p, want); err != nil {
				return err
			}
			count++
		}
	}
	if m != n {
		for _, x := range [][][]byte{p, nil} {
			if err := checkRoot(what("roots exchanged"), uint64(m), uint64(n), r2, r1, x, false); err != nil {
				return err
			}
			if err := checkRoot(what("the older root"), uint64(n), uint64(m), r2, r1, x, false); err != nil {
				return err
			}
		}
	}
	foreign := [][]byte{d[0], d[m-1], r1, r2, leafHash("other"), mth(nil)}
	for _, a := range append(alterations(p, foreign), altered{"no proof", nil}) {
		if equal(a.p, p) {
			continue
		}
		if err := checkRoot(what(a.name), uint64(m), uint64(n), r1, r2, a.p, false); err != nil {
			return err
		}
		count++
	}
	others := func(h []byte) [][]byte {
		out := [][]byte{nil, {}, h[:31], append(slices.Clone(h), 0), mth(nil), make([]byte, 32)}
		for b := range 256 {
			out = append(out, flip(h, b))
		}
		return out
	}
	for j, x := range others(r1) {
		if err := checkRoot(what(fmt.Sprintf("trusted root replaced by %d", j)), uint64(m), uint64(n), x, r2, p, false); err != nil {
			return err
		}
		count++
	}
	// A log that changed any of its first entries.
	for j := range m {
		e := slices.Clone(d)
		e[j] = leafHash("forged")
		q := consistency(uint64(m), e, true)
		for _, x := range [][][]byte{p, q} {
			if err := checkRoot(what(fmt.Sprintf("entry %d forged", j)), uint64(m), uint64(n), r1, mth(e), x, false); err != nil {
				return err
			}
			count++
		}
	}
	for j, x := range others(r2) {
		if err := checkRoot(what(fmt.Sprintf("new root replaced by %d", j)), uint64(m), uint64(n), r1, x, p, false); err != nil {
			return err
		}
		count++
	}
	r.Distinct.Add(count)
	r.Evaluations.Add(count)
	return nil
}

// logs are all logs of 1 to n entries over the letters x and y.
func logs(n int) []string {
	var out []string
	level := []string{""}
	for range n {
		var next []string
		for _, l := range level {
			next = append(next, l+"x", l+"y")
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func hashes(log string) [][]byte {
	var out [][]byte
	for _, c := range log {
		out = append(out, leafHash(string(c)))
	}
	return out
}

// nodes are the hashes of all subtrees of the logs and one hash that belongs to none.
func nodes(logs ...string) [][]byte {
	out := [][]byte{leafHash("x"), leafHash("y"), leafHash("z")}
	add := func(h []byte) {
		if !slices.ContainsFunc(out, func(o []byte) bool { return bytes.Equal(o, h) }) {
			out = append(out, h)
		}
	}
	var walk func(d [][]byte)
	walk = func(d [][]byte) {
		add(mth(d))
		if len(d) > 1 {
			k := split(uint64(len(d)))
			walk(d[:k])
			walk(d[k:])
		}
	}
	for _, l := range logs {
		walk(hashes(l))
	}
	return out
}

// lists calls fn with every list of at most n elements.
func lists(universe [][]byte, n int, fn func(p [][]byte) error) error {
	buf := make([][]byte, n)
	var rec func(k, n int) error
	rec = func(k, n int) error {
		if k == n {
			return fn(buf[:n])
		}
		for _, u := range universe {
			buf[k] = u
			if err := rec(k+1, n); err != nil {
				return err
			}
		}
		return nil
	}
	for k := 0; k <= n; k++ {
		if err := rec(0, k); err != nil {
			return err
		}
	}
	return nil
}

func forgedInclusion(r *core.Run, log string, depth int) error {
	d := hashes(log)
	n := len(d)
	rt, u := mth(d), nodes(log)
	count := int64(0)
	genuine := make([][][]byte, n)
	for i := range n {
		genuine[i] = path(uint64(i), d)
	}
	for i := -1; i <= n; i++ {
		for _, z := range u {
			err := lists(u, depth, func(p [][]byte) error {
				want := i >= 0 && i < n && bytes.Equal(d[i], z) && equal(p, genuine[i])
				count++
				return checkInclusion(func() string { return fmt.Sprintf("%x in log %s with %x", z, log, p) }, int64(i), uint64(n), rt, z, p, want)
			})
			if err != nil {
				return err
			}
		}
	}
	r.Distinct.Add(count)
	r.Evaluations.Add(count)
	return nil
}

func forgedRoot(r *core.Run, a, b string, depth int) error {
	da, db := hashes(a), hashes(b)
	m, n := len(da), len(db)
	ra, rb := mth(da), mth(db)
	prefix := m <= n && b[:m] == a
	var genuine [][]byte
	if prefix {
		genuine = consistency(uint64(m), db, true)
		depth = max(depth, len(genuine))
	}
	count := int64(0)
	err := lists(nodes(a, b), depth, func(p [][]byte) error {
		count++
		return checkRoot(func() string { return fmt.Sprintf("log %s after log %s with %x", b, a, p) }, uint64(m), uint64(n), ra, rb, p, prefix && equal(p, genuine))
	})
	r.Distinct.Add(count)
	r.Evaluations.Add(count)
	return err
}

// severalProofs checks lists of proofs for one entry: one valid proof is enough.
func severalProofs(r *core.Run, log string, entry string, depth int) error {
	d := hashes(log)
	n := len(d)
	rt := mth(d)
	leaf := leafHash(entry)
	var pool []*trillian.Proof
	for i := range n {
		pool = append(pool, &trillian.Proof{LeafIndex: int64(i), Hashes: path(uint64(i), d)})
	}
	bad := slices.Clone(path(0, d))
	pool = append(pool,
		&trillian.Proof{LeafIndex: 0, Hashes: append(bad, rt)},
		&trillian.Proof{LeafIndex: int64(n)},
		&trillian.Proof{LeafIndex: -1, Hashes: path(0, d)},
		&trillian.Proof{})
	valid := func(p *trillian.Proof) bool {
		return p != nil && wantInclusion(p.LeafIndex, uint64(n), rt, leaf, p.Hashes)
	}
	count := int64(0)
	var rec func(list []*trillian.Proof, ok bool) error
	rec = func(list []*trillian.Proof, ok bool) error {
		count++
		err := verifier.VerifyInclusionByHash(root(uint64(n), rt), leaf, list)
		if (err == nil) != ok {
			var is []int64
			for _, p := range list {
				is = append(is, p.GetLeafIndex())
			}
			return fmt.Errorf("entry %s in log %s with proofs at %d: %s (%v), expected %s", entry, log, is, word(err == nil), err, word(ok))
		}
		if len(list) == depth {
			return nil
		}
		for _, p := range pool {
			if err := rec(append(list[:len(list):len(list)], p), ok || valid(p)); err != nil {
				return err
			}
		}
		return nil
	}
	err := rec(nil, false)
	r.Distinct.Add(count)
	r.Evaluations.Add(count)
	return err
}

// both checks an entry of an older log under a newer root.
func both(r *core.Run, a, b string) error {
	da, db := hashes(a), hashes(b)
	m, n := uint64(len(da)), uint64(len(db))
	ra, rb := mth(da), mth(db)
	var ps [][][]byte
	for k := 1; k <= int(n); k++ {
		ps = append(ps, consistency(uint64(k), db, true))
	}
	if m > n {
		for k := 1; k <= int(m); k++ {
			ps = append(ps, consistency(uint64(k), da, true))
		}
	}
	count := int64(0)
	for _, p := range ps {
		for _, z := range []string{"x", "y", "z"} {
			for i := range da {
				for j, d := range [][][]byte{da, db} {
					if i >= len(d) {
						continue
					}
					q := path(uint64(i), d)
					want := wantInclusion(int64(i), m, ra, leafHash(z), q) && wantRoot(m, n, ra, rb, p)
					err := verifier.VerifyInclusionWithPrevLogRoot(root(m, ra), root(n, rb), p, leafHash(z), proofs(int64(i), q))
					count++
					if (err == nil) != want {
						return fmt.Errorf("entry %s at %d of log %s (proof of log %d) under the root of log %s with %x: %s (%v), expected %s", z, i, a, j, b, p, word(err == nil), err, word(want))
					}
				}
			}
		}
	}
	r.Distinct.Add(count)
	r.Evaluations.Add(count)
	return nil
}

func missing() error {
	d := logOf(3)
	rt := root(3, mth(d))
	ok := proofs(1, path(1, d))
	if err := verifier.VerifyInclusionWithPrevLogRoot(rt, rt, nil, d[1], ok); err != nil {
		return fmt.Errorf("same root: %w", err)
	}
	for name, err := range map[string]error{
		"no root":             verifier.VerifyInclusionByHash(nil, d[1], ok),
		"no proof":            verifier.VerifyInclusionByHash(rt, d[1], nil),
		"empty list":          verifier.VerifyInclusionByHash(rt, d[1], []*trillian.Proof{}),
		"empty proof":         verifier.VerifyInclusionByHash(rt, d[1], []*trillian.Proof{nil}),
		"empty log":           verifier.VerifyInclusionByHash(root(0, mth(nil)), d[1], ok),
		"empty log, no proof": verifier.VerifyInclusionByHash(root(0, mth(nil)), d[1], proofs(0, nil)),
		"no trusted root":     verifier.VerifyInclusionWithPrevLogRoot(nil, rt, nil, d[1], ok),
		"no new root":         verifier.VerifyInclusionWithPrevLogRoot(rt, nil, nil, d[1], ok),
	} {
		if err == nil {
			return fmt.Errorf("%s: accepted", name)
		}
	}
	for name, got := range map[string]func() (*types.LogRootV1, error){
		"no trusted root": func() (*types.LogRootV1, error) { return verifier.VerifyRoot(nil, rt, nil) },
		"no new root":     func() (*types.LogRootV1, error) { return verifier.VerifyRoot(rt, nil, nil) },
		"no new root after the empty log": func() (*types.LogRootV1, error) {
			return verifier.VerifyRoot(root(0, mth(nil)), nil, nil)
		},
	} {
		if v, err := got(); err == nil || v != nil {
			return fmt.Errorf("%s: accepted", name)
		}
	}
	if err := verifier.VerifyInclusionByHash(rt, d[1], append([]*trillian.Proof{nil}, ok...)); err != nil {
		return fmt.Errorf("a missing proof before a valid one: %w", err)
	}
	for n := range 300 {
		s := string(bytes.Repeat([]byte{byte(n)}, n))
		if !bytes.Equal(verifier.HashLeaf([]byte(s)), leafHash(s)) {
			return fmt.Errorf("hash of an entry of %d bytes", n)
		}
	}
	return nil
}

func main() {
	core.Quiet()
	r := core.Start("C13", "exploration")
	r.Rule = "a case is one call of the verifier with a distinct combination of sizes, index, hashes, entry and roots"
	r.Assume("no collisions of SHA-256; the reference is the recursive definition of RFC 6962, section 2.1")
	r.Case("missing arguments", nil, missing)
	top := r.Pick(33, 130)
	r.Parallel("inclusion", top, func(n int) {
		for i := range n + 1 {
			if !r.Case(fmt.Sprintf("inclusion of entry %d of %d", i, n+1), nil, func() error { return inclusionCase(r, n+1, i, top) }) && r.Stop() {
				return
			}
		}
	})
	ctop := r.Pick(24, 70)
	r.Parallel("roots", ctop, func(n int) {
		for m := range n + 2 {
			if !r.Case(fmt.Sprintf("root of %d entries after %d", n+1, m), nil, func() error { return rootCase(r, m, n+1, ctop) }) && r.Stop() {
				return
			}
		}
	})
	li := logs(r.Pick(5, 8))
	r.Parallel("forged inclusion proofs", len(li), func(i int) {
		r.Case("forged inclusion in "+li[i], nil, func() error { return forgedInclusion(r, li[i], 3) })
	})
	lc := logs(r.Pick(5, 6))
	r.Parallel("forged log roots", len(lc)*len(lc), func(i int) {
		a, b := lc[i/len(lc)], lc[i%len(lc)]
		depth := r.Pick(2, 3)
		if len(a) <= 4 && len(b) <= 4 {
			depth = r.Pick(3, 4)
		}
		r.Case("forged log root "+a+" to "+b, nil, func() error { return forgedRoot(r, a, b, depth) })
	})
	lb := logs(r.Pick(6, 8))
	r.Parallel("older log roots", len(lb)*len(lb), func(i int) {
		a, b := lb[i/len(lb)], lb[i%len(lb)]
		r.Case("entries of "+a+" under "+b, nil, func() error { return both(r, a, b) })
	})
	ls := logs(r.Pick(5, 6))
	r.Parallel("several proofs", len(ls)*3, func(i int) {
		l, e := ls[i/3], string("xyz"[i%3])
		r.Case("proofs of "+e+" in "+l, nil, func() error { return severalProofs(r, l, e, r.Pick(3, 4)) })
	})
	r.Finish()
}
