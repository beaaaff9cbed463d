// Command c05: after updates, domain entries list exactly the certificates and policies of the domain.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

type universe struct {
	leaves []*fix.Cert
	ica    int // index of the leaf that is also an ancestor
	pols   []*fix.Policy
	n      fix.Namer
}

func newUniverse() *universe {
	y := func(y int) time.Time { return time.Date(y, time.Month(y%12+1), y%28+1, y%24, y%60, y%59, 0, time.UTC) }
	root := fix.New("R", "root authority", nil, nil, y(2091))
	ica := fix.New("I", "ica.com", nil, root, y(2082))
	l1 := fix.New("L1", "a.com", []string{"a.com", "w.a.com"}, ica, y(2051))
	l2 := fix.New("L2", "", []string{"a.com", "b.com"}, ica, y(2042))
	l3 := fix.New("L3", "b.com", nil, root, y(2033))
	l4 := fix.New("L4", "c.com", nil, nil, y(2074)) // no chain
	l5 := fix.New("L5", "", nil, root, y(2065))     // no name
	u := &universe{leaves: []*fix.Cert{l1, l2, l3, l4, l5, ica}, ica: 5, n: fix.Namer{}}
	u.pols = []*fix.Policy{fix.NewPolicy("P1", "a.com", 1), fix.NewPolicy("P2", "b.com", 2), fix.NewPolicy("P3", "a.com", 3), fix.NewPolicy("P4", "p.com", 4)}
	u.n.Certs(root)
	u.n.Certs(u.leaves...)
	u.n.Policies(u.pols...)
	return u
}

type batch struct {
	mode   byte // 'o' overwrite, 'k' keep existing, 'l' raw bytes to the updater (keep existing, no policies)
	leaves []int
	pols   []int
	coal   bool // compute entries after this batch
}

func (u *universe) name(h []batch) string {
	var l []string
	for _, b := range h {
		var x []string
		for _, i := range b.leaves {
			x = append(x, u.leaves[i].Name)
		}
		for _, i := range b.pols {
			x = append(x, u.pols[i].Name)
		}
		c := ""
		if b.coal {
			c = "!"
		}
		l = append(l, fmt.Sprintf("%c[%s]%s", b.mode, strings.Join(x, " "), c))
	}
	return strings.Join(l, " ")
}

func (u *universe) apply(ctx context.Context, d *memdb.DB, b batch) error {
	var certs []ctx509.Certificate
	var chains [][]*ctx509.Certificate
	var raws [][]byte
	var rawChains [][][]byte
	for _, i := range b.leaves {
		c := u.leaves[i]
		certs = append(certs, *c.C)
		chains = append(chains, c.Chain())
		raws = append(raws, c.C.Raw)
		rc := [][]byte{}
		for _, x := range c.Chain() {
			rc = append(rc, x.Raw)
		}
		rawChains = append(rawChains, rc)
	}
	var pols []common.PolicyDocument
	for _, i := range b.pols {
		p := *u.pols[i].Doc
		pols = append(pols, &p)
	}
	if b.mode == 'l' {
		return (&updater.MapUpdater{Conn: d}).UpdateCertsLocally(ctx, raws, rawChains)
	}
	cs, ids, parents, names := util.UnfoldCerts(certs, chains)
	f := updater.UpdateWithKeepExisting
	if b.mode == 'o' {
		f = updater.UpdateWithOverwrite
	}
	return f(ctx, d, names, ids, parents, cs, util.ExtractExpirations(cs), pols)
}

func (u *universe) run(h []batch) error {
	ctx := context.Background()
	d := memdb.New()
	var leaves []*fix.Cert
	var pols []*fix.Policy
	// icaHidden: the intermediate was stored as an ancestor before it was first submitted as a leaf in
	// keep-existing mode, and never in overwrite mode.
	icaAnc, icaLinked, icaLeaf := false, false, false
	for _, b := range h {
		if err := u.apply(ctx, d, b); err != nil {
			return fmt.Errorf("update failed: %w", err)
		}
		for _, i := range b.leaves {
			leaves = append(leaves, u.leaves[i])
			if i == u.ica {
				icaLeaf = true
				if b.mode == 'o' || !icaAnc {
					icaLinked = true
				}
			}
		}
		for _, i := range b.leaves {
			if i == 0 || i == 1 {
				icaAnc = true
			}
		}
		for _, i := range b.pols {
			pols = append(pols, u.pols[i])
		}
		if b.coal {
			if err := updater.CoalescePayloadsForDirtyDomains(ctx, d); err != nil {
				return err
			}
			if err := u.check(d, leaves, pols, icaLeaf && !icaLinked); err != nil {
				return err
			}
		}
	}
	return nil
}

func (u *universe) check(d *memdb.DB, leaves []*fix.Cert, pols []*fix.Policy, hidden bool) error {
	e := fix.ExpectOf(leaves, pols)
	if err := u.n.CompareObjects(d.S, e); err != nil {
		return err
	}
	err := u.n.CompareEntries(d.S, e)
	if err != nil && hidden {
		// the known finding is exactly the absence of the links of the intermediate
		var rest []*fix.Cert
		for _, l := range leaves {
			if l != u.leaves[u.ica] {
				rest = append(rest, l)
			}
		}
		if u.n.CompareEntries(d.S, fix.ExpectOf(rest, pols)) == nil {
			return &core.KeyedError{Key: "leaf-after-ancestor", Err: err}
		}
	}
	return err
}

func seqs(n, max int) (r [][]int) {
	r = append(r, nil)
	last := r
	for k := 1; k <= max; k++ {
		var next [][]int
		for _, s := range last {
			for i := 0; i < n; i++ {
				next = append(next, append(append([]int{}, s...), i))
			}
		}
		r = append(r, next...)
		last = next
	}
	return
}

func main() {
	r := core.Start("C05", "exploration")
	r.Rule = "all histories of 1-3 update batches over 6 leaves (shared and missing chains, several names, no name, a leaf that is also an ancestor) and 4 policies"
	u := newUniverse()
	bar := func(modes string, leaves, pols [][]int, coal []bool) (l []batch) {
		for _, m := range modes {
			for _, c := range leaves {
				for _, p := range pols {
					if m == 'l' && (len(p) > 0 || len(c) == 0) {
						continue
					}
					for _, co := range coal {
						l = append(l, batch{byte(m), c, p, co})
					}
				}
			}
		}
		return
	}
	two := seqs(6, 2)
	three := seqs(6, 3)
	one := seqs(6, 1)
	pols := [][]int{nil, {0}, {0, 1}, {1, 2, 0}, {3, 0, 0}}
	polsFew := [][]int{nil, {0, 1}, {1, 2}}
	yes, no, both := []bool{true}, []bool{false}, []bool{false, true}
	var hs [][]batch
	cross := func(as, bs []batch) {
		for _, a := range as {
			for _, b := range bs {
				hs = append(hs, []batch{a, b})
			}
		}
	}
	for _, b := range bar("okl", seqs(6, r.Pick(3, 4)), pols, yes) {
		hs = append(hs, []batch{b})
	}
	cross(bar("okl", two, polsFew, both), bar("okl", two, polsFew, yes))
	cross(bar("k", two, [][]int{nil}, no), bar("k", three, [][]int{nil}, yes))
	cross(bar("k", [][]int{nil}, seqs(4, 2), both), bar("ok", one, seqs(4, 2), yes))
	mid := one
	if r.Thorough() {
		mid = two
		cross(bar("k", three, [][]int{nil}, both), bar("k", three, [][]int{nil}, yes))
	}
	for _, a := range bar("kl", one, [][]int{nil, {0}}, both) {
		for _, b := range bar("kl", mid, [][]int{nil, {1, 0}}, both) {
			for _, c := range bar("k", two, [][]int{nil, {0, 1}}, yes) {
				hs = append(hs, []batch{a, b, c})
			}
		}
	}
	r.Extra("histories", len(hs))
	r.Assume("storage behaves like the relational model memdb, which check C11 binds to the MySQL implementation")
	r.Parallel("histories", len(hs), func(i int) {
		h := hs[i]
		if r.Case(u.name(h), nil, func() error { return u.run(h) }) {
			r.Distinct.Add(1)
		}
	})
	r.Finish()
}
