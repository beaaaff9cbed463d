// Command c06: after an update cycle of the map server the stored tree reflects the entries, also when
// storage operations fail or the process dies at any of them and the cycle is run again.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/mapx"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

var (
	n      = fix.Namer{}
	leaves []*fix.Cert
	pols   []*fix.Policy
)

// Leaves: L1, L2 below a common intermediate; L3 below the root only; X1 and X2 already expired; Y valid
// below an expired intermediate; Z alone.
func universe() {
	y := func(y int) time.Time { return time.Date(y, time.Month(y%12+1), y%28+1, y%24, y%60, y%59, 0, time.UTC) }
	root := fix.New("R", "", nil, nil, y(2091))
	ica := fix.New("I", "", nil, root, y(2082))
	old := fix.New("O", "", nil, root, y(2011))
	l1 := fix.New("L1", "a.com", []string{"w.a.com"}, ica, y(2051))
	l2 := fix.New("L2", "", []string{"a.com", "b.com"}, ica, y(2042))
	l3 := fix.New("L3", "b.com", nil, root, y(2033))
	x1 := fix.New("X1", "a.com", nil, ica, y(2020))
	x2 := fix.New("X2", "c.com", nil, nil, y(2021))
	yy := fix.New("Y", "d.com", []string{"b.com"}, old, y(2061))
	z := fix.New("Z", "e.com", nil, nil, y(2071))
	leaves = []*fix.Cert{l1, l2, l3, x1, x2, yy, z}
	pols = []*fix.Policy{fix.NewPolicy("P1", "a.com", 1), fix.NewPolicy("P2", "p.com", 2)}
	n.Certs(root, ica, old)
	n.Certs(leaves...)
	n.Policies(pols...)
}

func expired(c *fix.Cert) bool {
	for ; c != nil; c = c.Parent {
		if c.Exp.Before(time.Now()) {
			return true
		}
	}
	return false
}

// A step: the logs grow, policies arrive, then a cycle runs.
type step struct {
	a, b []int // leaves appended to the two logs
	pols []int
}

type history struct {
	steps         []step
	batch, bundle int
}

func (h history) String() string {
	var l []string
	for _, s := range h.steps {
		var x []string
		for _, i := range s.a {
			x = append(x, leaves[i].Name)
		}
		if len(s.b) > 0 {
			x = append(x, "|")
			for _, i := range s.b {
				x = append(x, leaves[i].Name)
			}
		}
		for _, i := range s.pols {
			x = append(x, pols[i].Name)
		}
		l = append(l, "["+strings.Join(x, " ")+"]")
	}
	return fmt.Sprintf("%s batch=%d bundle=%d", strings.Join(l, " "), h.batch, h.bundle)
}

// A fault: at the given operation of the run (counted over reads and writes), the operation fails once
// ('e'), or it and all later ones fail and the server is started anew ('c').
type fault struct {
	at   int
	mode byte
}

type world struct {
	ctx    context.Context
	cancel func()
	d      *memdb.DB
	s      *mapserver.MapServer
	logs   []*mapx.Log
	ops    int
	names  []string
	faults []fault
	fired  bool // a fault was injected since the flag was last cleared
	dead   bool
	pols   []*fix.Policy
}

func newWorld(h history, faults []fault) *world {
	w := &world{faults: faults, d: memdb.New()}
	for _, l := range []string{"https://one/", "https://two/"} {
		w.logs = append(w.logs, &mapx.Log{Name: l, Batch: h.batch})
	}
	w.d.NextBundle = uint64(h.bundle)
	w.hook()
	return w
}

func (w *world) hook() {
	w.d.Hook = func(step string, write bool) error {
		if w.dead {
			return memdb.ErrDead
		}
		w.ops++
		w.names = append(w.names, step)
		for _, f := range w.faults {
			if f.at == w.ops-1 {
				w.fired = true
				if f.mode == 'c' {
					w.dead = true
					return memdb.ErrDead
				}
				return memdb.ErrInjected
			}
		}
		return nil
	}
}

// start starts a server; faults may hit that too, the start is then repeated.
func (w *world) start() error {
	for {
		if w.cancel != nil {
			w.cancel()
		}
		w.ctx, w.cancel = context.WithCancel(context.Background())
		w.dead, w.fired = false, false
		st := w.d.S
		bundle := w.d.NextBundle
		w.d = &memdb.DB{S: st, NextBundle: bundle}
		w.hook()
		var fs []logfetcher.Fetcher
		for _, l := range w.logs {
			fs = append(fs, l)
		}
		var err error
		w.s, err = mapx.Start(w.ctx, w.d, fs...)
		if err == nil {
			if w.fired {
				return fmt.Errorf("the server starts although a storage operation failed (%s)", w.names[len(w.names)-1])
			}
			return nil
		}
		if !w.fired {
			return fmt.Errorf("the server does not start: %w", err)
		}
	}
}

// treeComplete checks that the tree of the saved root is readable everywhere and says what its leaves
// are; it returns its root.
func treeComplete(s *memdb.State) error {
	d := memdb.On(s)
	var root []byte
	if d.S.Root != nil {
		root = d.S.Root[:]
	}
	t, err := trie.NewTrie(root, common.SHA256Hash, d)
	if err != nil {
		return err
	}
	for _, name := range names() {
		id := common.SHA256Hash([]byte(name))
		if _, err := t.Get(context.Background(), id); err != nil {
			return fmt.Errorf("the tree of the saved root is not readable at %s: %w", name, err)
		}
	}
	return nil
}

func names() (l []string) {
	return []string{"a.com", "w.a.com", "b.com", "c.com", "d.com", "e.com", "p.com", "x.a.com", "zzz.com"}
}

// consistent checks what must hold after every successful cycle.
func (w *world) consistent(s *memdb.State) error {
	if len(s.Dirty) != 0 {
		return fmt.Errorf("%d domains are still marked as changed", len(s.Dirty))
	}
	want := mapx.EntriesRoot(s)
	var got []byte
	if s.Root != nil {
		got = s.Root[:]
	}
	if !bytes.Equal(want, got) {
		return fmt.Errorf("the saved root %x is not the root of the entries, %x", got, want)
	}
	if err := treeComplete(s); err != nil {
		return err
	}
	// entries are what the links say
	var all []*fix.Cert
	for _, l := range w.logs {
		all = append(all, l.Items...)
	}
	var valid []*fix.Cert
	for _, c := range all {
		if !expired(c) {
			valid = append(valid, c)
		}
	}
	lo := fix.ExpectOf(valid, w.pols)
	hi := fix.ExpectOf(all, w.pols)
	for d, p := range lo.Entries {
		for _, id := range common.BytesToIDs([]byte(p.CertIDs)) {
			if !strings.Contains(s.Payloads[d].CertIDs, string(id[:])) {
				return fmt.Errorf("certificate %s is missing in the entry of %s", n.Of(id), n.Of(d))
			}
		}
		if s.Payloads[d].PolicyIDs != p.PolicyIDs {
			return fmt.Errorf("policies of %s: %s, expected %s", n.Of(d), n.Glued(s.Payloads[d].PolicyIDs), n.Glued(p.PolicyIDs))
		}
	}
	for d, p := range s.Payloads {
		for _, id := range common.BytesToIDs([]byte(p.CertIDs)) {
			if !strings.Contains(hi.Entries[d].CertIDs, string(id[:])) {
				return fmt.Errorf("unexpected certificate %s in the entry of %s", n.Of(id), n.Of(d))
			}
		}
	}
	// the server publishes that tree
	for _, name := range names() {
		rs, err := w.s.Responder.GetProof(w.ctx, name)
		if err != nil {
			return fmt.Errorf("no proof for %s after the cycle: %w", name, err)
		}
		r := rs[len(rs)-1]
		for _, x := range rs {
			if x.DomainEntry.DomainName == name {
				r = x
			}
		}
		if !bytes.Equal(r.PoI.Root, want) {
			return fmt.Errorf("the server answers with root %x, the tree has %x", r.PoI.Root, want)
		}
		typ, ok, err := prover.VerifyProofByDomain(r)
		if err != nil || !ok {
			return fmt.Errorf("proof for %s does not verify (%v)", name, err)
		}
		_, has := s.Payloads[memdb.ID(common.SHA256Hash([]byte(name)))]
		if has != (typ == mapCommon.PoP) {
			return fmt.Errorf("%s: the answer is of kind %v, it has an entry: %v", name, typ, has)
		}
	}
	return nil
}

// recover runs the action until it succeeds: after an error again on the same server, after a crash on a
// new one.
func (w *world) again(act func() error) error {
	for i := 0; i < 10; i++ {
		w.fired = false
		err := act()
		if err == nil && w.fired {
			return fmt.Errorf("success is reported although a storage operation failed (%s)", w.failed())
		}
		if err != nil && !w.fired {
			return fmt.Errorf("fails without any storage error: %w", err)
		}
		if err == nil {
			return nil
		}
		if !errors.Is(err, memdb.ErrInjected) && !errors.Is(err, memdb.ErrDead) {
			return fmt.Errorf("storage error not reported: %w", err)
		}
		if err := treeComplete(w.d.S); err != nil {
			return fmt.Errorf("after the interruption at %s: %w", w.failed(), err)
		}
		if w.dead {
			if err := w.start(); err != nil {
				return err
			}
		}
	}
	return fmt.Errorf("does not complete")
}

func (w *world) failed() string {
	for i := len(w.faults) - 1; i >= 0; i-- {
		if w.faults[i].at < len(w.names) {
			return w.names[w.faults[i].at]
		}
	}
	return "?"
}

func run(h history, faults []fault) (ops int, ops0 int, final *memdb.State, err error) {
	w := newWorld(h, faults)
	defer func() {
		if w.cancel != nil {
			w.cancel()
		}
	}()
	if err := w.start(); err != nil {
		return 0, 0, nil, err
	}
	for _, st := range h.steps {
		for _, i := range st.a {
			w.logs[0].Items = append(w.logs[0].Items, leaves[i])
		}
		for _, i := range st.b {
			w.logs[1].Items = append(w.logs[1].Items, leaves[i])
		}
		for _, i := range st.pols {
			p := *pols[i].Doc
			if err := w.again(func() error {
				return updater.UpdateWithKeepExisting(w.ctx, w.d, nil, nil, nil, nil, nil, []common.PolicyDocument{&p})
			}); err != nil {
				return 0, 0, nil, fmt.Errorf("policy update: %w", err)
			}
			w.pols = append(w.pols, pols[i])
		}
		if err := w.again(func() error { return w.s.PruneAndUpdate(w.ctx) }); err != nil {
			return 0, 0, nil, fmt.Errorf("cycle: %w", err)
		}
		if err := w.quiet(func() error { return w.consistent(w.d.S) }); err != nil {
			return 0, 0, nil, fmt.Errorf("after a cycle: %w", err)
		}
	}
	ops = w.ops
	// One more cycle prunes what has expired.
	if err := w.again(func() error { return w.s.PruneAndUpdate(w.ctx) }); err != nil {
		return 0, 0, nil, fmt.Errorf("last cycle: %w", err)
	}
	if err := w.quiet(func() error { return w.consistent(w.d.S) }); err != nil {
		return 0, 0, nil, fmt.Errorf("after the last cycle: %w", err)
	}
	var valid []*fix.Cert
	for _, l := range w.logs {
		for _, c := range l.Items {
			if !expired(c) {
				valid = append(valid, c)
			}
		}
	}
	e := fix.ExpectOf(valid, w.pols)
	if err := n.CompareEntries(w.d.S, e); err != nil {
		return 0, 0, nil, fmt.Errorf("after the last cycle: %w", err)
	}
	for _, l := range w.logs {
		if g := w.d.S.Logs[string(common.SHA256Hash([]byte(l.Name)))].Size; len(l.Items) > 0 && g != int64(len(l.Items)) {
			return 0, 0, nil, fmt.Errorf("recorded size of %s is %d, it has %d entries", l.Name, g, len(l.Items))
		}
	}
	return w.ops, ops, w.d.S, nil
}

// quiet runs fn without counting operations or injecting faults.
func (w *world) quiet(fn func() error) error {
	h := w.d.Hook
	w.d.Hook = nil
	defer func() { w.d.Hook = h }()
	return fn()
}

func main() {
	core.Quiet()
	r := core.Start("C06", "fault_enumeration")
	r.Rule = "all histories of 2-3 cycles with up to 2 new log entries each (valid, expired, below an expired ancestor) and policies; for selected ones every storage operation as error and as crash point"
	universe()
	mapx.Setup()
	var seqs [][]int
	for i := range leaves {
		seqs = append(seqs, []int{i})
	}
	for i := range leaves {
		for j := range leaves {
			if i != j {
				seqs = append(seqs, []int{i, j})
			}
		}
	}
	var hs []history
	// plain: all pairs of steps
	for _, a := range append([][]int{nil}, seqs...) {
		for _, b := range append([][]int{nil}, seqs...) {
			hs = append(hs, history{[]step{{a: a}, {a: b}}, 1 + len(hs)%2, len(hs) % 3})
		}
	}
	for _, p := range [][]int{{0}, {1}, {0, 1}} {
		for _, a := range append([][]int{nil}, seqs...) {
			hs = append(hs, history{[]step{{a: a, pols: p}, {}}, 1, 1}, history{[]step{{a: a}, {pols: p}}, 2, 2},
				history{[]step{{pols: p}, {b: a}}, 1, 0})
		}
	}
	if r.Thorough() {
		for _, a := range seqs {
			for _, b := range seqs {
				for c := range leaves {
					hs = append(hs, history{[]step{{a: a}, {b: b}, {a: []int{c}}}, 1 + len(hs)%3, len(hs) % 3})
				}
			}
		}
	}
	r.Extra("histories", len(hs))
	roots := map[string][2]string{}
	_ = roots
	r.Parallel("histories", len(hs), func(i int) {
		if r.Case(hs[i].String(), nil, func() error { _, _, _, err := run(hs[i], nil); return err }) {
			r.Distinct.Add(1)
		}
	})
	// faults
	fh := []history{
		{[]step{{a: []int{0}}, {a: []int{1}}}, 1, 1},
		{[]step{{a: []int{0, 3}}, {a: []int{4}}}, 2, 1},
		{[]step{{a: []int{4}}, {}}, 1, 2},
		{[]step{{a: []int{2, 5}, pols: []int{0}}, {b: []int{6}}}, 2, 2},
		{[]step{{a: []int{0}, b: []int{1}}, {pols: []int{1}}}, 1, 1},
		{[]step{{a: []int{3, 5}}, {a: []int{2, 0}}}, 1, 1},
	}
	if r.Thorough() {
		for _, a := range seqs {
			for _, b := range seqs[:7] {
				fh = append(fh, history{[]step{{a: a, pols: []int{len(fh) % 2}}, {a: b}}, 1 + len(fh)%2, 1 + len(fh)%2})
			}
		}
	}
	type job struct {
		h  int
		fs []fault
	}
	var jobs []job
	for i, h := range fh {
		ops, _, _, err := run(h, nil)
		if err != nil {
			r.Case(h.String(), nil, func() error { _, _, _, err := run(h, nil); return err })
			continue
		}
		for k := 0; k < ops; k++ {
			for _, m := range "ce" {
				jobs = append(jobs, job{i, []fault{{k, byte(m)}}})
			}
		}
		// two faults: the second one hits the repetition
		if i < r.Pick(2, 12) {
			step := r.Pick(1, 1)
			for k := 0; k < ops; k += step {
				for d := 1; d <= r.Pick(12, 60); d++ {
					for _, m := range "ce" {
						jobs = append(jobs, job{i, []fault{{k, byte(m)}, {k + d, 'c'}}})
					}
				}
			}
		}
	}
	r.Extra("fault_points", len(jobs))
	r.Parallel("faults", len(jobs), func(i int) {
		j := jobs[i]
		key := fmt.Sprintf("%s faults %s", fh[j.h], fstr(j.fs))
		if r.Case(key, nil, func() error { _, _, _, err := run(fh[j.h], j.fs); return err }) {
			r.Distinct.Add(1)
		}
	})
	r.Assume("storage behaves like the relational model memdb, which check C11 binds to the MySQL implementation; each statement is atomic")
	r.Assume("expiry is modelled with certificates that are already expired when first seen: they appear in one cycle and must vanish in the next")
	r.Finish()
}

func fstr(fs []fault) string {
	var l []string
	for _, f := range fs {
		l = append(l, fmt.Sprintf("%c@%d", f.mode, f.at))
	}
	return strings.Join(l, ",")
}
