// Command c01p: updates of the tree whose branches run concurrently. The build lowers the number of
// keys from which a branch gets its own goroutine, so that small batches take this path.
package main

import (
	"bytes"
	"fmt"

	tx "github.com/netsec-ethz/fpki/verifmc/triex"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

func scenario(g tx.Geometry, h tx.History, atomic bool, cache, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name:  fmt.Sprintf("%s cache=%d atomic=%v %s", g.Name, cache, atomic, h),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			g := g
			s, err := tx.Open(&g, cache)
			if err != nil {
				return err
			}
			s.Atomic = atomic
			s.Store.Point = func(op string) { vrt.Step(op); vrt.Touch("store") }
			for k, st := range h {
				if err := s.Step(st); err != nil {
					return fmt.Errorf("step %d: %w", k, err)
				}
				want, err := tx.FreshRoot(&g, s.Content)
				if err != nil {
					return fmt.Errorf("fresh tree: %w", err)
				}
				if !bytes.Equal(want, s.T.Root) {
					return fmt.Errorf("step %d: root %x, but %x when the contents %v are built in one batch", k, s.T.Root, want, s.Content)
				}
			}
			if err := tx.CheckReads(s.T, &g, s.Content); err != nil {
				return err
			}
			// what was committed is complete
			if s.CRoot != nil {
				t, err := tx.OpenAt(s.Store, s.CRoot)
				if err != nil {
					return err
				}
				if err := tx.CheckReads(t, &g, s.Committed); err != nil {
					return fmt.Errorf("committed version: %w", err)
				}
			}
			return nil
		},
		Outcome: func(r *vrt.Result) string { return r.Status.String() },
	}
}

func main() {
	var l []*vrt.Scenario
	geoms := tx.Quads([][3]int{{0, 4, 5}, {4, 8, 253}, {0, 1, 2}, {7, 8, 9}}, []byte{0})
	all := []int{1, 1, 1, 1}
	seconds := [][]int{{2, 2, 2, 2}, {0, 0, -1, -1}, {-1, -1, 0, 0}, {0, 0, 0, -1}, {-1, 0, 0, 0}, {0, 0, 0, 0}, {2, 0, -1, 0}, {0, -1, 2, 0}, {-1, 0, -1, 0}}
	for i, g := range geoms {
		for _, f := range []tx.After{tx.Nothing, tx.Reopen, tx.ReopenCache} {
			for j, s := range seconds {
				for _, a := range []tx.After{tx.Nothing, tx.Commit} {
					cache := -1
					if f == tx.ReopenCache {
						cache = 0
					}
					q := 0
					if f == tx.Reopen && a == tx.Commit && (i+j)%4 == 0 {
						q = 1
					}
					l = append(l, scenario(g, tx.History{{Set: all, After: f}, {Set: s, After: a}}, false, cache, q, q+1))
				}
			}
		}
		l = append(l, scenario(g, tx.History{{Set: all, After: tx.Commit}}, false, -1, 1, 2),
			scenario(g, tx.History{{Set: []int{1, -1, -1, 1}, After: tx.Reopen}, {Set: []int{0, 1, 1, 0}, After: tx.Commit}}, false, -1, 1, 2),
			scenario(g, tx.History{{Set: []int{-1, 1, 1, -1}, After: tx.Nothing}, {Set: []int{1, 0, 0, 1}, After: tx.Commit}}, true, 0, 1, 2),
			scenario(g, tx.History{{Set: []int{1, 1, -1, -1}, After: tx.Reopen}, {Set: []int{0, 0, 1, 1}, After: tx.Commit}}, false, 0, 1, 2))
	}
	vrt.Main("C01", "every schedule, up to a bounded number of deviations from the base policies, of the branches of an update that run concurrently", l, nil)
}
