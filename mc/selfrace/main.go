// Command selfrace: checks the race detection of the scheduler (developer test).
package main

import (
	"sync"

	"github.com/netsec-ethz/fpki/verifmc/selfrace/sub"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

func main() {
	two := func(f func()) func() error {
		return func() error {
			var wg sync.WaitGroup
			wg.Add(2)
			for i := 0; i < 2; i++ {
				go func() { defer wg.Done(); f() }()
			}
			wg.Wait()
			return nil
		}
	}
	var scens []*vrt.Scenario
	add := func(n string, mk func() func()) {
		scens = append(scens, &vrt.Scenario{Name: n, Quick: 1, Deep: 1, Body: func() error { return two(mk())() }})
	}
	add("bad-plain", func() func() { c := &sub.T{}; return c.Plain })
	add("bad-map", func() func() { c := sub.New(); return c.MapPut })
	add("bad-once", func() func() { c := sub.New(); return c.HalfLocked })
	add("good-mutex", func() func() { c := sub.New(); return c.Locked })
	add("good-chan", func() func() { c := sub.New(); return c.Chan })
	add("good-unbuf", func() func() { c := sub.New(); return c.Unbuf })
	add("good-atomic", func() func() { c := sub.New(); return c.Atomic })
	vrt.Main("SELFRACE", "", scens, nil)
}
