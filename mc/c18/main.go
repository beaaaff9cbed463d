// Command c18: the numbered spin lock.
package main

import (
	"fmt"

	fsync "github.com/netsec-ethz/fpki/pkg/sync"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

// scenario: n callers; late of them are started after Start; waiters wait for all of them.
func scenario(n int, order []int, startAt, waiters, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name:  fmt.Sprintf("n=%d order=%v start before caller %d, %d waiters, bound %d", n, order, startAt, waiters, q),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			l := fsync.NewSpinLock(n)
			inside, next, data := 0, 0, 0
			var err error
			fail := func(f string, a ...any) {
				if err == nil {
					err = fmt.Errorf(f, a...)
				}
			}
			for k := 0; k <= n; k++ {
				if k == startAt {
					vrt.Step("start")
					vrt.Touch("start")
					l.Start()
				}
				if k == n {
					break
				}
				id := order[k]
				go func() {
					vrt.Step("ask")
					l.Lock(id)
					if inside++; inside != 1 {
						fail("%d callers inside", inside)
					}
					if id != next {
						fail("caller %d admitted when it was the turn of %d", id, next)
					}
					next++
					data = data*10 + id + 1 // unsynchronised, for the race detector
					vrt.Step("inside")
					vrt.Touch("inside")
					inside--
					l.UnLock(id)
				}()
			}
			left := make(chan int, waiters)
			for range waiters {
				go func() {
					l.Wait()
					if next != n || inside != 0 {
						fail("waiting ended after %d of %d callers, %d inside", next, n, inside)
					}
					left <- data
				}()
			}
			l.Wait()
			if next != n || inside != 0 {
				fail("waiting ended after %d of %d callers, %d inside", next, n, inside)
			}
			for range waiters {
				<-left
			}
			return err
		},
		Outcome: func(r *vrt.Result) string { return r.Status.String() },
	}
}

func perms(n int) (r [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			r = append(r, append([]int{}, p...))
			return
		}
		for i := range n {
			if used>>i&1 == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

func main() {
	var l []*vrt.Scenario
	for n := 0; n <= 3; n++ {
		for _, o := range perms(n) {
			for at := 0; at <= n; at++ {
				for w := 0; w < 2; w++ {
					l = append(l, scenario(n, o, at, w, []int{4, 3, 2, 1}[n], []int{9, 7, 5, 4}[n]))
				}
			}
		}
	}
	l = append(l, scenario(2, []int{1, 0}, 1, 0, 3, 5), scenario(3, []int{2, 0, 1}, 1, 1, 2, 4), scenario(3, []int{0, 1, 2}, 3, 0, 2, 4))
	for _, o := range [][]int{{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 0, 4, 1, 3}} {
		l = append(l, scenario(5, o, 0, 1, 1, 2), scenario(5, o, 3, 1, 1, 2), scenario(5, o, 5, 1, 1, 2))
	}
	vrt.Main("C18", "every schedule with a bounded number of deviations from four base policies; all orders of asking, all moments of starting", l, nil)
}
