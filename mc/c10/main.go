// Command c10: update requests to the map server each get their own outcome and never hang.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/mapx"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

var l1, l2 *fix.Cert

type key struct{}

func reqOf(ctx context.Context) int {
	n, _ := ctx.Value(key{}).(int)
	return n
}

// request is what the harness plans for and learns about one request.
type request struct {
	n      int
	failAt string // storage operation that fails in its cycle
	try    bool   // PruneAndUpdateIfPossible
	cancel bool   // its context gets cancelled at some point

	begun     int // cycles run for it
	ops       int
	roots     int // LoadRoot calls
	injected  bool
	returned  bool
	triggered bool
	err       error
}

type injected struct{ n int }

func (e injected) Error() string { return fmt.Sprintf("injected for request %d", e.n) }

// conn is the storage; it knows which request an operation belongs to through the context.
type conn struct {
	*store
	w *world
}

type store = memdb.DB

type world struct {
	ctx      context.Context
	stop     func()
	d        *memdb.DB
	s        *mapserver.MapServer
	log      *mapx.Log
	reqs     map[int]*request
	running  int // request whose cycle is running (0: none)
	problems []string
	stopped  bool
}

func (w *world) problem(f string, a ...any) { w.problems = append(w.problems, fmt.Sprintf(f, a...)) }

func (c *conn) op(ctx context.Context, name string) error {
	vrt.Step(name)
	vrt.Touch("db")
	n := reqOf(ctx)
	if n == 0 {
		return nil
	}
	r := c.w.reqs[n]
	if c.w.running != n && r.ops > 0 {
		c.w.problem("operation %s of the cycle of request %d after the cycle of request %d began", name, n, c.w.running)
	}
	c.w.running = n
	r.ops++
	if err := ctx.Err(); err != nil {
		return err
	}
	if r.failAt == name {
		r.injected = true
		return injected{n}
	}
	return nil
}

func (c *conn) PruneCerts(ctx context.Context, t time.Time) error {
	if n := reqOf(ctx); n != 0 {
		c.w.reqs[n].begun++
	}
	if err := c.op(ctx, "PruneCerts"); err != nil {
		return err
	}
	return c.store.PruneCerts(ctx, t)
}
func (c *conn) UpdateDomains(ctx context.Context, ids []memdb.ID, names []string) error {
	if err := c.op(ctx, "UpdateDomains"); err != nil {
		return err
	}
	return c.store.UpdateDomains(ctx, ids, names)
}
func (c *conn) LastCTlogServerState(ctx context.Context, url string) (int64, []byte, error) {
	if err := c.op(ctx, "LastCTlogServerState"); err != nil {
		return 0, nil, err
	}
	return c.store.LastCTlogServerState(ctx, url)
}
func (c *conn) RecomputeDirtyDomainsCertAndPolicyIDs(ctx context.Context) error {
	if err := c.op(ctx, "Recompute"); err != nil {
		return err
	}
	return c.store.RecomputeDirtyDomainsCertAndPolicyIDs(ctx)
}
func (c *conn) SaveRoot(ctx context.Context, r *memdb.ID) error {
	if err := c.op(ctx, "SaveRoot"); err != nil {
		return err
	}
	return c.store.SaveRoot(ctx, r)
}
func (c *conn) CleanupDirty(ctx context.Context) error {
	if err := c.op(ctx, "CleanupDirty"); err != nil {
		return err
	}
	return c.store.CleanupDirty(ctx)
}

// LoadRoot is used by the cycle and by the publication of the tree after it.
func (c *conn) LoadRoot(ctx context.Context) (*memdb.ID, error) {
	n := reqOf(ctx)
	name := "LoadRoot"
	if n != 0 {
		if c.w.reqs[n].roots == 1 {
			name = "LoadRoot2"
		}
		c.w.reqs[n].roots++
	}
	if err := c.op(ctx, name); err != nil {
		return nil, err
	}
	return c.store.LoadRoot(ctx)
}

func newWorld() (*world, error) {
	w := &world{d: memdb.New(), log: &mapx.Log{Name: "https://one/", Batch: 4, Items: []*fix.Cert{l1}}, reqs: map[int]*request{}}
	w.ctx, w.stop = context.WithCancel(context.Background())
	var err error
	w.s, err = mapx.Start(w.ctx, &conn{w.d, w}, w.log)
	return w, err
}

// do issues one request and checks its outcome.
func (w *world) do(r *request) func() error {
	w.reqs[r.n] = r
	ctx, cancel := context.WithCancel(context.WithValue(w.ctx0(), key{}, r.n))
	if r.cancel {
		go func() { vrt.Step("cancel request"); cancel() }()
	}
	return func() error {
		if r.try {
			r.triggered, r.err = w.s.PruneAndUpdateIfPossible(ctx)
		} else {
			r.err = w.s.PruneAndUpdate(ctx)
			r.triggered = r.begun > 0
		}
		vrt.Touch("db")
		r.returned = true
		stopped, cancelled := w.stopped, ctx.Err() != nil
		var inj injected
		if errors.As(r.err, &inj) && inj.n != r.n {
			return fmt.Errorf("request %d got the error of request %d", r.n, inj.n)
		}
		if r.begun > 1 {
			return fmt.Errorf("%d cycles ran for request %d", r.begun, r.n)
		}
		if r.triggered != (r.begun == 1) {
			return fmt.Errorf("request %d says triggered=%v, its cycle ran %d times", r.n, r.triggered, r.begun)
		}
		switch {
		case r.begun == 0 && r.try:
			if r.err != nil {
				return fmt.Errorf("request %d not triggered, but with error %w", r.n, r.err)
			}
		case r.begun == 0:
			if r.err == nil {
				return fmt.Errorf("request %d reports success without any cycle", r.n)
			}
			if !stopped && !cancelled {
				return fmt.Errorf("request %d failed without a cycle: %w", r.n, r.err)
			}
		case r.injected:
			if !errors.As(r.err, &inj) {
				return fmt.Errorf("request %d: its cycle failed at %s, it got: %v", r.n, r.failAt, r.err)
			}
		case r.err != nil && !cancelled:
			return fmt.Errorf("request %d: its cycle had no error, it got: %w", r.n, r.err)
		}
		if r.err == nil && r.begun == 1 {
			// everything is stored and published
			if err := w.published(); err != nil {
				return fmt.Errorf("request %d succeeded, but %w", r.n, err)
			}
		}
		return nil
	}
}

// ctx0 is the parent of request contexts: requests are not cancelled by the server's shutdown.
func (w *world) ctx0() context.Context { return context.Background() }

// published checks that the log is stored and that the published tree head is that of the entries (of now or
// of any later cycle that has already finished).
func (w *world) published() error {
	if len(w.d.S.Payloads) == 0 {
		return fmt.Errorf("no entries are stored")
	}
	root := mapx.EntriesRoot(w.d.S)
	if w.d.S.Root == nil || !bytes.Equal(root, w.d.S.Root[:]) {
		return fmt.Errorf("the stored root is not that of the entries")
	}
	if err := crypto.VerifySignedBytes(root, w.s.Responder.SignedTreeHead(), &mapx.Key.PublicKey); err != nil {
		return fmt.Errorf("the new root is not published: %w", err)
	}
	return nil
}

func spawn(fs ...func() error) error {
	errs := make([]error, len(fs))
	done := make(chan int, len(fs))
	for i, f := range fs {
		go func() {
			errs[i] = f()
			done <- i
		}()
	}
	for range fs {
		<-done
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func scenario(name string, q, d int, body func(w *world) []func() error, after func(w *world) error) *vrt.Scenario {
	return &vrt.Scenario{Name: name, Quick: q, Deep: d, Body: func() error {
		w, err := newWorld()
		if err != nil {
			return err
		}
		if err := spawn(body(w)...); err != nil {
			return err
		}
		if after != nil {
			if err := after(w); err != nil {
				return err
			}
		}
		w.stop()
		w.stopped = true
		vrt.Quiesce()
		if len(w.problems) > 0 {
			return errors.New(w.problems[0])
		}
		return nil
	}}
}

func main() {
	core.Quiet()
	y := func(y int) time.Time { return time.Date(y, 3, 4, 5, 6, 7, 0, time.UTC) }
	root := fix.New("R", "", nil, nil, y(2091))
	l1 = fix.New("L1", "a.com", []string{"w.a.com"}, root, y(2051))
	l2 = fix.New("L2", "", []string{"a.com", "b.com"}, root, y(2042))
	if os.Getenv("VERIF_WORK") == "" {
		panic("VERIF_WORK not set")
	}
	mapx.Setup()
	type fs = []func() error
	last := func(w *world) error { return w.do(&request{n: 9})() } // a later request must always work
	stop := func(w *world) func() error {
		return func() error {
			vrt.Step("stop server")
			vrt.Touch("db")
			w.stopped = true
			w.stop()
			return nil
		}
	}
	afterStop := func(w *world) error {
		vrt.Quiesce()
		if err := w.do(&request{n: 8})(); err != nil {
			return err
		}
		return w.do(&request{n: 9, try: true})()
	}
	var scs []*vrt.Scenario
	ops := []string{"PruneCerts", "LastCTlogServerState", "UpdateDomains", "Recompute", "LoadRoot", "SaveRoot", "CleanupDirty", "LoadRoot2"}
	for _, op := range ops {
		scs = append(scs,
			scenario("error-"+op, 2, 3, func(w *world) []func() error {
				return fs{w.do(&request{n: 1, failAt: op}), w.do(&request{n: 2})}
			}, last),
			scenario("error-try-"+op, 1, 3, func(w *world) []func() error {
				return fs{w.do(&request{n: 1, failAt: op, try: true}), w.do(&request{n: 2, try: true})}
			}, last))
	}
	scs = append(scs,
		scenario("two", 2, 4, func(w *world) []func() error { return fs{w.do(&request{n: 1}), w.do(&request{n: 2})} }, last),
		scenario("three", 2, 3, func(w *world) []func() error {
			return fs{w.do(&request{n: 1}), w.do(&request{n: 2, failAt: "SaveRoot"}), w.do(&request{n: 3, try: true})}
		}, last),
		scenario("tries", 2, 3, func(w *world) []func() error {
			return fs{w.do(&request{n: 1, try: true}), w.do(&request{n: 2, try: true}), w.do(&request{n: 3, try: true})}
		}, last),
		scenario("cancel", 2, 3, func(w *world) []func() error {
			return fs{w.do(&request{n: 1, cancel: true}), w.do(&request{n: 2})}
		}, last),
		scenario("cancel-waiting", 2, 3, func(w *world) []func() error {
			return fs{w.do(&request{n: 1}), w.do(&request{n: 2, cancel: true}), w.do(&request{n: 3, cancel: true, try: true})}
		}, last),
		scenario("stop", 2, 3, func(w *world) []func() error { return fs{w.do(&request{n: 1}), stop(w)} }, afterStop),
		scenario("stop-two", 2, 3, func(w *world) []func() error {
			return fs{w.do(&request{n: 1}), w.do(&request{n: 2}), stop(w)}
		}, afterStop),
		scenario("stop-try", 2, 3, func(w *world) []func() error {
			return fs{w.do(&request{n: 1, try: true}), w.do(&request{n: 2}), stop(w)}
		}, afterStop),
		scenario("stop-error", 2, 3, func(w *world) []func() error {
			return fs{w.do(&request{n: 1, failAt: "LoadRoot2"}), w.do(&request{n: 2}), stop(w)}
		}, afterStop),
	)
	vrt.Main("C10", "all interleavings of concurrent update requests, failing cycles, cancelled requests and shutdown of the real map server up to the stated number of deviations", scs, nil)
}
