package vrt

import "context"

// ErrGroup replaces errgroup.Group.
type ErrGroup struct {
	cancel context.CancelCauseFunc
	wg     WaitGroup
	mu     Mutex
	sem    chan struct{}
	err    error
	failed bool
}

func ErrGroupWithContext(ctx context.Context) (*ErrGroup, context.Context) {
	ctx, cancel := WithCancelCause(ctx)
	return &ErrGroup{cancel: cancel}, ctx
}

func (g *ErrGroup) SetLimit(n int) {
	g.sem = nil
	if n >= 0 {
		g.sem = make(chan struct{}, n)
	}
}

func (g *ErrGroup) run(f func() error) {
	g.wg.Go(func() {
		err := f()
		if err != nil {
			g.mu.Lock()
			if !g.failed {
				g.failed, g.err = true, err
				if g.cancel != nil {
					g.cancel(err)
				}
			}
			g.mu.Unlock()
		}
		if g.sem != nil {
			Recv(g.sem)
		}
	})
}

func (g *ErrGroup) Go(f func() error) {
	if g.sem != nil {
		S(g.sem)(struct{}{})
	}
	g.run(f)
}

func (g *ErrGroup) TryGo(f func() error) bool {
	if g.sem != nil && Select(true, CS(g.sem)(struct{}{})) < 0 {
		return false
	}
	g.run(f)
	return true
}

func (g *ErrGroup) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}
