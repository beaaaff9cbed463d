package vrt

import (
	"context"
	"time"
)

// Base is the virtual start time.
var Base = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

func nowT() time.Time { return Base.Add(time.Duration(s.now)) }

// VirtualNow is the clock as an offset from Base, for harnesses.
func VirtualNow() time.Duration { return time.Duration(s.now) }

func Now() time.Time {
	if s == nil {
		return Base
	}
	if !s.dead {
		s.touch(&s.clock, 32)
	}
	return nowT()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if s == nil {
		return
	}
	if s.dead {
		s.die()
	}
	s.yield("Sleep")
	woken := false
	t := s.cur
	s.addTimer(int64(d), 0, func() { woken = true; s.touchT(t, &s.clock, 33) })
	s.blockOn("Sleep", func() bool { return woken })
}

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	f func()
}

func (t *Timer) arm(d time.Duration) {
	k := t.c
	t.t = s.addTimer(int64(d), 0, func() {
		if t.f != nil {
			Go(t.f)
			return
		}
		v := vch(k)
		if v.closed {
			return
		}
		s.clockSend(v)
	})
}

// clockSend is a non-blocking send by the clock.
func (s *sched) clockSend(v *vchan) {
	save := s.cur
	s.cur = s.clockThread()
	if len(v.buf) == 0 || v.hasWaiter(v.recvq, nil) {
		v.trySend(nowT())
	}
	s.cur = save
}

func (s *sched) clockThread() *thread {
	return &thread{id: 0, h: s.clock.h, mixed: 0}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	if s == nil || s.dead {
		return t
	}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	if s == nil || s.dead {
		return t
	}
	t.arm(d)
	return t
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if quick() {
		return true
	}
	s.yield("Timer.Stop")
	s.touch(&s.clock, 34)
	was := t.t != nil && !t.t.dead
	if t.t != nil {
		t.t.dead = true
	}
	if t.c != nil {
		vch(t.c).buf = nil // Go 1.23: no stale values after Stop
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	if quick() {
		return true
	}
	was := t.Stop()
	t.arm(d)
	return was
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	if s == nil || s.dead {
		return t
	}
	t.t = s.addTimer(int64(d), int64(d), func() { s.clockSend(vch(c)) })
	return t
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
func (t *Ticker) Stop() {
	if quick() {
		return
	}
	s.touch(&s.clock, 35)
	t.t.dead = true
}
func (t *Ticker) Reset(d time.Duration) {
	if quick() {
		return
	}
	t.t.dead = true
	t.t = s.addTimer(int64(d), int64(d), func() { s.clockSend(vch(t.c)) })
}

// ---- context

type ctxKey struct{}

type vctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*vctx
	o        obj
	deadline time.Time
	hasDL    bool
	tm       *timer
}

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error {
	if s != nil && !s.deadOp() {
		s.yield("ctx.Err")
		s.touch(&c.o, 80)
	}
	return c.err
}
func (c *vctx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func newCtx(parent context.Context) *vctx {
	c := &vctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*vctx); ok {
		if s != nil && !s.dead {
			s.touch(&p.o, 81)
		}
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func (c *vctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	if cause == nil {
		c.cause = err
	}
	if c.tm != nil {
		c.tm.dead = true
	}
	if s != nil && !s.dead {
		s.touch(&c.o, 82)
		vch(c.done).close()
	}
	for _, k := range c.children {
		k.cancel(err, cause)
	}
}

func (c *vctx) cancelFunc() context.CancelFunc {
	return func() {
		if quick() {
			return
		}
		s.yield("cancel")
		c.cancel(context.Canceled, nil)
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, c.cancelFunc()
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if quick() {
			return
		}
		s.yield("cancel")
		c.cancel(context.Canceled, cause)
	}
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if d, ok := parent.Deadline(); ok && d.Before(t) {
		return c, c.cancelFunc()
	}
	c.deadline, c.hasDL = t, true
	if s != nil && !s.dead && c.err == nil {
		c.tm = s.addTimer(int64(t.Sub(nowT())), 0, func() {
			save := s.cur
			s.cur = s.clockThread()
			c.cancel(context.DeadlineExceeded, cause)
			s.cur = save
		})
		c.tm.daemon = true
	}
	return c, c.cancelFunc()
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

// withoutCancel hides the context's end from those derived from it.
type withoutCancel struct{ context.Context }

func (w withoutCancel) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent context.Context) context.Context {
	return withoutCancel{context.WithoutCancel(parent)}
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, Now().Add(d), cause)
}

func Cause(c context.Context) error {
	if v, ok := c.Value(ctxKey{}).(*vctx); ok {
		return v.cause
	}
	return context.Cause(c)
}

// CtxAfterFunc runs f in a goroutine of its own once ctx has ended, unless it is stopped before.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	stop := make(chan struct{})
	var mu Mutex
	decided := false // stopped, or f has been started
	decide := func() bool {
		mu.Lock()
		defer mu.Unlock()
		was := decided
		decided = true
		return !was
	}
	Go(func() {
		Daemon()
		if Select(false, CR(ctx.Done()), CR(stop)) == 0 && decide() {
			s.cur.daemon = false
			f()
		}
	})
	return func() bool {
		if !decide() {
			return false
		}
		Close(stop)
		return true
	}
}
