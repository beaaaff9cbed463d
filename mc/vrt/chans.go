package vrt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

type waiter struct {
	t     *thread
	val   any  // value to send, or value received
	ok    bool // for receives
	done  bool
	panic bool // send on closed channel
	idx   int  // which case was completed
	cases []*waiter
	sel   *waiter // the representative of a select
	c     *vchan
	send  bool
}

type vchan struct {
	obj
	ref    any // keeps the channel alive so that its address is not reused
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

func chptr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func vch[C any](c C) *vchan {
	p := chptr(c)
	if p == nil {
		return nil
	}
	v := s.chans[p]
	if v == nil {
		v = &vchan{ref: c, cap: reflect.ValueOf(c).Cap()}
		s.chans[p] = v
	}
	return v
}

func (q *waiter) live() bool { return !q.sel.done }

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func (c *vchan) hasWaiter(q []*waiter, self *thread) bool {
	for _, w := range q {
		if w.live() && w.t != self {
			return true
		}
	}
	return false
}

func (w *waiter) complete() {
	w.sel.done = true
	w.sel.idx = w.idx
	s.touchT(w.t, &w.c.obj, 11)
}

// trySend attempts the send without blocking.
func (c *vchan) trySend(v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		w.sel.val, w.sel.ok = v, true
		s.touch(&c.obj, 12)
		w.complete()
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		s.touch(&c.obj, 13)
		return true
	}
	return false
}

func (c *vchan) canSend() bool {
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	return c.hasWaiter(c.recvq, nil)
}

func (c *vchan) canRecv() bool {
	return len(c.buf) > 0 || c.closed || c.hasWaiter(c.sendq, nil)
}

func (c *vchan) tryRecv() (v any, ok bool, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		s.touch(&c.obj, 14)
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.complete()
		}
		return v, true, true
	}
	if w := pop(&c.sendq); w != nil {
		v = w.val
		s.touch(&c.obj, 15)
		w.complete()
		return v, true, true
	}
	if c.closed {
		s.touch(&c.obj, 16)
		return nil, false, true
	}
	return nil, false, false
}

func blockForever(what string) {
	if s.dead {
		s.die()
	}
	s.blockOn(what, func() bool { return false })
	panic("unreachable")
}

// S implements ch <- v as S(ch)(v).
func S[C ~chan T | ~chan<- T, T any](c C) func(T) {
	return func(v T) {
		if s == nil {
			reflect.ValueOf(c).Send(reflect.ValueOf(&v).Elem())
			return
		}
		s.yield("send")
		k := vch(c)
		if k == nil {
			blockForever("send on nil channel")
		}
		if k.trySend(v) {
			return
		}
		w := &waiter{t: s.cur, val: v, c: k, send: true}
		w.sel = w
		k.sendq = append(k.sendq, w)
		s.touch(&k.obj, 17)
		s.blockOn("send", func() bool { return w.done })
		if w.panic {
			panic("send on closed channel")
		}
	}
}

func recv[C any, T any](c C) (T, bool) {
	var zero T
	if s == nil {
		v, ok := reflect.ValueOf(c).Recv()
		if !ok {
			return zero, false
		}
		return v.Interface().(T), true
	}
	s.yield("receive")
	k := vch(c)
	if k == nil {
		blockForever("receive on nil channel")
	}
	v, ok, done := k.tryRecv()
	if !done {
		w := &waiter{t: s.cur, c: k}
		w.sel = w
		k.recvq = append(k.recvq, w)
		s.touch(&k.obj, 18)
		s.blockOn("receive", func() bool { return w.done })
		v, ok = w.val, w.ok
	}
	if !ok || v == nil {
		return zero, ok
	}
	return v.(T), ok
}

// Recv implements <-ch.
func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := recv[C, T](c)
	return v
}

// Recv2 implements v, ok := <-ch.
func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) { return recv[C, T](c) }

// Range implements for v := range ch.
func Range[C ~chan T | ~<-chan T, T any](c C) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := recv[C, T](c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close implements close(ch).
func Close[C ~chan T | ~chan<- T, T any](c C) {
	if s == nil {
		reflect.ValueOf(c).Close()
		return
	}
	if s.deadOp() {
		return
	}
	s.yield("close")
	k := vch(c)
	if k == nil {
		panic("close of nil channel")
	}
	k.close()
}

func (k *vchan) close() {
	if k.closed {
		panic("close of closed channel")
	}
	k.closed = true
	s.touch(&k.obj, 19)
	for {
		w := pop(&k.recvq)
		if w == nil {
			break
		}
		w.sel.val, w.sel.ok = nil, false
		w.complete()
	}
	for {
		w := pop(&k.sendq)
		if w == nil {
			break
		}
		w.sel.panic = true
		w.complete()
	}
}

// Len implements len(ch).
func Len[C any](c C) int {
	if s == nil {
		return reflect.ValueOf(c).Len()
	}
	if s.deadOp() {
		return 0
	}
	s.yield("len")
	k := vch(c)
	if k == nil {
		return 0
	}
	s.touch(&k.obj, 20)
	return len(k.buf)
}

// Case is one communication of a select.
type Case interface {
	wait() (k *vchan, send bool, v any)
	set(v any, ok bool)
}

type RC[T any] struct {
	k  *vchan
	v  T
	ok bool
}

func (r *RC[T]) wait() (*vchan, bool, any) { return r.k, false, nil }
func (r *RC[T]) set(v any, ok bool) {
	r.ok = ok
	if ok && v != nil {
		r.v = v.(T)
	}
}
func (r *RC[T]) Get() T          { return r.v }
func (r *RC[T]) Get2() (T, bool) { return r.v, r.ok }

// CR is a receive case.
func CR[C ~chan T | ~<-chan T, T any](c C) *RC[T] {
	if s.dead {
		s.die()
	}
	return &RC[T]{k: vch(c)}
}

type SC struct {
	k *vchan
	v any
}

func (r *SC) wait() (*vchan, bool, any) { return r.k, true, r.v }
func (r *SC) set(any, bool)             {}

// CS is a send case: CS(ch)(v).
func CS[C ~chan T | ~chan<- T, T any](c C) func(T) *SC {
	if s.dead {
		s.die()
	}
	return func(v T) *SC { return &SC{vch(c), v} }
}

// Select performs a select and returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if len(cases) == 0 && !hasDefault {
		blockForever("select{}")
	}
	s.yield("select")
	var ready []int
	for i, c := range cases {
		k, send, _ := c.wait()
		if k == nil {
			continue
		}
		if send && k.canSend() || !send && k.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		if s.policy == 1 {
			for i, j := 0, len(ready)-1; i < j; i, j = i+1, j-1 {
				ready[i], ready[j] = ready[j], ready[i]
			}
		}
		n := 0
		if len(ready) > 1 {
			n = s.choose(len(ready), 1, 's', nil)
			if n < 0 {
				s.dieNow()
			}
		}
		i := ready[n]
		k, send, v := cases[i].wait()
		// every channel looked at matters
		for _, c := range cases {
			if kk, _, _ := c.wait(); kk != nil && kk != k {
				s.touch(&kk.obj, 21)
			}
		}
		if send {
			k.trySend(v)
		} else {
			x, ok, _ := k.tryRecv()
			cases[i].set(x, ok)
		}
		return i
	}
	for _, c := range cases {
		if kk, _, _ := c.wait(); kk != nil {
			s.touch(&kk.obj, 22)
		}
	}
	if hasDefault {
		return -1
	}
	sel := &waiter{t: s.cur}
	sel.sel = sel
	for i, c := range cases {
		k, send, v := c.wait()
		if k == nil {
			continue
		}
		w := &waiter{t: s.cur, val: v, c: k, send: send, sel: sel, idx: i}
		if send {
			k.sendq = append(k.sendq, w)
		} else {
			k.recvq = append(k.recvq, w)
		}
	}
	s.blockOn("select", func() bool { return sel.done })
	if sel.panic {
		panic("send on closed channel")
	}
	cases[sel.idx].set(sel.val, sel.ok)
	return sel.idx
}

// Forever implements select{}.
func Forever() any {
	blockForever("select{}")
	return nil
}

// RangeMap iterates over a map in a deterministic order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keyLess(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem())
		})
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// ---- goroutines

// Go starts a goroutine.
func Go(fn func()) {
	if s == nil {
		go fn()
		return
	}
	if s.dead {
		return
	}
	sc := s
	t := sc.addThread(callerSite())
	t.what = "start"
	sc.touch(&obj{epoch: sc.epoch, h: uint64(t.id)}, 23)
	go sc.runThread(t, fn)
}

// GoR starts a goroutine calling f with args.
func GoR(f any, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	var in []reflect.Value
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in = append(in, reflect.Zero(pt))
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(pt) {
			v = v.Convert(pt)
		}
		in = append(in, v)
	}
	Go(func() { fv.Call(in) })
}

// Gosched is a fair yield: the caller is not scheduled again before another goroutine made a step.
func Gosched() {
	if s == nil {
		runtime.Gosched()
		return
	}
	if s.dead {
		s.die()
	}
	if s.ended {
		s.dieNow()
	}
	s.cur.what = "gosched"
	s.cur.spin = true
	s.cur.waitFor = nil
	for _, x := range s.threads {
		if x != s.cur && (x.state == tsRunnable || x.state == tsBlocked && x.ready != nil && x.ready()) {
			s.cur.waitFor = append(s.cur.waitFor, x.id)
		}
	}
	s.resched()
	s.touch(&s.memObj, 24)
}
