package main

import (
	"context"
	"fmt"
	"iter"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// A program in many forms that the language allows; it must build and behave the same when instrumented.

type guarded[T any] struct {
	sync.Mutex
	m map[string]T
	*sync.WaitGroup
	n  atomic.Int64
	rw *sync.RWMutex
}

func (g *guarded[T]) put(k string, v T) (old T, ok bool) {
	g.Lock()
	defer g.Unlock()
	old, ok = g.m[k]
	g.m[k] = v
	g.n.Add(1)
	return
}

type waitable interface {
	sync.Locker
	Wait()
}

var _ waitable = (*guarded[int])(nil)

func produce[T any](ctx context.Context, vs ...T) <-chan T {
	out := make(chan T, len(vs))
	go func() {
		defer close(out)
		for _, v := range vs {
			select {
			case out <- v:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out
}

func fan[T any, C ~<-chan T](ins ...C) (out chan T) {
	out = make(chan T)
	var wg sync.WaitGroup
	wg.Add(len(ins))
	for i := range ins {
		go func(c C) {
			defer wg.Done()
			for v := range c {
				out <- v
			}
		}(ins[i])
	}
	go func() { wg.Wait(); close(out) }()
	return
}

func seq(c <-chan int) iter.Seq2[int, int] {
	return func(yield func(int, int) bool) {
		i := 0
		for v := range c {
			if !yield(i, v) {
				return
			}
			i++
		}
	}
}

type reply struct {
	v   int
	err error
}

type request struct {
	v  int
	to chan<- reply
}

func serve(reqs <-chan request, quit chan struct{}) {
outer:
	for {
		select {
		case r, ok := <-reqs:
			if !ok {
				break outer
			}
			switch {
			case r.v < 0:
				r.to <- reply{err: fmt.Errorf("negative")}
				continue outer
			default:
			}
			r.to <- reply{v: r.v * 2}
		case <-quit:
			return
		}
	}
}

func syntax() error {
	ctx, cancel := context.WithCancelCause(context.Background())
	defer cancel(nil)
	g := &guarded[int]{m: map[string]int{}, WaitGroup: new(sync.WaitGroup), rw: &sync.RWMutex{}}
	for i := range 3 {
		g.WaitGroup.Add(1)
		go func() {
			defer g.Done()
			g.put(fmt.Sprint(i), i)
		}()
	}
	g.Wait()
	var keys []string
	for k := range g.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if fmt.Sprint(keys, g.n.Load()) != "[0 1 2] 3" {
		return fmt.Errorf("%v", keys)
	}
	sum := 0
	for v := range fan(produce(ctx, 1, 2), produce(ctx, 3)) {
		sum += v
	}
	for i, v := range seq(produce(ctx, 5, 6, 7)) {
		if i == 2 {
			break
		}
		sum += v
	}
	if sum != 17 {
		return fmt.Errorf("sum %d", sum)
	}
	reqs, quit := make(chan request), make(chan struct{})
	go serve(reqs, quit)
	if err := goForms(); err != nil {
		return err
	}
	ask := func(v int) (r reply) {
		c := make(chan reply, 1)
		reqs <- request{v, c}
		select {
		case r = <-c:
		case <-time.After(time.Second):
			r.err = fmt.Errorf("timeout")
		}
		return
	}
	if r := ask(2); r.v != 4 || r.err != nil {
		return fmt.Errorf("%v", r)
	}
	if r := ask(-1); r.err == nil {
		return fmt.Errorf("%v", r)
	}
	close(quit)
	table := map[string]chan int{"a": make(chan int, 1), "b": nil}
	idx := func(k string) chan int { return table[k] }
	vals := [2]int{}
	for n := 0; n < 2; n++ {
		select {
		case idx("a") <- n + 1:
		case vals[0] = <-idx("a"):
		case x, ok := <-idx("b"):
			return fmt.Errorf("%d %v", x, ok)
		}
	}
	if vals[0] != 1 || len(table["a"]) != 0 || cap(idx("a")) != 1 || len(table) != 2 {
		return fmt.Errorf("%v", vals)
	}
	chch := make(chan chan int, 1)
	chch <- table["a"]
	table["a"] <- 9
	if x := <-<-chch; x != 9 {
		return fmt.Errorf("%d", x)
	}
	func(l sync.Locker) {
		l.Lock()
		defer l.Unlock()
	}(g.rw.RLocker())
	t := time.NewTimer(time.Hour)
	if !t.Stop() || t.Reset(time.Millisecond) {
		return fmt.Errorf("timer")
	}
	<-t.C
	var cfg = struct {
		tick *time.Ticker
		once sync.Once
		done func()
	}{tick: time.NewTicker(time.Second), done: sync.OnceFunc(func() { cancel(fmt.Errorf("over")) })}
	go cfg.once.Do(cfg.done)
	<-ctx.Done()
	<-cfg.tick.C
	cfg.tick.Stop()
	if context.Cause(ctx).Error() != "over" {
		return context.Cause(ctx)
	}
	errs := make(chan error, 1)
	go func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%v", p)
			}
			errs <- err
		}()
		var c chan int = table["a"]
		close(c)
		close(c)
		return nil
	}()
	if err := <-errs; err == nil {
		return fmt.Errorf("no panic")
	}
	i := 0
loop:
	if i < 2 {
		i++
		goto loop
	}
	return nil
}

func after[T any](wg *sync.WaitGroup, c chan T, vs ...T) {
	wg.Wait()
	for _, v := range vs {
		c <- v
	}
	close(c)
}

type acc struct{ n int }

func (a acc) give(c chan<- int, _ any, f func(int) int, d time.Duration) bool {
	c <- f(a.n) + int(d)
	return true
}

func double[T ~int](v T) T { return v + v }

func two() (chan int, int) { return make(chan int, 1), 3 }

func put(c chan int, v int) { c <- v; close(c) }

// goForms starts goroutines in every way other than by a function literal.
func goForms() error {
	var wg sync.WaitGroup
	wg.Add(1)
	c := make(chan int)
	vs := []int{1, 2}
	go after(&wg, c, vs...)
	vs = nil
	d := make(chan int)
	go after[int](&wg, d, 3,
		4) // two lines
	a := acc{5}
	e := make(chan int)
	go a.give(e, nil, double, 2)
	a.n = 100
	f := a.give
	go f(e, "x", double[int], 1*time.Nanosecond)
	f = nil
	go wg.Done()
	q := make(chan int)
	go close(q)
	pair := make(chan int, 1)
	go func(c chan int, v int) int { put(c, v); return v }(pair, 6)
	sum := 0
	for v := range c {
		sum += v
	}
	for v := range d {
		sum += v
	}
	sum += <-e + <-e
	<-q
	for v := range pair {
		sum += v
	}
	go put(two())
	go (func(int) {})(sum)
	if sum != 1+2+3+4+12+201+6 {
		return fmt.Errorf("go forms: %d", sum)
	}
	return nil
}
