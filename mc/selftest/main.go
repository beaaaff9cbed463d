// Command selftest exercises the virtual runtime itself: programs with known behaviours.
package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/sync/errgroup"

	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

func lostUpdate() error {
	var v atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := v.Load()
			v.Store(x + 1)
		}()
	}
	wg.Wait()
	vrt.Log("v=%d", v.Load())
	return nil
}

func abba() error {
	var a, b sync.Mutex
	done := make(chan int)
	go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); done <- 1 }()
	go func(n int) { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); done <- n }(2)
	fmt.Sprint(<-done, <-done)
	return nil
}

func chans() error {
	ch := make(chan int)
	buf := make(chan string, 2)
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	var wg sync.WaitGroup
	wg.Add(2)
	worker := func(id int, out chan<- string) {
		defer wg.Done()
		for v := range ch {
			out <- fmt.Sprintf("%d:%d", id, v)
		}
	}
	go worker(1, buf)
	go worker(2, buf)
	go func() {
		defer close(ch)
		for i := 0; i < 3; i++ {
			ch <- i
		}
	}()
	go func() { wg.Wait(); close(buf) }()
	res := ""
	for {
		select {
		case v, ok := <-buf:
			if !ok {
				vrt.Log(res)
				<-ctx.Done()
				if ctx.Err() != context.DeadlineExceeded || vrt.VirtualNow() != time.Second {
					return fmt.Errorf("err %v", ctx.Err())
				}
				return nil
			}
			res += v + " "
		case <-ctx.Done():
			return fmt.Errorf("timeout")
		}
	}
}

// contexts: contexts that are derived without the cancellation, functions after the end, error groups.
func contexts() error {
	ctx, cancel := context.WithCancel(context.Background())
	free, cancel2 := context.WithTimeout(context.WithoutCancel(ctx), time.Second)
	defer cancel2()
	ran := make(chan int, 2)
	stop1 := context.AfterFunc(ctx, func() { ran <- 1 })
	stop2 := context.AfterFunc(ctx, func() { ran <- 2 })
	if !stop2() || stop2() {
		return fmt.Errorf("cannot stop once")
	}
	g, gctx := errgroup.WithContext(ctx)
	g.SetLimit(1)
	g.Go(func() error { return nil })
	g.Go(func() error { return errors.New("a") })
	g.Go(func() error { return errors.New("b") })
	err := g.Wait()
	if gctx.Err() == nil || context.Cause(gctx) != err {
		return fmt.Errorf("group %v %v", gctx.Err(), err)
	}
	vrt.Log("%v", err)
	cancel()
	if free.Err() != nil {
		return fmt.Errorf("cancelled")
	}
	if n := <-ran; n != 1 || stop1() {
		return fmt.Errorf("%d", n)
	}
	vrt.Quiesce()
	if len(ran) > 0 {
		return fmt.Errorf("ran although stopped")
	}
	<-free.Done()
	v := sync.OnceValues(func() (int, error) { return 1, nil })
	if a, b := v(); a != 1 || b != nil {
		return fmt.Errorf("once")
	}
	return nil
}

func main() {
	out := func(r *vrt.Result) string { return fmt.Sprint(r.Status, r.Log) }
	ok := func(r *vrt.Result) error { return nil }
	vrt.Main("SELF", "self test", []*vrt.Scenario{
		{Name: "lost", Body: lostUpdate, Quick: 2, Deep: 3, Outcome: out},
		{Name: "lost-nc", Body: lostUpdate, Quick: 2, Deep: 3, Outcome: out, NoCache: true},
		{Name: "abba", Body: abba, Quick: 2, Deep: 3, Outcome: out, Final: ok},
		{Name: "chans", Body: chans, Quick: 3, Deep: 4, Outcome: out},
		{Name: "chans-nc", Body: chans, Quick: 3, Deep: 4, Outcome: out, NoCache: true},
		{Name: "syntax", Body: syntax, Quick: 1, Deep: 2, Outcome: out},
		{Name: "contexts", Body: contexts, Quick: 3, Deep: 4, Outcome: out},
		{Name: "contexts-nc", Body: contexts, Quick: 2, Deep: 3, Outcome: out, NoCache: true},
	}, nil)
}
