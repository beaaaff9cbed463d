// Command c34: reactions to signals, and orderly shutdown, under all schedules.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	srv "github.com/netsec-ethz/fpki/pkg/policylog/server/util"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

const wait = 10 * time.Second

var (
	tERM = os.Signal(syscall.SIGTERM)
	iNT  = os.Signal(syscall.SIGINT)
	uSR1 = os.Signal(syscall.SIGUSR1)
)

func sigNames(l []os.Signal) string {
	var o []string
	for _, x := range l {
		o = append(o, map[os.Signal]string{tERM: "TERM", iNT: "INT", uSR1: "USR1"}[x])
	}
	return strings.Join(o, ",")
}

// withCancel: a context that is cancelled on TERM and INT. raised are the signals (one goroutine sends
// them), own: what cancels the parent (none, before, after d). The main routine needs work until it ends.
// early: the signals arrive as soon as the context exists.
func withCancel(raised []os.Signal, parent string, work time.Duration, early bool, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name:  fmt.Sprintf("context, signals %s (at once: %v), parent %s, main needs %s", sigNames(raised), early, parent, work),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			pctx, pcancel := context.WithCancel(context.Background())
			defer pcancel()
			if parent == "cancelled before" {
				pcancel()
			}
			ctx := util.ContextWithCancelOnSignal(pctx, wait, tERM, iNT)
			if ctx.Err() != nil && parent != "cancelled before" {
				return fmt.Errorf("the context is cancelled from the beginning")
			}
			asked := false
			raise := func() {
				for _, x := range raised {
					if x != uSR1 {
						asked = true
					}
					n := vrt.Raise(x)
					if (n > 0) != (x != uSR1) && !asked {
						vrt.Log("signal %v goes to %d handlers", x, n)
					}
				}
			}
			if early {
				raise()
			}
			go func() {
				time.Sleep(time.Second)
				if !early {
					raise()
				}
				if parent == "cancelled" {
					asked = true
					pcancel()
				}
			}()
			time.Sleep(time.Second / 2)
			if ctx.Err() != nil && parent != "cancelled before" && !asked {
				return fmt.Errorf("the context is cancelled although nothing happened")
			}
			time.Sleep(time.Second)
			vrt.Quiesce()
			if !asked && parent != "cancelled before" {
				if ctx.Err() != nil {
					return fmt.Errorf("the context is cancelled although no such signal was received")
				}
				pcancel()
				return nil // ends here
			}
			if ctx.Err() == nil {
				return fmt.Errorf("the context is not cancelled")
			}
			<-ctx.Done()
			for t := time.Duration(0); t < work; t += time.Second {
				vrt.Log("running")
				time.Sleep(time.Second)
			}
			return nil
		},
		Final: func(r *vrt.Result) error {
			n := 0
			for _, l := range r.Log {
				if l == "running" {
					n++
				} else {
					return errors.New(l)
				}
			}
			if r.Err != nil {
				return r.Err
			}
			slow := work > wait
			switch r.Status {
			case vrt.StPanic:
				if !strings.Contains(r.Panic, "still running") {
					return fmt.Errorf("panic: %s", r.Panic)
				}
				if r.MainEnded { // the process is gone by then
					return nil
				}
				if !slow {
					return fmt.Errorf("panic although the main routine ends in time: %s", r.Panic)
				}
				// the context is cancelled between 1 s and 1.5 s before the first entry
				if n < int((wait-time.Second)/time.Second) || n > int((wait+time.Second)/time.Second) {
					return fmt.Errorf("panic %d s after the cancellation", n)
				}
				return nil
			case vrt.StOK:
				if slow {
					return fmt.Errorf("the process is not ended although the main routine runs %s after the signal", work)
				}
				return nil
			}
			return vrt.DefaultFinal(r)
		},
		Outcome: func(r *vrt.Result) string {
			if r.Status == vrt.StPanic && !r.MainEnded {
				return "forced end"
			}
			return "orderly end"
		},
	}
}

// onSignal: a function runs on signals until the context is done.
func onSignal(raised []os.Signal, need time.Duration, cancelAfter time.Duration, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name:  fmt.Sprintf("function on signals %s, needs %s, context ends after %s", sigNames(raised), need, cancelAfter),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var err error
			inside, runs, raisedN := 0, 0, 0
			cancelled := false
			var lastRaise, lastRun time.Duration = -1, -1
			var seen []os.Signal
			util.RunOnSignal(ctx, func(x os.Signal) {
				inside++
				if inside > 1 && err == nil {
					err = fmt.Errorf("the function runs twice at a time")
				}
				runs++
				lastRun = vrt.VirtualNow()
				seen = append(seen, x)
				ok := false
				for _, y := range raised[:raisedN] {
					ok = ok || y == x && y != tERM
				}
				if !ok && err == nil {
					err = fmt.Errorf("run for %v, which was not raised", x)
				}
				if runs > raisedN && err == nil {
					err = fmt.Errorf("%d runs for %d signals", runs, raisedN)
				}
				time.Sleep(need)
				inside--
			}, iNT, uSR1)
			before := 0
			go func() {
				for i, x := range raised {
					time.Sleep(time.Second)
					if cancelled {
						return
					}
					raisedN = i + 1
					if x != tERM {
						before++
						lastRaise = vrt.VirtualNow()
					}
					vrt.Raise(x)
				}
			}()
			time.Sleep(cancelAfter)
			vrt.Quiesce()
			if cancelAfter > 60*time.Second {
				if before > 0 && runs == 0 {
					return fmt.Errorf("not run although %d signals were raised", before)
				}
				if lastRun < lastRaise {
					return fmt.Errorf("not run after the last signal")
				}
				if need < time.Second && runs != before {
					return fmt.Errorf("%d runs for %d signals", runs, before)
				}
			}
			cancelled = true
			cancel()
			time.Sleep(need)
			vrt.Quiesce()
			k := runs
			vrt.Raise(iNT)
			vrt.Quiesce()
			if runs != k {
				return fmt.Errorf("run after the end of the context")
			}
			if n := vrt.Alive(); n > 0 && cancelAfter > 60*time.Second {
				return fmt.Errorf("%d goroutines remain after the end of the context", n)
			}
			return err
		},
	}
}

// serve: the server ends by itself after runs (0: only when asked) with an error or not, the context ends
// at cancel (0: never).
func serve(runs, cancel time.Duration, fails bool, slow time.Duration, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name:  fmt.Sprintf("server ends after %s, needs %s to stop, fails %v, context ends after %s", runs, slow, fails, cancel),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			ctx, cancelF := context.WithCancel(context.Background())
			defer cancelF()
			stop := make(chan struct{})
			ended, asked, requested := false, 0, false
			want := errors.New("server error")
			if !fails {
				want = nil
			}
			if cancel > 0 {
				go func() {
					time.Sleep(cancel)
					requested = true
					cancelF()
				}()
			} else if cancel < 0 {
				requested = true
				cancelF()
			}
			var bad error
			got := srv.VerifSrvRun(ctx, func() error {
				if runs > 0 {
					select {
					case <-stop:
						time.Sleep(slow)
					case <-time.After(runs):
					}
				} else {
					<-stop
					time.Sleep(slow)
				}
				ended = true
				return want
			}, func() {
				if !requested {
					bad = fmt.Errorf("shutdown although the context has not ended")
				}
				if asked++; asked > 1 {
					bad = fmt.Errorf("shutdown twice")
				}
				if asked == 1 {
					close(stop)
				}
			})
			if bad != nil {
				return bad
			}
			if !ended {
				return fmt.Errorf("returns before the server has ended")
			}
			if got != want {
				return fmt.Errorf("returns %v, the server ended with %v", got, want)
			}
			return nil
		},
	}
}

// closing: n registered functions, of which some fail.
func closing(n, fail int) *vrt.Scenario {
	return &vrt.Scenario{
		Name: fmt.Sprintf("%d shutdown functions, failing %b", n, fail), Shards: 1,
		Body: func() error {
			ran := make([]int, n)
			errs := make([]error, n)
			live := true
			for i := 0; i < n; i++ {
				if fail>>i&1 == 1 {
					errs[i] = fmt.Errorf("failure %d", i)
				}
				util.RegisterShutdownFunc(func() error {
					if !live {
						return nil // of an earlier execution
					}
					ran[i]++
					return errs[i]
				})
			}
			defer func() { live = false }()
			err := util.ShutdownFunction()
			for i := range ran {
				if ran[i] != 1 {
					return fmt.Errorf("function %d ran %d times", i, ran[i])
				}
				if errs[i] != nil && !errors.Is(err, errs[i]) {
					return fmt.Errorf("%v is not part of the result %v", errs[i], err)
				}
			}
			if (err != nil) != (fail != 0) {
				return fmt.Errorf("result %v", err)
			}
			return nil
		},
	}
}

func main() {
	var l []*vrt.Scenario
	S := func(x ...os.Signal) []os.Signal { return x }
	lists := [][]os.Signal{S(), S(tERM), S(iNT), S(uSR1), S(tERM, iNT), S(iNT, iNT), S(uSR1, tERM), S(tERM, tERM, iNT)}
	for _, r := range lists {
		for _, p := range []string{"alive", "cancelled", "cancelled before"} {
			for _, w := range []time.Duration{0, 5 * time.Second, 8 * time.Second, 14 * time.Second} {
				l = append(l, withCancel(r, p, w, false, 4, 8))
				if len(r) > 0 {
					l = append(l, withCancel(r, p, w, true, 4, 8))
				}
			}
		}
	}
	for _, r := range [][]os.Signal{S(), S(iNT), S(tERM), S(uSR1, iNT), S(iNT, iNT, iNT), S(iNT, tERM, uSR1, iNT)} {
		for _, need := range []time.Duration{0, time.Second, 2500 * time.Millisecond} {
			for _, c := range []time.Duration{0, time.Second, 2500 * time.Millisecond, 100 * time.Second} {
				l = append(l, onSignal(r, need, c, 4, 8))
			}
		}
	}
	for _, runs := range []time.Duration{0, time.Second, 2 * time.Second} {
		for _, c := range []time.Duration{-1, 0, time.Second, 2 * time.Second} {
			if runs == 0 && c == 0 {
				continue
			}
			for _, f := range []bool{false, true} {
				for _, slow := range []time.Duration{0, 3 * time.Second} {
					l = append(l, serve(runs, c, f, slow, 5, 10))
				}
			}
		}
	}
	for n := 0; n <= 3; n++ {
		for f := 0; f < 1<<n; f++ {
			l = append(l, closing(n, f))
		}
	}
	vrt.Main("C34", "signals and shutdown under all schedules within the deviation bounds", l, nil)
}
