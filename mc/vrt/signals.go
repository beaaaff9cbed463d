package vrt

import (
	"context"
	"os"
	"os/signal"
)

// sigReg is a channel that gets signals.
type sigReg struct {
	v    *vchan
	sigs []os.Signal // none: all
}

// SignalNotify stands for signal.Notify in instrumented packages.
func SignalNotify(c chan<- os.Signal, sigs ...os.Signal) {
	if s == nil {
		signal.Notify(c, sigs...)
		return
	}
	if s.dead {
		return
	}
	s.yield("signal.Notify")
	v := vch(c)
	s.touch(&s.sigObj, 31)
	for _, r := range s.sigs {
		if r.v == v {
			if len(sigs) == 0 || len(r.sigs) == 0 {
				r.sigs = nil
			} else {
				r.sigs = append(r.sigs, sigs...)
			}
			return
		}
	}
	s.sigs = append(s.sigs, &sigReg{v, sigs})
}

// SignalStop stands for signal.Stop.
func SignalStop(c chan<- os.Signal) {
	if s == nil {
		signal.Stop(c)
		return
	}
	if s.dead {
		return
	}
	s.yield("signal.Stop")
	v := vch(c)
	s.touch(&s.sigObj, 32)
	for i, r := range s.sigs {
		if r.v == v {
			s.sigs = append(s.sigs[:i:i], s.sigs[i+1:]...)
			return
		}
	}
}

// SignalNotifyContext stands for signal.NotifyContext.
func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := WithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sigs...)
	if ctx.Err() == nil {
		Go(func() {
			Daemon()
			if Select(false, CR(ch), CR(ctx.Done())) == 0 {
				cancel()
			}
		})
	}
	return ctx, func() {
		cancel()
		SignalStop(ch)
	}
}

// Raise delivers a signal to the process under the scheduler; it tells how many channels asked for it.
// A channel that has no room does not get it.
func Raise(sig os.Signal) int {
	s.yield("signal")
	s.touch(&s.sigObj, 33)
	n := 0
	for _, r := range s.sigs {
		want := len(r.sigs) == 0
		for _, x := range r.sigs {
			want = want || x == sig
		}
		if want {
			n++
			s.touch(&r.v.obj, 34)
			r.v.trySend(sig)
		}
	}
	return n
}
