// Command c33: the listeners of the map server over all short histories of starting, requests, requests in
// progress, shutdown, cancellation and a port that is taken.
package main

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/pkg/grpc/grpcclient"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcserver"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/mapx"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

const patience = 3 * time.Second

// gate is a storage which holds back requests on demand.
type store = memdb.DB

type gate struct {
	*store
	mu   sync.Mutex
	hold int           // so many of the next requests are held back
	held chan struct{} // one token for each that arrived
	open chan struct{}
}

func (g *gate) pass() {
	g.mu.Lock()
	var c chan struct{}
	if g.hold > 0 {
		g.hold--
		c = g.open
		g.held <- struct{}{}
	}
	g.mu.Unlock()
	if c != nil {
		<-c
	}
}

var (
	stateOf *memdb.State
	leaf    *fix.Cert
	names   = []string{"a.com", "b.com"}
)

// setup makes the content of the map.
func setup() {
	far := time.Now().AddDate(20, 0, 0).UTC()
	root := fix.New("R", "", nil, nil, far)
	leaf = fix.New("A", "a.com", nil, root, far)
	d := memdb.New()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := mapx.Start(ctx, d, &mapx.Log{Name: "l", Items: []*fix.Cert{leaf}})
	if err == nil {
		err = s.PruneAndUpdate(ctx)
	}
	if err != nil {
		panic(err)
	}
	stateOf = d.S.Clone()
}

// port returns a port which is free at the moment.
func port() (int, net.Listener, error) {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		return 0, nil, err
	}
	return l.Addr().(*net.TCPAddr).Port, l, nil
}

// errLater: the environment got in the way, try another port.
var errLater = errors.New("port taken by somebody else")

// front is one way to ask the map.
type front interface {
	listen(ctx context.Context, port int) error
	shutdown()                            // as the operator does it
	ask(port int, kind int) (any, error) // a request, error if it cannot connect; its answer
	want(kind int) (any, error)
	kinds() int
	cancels() bool // whether cancelling the context of listen ends it
}

type web struct {
	s   *mapserver.MapServer
	tls bool
}

func (w *web) listen(ctx context.Context, port int) error {
	w.s.HttpAPIPort = port
	if w.tls {
		return w.s.Listen(ctx)
	}
	return w.s.ListenWithoutTLS(ctx)
}
func (w *web) shutdown()     { w.s.Shutdown(context.Background()) }
func (w *web) cancels() bool { return true }
func (w *web) kinds() int    { return 2 }
func (w *web) ask(port, kind int) (any, error) {
	cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}, Timeout: 30 * time.Second}
	scheme := "http"
	if w.tls {
		scheme = "https"
	}
	q := fmt.Sprintf("getproof?%s", url.Values{"domain": {names[0]}}.Encode())
	if kind == 1 {
		q = fmt.Sprintf("getcertpayloads?ids=%x", leaf.ID[:])
	}
	resp, err := cl.Get(fmt.Sprintf("%s://127.0.0.1:%d/%s", scheme, port, q))
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	if resp.StatusCode != 200 {
		return fmt.Sprintf("status %d %s", resp.StatusCode, b), nil
	}
	if kind == 1 {
		return string(b), nil
	}
	var r []*mapCommon.MapServerResponse
	if err := json.Unmarshal(b, &r); err != nil {
		return fmt.Sprintf("not an answer: %s", b), nil
	}
	return plain(r), nil
}
func (w *web) want(kind int) (any, error) {
	if kind == 1 {
		b, err := json.Marshal([][]byte{leaf.C.Raw})
		return string(b) + "\n", err
	}
	r, err := w.s.Responder.GetProof(context.Background(), names[0])
	return plain(r), err
}

func plain(rs []*mapCommon.MapServerResponse) string {
	b, _ := json.Marshal(rs)
	return string(b)
}

type rpc struct {
	s      *grpcserver.ResponderServer
	direct *mapserver.MapServer
	ch     chan byte
}

func (g *rpc) listen(ctx context.Context, port int) error {
	g.ch = make(chan byte, 1)
	return g.s.StartWork(g.ch, port)
}
func (g *rpc) shutdown()     { g.ch <- 1 }
func (g *rpc) cancels() bool { return false }
func (g *rpc) kinds() int    { return 1 }
func (g *rpc) ask(port, kind int) (any, error) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), patience)
	if err != nil {
		return nil, err
	}
	c.Close()
	r, err := grpcclient.GetProofs(names[0], port)
	if err != nil {
		return nil, err
	}
	return plain(r), nil
}
func (g *rpc) want(int) (any, error) {
	r, err := g.direct.Responder.GetProof(context.Background(), names[0])
	return plain(r), err
}

type pending struct {
	kind int
	done chan error
}

// play runs one history: L start, B start although the port is taken, r request, R request that is held
// back in the storage, U let them go on, S shutdown, C cancel the context.
func play(kind string, hist string) (err error) {
	for try := 0; try < 20; try++ {
		if err = play1(kind, hist); !errors.Is(err, errLater) {
			return err
		}
	}
	return err
}

func play1(kind, hist string) (err error) {
	base, stopAll := context.WithCancel(context.Background())
	defer stopAll()
	g := &gate{store: memdb.On(stateOf), held: make(chan struct{}, 10), open: make(chan struct{})}
	g.Point = func(string) { g.pass() }
	s, err := mapx.Start(base, g)
	if err != nil {
		return err
	}
	g.UseCtx, g.NoDeadline = true, true
	var f front = &web{s, kind == "https"}
	if kind == "grpc" {
		gs, err := grpcserver.NewGRPCServer(base, g, mapx.Key)
		if err != nil {
			return err
		}
		f = &rpc{s: gs, direct: s}
	}
	var (
		p        int
		ended    chan error // of the running listener
		asked    bool       // it has been asked to end
		cancel   context.CancelFunc
		inflight []*pending
		turn     int
	)
	want := make([]any, f.kinds())
	for i := range want {
		if want[i], err = f.want(i); err != nil {
			return err
		}
	}
	release := func() {
		g.mu.Lock()
		close(g.open)
		g.open = make(chan struct{})
		g.mu.Unlock()
	}
	judge := func(kind int, a any, err error) error {
		if err != nil {
			return err
		}
		if !reflect.DeepEqual(a, want[kind]) {
			return fmt.Errorf("answer %.300v, expected %.300v", a, want[kind])
		}
		return nil
	}
	refused := func() error { // no new requests are taken
		t := time.Now()
		for {
			c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), patience)
			if err != nil {
				return nil
			}
			c.Close()
			if time.Since(t) > patience {
				return fmt.Errorf("connections are still accepted %s after the shutdown", patience)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	over := func() error { // the listener ends now
		select {
		case e := <-ended:
			ended = nil
			if e != nil {
				return fmt.Errorf("the listener ends with the error %w after a requested shutdown", e)
			}
		case <-time.After(patience):
			return fmt.Errorf("the listener does not end within %s after the shutdown", patience)
		}
		if err := refused(); err != nil {
			return err
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			return fmt.Errorf("the port is not free after the end of the listener: %w", err)
		}
		l.Close()
		return nil
	}
	settle := func() error { // all requests in progress get their answers
		release()
		for _, q := range inflight {
			select {
			case err := <-q.done:
				if err != nil {
					return fmt.Errorf("request in progress: %w", err)
				}
			case <-time.After(patience):
				return fmt.Errorf("request in progress is not answered")
			}
		}
		inflight = nil
		return nil
	}
	cleanup := func() {
		g.mu.Lock()
		g.hold = 0
		g.mu.Unlock()
		release()
		if ended != nil {
			if !asked {
				f.shutdown()
			}
			cancel()
			select {
			case <-ended:
			case <-time.After(10 * time.Second):
			}
		}
	}
	defer cleanup()
	for i, e := range hist {
		err := func() error {
			switch e {
			case 'L':
				var l net.Listener
				if p, l, err = port(); err != nil {
					return err
				}
				l.Close()
				var ctx context.Context
				ctx, cancel = context.WithCancel(base)
				ended, asked = make(chan error, 1), false
				c := ended
				go func(p int) { c <- core.Safe(func() error { return f.listen(ctx, p) }) }(p)
				for t := time.Now(); ; time.Sleep(time.Millisecond) {
					select {
					case e := <-ended:
						ended = nil
						if errors.Is(e, syscall.EADDRINUSE) {
							return errLater
						}
						return fmt.Errorf("the listener ends at once: %v", e)
					default:
					}
					c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), patience)
					if err == nil {
						c.Close()
						return nil
					}
					if time.Since(t) > 5*patience {
						return fmt.Errorf("the listener does not listen: %v", err)
					}
				}
			case 'B':
				q := p
				if ended == nil || asked {
					var l net.Listener
					if q, l, err = port(); err != nil {
						return err
					}
					defer l.Close()
				}
				var ch chan byte
				if r, ok := f.(*rpc); ok {
					ch = r.ch
					defer func() { r.ch = ch }()
				}
				ctx, cancel := context.WithCancel(base)
				defer cancel()
				c := make(chan error, 1)
				go func() { c <- core.Safe(func() error { return f.listen(ctx, q) }) }()
				select {
				case e := <-c:
					if e == nil {
						return fmt.Errorf("listening on a taken port reports success")
					}
					if !errors.Is(e, syscall.EADDRINUSE) {
						return fmt.Errorf("listening on a taken port: %w", e)
					}
				case <-time.After(patience):
					return fmt.Errorf("listening on a taken port does not return")
				}
			case 'r':
				turn++
				k := turn % f.kinds()
				a, err := f.ask(p, k)
				if ended == nil || asked {
					if err == nil {
						return fmt.Errorf("a request is answered although nothing listens: %.100v", a)
					}
					return nil
				}
				return judge(k, a, err)
			case 'R':
				turn++
				q := &pending{turn % f.kinds(), make(chan error, 1)}
				g.mu.Lock()
				g.hold++
				g.mu.Unlock()
				go func(p int) {
					a, err := f.ask(p, q.kind)
					q.done <- judge(q.kind, a, err)
				}(p)
				select {
				case <-g.held:
				case err := <-q.done: // the storage was not needed
					g.mu.Lock()
					g.hold--
					g.mu.Unlock()
					return err
				case <-time.After(patience):
					return fmt.Errorf("a request does not reach the storage")
				}
				inflight = append(inflight, q)
			case 'U':
				if err := settle(); err != nil {
					return err
				}
				if asked && ended != nil {
					return over()
				}
			case 'S', 'C':
				asked = true
				if e == 'S' {
					f.shutdown()
				} else {
					cancel()
				}
				if len(inflight) == 0 {
					return over()
				}
				if err := refused(); err != nil {
					return err
				}
				for k := 0; k < 5; k++ {
					select {
					case err := <-ended:
						ended = nil
						return fmt.Errorf("the listener ends (%v) while %d requests are in progress", err, len(inflight))
					case q := <-inflight[0].done:
						return fmt.Errorf("a request in progress ends without the storage: %v", q)
					case <-time.After(time.Millisecond):
					}
				}
			}
			return nil
		}()
		if errors.Is(err, errLater) {
			return err
		}
		if err != nil {
			return fmt.Errorf("after %s: %w", hist[:i+1], err)
		}
	}
	// The end: everything in progress is answered, and the listener can be stopped.
	if err := settle(); err != nil {
		return fmt.Errorf("at the end of %s: %w", hist, err)
	}
	if ended != nil {
		if !asked {
			f.shutdown()
		}
		asked = true
		if err := over(); err != nil {
			return fmt.Errorf("shutdown at the end of %s: %w", hist, err)
		}
	}
	return nil
}

// histories lists the histories of the length; shorter ones are beginnings of these.
func histories(depth int, cancels bool) (l []string) {
	var rec func(h string, running, asked bool, held int)
	rec = func(h string, running, asked bool, held int) {
		if len(h) == depth {
			l = append(l, h)
			return
		}
		if !running {
			rec(h+"L", true, false, 0)
		}
		if strings.Count(h, "B") < 2 {
			rec(h+"B", running, asked, held)
		}
		if !strings.HasSuffix(h, "r") || len(h) == depth-1 {
			rec(h+"r", running, asked, held)
		}
		if running && !asked && held < 2 {
			rec(h+"R", running, asked, held+1)
		}
		if held > 0 {
			rec(h+"U", running && !asked, asked, 0)
		}
		if running && !asked {
			rec(h+"S", held > 0, true, held)
			if cancels {
				rec(h+"C", held > 0, true, held)
			}
		}
	}
	rec("", false, false, 0)
	return
}

func main() {
	core.Quiet()
	log.SetOutput(io.Discard)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_LOUD") == "" {
		os.Stderr = null
	}
	r := core.Start("C33", "fault_enumeration")
	r.Rule = "all histories of start, start on a taken port, request, request held back in the storage, release, shutdown and cancellation up to a length, for HTTP, HTTPS and gRPC"
	mapx.Setup()
	setup()
	for _, k := range []struct {
		kind  string
		depth int
	}{{"http", r.Pick(6, 8)}, {"grpc", r.Pick(6, 8)}, {"https", r.Pick(5, 7)}} {
		for _, h := range histories(k.depth, k.kind != "grpc") {
			if r.Stop() || r.Expired(k.kind+" histories") {
				break
			}
			if r.Case(k.kind+" "+h, nil, func() error { return play(k.kind, h) }) {
				r.Distinct.Add(1)
				r.Transitions.Add(int64(len(h)))
			}
		}
	}
	r.Assume("loopback connections are reliable, and a step that takes " + patience.String() + " is not going to happen")
	r.Assume("a shutdown is only requested of a running listener, once; the server of the process is used by one history at a time, its handlers are global")
	r.Finish()
}
