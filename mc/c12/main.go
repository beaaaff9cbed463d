// Command c12: fetching from logs under every schedule.
package main

import (
	"cmp"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/ctlog"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

type cfg struct {
	entries      string
	pb, sb, page int
	start, end   int
	fault        string // "kind@n": what goes wrong with request n
	script       string // see body
	local        bool
}

func hang(ctx context.Context) {
	t := time.NewTimer(10 * time.Second) // as the client's timeout
	defer t.Stop()
	select {
	case <-ctx.Done():
	case <-t.C:
	}
}

func newLog(c cfg) *ctlog.Log {
	l := &ctlog.Log{Entries: ctlog.Entries(strings.Fields(c.entries)...), Page: c.page, Wait: hang}
	l.At = func(req string, n int) string {
		vrt.Step(req)
		kind, at, _ := strings.Cut(c.fault, "@")
		if at == fmt.Sprint(n) || at == "*" {
			return kind
		}
		return ""
	}
	return l
}

// body runs a script: "all" reads to the end, "take:k" reads k batches, "stop" stops, "cstop" and
// "ccancel" start a goroutine that stops the fetcher or cancels the context of the reader at any
// time, "start:a-b" starts with another range, "uncancel" gives the reader a new context.
func (c cfg) body() error {
	log := newLog(c)
	f := ctlog.NewFetcher("https://log/", log, c.pb, c.sb)
	ctx, cancel := context.WithCancel(context.Background())
	defer func() { cancel() }()
	reader := func(a, b int) *ctlog.Reader {
		f.StartFetching(int64(a), int64(b))
		return &ctlog.Reader{F: f, Want: log.Entries[a : b+1], Max: c.pb}
	}
	if err := f.Initialize(time.Now()); err != nil {
		return err
	}
	r := reader(c.start, c.end)
	bad := func(r *ctlog.Reader) bool { // an error is to be reported
		for _, e := range r.Want {
			if e.Broken {
				return true
			}
		}
		return log.Hit
	}
	joined := make(chan struct{})
	finish := func() error {
		if r.Stopped {
			return nil
		}
		if r.Failed != nil && !bad(r) {
			return fmt.Errorf("error without a reason: %v", r.Failed)
		}
		if r.Ended && r.Failed == nil && bad(r) {
			return fmt.Errorf("the end is reported, no error, although %q", c.fault+c.entries)
		}
		return nil
	}
	for _, op := range strings.Fields(c.script) {
		op, arg, _ := strings.Cut(op, ":")
		switch op {
		case "all":
			for r.Failed == nil && !r.Ended {
				if _, err := r.Next(ctx); errors.Is(err, context.Canceled) {
					break
				} else if err != nil {
					return err
				}
			}
			if err := finish(); err != nil {
				return err
			}
			if r.Failed != nil { // nothing follows an error
				if ok, err := r.Next(ctx); err != nil && !errors.Is(err, context.Canceled) || ok && !r.Stopped && err == nil {
					return fmt.Errorf("after the error %v there is more, %v", r.Failed, err)
				}
			}
		case "take":
			k := 0
			fmt.Sscan(arg, &k)
			for ; k > 0 && r.Failed == nil && !r.Ended; k-- {
				if _, err := r.Next(ctx); err != nil && !errors.Is(err, context.Canceled) {
					return err
				}
			}
		case "stop":
			f.StopFetching()
			r.Stopped = true
		case "cstop":
			rr := r
			vrt.Go(func() {
				defer close(joined)
				vrt.Step("stop")
				rr.Stopped = true
				f.StopFetching()
			})
		case "ccancel":
			cc := cancel
			vrt.Go(func() {
				vrt.Step("cancel")
				cc()
			})
		case "join":
			<-joined
		case "uncancel":
			ctx, cancel = context.WithCancel(context.Background())
		case "start":
			a, b := 0, 0
			fmt.Sscanf(arg, "%d-%d", &a, &b)
			log.Hit = false
			r = reader(a, b)
		case "fetchall":
			a, b := 0, 0
			fmt.Sscanf(arg, "%d-%d", &a, &b)
			log.Hit = false
			certs, chains, excluded, err := f.FetchAllCertificates(ctx, int64(a), int64(b))
			r = &ctlog.Reader{Want: log.Entries[a : b+1], Stopped: true}
			if e := ctlog.Check(r.Want, certs, chains); e != nil {
				return e
			}
			if excluded != 0 || err == nil && (len(certs) != len(r.Want) || bad(r)) || err != nil && !bad(r) && !errors.Is(err, context.Canceled) {
				return fmt.Errorf("all of [%d,%d]: %d certificates, %d excluded, error %v", a, b, len(certs), excluded, err)
			}
		default:
			panic(op)
		}
	}
	f.StopFetching()
	return nil
}

// localBody runs scripts on the local fetcher.
func (c cfg) localBody(dir string) error {
	f, err := logfetcher.NewLocalLogFetcher("url", dir, 100)
	if err != nil {
		return err
	}
	ctlog.SetField(f, "processBatchSize", c.pb)
	ctx := context.Background()
	rows := strings.Fields(c.entries)
	var got ctlog.Shown
	var failed error
	ended := false
	next := func() bool {
		if !f.NextBatch(ctx) {
			ended = true
			return false
		}
		certs, chains, n, err := f.ReturnNextBatch()
		if err != nil {
			failed = err
			return false
		}
		got.Add(certs, chains, n)
		return true
	}
	for _, op := range strings.Fields(c.script) {
		op, arg, _ := strings.Cut(op, ":")
		switch op {
		case "init":
			if err := f.Initialize(vrt.Base); err != nil {
				return err
			}
			got, failed, ended = ctlog.Shown{}, nil, false
		case "start":
			f.StartFetching(0, int64(len(rows))-1)
		case "take":
			k := 0
			fmt.Sscan(arg, &k)
			for ; k > 0 && next(); k-- {
			}
		case "stop":
			f.StopFetching()
		case "all":
			for next() {
			}
			want, broken := ctlog.WantRows(vrt.Base, rows)
			if (failed != nil) != broken || !broken && got.String() != want.String() {
				return fmt.Errorf("delivered: %v, error %v, ended %v; to be delivered: %v, with error: %v", got, failed, ended, want, broken)
			}
		}
	}
	f.StopFetching()
	return nil
}

// updaterBody runs cycles of the updater.
func (c cfg) updaterBody() error {
	log := newLog(c)
	full := log.Entries
	log.Entries = full[:c.end]
	f := ctlog.NewFetcher("https://log/", log, c.pb, c.sb)
	db := memdb.New()
	u := &updater.MapUpdater{Fetchers: []logfetcher.Fetcher{f}, Conn: db}
	var leaves []*fix.Cert
	for _, e := range full {
		leaves = append(leaves, e.Cert)
	}
	logs := map[string][]*fix.Cert{f.URL(): leaves}
	var wrong error
	op := 0
	dbAt := -1
	fmt.Sscanf(c.fault, "db@%d", &dbAt)
	db.Hook = func(step string, write bool) error {
		if wrong == nil {
			wrong = ctlog.Progress(db.S, logs)
		}
		op++
		if op-1 == dbAt {
			return memdb.ErrInjected
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if strings.Contains(c.script, "ccancel") {
		vrt.Go(func() {
			vrt.Step("cancel")
			cancel()
		})
	}
	err1 := ctlog.Cycle(ctx, u)
	log.Entries = full
	ctx = context.Background()
	err2 := ctlog.Cycle(ctx, u)
	if err := ctlog.Cycle(ctx, u); err != nil {
		return fmt.Errorf("after %v and %v: %w", err1, err2, err)
	}
	f.StopFetching()
	if wrong != nil {
		return wrong
	}
	if err := ctlog.Progress(db.S, logs); err != nil {
		return err
	}
	st := ctlog.State(db.S, f.URL())
	if int(st.Size) != len(full) || st.STH != string(ctlog.STH(len(full))) {
		return fmt.Errorf("the recorded state is %d %q after %d entries are updated (%v, %v)", st.Size, st.STH, len(full), err1, err2)
	}
	return ctlog.Namer().CompareObjects(db.S, fix.ExpectOf(leaves, nil))
}

func main() {
	core.Quiet()
	ctlog.Setup(vrt.Base)
	dir := fmt.Sprintf("%s/local-%d", cmp.Or(os.Getenv("VERIF_WORK"), os.TempDir()), os.Getpid())
	var scens []*vrt.Scenario
	add := func(kind string, q, d int, c cfg) {
		s := &vrt.Scenario{
			Name:  fmt.Sprintf("%s [%s] batch=%d server=%d page=%d range=%d-%d fault=%s: %s", kind, c.entries, c.pb, c.sb, c.page, c.start, c.end, c.fault, c.script),
			Quick: max(q, 0), Deep: d, OnlyDeep: q < 0, MaxSteps: 200000,
			Outcome: func(r *vrt.Result) string { return kind + " " + r.Status.String() },
		}
		switch kind {
		case "http":
			s.Body = c.body
		case "updater":
			s.Body = c.updaterBody
		case "local":
			sub := filepath.Join(dir, fmt.Sprint(len(scens)))
			rows := strings.Fields(c.entries)
			for i := 0; i < len(rows); i += 2 {
				to := min(i+2, len(rows))
				ctlog.WriteFile(filepath.Join(sub, fmt.Sprintf("%d-%d.csv", i, to-1)), rows[i:to])
			}
			s.Body = func() error { return c.localBody(sub) }
		}
		scens = append(scens, s)
	}
	all := "a b c q y z d"
	h := func(q, d int, pb, sb, page, a, b int, fault, script string) {
		add("http", q, d, cfg{entries: all, pb: pb, sb: sb, page: page, start: a, end: b, fault: fault, script: script})
	}
	h(3, 5, 2, 1, 0, 0, 6, "", "all")
	h(3, 5, 3, 2, 1, 1, 5, "", "all")
	h(3, 5, 1, 1, 0, 0, 3, "", "all")
	h(3, 4, 2, 3, 0, 2, 1, "", "all start:0-6 all")
	for k := 0; k <= 3; k++ {
		h(3, 5, 1, 1, 0, 0, 5, "", fmt.Sprintf("take:%d start:1-4 all", k))
		h(2, 4, 2, 1, 0, 0, 6, "", fmt.Sprintf("take:%d stop start:2-6 all", k))
		h(2, 4, 2, 2, 1, 0, 6, "", fmt.Sprintf("take:%d stop all start:0-6 all", k))
	}
	h(3, 4, 1, 1, 0, 0, 5, "", "cstop all join start:1-5 all")
	h(2, 4, 2, 1, 0, 0, 6, "", "cstop take:2 join start:0-6 all")
	h(3, 5, 1, 1, 0, 0, 3, "", "ccancel all uncancel all")
	h(3, 4, 2, 1, 1, 0, 6, "", "ccancel all uncancel start:2-5 all")
	h(2, 4, 2, 1, 0, 0, 6, "", "ccancel fetchall:0-5 uncancel fetchall:1-6")
	h(2, 4, 1, 1, 0, 0, 6, "", "take:1 fetchall:1-6 start:0-6 all")
	for n := 0; n < 4; n++ {
		h(2, 4, 2, 1, 0, 0, 5, fmt.Sprintf("net@%d", n), "all start:1-5 all")
		h(2, 4, 1, 1, 0, 0, 5, fmt.Sprintf("500@%d", n), "take:1 start:0-3 all start:0-6 all")
		h(2, 4, 1, 1, 0, 0, 4, fmt.Sprintf("hang@%d", n), "take:1 start:0-3 all")
		h(2, 4, 2, 1, 0, 0, 4, fmt.Sprintf("hang@%d", n), "all start:0-3 all")
		h(2, 4, 2, 1, 0, 0, 4, fmt.Sprintf("hang@%d", n), "cstop all join start:0-3 all")
	}
	h(2, 4, 2, 2, 0, 0, 4, "none@1", "all start:0-3 all")
	h(2, 4, 2, 2, 0, 0, 4, "more@1", "all start:0-3 all")
	u := func(q, d int, pb, sb, page, size int, fault, script string) {
		add("updater", q, d, cfg{entries: all, pb: pb, sb: sb, page: page, end: size, fault: fault, script: script})
	}
	u(2, 4, 1, 1, 0, 4, "", "")
	u(2, 4, 1, 1, 0, 4, "", "ccancel")
	u(2, 4, 2, 1, 1, 5, "", "ccancel")
	for n := 0; n < 6; n++ {
		u(2, 4, 1, 1, 0, 4, fmt.Sprintf("net@%d", n), "")
		u(1, 3, 1, 1, 0, 4, fmt.Sprintf("hang@%d", n), "")
	}
	for n := 0; n < 30; n++ {
		u(1, 3, 1, 1, 0, 4, fmt.Sprintf("db@%d", n), "")
	}
	l := func(q, d int, entries string, pb int, script string) {
		add("local", q, d, cfg{entries: entries, pb: pb, script: script, local: true})
	}
	l(0, 1, "a b", 1, "init start all")
	l(0, 1, "a b- c old d", 2, "init start all init start all")
	for k := 0; k <= 2; k++ {
		l(0, 1, "a b c d", 1, fmt.Sprintf("init start take:%d init start all", k))
		l(0, 1, "a b c", 1, fmt.Sprintf("init start take:%d stop init start all", k))
	}
	l(0, 1, "a b", 1, "init stop init start all")
	l(0, 1, "a b", 1, "init init start all")
	l(0, 1, "a!leafder b", 1, "init start all")
	l(0, 1, "a b c!chain64 d", 2, "init start all init start all")
	l(0, 1, "a!short", 2, "init start all")
	defer os.RemoveAll(dir)
	vrt.Main("C12", "every schedule of small downloads, with stops, restarts, cancellations, slow and failing answers, of update cycles over them, and of the reading of small local files, with a bounded number of deviations from four base policies", scens, nil)
}
