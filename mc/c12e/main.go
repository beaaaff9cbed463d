// Command c12e: fetching from logs, every small input, page size, fault and file layout.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/ctlog"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

var (
	r   *core.Run
	now = time.Now()
	bg  = context.Background()
)

const all = "a b q c y z R d"

// fetch downloads [a,b] in full; fault happens at request n.
func fetch(l *ctlog.Log, a, b, pb, sb int, expectErr func() bool, again bool) error {
	f := ctlog.NewFetcher("https://log/", l, pb, sb)
	defer f.StopFetching()
	for round := 0; round < 2; round++ {
		f.StartFetching(int64(a), int64(b))
		rd := &ctlog.Reader{F: f, Want: l.Entries[a:max(a, b+1)], Max: pb}
		if err := rd.All(bg); err != nil {
			return err
		}
		bad := expectErr()
		if bad != (rd.Failed != nil) {
			return fmt.Errorf("round %d: error %v after %d entries, expected an error: %v", round, rd.Failed, rd.Pos, bad)
		}
		for i, e := range rd.Want[:rd.Pos] {
			if e.Broken {
				return fmt.Errorf("entry %d, which cannot be decoded, is delivered", i)
			}
		}
		if ok, err := rd.Next(bg); ok || err != nil {
			return fmt.Errorf("after the end there is more (%v)", err)
		}
		if !again {
			return nil
		}
		// What failed was temporary.
		l.At = nil
		l.Hit = false
	}
	return nil
}

func httpPlain() {
	type cs struct{ a, n, pb, sb, page int }
	var l []cs
	maxN := r.Pick(8, 8)
	for a := 0; a <= 4; a++ {
		for n := 0; a+n <= maxN; n++ {
			for pb := 1; pb <= 7; pb++ {
				for sb := 1; sb <= 7; sb++ {
					for page := 0; page <= 4; page++ {
						l = append(l, cs{a, n, pb, sb, page})
					}
				}
			}
		}
	}
	r.Parallel("plain", len(l), func(i int) {
		c := l[i]
		r.Distinct.Add(1)
		r.Case(fmt.Sprintf("plain %+v", c), nil, func() error {
			log := &ctlog.Log{Entries: ctlog.Entries(strings.Fields(all)...), Page: c.page}
			if err := fetch(log, c.a, c.a+c.n-1, c.pb, c.sb, func() bool { return false }, true); err != nil {
				return err
			}
			f := ctlog.NewFetcher("https://log/", log, c.pb, c.sb)
			certs, chains, ex, err := f.FetchAllCertificates(bg, int64(c.a), int64(c.a+c.n-1))
			if err != nil || ex != 0 || len(certs) != c.n {
				return fmt.Errorf("all: %d certificates, %d excluded, error %v", len(certs), ex, err)
			}
			return ctlog.Check(log.Entries[c.a:], certs, chains)
		})
	})
	// Every sequence of answer lengths.
	type ps struct {
		n, pb, sb int
		pages     []int
	}
	var pl []ps
	var rec func(n, pb, sb, left int, pages []int)
	rec = func(n, pb, sb, left int, pages []int) {
		if left <= 0 {
			pl = append(pl, ps{n, pb, sb, append([]int{}, pages...)})
			return
		}
		for p := 1; p <= min(left, sb, pb); p++ {
			rec(n, pb, sb, left-p, append(pages, p))
		}
	}
	for n := 2; n <= r.Pick(7, 8); n++ {
		for pb := 2; pb <= 6; pb++ {
			for sb := 2; sb <= 6; sb++ {
				rec(n, pb, sb, n, nil)
			}
		}
	}
	r.Parallel("answers", len(pl), func(i int) {
		c := pl[i]
		r.Distinct.Add(1)
		r.Case(fmt.Sprintf("answers %+v", c), nil, func() error {
			log := &ctlog.Log{Entries: ctlog.Entries(strings.Fields(all)...), Pages: append([]int{}, c.pages...)}
			return fetch(log, 0, c.n-1, c.pb, c.sb, func() bool { return false }, false)
		})
	})
}

func httpFaults() {
	type cs struct {
		n, pb, sb, page, at int
		kind                string
	}
	var l []cs
	for _, kind := range []string{"net", "500", "404", "json", "cut", "body", "none", "more"} {
		for n := 1; n <= 6; n++ {
			for pb := 1; pb <= 4; pb++ {
				for sb := 1; sb <= 4; sb++ {
					for page := 0; page <= 2; page++ {
						for at := 0; at < n; at++ {
							l = append(l, cs{n, pb, sb, page, at, kind})
						}
					}
				}
			}
		}
	}
	r.Parallel("faults", len(l), func(i int) {
		c := l[i]
		r.Case(fmt.Sprintf("fault %+v", c), nil, func() error {
			log := &ctlog.Log{Entries: ctlog.Entries(strings.Fields(all)...), Page: c.page}
			log.At = func(_ string, n int) string {
				if n == c.at {
					return c.kind
				}
				return ""
			}
			err := fetch(log, 0, c.n-1, c.pb, c.sb, func() bool { return log.Hit }, true)
			return err
		})
		r.Distinct.Add(1)
	})
	type bs struct {
		n, pb, sb, at int
		mark          string
	}
	var bl []bs
	for _, mark := range []string{"a!cert", "b!chain", "a!leaf", "a!extra", "q!cert", "q!chain", "q!leaf", "q!extra"} {
		for n := 1; n <= 6; n++ {
			for at := 0; at < n; at++ {
				for pb := 1; pb <= 4; pb++ {
					for sb := 1; sb <= 4; sb++ {
						bl = append(bl, bs{n, pb, sb, at, mark})
					}
				}
			}
		}
	}
	r.Parallel("entries", len(bl), func(i int) {
		c := bl[i]
		r.Distinct.Add(1)
		r.Case(fmt.Sprintf("entry %+v", c), nil, func() error {
			texts := strings.Fields(all)
			texts[c.at] = c.mark
			log := &ctlog.Log{Entries: ctlog.Entries(texts...)}
			return fetch(log, 0, c.n-1, c.pb, c.sb, func() bool { return true }, false)
		})
	})
	// The range exceeds the log.
	for size := 1; size <= 4; size++ {
		for end := size; end <= 5; end++ {
			for pb := 1; pb <= 4; pb++ {
				r.Distinct.Add(1)
				r.Case(fmt.Sprintf("beyond %d of %d batch %d", end, size, pb), nil, func() error {
					log := &ctlog.Log{Entries: ctlog.Entries(strings.Fields(all)...), Size: size}
					return fetch(log, 0, end, pb, 2, func() bool { return true }, false)
				})
			}
		}
	}
}

// updates runs cycles of the updater over two logs which grow, with one failure, and checks the
// recorded state all along.
func updates() {
	texts := [2][]string{strings.Fields("a b q c y z"), strings.Fields("d b j e q f")}
	type cs struct {
		sizes  [2][2]int // sizes of the logs in the first and later cycles
		pb, sb int
		kind   string // of the failure, "db" for the storage, "cancel" for the context at an operation of the storage
		at     int
		log    int
	}
	var l []cs
	for _, sz := range [][2][2]int{{{3, 5}, {2, 4}}, {{0, 3}, {3, 3}}, {{4, 6}, {0, 0}}, {{1, 1}, {1, 6}}, {{5, 2}, {3, 5}}} {
		for pb := 1; pb <= 3; pb++ {
			for sb := 1; sb <= 2; sb++ {
				l = append(l, cs{sizes: sz, pb: pb, sb: sb, kind: "-"})
				for at := 0; at < 16; at++ {
					for lg := 0; lg < 2; lg++ {
						for _, kind := range []string{"net", "500", "json", "none", "more"} {
							l = append(l, cs{sz, pb, sb, kind, at, lg})
						}
					}
				}
				for at := 0; at < 70; at++ {
					l = append(l, cs{sz, pb, sb, "db", at, 0}, cs{sz, pb, sb, "cancel", at, 0})
				}
			}
		}
	}
	var maxOps, maxReq atomic.Int64
	r.Parallel("updates", len(l), func(i int) {
		c := l[i]
		r.Case(fmt.Sprintf("updates %+v", c), nil, func() error {
			c, hit, mu := c, false, &sync.Mutex{}
			db := memdb.New()
			u := &updater.MapUpdater{Conn: db}
			var logs [2]*ctlog.Log
			all := map[string][]*fix.Cert{}
			for i := range logs {
				lg := &ctlog.Log{Entries: ctlog.Entries(texts[i]...)}
				logs[i] = lg
				url := fmt.Sprintf("https://log%d/", i)
				for _, e := range lg.Entries {
					all[url] = append(all[url], e.Cert)
				}
				if i == c.log {
					lg.At = func(_ string, n int) string {
						if n == c.at && c.kind != "db" && c.kind != "cancel" && c.kind != "-" {
							hit = true
							return c.kind
						}
						return ""
					}
				}
				f := ctlog.NewFetcher(url, sized{lg, &c.sizes[i][0], mu}, c.pb, c.sb)
				defer f.StopFetching()
				u.Fetchers = append(u.Fetchers, f)
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			var wrong error
			op := 0
			db.Hook = func(step string, write bool) error {
				if wrong == nil {
					wrong = ctlog.Progress(db.S, all)
				}
				op++
				if op-1 == c.at && c.kind == "db" {
					hit = true
					return memdb.ErrInjected
				}
				if op-1 == c.at && c.kind == "cancel" {
					hit = true
					cancel()
				}
				return ctx.Err()
			}
			sizes := c.sizes
			for cycle := 0; cycle < 4; cycle++ {
				mu.Lock()
				hit = false
				for i := range logs {
					c.sizes[i] = [2]int{sizes[i][min(cycle, 1)], 0}
				}
				mu.Unlock()
				var before [2]memdb.LogState
				for i, f := range u.Fetchers {
					before[i] = ctlog.State(db.S, f.URL())
				}
				err := ctlog.Cycle(ctx, u)
				mu.Lock()
				hit := hit
				mu.Unlock()
				if wrong != nil {
					return wrong
				}
				if e := ctlog.Progress(db.S, all); e != nil {
					return e
				}
				if err == nil {
					var leaves []*fix.Cert
					for i, f := range u.Fetchers {
						// A log that has become smaller stays as it was.
						size := int64(c.sizes[i][0])
						want := memdb.LogState{Size: size, STH: string(ctlog.STH(int(size)))}
						if size <= before[i].Size {
							want = before[i]
						}
						if st := ctlog.State(db.S, f.URL()); st != want {
							return fmt.Errorf("cycle %d: the recorded state of log %d is %v, not %v", cycle, i, st, want)
						}
						leaves = append(leaves, all[f.URL()][:max(size, before[i].Size)]...)
					}
					// (An aborted cycle may have stored more of a log that is smaller now.)
					shrunk := sizes[0][1] < sizes[0][0] || sizes[1][1] < sizes[1][0]
					if e := ctlog.Namer().CompareObjects(db.S, fix.ExpectOf(leaves, nil)); e != nil && !shrunk {
						return fmt.Errorf("cycle %d: %w", cycle, e)
					}
				}
				if err != nil && !hit && ctx.Err() == nil {
					return fmt.Errorf("cycle %d fails without a reason: %w", cycle, err)
				}
				if err == nil && hit && c.kind == "db" {
					return fmt.Errorf("cycle %d reports success although the storage failed", cycle)
				}
				ctx = bg
			}
			if n := int64(op); n > maxOps.Load() {
				maxOps.Store(n)
			}
			if n := int64(max(logs[0].Requests, logs[1].Requests)); n > maxReq.Load() {
				maxReq.Store(n)
			}
			return nil
		})
		r.Distinct.Add(1)
	})
	r.Extra("most_storage_operations_of_a_history", maxOps.Load())
	r.Extra("most_requests_of_a_history", maxReq.Load())
}

// sized answers as the log does when it has *n entries.
type sized struct {
	l  *ctlog.Log
	n  *int
	mu *sync.Mutex // the rest of an aborted download is answered too
}

func (s sized) RoundTrip(req *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	full := s.l.Entries
	s.l.Entries = full[:*s.n]
	defer func() { s.l.Entries = full }()
	return s.l.RoundTrip(req)
}

// ---- local files

type file struct {
	name   string
	rows   []string
	damage string // "cut": the file ends early, "empty": it is empty
}

func write(dir string, f file) {
	data := ""
	for _, t := range f.rows {
		data += ctlog.Row(t)
	}
	b := []byte(data)
	if strings.HasSuffix(f.name, ".gz") {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(b)
		w.Close()
		b = z.Bytes()
	}
	switch f.damage {
	case "cut":
		b = b[:len(b)/2]
	case "empty":
		b = nil
	}
	name := filepath.Join(dir, f.name)
	if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
}

var dirs atomic.Int64

func scratch() string {
	d := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("local-%d-%d", os.Getpid(), dirs.Add(1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// readLocal reads what the files provide for [start,end].
func readLocal(f *logfetcher.LocalLogFetcher, start, end int64) (got ctlog.Shown, err error) {
	f.StartFetching(start, end)
	for f.NextBatch(bg) {
		certs, chains, n, e := f.ReturnNextBatch()
		if e != nil {
			err = e
			break
		}
		got.Add(certs, chains, n)
	}
	return
}

func local() {
	kinds := []string{"a", "b", "y", "z", "old", "edge", "c-", "d+", "!empty"}
	bads := []string{"a!leaf64", "a!leafder", "a!chain64", "b!chainder", "a!exp", "a!expn", "a!short", "a!quote"}
	type cs struct {
		files []file
		bad   bool
		pb    int
	}
	var l []cs
	rows := func(n int, base int) (t []string) {
		for i := 0; i < n; i++ {
			t = append(t, strings.Split("abcdefghij", "")[(base+i)%10])
		}
		return
	}
	// The kinds of rows, in one or two files, as the bad row at every position.
	for _, ext := range []string{".csv", ".gz", "sub"} {
		nm := func(a, b int) string {
			if ext == "sub" {
				return fmt.Sprintf("x/y/%d-%d.gz", a, b)
			}
			return fmt.Sprintf("%d-%d%s", a, b, ext)
		}
		for _, pb := range []int{1, 2, 100} {
			for _, k := range append(append([]string{}, kinds...), bads...) {
				for at := 0; at < 3; at++ {
					t := rows(3, 0)
					t[at] = k
					_, broken := ctlog.WantRows(now, t)
					l = append(l, cs{[]file{{name: nm(0, 2), rows: t}}, broken, pb},
						cs{[]file{{name: nm(0, 1), rows: rows(2, 3)}, {name: nm(2, 4), rows: t}}, broken, pb})
				}
			}
			for _, d := range []string{"cut", "empty"} {
				if ext != ".csv" {
					l = append(l, cs{[]file{{name: nm(0, 1), rows: rows(2, 3)}, {name: nm(2, 4), rows: rows(3, 0), damage: d}}, true, pb})
				} else if d == "cut" {
					l = append(l, cs{[]file{{name: nm(0, 0), rows: rows(1, 3), damage: d}}, true, pb})
				}
			}
		}
	}
	r.Parallel("local rows", len(l), func(i int) {
		c := l[i]
		r.Distinct.Add(1)
		r.Case(fmt.Sprintf("local %+v", c), nil, func() error {
			dir := scratch()
			defer os.RemoveAll(dir)
			var t []string
			for _, f := range c.files {
				write(dir, f)
				t = append(t, f.rows...)
			}
			f, err := logfetcher.NewLocalLogFetcher("url", dir, 100)
			if err != nil {
				return err
			}
			defer f.StopFetching()
			ctlog.SetField(f, "processBatchSize", c.pb)
			for round := 0; round < 2; round++ {
				if err := f.Initialize(now); err != nil {
					return err
				}
				st, err := f.GetCurrentState(bg, logfetcher.State{})
				if err != nil {
					return err
				}
				got, err := readLocal(f, 0, int64(st.Size)-1)
				if (err != nil) != c.bad {
					return fmt.Errorf("delivered %v, error %v", got, err)
				}
				if want, _ := ctlog.WantRows(now, t); err == nil && got.String() != want.String() {
					return fmt.Errorf("delivered %v, the rows are %v", got, want)
				}
			}
			return nil
		})
	})
	// Layouts: every set of up to four of these ranges, and the ranges that are read from them.
	spans := [][2]int{{0, 0}, {0, 2}, {1, 2}, {3, 3}, {3, 5}, {4, 5}, {6, 8}, {10, 12}, {13, 13}}
	type layout struct {
		set   []int
		limit int
	}
	var ll []layout
	for m := 0; m < 1<<len(spans); m++ {
		var set []int
		starts := map[int]bool{}
		dup := false
		for i := range spans {
			if m>>i&1 == 1 {
				set = append(set, i)
				dup = dup || starts[spans[i][0]]
				starts[spans[i][0]] = true
			}
		}
		if dup || len(set) > 5 {
			continue
		}
		for _, limit := range []int{0, 1, 3, 5, 100} {
			ll = append(ll, layout{set, limit})
		}
	}
	r.Parallel("local layouts", len(ll), func(i int) {
		c := ll[i]
		r.Distinct.Add(1)
		r.Case(fmt.Sprintf("layout %+v", c), nil, func() error {
			dir := scratch()
			defer os.RemoveAll(dir)
			next := map[int][2]int{}
			for j, k := range c.set {
				sp := spans[k]
				next[sp[0]] = sp
				ext := []string{".csv", ".gz"}[j%2]
				sub := []string{"", "s/"}[j/2%2]
				write(dir, file{name: fmt.Sprintf("%s%d-%d%s", sub, sp[0], sp[1], ext), rows: rows(sp[1]-sp[0]+1, sp[0])})
			}
			write(dir, file{name: "notes.txt", rows: nil})
			f, err := logfetcher.NewLocalLogFetcher("url", dir, uint64(c.limit))
			if err != nil {
				return err
			}
			defer f.StopFetching()
			for start := 0; start <= 14; start++ {
				if err := f.Initialize(now); err != nil {
					return err
				}
				last := logfetcher.State{Size: uint64(start), STH: []byte("s")}
				st, err := f.GetCurrentState(bg, last)
				if err != nil {
					return err
				}
				// What the files allow: the contiguous ones from start, the first one always, more up to the limit.
				want := start
				for {
					sp, ok := next[want]
					if !ok || want > start && sp[1]+1-start > c.limit {
						break
					}
					want = sp[1] + 1
				}
				if int(st.Size) != want {
					return fmt.Errorf("from %d the reachable size is %d, not %d", start, st.Size, want)
				}
				got, err := readLocal(f, int64(start), int64(st.Size)-1)
				if err != nil {
					return err
				}
				exp, _ := ctlog.WantRows(now, rows(want-start, start))
				if got.String() != exp.String() {
					return fmt.Errorf("[%d,%d): delivered %v, the rows are %v", start, want, got, exp)
				}
			}
			return nil
		})
	})
	// Refused folders.
	for name, files := range map[string][]file{
		"twice":    {{name: "0-1.csv", rows: rows(2, 0)}, {name: "0-2.gz", rows: rows(3, 0)}},
		"number":   {{name: "0-x.csv", rows: rows(2, 0)}},
		"number2":  {{name: "y-3.gz", rows: rows(2, 0)}},
		"reversed": {{name: "0-3.csv", rows: rows(4, 0)}, {name: "4-2.csv", rows: rows(1, 0)}},
		"missing":  nil,
	} {
		r.Distinct.Add(1)
		r.Case("refused "+name, nil, func() error {
			dir := scratch()
			defer os.RemoveAll(dir)
			for _, f := range files {
				write(dir, f)
			}
			if files == nil {
				dir += "/missing"
			}
			f, err := logfetcher.NewLocalLogFetcher("url", dir, 100)
			if err != nil {
				return err
			}
			defer f.StopFetching()
			if err := f.Initialize(now); err == nil {
				return fmt.Errorf("accepted")
			}
			return nil
		})
	}
}

// localUpdates runs cycles over a growing folder with a failure of the storage at every operation.
func localUpdates() {
	batches := [][]file{
		{{name: "0-2.csv", rows: []string{"a", "b", "old"}}, {name: "3-3.gz", rows: []string{"c"}}},
		{{name: "4-6.gz", rows: []string{"d", "y-", "z"}}},
		{{name: "7-8.csv", rows: []string{"e", "!empty", "f"}}},
	}
	type cs struct {
		limit, pb, at int
		kind          string
	}
	var l []cs
	for _, limit := range []int{1, 4, 100} {
		for _, pb := range []int{1, 2, 50} {
			l = append(l, cs{limit, pb, -1, "-"})
			for at := 0; at < 70; at++ {
				l = append(l, cs{limit, pb, at, "db"})
			}
			for at := 0; at < 3; at++ {
				l = append(l, cs{limit, pb, at, "file"})
			}
		}
	}
	r.Parallel("local updates", len(l), func(i int) {
		c := l[i]
		r.Distinct.Add(1)
		r.Case(fmt.Sprintf("local updates %+v", c), nil, func() error {
			dir := scratch()
			defer os.RemoveAll(dir)
			db := memdb.New()
			f, err := logfetcher.NewLocalLogFetcher("https://x/", dir, uint64(c.limit))
			if err != nil {
				return err
			}
			defer f.StopFetching()
			ctlog.SetField(f, "processBatchSize", c.pb)
			u := &updater.MapUpdater{Conn: db, Fetchers: []logfetcher.Fetcher{f}}
			var ops, size int
			var starts []int
			at := map[int][]*fix.Cert{} // per size: certificates of the rows
			end := map[int]int{}
			var wrong error
			check := func() {
				st := int(ctlog.State(db.S, f.URL()).Size)
				for _, s := range starts {
					if wrong == nil && end[s] <= st {
						if err := ctlog.Covered(db.S, at[s]); err != nil {
							wrong = fmt.Errorf("size %d is recorded: %w", st, err)
						}
					}
				}
				if st > size && wrong == nil {
					wrong = fmt.Errorf("size %d is recorded, the files have %d rows", st, size)
				}
			}
			hit := false
			db.Hook = func(string, bool) error {
				check()
				ops++
				if ops-1 == c.at && c.kind == "db" {
					hit = true
					return memdb.ErrInjected
				}
				return nil
			}
			var all []*fix.Cert
			for n := 0; n < len(batches)+8; n++ {
				if n < len(batches) {
					for _, fl := range batches[n] {
						s := 0
						fmt.Sscanf(filepath.Base(fl.name), "%d-", &s)
						starts = append(starts, s)
						for _, t := range fl.rows {
							if sh, _ := ctlog.WantRows(now, []string{t}); len(sh.Certs) == 1 {
								at[s] = append(at[s], ctlog.Universe[strings.Fields(t)[0]])
								all = append(all, ctlog.Universe[t])
							}
							if t != "!empty" {
								size++
							}
						}
						end[s] = size
						write(dir, fl)
					}
					sort.Ints(starts)
				}
				broken := c.kind == "file" && n == c.at
				if broken { // a row of the files is broken during this cycle
					fl := batches[n][0]
					write(dir, file{name: fl.name, rows: append([]string{"a!leafder"}, fl.rows[1:]...)})
				}
				hit = false
				err := ctlog.Cycle(bg, u)
				check()
				if wrong != nil {
					return wrong
				}
				if broken {
					write(dir, batches[n][0])
					// The file is not necessarily reached in this cycle.
					if st := int(ctlog.State(db.S, f.URL()).Size); err == nil && st > 0 {
						s := 0
						fmt.Sscanf(filepath.Base(batches[n][0].name), "%d-", &s)
						if st > s {
							return fmt.Errorf("a cycle over a broken row reports success")
						}
					}
					continue
				}
				if (err != nil) != hit {
					return fmt.Errorf("cycle %d: %v, a failure happened: %v", n, err, hit)
				}
			}
			if st := ctlog.State(db.S, f.URL()); int(st.Size) != size {
				return fmt.Errorf("the recorded size is %d in the end, not %d", st.Size, size)
			}
			return ctlog.Namer().CompareObjects(db.S, fix.ExpectOf(all, nil))
		})
	})
}

func main() {
	core.Quiet()
	r = core.Start("C12", "model_checking")
	r.Rule = "every range, batch size, request size and answer length up to small bounds, every position and kind of one failing request or undecodable entry, every layout of small local files and kind of row, every position of one failing storage operation or cancellation over update cycles"
	ctlog.Setup(now)
	httpPlain()
	httpFaults()
	updates()
	local()
	localUpdates()
	r.Finish()
}
