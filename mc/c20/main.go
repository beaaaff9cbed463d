// Overlaid into cmd/ingest: interrupted runs of the ingestion.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/vos"
)

// vFile is an input file: a range of cells of 10 indices.
type vFile struct {
	a, b int
	csv  bool
}

func (f vFile) name() string {
	n := fmt.Sprintf("%d-%d", f.a*10, f.b*10+9)
	if f.csv {
		return n + ".csv"
	}
	return filepath.Join("bundled", n+".gz")
}

// vRun is one invocation of the command.
type vRun struct {
	strategy string
	batch    int
	csv      bool
	stats    bool
	add      int // file appearing before the run, -1: none
}

func (r vRun) String() string {
	return fmt.Sprintf("{%q batch=%d csv=%v add=%d}", r.strategy, r.batch, r.csv, r.add)
}

// vEvent is something that happens in a run.
type vEvent struct {
	kind string // before, batch, coalesce, smt, record, estimate, or an operation on the file system
	size int
	what string
}

// vFate is what goes wrong at event n.
type vFate struct {
	at   int
	kind string // err0, err1, errhalf, crash0, crash1, crashhalf, cancel0, cancel1, part (error), partcrash
	part int
}

var vErr = errors.New("injected failure")

// vDB is what the storage holds.
type vDB struct {
	ingested, coalesced, smt map[string]bool
	ct                       map[string]int64
}

func (d *vDB) clone() *vDB {
	cp := func(m map[string]bool) map[string]bool {
		c := map[string]bool{}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	ct := map[string]int64{}
	for k, v := range d.ct {
		ct[k] = v
	}
	return &vDB{cp(d.ingested), cp(d.coalesced), cp(d.smt), ct}
}

type vWorld struct {
	root  string // everything
	dir   string // the ingest directory
	files []vFile
	has   map[int]bool
	fs    *vos.FS
	db    *vDB

	// one run
	events     []vEvent
	calls      []string
	cancel     context.CancelFunc
	cancelled  bool
	afterwards []string // calls after the cancellation
	fate       *vFate
}

var vN atomic.Int64

func vMust(err error) {
	if err != nil {
		panic(core.PanicError{V: "harness: " + err.Error()})
	}
}

func vNew(base, log string, files []vFile, present int) *vWorld {
	w := &vWorld{root: filepath.Join(base, fmt.Sprint(vN.Add(1))), files: files, has: map[int]bool{},
		db: &vDB{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]int64{}}}
	w.dir = filepath.Join(w.root, log)
	vMust(os.MkdirAll(filepath.Join(w.dir, "bundled"), 0o755))
	for i := range files {
		if present>>i&1 == 1 {
			w.put(i)
		}
	}
	w.fs = vos.Attach(w.root)
	return w
}

func (w *vWorld) put(i int) {
	w.has[i] = true
	vMust(os.WriteFile(filepath.Join(w.dir, w.files[i].name()), nil, 0o644))
}

func (w *vWorld) end() {
	w.fs.Detach()
	os.RemoveAll(w.root)
}

func (w *vWorld) journalFile() string { return filepath.Join(w.root, "journal.json") }

// happen decides about an event of the dependencies.
func (w *vWorld) happen(kind, what string, effect func(half bool)) error {
	n := len(w.events)
	w.events = append(w.events, vEvent{kind, 0, what})
	w.calls = append(w.calls, kind+what)
	if w.cancelled {
		w.afterwards = append(w.afterwards, kind+what)
	}
	if w.fate == nil || w.fate.at != n {
		effect(false)
		return nil
	}
	switch w.fate.kind {
	case "err0":
		return vErr
	case "err1":
		effect(false)
		return vErr
	case "errhalf":
		effect(true)
		return vErr
	case "crash0":
		w.fs.Die(kind)
	case "crash1":
		effect(false)
		w.fs.Die(kind)
	case "crashhalf":
		effect(true)
		w.fs.Die(kind)
	case "cancel0": // the phase gives up
		w.cancelled = true
		w.cancel()
		return context.Canceled
	case "cancel1": // the phase does not notice
		w.cancelled = true
		w.cancel()
		effect(false)
	}
	return nil
}

func vBase(files []string) string {
	var l []string
	for _, f := range files {
		l = append(l, filepath.Base(f))
	}
	return fmt.Sprint(l)
}

// run executes one invocation.
func (w *vWorld) run(r vRun, fate *vFate) (err error, crashed bool) {
	w.events, w.calls, w.afterwards, w.cancelled, w.fate = nil, nil, nil, false, fate
	w.fs.Restart()
	w.fs.Decide = func(o vos.Op) *vos.Fate {
		n := len(w.events)
		w.events = append(w.events, vEvent{o.Kind, o.Size, filepath.Base(o.Path)})
		if fate == nil || fate.at != n {
			return nil
		}
		switch fate.kind {
		case "err0":
			return &vos.Fate{Err: syscall.EIO}
		case "crash0":
			return &vos.Fate{Crash: true}
		case "part":
			return &vos.Fate{Err: syscall.ENOSPC, Part: fate.part}
		case "partcrash":
			return &vos.Fate{Crash: true, Part: fate.part}
		case "cancel1":
			w.cancelled = true
			w.cancel()
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w.cancel = cancel
	if fate != nil && fate.at < 0 {
		w.cancelled = true
		cancel()
	}
	cfg := RunConfig{Directory: w.dir, Strategy: r.strategy, JournalFile: w.journalFile(), FileBatch: r.batch, IncludePlainCSVs: r.csv}
	deps := RunDependencies{
		NewJournal: func(c RunConfig, jc journal.JobConfiguration) (*journal.Journal, error) {
			return journal.NewJournal(c.JournalFile, jc, c.Directory)
		},
		NewStatistics: func() *statistics.Stats {
			if r.stats {
				return statistics.NewStatistics(time.Hour, func(*statistics.Stats) {})
			}
			return nil
		},
		EstimateCertCount: func(f string) (uint, error) {
			return 1, w.happen("estimate", filepath.Base(f), func(bool) {})
		},
		BeforeBatch: func(n, total int) error {
			return w.happen("before", fmt.Sprintf("%d/%d", n, total), func(bool) {})
		},
		RunBatch: func(_ *statistics.Stats, files []string) error {
			return w.happen("batch", vBase(files), func(half bool) {
				for i, f := range files {
					if half && 2*i >= len(files) {
						break
					}
					w.db.ingested[filepath.Base(f)] = true
				}
			})
		},
		Coalesce: func() error {
			return w.happen("coalesce", "", func(half bool) {
				for f := range w.db.ingested {
					w.db.coalesced[f] = true
				}
			})
		},
		UpdateSMT: func() error {
			return w.happen("smt", "", func(half bool) {
				for f := range w.db.coalesced {
					w.db.smt[f] = true
				}
			})
		},
		RecordCTSize: func(_ context.Context, u string, size int64) error {
			return w.happen("record", fmt.Sprintf("%s %d", u, size), func(bool) { w.db.ct[u] = size })
		},
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(vos.Crash); !ok {
				panic(e)
			}
			err, crashed = nil, true
		}
	}()
	return runIngest(ctx, cfg, deps), false
}

// claim is what the journal on disk says.
type vClaim struct {
	pending            []string // in order, for the given listing
	coalesced, updated bool
	size               int64
	jobs               int
	intervals          []journal.Interval
	none               bool
}

func (w *vWorld) claim(csv bool) (c vClaim, err error) {
	w.fs.Restart()
	b, err := os.ReadFile(w.journalFile())
	cp := filepath.Join(w.root, "copy.json")
	if errors.Is(err, os.ErrNotExist) {
		c.none = true
	} else if err != nil {
		return c, err
	} else {
		vMust(os.WriteFile(cp, b, 0o644))
	}
	defer os.Remove(cp)
	j, err := journal.NewJournal(cp, journal.JobConfiguration{IngestFiles: true, IncludePlainCSVs: csv}, w.dir)
	if err != nil {
		return c, fmt.Errorf("the journal cannot be read: %w", err)
	}
	last := j.Jobs[len(j.Jobs)-1]
	c.coalesced, c.updated, c.size, c.jobs = last.Coalesced, last.UpdatedSMT, last.RecordedCTLogSize, len(j.Jobs)-1
	c.intervals = last.CompletedIndices[filepath.Base(w.dir)]
	p, err := j.PendingFiles()
	if err != nil {
		return c, err
	}
	for _, f := range p {
		c.pending = append(c.pending, filepath.Base(f))
	}
	return c, nil
}

// present lists the present files.
func (w *vWorld) present(csv bool) (l []string) {
	for i, f := range w.files {
		if w.has[i] && (csv || !f.csv) {
			l = append(l, filepath.Base(f.name()))
		}
	}
	return
}

// sound checks that the journal claims no more than what is stored.
func (w *vWorld) sound() error {
	c, err := w.claim(true)
	if err != nil {
		return err
	}
	// indices stored
	var in, co, sm uint
	for _, f := range w.files {
		n := filepath.Base(f.name())
		m := uint(1)<<(f.b+1) - uint(1)<<f.a
		if w.db.ingested[n] {
			in |= m
		}
		if w.db.coalesced[n] {
			co |= m
		}
		if w.db.smt[n] {
			sm |= m
		}
	}
	for _, i := range c.intervals {
		m := uint(1)<<(i.End/10+1) - uint(1)<<(i.Start/10)
		if m&^in != 0 {
			return fmt.Errorf("the journal claims %v, but the stored cells are %b", i, in)
		}
		if c.coalesced && m&^co != 0 {
			return fmt.Errorf("the journal claims that %v has its entries, but the cells with entries are %b", i, co)
		}
		if c.updated && m&^sm != 0 {
			return fmt.Errorf("the journal claims that %v is in the tree, but the cells in the tree are %b", i, sm)
		}
	}
	for _, f := range w.present(true) {
		if !slices.Contains(c.pending, f) && !w.coveredBy(f, in) {
			return fmt.Errorf("file %s is not pending, but not stored", f)
		}
	}
	return nil
}

func (w *vWorld) coveredBy(name string, cells uint) bool {
	for _, f := range w.files {
		if filepath.Base(f.name()) == name {
			m := uint(1)<<(f.b+1) - uint(1)<<f.a
			return m&^cells == 0
		}
	}
	return false
}

// expected is the sequence of calls of a run without faults, and whether it ends with an error.
func (w *vWorld) expected(r vRun, c vClaim) (l []string, bad bool) {
	switch r.strategy {
	case "recordctsize":
		u, ok := vURL(filepath.Base(w.dir))
		size := int64(0)
		if len(c.intervals) > 0 && c.intervals[0].Start == 0 {
			size = int64(c.intervals[0].End) + 1
		}
		if !ok || size == 0 {
			return nil, true
		}
		return []string{fmt.Sprintf("record%s %d", u, size)}, false
	case "skipingest":
		return []string{"coalesce", "smt"}, false
	case "onlysmtupdate":
		return []string{"smt"}, false
	}
	if r.stats {
		for _, f := range c.pending {
			l = append(l, "estimate"+f)
		}
	}
	n := len(c.pending)
	b := r.batch
	if b <= 0 || b > n {
		b = n
	}
	full := r.strategy == ""
	for i := 0; i < n; i += b {
		e := min(i+b, n)
		l = append(l, fmt.Sprintf("before%d/%d", i/b+1, (n+b-1)/b), "batch"+fmt.Sprint(c.pending[i:e]))
		if full {
			l = append(l, "coalesce", "smt")
		}
	}
	if full && n == 0 && len(c.intervals) > 0 && !(c.coalesced && c.updated) {
		l = append(l, "coalesce", "smt")
	}
	return l, false
}

// vURL is the log of a directory name.
func vURL(base string) (string, bool) {
	u, err := url.Parse(strings.ReplaceAll(base, "_", "/"))
	if err != nil || u.Scheme == "" || u.Host == "" {
		return "", false
	}
	return u.String(), true
}

// check runs an invocation and checks what it did.
func (w *vWorld) check(r vRun, fate *vFate) error {
	if r.add >= 0 {
		w.put(r.add)
	}
	c, err := w.claim(r.csv)
	if err != nil {
		return err
	}
	want, bad := w.expected(r, c)
	dbBefore := w.db.clone()
	err, crashed := w.run(r, fate)
	name := fmt.Sprintf("run %v fate %+v: calls %v, error %v, crash %v", r, fate, w.calls, err, crashed)
	calls := slices.Clone(w.calls)
	if len(calls) > len(want) || !slices.Equal(calls, want[:len(calls)]) {
		return fmt.Errorf("%s: the calls are not the beginning of %v", name, want)
	}
	after := slices.Clone(w.afterwards)
	wasCancelled := w.cancelled
	if e := w.sound(); e != nil {
		return fmt.Errorf("%s: %w", name, e)
	}
	n, e := w.claim(r.csv)
	if e != nil {
		return fmt.Errorf("%s: %w", name, e)
	}
	if crashed { // a temporary file may be left
		for _, f := range vos.Entries(w.root, "journal.json.") {
			vMust(os.Remove(filepath.Join(w.root, f)))
		}
		return nil
	}
	if l := vos.Entries(w.root, "journal.json."); len(l) > 0 && (fate == nil || fate.kind != "err0" || w.events[fate.at].kind != "remove") {
		return fmt.Errorf("%s: files left: %v", name, l)
	}
	complete := len(calls) == len(want)
	if bad {
		if err == nil || len(w.calls) > 0 || fmt.Sprint(w.db.ct) != fmt.Sprint(dbBefore.ct) || n.size != c.size {
			return fmt.Errorf("%s: an error is expected, size %d", name, n.size)
		}
		return nil
	}
	if err != nil && fate == nil {
		return fmt.Errorf("%s: unexpected error", name)
	}
	if fate != nil && fate.at >= 0 && (fate.kind == "err0" || fate.kind == "err1" || fate.kind == "errhalf") && w.isCall(fate.at) && !errors.Is(err, vErr) {
		return fmt.Errorf("%s: the failure is not reported", name)
	}
	if wasCancelled {
		// At most the current batch goes on.
		for _, a := range after {
			if strings.HasPrefix(a, "before") || strings.HasPrefix(a, "estimate") || strings.HasPrefix(a, "record") || r.strategy == "skipingest" {
				return fmt.Errorf("%s: %v after the cancellation", name, after)
			}
		}
		if !complete && !errors.Is(err, context.Canceled) {
			return fmt.Errorf("%s: the cancellation is not reported", name)
		}
	}
	if err != nil {
		return nil
	}
	// success
	if !complete {
		return fmt.Errorf("%s: success, but the calls are not %v", name, want)
	}
	switch r.strategy {
	case "recordctsize":
		u, _ := vURL(filepath.Base(w.dir))
		if n.size != w.db.ct[u] {
			return fmt.Errorf("%s: size %d in the journal, %d in the database", name, n.size, w.db.ct[u])
		}
		if fmt.Sprint(n.intervals, n.coalesced, n.updated) != fmt.Sprint(c.intervals, c.coalesced, c.updated) {
			return fmt.Errorf("%s: progress changed", name)
		}
	case "", "onlyingest":
		if len(n.pending) > 0 {
			return fmt.Errorf("%s: success, but %v are pending", name, n.pending)
		}
		if r.strategy == "" && len(n.intervals) > 0 && !(n.coalesced && n.updated) {
			return fmt.Errorf("%s: success, but the phases are not recorded", name)
		}
	case "skipingest":
		if !n.coalesced || !n.updated {
			return fmt.Errorf("%s: success, but the phases are not recorded", name)
		}
	case "onlysmtupdate":
		if !n.updated {
			return fmt.Errorf("%s: success, but the phase is not recorded", name)
		}
	}
	return nil
}

// isCall tells whether event n is a call of a dependency.
func (w *vWorld) isCall(n int) bool {
	return slices.Contains([]string{"estimate", "before", "batch", "coalesce", "smt", "record"}, w.events[n].kind)
}

// allowed excludes updating the tree without computing the entries first, which the user must not ask for.
func (w *vWorld) allowed(r vRun) bool {
	if r.strategy != "onlysmtupdate" {
		return true
	}
	for f := range w.db.ingested {
		if !w.db.coalesced[f] {
			return false
		}
	}
	return true
}

// fates lists what can go wrong at each event of the last run.
func vFates(events []vEvent) (l []vFate) {
	l = append(l, vFate{at: -1, kind: "cancelled before"})
	for i, e := range events {
		add := func(kinds ...string) {
			for _, k := range kinds {
				l = append(l, vFate{at: i, kind: k})
			}
		}
		switch e.kind {
		case "batch":
			add("err0", "err1", "errhalf", "crash0", "crash1", "crashhalf", "cancel0", "cancel1")
		case "coalesce", "smt", "record":
			add("err0", "err1", "crash0", "crash1", "cancel0", "cancel1")
		case "before", "estimate":
			add("err0", "crash0", "cancel1")
		case "write":
			add("err0", "crash0", "cancel1")
			l = append(l, vFate{i, "part", e.size / 2}, vFate{i, "partcrash", e.size / 2}, vFate{i, "part", e.size - 1}, vFate{i, "partcrash", e.size - 1}, vFate{i, "partcrash", e.size})
		case "read":
			add("err0")
		default:
			add("err0", "crash0", "cancel1")
		}
	}
	return
}

const vLog = "https:__ct.example.com_2026_log"

func vStrategies() []string {
	return []string{"", "onlyingest", "skipingest", "onlysmtupdate", "recordctsize"}
}

// finish runs without faults to the end and checks that everything arrived.
func (w *vWorld) finish() error {
	for _, r := range []vRun{{"", 0, true, false, -1}, {"recordctsize", 0, true, false, -1}, {"", 2, true, true, -1}} {
		if err := w.check(r, nil); err != nil {
			return fmt.Errorf("finishing: %w", err)
		}
		if r.strategy == "" {
			c, err := w.claim(true)
			if err != nil {
				return err
			}
			var sm uint
			for _, f := range w.files {
				if w.db.smt[filepath.Base(f.name())] {
					sm |= uint(1)<<(f.b+1) - uint(1)<<f.a
				}
			}
			for _, f := range w.present(true) {
				if slices.Contains(c.pending, f) {
					return fmt.Errorf("finishing: %s still pending", f)
				}
				if !w.coveredBy(f, sm) {
					return fmt.Errorf("finishing: %s is not in the tree", f)
				}
			}
		}
	}
	return nil
}

func vHistories(r *core.Run, base string) {
	sets := []struct {
		files   []vFile
		present int
	}{
		{[]vFile{{0, 1, false}, {2, 3, false}, {4, 5, false}}, 7},
		{[]vFile{{1, 1, false}, {2, 3, false}, {0, 0, false}}, 3},
		{[]vFile{{0, 0, false}, {2, 2, false}, {1, 1, true}}, 7},
		{[]vFile{{0, 2, false}, {1, 3, false}, {5, 5, false}}, 3},
		{[]vFile{{3, 3, false}, {4, 4, false}, {0, 4, false}}, 1},
		{[]vFile{{0, 0, false}}, 0},
		{[]vFile{{0, 0, false}, {1, 1, false}, {2, 2, false}, {3, 3, false}, {4, 4, false}}, 31},
	}
	var runs []vRun
	for _, s := range vStrategies() {
		for _, b := range []int{0, 1, 2} {
			if b > 0 && s != "" && s != "onlyingest" {
				continue
			}
			if !r.Thorough() && (s == "" && b == 2 || s == "onlyingest" && b == 0) {
				continue
			}
			runs = append(runs, vRun{s, b, b != 2, b == 2, -1})
		}
	}
	type job struct {
		set int
		pre []vRun
		run vRun
	}
	var jobs []job
	for s := range sets {
		var pres [][]vRun
		pres = append(pres, nil)
		for _, p := range runs {
			pres = append(pres, []vRun{p})
		}
		if r.Thorough() {
			for _, p := range runs {
				for _, q := range runs {
					pres = append(pres, []vRun{p, q})
				}
			}
		}
		for _, p := range pres {
			for _, q := range runs {
				if !r.Thorough() && s > 3 && len(p) > 0 {
					continue
				}
				jobs = append(jobs, job{s, p, q})
				if len(sets[s].files) == 3 && len(p) > 0 {
					q.add = 2
					jobs = append(jobs, job{s, p, q})
				}
			}
		}
	}
	r.Parallel("interrupted runs", len(jobs), func(k int) {
		jb := jobs[k]
		set := sets[jb.set]
		start := func() (*vWorld, bool, error) {
			w := vNew(base, vLog, set.files, set.present)
			for _, p := range jb.pre {
				if !w.allowed(p) {
					return w, false, nil
				}
				if err := w.check(p, nil); err != nil {
					return w, false, err
				}
			}
			return w, w.allowed(jb.run), nil
		}
		var events []vEvent
		name := fmt.Sprintf("files %v/%b, runs %v, %v", set.files, set.present, jb.pre, jb.run)
		ok := false
		if !r.Case(name, nil, func() error {
			w, good, err := start()
			defer w.end()
			if err != nil || !good {
				return err
			}
			ok = true
			if err := w.check(jb.run, nil); err != nil {
				return err
			}
			events = slices.Clone(w.events)
			return w.finish()
		}) || !ok {
			return
		}
		seconds := []*vRun{nil}
		for i := range runs {
			if r.Thorough() || runs[i].batch < 2 {
				seconds = append(seconds, &runs[i])
			}
		}
		for fi, f := range vFates(events) {
			for i, second := range seconds {
				if len(jb.pre) > 1 && i > 0 && i%4 != k%4 { // long prefixes: a quarter of the second runs
					continue
				}
				if len(jb.pre) > 0 && !r.Thorough() && i > 0 && i != 1+(k+fi)%(8*len(seconds)) {
					continue
				}
				sec := "nothing"
				if second != nil {
					sec = second.String()
				}
				if !r.Case(fmt.Sprintf("%s, fault %+v, then %v", name, f, sec), nil, func() error {
					w, _, err := start()
					defer w.end()
					if err != nil {
						return err
					}
					ff := f
					if err := w.check(jb.run, &ff); err != nil {
						return err
					}
					if second != nil {
						if !w.allowed(*second) {
							return nil
						}
						if err := w.check(*second, nil); err != nil {
							return err
						}
					}
					return w.finish()
				}) {
					return
				}
				r.States.Add(1)
				r.Transitions.Add(int64(len(events)))
			}
		}
	})
	// two faults
	type two struct {
		set, a, b int
	}
	var pairs []two
	for s := range sets {
		for a := range runs {
			for b := range runs {
				if s < r.Pick(2, 3) && (r.Thorough() || runs[a].batch > 0 || a == 0) {
					pairs = append(pairs, two{s, a, b})
				}
			}
		}
	}
	r.Parallel("two interrupted runs", len(pairs), func(k int) {
		p := pairs[k]
		set := sets[p.set]
		var ev []vEvent
		w := vNew(base, vLog, set.files, set.present)
		w.run(runs[p.a], nil)
		ev = slices.Clone(w.events)
		w.end()
		for fi, f := range vFates(ev) {
			if !r.Thorough() && (f.kind == "cancel1" || f.kind == "err0") {
				continue
			}
			var ev2 []vEvent
			w := vNew(base, vLog, set.files, set.present)
			w.run(runs[p.a], &f)
			good := w.allowed(runs[p.b])
			w.run(runs[p.b], nil)
			ev2 = slices.Clone(w.events)
			w.end()
			if !good {
				continue
			}
			for gi, g := range vFates(ev2) {
				if (gi+k+fi)%r.Pick(16, 3) != 0 {
					continue
				}
				if !r.Case(fmt.Sprintf("files %v/%b, run %v fault %+v, run %v fault %+v", set.files, set.present, runs[p.a], f, runs[p.b], g), nil, func() error {
					w := vNew(base, vLog, set.files, set.present)
					defer w.end()
					f, g := f, g
					if err := w.check(runs[p.a], &f); err != nil {
						return err
					}
					if err := w.check(runs[p.b], &g); err != nil {
						return err
					}
					return w.finish()
				}) {
					return
				}
				r.States.Add(1)
			}
		}
	})
}

// vSizes: the size recorded for every small set of completed files, and the log it is recorded for.
func vSizes(r *core.Run, base string) {
	var files []vFile
	for a := range 4 {
		for b := a; b < 4; b++ {
			files = append(files, vFile{a, b, false})
		}
	}
	r.Parallel("sizes", 1<<len(files), func(k int) {
		r.Case(fmt.Sprintf("size after files %b", k), nil, func() error {
			w := vNew(base, vLog, files, k)
			defer w.end()
			var m uint
			for i, f := range files {
				if k>>i&1 == 1 {
					m |= uint(1)<<(f.b+1) - uint(1)<<f.a
				}
			}
			if err, _ := w.run(vRun{"onlyingest", 1 + k%3, false, false, -1}, nil); err != nil {
				return err
			}
			size := int64(0)
			for m>>(size/10)&1 == 1 {
				size += 10
			}
			err, _ := w.run(vRun{"recordctsize", 0, false, false, -1}, nil)
			u, _ := vURL(vLog)
			if got := w.db.ct[u]; got != size || (err != nil) != (size == 0) {
				return fmt.Errorf("recorded size %d, error %v, instead of %d", got, err, size)
			}
			return nil
		})
	})
	for _, c := range []struct{ dir, url string }{
		{"https:__ct.example.com_a_b", "https://ct.example.com/a/b"}, {"https:__ct.example.com", "https://ct.example.com"}, {"https:__ct.example.com_", "https://ct.example.com/"}, {"http:__h:8080_x", "http://h:8080/x"},
		{"ct.example.com", ""}, {"https:ct.example.com", ""}, {"logs", ""}, {"_x", ""}, {"https:__", ""}, {"__host_x", ""}, {"https:__bad host", ""}, {"https:__h%zz", ""},
	} {
		r.Case(fmt.Sprintf("log of directory %q", c.dir), nil, func() error {
			w := vNew(base, c.dir, []vFile{{0, 0, false}}, 1)
			defer w.end()
			if err, _ := w.run(vRun{"onlyingest", 0, false, false, -1}, nil); err != nil {
				return err
			}
			err, _ := w.run(vRun{"recordctsize", 0, false, false, -1}, nil)
			if c.url == "" {
				if err == nil || len(w.db.ct) > 0 {
					return fmt.Errorf("recorded %v, error %v", w.db.ct, err)
				}
				return nil
			}
			if err != nil || len(w.db.ct) != 1 || w.db.ct[c.url] != 10 {
				return fmt.Errorf("recorded %v, error %v", w.db.ct, err)
			}
			return nil
		})
	}
	// without a directory or with an unknown strategy nothing happens
	for _, s := range append(vStrategies(), "x", "Coalesce") {
		for _, dir := range []bool{false, true} {
			r.Case(fmt.Sprintf("strategy %q directory %v", s, dir), nil, func() error {
				w := vNew(base, vLog, []vFile{{0, 0, false}}, 1)
				defer w.end()
				cfg := RunConfig{Strategy: s, JournalFile: w.journalFile()}
				if dir {
					cfg.Directory = w.dir
				}
				known := slices.Contains(vStrategies(), s)
				needs := s != "skipingest" && s != "onlysmtupdate"
				if err := cfg.validate(); (err != nil) != (!known || needs && !dir) {
					return fmt.Errorf("validation: %v", err)
				}
				if known && (dir || !needs) {
					return nil
				}
				called := false
				err := runIngest(context.Background(), cfg, RunDependencies{
					NewJournal: func(c RunConfig, jc journal.JobConfiguration) (*journal.Journal, error) {
						called = true
						return nil, vErr
					},
				})
				if err == nil || called || errors.Is(err, vErr) {
					return fmt.Errorf("not refused: %v", err)
				}
				return nil
			})
		}
	}
}

// vSignals: all short sequences of signals.
func vSignals(r *core.Run) {
	sigs := []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1}
	for n := 0; n <= r.Pick(4, 6); n++ {
		total := 1
		for range n {
			total *= 3
		}
		for k := range total {
			for failing := range 4 {
				c := k
				var seq []os.Signal
				for range n {
					seq = append(seq, sigs[c%3])
					c /= 3
				}
				r.Case(fmt.Sprintf("signals %v, failing %02b", seq, failing), nil, func() error {
					var log []string
					ch := make(chan os.Signal, 16)
					var interrupted atomic.Bool
					done := startIngestSignalHandler(ch, RunConfig{}, vDiscard{}, ingestSignalHandlerDeps{
						stopProfiles: func() error {
							log = append(log, "stop")
							if failing&1 != 0 {
								return vErr
							}
							return nil
						},
						createDiagnostics: func(_ RunConfig, s os.Signal, _ io.Writer) (string, error) {
							log = append(log, "diag "+s.String())
							if failing&2 != 0 {
								return "", vErr
							}
							return "/d", nil
						},
						cancel:      func() { log = append(log, fmt.Sprint("cancel ", interrupted.Load())) },
						interrupted: &interrupted,
						exit:        func(c int) { log = append(log, fmt.Sprint("exit ", c)) },
					})
					for _, s := range seq {
						ch <- s
					}
					close(ch)
					<-done
					var want []string
					ending := false
					for _, s := range seq {
						term := s != syscall.SIGUSR1
						if term && ending {
							code := 130
							if s == syscall.SIGTERM {
								code = 143
							}
							want = append(want, fmt.Sprint("exit ", code))
							break
						}
						if term {
							ending = true
							want = append(want, "stop")
						}
						want = append(want, "diag "+s.String())
						if term {
							want = append(want, "cancel true")
						}
					}
					if !slices.Equal(log, want) || interrupted.Load() != ending {
						return fmt.Errorf("actions %v instead of %v, interrupted %v", log, want, interrupted.Load())
					}
					return nil
				})
				r.Transitions.Add(int64(n))
			}
		}
	}
}

type vDiscard struct{}

func (vDiscard) Write(b []byte) (int, error) { return len(b), nil }

// vShutdown: the shutdown functions leave the journal as it was last committed and refuse more.
func vShutdown(r *core.Run, base string) {
	r.Case("shutdown", nil, func() error {
		w := vNew(base, vLog, []vFile{{0, 0, false}, {1, 1, false}}, 3)
		defer w.end()
		util.VerifDropShutdown = false
		defer func() { util.VerifDropShutdown = true }()
		j, err := journal.NewJournal(w.journalFile(), journal.JobConfiguration{IngestFiles: true}, w.dir)
		if err != nil {
			return err
		}
		if err := j.CommitProgress([]string{filepath.Join(w.dir, w.files[0].name())}, false, false); err != nil {
			return err
		}
		util.ShutdownFunction()
		if err := j.CommitProgress([]string{filepath.Join(w.dir, w.files[1].name())}, false, false); err == nil {
			return fmt.Errorf("progress accepted after the shutdown")
		}
		c, err := w.claim(false)
		if err != nil {
			return err
		}
		if !slices.Equal(c.pending, []string{"10-19.gz"}) {
			return fmt.Errorf("pending %v", c.pending)
		}
		return nil
	})
}


func main() {
	core.Quiet()
	stderr, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil && os.Getenv("VERIF_LOUD") == "" {
		os.Stderr = stderr
	}
	util.VerifDropShutdown = true
	r := core.Start("C20", "fault_enumeration")
	base := vos.Scratch()
	r.Rule = "at every crash, error or cancellation the journal claims no more than what is stored; phases are called in order and stop at the first failure; re-runs finish everything"
	r.Assume("storage phases take effect as a whole, in half of the files, or not at all before they fail (C05-C07 check their inner steps)")
	vSizes(r, base)
	vSignals(r)
	vShutdown(r, base)
	vHistories(r, base)
	os.RemoveAll(base)
	r.Distinct.Store(r.Evaluations.Load())
	r.Finish()
}
