// Command c19: the ingestion journal.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/vos"
)

// span is a file of the universe: a range of cells [a,b] in a subdirectory of the ingest directory.
type span struct {
	sub  string // "" or the name of a subdirectory
	a, b int
	csv  bool
}

const cells = 8

func (s span) path(root string, scale uint64) string {
	n := fmt.Sprintf("%d-%d", uint64(s.a)*scale, uint64(s.b+1)*scale-1)
	if s.csv {
		return filepath.Join(root, s.sub, n+".csv")
	}
	return filepath.Join(root, s.sub, "bundled", n+".gz")
}

type phases struct{ coalesced, updated bool }

// state is what the journal is to hold: the covered cells per key, and the flags.
type state struct {
	cov  map[string]uint // base name of the root + "/" + sub -> set of cells
	ph   phases
	size int64
	jobs []journal.JobConfiguration
	old  []string // canonical form of the earlier jobs
}

func (s *state) clone() *state {
	c := *s
	c.cov = map[string]uint{}
	for k, v := range s.cov {
		c.cov[k] = v
	}
	c.jobs = slices.Clone(s.jobs)
	c.old = slices.Clone(s.old)
	return &c
}

func (s span) mask() uint {
	var m uint
	for i := s.a; i <= s.b; i++ {
		m |= 1 << i
	}
	return m
}

// intervals is the minimal list for a set of cells.
func intervals(m uint, scale uint64) (l []journal.Interval) {
	for i := 0; i < cells; i++ {
		if m>>i&1 == 0 {
			continue
		}
		j := i
		for m>>(j+1)&1 == 1 {
			j++
		}
		l = append(l, journal.Interval{Start: uint(uint64(i) * scale), End: uint(uint64(j+1)*scale - 1)})
		i = j
	}
	return
}

// op is one step of a history.
type op struct {
	kind  string // commit, restart, toggle, size, close
	files []int  // commit, toggle
	root  int    // restart
	cfg   journal.JobConfiguration
	ph    phases
	size  int64
}

func (o op) String() string {
	switch o.kind {
	case "commit":
		return fmt.Sprintf("commit%v%v", o.files, o.ph)
	case "restart":
		return fmt.Sprintf("restart(root %d csv %v ingest %v smt %v)", o.root, o.cfg.IncludePlainCSVs, o.cfg.IngestFiles, o.cfg.UpdateSMT)
	case "toggle":
		return fmt.Sprintf("toggle%v", o.files)
	case "size":
		return fmt.Sprintf("size(%d)", o.size)
	}
	return o.kind
}

// world is one journal with its directories.
type world struct {
	dir     string
	scale   uint64
	uni     []span
	roots   []string
	root    int
	present map[[2]int]bool // root, file
	fs      *vos.FS
	j       *journal.Journal
	st      *state
	initial map[[2]int]bool
	layout  string
	closed  bool
}

var wn atomic.Int64

func newWorld(base string, uni []span, scale uint64, present []int) *world {
	layout := fmt.Sprint(uni, scale, present)
	select {
	case w := <-pool(layout):
		return w
	default:
	}
	w := &world{layout: layout, initial: map[[2]int]bool{}, dir: filepath.Join(base, fmt.Sprint("w", wn.Add(1))), scale: scale, uni: uni, present: map[[2]int]bool{}}
	for _, r := range []string{"x/log-a", "y/log-a", "x/log-b", "x/log[c]"} {
		w.roots = append(w.roots, filepath.Join(w.dir, r))
	}
	for _, r := range w.roots {
		must(os.MkdirAll(filepath.Join(r, "bundled"), 0o755))
		for _, s := range uni {
			must(os.MkdirAll(filepath.Join(r, s.sub, "bundled"), 0o755))
		}
	}
	w.fs = vos.Attach(w.dir)
	w.st = &state{cov: map[string]uint{}}
	for _, i := range present {
		for r := range w.roots {
			w.put(r, i)
			w.initial[[2]int{r, i}] = true
		}
	}
	return w
}

func must(err error) {
	if err != nil {
		panic(core.PanicError{V: "harness: " + err.Error()})
	}
}

func (w *world) put(r, i int) {
	w.present[[2]int{r, i}] = true
	must(os.WriteFile(w.uni[i].path(w.roots[r], w.scale), nil, 0o644))
}

// end puts the directories back as they were for another use.
func (w *world) end() {
	w.fs.Restart()
	for _, f := range vos.Entries(w.dir, "journal") {
		must(os.Remove(filepath.Join(w.dir, f)))
	}
	os.Remove(filepath.Join(w.dir, "copy.json"))
	for r := range w.roots {
		for i := range w.uni {
			if has := w.present[[2]int{r, i}]; has != w.initial[[2]int{r, i}] {
				if has {
					delete(w.present, [2]int{r, i})
					must(os.Remove(w.uni[i].path(w.roots[r], w.scale)))
				} else {
					w.put(r, i)
				}
			}
		}
	}
	w.fs.Settle()
	w.root, w.j, w.closed = 0, nil, false
	w.st = &state{cov: map[string]uint{}}
	pool(w.layout) <- w
}

var (
	poolMu sync.Mutex
	pools  = map[string]chan *world{}
)

func pool(layout string) chan *world {
	poolMu.Lock()
	defer poolMu.Unlock()
	if pools[layout] == nil {
		pools[layout] = make(chan *world, 256)
	}
	return pools[layout]
}

func (w *world) file() string { return filepath.Join(w.dir, "journal.json") }

func (w *world) key(r int, s span) string { return filepath.Base(w.roots[r]) + "/" + s.sub }

// next is the state after an operation.
func (w *world) next(o op) *state {
	s := w.st.clone()
	switch o.kind {
	case "commit":
		for _, i := range o.files {
			s.cov[w.key(w.root, w.uni[i])] |= w.uni[i].mask()
		}
		s.ph = phases{o.ph.coalesced || o.ph.updated, o.ph.updated}
	case "size":
		s.size = o.size
	case "restart":
		if len(s.jobs) > 0 {
			s.old = append(s.old, w.canon(s))
		}
		s.jobs = append(s.jobs, o.cfg)
	}
	return s
}

func (w *world) canon(s *state) string {
	m := map[string][]journal.Interval{}
	for k, v := range s.cov {
		if sub := k[strings.IndexByte(k, '/')+1:]; sub == "" {
			m[strings.TrimSuffix(k, "/")] = intervals(v, w.scale)
		}
	}
	return canonJob(m, s.ph, s.size, s.jobs[len(s.jobs)-1])
}

func canonJob(m map[string][]journal.Interval, ph phases, size int64, cfg journal.JobConfiguration) string {
	var l []string
	for k, v := range m {
		if len(v) > 0 {
			l = append(l, fmt.Sprintf("%s=%v", k, v))
		}
	}
	sort.Strings(l)
	return fmt.Sprintf("%v phases %v size %d cfg %+v", l, ph, size, cfg)
}

// plain restricts the keys of a journal to the roots themselves.
func (w *world) plain(c journal.CompletedIndices) map[string][]journal.Interval {
	m := map[string][]journal.Interval{}
	for _, r := range w.roots {
		if v := c[filepath.Base(r)]; len(v) > 0 {
			m[filepath.Base(r)] = v
		}
	}
	return m
}

func (w *world) canonOf(j journal.Job) string {
	return canonJob(w.plain(j.CompletedIndices), phases{j.Coalesced, j.UpdatedSMT}, j.RecordedCTLogSize, j.JobConfiguration)
}

// do runs an operation on the code.
func (w *world) do(o op) error {
	switch o.kind {
	case "commit":
		var l []string
		for _, i := range o.files {
			l = append(l, w.uni[i].path(w.roots[w.root], w.scale))
		}
		return w.j.CommitProgress(l, o.ph.coalesced, o.ph.updated)
	case "size":
		return w.j.CommitCTLogSize(o.size)
	case "close":
		return w.j.Close()
	case "pending":
		_, err := w.j.PendingFiles()
		return err
	case "restart":
		j, err := journal.NewJournal(w.file(), o.cfg, w.roots[o.root])
		if err != nil {
			return err
		}
		w.j, w.root, w.closed = j, o.root, false
		return nil
	case "toggle":
		for _, i := range o.files {
			k := [2]int{w.root, i}
			if w.present[k] {
				delete(w.present, k)
				must(os.Remove(w.uni[i].path(w.roots[w.root], w.scale)))
			} else {
				w.put(w.root, i)
			}
		}
		return nil
	}
	return fmt.Errorf("unknown operation")
}

// step runs an operation and checks everything after it.
func (w *world) step(o op) error {
	if w.closed && (o.kind == "commit" || o.kind == "size") {
		before, _ := os.ReadFile(w.file())
		if err := w.do(o); err == nil {
			return fmt.Errorf("%v on a closed journal succeeds", o)
		}
		if after, _ := os.ReadFile(w.file()); string(before) != string(after) {
			return fmt.Errorf("%v on a closed journal changes the file", o)
		}
		return nil
	}
	ns := w.next(o)
	if err := w.do(o); err != nil {
		return fmt.Errorf("%v: %w", o, err)
	}
	w.st = ns
	if o.kind == "close" {
		w.closed = true
	}
	if err := w.check(); err != nil {
		return fmt.Errorf("after %v: %w", o, err)
	}
	return nil
}

// check compares the journal, its file and the pending files with the model.
func (w *world) check() error {
	if err := w.checkJobs(w.j.Jobs, w.st); err != nil {
		return fmt.Errorf("journal in memory: %w", err)
	}
	if !w.closed {
		if err := w.pending(w.j, w.st); err != nil {
			return err
		}
	}
	return w.disk(w.st)
}

func (w *world) checkJobs(jobs []journal.Job, s *state) error {
	if len(jobs) != len(s.jobs) {
		return fmt.Errorf("%d jobs instead of %d", len(jobs), len(s.jobs))
	}
	for i, o := range s.old {
		if g := w.canonOf(jobs[i]); g != o {
			return fmt.Errorf("job %d is %s instead of %s", i, g, o)
		}
	}
	if g, e := w.canonOf(jobs[len(jobs)-1]), w.canon(s); g != e {
		return fmt.Errorf("last job is %s instead of %s", g, e)
	}
	return nil
}

// disk compares what another process would find in the file.
func (w *world) disk(s *state) error {
	b, err := os.ReadFile(w.file())
	if err != nil {
		return err
	}
	if l := vos.Entries(w.dir, "journal.json"); len(l) != 1 {
		return fmt.Errorf("files left: %v", l)
	}
	c := filepath.Join(w.dir, "copy.json")
	must(os.WriteFile(c, b, 0o644))
	defer os.Remove(c)
	for r := range w.roots {
		cfg := journal.JobConfiguration{IngestFiles: true, IncludePlainCSVs: r%2 == 0}
		j, err := journal.NewJournal(c, cfg, w.roots[r])
		if err != nil {
			return fmt.Errorf("reading the file: %w", err)
		}
		t := s.clone()
		if len(t.jobs) > 0 {
			t.old = append(t.old, w.canon(t))
		}
		t.jobs = append(t.jobs, cfg)
		if r == 0 {
			if err := w.checkJobs(j.Jobs, t); err != nil {
				return fmt.Errorf("read from the file: %w", err)
			}
		}
		root := w.root
		w.root = r
		err = w.pending(j, t)
		w.root = root
		if err != nil {
			return fmt.Errorf("with root %d: %w", r, err)
		}
		must(os.WriteFile(c, b, 0o644))
	}
	return nil
}

func (w *world) want(s *state, csv bool) (l []string) {
	for i, f := range w.uni {
		if !w.present[[2]int{w.root, i}] || f.csv && !csv {
			continue
		}
		if s.cov[w.key(w.root, f)]&f.mask() != f.mask() {
			l = append(l, f.path(w.roots[w.root], w.scale))
		}
	}
	sort.Strings(l)
	return
}

func (w *world) pending(j *journal.Journal, s *state) error {
	got, err := j.PendingFiles()
	if err != nil {
		return fmt.Errorf("pending files: %w", err)
	}
	starts := make([]uint, len(got))
	for i, f := range got {
		n, err := util.CsvFilenameToFirstIndex(f)
		if err != nil {
			return err
		}
		starts[i] = n
	}
	if !slices.IsSorted(starts) {
		return fmt.Errorf("pending files not in index order: %v", short(got, w.dir))
	}
	got = slices.Clone(got)
	sort.Strings(got)
	if want := w.want(s, s.jobs[len(s.jobs)-1].IncludePlainCSVs); !slices.Equal(got, want) {
		return fmt.Errorf("pending files %v instead of %v", short(got, w.dir), short(want, w.dir))
	}
	return nil
}

func short(l []string, dir string) (s []string) {
	for _, f := range l {
		s = append(s, strings.TrimPrefix(f, dir+"/"))
	}
	return
}

func cfg(strategy string, csv bool) journal.JobConfiguration {
	c, err := journal.NewJobConfiguration(strategy, 2, csv)
	must(err)
	return c
}

// the universe of the histories
var uni = []span{{"", 0, 1, false}, {"", 2, 3, false}, {"", 1, 4, false}, {"", 5, 5, true}, {"sub", 0, 1, false}, {"aaa", 2, 5, false}, {"sub", 5, 6, true}, {"", 6, 7, false}}

func alphabet(full bool) (l []op) {
	add := func(p phases, f ...int) { l = append(l, op{kind: "commit", files: f, ph: p}) }
	add(phases{}, 0)
	add(phases{true, false}, 1)
	add(phases{true, true}, 2)
	add(phases{}, 3)
	add(phases{true, true}, 4)
	add(phases{}, 5, 7)
	add(phases{false, true}, 0, 6)
	add(phases{true, false})
	add(phases{false, true})
	add(phases{}, 1, 0)
	l = append(l, op{kind: "restart", root: 0, cfg: cfg("", false)}, op{kind: "restart", root: 1, cfg: cfg("onlyingest", true)},
		op{kind: "restart", root: 2, cfg: cfg("skipingest", true)}, op{kind: "restart", root: 3, cfg: cfg("", true)},
		op{kind: "toggle", files: []int{0, 3}}, op{kind: "toggle", files: []int{2, 4}}, op{kind: "size", size: 7}, op{kind: "close"})
	if full {
		add(phases{}, 6)
		add(phases{true, true}, 7, 5, 3, 2)
		l = append(l, op{kind: "toggle", files: []int{1, 5, 7}}, op{kind: "toggle", files: []int{6}},
			op{kind: "restart", root: 0, cfg: cfg("recordctsize", false)}, op{kind: "restart", root: 0, cfg: cfg("onlysmtupdate", true)}, op{kind: "size", size: 1 << 40})
	}
	return
}

func histories(n int, ops []op, fn func(int, []op)) int {
	total := 1
	for range n {
		total *= len(ops)
	}
	for k := 0; fn != nil && k < total; k++ {
		fn(k, history(n, ops, k))
	}
	return total
}

func history(n int, ops []op, k int) []op {
	h := make([]op, n)
	for i := range h {
		h[i] = ops[k%len(ops)]
		k /= len(ops)
	}
	return h
}

func partHistories(r *core.Run, base string) {
	ops := alphabet(r.Thorough())
	for _, start := range []op{{kind: "restart", root: 0, cfg: cfg("", false)}, {kind: "restart", root: 0, cfg: cfg("onlyingest", true)}} {
		for n := 0; n <= r.Pick(3, 4); n++ {
			total := histories(n, ops, nil)
			if n == 4 {
				ops = alphabet(false)
				total = histories(n, ops, nil)
			}
			r.Parallel("histories of the journal", total, func(k int) {
				h := history(n, ops, k)
				scale := []uint64{1, 100000, 1 << 59}[k%3]
				r.Case(fmt.Sprintf("history csv=%v scale=%d %v", start.cfg.IncludePlainCSVs, scale, h), nil, func() error {
					w := newWorld(base, uni, scale, []int{0, 1, 2, 3, 4, 5, 6})
					defer w.end()
					if err := w.step(start); err != nil {
						return err
					}
					for i, o := range h {
						if i < len(h)-1 { // shorter histories are checked on their own
							if w.closed && (o.kind == "commit" || o.kind == "size") {
								if w.do(o) == nil {
									return fmt.Errorf("%v on a closed journal succeeds", o)
								}
								continue
							}
							ns := w.next(o)
							if err := w.do(o); err != nil {
								return err
							}
							w.st = ns
							w.closed = w.closed || o.kind == "close"
						} else if err := w.step(o); err != nil {
							return err
						}
					}
					return nil
				})
				r.States.Add(1)
				r.Transitions.Add(int64(n))
			})
		}
	}
}

// partRanges commits all sequences of ranges and compares which ranges are pending.
func partRanges(r *core.Run, base string) {
	width := r.Pick(4, 5)
	var all []span
	for a := range width {
		for b := a; b < width; b++ {
			all = append(all, span{"", a, b, false})
		}
	}
	var idx []int
	for i := range all {
		idx = append(idx, i)
	}
	for n := 1; n <= r.Pick(4, 4); n++ {
		total := 1
		for range n {
			total *= len(all)
		}
		r.Parallel("sequences of committed ranges", total, func(k int) {
			scale := []uint64{1, 10, 1 << 60}[k%3]
			c := k
			var seq []int
			for range n {
				seq = append(seq, c%len(all))
				c /= len(all)
			}
			r.Case(fmt.Sprintf("ranges scale=%d %v", scale, seq), nil, func() error {
				w := newWorld(base, all, scale, idx)
				defer w.end()
				o := op{kind: "restart", cfg: cfg("onlyingest", false)}
				w.st = w.next(o)
				if err := w.do(o); err != nil {
					return err
				}
				for _, i := range seq {
					o := op{kind: "commit", files: []int{i}}
					w.st = w.next(o)
					if err := w.do(o); err != nil {
						return err
					}
				}
				if err := w.checkJobs(w.j.Jobs, w.st); err != nil {
					return err
				}
				return w.pending(w.j, w.st)
			})
			r.Transitions.Add(int64(n))
		})
	}
}

// fates of the operations on files
func fates(o vos.Op) (l []vos.Fate) {
	parts := []int{0}
	if o.Kind == "write" {
		parts = []int{0, 1, o.Size / 3, o.Size / 2, o.Size - 2, o.Size - 1, o.Size}
	}
	for _, p := range parts {
		l = append(l, vos.Fate{Crash: true, Part: p}, vos.Fate{Err: syscall.ENOSPC, Part: p})
	}
	if o.Kind == "open" || o.Kind == "readdir" {
		l = append(l, vos.Fate{Err: syscall.EACCES}, vos.Fate{Err: syscall.EMFILE})
	}
	return
}

// partFaults crashes and fails every operation on files of every step.
func partFaults(r *core.Run, base string) {
	prefixes := [][]op{nil}
	ops := alphabet(false)
	for _, o := range ops {
		if o.kind != "close" {
			prefixes = append(prefixes, []op{o})
		}
	}
	if r.Thorough() {
		for _, a := range ops {
			for _, b := range ops {
				if a.kind != "close" && b.kind != "close" {
					prefixes = append(prefixes, []op{a, b})
				}
			}
		}
	}
	first := op{kind: "restart", root: 0, cfg: cfg("", true)}
	targets := []op{{kind: "commit", files: []int{0}}, {kind: "commit", files: []int{1, 4}, ph: phases{true, true}}, {kind: "commit", files: nil, ph: phases{true, false}},
		{kind: "size", size: 9}, {kind: "close"}, {kind: "pending"}, {kind: "restart", root: 0, cfg: cfg("onlyingest", false)}, {kind: "restart", root: 2, cfg: cfg("", true)}}
	type job struct {
		pre []op
		o   op
	}
	jobs := []job{{[]op{}, first}}
	for _, p := range prefixes {
		for _, o := range targets {
			jobs = append(jobs, job{append([]op{first}, p...), o})
		}
	}
	r.Parallel("crashes and errors of file operations", len(jobs), func(k int) {
		jb := jobs[k]
		// record the operations of the target
		var log []vos.Op
		if !r.Case(fmt.Sprintf("prefix %v then %v", jb.pre, jb.o), nil, func() error {
			w := newWorld(base, uni, 10, []int{0, 1, 2, 3, 4, 5, 6})
			defer w.end()
			for _, o := range jb.pre {
				if err := w.step(o); err != nil {
					return err
				}
			}
			w.fs.Restart()
			err := w.do(jb.o)
			log = slices.Clone(w.fs.Ops)
			if len(w.fs.Unsynced()) > 0 && err == nil {
				return fmt.Errorf("%v returns without synchronising %v", jb.o, short(w.fs.Unsynced(), w.dir))
			}
			return err
		}) {
			return
		}
		for i, fo := range log {
			for _, fate := range fates(fo) {
				for q := 0; q <= 4; q++ {
					if q > 0 && (!fate.Crash) {
						break
					}
					name := fmt.Sprintf("%v then %v, at %v %v part %d", jb.pre, jb.o, fo.Kind, map[bool]string{true: "crash", false: fmt.Sprint("error ", fate.Err)}[fate.Crash], fate.Part)
					unsynced := false
					r.Case(fmt.Sprintf("fault %s op %d keep %d/4", name, i, q), nil, func() error {
						w := newWorld(base, uni, 10, []int{0, 1, 2, 3, 4, 5, 6})
						defer w.end()
						for _, o := range jb.pre {
							ns := w.next(o)
							if err := w.do(o); err != nil {
								return err
							}
							w.st = ns
						}
						w.fs.Restart()
						f := fate
						w.fs.Decide = func(o vos.Op) *vos.Fate {
							if o.N == i {
								return &f
							}
							return nil
						}
						un, err := w.faulty(jb.o, q)
						unsynced = un
						return err
					})
					r.States.Add(1)
					r.Transitions.Add(1)
					if fate.Crash && !unsynced {
						break // nothing to lose
					}
				}
			}
		}
	})
}

// faulty runs the operation with the fault and checks what is left.
func (w *world) faulty(o op, quarters int) (unsynced bool, err error) {
	before, after := w.st, w.next(o)
	oldFile, existErr := os.ReadFile(w.file())
	crashed := false
	var opErr error
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(vos.Crash); !ok {
					panic(e)
				}
				crashed = true
			}
		}()
		opErr = w.do(o)
	}()
	memory := w.j
	unsynced = len(w.fs.Unsynced()) > 0
	if crashed && quarters < 4 {
		must(w.fs.Lost(quarters))
	}
	w.fs.Restart()
	temp := vos.Entries(w.dir, "journal.json.")
	if !crashed && len(temp) > 0 {
		return unsynced, fmt.Errorf("error %v leaves %v", opErr, temp)
	}
	for _, t := range temp {
		must(os.Remove(filepath.Join(w.dir, t)))
	}
	b, rerr := os.ReadFile(w.file())
	if rerr != nil {
		if existErr != nil && (crashed || opErr != nil) {
			return unsynced, nil // there was none before
		}
		return unsynced, fmt.Errorf("no journal left: %w", rerr)
	}
	if o.kind == "pending" {
		if string(b) != string(oldFile) {
			return unsynced, fmt.Errorf("listing changes the journal")
		}
		if !crashed && opErr == nil {
			return unsynced, fmt.Errorf("an error while listing is not reported")
		}
		return unsynced, nil
	}
	okBefore, okAfter := error(errors.New("no")), w.disk(after)
	if existErr == nil {
		okBefore = w.disk(before)
	}
	if okBefore != nil && okAfter != nil {
		return unsynced, fmt.Errorf("journal is neither as before (%v) nor as after (%v), operation error %v", okBefore, okAfter, opErr)
	}
	if !crashed && opErr == nil && okAfter != nil {
		return unsynced, fmt.Errorf("success reported, but the journal is not as after: %w", okAfter)
	}
	if crashed {
		return unsynced, nil
	}
	// The process goes on: what it writes next contains at least what was there, and nothing else than what was asked for.
	if opErr != nil && o.kind != "restart" && o.kind != "close" && memory != nil {
		if err := memory.CommitProgress([]string{w.uni[3].path(w.roots[w.root], w.scale)}, true, true); err != nil {
			return unsynced, fmt.Errorf("next commit: %w", err)
		}
		nx := op{kind: "commit", files: []int{3}, ph: phases{true, true}}
		w.st = before
		s1 := w.next(nx)
		w.st = after
		s2 := w.next(nx)
		if e1, e2 := w.disk(s1), w.disk(s2); e1 != nil && e2 != nil {
			return unsynced, fmt.Errorf("after the next commit: neither %v nor %v", e1, e2)
		}
	}
	return unsynced, nil
}

// partDamage reads damaged and handwritten journals.
func partDamage(r *core.Run, base string) {
	var content []byte
	w := newWorld(base, uni, 10, []int{0, 1, 2, 3, 4, 5, 6})
	defer w.end()
	if !r.Case("journal to damage", nil, func() error {
		for _, o := range []op{{kind: "restart", cfg: cfg("", true)}, {kind: "commit", files: []int{0, 7}}, {kind: "restart", root: 2, cfg: cfg("", false)}, {kind: "commit", files: []int{1, 4}, ph: phases{true, true}}} {
			if err := w.step(o); err != nil {
				return err
			}
		}
		content, _ = os.ReadFile(w.file())
		return nil
	}) {
		return
	}
	end := len(strings.TrimRight(string(content), "\n\t "))
	refused := func(data []byte, dir string) error {
		f := filepath.Join(dir, "journal.json")
		must(os.WriteFile(f, data, 0o644))
		if j, err := journal.NewJournal(f, cfg("", true), filepath.Join(dir, "log-a")); err == nil {
			return fmt.Errorf("accepted: %d jobs", len(j.Jobs))
		}
		if b, _ := os.ReadFile(f); string(b) != string(data) {
			return fmt.Errorf("refused, but the file was changed")
		}
		if l := vos.Entries(dir, "journal.json"); len(l) != 1 {
			return fmt.Errorf("files left: %v", l)
		}
		return nil
	}
	scratch := func(k int) string {
		d := filepath.Join(base, fmt.Sprint("d", k))
		must(os.MkdirAll(d, 0o755))
		return d
	}
	r.Parallel("truncated journals", end, func(k int) {
		d := scratch(k)
		defer os.RemoveAll(d)
		r.Case(fmt.Sprintf("journal cut to %d bytes", k), nil, func() error { return refused(content[:k], d) })
	})
	// handwritten lists of intervals
	good := []string{"0-0", "0-1", "2-3", "1-2", "4-4", "3-3", "0-4"}
	bad := []string{"", "-", "1", "1-", "-1", "3-2", "a-b", "1-2-3", " 1-2", "1-2 ", "+1-2", "1--2", "0x1-2", "99999999999999999999-99999999999999999999", "1-99999999999999999999"}
	type lst struct {
		l  []string
		ok bool
	}
	var lists []lst
	var rec func(l []string, n int)
	rec = func(l []string, n int) {
		lists = append(lists, lst{slices.Clone(l), true})
		if n == 0 {
			return
		}
		for _, g := range good {
			rec(append(slices.Clone(l), g), n-1)
		}
	}
	rec(nil, r.Pick(3, 4))
	for _, b := range bad {
		lists = append(lists, lst{[]string{b}, false}, lst{[]string{"0-1", b}, false}, lst{[]string{b, "2-3"}, false})
	}
	r.Parallel("handwritten journals", 2*len(lists), func(k int) {
		l, earlier := lists[k/2], k%2 // with jobs before the one which counts
		d := scratch(k)
		defer os.RemoveAll(d)
		r.Case(fmt.Sprintf("completed ranges %q after %d jobs", l.l, earlier), nil, func() error {
			jobs := []any{}
			for range earlier {
				jobs = append(jobs, map[string]any{"CompletedIndices": map[string]any{"log-a": []string{"9-9"}}, "RecordedCTLogSize": 3})
			}
			doc := map[string]any{"Jobs": append(jobs, map[string]any{"Cwd": "/", "Cmd": []string{"x"}, "JobConfiguration": cfg("", false), "StartTime": "", "EndTime": "",
				"Coalesced": true, "UpdatedSMT": k/2%2 == 0, "RecordedCTLogSize": 5, "CompletedIndices": map[string]any{"log-a": append([]string{}, l.l...), "other": []string{"7-7"}}})}
			data, err := json.Marshal(doc)
			must(err)
			if !l.ok {
				return refused(data, d)
			}
			f := filepath.Join(d, "journal.json")
			must(os.WriteFile(f, data, 0o644))
			root := filepath.Join(d, "log-a")
			j, err := journal.NewJournal(f, cfg("onlyingest", false), root)
			if err != nil {
				return err
			}
			var m uint
			for _, s := range l.l {
				m |= span{"", int(s[0] - '0'), int(s[2] - '0'), false}.mask()
			}
			last := j.Jobs[len(j.Jobs)-1]
			if g, e := fmt.Sprint(last.CompletedIndices["log-a"]), fmt.Sprint(intervals(m, 1)); g != e && !(m == 0 && g == "[]") {
				return fmt.Errorf("completed ranges %s instead of %s", g, e)
			}
			if fmt.Sprint(last.CompletedIndices["other"]) != "[7-7]" || !last.Coalesced || last.UpdatedSMT != (k/2%2 == 0) || last.RecordedCTLogSize != 5 || len(j.Jobs) != 2+earlier {
				return fmt.Errorf("state not carried over: %+v", last)
			}
			return nil
		})
	})
	for i, doc := range []string{"", "null", "[]", "{", "{}x", `{"Jobs":3}`, `{"Jobs":[{"CompletedIndices":{"":["0-1"]}}]}`, `{"Jobs":[{"CompletedIndices":{"a":"0-1"}}]}`, `{"Jobs":[{"CompletedIndices":[]}]}`, "\x00"} {
		if doc == "null" {
			continue
		}
		r.Case(fmt.Sprintf("journal %q", doc), nil, func() error {
			d := scratch(i)
			defer os.RemoveAll(d)
			return refused([]byte(doc), d)
		})
	}
	// configurations
	for _, c := range []struct {
		s          string
		i, c, u, z bool
	}{{"", true, true, true, false}, {"onlyingest", true, false, false, false}, {"skipingest", false, true, true, false}, {"onlysmtupdate", false, false, true, false}, {"recordctsize", false, false, false, true}} {
		for _, csv := range []bool{false, true} {
			for _, n := range []int{0, 1, 7} {
				r.Case(fmt.Sprintf("strategy %q", c.s), nil, func() error {
					g, err := journal.NewJobConfiguration(c.s, n, csv)
					if e := (journal.JobConfiguration{IngestFiles: c.i, Coalesce: c.c, UpdateSMT: c.u, RecordCTSize: c.z, FileBatch: n, IncludePlainCSVs: csv}); err != nil || g != e {
						return fmt.Errorf("%+v, %v instead of %+v", g, err, e)
					}
					return nil
				})
			}
		}
	}
	for _, s := range []string{"x", "Onlyingest", "onlyingest ", "coalesce"} {
		r.Case(fmt.Sprintf("strategy %q", s), nil, func() error {
			if g, err := journal.NewJobConfiguration(s, 1, false); err == nil {
				return fmt.Errorf("accepted: %+v", g)
			}
			return nil
		})
	}
}

// partListing compares the files found in all small layouts of directories.
func partListing(r *core.Run, base string) {
	names := []string{"bundled/0-9.gz", "bundled/10-19.gz", "20-29.csv", "aaa/bundled/0-9.gz", "aaa/5-9.csv", "zzz/bundled/0-9.gz", "zzz/30-39.csv", "zzz/aaa/bundled/40-49.gz", "bundled[1]/bundled/60-60.gz"}
	other := []string{"bundled/readme.txt", "bundled/0-9.gz.part", "other/0-9.gz", "70-79.gz", "zzz/other.csv.bak"}
	r.Parallel("layouts", 1<<len(names), func(k int) {
		r.Case(fmt.Sprintf("layout %b", k), nil, func() error {
			d := filepath.Join(base, fmt.Sprint("l", k), "log *a")
			defer os.RemoveAll(filepath.Dir(d))
			must(os.MkdirAll(d, 0o755))
			var gz, all []string
			put := func(n string) string {
				p := filepath.Join(d, n)
				must(os.MkdirAll(filepath.Dir(p), 0o755))
				must(os.WriteFile(p, nil, 0o644))
				return p
			}
			for _, o := range other {
				put(o)
			}
			has := func(dir string) bool {
				i, err := os.Stat(filepath.Join(dir, "bundled"))
				return err == nil && i.IsDir()
			}
			var csvs []string
			for i, n := range names {
				if k>>i&1 == 0 {
					continue
				}
				p := put(n)
				if strings.HasSuffix(n, ".csv") {
					csvs = append(csvs, p)
				} else {
					gz = append(gz, p)
				}
			}
			all = slices.Clone(gz)
			for _, p := range csvs {
				if has(filepath.Dir(p)) {
					all = append(all, p)
				}
			}
			sort.Strings(gz)
			sort.Strings(all)
			for _, c := range []bool{false, true} {
				j, err := journal.NewJournal(filepath.Join(filepath.Dir(d), fmt.Sprint("j", c)), cfg("", c), d)
				if err != nil {
					return err
				}
				got, err := j.PendingFiles()
				if err != nil {
					return err
				}
				var starts []uint
				for _, g := range got {
					n, err := util.CsvFilenameToFirstIndex(g)
					if err != nil {
						return err
					}
					starts = append(starts, n)
				}
				if !slices.IsSorted(starts) {
					return fmt.Errorf("not in index order: %v", short(got, d))
				}
				sort.Strings(got)
				want := gz
				if c {
					want = all
				}
				if !slices.Equal(got, want) {
					return fmt.Errorf("csv %v: files %v instead of %v", c, short(got, d), short(want, d))
				}
				// after each single file, the others are left
				for _, g := range got {
					j, err := journal.NewJournal(filepath.Join(filepath.Dir(d), "one"+filepath.Base(g)), cfg("", c), d)
					if err != nil {
						return err
					}
					if err := j.CommitProgress([]string{g}, false, false); err != nil {
						return err
					}
					left, err := j.PendingFiles()
					if err != nil {
						return err
					}
					sort.Strings(left)
					var w []string
					for _, x := range want {
						if x != g && !covers(g, x) {
							w = append(w, x)
						}
					}
					if !slices.Equal(left, w) {
						return fmt.Errorf("after %v: files %v instead of %v", short([]string{g}, d), short(left, d), short(w, d))
					}
					os.Remove(j.JournalFile)
				}
			}
			return nil
		})
	})
}

// covers tells whether file a covers file b: same log and range.
func covers(a, b string) bool {
	log := func(p string) string {
		d := filepath.Dir(p)
		if filepath.Base(d) == "bundled" {
			d = filepath.Dir(d)
		}
		return d
	}
	if log(a) != log(b) {
		return false
	}
	var a1, a2, b1, b2 uint
	fmt.Sscanf(filepath.Base(a), "%d-%d", &a1, &a2)
	fmt.Sscanf(filepath.Base(b), "%d-%d", &b1, &b2)
	return a1 <= b1 && b2 <= a2
}

func main() {
	core.Quiet()
	util.VerifDropShutdown = true
	r := core.Start("C19", "model_checking")
	base := vos.Scratch()
	defer os.RemoveAll(base)
	r.Rule = "the journal, its file as read by another process, and the pending files agree with a model of sets of indices after every history; crashes, errors and lost writes leave the state before or after"
	r.Assume("a rename that returned survives a crash of the machine (the code states that it trusts the machine); file contents survive only if synchronised")
	partListing(r, base)
	partRanges(r, base)
	partDamage(r, base)
	partFaults(r, base)
	partHistories(r, base)
	os.RemoveAll(base)
	r.Distinct.Store(r.Evaluations.Load())
	r.Finish()
}
