// Overlaid into cmd/ingest: the whole command on a modelled storage, failing or crashing at every step.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/mapx"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
	"github.com/netsec-ethz/fpki/verifmc/vos"
)

// the input: files of rows
type eFile struct {
	name   string
	plain  bool
	leaves []*fix.Cert
}

var (
	eFiles   []*eFile
	eNames   = fix.Namer{}
	eBase    string
	eDir     string
	eJournal string
	eURL     = "https://log.example/a"
)

func eSetup() {
	far := time.Now().AddDate(20, 0, 0).UTC().Truncate(time.Second)
	root := fix.New("root", "Root CA", nil, nil, far)
	inter := fix.New("inter", "Intermediate CA", nil, root, far)
	other := fix.New("other", "Other CA", nil, nil, far)
	n := 0
	leaf := func(p *fix.Cert, names ...string) *fix.Cert {
		n++
		return fix.New(fmt.Sprint("leaf", n), names[0], names, p, far)
	}
	a, b, c, d, e := leaf(inter, "a.com", "x.a.com"), leaf(inter, "b.com"), leaf(root, "c.com"), leaf(other, "d.com", "*.d.com"), leaf(inter, "e.com")
	f := leaf(other, "f.com")
	eFiles = []*eFile{
		{"0-9", false, []*fix.Cert{a, b}},
		{"10-19", false, []*fix.Cert{c, a}},
		{"20-29", true, []*fix.Cert{d}},
		{"40-49", false, []*fix.Cert{e, f}},
	}
	eNames.Certs(root, inter, other, a, b, c, d, e, f)
}

func (f *eFile) path() string {
	if f.plain {
		return filepath.Join(eDir, f.name+".csv")
	}
	return filepath.Join(eDir, "bundled", f.name+".gz")
}

func (f *eFile) write() error {
	var b bytes.Buffer
	enc := base64.StdEncoding.EncodeToString
	for _, l := range f.leaves {
		var chain []string
		for _, c := range l.Chain() {
			chain = append(chain, enc(c.Raw))
		}
		fmt.Fprintf(&b, "0,1,2,%s,%s,x,%d.0\n", enc(l.C.Raw), strings.Join(chain, ";"), l.Exp.Unix())
	}
	out := b.Bytes()
	if !f.plain {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(out)
		w.Close()
		out = z.Bytes()
	}
	if err := os.MkdirAll(filepath.Dir(f.path()), 0o755); err != nil {
		return err
	}
	return os.WriteFile(f.path(), out, 0o644)
}

// eJob is what the journal on disk claims.
type eJob struct {
	Coalesced, UpdatedSMT bool
	RecordedCTLogSize     int64
	CompletedIndices      journal.CompletedIndices
}

func eClaims() (*eJob, error) {
	buf, err := os.ReadFile(eJournal)
	if os.IsNotExist(err) {
		return &eJob{}, nil
	}
	var j struct{ Jobs []*eJob }
	if err := json.Unmarshal(buf, &j); err != nil {
		return nil, fmt.Errorf("the journal is not readable: %w (%q)", err, buf)
	}
	if len(j.Jobs) == 0 {
		return &eJob{}, nil
	}
	return j.Jobs[len(j.Jobs)-1], nil
}

func (j *eJob) has(f *eFile) bool {
	var a, b uint
	fmt.Sscanf(f.name, "%d-%d", &a, &b)
	for _, l := range j.CompletedIndices {
		for _, i := range l {
			if i.Start <= a && b <= i.End {
				return true
			}
		}
	}
	return false
}

// eTree returns the value stored in the tree for a domain.
func eTree(s *memdb.State, d memdb.ID) ([]byte, error) {
	m := memdb.On(s)
	var root []byte
	if s.Root != nil {
		root = s.Root[:]
	}
	t, err := trie.NewTrie(root, common.SHA256Hash, m)
	if err != nil {
		return nil, err
	}
	return t.Get(context.Background(), d[:])
}

// eCovered examines the claims of the journal against the storage.
func eCovered(s *memdb.State, j *eJob, files []*eFile) error {
	var leaves []*fix.Cert
	for _, f := range eFiles {
		if !j.has(f) {
			continue
		}
		here := false
		for _, g := range files {
			here = here || f == g
		}
		if !here {
			return fmt.Errorf("the journal claims the file %s, which was not there", f.name)
		}
		leaves = append(leaves, f.leaves...)
	}
	e := fix.ExpectOf(leaves, nil)
	for id, w := range e.Certs {
		if g, ok := s.Certs[id]; !ok || g.Payload != w.Payload || g.Parent != w.Parent {
			return fmt.Errorf("the journal claims a file whose certificate %s is not stored", eNames.Of(id))
		}
	}
	for _, l := range leaves {
		for _, n := range l.Names {
			d := memdb.ID(common.SHA256Hash([]byte(n)))
			if !s.DomainCerts[d][l.ID] || s.Domains[d] != n {
				return fmt.Errorf("the journal claims a file whose certificate %s is not recorded for %s", l.Name, n)
			}
			_, dirty := s.Dirty[d]
			entry := s.Payloads[d] == e.Entries[d]
			v, err := eTree(s, d)
			if err != nil {
				return err
			}
			inTree := bytes.Equal(v, fix.Value(e.Entries[d]))
			if !entry && (j.Coalesced || !dirty) {
				return fmt.Errorf("the entry of %s is not up to date (journal: coalesced=%v, marked dirty: %v)", n, j.Coalesced, dirty)
			}
			if !inTree && (j.UpdatedSMT || !dirty) {
				return fmt.Errorf("the tree does not hold the entry of %s (journal: updated=%v, marked dirty: %v)", n, j.UpdatedSMT, dirty)
			}
		}
	}
	return nil
}

// eRun is one invocation.
type eRun struct {
	strategy     string
	batch, multi int
	csv          bool
	files        int // how many of the files are there
	workers      int
}

func (r eRun) String() string {
	return fmt.Sprintf("{%q batch=%d multi=%d csv=%v files=%d workers=%d}", r.strategy, r.batch, r.multi, r.csv, r.files, r.workers)
}

// eFault: at step at (1-based), "error": this step fails; "crash": the process ends before it;
// "signal": the process is asked to terminate before the step, which is refused if the command gives up its context;
// "late signal": the same, but the step still happens.
type eFault struct {
	run, at int
	kind    string
}

type eWorld struct {
	state *memdb.State
	steps int
	what  string
}

// exec runs the command once; hit says whether the fault happened.
func (w *eWorld) exec(r eRun, at int, kind string) (hit bool, err error) {
	crash := kind == "crash"
	signalled := strings.HasSuffix(kind, "signal")
	for _, f := range eFiles[:r.files] {
		if _, e := os.Stat(f.path()); e != nil {
			if err := f.write(); err != nil {
				return false, err
			}
		}
	}
	m := memdb.On(w.state)
	m.UseCtx = true
	var mu sync.Mutex
	n, dead := 0, false
	var saved []byte
	var savedErr error
	m.Hook = func(step string, write bool) error {
		mu.Lock()
		defer mu.Unlock()
		if dead {
			return memdb.ErrDead
		}
		n++
		if n != at {
			return nil
		}
		hit = true
		w.what = step
		if signalled {
			if err := syscall.Kill(os.Getpid(), syscall.SIGTERM); err != nil {
				return err
			}
			select {
			case <-m.Ctx.Done():
			case <-time.After(3 * time.Second): // the storage is not told
			}
			if kind == "signal" {
				return m.Ctx.Err()
			}
			return nil
		}
		if !crash {
			return memdb.ErrInjected
		}
		dead = true
		saved, savedErr = os.ReadFile(eJournal)
		return memdb.ErrDead
	}
	mysql.VerifConnect = func(*db.Configuration) (db.Conn, error) { return m, nil }
	args := []string{"-strategy", r.strategy, "-filebatch", fmt.Sprint(r.batch), "-multiinsert", fmt.Sprint(r.multi), "-journal", eJournal,
		fmt.Sprintf("-includeplaincsvs=%v", r.csv), "-numfiles", "1", "-numparsers", fmt.Sprint(r.workers), "-numdechainers", fmt.Sprint(r.workers),
		"-numdbworkers", fmt.Sprint(r.workers), eDir}
	os.Args = append([]string{"ingest"}, args...)
	if err := flag.CommandLine.Parse(args); err != nil {
		return false, err
	}
	err = mainFunction()
	mu.Lock()
	defer mu.Unlock()
	w.steps += n
	w.state = memdb.On(m.S).S // also detaches from goroutines left behind
	if dead {                 // what the process did to the journal after its end did not happen
		if os.IsNotExist(savedErr) {
			os.Remove(eJournal)
		} else {
			os.WriteFile(eJournal, saved, 0o644)
		}
	}
	if signalled && hit {
		return hit, nil // it may have finished anyway
	}
	if hit && err == nil {
		return hit, fmt.Errorf("step %d (%s) failed, but the command reports success", at, w.what)
	}
	if hit {
		err = nil
	}
	return hit, err
}

// present lists the files known to the runs up to and including r.
func (r eRun) present() []*eFile {
	var l []*eFile
	for _, f := range eFiles[:r.files] {
		if !f.plain || r.csv {
			l = append(l, f)
		}
	}
	return l
}

// history executes the runs with the faults; a faulty run is repeated until it ends.
func eHistory(runs []eRun, faults []eFault) (all bool, trace string, err error) {
	for _, p := range []string{eDir, eJournal} {
		os.RemoveAll(p)
	}
	w := &eWorld{state: memdb.NewState()}
	ingested := map[*eFile]bool{}
	done := map[string]bool{}
	all = true
	var seen []*eFile
	for i, r := range runs {
		for _, f := range r.present() {
			seen = append(seen, f)
		}
		check := func() error {
			j, err := eClaims()
			if err != nil {
				return err
			}
			return eCovered(w.state, j, seen)
		}
		for _, f := range faults {
			if f.run != i {
				continue
			}
			hit, err := w.exec(r, f.at, f.kind)
			trace += fmt.Sprintf("%s step %d (%s) %s; ", r, f.at, w.what, f.kind)
			if err != nil {
				return all, trace, err
			}
			if !hit {
				all = false
			}
			if err := check(); err != nil {
				return all, trace, fmt.Errorf("after the fault: %w", err)
			}
		}
		_, err := w.exec(r, 0, "")
		trace += fmt.Sprintf("%s; ", r)
		if err != nil {
			return all, trace, fmt.Errorf("run without fault: %w", err)
		}
		if err := check(); err != nil {
			return all, trace, err
		}
		j, err := eClaims()
		if err != nil {
			return all, trace, err
		}
		switch r.strategy {
		case "", "onlyingest":
			for _, f := range r.present() {
				ingested[f] = true
				if !j.has(f) {
					return all, trace, fmt.Errorf("the journal does not list %s after a complete run", f.name)
				}
			}
		case "recordctsize":
			want := int64(0)
			for _, f := range eFiles {
				var a, b int64
				fmt.Sscanf(f.name, "%d-%d", &a, &b)
				if ingested[f] && a == want {
					want = b + 1
				}
			}
			g, _, err := memdb.On(w.state).LastCTlogServerState(context.Background(), eURL)
			if err != nil {
				return all, trace, err
			}
			if g != want {
				return all, trace, fmt.Errorf("recorded size %d of log %s, ingested are the first %d entries", g, eURL, want)
			}
		}
		done[r.strategy] = true
		if r.strategy == "" || r.strategy == "skipingest" {
			var leaves []*fix.Cert
			for f := range ingested {
				leaves = append(leaves, f.leaves...)
			}
			e := fix.ExpectOf(leaves, nil)
			if err := eNames.CompareObjects(w.state, e); err != nil {
				return all, trace, err
			}
			if err := eNames.CompareEntries(w.state, e); err != nil {
				return all, trace, err
			}
			var root []byte
			if w.state.Root != nil {
				root = w.state.Root[:]
			}
			if want := mapx.EntriesRoot(w.state); !bytes.Equal(want, root) {
				return all, trace, fmt.Errorf("the saved root %x is not the root of the entries %x", root, want)
			}
			if len(w.state.Dirty) > 0 {
				return all, trace, fmt.Errorf("%d domains are still marked dirty", len(w.state.Dirty))
			}
			if j.Coalesced != true || j.UpdatedSMT != true {
				return all, trace, fmt.Errorf("the journal does not say that entries and tree are up to date")
			}
		}
	}
	return all, trace, nil
}

func main() {
	if os.Getenv("VERIF_TMP") == "" { // the diagnostics written on a signal belong into the scratch directory
		os.Setenv("VERIF_TMP", "1")
		os.Setenv("TMPDIR", filepath.Join(vos.Scratch(), "tmp"))
		if err := syscall.Exec("/proc/self/exe", os.Args, os.Environ()); err != nil {
			panic(err)
		}
	}
	core.Quiet()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_LOUD") == "" {
		os.Stderr = null
	}
	util.VerifDropShutdown = true
	r := core.Start("C20", "fault_enumeration")
	r.Rule = "the whole command (files, pipeline, journal, entries, tree) on the modelled storage; every storage step fails, is the last one of the process, or coincides with a request to terminate; repeated runs reach the state of an undisturbed one"
	r.Assume("part 2: each statement on the storage is atomic; certificates share no domain names (known finding of C07)")
	eBase = filepath.Join(vos.Scratch(), "e")
	eDir, eJournal = filepath.Join(eBase, "https:__log.example_a"), filepath.Join(eBase, "journal.json")
	os.MkdirAll(eBase, 0o755)
	os.MkdirAll(os.TempDir(), 0o755)
	defer os.RemoveAll(eBase)
	eSetup()
	os.Args = []string{"ingest", eDir}

	full := func(b, m, f int, csv bool) eRun { return eRun{"", b, m, csv, f, 1} }
	only := func(b, m, f int) eRun { return eRun{"onlyingest", b, m, true, f, 1} }
	skip, size := eRun{"skipingest", 0, 2, true, 0, 1}, eRun{"recordctsize", 0, 2, true, 0, 1}
	at := func(r eRun, f int) eRun { r.files = f; return r }
	wide := func(r eRun) eRun { r.workers = 3; return r }
	hist := [][]eRun{
		{full(0, 10000, 3, true)},
		{full(1, 1, 2, false)},
		{full(2, 2, 4, true), at(size, 4)},
		{only(1, 2, 3), at(skip, 3), at(size, 3)},
		{only(2, 1, 2), full(1, 10000, 4, true), at(size, 4)},
		{wide(full(2, 2, 4, true))},
		{full(0, 2, 2, false), only(0, 2, 3), at(skip, 3)},
	}
	if r.Thorough() {
		for _, b := range []int{0, 1, 2, 3} {
			for _, m := range []int{1, 2, 3, 10000} {
				for f := 1; f <= 4; f++ {
					for _, csv := range []bool{false, true} {
						hist = append(hist, []eRun{full(b, m, f, csv), at(size, f)})
					}
					hist = append(hist, []eRun{only(b, m, f), at(skip, f), full(b, m, 4, true)})
				}
			}
		}
	}
	second := map[string]string{"error": "crash", "crash": "signal", "signal": "error", "late signal": "crash"}
	first := true
	one := func(h []eRun, f []eFault) bool {
		var tr string
		all := true
		key := fmt.Sprintf("whole command %v faults %v", h, f)
		if !r.Case(key, nil, func() (err error) {
			if first { // flags exist after the first run only
				first = false
				mysql.VerifConnect = func(*db.Configuration) (db.Conn, error) { return nil, fmt.Errorf("no storage") }
				if mainFunction() == nil {
					return fmt.Errorf("the command succeeds without storage")
				}
			}
			all, tr, err = eHistory(h, f)
			if err != nil {
				err = fmt.Errorf("%w\n%s", err, tr)
			}
			return
		}) {
			return false
		}
		r.Distinct.Add(1)
		return all
	}
	for i, h := range hist {
		if !one(h, nil) {
			continue
		}
		for k := range h {
			for _, kind := range []string{"error", "crash", "signal", "late signal"} {
				if !r.Thorough() && (kind == "signal" && i != 0 && i != 3 || kind == "late signal" && i != 1) {
					continue // writing the diagnostics takes its time
				}
				for n := 1; ; n++ {
					if r.Stop() || r.Expired("whole command") || !one(h, []eFault{{k, n, kind}}) {
						break
					}
					if r.Thorough() && n%3 == 0 { // a second fault while repeating
						for m := 1; ; m += 5 {
							if r.Stop() || r.Expired("whole command, two faults") || !one(h, []eFault{{k, n, kind}, {k, m, second[kind]}}) {
								break
							}
						}
					}
				}
			}
		}
	}
	os.RemoveAll(eBase)
	r.Finish()
}
