// Overlaid into cmd/ingest: its reaction to all short sequences of signals, and the diagnostics it leaves
// behind whichever of its parts fail.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/verifmc/core"
)

var sAll = []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1}

func sSequences(n int) (l [][]os.Signal) {
	l = [][]os.Signal{nil}
	for i := 0; i < len(l); i++ {
		if len(l[i]) < n {
			for _, x := range sAll {
				l = append(l, append(append([]os.Signal{}, l[i]...), x))
			}
		}
	}
	return
}

// handle feeds the signals to the handler; the k-th call of a part fails if the bit is set.
func handle(seq []os.Signal, failStop, failDiag, noDir uint) error {
	var log []string
	var interrupted atomic.Bool
	sig := make(chan os.Signal)
	stops, diags := 0, 0
	cfg := RunConfig{Directory: "d", FileBatch: 7}
	var out bytes.Buffer
	var bad error
	done := startIngestSignalHandler(sig, cfg, &out, ingestSignalHandlerDeps{
		stopProfiles: func() error {
			log = append(log, fmt.Sprintf("stop profiles, interrupted=%v", interrupted.Load()))
			stops++
			if failStop>>(stops-1)&1 == 1 {
				return errors.New("no profiles")
			}
			return nil
		},
		createDiagnostics: func(c RunConfig, x os.Signal, w io.Writer) (string, error) {
			log = append(log, fmt.Sprintf("diagnostics %v, interrupted=%v", x, interrupted.Load()))
			if !reflect.DeepEqual(c, cfg) || w != io.Writer(&out) {
				bad = fmt.Errorf("diagnostics with other arguments")
			}
			diags++
			dir := fmt.Sprintf("dir%d", diags)
			if noDir>>(diags-1)&1 == 1 {
				dir = ""
			}
			if failDiag>>(diags-1)&1 == 1 {
				return dir, fmt.Errorf("no diagnostics %d", diags)
			}
			return dir, nil
		},
		cancel:      func() { log = append(log, fmt.Sprintf("cancel, interrupted=%v", interrupted.Load())) },
		interrupted: &interrupted,
		exit:        func(code int) { log = append(log, fmt.Sprintf("exit %d", code)) },
	})
	// the model
	var want, texts []string
	term, gone := false, false
	wd := 0
	for _, x := range seq {
		isTerm := x != syscall.SIGUSR1
		if gone {
			break
		}
		texts = append(texts, x.String())
		if isTerm && term {
			want = append(want, fmt.Sprintf("exit %d", 128+int(x.(syscall.Signal))))
			gone = true
			continue
		}
		if isTerm {
			want = append(want, "stop profiles, interrupted=false")
			if failStop&1 == 1 {
				texts = append(texts, "no profiles")
			}
		}
		wd++
		if noDir>>(wd-1)&1 == 0 {
			texts = append(texts, fmt.Sprintf("dir%d", wd))
		}
		if failDiag>>(wd-1)&1 == 1 {
			texts = append(texts, fmt.Sprintf("no diagnostics %d", wd))
		}
		want = append(want, fmt.Sprintf("diagnostics %v, interrupted=%v", x, term))
		if isTerm {
			term = true
			want = append(want, "cancel, interrupted=true")
		}
	}
	limit := time.After(20 * time.Second)
	for _, x := range seq {
		select {
		case sig <- x:
		case <-done:
		case <-limit:
			return fmt.Errorf("signals are not taken anymore: %q", log)
		}
	}
	close(sig)
	select {
	case <-done:
	case <-limit:
		return fmt.Errorf("the handler does not end")
	}
	if bad != nil {
		return bad
	}
	if !reflect.DeepEqual(log, want) {
		return fmt.Errorf("reaction %q, expected %q", log, want)
	}
	if interrupted.Load() != term {
		return fmt.Errorf("marked as interrupted: %v", interrupted.Load())
	}
	rest := out.String()
	for _, t := range texts {
		i := strings.Index(rest, t)
		if i < 0 {
			return fmt.Errorf("%q is not reported (in order): %q", t, out.String())
		}
		rest = rest[i+len(t):]
	}
	return nil
}

// bundle writes the diagnostics with the parts of the mask failing.
func bundle(fail uint, dirFails bool) error {
	var done []string
	dir := "/dir"
	part := func(i uint, name string) func(string) error {
		return func(p string) error {
			if filepath.Dir(p) != dir {
				return fmt.Errorf("file %s", p)
			}
			done = append(done, filepath.Base(p))
			if fail>>i&1 == 1 {
				return fmt.Errorf("failure of %s", name)
			}
			return nil
		}
	}
	names := []string{"heap.pprof", "allocs.pprof", "goroutines.txt", "memstats.txt", "heap-after-gc.pprof", "meta.txt"}
	var meta diagnosticsMeta
	cfg := RunConfig{Directory: "x", NumFiles: 3}
	var out bytes.Buffer
	m := part(5, names[5])
	got, err := createDiagnosticsBundleWithWriter(cfg, syscall.SIGTERM, &out, diagnosticsWriter{
		createDir: func() (string, error) {
			if dirFails {
				return "", errors.New("no directory")
			}
			return dir, nil
		},
		writeHeap: part(0, names[0]), writeAllocs: part(1, names[1]), writeGoroutines: part(2, names[2]),
		writeMemStats: part(3, names[3]), writeHeapAfterGC: part(4, names[4]),
		writeMeta: func(p string, x diagnosticsMeta) error { meta = x; return m(p) },
	})
	if dirFails {
		if got != "" || err == nil || len(done) > 0 {
			return fmt.Errorf("without a directory: %q, %v, %v", got, err, done)
		}
		return nil
	}
	if got != dir {
		return fmt.Errorf("directory %q", got)
	}
	seen := map[string]int{}
	for _, d := range done {
		seen[d]++
	}
	for i, n := range names {
		if seen[n] != 1 {
			return fmt.Errorf("%s is written %d times", n, seen[n])
		}
		failed := fail>>uint(i)&1 == 1
		if in := err != nil && strings.Contains(err.Error(), "failure of "+n); in != failed {
			return fmt.Errorf("%s fails: %v, result %v", n, failed, err)
		}
		if in := strings.Contains(out.String(), "failure of "+n); in != failed {
			return fmt.Errorf("%s fails: %v, printed %q", n, failed, out.String())
		}
	}
	if len(done) != len(names) || (err != nil) != (fail != 0) {
		return fmt.Errorf("%v written, result %v", done, err)
	}
	if meta.Signal != syscall.SIGTERM.String() || meta.PID != os.Getpid() || !reflect.DeepEqual(meta.Config, cfg) || !reflect.DeepEqual(meta.Args, os.Args) ||
		meta.Uptime != meta.Time.Sub(meta.ProcessStart) {
		return fmt.Errorf("description %+v", meta)
	}
	return nil
}

// real writes n bundles at once into a directory of its own; taken directories exist already.
func real(base string, n int, steps []time.Duration, taken int) error {
	root, err := os.MkdirTemp(base, "diag")
	if err != nil {
		return err
	}
	defer os.RemoveAll(root)
	oldRoot, oldNow := diagnosticsRootDir, diagnosticsNow
	defer func() { diagnosticsRootDir, diagnosticsNow = oldRoot, oldNow }()
	diagnosticsRootDir = root
	t := time.Date(2030, 1, 2, 3, 4, 5, 999e6, time.UTC)
	calls := 0
	diagnosticsNow = func() time.Time {
		x := t
		t = t.Add(steps[calls%len(steps)])
		calls++
		return x
	}
	for k := 0; k < taken; k++ {
		os.Mkdir(filepath.Join(root, "fpki-diagnostics-"+t.Add(time.Duration(k)*time.Millisecond).Format("20060102-150405.000")), 0o755)
	}
	dirs := map[string]bool{}
	for i := 0; i < n; i++ {
		var out bytes.Buffer
		dir, err := createDiagnosticsBundle(RunConfig{Directory: "the directory", JournalFile: "the journal"}, sAll[i%3], &out)
		if err != nil {
			return fmt.Errorf("bundle %d: %w", i, err)
		}
		if dirs[dir] || filepath.Dir(dir) != root {
			return fmt.Errorf("bundle %d goes to %s again", i, dir)
		}
		dirs[dir] = true
		fs, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		if len(fs) != 6 {
			return fmt.Errorf("bundle %d consists of %v", i, fs)
		}
		for _, f := range fs {
			b, err := os.ReadFile(filepath.Join(dir, f.Name()))
			if err != nil || len(b) == 0 {
				return fmt.Errorf("%s is empty: %v", f.Name(), err)
			}
			if f.Name() == "meta.txt" {
				for _, x := range []string{"signal=" + sAll[i%3].String() + "\n", fmt.Sprintf("pid=%d\n", os.Getpid()), "directory=the directory\n", "journal=the journal\n"} {
					if !strings.Contains(string(b), x) {
						return fmt.Errorf("meta.txt lacks %q: %q", x, b)
					}
				}
			}
		}
	}
	return nil
}

func main() {
	core.Quiet()
	r := core.Start("C34", "model_checking")
	r.Rule = "all sequences of INT, TERM and USR1 up to a length with all failing parts; all subsets of failing parts of the diagnostics"
	n := r.Pick(5, 7)
	seqs := sSequences(n)
	r.Parallel("signal sequences", len(seqs), func(i int) {
		for fs := uint(0); fs < 2; fs++ {
			for fd := uint(0); fd < 1<<min(len(seqs[i]), 5); fd++ {
				for _, nd := range []uint{0, fd, ^fd} {
					r.Case(fmt.Sprintf("signals %v, profiles fail %b, diagnostics fail %b without directory %b", seqs[i], fs, fd, nd), nil, func() error {
						return handle(seqs[i], fs, fd, nd)
					})
					r.Transitions.Add(int64(len(seqs[i])))
				}
			}
		}
		r.Distinct.Add(1)
	})
	for f := uint(0); f < 64; f++ {
		r.Case(fmt.Sprintf("diagnostics, failing %b", f), nil, func() error { return bundle(f, false) })
		r.Distinct.Add(1)
	}
	r.Case("diagnostics without directory", nil, func() error { return bundle(0, true) })
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	for k := 1; k <= 4; k++ {
		for taken := 0; taken < 7; taken += 3 {
			for _, st := range [][]time.Duration{{time.Millisecond}, {0, time.Millisecond}, {time.Second}} {
				r.Case(fmt.Sprintf("%d bundles, clock %v, %d directories taken", k, st, taken), nil, func() error { return real(base, k, st, taken) })
				r.Distinct.Add(1)
			}
		}
	}
	r.Finish()
}
