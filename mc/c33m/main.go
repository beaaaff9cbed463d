// Overlaid into cmd/mapserver: the whole command on a modelled storage. Policies inserted from files with
// every storage step failing, and termination signals at every storage step of a serving process.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/ctlog"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/mapx"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

var (
	mNames = fix.Namer{}
	mDir   string
	mConf  string
)

// mChild is what a child process gets to know.
type mChild struct {
	Conf   string
	Update bool // -updateNow
	At     int  // the storage step at which the signal is sent to itself
	Sig    int
}

// child runs the command; it reports every storage step on the descriptor 3.
func child(text string) {
	var c mChild
	if err := json.Unmarshal([]byte(text), &c); err != nil {
		panic(err)
	}
	out := os.NewFile(3, "steps")
	d := memdb.New()
	var mu sync.Mutex
	n := 0
	d.Hook = func(step string, write bool) error {
		mu.Lock()
		n++
		hit := n == c.At
		mu.Unlock()
		if hit {
			out.Write([]byte{'!'})
			syscall.Kill(os.Getpid(), syscall.Signal(c.Sig))
			time.Sleep(100 * time.Millisecond)
		} else {
			out.Write([]byte{map[bool]byte{false: '.', true: 'w'}[write]})
		}
		return nil
	}
	mysql.VerifConnect = func(*db.Configuration) (db.Conn, error) { return d, nil }
	os.Args = []string{"mapserver", c.Conf}
	if c.Update {
		os.Args = []string{"mapserver", "-updateNow", c.Conf}
	}
	os.Exit(mainFunc())
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func mConfig(port int, at util.TimeOfDayWrap) (string, error) {
	f := filepath.Join(mDir, fmt.Sprintf("conf-%d.json", port))
	return f, config.WriteConfigurationToFile(f, &config.Config{
		CTLogServerURLs:    []string{"https://log.invalid/"},
		CertificateFolders: map[string]string{"https://log.invalid/": filepath.Join(mDir, "log")},
		DBConfig:           &db.Configuration{}, CertificatePemFile: mapx.CertFile, PrivateKeyPemFile: mapx.KeyFile,
		HttpAPIPort: port, CsvIngestionMaxRows: 100, UpdateAt: at, UpdateTimer: util.DurationWrap{Duration: 24 * time.Hour},
	})
}

// signalled runs the command and lets it get the signal at the given storage step, or, if there are less
// steps until all of the work is done, when it is idle. It returns whether the step was reached.
func signalled(mode string, at int, sig syscall.Signal) (hit bool, steps int, err error) {
	for try := 0; ; try++ {
		hit, steps, err = signalled1(mode, at, sig)
		if !errors.Is(err, errPort) || try > 10 {
			return
		}
	}
}

var errPort = errors.New("port taken by somebody else")

func signalled1(mode string, at int, sig syscall.Signal) (hit bool, steps int, err error) {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		return false, 0, err
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	u := time.Now().UTC().Add(-time.Hour)
	if mode == "periodic" {
		u = time.Now().UTC().Add(1500 * time.Millisecond)
	}
	conf, err := mConfig(port, util.NewTimeOfDay(uint(u.Hour()), uint(u.Minute()), uint(u.Second()), uint(u.Nanosecond())))
	if err != nil {
		return false, 0, err
	}
	defer os.Remove(conf)
	arg, _ := json.Marshal(mChild{conf, mode == "updateNow", at, int(sig)})
	pr, pw, err := os.Pipe()
	if err != nil {
		return false, 0, err
	}
	defer pr.Close()
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(arg))
	cmd.ExtraFiles = []*os.File{pw}
	var text lockedBuffer
	cmd.Stdout, cmd.Stderr = &text, &text
	if err := cmd.Start(); err != nil {
		pw.Close()
		return false, 0, err
	}
	pw.Close()
	ended := make(chan struct{})
	go func() { cmd.Wait(); close(ended) }()
	defer func() {
		cmd.Process.Kill()
		<-ended
	}()
	// the steps
	var mu sync.Mutex
	var wrote time.Time // of the first write
	hitCh := make(chan struct{})
	go func() {
		b := make([]byte, 1)
		for {
			if k, err := pr.Read(b); k == 0 || err != nil {
				return
			}
			mu.Lock()
			steps++
			if b[0] == 'w' && wrote.IsZero() {
				wrote = time.Now()
			}
			mu.Unlock()
			if b[0] == '!' {
				close(hitCh)
			}
		}
	}()
	firstWrite := func() time.Time { mu.Lock(); defer mu.Unlock(); return wrote }
	count := func() int { mu.Lock(); defer mu.Unlock(); return steps }
	isHit := func() bool {
		select {
		case <-hitCh:
			return true
		default:
			return false
		}
	}
	reqErr := make(chan error, 1)
	var reqs sync.WaitGroup
	serving, inTime := false, false // inTime: it serves before the update is due
	// wait until it serves
	for t := time.Now(); !isHit(); time.Sleep(5 * time.Millisecond) {
		select {
		case <-ended:
			if isHit() {
				break
			}
			if strings.Contains(text.String(), "address already in use") {
				return false, 0, errPort
			}
			return false, 0, fmt.Errorf("the command ends without being asked to: %s\n%s", cmd.ProcessState, text.String())
		default:
		}
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second); err == nil {
			c.Close()
			serving = true
			inTime = time.Now().Before(u)
			break
		}
		if time.Since(t) > 40*time.Second {
			return false, 0, fmt.Errorf("the command does not serve after 40 s\n%s", text.String())
		}
	}
	if serving {
		switch mode {
		case "periodic": // wait for the update
			for t := time.Now(); (time.Since(t) < 3500*time.Millisecond || inTime && firstWrite().IsZero() && time.Since(t) < 40*time.Second) && !isHit(); time.Sleep(5 * time.Millisecond) {
			}
		default: // requests
			reqs.Add(1)
			go func() {
				defer reqs.Done()
				for i := 0; i < 2; i++ {
					if i > 0 && isHit() {
						return
					}
					early := isHit()
					cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 20 * time.Second}
					resp, err := cl.Get(fmt.Sprintf("http://127.0.0.1:%d/getproof?domain=a.com", port))
					if err == nil {
						var b []byte
						if b, err = io.ReadAll(resp.Body); err == nil {
							resp.Body.Close()
							var rs []*mapCommon.MapServerResponse
							if e := json.Unmarshal(b, &rs); resp.StatusCode != 200 || e != nil || len(rs) != 1 {
								err = fmt.Errorf("status %d, body %.200q", resp.StatusCode, b)
							}
						}
					}
					if err != nil && !early {
						reqErr <- fmt.Errorf("request while serving: %w", err)
						return
					}
				}
			}()
			reqs.Wait()
		}
	}
	hit = isHit()
	idle := serving && !hit
	switch w := firstWrite(); {
	case mode == "periodic" && !w.IsZero() && w.Before(u.Add(-100*time.Millisecond)):
		return hit, count(), fmt.Errorf("the update starts %s before its time", u.Sub(w))
	case mode == "periodic" && idle && inTime && w.IsZero():
		return hit, count(), fmt.Errorf("no update at its time")
	case mode == "empty" && !w.IsZero():
		return hit, count(), fmt.Errorf("an update at %s although its time is %s", w.UTC(), u)
	}
	if idle {
		cmd.Process.Signal(sig)
	}
	t := time.Now()
	select {
	case <-ended:
	case <-time.After(14 * time.Second):
		return hit, count(), fmt.Errorf("the command does not end after the signal\n%s", text.String())
	}
	took := time.Since(t)
	reqs.Wait()
	select {
	case err := <-reqErr:
		return hit, count(), err
	default:
	}
	st := cmd.ProcessState
	code := st.ExitCode()
	if code != 0 && code != 1 || code == 1 && serving && mode != "updateNow" || idle && code != 0 || strings.Contains(text.String(), "panic:") {
		return hit, count(), fmt.Errorf("the command ends %s after the signal with %s\n%.3000s", took.Round(time.Second), st, text.String())
	}
	if took > 8*time.Second {
		return hit, count(), fmt.Errorf("the command needs %s to end after the signal\n%.3000s", took, text.String())
	}
	return hit, count(), nil
}

// mState makes the content of a map.
func mState(leaves []*fix.Cert, pols []*fix.Policy) (*memdb.State, error) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	d := memdb.New()
	s, err := mapx.Start(ctx, d, &mapx.Log{Name: "l", Items: leaves, Batch: 2})
	if err != nil {
		return nil, err
	}
	for _, p := range pols {
		doc := *p.Doc
		if err := updater.UpdateWithKeepExisting(ctx, d, nil, nil, nil, nil, nil, []common.PolicyDocument{&doc}); err != nil {
			return nil, err
		}
	}
	err = s.PruneAndUpdate(ctx)
	return d.S.Clone(), err
}

// insert runs the command to insert the policy; the storage step at (from 1) fails.
func insert(s *memdb.State, file string, at int) (after *memdb.State, status int, hit bool) {
	d := memdb.On(s)
	n := 0
	d.Hook = func(step string, write bool) error {
		n++
		if n == at {
			hit = true
			return memdb.ErrInjected
		}
		return nil
	}
	mysql.VerifConnect = func(*db.Configuration) (db.Conn, error) { return d, nil }
	args := os.Args
	defer func() { os.Args = args }()
	os.Args = []string{"mapserver", "-policyFile", file, mConf}
	status = mainFunc()
	return d.S.Clone(), status, hit
}

func consistent(s *memdb.State, leaves []*fix.Cert, pols []*fix.Policy) error {
	e := fix.ExpectOf(leaves, pols)
	if err := mNames.CompareObjects(s, e); err != nil {
		return err
	}
	if err := mNames.CompareEntries(s, e); err != nil {
		return err
	}
	var root []byte
	if s.Root != nil {
		root = s.Root[:]
	}
	if want := mapx.EntriesRoot(s); !bytes.Equal(want, root) {
		return fmt.Errorf("the saved root %x is not the root of the entries %x", root, want)
	}
	if len(s.Dirty) > 0 {
		return fmt.Errorf("%d domains are still marked dirty", len(s.Dirty))
	}
	return nil
}

func main() {
	if c := os.Getenv("VERIF_CHILD"); c != "" {
		child(c)
	}
	core.Quiet()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_LOUD") == "" {
		os.Stderr = null
	}
	r := core.Start("C33", "fault_enumeration")
	r.Rule = "the whole command: every policy inserted into every content with every storage step failing; termination signals at every storage step of start, initial and periodic update and requests, and when idle"
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	var err error
	if mDir, err = os.MkdirTemp(base, "c33m"); err != nil {
		panic(err)
	}
	defer os.RemoveAll(mDir)
	mapx.Setup()
	ctlog.Setup(time.Now())
	ctlog.WriteFile(filepath.Join(mDir, "log", "0-2.csv"), []string{"a", "b", "c"})

	// insertion
	far := time.Now().AddDate(20, 0, 0).UTC()
	root := fix.New("R", "", nil, nil, far)
	leaves := []*fix.Cert{fix.New("A", "a.com", []string{"w.a.com"}, root, far), fix.New("B", "b.com", nil, root, far)}
	pols := []*fix.Policy{fix.NewPolicy("P", "a.com", 1), fix.NewPolicy("Q", "a.com", 2), fix.NewPolicy("S", "n.org", 3)}
	mNames.Certs(root)
	mNames.Certs(leaves...)
	mNames.Policies(pols...)
	if mConf, err = mConfig(1, util.NewTimeOfDay(0, 0, 0, 0)); err != nil {
		panic(err)
	}
	var files []string
	for _, p := range pols {
		f := filepath.Join(mDir, p.Name+".json")
		if err := os.WriteFile(f, []byte(p.Payload), 0o644); err != nil {
			panic(err)
		}
		files = append(files, f)
	}
	states := map[[2]int]*memdb.State{}
	sub := func(m int) (lv []*fix.Cert) {
		for i, l := range leaves {
			if m>>i&1 == 1 {
				lv = append(lv, l)
			}
		}
		return
	}
	subP := func(m int) (ps []*fix.Policy) {
		for i, p := range pols {
			if m>>i&1 == 1 {
				ps = append(ps, p)
			}
		}
		return
	}
	for lm := 0; lm < 1<<len(leaves); lm++ {
		for pm := 0; pm < 1<<len(pols); pm++ {
			if states[[2]int{lm, pm}], err = mState(sub(lm), subP(pm)); err != nil {
				r.InternalError("%v", err)
			}
		}
	}
	for lm := 0; lm < 1<<len(leaves) && !r.Stop(); lm++ {
		for pm := 0; pm < 1<<len(pols) && !r.Stop(); pm++ {
			s := states[[2]int{lm, pm}]
			for i := range pols {
				for at := 0; ; at++ {
					hit := false
					if !r.Case(fmt.Sprintf("insert %s into certificates %b policies %b, step %d fails", pols[i].Name, lm, pm, at), nil, func() error {
						var after *memdb.State
						var status int
						after, status, hit = insert(s, files[i], at)
						if hit {
							if status != 1 {
								return fmt.Errorf("a storage step fails and the command ends with status %d", status)
							}
							if after, status, _ = insert(after, files[i], 0); status != 0 {
								return fmt.Errorf("repeated after a failed step: status %d", status)
							}
						}
						if status != 0 {
							return fmt.Errorf("status %d", status)
						}
						return consistent(after, sub(lm), subP(pm|1<<i))
					}) || at > 0 && !hit {
						break
					}
					r.Distinct.Add(1)
				}
			}
		}
	}
	// unusable input
	bad := func(what string, args ...string) {
		r.Case("command with "+what, nil, func() error {
			d := memdb.On(states[[2]int{3, 1}])
			mysql.VerifConnect = func(*db.Configuration) (db.Conn, error) { return d, nil }
			before := d.S.Dump()
			old := os.Args
			defer func() { os.Args = old }()
			os.Args = append([]string{"mapserver"}, args...)
			if st := mainFunc(); st != 1 {
				return fmt.Errorf("status %d", st)
			}
			if d.S.Dump() != before {
				return fmt.Errorf("the storage is changed")
			}
			return nil
		})
	}
	no, empty, cut, list := filepath.Join(mDir, "none"), filepath.Join(mDir, "empty"), filepath.Join(mDir, "cut"), filepath.Join(mDir, "list")
	os.WriteFile(empty, nil, 0o644)
	os.WriteFile(cut, []byte(pols[0].Payload[:len(pols[0].Payload)-1]), 0o644)
	os.WriteFile(list, []byte("["+pols[0].Payload+"]"), 0o644)
	bad("a missing policy file", "-policyFile", no, mConf)
	bad("an empty policy file", "-policyFile", empty, mConf)
	bad("a truncated policy file", "-policyFile", cut, mConf)
	bad("a list of policies", "-policyFile", list, mConf)
	bad("a missing configuration", "-policyFile", files[0], no)
	bad("an empty configuration", "-policyFile", files[0], empty)
	bad("no configuration", "-policyFile", files[0])
	bad("two configurations", "-policyFile", files[0], mConf, mConf)
	bad("a missing configuration to serve", no)
	bad("an empty configuration to serve", empty)

	// signals
	type job struct {
		mode string
		at   int
		sig  syscall.Signal
	}
	sigs := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}
	run := func(j job) (hit bool, steps int, ok bool) {
		ok = r.Case(fmt.Sprintf("signal %d at step %d %s", j.sig, j.at, j.mode), nil, func() (err error) {
			hit, steps, err = signalled(j.mode, j.at, j.sig)
			return
		})
		r.Distinct.Add(1)
		return
	}
	for _, mode := range []string{"updateNow", "periodic", "empty"} {
		if r.Stop() {
			break
		}
		_, n, ok := run(job{mode, -1, syscall.SIGTERM})
		if !ok {
			continue
		}
		r.AddExtra("storage steps "+mode, int64(n))
		var jobs []job
		for at := 0; at <= n+1; at++ {
			for i, sg := range sigs {
				if r.Thorough() || at%2 == i {
					jobs = append(jobs, job{mode, at, sg})
				}
			}
		}
		r.Parallel("signals "+mode, len(jobs), func(i int) {
			hit, _, _ := run(jobs[i])
			if hit {
				r.Outcome("signal during " + mode)
			} else {
				r.Outcome("signal when idle after " + mode)
			}
		})
	}
	r.Assume("the modelled storage stands for MySQL (check C11); a process ends within 8 s of a signal unless it is stuck")
	os.RemoveAll(mDir)
	r.Finish()
}
