package vrt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/netsec-ethz/fpki/verifmc/core"
)

// Scenario is one closed program whose executions are enumerated.
type Scenario struct {
	Name string
	// Body runs as the first goroutine. A returned error is a violation.
	Body func() error
	// Final judges the end of the execution (nil: anything but a clean end is a violation).
	Final func(r *Result) error
	// Outcome classifies an execution for the evidence (optional).
	Outcome func(r *Result) string
	// Quick and Deep are the deviation bounds of the two tiers.
	Quick, Deep int
	Policies    []int // default: all four
	NoCache     bool  // the program shares memory without synchronisation
	EagerTimers bool  // timers may also fire while other goroutines can run (one deviation)
	MaxSteps    int
	Shards      int
	OnlyDeep    bool
}

type job struct {
	Scen   string
	Policy int
	Bound  int
	Shard  int
	Shards int
	LimitS float64
}

type viol struct {
	Scen     string
	Policy   int
	Schedule []int
	Dev      int
	What     string
	Key      string
	Trace    []string
	Hang     bool
}

type jobResult struct {
	Job      job
	Execs    int64
	Pruned   int64
	Points   int64
	Steps    int64
	States   int64
	Classes  int64
	MaxDepth int
	Complete bool
	Outcomes map[string]int64
	Viols    []viol
	Err      string
	Sample   string
}

func judge(sc *Scenario, o *execOut) error {
	if o.Status == StPruned {
		return nil
	}
	r := &o.Result
	if sc.Final != nil {
		return core.Safe(func() error { return sc.Final(r) })
	}
	return DefaultFinal(r)
}

// DefaultFinal accepts only executions that end cleanly with no error.
func DefaultFinal(r *Result) error {
	if r.Err != nil {
		return r.Err
	}
	switch r.Status {
	case StOK:
		return nil
	case StPanic:
		return fmt.Errorf("panic: %s", r.Panic)
	}
	return fmt.Errorf("%s: goroutines blocked: %s", r.Status, strings.Join(r.Blocked, "; "))
}

func devs(tr []choice) (string, int) {
	var l []string
	n := 0
	for i, c := range tr {
		if c.pick > 0 {
			if c.cost > 0 {
				n++
			}
			l = append(l, fmt.Sprintf("%d:%c%d/%d", i, c.kind, c.pick, c.n))
		}
	}
	return strings.Join(l, " "), n
}

func picks(tr []choice) []int {
	last := -1
	for i, c := range tr {
		if c.pick > 0 {
			last = i
		}
	}
	p := make([]int, last+1)
	for i := range p {
		p[i] = tr[i].pick
	}
	return p
}

// explore runs all executions of a job.
func explore(sc *Scenario, j job, progress func([]int)) *jobResult {
	res := &jobResult{Job: j, Outcomes: map[string]int64{}, Complete: true}
	var visited map[uint64]int8
	if !sc.NoCache {
		visited = map[uint64]int8{}
	}
	classes := map[uint64]bool{}
	t0 := time.Now()
	var prefix []int
	first := true
	keys := map[string]bool{}
	for {
		if time.Since(t0).Seconds() > j.LimitS {
			res.Complete = false
			break
		}
		if progress != nil {
			progress(prefix)
		}
		o := execute(execCfg{policy: j.Policy, prefix: prefix, budget: j.Bound, visited: visited, maxStep: sc.MaxSteps, eager: sc.EagerTimers}, sc.Body)
		res.Execs++
		res.Steps += int64(o.Steps)
		if len(o.trace) > res.MaxDepth {
			res.MaxDepth = len(o.trace)
		}
		if o.divergence != "" {
			res.Err = fmt.Sprintf("%s: divergence: %s (schedule %v)", sc.Name, o.divergence, prefix)
			return res
		}
		if o.Status == StHang {
			d, n := devs(o.trace)
			res.Viols = append(res.Viols, viol{Scen: sc.Name, Policy: j.Policy, Schedule: picks(o.trace), Dev: n, Hang: true,
				What: "the code runs without reaching a scheduling point (endless loop)", Key: fmt.Sprintf("%s policy=%d schedule=[%s] hang", sc.Name, j.Policy, d)})
			return res
		}
		// free choices at the very front decide the shard together with the first deviation
		for k, rep := range newRaces() {
			if !keys[k] {
				keys[k] = true
				_, n := devs(o.trace)
				res.Viols = append(res.Viols, viol{Scen: sc.Name, Policy: j.Policy, Schedule: picks(o.trace), Dev: n, What: k, Key: k, Trace: strings.Split(rep, "\n")})
			}
		}
		if o.Status == StPruned {
			res.Pruned++
		} else {
			if len(classes) < 4_000_000 {
				classes[o.sum] = true
			}
			out := o.Status.String()
			if sc.Outcome != nil {
				out = sc.Outcome(&o.Result)
			}
			if len(res.Outcomes) < 300 || res.Outcomes[out] > 0 {
				res.Outcomes[out]++
			}
			if err := judge(sc, o); err != nil {
				d, n := devs(o.trace)
				pk := picks(o.trace)
				// the failure must be reproducible
				same := 0
				var o2 *execOut
				for k := 0; k < 2; k++ {
					o2 = execute(execCfg{policy: j.Policy, prefix: pk, maxStep: sc.MaxSteps, verbose: true, eager: sc.EagerTimers}, sc.Body)
					if e2 := judge(sc, o2); e2 != nil {
						same++
					}
				}
				if same != 2 {
					res.Err = fmt.Sprintf("%s policy=%d schedule=[%s]: failed once but not when repeated: %v", sc.Name, j.Policy, d, err)
					return res
				}
				key := fmt.Sprintf("%s policy=%d schedule=[%s]", sc.Name, j.Policy, d)
				if ke, ok := err.(*core.KeyedError); ok {
					key = ke.Key
				}
				if !keys[key] {
					keys[key] = true
					tr := o2.schedLog
					if len(tr) > 400 {
						tr = tr[len(tr)-400:]
					}
					res.Viols = append(res.Viols, viol{Scen: sc.Name, Policy: j.Policy, Schedule: pk, Dev: n, What: err.Error(), Key: key, Trace: tr})
				}
				nk := 0
				for _, v := range res.Viols {
					if strings.HasPrefix(v.Key, sc.Name+" policy") {
						nk++
					}
				}
				if nk >= 2 {
					res.Complete = false
					break
				}
			}
			if first {
				res.Sample = fmt.Sprintf("%s policy=%d: default schedule has %d operations, %d decisions, ends %s", sc.Name, j.Policy, o.Steps, len(o.trace), o.Status)
			}
		}
		first = false
		// next schedule: advance the deepest decision that still has an alternative within the bound
		tr := o.trace
		limit := len(tr)
		if o.Status == StPruned && o.pruneAt >= 0 && o.pruneAt < limit {
			limit = o.pruneAt
		}
		used := make([]int, limit+1)
		firstDev := -1
		fd := make([]int, limit+1)
		for i := 0; i < limit; i++ {
			fd[i] = firstDev
			used[i+1] = used[i]
			if tr[i].pick > 0 && tr[i].cost > 0 {
				used[i+1] += tr[i].cost
				if firstDev < 0 {
					firstDev = i
				}
			}
		}
		res.Points += int64(limit - min(limit, len(prefix)))
		next := -1
		for i := limit - 1; i >= 0; i-- {
			if tr[i].pick+1 >= tr[i].n {
				continue
			}
			if tr[i].cost > 0 && used[i]+tr[i].cost > j.Bound {
				continue
			}
			if tr[i].cost > 0 && fd[i] < 0 && j.Shards > 1 && i%j.Shards != j.Shard {
				continue // another shard explores this first deviation
			}
			next = i
			break
		}
		if next < 0 {
			break
		}
		prefix = make([]int, next+1)
		for i := 0; i < next; i++ {
			prefix[i] = tr[i].pick
		}
		prefix[next] = tr[next].pick + 1
	}
	res.States = int64(len(visited))
	res.Classes = int64(len(classes))
	return res
}

// Main is the entry point of a harness that enumerates schedules. finish may add more checks and must
// not call Finish itself.
func Main(id string, rule string, scens []*Scenario, more func(r *core.Run)) {
	byName := map[string]*Scenario{}
	for _, sc := range scens {
		if byName[sc.Name] != nil {
			panic("duplicate scenario " + sc.Name)
		}
		byName[sc.Name] = sc
	}
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "-worker" {
		worker(byName)
		return
	}
	if len(args) > 0 && args[0] == "-list" {
		for _, sc := range scens {
			fmt.Fprintln(core.Out, sc.Name, sc.Quick, sc.Deep)
		}
		return
	}
	if len(args) > 2 && args[0] == "-replay" {
		// -replay scenario policy i,i,i
		sc := byName[args[1]]
		pol, _ := strconv.Atoi(args[2])
		var pk []int
		if len(args) > 3 && args[3] != "" {
			for _, x := range strings.Split(args[3], ",") {
				n, _ := strconv.Atoi(strings.TrimSpace(x))
				pk = append(pk, n)
			}
		}
		runtime.GOMAXPROCS(1)
		o := execute(execCfg{policy: pol, prefix: pk, maxStep: sc.MaxSteps, verbose: true, eager: sc.EagerTimers}, sc.Body)
		for _, l := range o.schedLog {
			fmt.Fprintln(core.Out, l)
		}
		for _, l := range o.Log {
			fmt.Fprintln(core.Out, "LOG", l)
		}
		fmt.Fprintln(core.Out, "status", o.Status, "err", o.Err, "blocked", o.Blocked, o.Panic)
		fmt.Fprintln(core.Out, "verdict:", judge(sc, o))
		return
	}
	r := core.Start(id, "model_checking")
	r.Rule = rule
	only := os.Getenv("VERIF_SCEN")
	var jobs []job
	perScen := map[string]int{}
	nScen := 0
	for _, sc := range scens {
		if sc.OnlyDeep && !r.Thorough() {
			continue
		}
		if only != "" && !strings.Contains(sc.Name, only) {
			continue
		}
		nScen++
		pol := sc.Policies
		if pol == nil {
			pol = []int{0, 1, 2, 3}
		}
		for _, p := range pol {
			b := sc.Quick
			if r.Thorough() {
				b = sc.Deep
			}
			if e := os.Getenv("VERIF_BOUND"); e != "" {
				b, _ = strconv.Atoi(e)
			}
			if e := os.Getenv("VERIF_CAP_" + r.Tier); e != "" {
				n, _ := strconv.Atoi(e)
				b = min(b, n)
			}
			sh := sc.Shards
			if sh < 1 || b == 0 {
				sh = 1
			}
			for k := 0; k < sh; k++ {
				jobs = append(jobs, job{Scen: sc.Name, Policy: p, Bound: b, Shard: k, Shards: sh})
				perScen[sc.Name]++
			}
		}
	}
	// the shortest exploration depth first would leave the long ones alone at the end: order by bound
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].Bound*10+jobs[a].Shards > jobs[b].Bound*10+jobs[b].Shards })
	limit := 150.0
	if r.Thorough() {
		limit = 2.5 * 3600
	}
	if e := os.Getenv("VERIF_SECS"); e != "" {
		limit, _ = strconv.ParseFloat(e, 64)
	}
	t0 := time.Now()
	type summary struct {
		Execs, Pruned, Points, States, Classes int64
		MaxDepth                               int
		Bound                                  int
		Complete                               bool
		Outcomes                               map[string]int64
	}
	sums := map[string]*summary{}
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var wk *workerProc
			defer func() {
				if wk != nil {
					wk.stop()
				}
			}()
			for {
				mu.Lock()
				left := limit - time.Since(t0).Seconds()
				if next >= len(jobs) || r.Stop() {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				remaining := len(jobs) - next + 1
				mu.Unlock()
				if left < 0.5 {
					left = 0.5
				}
				// fair share of the remaining time
				share := left * float64(nw) / float64(remaining)
				if share < left/6 {
					share = left / 6
				}
				if share > left {
					share = left
				}
				j.LimitS = share
				if wk == nil {
					var err error
					if wk, err = startWorker(); err != nil {
						r.InternalError("worker: %v", err)
						return
					}
				}
				res, err := wk.run(j, left+150)
				if err != nil {
					wk.stop()
					wk = nil
					r.InternalError("worker on %+v: %v", j, err)
					r.Cap("worker failed")
					continue
				}
				for _, v := range res.Viols {
					if v.Hang {
						wk.stop()
						wk = nil
						break
					}
				}
				mu.Lock()
				sm := sums[j.Scen]
				if sm == nil {
					sm = &summary{Complete: true, Outcomes: map[string]int64{}, Bound: j.Bound}
					sums[j.Scen] = sm
				}
				sm.Execs += res.Execs
				sm.Pruned += res.Pruned
				sm.Points += res.Points
				sm.States += res.States
				sm.Classes += res.Classes
				if res.MaxDepth > sm.MaxDepth {
					sm.MaxDepth = res.MaxDepth
				}
				sm.Complete = sm.Complete && res.Complete
				for k, n := range res.Outcomes {
					sm.Outcomes[k] += n
				}
				mu.Unlock()
				r.Evaluations.Add(res.Execs)
				r.Distinct.Add(res.Classes)
				r.States.Add(max(res.States, res.Classes))
				r.Transitions.Add(res.Steps)
				r.Validated.Add(res.Execs - res.Pruned)
				if res.Sample != "" {
					r.Sample(res.Sample)
				}
				for k, n := range res.Outcomes {
					r.OutcomeN(j.Scen+": "+k, n)
				}
				if res.Err != "" {
					r.InternalError("%s", res.Err)
				}
				for _, v := range res.Viols {
					if v.Hang && !confirmHang(v) {
						r.InternalError("%s: slow execution, not confirmed as endless", v.Key)
						continue
					}
					r.Violation(v.Key, v.What, map[string]any{"scenario": v.Scen, "policy": v.Policy, "deviations": v.Dev,
						"schedule": strings.Trim(strings.Join(strings.Fields(fmt.Sprint(v.Schedule)), ","), "[]"), "trace": v.Trace,
						"replay": fmt.Sprintf("<harness> -replay '%s' %d <schedule>", v.Scen, v.Policy)})
				}
				if !res.Complete && len(res.Viols) == 0 {
					r.Cap(fmt.Sprintf("%s: time limit before the bound of %d deviations was exhausted (policy %d)", j.Scen, j.Bound, j.Policy))
				}
			}
		}()
	}
	wg.Wait()
	table := []string{}
	for _, sc := range scens {
		if sm := sums[sc.Name]; sm != nil {
			table = append(table, fmt.Sprintf("%s: bound=%d executions=%d pruned=%d decisions=%d states=%d depth=%d complete=%v outcomes=%d",
				sc.Name, sm.Bound, sm.Execs, sm.Pruned, sm.Points, sm.States, sm.MaxDepth, sm.Complete, len(sm.Outcomes)))
		}
	}
	r.Extra("scenarios", table)
	r.Extra("schedules", r.Evaluations.Load())
	r.Extra("preemption_bound", maxBound(jobs))
	r.Assume("scheduling decisions are taken at goroutine, channel, lock, atomic, timer and context operations (and at statements where stated); a deviation is any decision other than the base policy's, four base policies are used")
	r.Assume("the virtual clock only advances when no goroutine can run (unless a scenario states that timers may fire early)")
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, l := range table {
			fmt.Fprintln(core.Out, l)
		}
	}
	if raceDir != "" {
		os.RemoveAll(raceDir)
	}
	if more != nil {
		more(r)
	}
	r.Finish()
}

func maxBound(jobs []job) int {
	m := 0
	for _, j := range jobs {
		m = max(m, j.Bound)
	}
	return m
}

func confirmHang(v viol) bool {
	var l []string
	for _, p := range v.Schedule {
		l = append(l, strconv.Itoa(p))
	}
	cmd := exec.Command(os.Args[0], "-replay", v.Scen, strconv.Itoa(v.Policy), strings.Join(l, ","))
	out, _ := cmd.CombinedOutput()
	return strings.Contains(string(out), "status hang")
}

type workerProc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	inc interface{ Close() error }
	out *bufio.Scanner
}

var (
	raceDir  string
	raceOnce sync.Once
	raceErr  error
)

func startWorker() (*workerProc, error) {
	cmd := exec.Command(os.Args[0], "-worker")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	if raceEnabled {
		raceOnce.Do(func() { raceDir, raceErr = os.MkdirTemp(os.Getenv("VERIF_WORK"), "race") })
		if raceErr != nil {
			return nil, raceErr
		}
		cmd.Env = append(cmd.Env, "VERIF_RACELOG="+raceDir+"/log", "GORACE=log_path="+raceDir+"/log atexit_sleep_ms=0 halt_on_error=0 exitcode=0")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		cmd.Stderr = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 256<<20)
	return &workerProc{cmd: cmd, in: bufio.NewWriter(in), inc: in, out: sc}, nil
}

func (w *workerProc) stop() {
	w.inc.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
}

func (w *workerProc) run(j job, limit float64) (*jobResult, error) {
	buf, _ := json.Marshal(j)
	w.in.Write(buf)
	w.in.WriteByte('\n')
	if err := w.in.Flush(); err != nil {
		return nil, err
	}
	tm := time.AfterFunc(time.Duration(limit*float64(time.Second)), func() { w.cmd.Process.Kill() })
	defer tm.Stop()
	for w.out.Scan() {
		l := w.out.Bytes()
		if !strings.HasPrefix(string(l[:min(len(l), 8)]), "@@RES ") {
			continue
		}
		var r jobResult
		if err := json.Unmarshal(l[6:], &r); err != nil {
			return nil, err
		}
		return &r, nil
	}
	return nil, fmt.Errorf("worker ended without a result: %v", w.out.Err())
}

func worker(byName map[string]*Scenario) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	for in.Scan() {
		var j job
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		res := explore(byName[j.Scen], j, nil)
		buf, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fmt.Fprintf(core.Out, "@@RES %s\n", buf)
	}
}
