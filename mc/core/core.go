// Package core is the reporting and exploration helper shared by all checks in /verif.
// It is compiled into the module under test through a build overlay.
package core

import (
	"errors"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of one check.
type Run struct {
	ID    string
	Tier  string
	Seed  int
	Level string
	Root  string // the /verif directory
	Rule  string

	start    time.Time
	deadline time.Time

	Evaluations atomic.Int64
	Distinct    atomic.Int64 // non-trivial distinct cases
	States      atomic.Int64
	Transitions atomic.Int64
	Validated   atomic.Int64

	mu          sync.Mutex
	samples     []any
	extra       map[string]any
	assumptions []string
	outcomes    map[string]int64
	seen        map[string]bool
	capped      []string
	known       map[string]string
	knownHit    map[string]bool
	violations  int
	maxViol     int
	errs        []string
}

// Out is where the check reports; Quiet discards what the code under test prints.
var Out = os.Stdout

func Quiet() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_LOUD") == "" {
		os.Stdout = f
	}
}

// Start begins the run of check id. The tier comes from VERIF_TIER.
func Start(id, level string) *Run {
	r := &Run{ID: id, Level: level, Tier: os.Getenv("VERIF_TIER"), Root: os.Getenv("VERIF_ROOT")}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if r.Root == "" {
		r.Root = "/verif"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.start = time.Now()
	limit := 240 * time.Second
	if r.Tier == "thorough" {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	r.deadline = r.start.Add(limit)
	r.extra = map[string]any{}
	r.outcomes = map[string]int64{}
	r.seen = map[string]bool{}
	r.knownHit = map[string]bool{}
	r.maxViol = 3
	r.loadKnown()
	debug.SetGCPercent(400)
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func (r *Run) loadKnown() {
	r.known = map[string]string{}
	buf, err := os.ReadFile(filepath.Join(r.Root, "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(buf), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k struct{ Property, Key, What string }
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == r.ID && k.Key != "" {
			r.known[k.Key] = k.What
		}
	}
}

// Expired tells whether the internal deadline has passed; what names the loop that is cut short.
func (r *Run) Expired(what string) bool {
	if time.Now().Before(r.deadline) {
		return false
	}
	r.Cap("deadline reached in " + what)
	return true
}

func (r *Run) Cap(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.capped {
		if c == what {
			return
		}
	}
	r.capped = append(r.capped, what)
}

func (r *Run) Assume(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.assumptions = append(r.assumptions, s)
}

func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.extra[k] = v
}

func (r *Run) AddExtra(k string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	old, _ := r.extra[k].(int64)
	r.extra[k] = old + n
}

// Sample records a few actual cases.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// SampleEvery records case number n if it falls on a sparse grid (so samples are spread).
func (r *Run) SampleEvery(n int64, f func() any) {
	if n == 1 || n == 37 || n == 1009 || n == 20011 || n == 300007 {
		r.Sample(f())
	}
}

// Outcome counts distinct observed outcomes.
func (r *Run) Outcome(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.outcomes) < 5000 || r.outcomes[s] > 0 {
		r.outcomes[s]++
	}
}

func (r *Run) OutcomeN(s string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.outcomes) < 5000 || r.outcomes[s] > 0 {
		r.outcomes[s] += n
	}
}

// Seen deduplicates canonical case/state descriptions. It returns true the first time.
func (r *Run) First(s string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seen[s] {
		return false
	}
	r.seen[s] = true
	return true
}

// Violations returns the number of reported violations.
func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.violations
}

// Stop tells whether enough violations were reported.
func (r *Run) Stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.violations >= r.maxViol
}

// Violation reports a failing case. key identifies the specific input, site or history.
func (r *Run) Violation(key, what string, detail any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if w, ok := r.known[key]; ok {
		if !r.knownHit[key] {
			r.knownHit[key] = true
			fmt.Fprintf(Out, "KNOWN-FINDING: property=%s %s\n", r.ID, w)
		}
		return
	}
	if r.seen["viol|"+key] {
		return
	}
	r.seen["viol|"+key] = true
	r.violations++
	if r.violations > r.maxViol {
		return
	}
	dir := filepath.Join(r.Root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.ID, r.violations))
	buf, _ := json.MarshalIndent(map[string]any{"property": r.ID, "key": key, "what": what, "detail": detail,
		"rerun": fmt.Sprintf("VERIF_TIER=%s /verif/run.sh %s", r.Tier, r.ID)}, "", " ")
	os.WriteFile(path, buf, 0o644)
	fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", r.ID, path)
	fmt.Fprintf(Out, "  case: %s\n  what: %s\n", key, strings.ReplaceAll(what, "\n", "\n    "))
	if detail != nil {
		s := fmt.Sprintf("%v", detail)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		fmt.Fprintf(Out, "  detail: %s\n", strings.ReplaceAll(s, "\n", "\n    "))
	}
}

// InternalError reports a problem of the check itself (never of the code under test).
func (r *Run) InternalError(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.errs = append(r.errs, fmt.Sprintf(format, a...))
	fmt.Fprintf(Out, "CHECK-ERROR %s: %s\n", r.ID, fmt.Sprintf(format, a...))
}

// Safe runs fn and converts a panic into an error.
func Safe(fn func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = &PanicError{V: fmt.Sprint(p), Stack: st}
		}
	}()
	return fn()
}

type PanicError struct {
	V     string
	Stack string
}

func (p *PanicError) Error() string { return "panic: " + p.V + "\n" + p.Stack }

// Case executes one case: an error (or panic) is confirmed by re-execution and then reported.
func (r *Run) Case(key string, detail any, fn func() error) bool {
	n := r.Evaluations.Add(1)
	stop := r.watch(key, detail)
	defer stop()
	t0 := time.Now()
	err := Safe(fn)
	if err == nil {
		r.SampleEvery(n, func() any { return key })
		return true
	}
	repeats, need := 4, 5
	if time.Since(t0) < 20*time.Millisecond { // it may depend on the order of a map
		repeats, need = 100, 3
	}
	failed := 1
	for i := 0; i < repeats && failed < need; i++ {
		if e := Safe(fn); e != nil {
			failed++
		} else if need > repeats {
			break
		}
	}
	if failed < need {
		r.InternalError("case %s failed %d times but not always when repeated: %v", key, failed, err)
		return true
	}
	var ke *KeyedError
	if errors.As(err, &ke) {
		r.Violation(ke.Key, key+": "+err.Error(), detail)
	} else {
		r.Violation(key, err.Error(), detail)
	}
	return false
}

// HangLimit is how long one case may take; cases normally take milliseconds. 0: not watched.
var HangLimit = 100 * time.Second

// watch reports a case that does not end; since its goroutines cannot be stopped, the run ends there.
func (r *Run) watch(key string, detail any) func() {
	if HangLimit == 0 {
		return func() {}
	}
	t := time.AfterFunc(HangLimit, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		// Only goroutines with repository frames, to keep the report readable.
		var l []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "netsec-ethz/fpki/pkg") || strings.Contains(g, "netsec-ethz/fpki/cmd") {
				l = append(l, g)
			}
		}
		if len(l) > 20 {
			l = l[:20]
		}
		r.Violation(key, fmt.Sprintf("the case has not ended after %s\n%s", HangLimit, strings.Join(l, "\n\n")), detail)
		r.Finish()
	})
	return func() { t.Stop() }
}

// KeyedError is a failure with an identity of its own, the key under which a known finding is listed.
type KeyedError struct {
	Key string
	Err error
}

func (k *KeyedError) Error() string { return k.Err.Error() }
func (k *KeyedError) Unwrap() error { return k.Err }

// Parallel runs fn(i) for all i in [0,n) on all processors, stops early on violations or deadline.
func (r *Run) Parallel(what string, n int, fn func(i int)) {
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || r.Stop() || r.Expired(what) {
					return
				}
				fn(i)
			}
		}()
	}
	wg.Wait()
}

// merge adds the coverage of the earlier parts of the same check to cov.
func (r *Run) merge(cov map[string]any, part int) {
	buf, err := os.ReadFile(filepath.Join(r.Root, "evidence", r.ID+".json"))
	if err != nil {
		return
	}
	var old struct {
		Coverage    map[string]any `json:"coverage"`
		Assumptions []string       `json:"assumptions"`
		Violations  int            `json:"violations"`
	}
	if json.Unmarshal(buf, &old) != nil {
		return
	}
	this := map[string]any{}
	for k, v := range cov {
		this[k] = v
	}
	for k, v := range old.Coverage {
		switch k {
		case "states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial", "distinct_outcomes", "schedules":
			f, _ := v.(float64)
			switch n := cov[k].(type) {
			case int64:
				cov[k] = n + int64(f)
			case int:
				cov[k] = n + int(f)
			default:
				cov[k] = int64(f)
			}
		case "exhaustive":
			b, _ := v.(bool)
			n, _ := cov[k].(bool)
			cov[k] = b && n
		case "caps_hit":
			l, _ := v.([]any)
			if c, ok := cov[k].([]string); ok {
				for _, e := range c {
					l = append(l, e)
				}
			}
			cov[k] = l
		default:
			cov[k] = v
		}
	}
	cov[fmt.Sprintf("part%d", part)] = this
	for _, a := range old.Assumptions {
		dup := false
		for _, b := range r.assumptions {
			dup = dup || a == b
		}
		if !dup {
			r.assumptions = append(r.assumptions, a)
		}
	}
}

// Finish writes the evidence and exits.
func (r *Run) Finish() {
	cov := map[string]any{}
	r.mu.Lock()
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(r.outcomes) > 0 {
		cov["distinct_outcomes"] = len(r.outcomes)
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range r.outcomes {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
		m := map[string]int64{}
		for i, e := range l {
			if i >= 12 {
				break
			}
			k := e.k
			if len(k) > 160 {
				k = k[:160]
			}
			m[k] = e.v
		}
		cov["outcomes_top"] = m
	}
	switch r.Level {
	case "model_checking":
		cov["states"] = r.States.Load()
		cov["transitions"] = r.Transitions.Load()
		cov["traces_validated_against_impl"] = r.Validated.Load()
		if e := r.Evaluations.Load(); e > 0 {
			cov["evaluations"] = e
		}
	default:
		cov["evaluations"] = r.Evaluations.Load()
		cov["distinct_nontrivial"] = r.Distinct.Load()
		if s := r.States.Load(); s > 0 {
			cov["states"] = s
			cov["transitions"] = r.Transitions.Load()
		}
	}
	cov["rule"] = r.Rule
	if len(r.samples) == 0 {
		r.samples = []any{"(none)"}
	}
	cov["samples"] = r.samples
	cov["exhaustive"] = len(r.capped) == 0 && r.violations == 0 && len(r.errs) == 0
	if len(r.capped) > 0 {
		cov["caps_hit"] = r.capped
	}
	if len(r.errs) > 0 {
		cov["check_errors"] = r.errs
	}
	wall := time.Since(r.start).Seconds()
	if s := os.Getenv("VERIF_T0"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			wall = float64(time.Now().UnixNano())/1e9 - f
		}
	}
	if r.assumptions == nil {
		r.assumptions = []string{}
	}
	if part, _ := strconv.Atoi(os.Getenv("VERIF_PART")); part > 1 {
		r.merge(cov, part)
	}
	ev := map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": r.assumptions, "wall_s": wall, "violations": r.violations}
	viol := r.violations
	r.mu.Unlock()
	buf, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(Out, "evidence:", err)
		os.Exit(3)
	}
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.Root, "evidence", r.ID+".json"), buf, 0o644); err != nil {
		fmt.Fprintln(Out, "evidence:", err)
		os.Exit(3)
	}
	fmt.Fprintf(Out, "%s %s: evaluations=%d distinct=%d states=%d transitions=%d outcomes=%d violations=%d exhaustive=%v wall=%.1fs\n",
		r.ID, r.Tier, r.Evaluations.Load(), r.Distinct.Load(), r.States.Load(), r.Transitions.Load(), len(r.outcomes), viol, cov["exhaustive"], wall)
	if viol > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
