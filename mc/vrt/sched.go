// Package vrt is a virtual Go runtime: instrumented code calls it for every goroutine, channel, lock,
// atomic, timer and context operation. Exactly one goroutine runs at a time; at every such operation the
// scheduler decides who runs next, so that executions can be enumerated exhaustively and replayed.
package vrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

type tstate int

const (
	tsRunnable tstate = iota
	tsBlocked
	tsDone
)

type thread struct {
	id       int
	site     string
	wake     chan struct{}
	rv       byte // race detector: everything this goroutine did before its last scheduling point
	lastLoad *obj // consecutive loads of one atomic without anything else in between: a spin loop
	loads    int
	acq      []*obj // race detector: synchronisation that others performed on its behalf
	state    tstate
	ready    func() bool // when blocked on a predicate
	what     string      // description of the blocking operation
	spin     bool        // yielded explicitly: not scheduled until another thread moved
	ran      int         // when it was scheduled last
	waitFor  []int       // after a yield: threads that, by default, are scheduled first
	daemon   bool
	killed   bool
	h, th    uint64
	mixed    uint64
	children uint64
}

// Status of a finished execution.
type Status int

const (
	StOK Status = iota
	StDeadlock
	StLeak
	StPanic
	StLivelock
	StPruned
	StHang
)

func (s Status) String() string {
	return [...]string{"ok", "deadlock", "leak", "panic", "livelock", "pruned", "hang"}[s]
}

// Result of one execution.
type Result struct {
	Status    Status
	Err       error    // the error returned by the scenario body
	Blocked   []string // goroutines still blocked
	Panic     string
	Steps     int
	Log       []string
	MainEnded bool
}

// choice is one decision of an execution.
type choice struct {
	n    int
	pick int
	cost int // cost of a non-default pick
	kind byte
	info string
}

type timer struct {
	at     int64
	seq    int
	fire   func()
	period int64
	dead   bool
	daemon bool
}

type sched struct {
	moves     int
	threads   []*thread
	cur       *thread
	epoch     uint64
	chans     map[unsafe.Pointer]*vchan
	sigs      []*sigReg
	sigObj    obj
	objs      map[unsafe.Pointer]*obj
	timers    []*timer
	tseq      int
	now       int64
	clock     obj
	logObj    obj
	memObj    obj
	threadEnd obj
	sum       uint64

	policy  int
	maxStep int
	steps   int
	done    chan struct{}
	ended   bool
	dead    bool
	deadOps int
	exited  chan struct{}
	status  Status
	panicS  string
	mainEnd bool
	err     error
	log     []string

	// exploration
	prefix     []int
	trace      []choice
	used       int // deviations used so far
	budget     int
	visited    map[uint64]int8
	cache      bool
	pruneAt    int
	divergence string
	verbose    bool
	eager      bool
	solo       int
	named      map[string]*obj
	schedLog   []string
}

var s *sched
var epochCounter uint64

type obj struct {
	epoch uint64
	h     uint64
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C15F39CC060 + a<<6 + a>>2)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

// touch records in the happens-before hashes that the current thread operated on o.
func (s *sched) touch(o *obj, op uint64) { s.touchT(s.cur, o, op) }

func (s *sched) touchT(t *thread, o *obj, op uint64) {
	if raceEnabled && !s.dead && o != &s.memObj && o != &s.threadEnd {
		if t != s.cur {
			raceAcquire(unsafe.Pointer(&t.rv))
			t.acq = append(t.acq, o)
		}
		raceAcquire(unsafe.Pointer(o))
		raceReleaseMerge(unsafe.Pointer(o))
	}
	if o.epoch != s.epoch {
		o.epoch, o.h = s.epoch, 1
	}
	n := mix(mix(t.h, o.h), op)
	o.h = n
	t.h = n
	m := mix(uint64(t.id)+77, mix(t.th, n))
	s.sum += m - t.mixed
	t.mixed = m
}

func (s *sched) addThread(site string) *thread {
	t := &thread{id: len(s.threads), site: site, wake: make(chan struct{}, 1)}
	if s.cur != nil {
		s.cur.children++
		t.th = mix(s.cur.th, s.cur.children)
		t.h = mix(s.cur.h, 99)
	}
	t.mixed = mix(uint64(t.id)+77, mix(t.th, t.h))
	s.sum += t.mixed
	s.threads = append(s.threads, t)
	return t
}

// runThread is the body of every virtual goroutine.
func (s *sched) runThread(t *thread, fn func()) {
	raceOff()
	<-t.wake
	raceOn()
	normal := false
	defer func() {
		p := recover()
		if s.dead {
			t.state = tsDone
			raceOff()
			s.exited <- struct{}{}
			return
		}
		if !normal && p != nil {
			s.panicS = fmt.Sprintf("%v\n%s", p, trimStack(string(debug.Stack())))
			s.status = StPanic
			t.state = tsDone
			s.end()
			return
		}
		// normal end or Goexit by the code under test
		t.state = tsDone
		if t.id == 0 {
			s.mainEnd = true
		}
		s.touch(&s.threadEnd, 5)
		if n := s.pick(); n != nil {
			s.cur = n
			n.state = tsRunnable
			raceOff()
			n.wake <- struct{}{}
		}
	}()
	if t.killed {
		return
	}
	fn()
	normal = true
}

func trimStack(st string) string {
	// the first frames are debug.Stack, the deferred function and panic itself
	l := strings.Split(st, "\n")
	for i, x := range l {
		if strings.HasPrefix(x, "panic(") && i+2 < len(l) {
			l = l[i+2:]
			break
		}
	}
	if len(l) > 16 {
		l = l[:16]
	}
	return strings.Join(l, "\n")
}

// end finishes the execution: the controller is told, and it kills the remaining goroutines.
func (s *sched) end() {
	if !s.ended {
		s.ended = true
		raceOff()
		close(s.done)
		raceOn()
	}
}

// pick decides who runs next. It returns nil when the execution is over.
func (s *sched) pick() *thread {
	for {
		if s.ended {
			return nil
		}
		var en []*thread
		anySpin := false
		for _, t := range s.threads {
			switch t.state {
			case tsRunnable:
				if t.spin {
					anySpin = true
					continue
				}
				en = append(en, t)
			case tsBlocked:
				if t.ready != nil && t.ready() {
					en = append(en, t)
				}
			}
		}
		if len(en) == 0 {
			if s.fireTimer() {
				continue
			}
			if anySpin {
				// only spinning threads are left: they may look again a few times
				s.solo++
				if s.solo > 300 {
					s.status = StLivelock
					s.end()
					return nil
				}
				for _, t := range s.threads {
					t.spin = false
				}
				continue
			}
			if s.mainEnd {
				s.status = StOK
				for _, t := range s.threads {
					if t.state != tsDone && !t.daemon {
						s.status = StLeak
					}
				}
			} else {
				s.status = StDeadlock
			}
			s.end()
			return nil
		}
		if !anySpin {
			s.solo = 0
		}
		en = s.order(en)
		i := 0
		n := len(en)
		if s.eager && s.hasTimer() {
			n++
		}
		if n > 1 {
			i = s.choose(n, 1, 't', en)
			if i < 0 {
				return nil
			}
			if i == len(en) {
				s.fireTimer()
				continue
			}
		}
		return en[i]
	}
}

// order sorts the enabled threads so that the policy's default is first.
func (s *sched) order(en []*thread) []*thread {
	cur := -1
	if s.cur != nil {
		cur = s.cur.id
	}
	low := map[int]bool(nil)
	for _, t := range en {
		for _, w := range t.waitFor {
			for _, x := range en {
				if x.id == w {
					if low == nil {
						low = map[int]bool{}
					}
					low[t.id] = true
				}
			}
		}
	}
	key := func(t *thread) int {
		n := len(s.threads)
		if low[t.id] {
			return 100000 + t.ran // the one that looked longest ago first
		}
		switch s.policy {
		case 0: // go on with the current one, else the oldest
			if t.id == cur {
				return -1
			}
			return t.id
		case 1: // go on with the current one, else the newest
			if t.id == cur {
				return -1
			}
			return n - t.id
		case 2: // round robin at every operation
			return (t.id - cur - 1 + 2*n) % n
		default: // go on with the current one, else the next in turn
			if t.id == cur {
				return -1
			}
			return (t.id - cur - 1 + 2*n) % n
		}
	}
	// insertion sort: the lists are tiny
	for i := 1; i < len(en); i++ {
		for j := i; j > 0 && key(en[j]) < key(en[j-1]); j-- {
			en[j], en[j-1] = en[j-1], en[j]
		}
	}
	return en
}

// choose takes the next decision among n alternatives, alternative 0 being the default.
func (s *sched) choose(n int, cost int, kind byte, en []*thread) int {
	k := len(s.trace)
	pick := 0
	if k < len(s.prefix) {
		pick = s.prefix[k]
		if pick >= n {
			s.divergence = fmt.Sprintf("choice %d has %d alternatives, schedule wants %d", k, n, pick)
			pick = 0
		}
	} else if s.cache {
		cur := uint64(0)
		if s.cur != nil {
			cur = uint64(s.cur.id) + 1
		}
		key := mix(s.sum, mix(cur<<8|uint64(kind), uint64(n)))
		for _, t := range s.threads {
			if t.spin {
				key = mix(key, uint64(t.id)+7000)
			}
			for _, w := range t.waitFor {
				key = mix(key, uint64(t.id)<<20+uint64(w))
			}
		}
		rem := int8(s.budget - s.used)
		if v, ok := s.visited[key]; ok && v >= rem {
			s.status = StPruned
			s.pruneAt = k
			s.end()
			return -1
		}
		if len(s.visited) < 8_000_000 {
			s.visited[key] = rem
		}
	}
	c := choice{n: n, pick: pick, cost: cost, kind: kind}
	s.trace = append(s.trace, c)
	if pick > 0 {
		s.used += cost
	}
	if s.verbose && en != nil {
		if pick < len(en) {
			s.schedLog = append(s.schedLog, fmt.Sprintf("choice %d: g%d of %s", k, en[pick].id, descr(en)))
		} else {
			s.schedLog = append(s.schedLog, fmt.Sprintf("choice %d: timer", k))
		}
	}
	return pick
}

func descr(en []*thread) string {
	var l []string
	for _, t := range en {
		l = append(l, fmt.Sprintf("g%d(%s)", t.id, t.what))
	}
	return strings.Join(l, " ")
}

func (s *sched) step() {
	s.steps++
	if s.steps > s.maxStep {
		if !s.ended {
			s.status = StLivelock
			s.end()
		}
	}
}

// checkDead makes goroutines of a finished execution disappear.
func (s *sched) die() {
	runtime.Goexit()
}

// resched lets the scheduler decide who runs; the current thread continues when chosen.
func (s *sched) resched() {
	t := s.cur
	if raceEnabled {
		raceReleaseMerge(unsafe.Pointer(&t.rv))
	}
	s.step()
	n := s.pick()
	if n == t {
		t.state = tsRunnable
		t.ready = nil
		t.spin = false
		s.unspin(t)
		return
	}
	if n != nil {
		s.cur = n
		n.state = tsRunnable
		n.ready = nil
		n.spin = false
		s.unspin(n)
		raceOff()
		n.wake <- struct{}{}
		raceOn()
	}
	raceOff()
	<-t.wake
	raceOn()
	if raceEnabled {
		for _, o := range t.acq {
			raceAcquire(unsafe.Pointer(o))
		}
		t.acq = t.acq[:0]
	}
	if s.dead {
		s.die()
	}
}

// unspin: thread t moves, so threads waiting in a spin loop may look again.
func (s *sched) unspin(t *thread) {
	t.waitFor = nil
	s.moves++
	t.ran = s.moves
	for _, x := range s.threads {
		if x == t {
			continue
		}
		x.spin = false
		for i, w := range x.waitFor {
			if w == t.id {
				x.waitFor = append(x.waitFor[:i:i], x.waitFor[i+1:]...)
				break
			}
		}
	}
}

// yield is a scheduling point before an operation.
func (s *sched) yield(what string) {
	if s.dead {
		s.die()
	}
	if s.ended {
		raceOff()
		<-s.cur.wake
		raceOn()
		s.die()
	}
	s.cur.what = what
	s.cur.state = tsRunnable
	if s.verbose {
		s.schedLog = append(s.schedLog, fmt.Sprintf("  g%d at %s %s", s.cur.id, what, callerSite()))
	}
	s.resched()
}

// blockOn blocks the current thread until ready() holds and the scheduler picks it.
func (s *sched) blockOn(what string, ready func() bool) {
	t := s.cur
	t.what = what
	if s.verbose || true {
		t.site = callerSite()
	}
	t.state = tsBlocked
	t.ready = ready
	s.resched()
}

func callerSite() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.Contains(f.Function, "/verifmc/vrt.") && !strings.HasPrefix(f.Function, "runtime.") {
			fn := f.File
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			return fmt.Sprintf("%s:%d", fn, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// ---- timers

func (s *sched) addTimer(d int64, period int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{at: s.now + d, seq: s.tseq, fire: fire, period: period}
	s.timers = append(s.timers, t)
	s.touch(&s.clock, 31)
	return t
}

func (s *sched) hasTimer() bool {
	for _, t := range s.timers {
		if !t.dead && !(s.mainEnd && (t.period > 0 || t.daemon)) {
			return true
		}
	}
	return false
}

// fireTimer advances the virtual clock to the next timer. Time only passes when nothing else can happen.
func (s *sched) fireTimer() bool {
	best := -1
	for i, t := range s.timers {
		if t.dead || (s.mainEnd && (t.period > 0 || t.daemon)) {
			continue
		}
		if best < 0 || t.at < s.timers[best].at || t.at == s.timers[best].at && t.seq < s.timers[best].seq {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	s.step()
	if s.ended {
		return true
	}
	t := s.timers[best]
	if t.at > s.now {
		s.now = t.at
	}
	if t.period > 0 {
		t.at += t.period
	} else {
		t.dead = true
		s.timers = append(s.timers[:best:best], s.timers[best+1:]...)
	}
	s.clock.h = mix(s.clock.h, uint64(t.seq)+1000)
	t.fire()
	return true
}

// ---- execution

// Config of one execution.
type execCfg struct {
	policy  int
	prefix  []int
	budget  int
	visited map[uint64]int8
	maxStep int
	verbose bool
	eager   bool
	limit   time.Duration
}

type execOut struct {
	Result
	trace      []choice
	pruneAt    int
	divergence string
	schedLog   []string
	sum        uint64
}

func execute(cfg execCfg, body func() error) *execOut {
	epochCounter++
	sc := &sched{epoch: epochCounter, chans: map[unsafe.Pointer]*vchan{}, objs: map[unsafe.Pointer]*obj{},
		policy: cfg.policy, maxStep: cfg.maxStep, done: make(chan struct{}), exited: make(chan struct{}),
		prefix: cfg.prefix, budget: cfg.budget, visited: cfg.visited, cache: cfg.visited != nil, verbose: cfg.verbose, eager: cfg.eager, pruneAt: -1}
	if sc.maxStep == 0 {
		sc.maxStep = 20000
	}
	sc.now = 0
	s = sc
	t := sc.addThread("main")
	sc.cur = t
	go sc.runThread(t, func() {
		sc.err = body()
	})
	raceOff()
	t.wake <- struct{}{}
	raceOn()
	out := &execOut{}
	limit := cfg.limit
	if limit == 0 {
		limit = 60 * time.Second
	}
	tm := time.NewTimer(limit)
	select {
	case <-sc.done:
		tm.Stop()
	case <-tm.C:
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "vrt: execution does not reach a scheduling point\n%s\n", buf[:n])
		out.Status = StHang
		out.trace = sc.trace
		return out
	}
	out.Status = sc.status
	out.Err = sc.err
	out.Panic = sc.panicS
	out.Steps = sc.steps
	out.MainEnded = sc.mainEnd
	out.Log = sc.log
	for _, t := range sc.threads {
		if t.state != tsDone && !t.daemon {
			out.Blocked = append(out.Blocked, fmt.Sprintf("g%d %s at %s", t.id, t.what, t.site))
		}
	}
	out.trace, out.pruneAt, out.divergence, out.schedLog, out.sum = sc.trace, sc.pruneAt, sc.divergence, sc.schedLog, sc.sum
	// make the remaining goroutines disappear, one by one
	sc.dead = true
	for _, t := range sc.threads {
		if t.state != tsDone {
			t.killed = true
			sc.cur = t
			sc.deadOps = 0
			t.wake <- struct{}{}
			<-sc.exited
		}
	}
	s = nil
	return out
}

// deadOp is called by operations that must not block while goroutines are being removed.
func (s *sched) deadOp() bool {
	if !s.dead {
		return false
	}
	s.deadOps++
	if s.deadOps > 10000 {
		s.die()
	}
	return true
}

// ---- API for harnesses

// Choose enumerates a harness decision among n alternatives; all are explored at no deviation cost.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := s.choose(n, 0, 'c', nil)
	if i < 0 {
		s.dieNow()
	}
	s.touch(&s.logObj, uint64(i)+500)
	return i
}

// ChooseDev enumerates a harness decision whose non-default alternatives cost one deviation.
func ChooseDev(n int) int {
	if n <= 1 {
		return 0
	}
	i := s.choose(n, 1, 'd', nil)
	if i < 0 {
		s.dieNow()
	}
	s.touch(&s.logObj, uint64(i)+500)
	return i
}

// dieNow is used by the running thread after the execution was ended under it.
func (s *sched) dieNow() {
	t := s.cur
	t.state = tsRunnable
	<-t.wake
	s.die()
}

// Log appends to the execution's log.
func Log(format string, a ...any) {
	if s == nil || s.dead {
		return
	}
	s.touch(&s.logObj, 7)
	s.log = append(s.log, fmt.Sprintf(format, a...))
}

// LogLines returns the log so far.
func LogLines() []string { return s.log }

// Y is a scheduling point before a statement of code that shares memory without synchronisation.
func Y() {
	if s == nil {
		return
	}
	s.yield("statement")
	s.touch(&s.memObj, 3)
}

// Step is a scheduling point for harness code, ordered on a global object.
func Step(what string) {
	if s == nil {
		return
	}
	s.yield(what)
	s.touch(&s.memObj, 4)
}

// Active tells whether an execution is running.
func Active() bool { return s != nil && !s.dead }

// Daemon marks the current goroutine as one that may stay blocked at the end.
func Daemon() { s.cur.daemon = true }

// Quiesce lets all other goroutines run until nothing else can happen (time does not pass).
func Quiesce() {
	t := s.cur
	if s.deadOp() {
		return
	}
	s.blockOn("quiesce", func() bool {
		for _, x := range s.threads {
			if x == t || x.state == tsDone {
				continue
			}
			if x.state == tsRunnable && !x.spin {
				return false
			}
			if x.state == tsBlocked && x.ready != nil && !x.isQ() && x.ready() {
				return false
			}
		}
		return true
	})
	for _, x := range s.threads {
		s.touch(&obj{epoch: s.epoch, h: x.h}, 9)
	}
}

func (t *thread) isQ() bool { return t.what == "quiesce" }

// BlockedNow describes the goroutines blocked at the moment (other than the caller).
func BlockedNow() []string {
	var l []string
	for _, t := range s.threads {
		if t != s.cur && t.state == tsBlocked && !t.daemon {
			l = append(l, fmt.Sprintf("%s at %s", t.what, t.site))
		}
	}
	sort.Strings(l)
	return l
}

// Alive counts the goroutines other than the caller that did not end.
func Alive() int {
	n := 0
	for _, t := range s.threads {
		if t != s.cur && t.state != tsDone {
			n++
		}
	}
	return n
}

// Touch orders the caller on a named object without being a scheduling point.
func Touch(name string) {
	if s == nil || s.dead {
		return
	}
	o := s.named[name]
	if o == nil {
		o = &obj{}
		if s.named == nil {
			s.named = map[string]*obj{}
		}
		s.named[name] = o
	}
	s.touch(o, 8)
}
