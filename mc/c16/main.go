// Command c16: auto-resumed and stalled pipelines lose and duplicate nothing.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/verifmc/pipex"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

// world records one execution.
type world struct {
	n, every int
	out      string
	src      string
	fail     string // "stage:item" that fails

	got      map[string][]int // items per stage
	busy     map[string]bool
	ended    map[string]bool // the incoming data of the stage ended
	actions  int
	wanted   int
	asked    int             // shouldResume calls
	stalled  map[string]bool // stages that are paused while the action runs
	acting   bool
	resumed  int
	problems []string
	next     int
	raised   []string
}

func (w *world) problem(f string, a ...any) { w.problems = append(w.problems, fmt.Sprintf(f, a...)) }

func (w *world) at(stage string, i int) error {
	vrt.Touch("w")
	if w.busy[stage] {
		w.problem("stage %s entered twice", stage)
	}
	if w.acting && w.stalled[stage] {
		w.problem("the paused stage %s starts to process item %d while the action runs", stage, i)
	}
	w.busy[stage] = true
	w.got[stage] = append(w.got[stage], i)
	vrt.Step("processing")
	vrt.Touch("w")
	if w.acting && w.stalled[stage] {
		w.problem("the paused stage %s is processing item %d while the action runs", stage, i)
	}
	w.busy[stage] = false
	if k := fmt.Sprintf("%s:%d", stage, i); k == w.fail {
		w.raised = append(w.raised, k)
		return pipex.InjErr(k)
	}
	return nil
}

func newWorld(w world) *world {
	w.got, w.busy, w.ended = map[string][]int{}, map[string]bool{}, map[string]bool{}
	return &w
}

func (w *world) reset() {
	w.got, w.busy, w.ended = map[string][]int{}, map[string]bool{}, map[string]bool{}
	w.next, w.actions, w.wanted, w.asked, w.resumed = 0, 0, 0, 0, 0
}

func outs[IN, OUT any](s *pip.Stage[IN, OUT], m string) {
	switch m {
	case "seq":
		pip.WithSequentialOutputs[IN, OUT]().ApplyToStage(s)
	case "cyc":
		pip.WithCyclesAllowedSequentialOutputs[IN, OUT]().ApplyToStage(s)
	}
}

// source emits 1..n round robin; if every > 0 it pauses after that many items.
func (w *world) source(name string, nout, every int) *pip.Source[int] {
	s := pip.NewSource(name, pip.WithMultiOutputChannels[pip.None, int](nout), pip.WithSourceFunction(func() ([]int, []int, error) {
		if w.next >= w.n {
			w.ended[name] = true
			return nil, nil, pip.NoMoreData
		}
		w.next++
		i := w.next
		if err := w.at(name, i); err != nil {
			return nil, nil, err
		}
		var err error
		if every > 0 && i%every == 0 {
			err = pip.NoMoreData
		}
		return []int{i}, []int{(i - 1) % nout}, err
	}))
	outs(s.Stage, w.out)
	return s
}

func (w *world) stage(name string, every int) *pip.Stage[int, int] {
	count := 0
	s := pip.NewStage(name, pip.WithProcessFunction(func(i int) ([]int, []int, error) {
		if err := w.at(name, i); err != nil {
			return nil, nil, err
		}
		var err error
		count++
		if every > 0 && count%every == 0 {
			err = pip.NoMoreData
		}
		return []int{i}, []int{0}, err
	}), pip.WithOnNoMoreData[int, int](func() ([]int, []int, error) {
		vrt.Touch("w")
		w.ended[name] = true
		return nil, nil, nil
	}))
	outs(s, w.out)
	return s
}

func (w *world) sink(name string, nin, every int) *pip.Sink[int] {
	count := 0
	return pip.NewSink(name, pip.WithMultiInputChannels[int, pip.None](nin), pip.WithSinkFunction(func(i int) error {
		if err := w.at(name, i); err != nil {
			return err
		}
		count++
		if every > 0 && count%every == 0 {
			return pip.NoMoreData
		}
		return nil
	}), pip.WithOnNoMoreData[int, pip.None](func() ([]pip.None, []int, error) {
		vrt.Touch("w")
		w.ended[name] = true
		return nil, nil, nil
	}))
}

// again is the resume predicate of the target; everything that left the target must have been processed by then.
func (w *world) again(target string, downstream ...string) func() bool {
	return func() bool {
		vrt.Touch("w")
		w.asked++
		for _, d := range downstream {
			if w.busy[d] {
				w.problem("asked to resume while %s processes an item", d)
			}
		}
		if len(w.raised) == 0 && len(downstream) > 0 {
			in := append([]int{}, w.got[target]...)
			done := append([]int{}, w.got[downstream[len(downstream)-1]]...)
			sort.Ints(in)
			sort.Ints(done)
			if fmt.Sprint(in) != fmt.Sprint(done) {
				w.problem("asked to resume after %v passed %s, but only %v reached the end", in, target, done)
			}
		}
		return !w.ended[target] && len(w.raised) == 0
	}
}

func linkChain(p *pip.Pipeline) {
	b := pip.StageAtIndex[int, int](p, 1)
	pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
	pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
}

func linkDiamond(p *pip.Pipeline) {
	a, b, c, d := pip.SourceStage[int](p), pip.StageAtIndex[int, int](p, 1), pip.StageAtIndex[int, int](p, 2), pip.SinkStage[int](p)
	pip.LinkStagesAt(a, 0, b, 0)
	pip.LinkStagesAt(a, 1, c, 0)
	pip.LinkStagesAt(b, 0, d, 0)
	pip.LinkStagesAt(c, 0, d, 1)
}

func must(p *pip.Pipeline, err error) *pip.Pipeline {
	if err != nil {
		panic(err)
	}
	return p
}

var resumers = map[string]func(w *world) *pip.Pipeline{
	// the middle stage of a chain pauses and resumes with the sink
	"resume-stage": func(w *world) *pip.Pipeline {
		return must(pip.NewPipeline(linkChain, pip.WithStages(w.source("a", 1, 0), w.stage("b", w.every), w.sink("d", 1, 0)),
			pip.WithAutoResumeAtStage(1, w.again("b", "d"), func(p *pip.Pipeline) {
				w.resumed++
				pip.LinkStagesFanOut(pip.StageAtIndex[int, int](p, 1), pip.SinkStage[int](p))
			}, 2)))
	},
	// the source of a diamond pauses and resumes with everything
	"resume-source": func(w *world) *pip.Pipeline {
		return must(pip.NewPipeline(linkDiamond, pip.WithStages(w.source("a", 2, w.every), w.stage("b", 0), w.stage("c", 0), w.sink("d", 2, 0)),
			pip.WithAutoResumeAtStage(0, w.again("a", "b", "c", "d"), func(p *pip.Pipeline) {
				w.resumed++
				linkDiamond(p)
			}, 1, 2, 3)))
	},
	// the sink of a diamond pauses and resumes alone
	"resume-sink": func(w *world) *pip.Pipeline {
		return must(pip.NewPipeline(linkDiamond, pip.WithStages(w.source("a", 2, 0), w.stage("b", 0), w.stage("c", 0), w.sink("d", 2, w.every)),
			pip.WithAutoResumeAtStage(3, w.again("d"), func(p *pip.Pipeline) { w.resumed++ })))
	},
	"resume-sink-chain": func(w *world) *pip.Pipeline {
		return must(pip.NewPipeline(linkChain, pip.WithStages(w.source("a", 1, 0), w.stage("b", 0), w.sink("d", 1, w.every)),
			pip.WithAutoResumeAtStage(2, w.again("d"), func(p *pip.Pipeline) { w.resumed++ })))
	},
}

// stalls builds pipelines with stalled stages; stages and evaluators are indices.
func stalls(w *world, diamond bool, stages, eval []int, max int) *pip.Pipeline {
	var p *pip.Pipeline
	if diamond {
		p = must(pip.NewPipeline(linkDiamond, pip.WithStages(w.source("a", 2, 0), w.stage("b", 0), w.stage("c", 0), w.sink("d", 2, 0))))
	} else {
		p = must(pip.NewPipeline(linkChain, pip.WithStages(w.source("a", 1, 0), w.stage("b", 0), w.sink("d", 1, 0))))
	}
	names := []string{}
	w.stalled = map[string]bool{}
	for _, i := range stages {
		names = append(names, p.Stages[i].Base().Name)
		w.stalled[p.Stages[i].Base().Name] = true
	}
	inEval := false
	pip.WithStallStages(p.StagesAt(stages...), func() {
		vrt.Touch("w")
		if inEval {
			w.problem("the action runs during an evaluation")
		}
		inEval, w.acting = true, true
		w.actions++
		for k := 0; k < 2; k++ {
			for _, n := range names {
				if w.busy[n] {
					w.problem("the action runs while stage %s processes an item", n)
				}
			}
			vrt.Step("action")
			vrt.Touch("w")
		}
		inEval, w.acting = false, false
	}, func(s pip.StageLike) bool {
		vrt.Touch("w")
		if inEval {
			w.problem("two evaluations or an action at the same time")
		}
		inEval = true
		stall := w.wanted < max && vrt.Choose(2) == 1
		vrt.Step("evaluate")
		vrt.Touch("w")
		inEval = false
		if stall {
			w.wanted++
		}
		return stall
	}, p.StagesAt(eval...))(p)
	return p
}

func (w *world) check(err error, stages ...string) error {
	vrt.Quiesce()
	if len(w.problems) > 0 {
		return errors.New(w.problems[0])
	}
	for s, l := range w.got {
		n := map[int]int{}
		for _, i := range l {
			n[i]++
			if n[i] > 1 {
				return fmt.Errorf("stage %s processed item %d twice: %v", s, i, l)
			}
		}
	}
	if w.fail != "" && len(w.raised) > 0 {
		if err == nil {
			return fmt.Errorf("stage reported %v, but waiting returned success", w.raised)
		}
		return pipex.Drained()
	}
	if err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	want := fmt.Sprint(seqTo(w.n))
	for _, s := range stages {
		l := append([]int{}, w.got[s]...)
		sort.Ints(l)
		if fmt.Sprint(l) != want {
			return fmt.Errorf("stage %s processed %v, expected %v", s, w.got[s], want)
		}
	}
	if w.actions != w.wanted {
		return fmt.Errorf("%d actions requested, %d ran", w.wanted, w.actions)
	}
	if len(stages) == 3 && fmt.Sprint(w.got["d"]) != want {
		return fmt.Errorf("order at the sink: %v", w.got["d"])
	}
	return pipex.Drained()
}

func seqTo(n int) []int {
	l := []int{}
	for i := 1; i <= n; i++ {
		l = append(l, i)
	}
	return l
}

func main() {
	var scens []*vrt.Scenario
	add := func(name string, q, d int, runs int, cfg world, build func(w *world) *pip.Pipeline, stages ...string) {
		scens = append(scens, &vrt.Scenario{
			Name:  fmt.Sprintf("%s n=%d every=%d out=%s runs=%d fail=%s", name, cfg.n, cfg.every, cfg.out, runs, cfg.fail),
			Quick: q, Deep: d, Shards: 1,
			Body: func() error {
				w := newWorld(cfg)
				p := build(w)
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				for r := 0; r < runs; r++ {
					if r > 0 {
						w.reset()
					}
					p.Resume(ctx)
					err := p.Wait(ctx)
					if err := w.check(err, stages...); err != nil {
						return fmt.Errorf("run %d: %w", r, err)
					}
					if w.every > 0 && w.fail == "" {
						if want := w.n / w.every; w.resumed != want {
							return fmt.Errorf("run %d: resumed %d times, expected %d", r, w.resumed, want)
						}
					}
				}
				return nil
			},
			Outcome: func(r *vrt.Result) string { return r.Status.String() },
		})
	}
	names := []string{"resume-stage", "resume-source", "resume-sink", "resume-sink-chain"}
	for _, n := range names {
		st := []string{"a", "d"}
		if n == "resume-stage" || n == "resume-sink-chain" {
			st = []string{"a", "b", "d"}
		}
		for _, out := range []string{"conc", "seq", "cyc"} {
			for _, c := range [][2]int{{2, 1}, {3, 2}, {4, 2}, {3, 1}} {
				add(n, 1, 2, 1, world{n: c[0], every: c[1], out: out}, resumers[n], st...)
			}
		}
		add(n, 0, 1, 2, world{n: 2, every: 1, out: "seq"}, resumers[n], st...)
		for _, f := range []string{"a:2", "d:1", "d:2"} {
			add(n, 1, 2, 1, world{n: 3, every: 2, out: "conc", fail: f}, resumers[n], st...)
		}
	}
	for _, diamond := range []bool{false, true} {
		sets := [][2][]int{{{1, 2}, {1}}, {{0, 1, 2}, {2}}, {{1}, {1, 2}}, {{0}, {1}}, {{1}, {0}}, {{1, 2}, {0}}}
		st := []string{"a", "b", "d"}
		name := "stall-chain"
		if diamond {
			sets = [][2][]int{{{1, 2, 3}, {1, 2}}, {{0, 1, 2, 3}, {3}}, {{1, 2}, {0}}, {{3}, {0}}}
			st = []string{"a", "d"}
			name = "stall-diamond"
		}
		for _, s := range sets {
			for _, out := range []string{"conc", "seq"} {
				for _, max := range []int{1, 2} {
					q := 1
					add(fmt.Sprintf("%s%v@%v max=%d", name, s[0], s[1], max), q, 2, 1, world{n: 2, out: out},
						func(w *world) *pip.Pipeline { return stalls(w, diamond, s[0], s[1], max) }, st...)
				}
			}
		}
	}
	vrt.Main("C16", "every schedule of auto-resumed and stalled pipelines, every choice of pause points, with a bounded number of deviations from four base policies", scens, nil)
}
