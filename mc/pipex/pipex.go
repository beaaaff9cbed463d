// Package pipex builds small pipelines of every topology with recording stage functions.
package pipex

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

// Env is one configuration of a pipeline and the record of its run.
type Env struct {
	N    int             // items per run
	Out  string          // conc, seq, cyc
	In   string          // conc, seq
	Src  string          // slice, chan, func
	Errs map[string]bool // "stage:item" at which the stage function fails; "stage:end" for the end-of-data action

	Proc   map[string][]int // items processed per stage
	Ends   map[string]int   // end-of-data actions per stage
	Late   []string         // items processed after the end-of-data action
	Raised []string         // errors reported by stage functions
	chans  map[string]*chan int
	funcAt map[string]int
}

type InjErr string

func (e InjErr) Error() string { return "injected<" + string(e) + ">" }

// NewEnv returns a copy of the configuration with an empty record.
func (e Env) New() *Env {
	n := e
	n.Reset()
	n.chans = map[string]*chan int{}
	n.funcAt = map[string]int{}
	if n.Out == "" {
		n.Out = "conc"
	}
	if n.In == "" {
		n.In = "conc"
	}
	if n.Src == "" {
		n.Src = "slice"
	}
	return &n
}

func (e *Env) Reset() {
	e.Proc = map[string][]int{}
	e.Ends = map[string]int{}
	e.Late, e.Raised = nil, nil
	for k := range e.funcAt {
		e.funcAt[k] = 0
	}
}

// At records that a stage processes an item and returns the injected error, if any.
func (e *Env) At(stage string, item int) error {
	vrt.Touch(stage)
	if e.Ends[stage] > 0 {
		e.Late = append(e.Late, fmt.Sprintf("%s:%d", stage, item))
	}
	e.Proc[stage] = append(e.Proc[stage], item)
	k := fmt.Sprintf("%s:%d", stage, item)
	if e.Errs[k] {
		e.Raised = append(e.Raised, k)
		return InjErr(k)
	}
	return nil
}

func (e *Env) End(stage string) error {
	vrt.Touch(stage)
	e.Ends[stage]++
	k := stage + ":end"
	if e.Errs[k] {
		e.Raised = append(e.Raised, k)
		return InjErr(k)
	}
	return nil
}

func outOpt[IN, OUT any](s *pip.Stage[IN, OUT], mode string) {
	switch mode {
	case "seq":
		pip.WithSequentialOutputs[IN, OUT]().ApplyToStage(s)
	case "cyc":
		pip.WithCyclesAllowedSequentialOutputs[IN, OUT]().ApplyToStage(s)
	default:
		pip.WithConcurrentOutputs[IN, OUT]().ApplyToStage(s)
	}
}

func inOpt[IN, OUT any](s *pip.Stage[IN, OUT], mode string) {
	if mode == "seq" {
		pip.WithSequentialInputs[IN, OUT]().ApplyToStage(s)
	} else {
		pip.WithConcurrentInputs[IN, OUT]().ApplyToStage(s)
	}
}

// Source creates a source of the items 1..N; route gives the output channel of an item.
func (e *Env) Source(name string, nout int, route func(i int) int) *pip.Source[int] {
	var s *pip.Source[int]
	switch e.Src {
	case "chan":
		ch := make(chan int)
		e.chans[name] = &ch
		s = pip.NewSource(name, pip.WithSourceChannel(&ch, func(in int) ([]int, error) {
			return []int{route(in)}, e.At(name, in)
		}), pip.WithMultiOutputChannels[pip.None, int](nout))
	case "func":
		s = pip.NewSource(name, pip.WithSourceFunction(func() ([]int, []int, error) {
			e.funcAt[name]++
			i := e.funcAt[name]
			if i > e.N {
				return nil, nil, pip.NoMoreData
			}
			if err := e.At(name, i); err != nil {
				return nil, nil, err
			}
			return []int{i}, []int{route(i)}, nil
		}), pip.WithMultiOutputChannels[pip.None, int](nout))
	default:
		items := []int{}
		for i := 1; i <= e.N; i++ {
			items = append(items, i)
		}
		s = pip.NewSource(name, pip.WithSourceSlice(&items, func(in int) (int, error) {
			return route(in), e.At(name, in)
		}), pip.WithMultiOutputChannels[pip.None, int](nout))
	}
	outOpt(s.Stage, e.Out)
	return s
}

// Stage forwards each item to the channels given by route.
func (e *Env) Stage(name string, nin, nout int, route func(i int) (outs []int, chs []int)) *pip.Stage[int, int] {
	s := pip.NewStage(name, pip.WithProcessFunction(func(in int) ([]int, []int, error) {
		if err := e.At(name, in); err != nil {
			return nil, nil, err
		}
		o, c := route(in)
		return o, c, nil
	}), pip.WithMultiInputChannels[int, int](nin), pip.WithMultiOutputChannels[int, int](nout),
		pip.WithOnNoMoreData[int, int](func() ([]int, []int, error) { return nil, nil, e.End(name) }))
	outOpt(s, e.Out)
	inOpt(s, e.In)
	return s
}

// Bundle keeps items and emits them in bundles of size n; the rest at the end of the data.
func (e *Env) Bundle(name string, n int) *pip.Stage[int, int] {
	var buf []int
	flush := func() ([]int, []int) {
		o := append([]int{}, buf...)
		c := make([]int, len(o))
		buf = nil
		return o, c
	}
	s := pip.NewStage(name, pip.WithProcessFunction(func(in int) ([]int, []int, error) {
		if err := e.At(name, in); err != nil {
			return nil, nil, err
		}
		buf = append(buf, in)
		if len(buf) == n {
			o, c := flush()
			return o, c, nil
		}
		return nil, nil, nil
	}), pip.WithOnNoMoreData[int, int](func() ([]int, []int, error) {
		err := e.End(name)
		o, c := flush()
		return o, c, err
	}))
	outOpt(s, e.Out)
	inOpt(s, e.In)
	return s
}

// Stream emits each item k times through the streaming function: item, item+100, ...
func (e *Env) Stream(name string, k int) *pip.Stage[int, int] {
	cur, left := 0, 0
	s := pip.NewStage(name, pip.WithProcessFunction(func(in int) ([]int, []int, error) {
		if err := e.At(name, in); err != nil {
			return nil, nil, err
		}
		cur, left = in, k-1
		if left == 0 {
			return []int{in}, []int{0}, nil
		}
		return []int{in}, []int{0}, pip.StreamOutput
	}), pip.WithOutputStreamingFunction[int, int](func(o *[]int, c *[]int) error {
		cur += 100
		left--
		if k := fmt.Sprintf("%s:stream%d", name, cur); e.Errs[k] {
			e.Raised = append(e.Raised, k)
			return InjErr(k)
		}
		*o, *c = []int{cur}, []int{0}
		if left == 0 {
			return nil
		}
		return pip.StreamOutput
	}), pip.WithOnNoMoreData[int, int](func() ([]int, []int, error) { return nil, nil, e.End(name) }))
	outOpt(s, e.Out)
	inOpt(s, e.In)
	return s
}

// Gaps emits for each item, through the streaming function, nothing, item+100, nothing twice, two items at once, and nothing.
func (e *Env) Gaps(name string) *pip.Stage[int, int] {
	cur, step := 0, 0
	s := pip.NewStage(name, pip.WithProcessFunction(func(in int) ([]int, []int, error) {
		if err := e.At(name, in); err != nil {
			return nil, nil, err
		}
		cur, step = in, 0
		return nil, nil, pip.StreamOutput
	}), pip.WithOutputStreamingFunction[int, int](func(o *[]int, c *[]int) error {
		step++
		if k := fmt.Sprintf("%s:stream%d", name, cur+100*step); e.Errs[k] {
			e.Raised = append(e.Raised, k)
			return InjErr(k)
		}
		switch step {
		case 1:
			*o, *c = []int{cur + 100}, []int{0}
		case 4:
			*o, *c = []int{cur + 200, cur + 300}, []int{0, 0}
		case 5:
			*o, *c = nil, nil
			return nil
		default:
			*o, *c = nil, nil
		}
		return pip.StreamOutput
	}), pip.WithOnNoMoreData[int, int](func() ([]int, []int, error) { return nil, nil, e.End(name) }))
	outOpt(s, e.Out)
	inOpt(s, e.In)
	return s
}

func (e *Env) Sink(name string, nin int) *pip.Sink[int] {
	s := pip.NewSink(name, pip.WithSinkFunction(func(in int) error { return e.At(name, in) }),
		pip.WithMultiInputChannels[int, pip.None](nin),
		pip.WithOnNoMoreData[int, pip.None](func() ([]pip.None, []int, error) { return nil, nil, e.End(name) }))
	inOpt(s.Stage, e.In)
	return s
}

// Feed starts the goroutines feeding channel sources.
func (e *Env) Feed() {
	for _, ch := range e.chans {
		*ch = make(chan int)
	}
}

func (e *Env) StartFeeding() {
	names := []string{}
	for n := range e.chans {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ch := *e.chans[n]
		go func() {
			// the owner of a channel source stops feeding when nobody listens any more
			vrt.Daemon()
			for i := 1; i <= e.N; i++ {
				ch <- i
			}
			close(ch)
		}()
	}
}

// Run resumes the pipeline and waits for it.
func (e *Env) Run(ctx context.Context, p *pip.Pipeline) error {
	e.Feed()
	p.Resume(ctx)
	e.StartFeeding()
	return p.Wait(ctx)
}

func zero(int) int { return 0 }
func mod(n int) func(int) int {
	return func(i int) int { return (i - 1) % n }
}

// fan3 leaves the first of three outputs with less items than the others.
func fan3(i int) int           { return []int{0, 1, 2, 1, 2}[(i-1)%5] }
func one(i int) ([]int, []int) { return []int{i}, []int{0} }
func must(p *pip.Pipeline, err error) *pip.Pipeline {
	if err != nil {
		panic(err)
	}
	return p
}

// Topo is a topology: it builds the pipeline and lists the stages with the items each must process.
type Topo struct {
	Name   string
	Build  func(e *Env) *pip.Pipeline
	Expect func(n int) map[string][]int // per stage: the exact set of items (a distributed group has the key a|b)
	Ends   []string                     // stages with an end-of-data action
	Order  map[string][]string          // stage -> upstream stages whose items must arrive in order
	Ins    map[string][]string          // stage -> the stages feeding its inputs, by index of the input
}

func seq(n int) []int {
	l := []int{}
	for i := 1; i <= n; i++ {
		l = append(l, i)
	}
	return l
}
func filter(l []int, f func(int) bool) []int {
	o := []int{}
	for _, i := range l {
		if f(i) {
			o = append(o, i)
		}
	}
	return o
}

// Topologies lists all topologies.
func Topologies() []Topo {
	odd := func(i int) bool { return i%2 == 1 }
	even := func(i int) bool { return i%2 == 0 }
	return []Topo{
		{Name: "chain2", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				pip.LinkStagesFanOut(pip.SourceStage[int](p), pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Sink("sink", 1))))
		}, Expect: func(n int) map[string][]int { return map[string][]int{"src": seq(n), "sink": seq(n)} },
			Ends: []string{"sink"}, Order: map[string][]string{"sink": {"src"}}},
		{Name: "chain3", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				b := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Stage("b", 1, 1, one), e.Sink("sink", 1))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": seq(n), "sink": seq(n)}
		}, Ends: []string{"b", "sink"}, Order: map[string][]string{"b": {"src"}, "sink": {"b"}}},
		{Name: "chain4", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				b, c := pip.StageAtIndex[int, int](p, 1), pip.StageAtIndex[int, int](p, 2)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, c)
				pip.LinkStagesFanOut(c, pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Stage("b", 1, 1, one), e.Stage("c", 1, 1, one), e.Sink("sink", 1))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": seq(n), "c": seq(n), "sink": seq(n)}
		}, Ends: []string{"b", "c", "sink"}, Order: map[string][]string{"b": {"src"}, "c": {"b"}, "sink": {"c"}}},
		{Name: "diamond", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				a, b, c, s := pip.SourceStage[int](p), pip.StageAtIndex[int, int](p, 1), pip.StageAtIndex[int, int](p, 2), pip.SinkStage[int](p)
				pip.LinkStagesFanOut(a, b, c)
				pip.LinkStagesAt(b, 0, s, 0)
				pip.LinkStagesAt(c, 0, s, 1)
			}, pip.WithStages(e.Source("src", 2, mod(2)), e.Stage("b", 1, 1, one), e.Stage("c", 1, 1, one), e.Sink("sink", 2))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": filter(seq(n), odd), "c": filter(seq(n), even), "sink": seq(n)}
		}, Ends: []string{"b", "c", "sink"}, Order: map[string][]string{"b": {"src"}, "c": {"src"}, "sink": {"b", "c"}},
			Ins: map[string][]string{"sink": {"b", "c"}}},
		{Name: "fanin3", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				a, b, c, d, s := pip.SourceStage[int](p), pip.StageAtIndex[int, int](p, 1), pip.StageAtIndex[int, int](p, 2), pip.StageAtIndex[int, int](p, 3), pip.SinkStage[int](p)
				pip.LinkStagesFanOut(a, b, c, d)
				pip.LinkStagesAt(b, 0, s, 0)
				pip.LinkStagesAt(c, 0, s, 1)
				pip.LinkStagesAt(d, 0, s, 2)
			}, pip.WithStages(e.Source("src", 3, fan3), e.Stage("b", 1, 1, one), e.Stage("c", 1, 1, one), e.Stage("d", 1, 1, one), e.Sink("sink", 3))))
		}, Expect: func(n int) map[string][]int {
			at := func(k int) []int { return filter(seq(n), func(i int) bool { return fan3(i) == k }) }
			return map[string][]int{"src": seq(n), "b": at(0), "c": at(1), "d": at(2), "sink": seq(n)}
		}, Ends: []string{"b", "c", "d", "sink"}, Order: map[string][]string{"b": {"src"}, "c": {"src"}, "d": {"src"}, "sink": {"b", "c", "d"}},
			Ins: map[string][]string{"sink": {"b", "c", "d"}}},
		{Name: "twosinks", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				a := pip.SourceStage[int](p)
				pip.LinkStagesFanOut(a, pip.SinkAsStage(p.Stages[1].(*pip.Sink[int])), pip.SinkAsStage(p.Stages[2].(*pip.Sink[int])))
			}, pip.WithStages(e.Source("src", 2, mod(2)), e.Sink("b", 1), e.Sink("c", 1))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": filter(seq(n), odd), "c": filter(seq(n), even)}
		}, Ends: []string{"b", "c"}, Order: map[string][]string{"b": {"src"}, "c": {"src"}}},
		{Name: "multiout", Build: func(e *Env) *pip.Pipeline {
			// every item goes to both branches
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				a, m, b, c, s := pip.SourceStage[int](p), pip.StageAtIndex[int, int](p, 1), pip.StageAtIndex[int, int](p, 2), pip.StageAtIndex[int, int](p, 3), pip.SinkStage[int](p)
				pip.LinkStagesFanOut(a, m)
				pip.LinkStagesFanOut(m, b, c)
				pip.LinkStagesAt(b, 0, s, 0)
				pip.LinkStagesAt(c, 0, s, 1)
			}, pip.WithStages(e.Source("src", 1, zero), e.Stage("m", 1, 2, func(i int) ([]int, []int) { return []int{i, i + 50}, []int{0, 1} }),
				e.Stage("b", 1, 1, one), e.Stage("c", 1, 1, one), e.Sink("sink", 2))))
		}, Expect: func(n int) map[string][]int {
			hi := []int{}
			for _, i := range seq(n) {
				hi = append(hi, i+50)
			}
			return map[string][]int{"src": seq(n), "m": seq(n), "b": seq(n), "c": hi, "sink": append(seq(n), hi...)}
		}, Ends: []string{"m", "b", "c", "sink"}, Order: map[string][]string{"b": {"m"}, "sink": {"b", "c"}},
			Ins: map[string][]string{"sink": {"b", "c"}}},
		{Name: "distribute", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				a, b, c, s := pip.SourceStage[int](p), pip.StageAtIndex[int, int](p, 1), pip.StageAtIndex[int, int](p, 2), pip.SinkStage[int](p)
				pip.LinkStagesDistribute(a, b, c)
				pip.LinkStagesAt(b, 0, s, 0)
				pip.LinkStagesAt(c, 0, s, 1)
			}, pip.WithStages(e.Source("src", 1, zero), e.Stage("b", 1, 1, one), e.Stage("c", 1, 1, one), e.Sink("sink", 2))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b|c": seq(n), "sink": seq(n)}
		}, Ends: []string{"b", "c", "sink"}, Order: map[string][]string{"sink": {"b", "c"}},
			Ins: map[string][]string{"sink": {"b", "c"}}},
		{Name: "crisscross", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				a, b, c := pip.SourceStage[int](p), pip.StageAtIndex[int, int](p, 1), pip.StageAtIndex[int, int](p, 2)
				s1, s2 := pip.SinkAsStage(p.Stages[3].(*pip.Sink[int])), pip.SinkAsStage(p.Stages[4].(*pip.Sink[int]))
				pip.LinkStagesFanOut(a, b, c)
				pip.LinkStagesCrissCross(pip.StagesAsSlice(b, c), pip.StagesAsSlice(s1, s2))
			}, pip.WithStages(e.Source("src", 2, mod(2)), e.Stage("b", 1, 1, one), e.Stage("c", 1, 1, one), e.Sink("s1", 1), e.Sink("s2", 1))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": filter(seq(n), odd), "c": filter(seq(n), even), "s1|s2": seq(n)}
		}, Ends: []string{"b", "c", "s1", "s2"}, Order: map[string][]string{"b": {"src"}, "c": {"src"}}},
		{Name: "bundle", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				b := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Bundle("b", 2), e.Sink("sink", 1))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": seq(n), "sink": seq(n)}
		}, Ends: []string{"b", "sink"}, Order: map[string][]string{"b": {"src"}}},
		{Name: "stream", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				b := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Stream("b", 3), e.Sink("sink", 1))))
		}, Expect: func(n int) map[string][]int {
			all := []int{}
			for _, i := range seq(n) {
				all = append(all, i, i+100, i+200)
			}
			return map[string][]int{"src": seq(n), "b": seq(n), "sink": all}
		}, Ends: []string{"b", "sink"}, Order: map[string][]string{"b": {"src"}}},
		{Name: "streamgaps", Build: func(e *Env) *pip.Pipeline {
			return must(pip.NewPipeline(func(p *pip.Pipeline) {
				b := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Gaps("b"), e.Sink("sink", 1))))
		}, Expect: func(n int) map[string][]int {
			all := []int{}
			for _, i := range seq(n) {
				all = append(all, i+100, i+200, i+300)
			}
			return map[string][]int{"src": seq(n), "b": seq(n), "sink": all}
		}, Ends: []string{"b", "sink"}, Order: map[string][]string{"b": {"src"}}},
		{Name: "joined", Build: func(e *Env) *pip.Pipeline {
			p1 := must(pip.NewPipeline(func(p *pip.Pipeline) {
				b := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Stage("b", 1, 1, one), e.Sink("k1", 1))))
			ch := make(chan int)
			src2 := pip.NewSource("src2", pip.WithSourceChannel(&ch, func(in int) ([]int, error) { return []int{0}, e.At("src2", in) }))
			outOpt(src2.Stage, e.Out)
			p2 := must(pip.NewPipeline(func(p *pip.Pipeline) {
				pip.LinkStagesFanOut(pip.SourceStage[int](p), pip.SinkStage[int](p))
			}, pip.WithStages(src2, e.Sink("sink", 1))))
			return must(pip.JoinTwoPipelines[int](p1, p2))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": seq(n), "k1": seq(n), "src2": seq(n), "sink": seq(n)}
		}, Ends: []string{"b", "k1", "sink"}, Order: map[string][]string{"b": {"src"}, "k1": {"b"}, "src2": {"k1"}, "sink": {"src2"}}},
		{Name: "joinedraw", Build: func(e *Env) *pip.Pipeline {
			p1 := must(pip.NewPipeline(func(p *pip.Pipeline) {
				b := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
			}, pip.WithStages(e.Source("src", 1, zero), e.Stage("b", 1, 1, one), e.Sink("k1", 1))))
			ch := make(chan int)
			src2 := pip.NewSource("src2", pip.WithSourceChannel(&ch, func(in int) ([]int, error) { return []int{0}, e.At("src2", in) }))
			p2 := must(pip.NewPipeline(func(p *pip.Pipeline) {
				c := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), c)
				pip.LinkStagesFanOut(c, pip.SinkStage[int](p))
			}, pip.WithStages(src2, e.Stage("c", 1, 1, one), e.Sink("sink", 1))))
			return pip.JoinPipelinesRaw(func(p *pip.Pipeline) {
				p1.LinkFunction()(p1)
				p2.LinkFunction()(p2)
				pip.LinkStagesAt(pip.StageAtIndex[int, int](p1, 1), 0, pip.StageAtIndex[int, int](p2, 1), 0)
			}, p1, p2)
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": seq(n), "c": seq(n), "sink": seq(n)}
		}, Ends: []string{"b", "c", "sink"}, Order: map[string][]string{"b": {"src"}, "c": {"b"}, "sink": {"c"}}},
		{Name: "joinedraw3", Build: func(e *Env) *pip.Pipeline {
			// of the pipeline in the middle only the stages which are no source or sink remain
			link := func(p *pip.Pipeline) {
				b := pip.StageAtIndex[int, int](p, 1)
				pip.LinkStagesFanOut(pip.SourceStage[int](p), b)
				pip.LinkStagesFanOut(b, pip.SinkStage[int](p))
			}
			part := func(src *pip.Source[int], stage, sink string) *pip.Pipeline {
				return must(pip.NewPipeline(link, pip.WithStages(src, e.Stage(stage, 1, 1, one), e.Sink(sink, 1))))
			}
			source := func(name string) *pip.Source[int] {
				ch := make(chan int)
				return pip.NewSource(name, pip.WithSourceChannel(&ch, func(in int) ([]int, error) { return []int{0}, e.At(name, in) }))
			}
			p1, p2, p3 := part(e.Source("src", 1, zero), "b", "k1"), part(source("src2"), "c", "k2"), part(source("src3"), "d", "sink")
			return pip.JoinPipelinesRaw(func(p *pip.Pipeline) {
				for _, p := range []*pip.Pipeline{p1, p2, p3} {
					p.LinkFunction()(p)
				}
				pip.LinkStagesAt(pip.StageAtIndex[int, int](p1, 1), 0, pip.StageAtIndex[int, int](p2, 1), 0)
				pip.LinkStagesAt(pip.StageAtIndex[int, int](p2, 1), 0, pip.StageAtIndex[int, int](p3, 1), 0)
			}, p1, p2, p3)
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "b": seq(n), "c": seq(n), "d": seq(n), "sink": seq(n)}
		}, Ends: []string{"b", "c", "d", "sink"}, Order: map[string][]string{"b": {"src"}, "c": {"b"}, "d": {"c"}, "sink": {"d"}}},
		{Name: "joinednested", Build: func(e *Env) *pip.Pipeline {
			// the second pipeline is a joined one
			link := func(p *pip.Pipeline) { pip.LinkStagesFanOut(pip.SourceStage[int](p), pip.SinkStage[int](p)) }
			part := func(src *pip.Source[int], sink string) *pip.Pipeline {
				return must(pip.NewPipeline(link, pip.WithStages(src, e.Sink(sink, 1))))
			}
			source := func(name string) *pip.Source[int] {
				ch := make(chan int)
				s := pip.NewSource(name, pip.WithSourceChannel(&ch, func(in int) ([]int, error) { return []int{0}, e.At(name, in) }))
				outOpt(s.Stage, e.Out)
				return s
			}
			p1, p2, p3 := part(e.Source("src", 1, zero), "k1"), part(source("src2"), "k2"), part(source("src3"), "sink")
			return must(pip.JoinTwoPipelines[int](p1, must(pip.JoinTwoPipelines[int](p2, p3))))
		}, Expect: func(n int) map[string][]int {
			return map[string][]int{"src": seq(n), "k1": seq(n), "src2": seq(n), "k2": seq(n), "src3": seq(n), "sink": seq(n)}
		}, Ends: []string{"k1", "k2", "sink"}, Order: map[string][]string{"k1": {"src"}, "src2": {"k1"}, "k2": {"src2"}, "src3": {"k2"}, "sink": {"src3"}}},
	}
}

func key(l []int) string {
	c := append([]int{}, l...)
	sort.Ints(c)
	return fmt.Sprint(c)
}

// CheckComplete verifies the record of an error-free run.
func (e *Env) CheckComplete(t Topo) error {
	var bad []string
	seen := map[string]bool{}
	for stages, want := range t.Expect(e.N) {
		got := []int{}
		for _, st := range strings.Split(stages, "|") {
			got = append(got, e.Proc[st]...)
			seen[st] = true
		}
		if key(got) != key(want) {
			bad = append(bad, fmt.Sprintf("stage %s processed %v, expected %v", stages, got, want))
		}
	}
	for st, l := range e.Proc {
		if !seen[st] && len(l) > 0 {
			bad = append(bad, fmt.Sprintf("stage %s processed %v", st, l))
		}
	}
	for _, st := range t.Ends {
		if e.Ends[st] != 1 {
			bad = append(bad, fmt.Sprintf("end-of-data action of stage %s ran %d times", st, e.Ends[st]))
		}
	}
	if len(e.Late) > 0 {
		bad = append(bad, fmt.Sprintf("processed after the end-of-data action: %v", e.Late))
	}
	for st, ups := range t.Order {
		for _, up := range ups {
			in := map[int]bool{}
			for _, i := range e.Proc[up] {
				in[i] = true
			}
			sub := filter(e.Proc[st], func(i int) bool { return in[i] })
			// only items routed to this stage
			want := map[int]bool{}
			for _, i := range e.Proc[st] {
				want[i] = true
			}
			ups := filter(e.Proc[up], func(i int) bool { return want[i] })
			if fmt.Sprint(sub) != fmt.Sprint(ups) {
				bad = append(bad, fmt.Sprintf("stage %s processed %v, but %s emitted them as %v", st, sub, up, ups))
			}
		}
	}
	if e.In == "seq" { // inputs are read in index order, wrapping around, without the closed ones
		for st, ups := range t.Ins {
			var want []int
			var left [][]int
			for _, up := range ups {
				left = append(left, e.Proc[up])
			}
			for len(left) > 0 {
				var next [][]int
				for _, l := range left {
					if len(l) > 0 {
						want = append(want, l[0])
						next = append(next, l[1:])
					}
				}
				left = next
			}
			if fmt.Sprint(want) != fmt.Sprint(e.Proc[st]) {
				bad = append(bad, fmt.Sprintf("stage %s reads its inputs in turn and should process %v, but processed %v", st, want, e.Proc[st]))
			}
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		return errors.New(strings.Join(bad, "; "))
	}
	return nil
}

// CheckNoDup verifies that no stage processed an item twice.
func (e *Env) CheckNoDup(t Topo) error {
	for stages := range t.Expect(e.N) {
		n := map[int]int{}
		for _, st := range strings.Split(stages, "|") {
			for _, i := range e.Proc[st] {
				n[i]++
				if n[i] > 1 {
					return fmt.Errorf("stage %s processed item %d twice", stages, i)
				}
			}
		}
	}
	return nil
}

// Drained verifies that all goroutines of the run end.
func Drained() error {
	vrt.Quiesce()
	if b := vrt.BlockedNow(); len(b) > 0 {
		return fmt.Errorf("goroutines left after the end of the pipeline: %s", strings.Join(b, "; "))
	}
	return nil
}
