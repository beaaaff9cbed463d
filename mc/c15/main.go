// Command c15: a pipeline in which any stage reports an error stops, returns that error, and leaves nothing behind.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/netsec-ethz/fpki/verifmc/pipex"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

func scenario(t pipex.Topo, cfg pipex.Env, errs []string, q, d int) *vrt.Scenario {
	cfg.Errs = map[string]bool{}
	for _, e := range errs {
		cfg.Errs[e] = true
	}
	return &vrt.Scenario{
		Name:  fmt.Sprintf("%s n=%d out=%s in=%s src=%s err=%s", t.Name, cfg.N, cfg.Out, cfg.In, cfg.Src, strings.Join(errs, "+")),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			e := cfg.New()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			p := t.Build(e)
			return judge(t, e, e.Run(ctx, p))
		},
		Outcome: func(r *vrt.Result) string { return r.Status.String() },
	}
}

func judge(t pipex.Topo, e *pipex.Env, err error) error {
	if err := e.CheckNoDup(t); err != nil {
		return err
	}
	if len(e.Raised) == 0 {
		// the failing item was never reached: only possible if another error stopped the run first
		return errors.New("the run ended before any stage failed: " + fmt.Sprint(err))
	}
	if err == nil {
		return fmt.Errorf("stages reported %v, but waiting for the pipeline returned success", e.Raised)
	}
	for _, r := range e.Raised {
		if !strings.Contains(err.Error(), string(pipex.InjErr(r).Error())) {
			return fmt.Errorf("stages reported %v, but waiting for the pipeline returned %v", e.Raised, err)
		}
	}
	return pipex.Drained()
}

func main() {
	_ = os.Args
	var scens []*vrt.Scenario
	n := 2
	for _, t := range pipex.Topologies() {
		pos := positions(t, n)
		fanin := t.Name == "diamond" || t.Name == "multiout" || t.Name == "distribute" || t.Name == "fanin3"
		small := t.Name == "chain2" || t.Name == "chain3" || t.Name == "stream" || t.Name == "bundle" || t.Name == "twosinks"
		q := 1
		if small {
			q = 2
		}
		long := t.Name == "joinedraw3" || t.Name == "joinednested" // the parts alone are other topologies
		for _, out := range []string{"conc", "seq", "cyc"} {
			if long && out == "cyc" {
				continue
			}
			for _, p := range pos {
				qq := q
				if out == "seq" {
					qq = 1
				}
				scens = append(scens, scenario(t, pipex.Env{N: n, Out: out, In: "conc", Src: "slice"}, []string{p}, qq, 3))
				if fanin {
					scens = append(scens, scenario(t, pipex.Env{N: n, Out: out, In: "seq", Src: "slice"}, []string{p}, 1, 2))
				}
			}
		}
		for _, p := range pos {
			if long {
				break
			}
			scens = append(scens, scenario(t, pipex.Env{N: n, Out: "conc", In: "conc", Src: "chan"}, []string{p}, 1, 2))
			scens = append(scens, scenario(t, pipex.Env{N: n, Out: "seq", In: "conc", Src: "func"}, []string{p}, 1, 2))
			// more data than the failing stage ever reads
			scens = append(scens, scenario(t, pipex.Env{N: n + 2, Out: "conc", In: "conc", Src: "slice"}, []string{p}, 1, 2))
		}
		// two stages fail in the same run
		for i, p := range pos {
			for _, p2 := range pos[i+1:] {
				if long || p[:strings.Index(p, ":")] == p2[:strings.Index(p2, ":")] {
					continue
				}
				scens = append(scens, scenario(t, pipex.Env{N: n, Out: "conc", In: "conc", Src: "slice"}, []string{p, p2}, 0, 1))
				scens = append(scens, scenario(t, pipex.Env{N: n, Out: "seq", In: "conc", Src: "slice"}, []string{p, p2}, 0, 1))
			}
		}
	}
	vrt.Main("C15", "every position of one error and pairs of errors in every topology; every schedule with a bounded number of deviations from four base policies", scens, nil)
}

// positions lists every place where a stage function can fail.
func positions(t pipex.Topo, n int) []string {
	m := map[string]bool{}
	for stages, items := range t.Expect(n) {
		for _, st := range strings.Split(stages, "|") {
			for _, i := range items {
				if !strings.Contains(stages, "|") {
					m[fmt.Sprintf("%s:%d", st, i)] = true
				}
			}
		}
	}
	for _, st := range t.Ends {
		m[st+":end"] = true
	}
	if t.Name == "streamgaps" {
		m["b:stream101"], m["b:stream201"], m["b:stream401"], m["b:stream502"] = true, true, true, true
	}
	if t.Name == "stream" {
		m["b:stream101"], m["b:stream202"] = true, true
	}
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
