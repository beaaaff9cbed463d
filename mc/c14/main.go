// Command c14: error-free runs of every pipeline topology deliver every item exactly once.
package main

import (
	"context"
	"fmt"

	"github.com/netsec-ethz/fpki/verifmc/pipex"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

func scenario(t pipex.Topo, cfg pipex.Env, runs int, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name:  fmt.Sprintf("%s n=%d out=%s in=%s src=%s runs=%d", t.Name, cfg.N, cfg.Out, cfg.In, cfg.Src, runs),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			e := cfg.New()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			p := t.Build(e)
			for r := 0; r < runs; r++ {
				if r > 0 {
					e.Reset()
				}
				if err := e.Run(ctx, p); err != nil {
					return fmt.Errorf("run %d: error %v without any cause", r, err)
				}
				if err := e.CheckComplete(t); err != nil {
					return fmt.Errorf("run %d: %w", r, err)
				}
				if err := pipex.Drained(); err != nil {
					return fmt.Errorf("run %d: %w", r, err)
				}
			}
			return nil
		},
		Outcome: func(r *vrt.Result) string { return r.Status.String() },
	}
}

func main() {
	var scens []*vrt.Scenario
	for _, t := range pipex.Topologies() {
		for _, out := range []string{"conc", "seq", "cyc"} {
			for _, in := range []string{"conc", "seq"} {
				q := 1
				if len(t.Name) > 5 && t.Name[:5] == "chain" && t.Name != "chain4" || t.Name == "stream" || t.Name == "streamgaps" || t.Name == "bundle" {
					q = 2 // the small ones
				}
				if in == "seq" && (t.Name == "chain2" || t.Name == "chain3" || t.Name == "chain4" || t.Name == "stream" || t.Name == "streamgaps" || t.Name == "bundle" || t.Name == "joined" || t.Name == "joinedraw" || t.Name == "joinedraw3" || t.Name == "joinednested" || t.Name == "twosinks" || t.Name == "crisscross") {
					continue // a single input is read the same way in both modes
				}
				if t.Name == "fanin3" {
					scens = append(scens, scenario(t, pipex.Env{N: 5, Out: out, In: in, Src: "slice"}, 1, 1, 2))
					continue
				}
				scens = append(scens, scenario(t, pipex.Env{N: 2, Out: out, In: in, Src: "slice"}, 1, q, 3))
			}
		}
		scens = append(scens, scenario(t, pipex.Env{N: 3, Out: "conc", In: "conc", Src: "func"}, 1, 1, 2))
		scens = append(scens, scenario(t, pipex.Env{N: 2, Out: "seq", In: "conc", Src: "chan"}, 1, 1, 2))
		scens = append(scens, scenario(t, pipex.Env{N: 0, Out: "conc", In: "conc", Src: "slice"}, 1, 1, 2))
		scens = append(scens, scenario(t, pipex.Env{N: 2, Out: "seq", In: "conc", Src: "slice"}, 2, 1, 2))
	}
	vrt.Main("C14", "every schedule of error-free runs of each topology with a bounded number of deviations from four base policies", scens, nil)
}
