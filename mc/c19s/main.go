// Command c19s: the ingestion journal used by several goroutines, as when the process is asked to end.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/vos"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

var (
	base string
	runs atomic.Int64
)

func scenario(calls []string, q, d int) *vrt.Scenario {
	return &vrt.Scenario{
		Name: fmt.Sprintf("%v", calls), Quick: q, Deep: d, NoCache: true, Shards: 1,
		Body: func() error {
			dir := filepath.Join(base, fmt.Sprintf("%d-%d", os.Getpid(), runs.Add(1)))
			root := filepath.Join(dir, "log")
			if err := os.MkdirAll(filepath.Join(root, "bundled"), 0o755); err != nil {
				return err
			}
			defer os.RemoveAll(dir)
			name := func(i int) string { return filepath.Join(root, "bundled", fmt.Sprintf("%d-%d.gz", i*10, i*10+9)) }
			for i := range 3 {
				if err := os.WriteFile(name(i), nil, 0o644); err != nil {
					return err
				}
			}
			cfg := journal.JobConfiguration{IngestFiles: true}
			file := filepath.Join(dir, "journal.json")
			j, err := journal.NewJournal(file, cfg, root)
			if err != nil {
				return err
			}
			type result struct {
				call    int
				err     error
				pending []string
			}
			done := make(chan result, len(calls))
			for k, c := range calls {
				go func() {
					r := result{call: k}
					switch c {
					case "commit0", "commit1", "commit2":
						r.err = j.CommitProgress([]string{name(int(c[6] - '0'))}, false, false)
					case "size":
						r.err = j.CommitCTLogSize(5)
					case "close":
						r.err = j.Close()
					case "write":
						r.err = j.Write()
					case "pending":
						r.pending, r.err = j.PendingFiles()
					}
					done <- r
				}()
			}
			closing := false
			for _, c := range calls {
				closing = closing || c == "close"
			}
			var want, may uint
			size := int64(0)
			var pend [][]string
			for range calls {
				r := <-done
				c := calls[r.call]
				if len(c) == 7 && c[:6] == "commit" {
					may |= 1 << (c[6] - '0')
				}
				if r.err != nil {
					if !closing || c == "close" {
						return fmt.Errorf("%s: %w", c, r.err)
					}
					continue
				}
				switch {
				case c == "size":
					size = 5
				case c == "pending":
					pend = append(pend, r.pending)
				case len(c) == 7 && c[:6] == "commit":
					want |= 1 << (c[6] - '0')
				}
			}
			if l := vos.Entries(dir, "journal.json"); len(l) != 1 {
				return fmt.Errorf("files left: %v", l)
			}
			k, err := journal.NewJournal(file, cfg, root)
			if err != nil {
				return err
			}
			left, err := k.PendingFiles()
			if err != nil {
				return err
			}
			if g := set(left, name); g != 7&^want {
				return fmt.Errorf("commits of %03b succeeded, but the files %03b are left", want, g)
			}
			if g := k.Jobs[0].RecordedCTLogSize; g != size {
				return fmt.Errorf("recorded size %d instead of %d", g, size)
			}
			for _, p := range pend {
				if g := set(p, name); g|may != 7 {
					return fmt.Errorf("listed %03b as left while only %03b were committed", g, may)
				}
			}
			return nil
		},
		Outcome: func(r *vrt.Result) string { return r.Status.String() },
	}
}

func set(l []string, name func(int) string) (m uint) {
	for _, f := range l {
		for i := range 3 {
			if f == name(i) {
				m |= 1 << i
			}
		}
	}
	return
}

func main() {
	core.Quiet()
	util.VerifDropShutdown = true
	base = vos.Scratch()
	vrt.Main("C19", "calls from several goroutines leave a journal that holds exactly the commits that succeeded", []*vrt.Scenario{
		scenario([]string{"commit0", "close"}, 2, 4),
		scenario([]string{"commit0", "commit1"}, 2, 4),
		scenario([]string{"commit0", "size", "pending"}, 1, 3),
		scenario([]string{"commit0", "commit1", "close"}, 1, 3),
		scenario([]string{"commit0", "commit1", "pending", "close"}, 1, 2),
		scenario([]string{"write", "commit2", "size", "close"}, 1, 2),
	}, nil)
}
