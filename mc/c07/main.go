// Command c07: the bulk ingestion of pkg/mapserver/updater stores everything, under every schedule.
package main

import (
	"cmp"
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/util/noallocs"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
	"github.com/netsec-ethz/fpki/verifmc/pipex"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

type ID = common.SHA256Output

var dir string

// cfg describes a scenario.
type cfg struct {
	workers, batch int
	runs           [][]string // certificates per run, see cert
	fail           string     // "what:k": the k-th operation of that kind fails
	clean          bool       // dirty marks are removed between the runs
	shared         bool       // reports pairs lost to the known finding (elsewhere they are tolerated)
}

// cert builds a certificate from "hexbyte names..."; the same text gives the same certificate.
// The byte is the first one of its identifier, hence selects the worker.
func cert(text string) updater.Certificate {
	f := strings.Split(text, " ")
	var b byte
	fmt.Sscanf(f[0], "%02x", &b)
	h := common.SHA256Hash32Bytes([]byte(text))
	c := updater.Certificate{CertID: h, Raw: []byte("payload of " + text)}
	c.CertID[0] = b
	switch h[1] % 3 {
	case 0:
		p := common.SHA256Hash32Bytes([]byte("parent of " + text))
		c.ParentID = &p
	case 1:
		c.Raw = nil
	}
	c.NotAfter = time.Date(2030, time.Month(1+h[2]%12), 1+int(h[3]%28), int(h[4]%24), 5, 6, 0, time.FixedZone("", 3600*(int(h[5]%5)-2)))
	for _, n := range f[1:] {
		c.Names = append(c.Names, unquote.Replace(n))
	}
	return c
}

var unquote = strings.NewReplacer("%c", ",", "%q", `"`, "%b", `\`, "%n", "\n", "%s", " ")

type world struct {
	cfg
	db      *memdb.DB
	created map[string]bool
	count   map[string]int
	hit     bool
}

func (w *world) at(what string) error {
	vrt.Touch("ops")
	w.count[what]++
	if fmt.Sprintf("%s:%d", what, w.count[what]) == w.fail {
		w.hit = true
		return pipex.InjErr(w.fail)
	}
	return nil
}

var cur *world

func hooks() {
	noallocs.VerifTempfile = func(storage []byte, prefix, suffix string, orig func([]byte, string, string) (string, error)) (string, error) {
		w := cur
		vrt.Step("create file")
		if err := w.at("create"); err != nil {
			return "", err
		}
		name, err := orig(storage, strings.Replace(prefix, updater.TemporaryDir, dir, 1), suffix)
		if err == nil {
			w.created[strings.Clone(name)] = true
		}
		return name, err
	}
	noallocs.VerifWrite = func(fd int, data []byte) error {
		w := cur
		if w.workers == 1 || w.fail != "" {
			vrt.Step("write file")
		}
		return w.at("write")
	}
}

func (w *world) cleanup() {
	for f := range w.created {
		os.Remove(f)
	}
}

// expect adds what a run has to store.
func expect(s *memdb.State, certs []string) {
	for _, t := range certs {
		c := cert(t)
		o := memdb.Object{Exp: memdb.Exp(c.NotAfter), Payload: string(c.Raw)}
		if c.ParentID != nil {
			o.Parent = *c.ParentID
		}
		s.Certs[c.CertID] = o
		for _, n := range c.Names {
			d := ID(common.SHA256Hash32Bytes([]byte(n)))
			s.Domains[d] = n
			s.Dirty[d] = false
			if s.DomainCerts[d] == nil {
				s.DomainCerts[d] = map[ID]bool{}
			}
			s.DomainCerts[d][c.CertID] = true
		}
	}
}

// tolerate takes the losses of the known finding "shared-domain" out of the expectation: a later
// certificate of a domain seen before (by this manager) may be missing in the domain's list, and the
// domain's dirty mark may be missing if it was seen in an earlier run.
func (w *world) tolerate(want, got *memdb.State, first map[ID]ID, earlier map[ID]bool) (*memdb.State, bool) {
	want = want.Clone()
	lost := false
	for d, l := range want.DomainCerts {
		if got.DomainCerts[d] == nil || w.workers == 1 && !got.DomainCerts[d][first[d]] {
			continue
		}
		for c := range l {
			if !got.DomainCerts[d][c] {
				lost = true
				delete(l, c)
			}
		}
	}
	for d := range want.Dirty {
		if _, ok := got.Dirty[d]; !ok && earlier[d] {
			lost = true
			delete(want.Dirty, d)
		}
	}
	return want, lost
}

func (w *world) body() error {
	cur = w
	first, earlier, lost := map[ID]ID{}, map[ID]bool{}, false
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m, err := updater.NewManager(w.workers, w.db, w.batch, nil)
	if err != nil {
		return err
	}
	want := memdb.NewState()
	for r, certs := range w.runs {
		m.Resume(ctx)
		stop, fed := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(fed)
			for _, t := range certs {
				select {
				case m.IncomingCertChan <- cert(t):
				case <-stop:
					return
				}
			}
			m.Stop()
		}()
		err := m.Wait(ctx)
		close(stop)
		<-fed
		vrt.Touch("ops")
		if w.hit {
			if err == nil {
				return fmt.Errorf("%s failed but ingestion reports success", w.fail)
			}
			if !strings.Contains(err.Error(), w.fail) {
				return fmt.Errorf("%s failed, ingestion reports %v", w.fail, err)
			}
			return pipex.Drained()
		}
		if err != nil {
			return fmt.Errorf("ingestion fails: %v", err)
		}
		expect(want, certs)
		for _, t := range certs {
			c := cert(t)
			for _, n := range c.Names {
				if d := ID(common.SHA256Hash32Bytes([]byte(n))); first[d] == (ID{}) {
					first[d] = c.CertID
				}
			}
		}
		tol, l := w.tolerate(want, w.db.S, first, earlier)
		lost = lost || l
		for d := range first {
			earlier[d] = true
		}
		if a, b := w.db.S.Dump(), tol.Dump(); a != b {
			return fmt.Errorf("run %d: stored:\n%s\nexpected:\n%s", r, a, b)
		}
		for f := range w.created {
			if _, err := os.Stat(f); !errors.Is(err, os.ErrNotExist) {
				return fmt.Errorf("run %d: temporary file left after success", r)
			}
		}
		if w.clean {
			w.db.S.Dirty, want.Dirty = map[ID]bool{}, map[ID]bool{}
		}
	}
	if lost && w.shared {
		return &core.KeyedError{Key: "shared-domain", Err: fmt.Errorf("only the first certificate of a domain was recorded for it: %s", w.db.S.Dump())}
	}
	return pipex.Drained()
}

func main() {
	dir = fmt.Sprintf("%s/files-%d/", cmp.Or(os.Getenv("VERIF_WORK"), os.TempDir()), os.Getpid())
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	hooks()
	var scens []*vrt.Scenario
	add := func(q, d int, c cfg) {
		var prev *world
		scens = append(scens, &vrt.Scenario{
			Name:  fmt.Sprintf("workers=%d batch=%d runs=%v fail=%s clean=%v shared=%v", c.workers, c.batch, c.runs, c.fail, c.clean, c.shared),
			Quick: max(q, 0), Deep: d, OnlyDeep: q < 0, MaxSteps: 200000,
			Body: func() error {
				if prev != nil {
					prev.cleanup()
				}
				w := &world{cfg: c, db: memdb.New(), created: map[string]bool{}, count: map[string]int{}}
				prev = w
				w.db.Point = func(op string) { vrt.Step(op) }
				w.db.Hook = func(step string, write bool) error { return w.at(step) }
				return w.body()
			},
			Outcome: func(r *vrt.Result) string {
				if prev.hit {
					return r.Status.String() + " (with error)"
				}
				return r.Status.String()
			},
		})
	}
	one := []string{"10 a.com", "20 b.com c.com", "30 d.com"}
	two := []string{"10 a.com b.com", "90 e.com c.com", "10 a.com b.com", "a0 d.com"}
	odd := []string{"10 a%cb %qa%q %qx", "90 a%bb a%nb a%q NULL %bN", "b0", "c0 aa.com %s"}
	many := []string{"10 f.com", "11 g.com", "12 h.com", "13 i.com", "14 j.com k.com", "15 l.com"}
	same := []string{"10 a.com b.com", "90 a.com c.com", "10 a.com b.com", "a0 b.com"}
	add(0, 1, cfg{workers: 1, batch: 1, runs: [][]string{{"10 a.com", "20 b.com a.com", "30 a.com"}}, shared: true})
	add(1, 1, cfg{workers: 1, batch: 2, runs: [][]string{{"10 a.com", "20 b.com a.com", "30 a.com"}}})
	add(1, 1, cfg{workers: 2, batch: 1, runs: [][]string{same}})
	add(0, 1, cfg{workers: 2, batch: 2, runs: [][]string{same, same[:2]}, clean: true})
	add(1, 2, cfg{workers: 1, batch: 1, runs: [][]string{one}})
	add(1, 2, cfg{workers: 1, batch: 2, runs: [][]string{one}})
	add(1, 2, cfg{workers: 1, batch: 2, runs: [][]string{many}})
	add(0, 1, cfg{workers: 1, batch: 1, runs: [][]string{many}})
	add(1, 2, cfg{workers: 1, batch: 1, runs: [][]string{{}, one[:1], {}}, clean: true})
	add(0, 1, cfg{workers: 1, batch: 3, runs: [][]string{one, many, one}, clean: true})
	add(1, 1, cfg{workers: 2, batch: 1, runs: [][]string{two[:2]}})
	add(0, 1, cfg{workers: 2, batch: 1, runs: [][]string{two}})
	add(1, 1, cfg{workers: 2, batch: 2, runs: [][]string{two}})
	add(0, 1, cfg{workers: 2, batch: 2, runs: [][]string{odd, two}, clean: true})
	add(0, 1, cfg{workers: 2, batch: 1, runs: [][]string{two, one, two}, clean: true})
	add(0, 1, cfg{workers: 3, batch: 1, runs: [][]string{two, odd}})
	add(0, 1, cfg{workers: 4, batch: 2, runs: [][]string{two, {"ff d.com"}}})
	add(-1, 1, cfg{workers: 5, batch: 1, runs: [][]string{two}})
	for _, f := range []string{"csv-certs", "csv-dirty", "csv-domains", "csv-domain_certs", "create", "write"} {
		for k := 1; k <= 4; k++ {
			q := 0
			switch fmt.Sprintf("%s:%d", f, k) {
			case "csv-certs:1", "csv-domains:2", "create:2", "write:1":
				q = 1
			}
			add(q, 1, cfg{workers: 1, batch: 1, runs: [][]string{one}, fail: fmt.Sprintf("%s:%d", f, k)})
			add(q-1, 1, cfg{workers: 2, batch: 1, runs: [][]string{two}, fail: fmt.Sprintf("%s:%d", f, k)})
		}
	}
	vrt.Main("C07", "every schedule of the bulk ingestion (source, batchers, CSV writers, inserters, removers) for given streams, worker counts, batch sizes and failing operations, with a bounded number of deviations from four base policies", scens, nil)
}
