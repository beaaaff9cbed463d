// Command c08: proof responses produced while the tree is reloaded or updated are self-consistent.
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/mapx"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

var l1, l2, l3, x1 *fix.Cert

func universe() {
	y := func(y int) time.Time { return time.Date(y, 3, 4, 5, 6, 7, 0, time.UTC) }
	root := fix.New("R", "", nil, nil, y(2091))
	l1 = fix.New("L1", "a.com", []string{"w.a.com"}, root, y(2051))
	l2 = fix.New("L2", "", []string{"a.com", "b.com"}, root, y(2042))
	l3 = fix.New("L3", "b.com", nil, root, y(2033))
	x1 = fix.New("X1", "w.a.com", nil, root, y(2020))
}

type world struct {
	ctx  context.Context
	stop func()
	d    *memdb.DB
	s    *mapserver.MapServer
	log  *mapx.Log
	// versions: the roots and entries that were ever published or stored
	versions map[string]map[memdb.ID]memdb.Payload
	updating int // updates in progress
	epoch    int // changes whenever an update starts or ends
}

func newWorld(initial ...*fix.Cert) (*world, error) {
	w := &world{d: memdb.New(), log: &mapx.Log{Name: "https://one/", Batch: 4}, versions: map[string]map[memdb.ID]memdb.Payload{}}
	w.ctx, w.stop = context.WithCancel(context.Background())
	var err error
	w.s, err = mapx.Start(w.ctx, w.d, w.log)
	if err != nil {
		return nil, err
	}
	w.record()
	if len(initial) > 0 {
		if err := w.update(initial...); err != nil {
			return nil, err
		}
	}
	w.d.Point = func(op string) { vrt.Step(op); vrt.Touch("db") }
	return w, nil
}

// record notes the present root and entries as a version of the map.
func (w *world) record() {
	m := map[memdb.ID]memdb.Payload{}
	for k, v := range w.d.S.Payloads {
		m[k] = v
	}
	w.versions[string(mapx.EntriesRoot(w.d.S))] = m
}

func (w *world) update(l ...*fix.Cert) error {
	w.log.Items = append(w.log.Items, l...)
	w.updating++
	w.epoch++
	err := w.s.PruneAndUpdate(w.ctx)
	w.updating--
	w.epoch++
	w.record()
	return err
}

// query asks for a proof and checks the answer.
func (w *world) query(name string, parts ...string) error {
	ep, up := w.epoch, w.updating
	rs, err := w.s.Responder.GetProof(w.ctx, name)
	if err != nil {
		if up > 0 || ep != w.epoch {
			vrt.Log("refused during an update")
			return nil // refusing while an update changes the tree is allowed
		}
		return fmt.Errorf("request for %s failed with no update in progress: %w", name, err)
	}
	answers = append(answers, answer{rs, name, parts})
	return nil
}

type answer struct {
	rs    []*mapCommon.MapServerResponse
	name  string
	parts []string
}

// answers of the execution; they are judged at its end, when all versions are known.
var answers []answer

func (w *world) judge() error {
	for _, a := range answers {
		if len(a.rs) != len(a.parts) {
			return fmt.Errorf("%s: %d answers, expected %d", a.name, len(a.rs), len(a.parts))
		}
		for i, r := range a.rs {
			if r.DomainEntry.DomainName != a.parts[i] {
				return fmt.Errorf("%s: answer %d is about %s", a.name, i, r.DomainEntry.DomainName)
			}
			if !bytes.Equal(r.PoI.Root, a.rs[0].PoI.Root) {
				return fmt.Errorf("%s: the answers of one request have different roots", a.name)
			}
			if err := crypto.VerifySignedBytes(r.PoI.Root, r.TreeHeadSig, &mapx.Key.PublicKey); err != nil {
				return fmt.Errorf("%s: the tree-head signature does not verify for the root of the answer: %w", a.name, err)
			}
			t, ok, err := prover.VerifyProofByDomain(r)
			if err != nil || !ok {
				return fmt.Errorf("%s: the proof for %s does not verify: %v", a.name, r.DomainEntry.DomainName, err)
			}
			v, ok := w.versions[string(r.PoI.Root)]
			if !ok {
				return fmt.Errorf("%s: the root of the answer never was the root of the map", a.name)
			}
			id := memdb.ID(common.SHA256Hash([]byte(a.parts[i])))
			p, has := v[id]
			if has != (t == mapCommon.PoP) {
				return fmt.Errorf("%s: answer of kind %v for %s, whose entry exists in that version: %v", a.name, t, a.parts[i], has)
			}
			if has && (string(r.DomainEntry.CertIDs) != p.CertIDs || string(r.DomainEntry.PolicyIDs) != p.PolicyIDs) {
				return fmt.Errorf("%s: entry of another version of the map for %s", a.name, a.parts[i])
			}
		}
	}
	return nil
}

func spawn(fs ...func() error) error {
	errs := make([]error, len(fs))
	done := make(chan int, len(fs))
	for i, f := range fs {
		go func() {
			errs[i] = f()
			done <- i
		}()
	}
	for range fs {
		<-done
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func scenario(name string, q, d int, initial []*fix.Cert, body func(w *world) []func() error, after func(w *world) error) *vrt.Scenario {
	return &vrt.Scenario{Name: name, Quick: q, Deep: d, NoCache: true, Body: func() error {
		answers = nil
		w, err := newWorld(initial...)
		if err != nil {
			return err
		}
		if err := spawn(body(w)...); err != nil {
			return err
		}
		if after != nil {
			if err := after(w); err != nil {
				return err
			}
		}
		err = w.judge()
		w.stop()
		vrt.Quiesce()
		return err
	}}
}

// failed: one storage step of an update cycle fails; the server answers from the stored tree nevertheless,
// wherever the entries are those of the tree, and the next cycle brings everything up to date.
func failed(name string, initial, added []*fix.Cert, twice bool) *vrt.Scenario {
	names := map[string][]string{"a.com": {"a.com"}, "w.a.com": {"a.com", "w.a.com"}, "b.com": {"b.com"}, "x.com": {"x.com"}, "y.b.com": {"b.com", "y.b.com"}}
	order := []string{"a.com", "b.com", "x.com", "w.a.com", "y.b.com"}
	return &vrt.Scenario{Name: name, Quick: 0, Deep: 1, NoCache: true, Body: func() error {
		answers = nil
		w, err := newWorld(initial...)
		if err != nil {
			return err
		}
		w.d.Point = nil
		n, at, cleaned, hit := vrt.Choose(60), 0, false, ""
		w.d.Hook = func(step string, write bool) error {
			if at++; at == n+1 || twice && at == n+3 {
				if hit == "" {
					hit = step
				}
				return memdb.ErrInjected
			}
			if step == "CleanupDirty" && hit == "" {
				cleaned = true
			}
			return nil
		}
		err = w.update(added...)
		w.d.Hook = nil
		if hit == "" {
			vrt.Log("no such step")
			w.stop()
			vrt.Quiesce()
			return err
		}
		vrt.Log("failing %s", hit)
		if err == nil {
			return fmt.Errorf("the update succeeded although %s failed", hit)
		}
		// the tree that is stored
		var root []byte
		if w.d.S.Root != nil {
			root = w.d.S.Root[:]
		}
		v, ok := w.versions[string(root)]
		if !ok {
			return fmt.Errorf("after the failure of %s the stored root is that of no version of the map", hit)
		}
		for _, q := range order {
			same := !cleaned && !twice
			for _, p := range names[q] {
				id := memdb.ID(common.SHA256Hash([]byte(p)))
				a, hasA := v[id]
				b, hasB := w.d.S.Payloads[id]
				same = same && hasA == hasB && a == b
			}
			if !same {
				w.updating++ // may be refused
			}
			err := w.query(q, names[q]...)
			if !same {
				w.updating--
			}
			if err != nil {
				return fmt.Errorf("after an update whose step %s failed: %w", hit, err)
			}
		}
		if err := w.update(); err != nil {
			return fmt.Errorf("the update after the failed one: %w", err)
		}
		for _, q := range order {
			if err := w.query(q, names[q]...); err != nil {
				return err
			}
			r := answers[len(answers)-1].rs[0]
			if !bytes.Equal(r.PoI.Root, mapx.EntriesRoot(w.d.S)) {
				return fmt.Errorf("the answer after the repeated update does not show the new map")
			}
		}
		err = w.judge()
		w.stop()
		vrt.Quiesce()
		return err
	}}
}

func main() {
	core.Quiet()
	universe()
	if os.Getenv("VERIF_WORK") == "" {
		panic("VERIF_WORK not set")
	}
	mapx.Setup()
	reload := func(w *world) func() error {
		return func() error { return w.s.Responder.ReloadRootAndSignTreeHead(w.ctx, w.s.Key) }
	}
	qa := func(w *world) func() error { return func() error { return w.query("w.a.com", "a.com", "w.a.com") } }
	qb := func(w *world) func() error { return func() error { return w.query("b.com", "b.com") } }
	qx := func(w *world) func() error { return func() error { return w.query("x.com", "x.com") } }
	fresh := func(name string, parts ...string) func(w *world) error {
		return func(w *world) error {
			if err := w.query(name, parts...); err != nil {
				return err
			}
			r := answers[len(answers)-1].rs[0]
			if !bytes.Equal(r.PoI.Root, mapx.EntriesRoot(w.d.S)) {
				return fmt.Errorf("the answer after the update does not show the new map")
			}
			return nil
		}
	}
	scs := []*vrt.Scenario{
		scenario("queries", 2, 3, []*fix.Cert{l1, l2}, func(w *world) []func() error { return []func() error{qa(w), qb(w)} }, nil),
		scenario("query-reload", 2, 3, []*fix.Cert{l1}, func(w *world) []func() error { return []func() error{qa(w), reload(w)} }, nil),
		scenario("query-absent-reload", 2, 3, []*fix.Cert{l1}, func(w *world) []func() error { return []func() error{qx(w), reload(w)} }, nil),
		scenario("query-2reloads", 1, 2, []*fix.Cert{l1, l3}, func(w *world) []func() error { return []func() error{qa(w), reload(w), reload(w)} }, nil),
		scenario("query-update", 1, 2, []*fix.Cert{l1}, func(w *world) []func() error {
			return []func() error{qa(w), func() error { return w.update(l2) }}
		}, fresh("b.com", "b.com")),
		scenario("query-first-update", 1, 2, nil, func(w *world) []func() error {
			return []func() error{qa(w), func() error { return w.update(l1) }}
		}, fresh("a.com", "a.com")),
		scenario("query-prune", 1, 2, []*fix.Cert{l1, x1}, func(w *world) []func() error {
			return []func() error{qa(w), func() error { return w.update() }}
		}, fresh("a.com", "a.com")),
		scenario("2queries-update", 1, 2, []*fix.Cert{l1}, func(w *world) []func() error {
			return []func() error{qa(w), qb(w), func() error { return w.update(l3, l2) }}
		}, fresh("b.com", "b.com")),
		scenario("query-update-stored", 1, 2, []*fix.Cert{l1}, func(w *world) []func() error {
			// the new map is stored by someone else, the reload happens later
			return []func() error{qa(w), func() error {
				w.log.Items = append(w.log.Items, l2)
				w.updating++
				w.epoch++
				_ = w.s.Updater.StartFetchingRemaining()
				for {
					ok, err := w.s.Updater.NextBatch(w.ctx)
					if err != nil {
						return err
					}
					if !ok {
						break
					}
					if _, err := w.s.Updater.UpdateNextBatch(w.ctx); err != nil {
						return err
					}
				}
				if err := w.s.Updater.CoalescePayloadsForDirtyDomains(w.ctx); err != nil {
					return err
				}
				if err := w.s.Updater.UpdateSMT(w.ctx); err != nil {
					return err
				}
				w.record()
				if err := w.s.Responder.ReloadRootAndSignTreeHead(w.ctx, w.s.Key); err != nil {
					return err
				}
				w.updating--
				w.epoch++
				return nil
			}}
		}, fresh("b.com", "b.com")),
		failed("failing-update", []*fix.Cert{l1}, []*fix.Cert{l2}, false),
		failed("failing-first-update", nil, []*fix.Cert{l1, l2}, false),
		failed("failing-update-prune", []*fix.Cert{l1, x1}, []*fix.Cert{l3}, false),
		failed("failing-prune", []*fix.Cert{l1, x1}, nil, false),
		failed("failing-twice", []*fix.Cert{l1}, []*fix.Cert{l2}, true),
	}
	vrt.Main("C08", "all interleavings of proof requests with reloads and update cycles of the real map server, at every storage operation, lock operation and statement of the responder, up to the stated number of deviations", scs, nil)
}
