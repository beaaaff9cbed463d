// Command c09: the answers of the map server match the stored entries and verify; altered answers do not
// lead a client to another conclusion.
package main

import (
	"bytes"
	"context"
	"crypto/rsa"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcclient"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcserver"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/mapx"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

var (
	n      = fix.Namer{}
	leaves []*fix.Cert
	pols   []*fix.Policy
)

func universe() {
	y := func(y int) time.Time { return time.Date(y, 5, 6, 7, 8, 9, 0, time.UTC) }
	root := fix.New("R", "", nil, nil, y(2091))
	ica := fix.New("I", "", nil, root, y(2082))
	leaves = []*fix.Cert{
		fix.New("A", "a.com", []string{"w.a.com"}, ica, y(2051)),
		fix.New("B", "w.a.com", nil, root, y(2042)),
		fix.New("C", "v.w.a.com", []string{"b.co.uk"}, nil, y(2042)),
		fix.New("D", "b.co.uk", nil, ica, y(2033)),
		fix.New("E", "x.b.co.uk", []string{"a.com"}, root, y(2033)),
	}
	pols = []*fix.Policy{fix.NewPolicy("P", "a.com", 1), fix.NewPolicy("Q", "w.a.com", 2), fix.NewPolicy("S", "a.com", 3)}
	n.Certs(root, ica)
	n.Certs(leaves...)
	n.Policies(pols...)
}

// The queried names with the names that have to be answered for, in order.
var queries = []struct {
	q    string
	want []string
}{
	{"a.com", []string{"a.com"}},
	{"w.a.com", []string{"a.com", "w.a.com"}},
	{"v.w.a.com", []string{"a.com", "w.a.com", "v.w.a.com"}},
	{"u.v.w.a.com", []string{"a.com", "w.a.com", "v.w.a.com", "u.v.w.a.com"}},
	{"z.a.com", []string{"a.com", "z.a.com"}},
	{"*.a.com", []string{"a.com"}},
	{"www.a.com", []string{"a.com"}},
	{"*.w.a.com", []string{"a.com", "w.a.com"}},
	{"www.w.a.com", []string{"a.com", "w.a.com"}},
	{"b.co.uk", []string{"b.co.uk"}},
	{"x.b.co.uk", []string{"b.co.uk", "x.b.co.uk"}},
	{"y.x.b.co.uk", []string{"b.co.uk", "x.b.co.uk", "y.x.b.co.uk"}},
	{"none.org", []string{"none.org"}},
	{"a.b.none.org", []string{"none.org", "b.none.org", "a.b.none.org"}},
	// not domain names
	{"", nil}, {"com", nil}, {"co.uk", nil}, {"a..com", nil}, {"a.*.com", nil}, {"-a.com", nil}, {".com", nil}, {"a b.com", nil},
}

func set(ids ...[]byte) string {
	var l []string
	for _, b := range ids {
		if len(b)%32 != 0 {
			return fmt.Sprintf("odd length %d", len(b))
		}
		for i := 0; i < len(b); i += 32 {
			l = append(l, string(b[i:i+32]))
		}
	}
	sort.Strings(l)
	var u []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			u = append(u, s)
		}
	}
	return strings.Join(u, "")
}

// conclusion is what a client that trusts the key and asked about the name learns from an answer; ok is
// false if it rejects it.
func conclusion(key *rsa.PublicKey, name string, r *mapCommon.MapServerResponse) (c string, ok bool) {
	if r.DomainEntry == nil || r.DomainEntry.DomainName != name {
		return "another name", false
	}
	if err := crypto.VerifySignedBytes(r.PoI.Root, r.TreeHeadSig, key); err != nil {
		return "signature", false
	}
	typ, ok, err := prover.VerifyProofByDomain(r)
	if err != nil || !ok {
		return "proof", false
	}
	if typ == mapCommon.PoA {
		return "absent", true
	}
	return "present " + set(r.DomainEntry.CertIDs, r.DomainEntry.PolicyIDs), true
}

type world struct {
	s *mapserver.MapServer
	d *memdb.DB
}

func (w *world) answers(q string, want []string) ([]*mapCommon.MapServerResponse, error) {
	rs, err := w.s.Responder.GetProof(context.Background(), q)
	if want == nil {
		if err == nil {
			return nil, fmt.Errorf("%q is answered with %d proofs", q, len(rs))
		}
		return nil, nil
	}
	if err != nil {
		return nil, fmt.Errorf("query %q: %w", q, err)
	}
	var got []string
	for _, r := range rs {
		got = append(got, r.DomainEntry.DomainName)
	}
	sorted := func(l []string) string { l = append([]string{}, l...); sort.Strings(l); return fmt.Sprint(l) }
	if sorted(got) != sorted(want) {
		return nil, fmt.Errorf("query %q is answered for %v, expected %v", q, got, want)
	}
	for _, r := range rs {
		name := r.DomainEntry.DomainName
		id := memdb.ID(common.SHA256Hash([]byte(name)))
		p, has := w.d.S.Payloads[id]
		c, ok := conclusion(&mapx.Key.PublicKey, name, r)
		if !ok {
			return nil, fmt.Errorf("query %q: the answer for %s is rejected: %s", q, name, c)
		}
		wantC := "absent"
		if has {
			wantC = "present " + set([]byte(p.CertIDs), []byte(p.PolicyIDs))
		}
		if c != wantC {
			return nil, fmt.Errorf("query %q: the client concludes about %s: %.7s, the map has an entry: %v", q, name, c, has)
		}
		if has && (set(r.DomainEntry.CertIDs) != set([]byte(p.CertIDs)) || set(r.DomainEntry.PolicyIDs) != set([]byte(p.PolicyIDs))) {
			return nil, fmt.Errorf("query %q: entry of %s: %s / %s, stored %s / %s", q, name, n.Glued(string(r.DomainEntry.CertIDs)),
				n.Glued(string(r.DomainEntry.PolicyIDs)), n.Glued(p.CertIDs), n.Glued(p.PolicyIDs))
		}
		if r.DomainEntry.DomainID != common.SHA256Hash32Bytes([]byte(name)) {
			return nil, fmt.Errorf("query %q: identifier of %s", q, name)
		}
	}
	return rs, nil
}

func cloneR(r *mapCommon.MapServerResponse) *mapCommon.MapServerResponse {
	c := *r
	e := *r.DomainEntry
	c.DomainEntry = &e
	e.CertIDs = bytes.Clone(e.CertIDs)
	e.PolicyIDs = bytes.Clone(e.PolicyIDs)
	c.PoI.Proof = nil
	for _, p := range r.PoI.Proof {
		c.PoI.Proof = append(c.PoI.Proof, bytes.Clone(p))
	}
	c.PoI.Root, c.PoI.ProofKey, c.PoI.ProofValue = bytes.Clone(r.PoI.Root), bytes.Clone(r.PoI.ProofKey), bytes.Clone(r.PoI.ProofValue)
	c.TreeHeadSig = bytes.Clone(r.TreeHeadSig)
	return &c
}

type edit struct {
	what string
	fn   func(r *mapCommon.MapServerResponse)
}

// edits lists the alterations of one answer. others are honest answers of the same server about other
// names; stale are honest answers of an earlier version of the map.
func edits(r *mapCommon.MapServerResponse, pool []*mapCommon.MapServerResponse) (l []edit) {
	add := func(what string, fn func(r *mapCommon.MapServerResponse)) { l = append(l, edit{what, fn}) }
	type T = *mapCommon.MapServerResponse
	add("kind", func(r T) { r.PoI.ProofType ^= 1 })
	field := func(what string, get func(r T) []byte, put func(r T, b []byte)) {
		v := get(r)
		flip := func(i int) {
			add(fmt.Sprintf("%s bit of byte %d flipped", what, i), func(r T) { b := bytes.Clone(get(r)); b[i] ^= 1; put(r, b) })
		}
		if len(v) > 0 {
			flip(0)
			flip(len(v) - 1)
			add(what+" empty", func(r T) { put(r, nil) })
			add(what+" cut", func(r T) { put(r, get(r)[:len(get(r))-1]) })
			if len(v) >= 32 {
				add(what+" without the last 32 bytes", func(r T) { put(r, get(r)[:len(get(r))-32]) })
				add(what+" without the first 32 bytes", func(r T) { put(r, get(r)[32:]) })
			}
		}
		add(what+" extended by a byte", func(r T) { put(r, append(bytes.Clone(get(r)), 0)) })
		add(what+" extended by 32 bytes", func(r T) { put(r, append(bytes.Clone(get(r)), make([]byte, 32)...)) })
		for i, o := range pool {
			o := o
			if !bytes.Equal(get(o), v) {
				add(fmt.Sprintf("%s of answer %d", what, i), func(r T) { put(r, get(o)) })
			}
		}
	}
	field("root", func(r T) []byte { return r.PoI.Root }, func(r T, b []byte) { r.PoI.Root = b })
	field("signature", func(r T) []byte { return r.TreeHeadSig }, func(r T, b []byte) { r.TreeHeadSig = b })
	field("proof key", func(r T) []byte { return r.PoI.ProofKey }, func(r T, b []byte) { r.PoI.ProofKey = b })
	field("proof value", func(r T) []byte { return r.PoI.ProofValue }, func(r T, b []byte) { r.PoI.ProofValue = b })
	field("certificate ids", func(r T) []byte { return r.DomainEntry.CertIDs }, func(r T, b []byte) { r.DomainEntry.CertIDs = b })
	field("policy ids", func(r T) []byte { return r.DomainEntry.PolicyIDs }, func(r T, b []byte) { r.DomainEntry.PolicyIDs = b })
	arr := func(get func(r T) *common.SHA256Output) (func(r T) []byte, func(r T, b []byte)) {
		return func(r T) []byte { return get(r)[:] }, func(r T, b []byte) { var o common.SHA256Output; copy(o[:], b); *get(r) = o }
	}
	g, p := arr(func(r T) *common.SHA256Output { return &r.DomainEntry.DomainID })
	field("domain id", g, p)
	g, p = arr(func(r T) *common.SHA256Output { return &r.DomainEntry.DomainValue })
	field("domain value", g, p)
	g, p = arr(func(r T) *common.SHA256Output { return &r.DomainEntry.CertIDsID })
	field("id of certificate ids", g, p)
	for i := range r.PoI.Proof {
		i := i
		field(fmt.Sprintf("path[%d]", i), func(r T) []byte {
			if i < len(r.PoI.Proof) {
				return r.PoI.Proof[i]
			}
			return nil
		}, func(r T, b []byte) {
			if i < len(r.PoI.Proof) {
				r.PoI.Proof[i] = b
			}
		})
		add(fmt.Sprintf("path without %d", i), func(r T) { r.PoI.Proof = append(r.PoI.Proof[:i:i], r.PoI.Proof[i+1:]...) })
	}
	add("path empty", func(r T) { r.PoI.Proof = nil })
	add("path longer", func(r T) { r.PoI.Proof = append(r.PoI.Proof, []byte{0}) })
	add("path longer at the front", func(r T) { r.PoI.Proof = append([][]byte{{0}}, r.PoI.Proof...) })
	add("entry without certificates and policies", func(r T) { r.DomainEntry.CertIDs, r.DomainEntry.PolicyIDs = nil, nil })
	add("certificates as policies", func(r T) {
		r.DomainEntry.CertIDs, r.DomainEntry.PolicyIDs = r.DomainEntry.PolicyIDs, r.DomainEntry.CertIDs
	})
	add("all of another kind", func(r T) {
		r.PoI.ProofType ^= 1
		r.PoI.ProofKey, r.PoI.ProofValue = r.DomainEntry.DomainID[:], r.DomainEntry.DomainValue[:]
	})
	for i, o := range pool {
		o := o
		name := func(fn func(r T)) func(r T) { return func(r T) { fn(r) } }
		add(fmt.Sprintf("entry of answer %d", i), name(func(r T) {
			n := r.DomainEntry.DomainName
			e := *o.DomainEntry
			e.DomainName = n
			r.DomainEntry = &e
		}))
		add(fmt.Sprintf("proof of answer %d", i), name(func(r T) { c := cloneR(o); r.PoI = c.PoI }))
		add(fmt.Sprintf("proof and signature of answer %d", i), name(func(r T) { c := cloneR(o); r.PoI = c.PoI; r.TreeHeadSig = c.TreeHeadSig }))
		add(fmt.Sprintf("all but name and id of answer %d", i), name(func(r T) {
			c := cloneR(o)
			n, id := r.DomainEntry.DomainName, r.DomainEntry.DomainID
			*r = *c
			r.DomainEntry.DomainName, r.DomainEntry.DomainID = n, id
		}))
		add(fmt.Sprintf("all but the name of answer %d", i), name(func(r T) {
			c := cloneR(o)
			n := r.DomainEntry.DomainName
			*r = *c
			r.DomainEntry.DomainName = n
		}))
		add(fmt.Sprintf("absence with key and value of answer %d", i), name(func(r T) {
			r.PoI.ProofType = mapCommon.PoA
			r.PoI.ProofKey, r.PoI.ProofValue = o.DomainEntry.DomainID[:], o.DomainEntry.DomainValue[:]
		}))
	}
	return l
}

// content builds the map holding the given leaves and policies, in one or more cycles.
func content(lv, pl int, split int) (*world, func(), error) {
	ctx, cancel := context.WithCancel(context.Background())
	w := &world{d: memdb.New()}
	log := &mapx.Log{Name: "https://one/", Batch: 2}
	w.d.NextBundle = uint64(split)
	var err error
	if w.s, err = mapx.Start(ctx, w.d, log); err != nil {
		return nil, cancel, err
	}
	k := 0
	for i := range pols {
		if pl>>i&1 == 1 {
			p := *pols[i].Doc
			if err := updater.UpdateWithKeepExisting(ctx, w.d, nil, nil, nil, nil, nil, []common.PolicyDocument{&p}); err != nil {
				return nil, cancel, err
			}
		}
	}
	for i := range leaves {
		if lv>>i&1 == 1 {
			log.Items = append(log.Items, leaves[i])
			if k++; split > 0 && k%split == 0 {
				if err := w.s.PruneAndUpdate(ctx); err != nil {
					return nil, cancel, err
				}
			}
		}
	}
	return w, cancel, w.s.PruneAndUpdate(ctx)
}

func name(lv, pl, split int) string {
	s := ""
	for i := range leaves {
		if lv>>i&1 == 1 {
			s += leaves[i].Name
		}
	}
	s += "/"
	for i := range pols {
		if pl>>i&1 == 1 {
			s += pols[i].Name
		}
	}
	return fmt.Sprintf("content %s split %d", s, split)
}

func expect(lv, pl int) *fix.Expect {
	var cs []*fix.Cert
	var ps []*fix.Policy
	for i := range leaves {
		if lv>>i&1 == 1 {
			cs = append(cs, leaves[i])
		}
	}
	for i := range pols {
		if pl>>i&1 == 1 {
			ps = append(ps, pols[i])
		}
	}
	return fix.ExpectOf(cs, ps)
}

// httpChecks compares the answers of the HTTP interface with those of the responder and the store.
func httpChecks(w *world, e *fix.Expect) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	w.s.HttpAPIPort = port
	done := make(chan error, 1)
	go func() { done <- w.s.ListenWithoutTLS(ctx) }()
	tr := &http.Transport{DisableKeepAlives: true}
	cl := &http.Client{Transport: tr, Timeout: 20 * time.Second}
	base := fmt.Sprintf("http://127.0.0.1:%d/", port)
	get := func(path, param, val string) (int, []byte, error) {
		var resp *http.Response
		var err error
		for i := 0; i < 500; i++ {
			resp, err = cl.Get(base + path + "?" + url.Values{param: {val}}.Encode())
			if err == nil {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		if err != nil {
			return 0, nil, err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		return resp.StatusCode, b, err
	}
	err = func() error {
		for _, q := range queries {
			code, body, err := get("getproof", "domain", q.q)
			if err != nil {
				return err
			}
			if q.want == nil {
				if code == 200 {
					return fmt.Errorf("getproof of %q succeeds: %s", q.q, body)
				}
				continue
			}
			if code != 200 {
				return fmt.Errorf("getproof of %q: status %d %s", q.q, code, body)
			}
			var rs []*mapCommon.MapServerResponse
			if err := json.Unmarshal(body, &rs); err != nil {
				return fmt.Errorf("getproof of %q: %w", q.q, err)
			}
			want, err := w.answers(q.q, q.want)
			if err != nil {
				return err
			}
			for i := range want {
				if i >= len(rs) || len(rs) != len(want) {
					return fmt.Errorf("getproof of %q has %d answers, expected %d", q.q, len(rs), len(want))
				}
				c1, ok1 := conclusion(&mapx.Key.PublicKey, want[i].DomainEntry.DomainName, want[i])
				c2, ok2 := conclusion(&mapx.Key.PublicKey, want[i].DomainEntry.DomainName, rs[i])
				if c1 != c2 || ok1 != ok2 {
					return fmt.Errorf("getproof of %q: answer %d differs from that of the responder", q.q, i)
				}
			}
		}
		// payloads
		var certs, polIDs []memdb.ID
		certs = memdb.SortedKeys(e.Certs)
		polIDs = memdb.SortedKeys(e.Policies)
		unknown := memdb.ID(common.SHA256Hash([]byte("nothing")))
		lists := [][]memdb.ID{}
		all := append(append([]memdb.ID{}, certs...), polIDs...)
		for _, x := range all {
			lists = append(lists, []memdb.ID{x})
		}
		rev := make([]memdb.ID, len(all))
		for i, x := range all {
			rev[len(all)-1-i] = x
		}
		lists = append(lists, all, rev, append([]memdb.ID{unknown}, all...), append(append([]memdb.ID{}, all...), all...))
		for _, ids := range lists {
			if len(ids) == 0 {
				continue
			}
			h := ""
			for _, id := range ids {
				h += hex.EncodeToString(id[:])
			}
			for path, tabs := range map[string][]map[memdb.ID]memdb.Object{"getpayloads": {e.Certs, e.Policies}, "getcertpayloads": {e.Certs}, "getpolicypayloads": {e.Policies}} {
				code, body, err := get(path, "ids", h)
				if err != nil {
					return err
				}
				if code != 200 {
					return fmt.Errorf("%s: status %d %s", path, code, body)
				}
				var got [][]byte
				if err := json.Unmarshal(body, &got); err != nil {
					return fmt.Errorf("%s: %w", path, err)
				}
				want := make([][]byte, len(ids))
				for i, id := range ids {
					for _, t := range tabs {
						if o, ok := t[id]; ok {
							want[i] = []byte(o.Payload)
						}
					}
				}
				if len(got) != len(want) {
					return fmt.Errorf("%s: %d payloads for %d identifiers", path, len(got), len(want))
				}
				for i := range want {
					if !bytes.Equal(got[i], want[i]) {
						return fmt.Errorf("%s: payload %d of %d is not that of %s", path, i, len(ids), n.Of(ids[i]))
					}
				}
			}
		}
		for _, bad := range []string{"0", "zz", strings.Repeat("0", 63), strings.Repeat("0", 65), strings.Repeat("z", 64), strings.Repeat("0", 64) + "00"} {
			for _, path := range []string{"getpayloads", "getcertpayloads", "getpolicypayloads"} {
				code, body, err := get(path, "ids", bad)
				if err != nil {
					return err
				}
				if code == 200 {
					return fmt.Errorf("%s of %q succeeds: %s", path, bad, body)
				}
			}
		}
		return nil
	}()
	w.s.Shutdown(ctx)
	select {
	case e := <-done:
		if err == nil && e != nil {
			err = fmt.Errorf("the listener ends with %w", e)
		}
	case <-time.After(30 * time.Second):
		if err == nil {
			err = fmt.Errorf("the listener does not end after a shutdown")
		}
	}
	return err
}

// grpcChecks does the same for the gRPC interface.
func grpcChecks(w *world) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	g, err := grpcserver.NewGRPCServer(ctx, w.d, mapx.Key)
	if err != nil {
		return err
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	ch, done := make(chan byte, 1), make(chan error, 1)
	go func() { done <- g.StartWork(ch, port) }()
	for i := 0; i < 1000; i++ {
		if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
			c.Close()
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	err = func() error {
		for _, q := range queries {
			rs, err := grpcclient.GetProofs(q.q, port)
			if q.want == nil {
				if err == nil {
					return fmt.Errorf("gRPC query of %q succeeds with %d answers", q.q, len(rs))
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("gRPC query of %q: %w", q.q, err)
			}
			want, err := w.answers(q.q, q.want)
			if err != nil {
				return err
			}
			for i := range want {
				if len(rs) != len(want) {
					return fmt.Errorf("gRPC query of %q has %d answers, expected %d", q.q, len(rs), len(want))
				}
				c1, ok1 := conclusion(&mapx.Key.PublicKey, want[i].DomainEntry.DomainName, want[i])
				c2, ok2 := conclusion(&mapx.Key.PublicKey, want[i].DomainEntry.DomainName, rs[i])
				if c1 != c2 || ok1 != ok2 {
					return fmt.Errorf("gRPC query of %q: answer %d differs from that of the responder", q.q, i)
				}
			}
		}
		return nil
	}()
	ch <- 1
	select {
	case e := <-done:
		if err == nil {
			err = e
		}
	case <-time.After(30 * time.Second):
		if err == nil {
			err = fmt.Errorf("the gRPC server does not end")
		}
	}
	return err
}

func main() {
	core.Quiet()
	log.SetOutput(io.Discard)
	r := core.Start("C09", "exploration")
	r.Rule = "all subsets of 5 certificates and 3 policies crossed with all names of the hierarchy; for every answer all single alterations (thorough: pairs); the HTTP and gRPC interfaces on a subset of the contents"
	universe()
	mapx.Setup()
	type job struct{ lv, pl, split int }
	var jobs []job
	for lv := 0; lv < 1<<len(leaves); lv++ {
		for pl := 0; pl < 1<<len(pols); pl++ {
			jobs = append(jobs, job{lv, pl, (lv + pl) % 3})
			if r.Thorough() {
				jobs = append(jobs, job{lv, pl, (lv + pl + 1) % 3})
			}
		}
	}
	r.Parallel("contents", len(jobs), func(i int) {
		j := jobs[i]
		var w *world
		var stop func()
		var pool []*mapCommon.MapServerResponse
		if !r.Case(name(j.lv, j.pl, j.split), nil, func() (err error) {
			if stop != nil {
				stop()
			}
			if w, stop, err = content(j.lv, j.pl, j.split); err != nil {
				return err
			}
			if err := n.CompareEntries(w.d.S, expect(j.lv, j.pl)); err != nil {
				return err
			}
			pool = nil
			seen := map[string]bool{}
			for _, q := range queries {
				rs, err := w.answers(q.q, q.want)
				if err != nil {
					return err
				}
				for _, x := range rs {
					if !seen[x.DomainEntry.DomainName] {
						seen[x.DomainEntry.DomainName] = true
						pool = append(pool, x)
					}
				}
			}
			return nil
		}) {
			return
		}
		defer stop()
		r.Distinct.Add(1)
		// alterations
		old, stop2, err := content(j.lv/2, j.pl, 0)
		if err != nil {
			r.InternalError("%v", err)
			return
		}
		defer stop2()
		var mix []*mapCommon.MapServerResponse
		mix = append(mix, pool...)
		for _, q := range queries {
			if rs, err := old.answers(q.q, q.want); err == nil {
				for _, x := range rs {
					if !bytes.Equal(x.PoI.Root, pool[0].PoI.Root) && len(mix) < len(pool)+6 {
						mix = append(mix, x)
					}
				}
			}
		}
		for _, a := range pool {
			es := edits(a, mix)
			truth, _ := conclusion(&mapx.Key.PublicKey, a.DomainEntry.DomainName, a)
			try := func(what string, b *mapCommon.MapServerResponse) {
				r.States.Add(1)
				if reflect.DeepEqual(a, b) {
					return
				}
				// An honest answer of the earlier version is a valid statement about that version: what a
				// client concludes is then judged against that one.
				key := fmt.Sprintf("%s answer for %s: %s", name(j.lv, j.pl, j.split), a.DomainEntry.DomainName, what)
				var c string
				var ok bool
				if err := core.Safe(func() error { c, ok = conclusion(&mapx.Key.PublicKey, a.DomainEntry.DomainName, b); return nil }); err != nil {
					r.Case(key, nil, func() error { conclusion(&mapx.Key.PublicKey, a.DomainEntry.DomainName, b); return nil })
					return
				}
				if !ok {
					r.Outcome("rejected: " + c)
					return
				}
				want := truth
				if !bytes.Equal(b.PoI.Root, a.PoI.Root) {
					p, has := old.d.S.Payloads[memdb.ID(common.SHA256Hash([]byte(a.DomainEntry.DomainName)))]
					want = "absent"
					if has {
						want = "present " + set([]byte(p.CertIDs), []byte(p.PolicyIDs))
					}
				}
				if c != want {
					r.Case(key, nil, func() error {
						return fmt.Errorf("the altered answer is accepted and says %.7s %d, the map says %.7s %d", c, len(c), want, len(want))
					})
					return
				}
				r.Outcome("same conclusion")
			}
			for _, e := range es {
				b := cloneR(a)
				e.fn(b)
				try(e.what, b)
			}
			if r.Thorough() && j.split == 0 || j.lv <= 1 && j.pl <= 1 && j.split == 0 {
				for x := range es {
					for y := range es {
						if x != y {
							b := cloneR(a)
							if core.Safe(func() error { es[x].fn(b); es[y].fn(b); return nil }) != nil {
								continue
							}
							try(es[x].what+" + "+es[y].what, b)
						}
					}
					if r.Expired("alteration pairs") {
						return
					}
				}
			}
		}
	})
	// The HTTP interface uses global state: one server at a time.
	step := r.Pick(5, 1)
	for i := 0; i < len(jobs) && !r.Stop(); i += step {
		j := jobs[i]
		r.Case("network "+name(j.lv, j.pl, j.split), nil, func() error {
			w, stop, err := content(j.lv, j.pl, j.split)
			defer stop()
			if err != nil {
				return err
			}
			if err := grpcChecks(w); err != nil {
				return err
			}
			return httpChecks(w, expect(j.lv, j.pl))
		})
		if r.Expired("http") {
			break
		}
	}
	r.Assume("storage behaves like the relational model memdb, which check C11 binds to the MySQL implementation")
	r.Assume("SHA-256 collisions and RSA forgeries do not occur; identifiers of an entry count as one set, a client resolves them by their hash")
	r.Finish()
}
