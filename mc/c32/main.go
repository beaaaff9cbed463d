// Command c32: the client of the policy log adds every entry once and returns proofs that verify.
package main

import (
	"bytes"
	"cmp"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
	rpcstatus "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/pkg/policylog/client"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/ctlog"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/rfc"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

const tree = 77

// server is a log server that answers as Trillian does, with planned faults.
type server struct {
	trillian.TrillianLogClient // the calls that are not expected

	leaves  []string // integrated
	pending []string // accepted, not yet integrated
	slow    int      // pending entries get integrated at every slow-th request for the root (0: at once)
	growAt  int      // another client's entry gets integrated at this request (0: never)

	plan     map[string]string // "op data" -> kinds of the successive answers
	queued   map[string]int
	asked    map[string]int
	lost     map[string]bool // queued although an error was returned
	dead     map[string]bool // a permanent fault was planned and reported
	known    int             // the size that the client knows
	requests int
	roots    int
	problems []string
	wide     bool // requests by several goroutines
}

func newServer(leaves ...string) *server {
	return &server{leaves: leaves, plan: map[string]string{}, queued: map[string]int{}, asked: map[string]int{}, lost: map[string]bool{}, dead: map[string]bool{}}
}

func (l *server) problem(f string, a ...any) { l.problems = append(l.problems, fmt.Sprintf(f, a...)) }

// at returns the planned kind of answer; the last kind of a plan that ends in * stays.
func (l *server) at(ctx context.Context, id int64, op, data string) (string, error) {
	vrt.Step(op)
	vrt.Touch("log")
	if id != tree {
		l.problem("request for tree %d", id)
	}
	l.requests++
	if l.requests == l.growAt {
		l.leaves = append(l.leaves, "other")
	}
	if err := ctx.Err(); err != nil {
		return "", status.FromContextError(err).Err()
	}
	key := op + " " + data
	kinds := strings.Fields(l.plan[key])
	n := l.asked[key]
	l.asked[key]++
	if n < len(kinds) {
		return strings.TrimSuffix(kinds[n], "*"), nil
	}
	if len(kinds) > 0 && strings.HasSuffix(kinds[len(kinds)-1], "*") {
		return strings.TrimSuffix(kinds[len(kinds)-1], "*"), nil
	}
	return "ok", nil
}

func failure(op, data string) error { return status.Errorf(codes.Internal, "planned: %s %s", op, data) }

func hashes(leaves []string) [][]byte {
	var out [][]byte
	for _, x := range leaves {
		out = append(out, rfc.LeafHash(x))
	}
	return out
}

func (l *server) root() *trillian.SignedLogRoot {
	b, err := (&types.LogRootV1{TreeSize: uint64(len(l.leaves)), RootHash: rfc.MTH(hashes(l.leaves)), TimestampNanos: 5}).MarshalBinary()
	if err != nil {
		panic(err)
	}
	return &trillian.SignedLogRoot{LogRoot: b}
}

func (l *server) QueueLeaf(ctx context.Context, in *trillian.QueueLeafRequest, _ ...grpc.CallOption) (*trillian.QueueLeafResponse, error) {
	data := string(in.Leaf.LeafValue)
	kind, err := l.at(ctx, in.LogId, "queue", data)
	if err != nil {
		return nil, err
	}
	l.queued[data]++
	if kind == "err" {
		return nil, failure("queue", data)
	}
	st := &rpcstatus.Status{}
	if slices.Contains(l.leaves, data) || slices.Contains(l.pending, data) {
		st.Code = int32(codes.AlreadyExists)
	} else if l.slow == 0 {
		l.leaves = append(l.leaves, data)
	} else {
		l.pending = append(l.pending, data)
	}
	if kind == "lost" {
		l.lost[data] = true
		return nil, failure("queue", data)
	}
	if kind == "bare" && st.Code == 0 {
		return &trillian.QueueLeafResponse{}, nil
	}
	return &trillian.QueueLeafResponse{QueuedLeaf: &trillian.QueuedLogLeaf{Leaf: in.Leaf, Status: st}}, nil
}

func (l *server) GetLatestSignedLogRoot(ctx context.Context, in *trillian.GetLatestSignedLogRootRequest, _ ...grpc.CallOption) (*trillian.GetLatestSignedLogRootResponse, error) {
	kind, err := l.at(ctx, in.LogId, "root", "")
	if err != nil {
		return nil, err
	}
	l.roots++
	if l.slow > 0 && l.roots%l.slow == 0 && len(l.pending) > 0 {
		l.leaves = append(l.leaves, l.pending[0])
		l.pending = l.pending[1:]
	}
	switch kind {
	case "err":
		return nil, failure("root", "")
	case "none":
		return &trillian.GetLatestSignedLogRootResponse{}, nil
	case "bad":
		return &trillian.GetLatestSignedLogRootResponse{SignedLogRoot: &trillian.SignedLogRoot{LogRoot: []byte("no root")}}, nil
	}
	if in.FirstTreeSize > int64(len(l.leaves)) {
		return nil, status.Errorf(codes.InvalidArgument, "first tree size %d", in.FirstTreeSize)
	}
	return &trillian.GetLatestSignedLogRootResponse{SignedLogRoot: l.root()}, nil
}

func (l *server) GetInclusionProofByHash(ctx context.Context, in *trillian.GetInclusionProofByHashRequest, _ ...grpc.CallOption) (*trillian.GetInclusionProofByHashResponse, error) {
	data := "?"
	for _, x := range universe {
		if bytes.Equal(rfc.LeafHash(x), in.LeafHash) {
			data = x
		}
	}
	kind, err := l.at(ctx, in.LogId, "proof", data)
	if err != nil {
		return nil, err
	}
	if data == "?" {
		l.problem("request of a proof for the unknown entry %x", in.LeafHash)
	}
	ok := &trillian.GetInclusionProofByHashResponse{SignedLogRoot: l.root()}
	switch kind {
	case "err":
		return nil, failure("proof", data)
	case "missing":
		return nil, status.Errorf(codes.NotFound, "planned: proof %s", data)
	case "grow": // another client's entry is integrated just before
		l.leaves = append(l.leaves, "other")
		ok.SignedLogRoot = l.root()
	case "empty":
		return ok, nil
	case "none":
		ok.SignedLogRoot = nil
	case "bad":
		ok.SignedLogRoot.LogRoot = []byte("no root")
	}
	if in.TreeSize <= 0 {
		return nil, status.Errorf(codes.InvalidArgument, "tree size %d", in.TreeSize)
	}
	if in.TreeSize > int64(len(l.leaves)) {
		return nil, status.Errorf(codes.InvalidArgument, "tree size %d of %d", in.TreeSize, len(l.leaves))
	}
	d := hashes(l.leaves[:in.TreeSize])
	for i, x := range l.leaves[:in.TreeSize] {
		if x == data {
			ok.Proof = append(ok.Proof, &trillian.Proof{LeafIndex: int64(i), Hashes: rfc.Path(uint64(i), d)})
		}
	}
	if len(ok.Proof) == 0 {
		return nil, status.Errorf(codes.NotFound, "no entry %s in tree size %d", data, in.TreeSize)
	}
	return ok, nil
}

func (l *server) GetConsistencyProof(ctx context.Context, in *trillian.GetConsistencyProofRequest, _ ...grpc.CallOption) (*trillian.GetConsistencyProofResponse, error) {
	kind, err := l.at(ctx, in.LogId, "consistency", "")
	if err != nil {
		return nil, err
	}
	m, n := in.FirstTreeSize, in.SecondTreeSize
	switch {
	case kind == "err":
		return nil, failure("consistency", "")
	case m <= 0 || n < m:
		return nil, status.Errorf(codes.InvalidArgument, "sizes %d, %d", m, n)
	case n > int64(len(l.leaves)) || kind == "none":
		return &trillian.GetConsistencyProofResponse{SignedLogRoot: l.root()}, nil
	}
	return &trillian.GetConsistencyProofResponse{SignedLogRoot: l.root(), Proof: &trillian.Proof{Hashes: rfc.Consistency(uint64(m), hashes(l.leaves[:n]), true)}}, nil
}

// universe are the entries that clients use.
var universe = []string{"a", "b", "c", "d", "", "other"}

func newClient(l *server, workers int, size int, dir string) *client.LogClient {
	c := &client.LogClient{}
	var pool []trillian.TrillianLogClient
	for range workers {
		pool = append(pool, l)
	}
	if !ctlog.SetField(c, "worker", pool) || !ctlog.SetField(c, "currentTreeSize", int64(size)) || !ctlog.SetField(c, "config", &client.LogClientConfig{PolicyLogExchangePath: dir}) {
		panic("the client has no such field")
	}
	c.SetTreeId(tree)
	return c
}

func name(data string) string { return base64.URLEncoding.EncodeToString(rfc.LeafHash(data)) }

func bytesOf(data []string) (out [][]byte) {
	for _, x := range data {
		out = append(out, []byte(x))
	}
	return
}

func count(l []string) map[string]int {
	m := map[string]int{}
	for _, x := range l {
		m[x]++
	}
	return m
}

func same(a, b map[string]int) bool {
	for k := range a {
		if a[k] != b[k] {
			return false
		}
	}
	for k := range b {
		if a[k] != b[k] {
			return false
		}
	}
	return true
}

var verifier = logverifier.NewLogVerifier(nil)

// added judges the result of adding data. cancelled: errors may be due to the end of the context.
func (l *server) added(data []string, failed [][]byte, errs []error, cancelled bool) error {
	if len(failed) != len(errs) {
		return fmt.Errorf("%d failed entries %q with %d errors %v", len(failed), failed, len(errs), errs)
	}
	want, got := count(data), map[string]int{}
	for i, f := range failed {
		err := errs[i]
		switch {
		case err == nil:
			return fmt.Errorf("entry %q failed without an error", f)
		case errors.Is(err, context.Canceled) || status.Code(err) == codes.Canceled:
			if !cancelled {
				return fmt.Errorf("entry %q failed: %v", f, err)
			}
			want[string(f)]-- // it did not reach the log
		case err.Error() != failure("queue", string(f)).Error():
			return fmt.Errorf("entry %q failed with the error of another one: %v", f, err)
		}
		got[string(f)]++
	}
	if !same(l.queued, want) {
		return fmt.Errorf("the entries %q were sent as %v; %q failed", data, l.queued, failed)
	}
	for _, x := range data {
		kinds := strings.Fields(l.plan["queue "+x])
		n := 0
		for i, k := range kinds {
			if i < want[x] && (k == "err" || k == "lost") {
				n++
			}
		}
		if !cancelled && got[x] != n {
			return fmt.Errorf("entry %q is reported as failed %d times, the log reported %d failures", x, got[x], n)
		}
	}
	return nil
}

// fetched judges the proofs returned for data.
func (l *server) fetched(data []string, proofs map[string]*client.PoIAndSTH, failed [][]byte, names []string, errs []error, cancelled bool) error {
	if len(failed) != len(errs) || len(failed) != len(names) {
		return fmt.Errorf("%d failed entries, %d names, %d errors", len(failed), len(names), len(errs))
	}
	left := count(data)
	for i, f := range failed {
		x := string(f)
		if left[x] == 0 {
			return fmt.Errorf("entry %q is reported as failed, of %q", x, data)
		}
		left[x]--
		if names[i] != name(x) {
			return fmt.Errorf("entry %q failed under the name %s", x, names[i])
		}
		if errs[i] == nil {
			return fmt.Errorf("entry %q failed without an error", x)
		}
		if cancelled && status.Code(errs[i]) == codes.Canceled {
			continue
		}
		if !l.mayFail(x) {
			return fmt.Errorf("no proof of entry %q: %v", x, errs[i])
		}
		if e := errs[i].Error(); strings.Contains(e, "planned") && !strings.HasSuffix(e, "proof "+x) {
			return fmt.Errorf("entry %q failed with the error of another one: %v", x, errs[i])
		}
	}
	for x, n := range left {
		p := proofs[name(x)]
		if n == 0 {
			continue // all of them failed; a proof of an earlier one cannot be expected
		}
		if p == nil {
			return fmt.Errorf("entry %q has no proof and is not reported as failed (%v)", x, errs)
		}
	}
	for k, p := range proofs {
		x := "?"
		for y := range left {
			if name(y) == k {
				x = y
			}
		}
		if x == "?" || p == nil {
			return fmt.Errorf("a proof under the name %s for %q", k, data)
		}
		size := int(p.STH.TreeSize)
		if size > len(l.leaves) || !bytes.Equal(p.STH.RootHash, rfc.MTH(hashes(l.leaves[:size]))) {
			return fmt.Errorf("entry %q: the root for size %d is not one of the log", x, size)
		}
		if len(p.PoIs) == 0 {
			return fmt.Errorf("entry %q: no proofs", x)
		}
		for _, q := range p.PoIs {
			if q.LeafIndex < 0 || int(q.LeafIndex) >= size || !bytes.Equal(rfc.Included(uint64(q.LeafIndex), uint64(size), rfc.LeafHash(x), q.Hashes), p.STH.RootHash) {
				return fmt.Errorf("entry %q: the proof for index %d does not verify under the returned root for size %d", x, q.LeafIndex, size)
			}
		}
		if err := verifier.VerifyInclusionByHash(&p.STH, verifier.HashLeaf([]byte(x)), p.PoIs); err != nil {
			return fmt.Errorf("entry %q: the proof is not accepted: %v", x, err)
		}
	}
	for k, n := range l.asked {
		if strings.HasPrefix(k, "proof ") && n > 15*count(data)[k[6:]] {
			return fmt.Errorf("%d requests: %s", n, k)
		}
	}
	return nil
}

// mayFail reports whether the proof of x may be missing.
func (l *server) mayFail(x string) bool {
	for _, k := range strings.Fields(l.plan["proof "+x]) {
		if k == "err" || k == "none" || k == "bad" || strings.HasSuffix(k, "*") {
			return true
		}
	}
	for _, kinds := range l.plan { // the log outgrows every request
		if strings.HasSuffix(kinds, "grow*") {
			return true
		}
	}
	return !slices.Contains(l.leaves[:min(l.known, len(l.leaves))], x)
}

type cfg struct {
	workers int
	log     string // entries already in the log
	data    string // entries to add
	size    int    // the size the client knows
	slow    int
	grow    int
	plans   []string // "op data: kinds"; "|" separates alternatives, all of which are explored
	cancel  bool
	op      string
	files   string // kinds of RPC files
}

func fields(s string) []string {
	l := strings.Fields(s)
	for i := range l {
		if l[i] == "-" {
			l[i] = "" // the empty entry
		}
	}
	return l
}

func (c cfg) String() string {
	return fmt.Sprintf("%s workers=%d log=[%s] data=[%s] size=%d slow=%d grow=%d cancel=%v %s %q", c.op, c.workers, c.log, c.data, c.size, c.slow, c.grow, c.cancel, c.files, c.plans)
}

func (c cfg) setup() (*server, context.Context, func()) {
	l := newServer(fields(c.log)...)
	l.slow, l.growAt = c.slow, c.grow
	for _, p := range c.plans {
		key, kinds, _ := strings.Cut(p, ":")
		alt := strings.Split(kinds, "|")
		l.plan[key] = alt[vrt.Choose(len(alt))]
	}
	ctx, cancel := context.WithCancel(context.Background())
	if c.cancel {
		vrt.Go(func() {
			vrt.Step("cancel")
			vrt.Touch("log")
			cancel()
		})
	}
	return l, ctx, cancel
}

func (l *server) end(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if len(l.problems) > 0 {
		return errors.New(strings.Join(l.problems, "; "))
	}
	return nil
}

func (c cfg) body() error {
	l, ctx, cancel := c.setup()
	defer cancel()
	data := fields(c.data)
	cl := newClient(l, c.workers, c.size, "")
	if strings.Contains(c.op, "add") {
		r := cl.AddLeaves(ctx, bytesOf(data))
		if r == nil {
			return errors.New("no result")
		}
		if err := l.end(l.added(data, r.FailedLeaves, r.Errs, c.cancel)); err != nil {
			return err
		}
	}
	if strings.Contains(c.op, "size") {
		err := cl.UpdateTreeSize(ctx)
		if kind := l.plan["root "]; (err != nil) != (kind != "") && !c.cancel {
			return fmt.Errorf("size of the log with %q: %v", kind, err)
		}
	}
	if strings.Contains(c.op, "fetch") {
		l.known = c.size
		if strings.Contains(c.op, "size") && l.plan["root "] == "" {
			l.known = len(l.leaves)
		}
		r := cl.FetchInclusions(ctx, bytesOf(data))
		if r == nil {
			return errors.New("no result")
		}
		if err := l.end(l.fetched(data, r.PoIs, r.FailedLeaves, r.FailedLeavesName, r.Errs, c.cancel)); err != nil {
			return err
		}
	}
	return l.end()
}

// roots follows a growing log and verifies every step.
func (c cfg) rootsBody() error {
	l, ctx, cancel := c.setup()
	defer cancel()
	all := l.leaves
	cl := newClient(l, 1, 0, "")
	var old *types.LogRootV1
	for n := range len(all) + 1 {
		l.leaves = all[:n]
		root, err := cl.GetCurrentLogRoot(ctx)
		if kinds := strings.Fields(l.plan["root "]); n < len(kinds) && kinds[n] != "ok" {
			if err == nil {
				return fmt.Errorf("root of a log that answers %s: %v", kinds[n], root)
			}
			continue
		} else if err != nil {
			return err
		}
		if int(root.TreeSize) != n || !bytes.Equal(root.RootHash, rfc.MTH(hashes(l.leaves))) {
			return fmt.Errorf("root of %d entries is %v", n, root)
		}
		if old != nil && old.TreeSize > 0 {
			asked := l.asked["consistency "]
			p, err := cl.GetConsistencyProof(ctx, old, root)
			if kinds := strings.Fields(l.plan["consistency "]); asked < len(kinds) && kinds[asked] != "ok" {
				if err == nil {
					return fmt.Errorf("consistency proof of a log that answers %s: %v", kinds[asked], p)
				}
			} else if err != nil {
				return err
			} else if _, err := verifier.VerifyRoot(old, root, p); err != nil {
				return fmt.Errorf("root of %d entries after %d: %v", n, old.TreeSize, err)
			}
			// A log server that is behind.
			l.leaves = all[:n-1]
			if p, err := cl.GetConsistencyProof(ctx, old, root); err == nil && n > 0 && int(old.TreeSize) < n {
				return fmt.Errorf("consistency proof of a server with %d of %d entries: %v", n-1, n, p)
			}
		}
		old = root
	}
	return l.end()
}

var policies = map[string]*fix.Policy{"p": fix.NewPolicy("p", "p.com", 1), "q": fix.NewPolicy("q", "q.com", 2), "r": fix.NewPolicy("r", "r.com", 3)}

// queueBody queues RPC files and fetches their proofs.
func (c cfg) queueBody(base string) error {
	dir, err := os.MkdirTemp(base, "rpc")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	rpc := filepath.Join(dir, "rpc")
	if err := os.Mkdir(rpc, 0o777); err != nil {
		return err
	}
	var data []string
	broken := false
	for i, f := range strings.Fields(c.files) {
		p := policies[f]
		path := filepath.Join(rpc, fmt.Sprint("file", i))
		if p == nil {
			broken = true
			err = os.WriteFile(path, []byte(`{"T":`), 0o666)
		} else {
			data = append(data, p.Payload)
			err = common.ToJSONFile(p.Doc, path)
		}
		if err != nil {
			return err
		}
	}
	text := func(s string) string {
		for k, p := range policies {
			s = strings.ReplaceAll(s, "<"+k+">", p.Payload)
		}
		return s
	}
	l, ctx, cancel := c.setup()
	defer cancel()
	for k, v := range maps.Clone(l.plan) { // plans name the policy
		if op, x, ok := strings.Cut(k, " "); ok && policies[x] != nil {
			delete(l.plan, k)
			l.plan[op+" "+policies[x].Payload] = v
		}
	}
	for i := range l.leaves {
		l.leaves[i] = text(l.leaves[i])
	}
	cl := newClient(l, c.workers, c.size, dir)
	r, err := cl.QueueRPCs(ctx)
	files, rerr := os.ReadDir(rpc)
	if rerr != nil {
		return rerr
	}
	rootFault := l.plan["root "] != ""
	if err != nil {
		switch {
		case broken, rootFault, c.cancel:
		default:
			return fmt.Errorf("error without a reason: %w", err)
		}
		if len(l.queued) == 0 && !c.cancel && len(files) != len(strings.Fields(c.files)) {
			return fmt.Errorf("nothing was queued (%v), but only %d files are left", err, len(files))
		}
		if broken && len(l.queued) != 0 {
			return fmt.Errorf("%v was queued, %v", l.queued, err)
		}
		return l.end()
	}
	if broken {
		return errors.New("a broken file is not reported")
	}
	if len(files) != 0 {
		return fmt.Errorf("%d files are left", len(files))
	}
	if rootFault && !strings.HasPrefix(l.plan["root "], "ok ok ok ok") {
		return fmt.Errorf("success although the root is %s", l.plan["root "])
	}
	if r.NumOfSucceedAddedLeaves != len(data)-len(r.FailToAddLeaves) || r.NumOfRetrievedLeaves > len(data) || r.NumOfRetrievedLeaves+len(r.FailToRetrievedLeaves) > len(data) {
		return fmt.Errorf("of %d entries %d were added, %d not; %d retrieved, %d not", len(data), r.NumOfSucceedAddedLeaves, len(r.FailToAddLeaves), r.NumOfRetrievedLeaves, len(r.FailToRetrievedLeaves))
	}
	if err := l.added(data, r.FailToAddLeaves, r.AddLeavesErrs, c.cancel); err != nil {
		return err
	}
	// Everything that was added is integrated when the proofs are fetched, unless others added as well.
	l.known = len(l.leaves)
	for _, x := range l.pending {
		if len(l.lost) == 0 && !c.cancel && c.grow == 0 {
			return fmt.Errorf("the entry %q was accepted, but its integration was not awaited", x)
		}
	}
	failed := count(nil)
	for i, f := range r.FailToRetrievedLeaves {
		failed[string(f)]++
		if x := string(f); r.FailToRetrieveLeavesName[i] != name(x) || r.RetrieveLeavesErrs[i] == nil {
			return fmt.Errorf("entry %q failed under the name %s with %v", x, r.FailToRetrieveLeavesName[i], r.RetrieveLeavesErrs[i])
		}
		if !l.mayFail(string(f)) && !c.cancel && c.grow == 0 {
			return fmt.Errorf("no proof of %s: %v", f, r.RetrieveLeavesErrs[i])
		}
	}
	distinct := len(count(data))
	if r.NumOfRetrievedLeaves+len(failed) != distinct {
		return fmt.Errorf("of %d distinct entries %d were retrieved, %d not", distinct, r.NumOfRetrievedLeaves, len(failed))
	}
	return l.end()
}

func main() {
	core.Quiet()
	base := fmt.Sprintf("%s/rpc-%d", cmp.Or(os.Getenv("VERIF_WORK"), os.TempDir()), os.Getpid())
	if err := os.MkdirAll(base, 0o777); err != nil {
		panic(err)
	}
	for _, p := range policies {
		universe = append(universe, p.Payload)
	}
	var scens []*vrt.Scenario
	add := func(q, d int, c cfg) {
		s := &vrt.Scenario{Name: c.String(), Quick: max(q, 0), OnlyDeep: q < 0, Deep: d, MaxSteps: 100000, Body: c.body,
			Outcome: func(r *vrt.Result) string { return c.op + " " + r.Status.String() }}
		switch c.op {
		case "roots":
			s.Body = c.rootsBody
		case "queue":
			s.Body = func() error { return c.queueBody(base) }
		}
		scens = append(scens, s)
	}
	qa := "queue a:|err|lost|bare"
	qb := "queue b:|err|lost|bare"
	for w := 1; w <= 3; w++ {
		add(3, 5, cfg{op: "add", workers: w})
		add(3, 5, cfg{op: "add", workers: w, data: "a", plans: []string{qa}})
		add(3, 5, cfg{op: "add", workers: w, data: "a b", plans: []string{qa, qb}})
		add(2, 4, cfg{op: "add", workers: w, data: "a b c", plans: []string{qa, "queue c:|err"}})
		add(2, 4, cfg{op: "add", workers: w, data: "a - a b", plans: []string{"queue a:|err|ok err|err err", "queue :|err"}})
		add(2, 4, cfg{op: "add", workers: w, data: "a b c", plans: []string{qa}, cancel: true})
	}
	pa := "proof a:|err|missing|missing missing|missing*|empty|empty*|none|bad|grow|grow*|grow missing grow"
	pb := "proof b:|err|missing|missing*|empty*|bad|grow"
	for w := 1; w <= 3; w++ {
		add(3, 5, cfg{op: "fetch", workers: w, log: "a", size: 1})
		add(2, 4, cfg{op: "fetch", workers: w, log: "a", size: 1, data: "a", plans: []string{pa}})
		add(1, 3, cfg{op: "fetch", workers: w, log: "b a c", size: 3, data: "a b", plans: []string{pa, pb}})
		add(2, 4, cfg{op: "fetch", workers: w, log: "b a c a b", size: 3, data: "a b c"})
		add(2, 4, cfg{op: "fetch", workers: w, log: "b a c", size: 2, data: "a d c", plans: []string{pa}})
		add(2, 4, cfg{op: "fetch", workers: w, log: "b - a", size: 3, data: "a - a"})
		add(2, 4, cfg{op: "fetch", workers: w, log: "b a", size: 0, data: "a b"})
		add(2, 4, cfg{op: "fetch", workers: w, log: "b a c", size: 3, data: "a b d", cancel: true, plans: []string{"proof b:|missing*"}})
		for g := 1; g <= 3; g++ {
			add(2, 4, cfg{op: "fetch", workers: w, log: "b a c", size: 3, data: "a b", grow: g})
		}
		add(2, 4, cfg{op: "add size fetch", workers: w, log: "d", data: "a b c", plans: []string{"root :|err|none|bad"}})
	}
	add(1, 2, cfg{op: "roots", log: "a b c d a b c d a b", plans: []string{"root :|err|ok err none bad|none", "consistency :|err|none|ok err none"}})
	for w := 1; w <= 2; w++ {
		q := func(q, d int, files, log string, slow, grow int, plans ...string) {
			n := len(strings.Fields(log))
			for _, size := range slices.Compact([]int{0, n}) {
				add(q, d, cfg{op: "queue", workers: w, files: files, log: log, size: size, slow: slow, grow: grow, plans: plans})
			}
		}
		q(2, 3, "p q", "a b", 0, 0)
		q(2, 3, "p q r", "a", 1, 0)
		q(2, 3, "p q", "", 2, 0)
		q(2, 3, "p", "a", 3, 0)
		q(2, 3, "p", "a b c", 2, 0)
		q(1, 3, "p q", "a b c d", 3, 0)
		q(2, 3, "", "a", 1, 0)
		q(2, 3, "p p", "a", 1, 0)
		q(2, 3, "p q", "a <p> b", 1, 0)
		q(2, 3, "p q", "a <p> <q>", 0, 0)
		for g := 1; g <= 6; g++ {
			q(1, 3, "p q", "a", 0, g)
			q(1, 3, "p q", "a", 1, g)
		}
		q(1, 3, "p q", "a", 1, 0, "queue p:|err|lost", "queue q:|err", "proof p:|err|missing|missing*|grow")
		q(1, 3, "p q", "a", 1, 0, "root :err|none|bad|ok err|ok none|ok bad|ok ok err|ok ok ok ok ok ok err")
		q(1, 3, "p x", "a", 1, 0)
		q(1, 3, "x p q", "a", 1, 0)
		q(1, 3, "p q x", "a", 1, 0)
		add(1, 3, cfg{op: "queue", workers: w, files: "p q", log: "a", size: 1, slow: 2, cancel: true})
	}
	vrt.Main("C32", "a case is one schedule of the real client with one choice of the server's answers", scens, nil)
}
