// Package memdb is the relational model of the storage interface (db.Conn): one Go map per table, and
// every operation written as the simplest statement about those maps. It is bound to the MySQL
// implementation by check C11, which replays operation sequences on both.
//
// Every atomic write statement of the MySQL implementation is one step: Hook is called before it and
// may refuse it (crash or error at this point).
package memdb

import (
	"context"
	"crypto/sha256"
	"database/sql"
	"database/sql/driver"
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
)

type ID = common.SHA256Output

var (
	ErrInjected = errors.New("injected storage error")
	ErrDead     = errors.New("storage gone (crash)")
)

type Object struct {
	Parent  ID // zero: none
	Exp     string
	Payload string
}

type Payload struct {
	CertIDs, PolicyIDs string // "": NULL
}

type LogState struct {
	Size int64
	STH  string
}

// State is the contents of all tables.
type State struct {
	Domains        map[ID]string
	Certs          map[ID]Object
	DomainCerts    map[ID]map[ID]bool
	Policies       map[ID]Object
	DomainPolicies map[ID]map[ID]bool
	Payloads       map[ID]Payload
	Dirty          map[ID]bool // value: coalesced
	Root           *ID
	Logs           map[string]LogState
	Tree           map[ID]string
}

func NewState() *State {
	return &State{
		Domains: map[ID]string{}, Certs: map[ID]Object{}, DomainCerts: map[ID]map[ID]bool{},
		Policies: map[ID]Object{}, DomainPolicies: map[ID]map[ID]bool{}, Payloads: map[ID]Payload{},
		Dirty: map[ID]bool{}, Logs: map[string]LogState{}, Tree: map[ID]string{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (s *State) Clone() *State {
	c := &State{Domains: cp(s.Domains), Certs: cp(s.Certs), Policies: cp(s.Policies), Payloads: cp(s.Payloads),
		Dirty: cp(s.Dirty), Logs: cp(s.Logs), Tree: cp(s.Tree),
		DomainCerts: map[ID]map[ID]bool{}, DomainPolicies: map[ID]map[ID]bool{}}
	for k, v := range s.DomainCerts {
		c.DomainCerts[k] = cp(v)
	}
	for k, v := range s.DomainPolicies {
		c.DomainPolicies[k] = cp(v)
	}
	if s.Root != nil {
		r := *s.Root
		c.Root = &r
	}
	return c
}

func SortedKeys[V any](m map[ID]V) []ID {
	l := make([]ID, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return string(l[i][:]) < string(l[j][:]) })
	return l
}

// Dump renders the tables in a canonical way (tables: which ones; none: all).
func (s *State) Dump(tables ...string) string {
	var b strings.Builder
	want := func(t string) bool {
		if len(tables) == 0 {
			return true
		}
		for _, x := range tables {
			if x == t {
				return true
			}
		}
		return false
	}
	row := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	if want("domains") {
		for _, k := range SortedKeys(s.Domains) {
			row("domains %x %q", k[:], s.Domains[k])
		}
	}
	obj := func(t string, m map[ID]Object) {
		if want(t) {
			for _, k := range SortedKeys(m) {
				o := m[k]
				row("%s %x parent=%x exp=%s payload=%x", t, k[:], o.Parent[:], o.Exp, o.Payload)
			}
		}
	}
	rel := func(t string, m map[ID]map[ID]bool) {
		if want(t) {
			for _, k := range SortedKeys(m) {
				for _, v := range SortedKeys(m[k]) {
					row("%s %x %x", t, k[:], v[:])
				}
			}
		}
	}
	obj("certs", s.Certs)
	rel("domain_certs", s.DomainCerts)
	obj("policies", s.Policies)
	rel("domain_policies", s.DomainPolicies)
	if want("domain_payloads") {
		for _, k := range SortedKeys(s.Payloads) {
			p := s.Payloads[k]
			row("domain_payloads %x certs=%x policies=%x", k[:], p.CertIDs, p.PolicyIDs)
		}
	}
	if want("dirty") {
		for _, k := range SortedKeys(s.Dirty) {
			row("dirty %x %v", k[:], s.Dirty[k])
		}
	}
	if want("root") && s.Root != nil {
		row("root %x", s.Root[:])
	}
	if want("ctlog_server_last_status") {
		var l []string
		for k, v := range s.Logs {
			l = append(l, fmt.Sprintf("log %x size=%d sth=%x", k, v.Size, v.STH))
		}
		sort.Strings(l)
		for _, x := range l {
			row("%s", x)
		}
	}
	if want("tree") {
		for _, k := range SortedKeys(s.Tree) {
			row("tree %x %x", k[:], s.Tree[k])
		}
	}
	return b.String()
}

// DB implements db.Conn on a State.
type DB struct {
	mu sync.Mutex
	S  *State

	// Point, if set, is called at the start of every operation, outside of the lock (scheduling point).
	Point func(op string)
	// Hook, if set, is called before every atomic step (write or read); an error refuses the step.
	Hook func(step string, write bool) error
	// OnWrite observes accepted write steps.
	OnWrite func(step string)

	// UseCtx refuses steps of an operation whose context has ended; Ctx is the context of the operation under way.
	// With NoDeadline only cancellations count, not deadlines.
	UseCtx, NoDeadline bool
	Ctx                context.Context

	NextBundle uint64 // if set: upper bound of rows per dirty bundle
	Closed     bool
}

var _ db.Conn = (*DB)(nil)

func New() *DB { return &DB{S: NewState()} }

// On returns a DB working on a copy of the state.
func On(s *State) *DB { return &DB{S: s.Clone()} }

// enter locks; the returned function unlocks.
func (d *DB) enter(ctx context.Context, op string) func() {
	if d.Point != nil {
		d.Point(op)
	}
	d.mu.Lock()
	d.Ctx = ctx
	return d.mu.Unlock
}

func (d *DB) rd(step string) error {
	if err := d.ended(); err != nil {
		return err
	}
	if d.Hook != nil {
		return d.Hook(step, false)
	}
	return nil
}

func (d *DB) ended() error {
	if d.UseCtx && d.Ctx != nil {
		if err := d.Ctx.Err(); err != nil && !(d.NoDeadline && errors.Is(err, context.DeadlineExceeded)) {
			return err
		}
	}
	return nil
}

func (d *DB) wr(step string) error {
	if err := d.ended(); err != nil {
		return err
	}
	if d.Hook != nil {
		if err := d.Hook(step, true); err != nil {
			return err
		}
	}
	if d.OnWrite != nil {
		d.OnWrite(step)
	}
	return nil
}

// DB returns a connection whose statements all succeed without doing anything.
func (d *DB) DB() *sql.DB  { return nullDB }
func (d *DB) Close() error { d.Closed = true; return nil }

// ---- tree

func (d *DB) LoadRoot(ctx context.Context) (*ID, error) {
	defer d.enter(ctx, "LoadRoot")()
	if err := d.rd("LoadRoot"); err != nil {
		return nil, err
	}
	if d.S.Root == nil {
		return nil, nil
	}
	r := *d.S.Root
	return &r, nil
}

func (d *DB) SaveRoot(ctx context.Context, root *ID) error {
	defer d.enter(ctx, "SaveRoot")()
	if err := d.wr("SaveRoot"); err != nil {
		return err
	}
	d.S.Root = nil
	if root != nil {
		r := *root
		d.S.Root = &r
	}
	return nil
}

func (d *DB) RetrieveTreeNode(ctx context.Context, id ID) ([]byte, error) {
	defer d.enter(ctx, "RetrieveTreeNode")()
	if err := d.rd("RetrieveTreeNode"); err != nil {
		return nil, err
	}
	v, ok := d.S.Tree[id]
	if !ok {
		return nil, nil
	}
	return []byte(v), nil
}

func (d *DB) UpdateTreeNodes(ctx context.Context, kv []*db.TreeNodeRecord) (int, error) {
	defer d.enter(ctx, "UpdateTreeNodes")()
	if len(kv) == 0 {
		return 0, nil
	}
	if err := d.wr("UpdateTreeNodes"); err != nil {
		return 0, err
	}
	n := 0
	for _, r := range kv {
		n++
		if _, ok := d.S.Tree[r.Key]; ok {
			n++ // REPLACE counts the deleted row too
		}
		d.S.Tree[r.Key] = string(r.Value)
	}
	return n, nil
}

func (d *DB) DeleteTreeNodes(ctx context.Context, keys []ID) (int, error) {
	defer d.enter(ctx, "DeleteTreeNodes")()
	if err := d.wr("DeleteTreeNodes"); err != nil {
		return 0, err
	}
	n := 0
	for _, k := range keys {
		if _, ok := d.S.Tree[k]; ok {
			n++
			delete(d.S.Tree, k)
		}
	}
	return n, nil
}

// ---- dirty

func (d *DB) DirtyCount(ctx context.Context) (uint64, error) {
	defer d.enter(ctx, "DirtyCount")()
	if err := d.rd("DirtyCount"); err != nil {
		return 0, err
	}
	return uint64(len(d.S.Dirty)), nil
}

func (d *DB) RetrieveDirtyDomains(ctx context.Context) ([]ID, error) {
	defer d.enter(ctx, "RetrieveDirtyDomains")()
	if err := d.rd("RetrieveDirtyDomains"); err != nil {
		return nil, err
	}
	return SortedKeys(d.S.Dirty), nil
}

func (d *DB) InsertDomainsIntoDirty(ctx context.Context, ids []ID) error {
	defer d.enter(ctx, "InsertDomainsIntoDirty")()
	if err := d.wr("dirty"); err != nil {
		return err
	}
	for _, id := range ids {
		d.S.Dirty[id] = false
	}
	return nil
}

func (d *DB) CleanupDirty(ctx context.Context) error {
	defer d.enter(ctx, "CleanupDirty")()
	if err := d.wr("CleanupDirty"); err != nil {
		return err
	}
	d.S.Dirty = map[ID]bool{}
	return nil
}

func closure(direct map[ID]bool, objs map[ID]Object) string {
	in := map[ID]bool{}
	var todo []ID
	for id := range direct {
		todo = append(todo, id)
	}
	for len(todo) > 0 {
		id := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		o, ok := objs[id]
		if !ok || in[id] {
			continue
		}
		in[id] = true
		if o.Parent != (ID{}) {
			todo = append(todo, o.Parent)
		}
	}
	var b strings.Builder
	for _, id := range SortedKeys(in) {
		b.Write(id[:])
	}
	return b.String()
}

func part(id ID) int { return int(id[0] >> 3) }

// RecomputeDirtyDomainsCertAndPolicyIDs: per partition four statements, each atomic.
func (d *DB) RecomputeDirtyDomainsCertAndPolicyIDs(ctx context.Context) error {
	defer d.enter(ctx, "RecomputeDirty")()
	if err := d.rd("DirtyCountNonCoalesced"); err != nil {
		return err
	}
	var errs []error
	for p := 0; p < 32; p++ {
		var ids []ID
		for _, id := range SortedKeys(d.S.Dirty) {
			if part(id) == p && !d.S.Dirty[id] {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			continue
		}
		if err := d.recompute(p, ids); err != nil {
			errs = append(errs, err)
		}
	}
	return errors.Join(errs...)
}

func (d *DB) recompute(p int, ids []ID) error {
	if err := d.wr("coalesce-payloads"); err != nil {
		return err
	}
	for _, id := range ids {
		d.S.Payloads[id] = Payload{CertIDs: closure(d.S.DomainCerts[id], d.S.Certs),
			PolicyIDs: closure(d.S.DomainPolicies[id], d.S.Policies)}
	}
	if err := d.wr("coalesce-drop-payloads"); err != nil {
		return err
	}
	for _, id := range ids {
		if d.S.Payloads[id] == (Payload{}) {
			delete(d.S.Payloads, id)
		}
	}
	if err := d.wr("coalesce-drop-domains"); err != nil {
		return err
	}
	for _, id := range ids {
		if _, ok := d.S.Payloads[id]; !ok {
			delete(d.S.Domains, id)
		}
	}
	if err := d.wr("coalesce-mark"); err != nil {
		return err
	}
	for _, id := range ids {
		d.S.Dirty[id] = true
	}
	return nil
}

// ---- certs

func exists(m map[ID]Object, ids []ID) []bool {
	if len(ids) == 0 {
		return nil
	}
	r := make([]bool, len(ids))
	for i, id := range ids {
		_, r[i] = m[id]
	}
	return r
}

func (d *DB) CheckCertsExist(ctx context.Context, ids []ID) ([]bool, error) {
	defer d.enter(ctx, "CheckCertsExist")()
	if err := d.rd("CheckCertsExist"); err != nil {
		return nil, err
	}
	return exists(d.S.Certs, ids), nil
}

// Exp is the stored form of an expiration time.
func Exp(t time.Time) string { return t.UTC().Format(time.DateTime) }

func object(parent *ID, exp string, payload string) Object {
	o := Object{Exp: exp, Payload: payload}
	if parent != nil {
		o.Parent = *parent
	}
	return o
}

func (d *DB) UpdateCerts(ctx context.Context, ids []ID, parents []*ID, exps []time.Time, payloads [][]byte) error {
	defer d.enter(ctx, "UpdateCerts")()
	if err := d.wr("certs"); err != nil {
		return err
	}
	for i, id := range ids {
		o := object(parents[i], Exp(exps[i]), string(payloads[i]))
		if _, ok := d.S.Certs[id]; !ok {
			d.S.Certs[id] = o
		}
	}
	return nil
}

func (d *DB) UpdateDomainCerts(ctx context.Context, domainIDs, certIDs []ID) error {
	defer d.enter(ctx, "UpdateDomainCerts")()
	if err := d.wr("domain_certs"); err != nil {
		return err
	}
	for i, id := range domainIDs {
		link(d.S.DomainCerts, id, certIDs[i])
	}
	return nil
}

func link(m map[ID]map[ID]bool, a, b ID) {
	if m[a] == nil {
		m[a] = map[ID]bool{}
	}
	m[a][b] = true
}

func idOf(glued string) ID {
	if glued == "" {
		return ID{}
	}
	return sha256.Sum256([]byte(glued))
}

func bytesOrNil(s string) []byte {
	if s == "" {
		return nil
	}
	return []byte(s)
}

func (d *DB) RetrieveDomainCertificatesIDs(ctx context.Context, id ID) (ID, []byte, error) {
	defer d.enter(ctx, "RetrieveDomainCertificatesIDs")()
	if err := d.rd("RetrieveDomainCertificatesIDs"); err != nil {
		return ID{}, nil, err
	}
	p := d.S.Payloads[id]
	return idOf(p.CertIDs), bytesOrNil(p.CertIDs), nil
}

func payloads(ids []ID, ms ...map[ID]Object) [][]byte {
	r := make([][]byte, len(ids))
	for i, id := range ids {
		for _, m := range ms {
			if o, ok := m[id]; ok {
				r[i] = []byte(o.Payload)
				break
			}
		}
	}
	return r
}

func (d *DB) RetrieveCertificatePayloads(ctx context.Context, ids []ID) ([][]byte, error) {
	defer d.enter(ctx, "RetrieveCertificatePayloads")()
	if err := d.rd("RetrieveCertificatePayloads"); err != nil {
		return nil, err
	}
	return payloads(ids, d.S.Certs), nil
}

func (d *DB) LastCTlogServerState(ctx context.Context, url string) (int64, []byte, error) {
	defer d.enter(ctx, "LastCTlogServerState")()
	if err := d.rd("LastCTlogServerState"); err != nil {
		return 0, nil, err
	}
	h := string(common.SHA256Hash([]byte(url)))
	l := d.S.Logs[h]
	return l.Size, bytesOrNil(l.STH), nil
}

func (d *DB) UpdateLastCTlogServerState(ctx context.Context, url string, size int64, sth []byte) error {
	defer d.enter(ctx, "UpdateLastCTlogServerState")()
	if err := d.wr("ctlog-state"); err != nil {
		return err
	}
	d.S.Logs[string(common.SHA256Hash([]byte(url)))] = LogState{size, string(sth)}
	return nil
}

func (d *DB) PruneCerts(ctx context.Context, now time.Time) error {
	defer d.enter(ctx, "PruneCerts")()
	cut := Exp(now)
	gone := map[ID]bool{}
	for id, c := range d.S.Certs {
		if c.Exp < cut {
			gone[id] = true
		}
	}
	for more := true; more; {
		more = false
		for id, c := range d.S.Certs {
			if !gone[id] && gone[c.Parent] {
				gone[id] = true
				more = true
			}
		}
	}
	if err := d.wr("prune-dirty"); err != nil {
		return err
	}
	for dom, certs := range d.S.DomainCerts {
		for c := range certs {
			if gone[c] {
				d.S.Dirty[dom] = false
			}
		}
	}
	if err := d.wr("prune-certs"); err != nil {
		return err
	}
	for id := range gone {
		delete(d.S.Certs, id)
	}
	return nil
}

// ---- policies

func (d *DB) CheckPoliciesExist(ctx context.Context, ids []ID) ([]bool, error) {
	defer d.enter(ctx, "CheckPoliciesExist")()
	if err := d.rd("CheckPoliciesExist"); err != nil {
		return nil, err
	}
	return exists(d.S.Policies, ids), nil
}

func (d *DB) UpdatePolicies(ctx context.Context, ids []ID, parents []*ID, exps []time.Time, payloads [][]byte) error {
	defer d.enter(ctx, "UpdatePolicies")()
	if len(ids) == 0 {
		return nil
	}
	if err := d.wr("policies"); err != nil {
		return err
	}
	for i, id := range ids {
		d.S.Policies[id] = object(parents[i], Exp(exps[i]), string(payloads[i]))
	}
	return nil
}

func (d *DB) UpdateDomainPolicies(ctx context.Context, domainIDs, policyIDs []ID) error {
	defer d.enter(ctx, "UpdateDomainPolicies")()
	if len(domainIDs) == 0 {
		return nil
	}
	if err := d.wr("domain_policies"); err != nil {
		return err
	}
	for i, id := range domainIDs {
		link(d.S.DomainPolicies, id, policyIDs[i])
	}
	return nil
}

func (d *DB) RetrieveDomainPoliciesIDs(ctx context.Context, id ID) (ID, []byte, error) {
	defer d.enter(ctx, "RetrieveDomainPoliciesIDs")()
	if err := d.rd("RetrieveDomainPoliciesIDs"); err != nil {
		return ID{}, nil, err
	}
	p := d.S.Payloads[id]
	return idOf(p.PolicyIDs), bytesOrNil(p.PolicyIDs), nil
}

func (d *DB) RetrievePolicyPayloads(ctx context.Context, ids []ID) ([][]byte, error) {
	defer d.enter(ctx, "RetrievePolicyPayloads")()
	if err := d.rd("RetrievePolicyPayloads"); err != nil {
		return nil, err
	}
	return payloads(ids, d.S.Policies), nil
}

func (d *DB) RetrieveCertificateOrPolicyPayloads(ctx context.Context, ids []ID) ([][]byte, error) {
	defer d.enter(ctx, "RetrieveCertificateOrPolicyPayloads")()
	if err := d.rd("RetrieveCertificateOrPolicyPayloads"); err != nil {
		return nil, err
	}
	return payloads(ids, d.S.Certs, d.S.Policies), nil
}

// ---- others

func (d *DB) TruncateAllTables(ctx context.Context) error {
	defer d.enter(ctx, "TruncateAllTables")()
	s := d.S
	for _, f := range []func(){
		func() { s.Tree = map[ID]string{} },
		func() { s.Root = nil },
		func() { s.Domains = map[ID]string{} },
		func() { s.Certs = map[ID]Object{} },
		func() { s.DomainCerts = map[ID]map[ID]bool{} },
		func() { s.Payloads = map[ID]Payload{} },
		func() { s.Dirty = map[ID]bool{} },
	} {
		if err := d.wr("truncate"); err != nil {
			return err
		}
		f()
	}
	return nil
}

func (d *DB) UpdateDomains(ctx context.Context, ids []ID, names []string) error {
	defer d.enter(ctx, "UpdateDomains")()
	if err := d.wr("domains"); err != nil {
		return err
	}
	for i, id := range ids {
		if _, ok := d.S.Domains[id]; !ok {
			d.S.Domains[id] = names[i]
		}
	}
	return nil
}

func entryPayload(p Payload) []byte {
	ids := append(common.BytesToIDs([]byte(p.CertIDs)), common.BytesToIDs([]byte(p.PolicyIDs))...)
	sort.Slice(ids, func(i, j int) bool { return string(ids[i][:]) < string(ids[j][:]) })
	b := make([]byte, 0, 32*len(ids))
	for _, id := range ids {
		b = append(b, id[:]...)
	}
	return b
}

func (d *DB) RetrieveDomainEntries(ctx context.Context, ids []ID) ([]db.DomainEntryRecord, error) {
	defer d.enter(ctx, "RetrieveDomainEntries")()
	if err := d.rd("RetrieveDomainEntries"); err != nil {
		return nil, err
	}
	if len(ids) == 0 {
		return nil, nil
	}
	set := map[ID]bool{}
	for _, id := range ids {
		set[id] = true
	}
	r := []db.DomainEntryRecord{}
	for _, id := range SortedKeys(set) {
		if p, ok := d.S.Payloads[id]; ok {
			r = append(r, db.DomainEntryRecord{DomainID: id, Payload: entryPayload(p)})
		}
	}
	return r, nil
}

func (d *DB) entries(ids []ID) []db.DomainEntryRecord {
	r := make([]db.DomainEntryRecord, 0, len(ids))
	for _, id := range ids {
		e := db.DomainEntryRecord{DomainID: id}
		if p, ok := d.S.Payloads[id]; ok {
			e.Payload = entryPayload(p)
		}
		r = append(r, e)
	}
	return r
}

func (d *DB) RetrieveDomainEntriesDirtyOnes(ctx context.Context, start, end uint64) ([]db.DomainEntryRecord, error) {
	defer d.enter(ctx, "RetrieveDomainEntriesDirtyOnes")()
	if err := d.rd("RetrieveDomainEntriesDirtyOnes"); err != nil {
		return nil, err
	}
	ids := SortedKeys(d.S.Dirty)
	n := uint64(len(ids))
	return d.entries(ids[min(start, n):min(end, n)]), nil
}

// RetrieveDomainEntriesDirtyBundle: the dirty domains in some fixed order, at most max at a time.
func (d *DB) RetrieveDomainEntriesDirtyBundle(ctx context.Context, c *db.DirtyDomainEntriesCursor, max uint64,
) ([]db.DomainEntryRecord, *db.DirtyDomainEntriesCursor, bool, error) {
	defer d.enter(ctx, "RetrieveDomainEntriesDirtyBundle")()
	if err := d.rd("RetrieveDomainEntriesDirtyBundle"); err != nil {
		return nil, c, false, err
	}
	if max == 0 {
		return nil, c, true, fmt.Errorf("max bundle size must be > 0")
	}
	if d.NextBundle > 0 && max > d.NextBundle {
		max = d.NextBundle
	}
	off := uint64(0)
	if c != nil && len(c.PartitionOffsets) > 0 {
		off = c.PartitionOffsets[0]
	}
	ids := SortedKeys(d.S.Dirty)
	n := uint64(len(ids))
	to := min(off+max, n)
	return d.entries(ids[min(off, n):to]), &db.DirtyDomainEntriesCursor{PartitionOffsets: []uint64{to}}, to >= n, nil
}

// ---- CSV files

// ReadCSV reads a file handed to storage, with the rules of the LOAD DATA statements: fields terminated
// by ',' and optionally enclosed by '"', lines terminated by '\n', escape character '\'. Missing fields
// are empty and additional ones are ignored.
func ReadCSV(filename string, cols int) ([][]string, error) {
	b, err := os.ReadFile(filename)
	if err != nil {
		return nil, err
	}
	rows, k := [][]string{}, 0
	for k < len(b) {
		row := []string{}
		for end := false; !end; {
			var f []byte
			enclosed := k < len(b) && b[k] == '"'
			if enclosed {
				k++
			}
			null := false
			for {
				if k >= len(b) {
					end = true
					break
				}
				c := b[k]
				k++
				if c == '\\' && k < len(b) {
					e := b[k]
					k++
					if x := strings.IndexByte("ntrb0Z", e); x >= 0 {
						e = "\n\t\r\b\x00\x1a"[x]
					} else if e == 'N' {
						null = true
					}
					f = append(f, e)
					continue
				}
				if enclosed {
					if c == '"' {
						if k >= len(b) || b[k] == '\n' {
							k++
							end = true
							break
						}
						if b[k] == ',' {
							k++
							break
						}
						if b[k] == '"' {
							k++
						}
					}
				} else if c == ',' {
					break
				} else if c == '\n' {
					end = true
					break
				}
				f = append(f, c)
			}
			if !enclosed && (null && len(f) == 1 || string(f) == "NULL") {
				f = nil
			}
			row = append(row, string(f))
		}
		for len(row) < cols {
			row = append(row, "")
		}
		rows = append(rows, row[:cols])
	}
	return rows, nil
}

func b64id(s string) (ID, error) {
	var id ID
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return id, err
	}
	if len(b) == 0 {
		return id, nil
	}
	if len(b) != 32 {
		return id, fmt.Errorf("identifier of %d bytes", len(b))
	}
	return ID(b), nil
}

func (d *DB) InsertCsvIntoCerts(ctx context.Context, filename string) error {
	defer d.enter(ctx, "InsertCsvIntoCerts")()
	rows, err := ReadCSV(filename, 4)
	if err != nil {
		return err
	}
	if err := d.wr("csv-certs"); err != nil {
		return err
	}
	for _, r := range rows {
		id, err := b64id(r[0])
		if err != nil {
			return err
		}
		par, err := b64id(r[1])
		if err != nil {
			return err
		}
		pay, err := base64.StdEncoding.DecodeString(r[3])
		if err != nil {
			return err
		}
		if _, ok := d.S.Certs[id]; !ok {
			d.S.Certs[id] = Object{Parent: par, Exp: r[2], Payload: string(pay)}
		}
	}
	return nil
}

func (d *DB) InsertCsvIntoDomainCerts(ctx context.Context, filename string) error {
	defer d.enter(ctx, "InsertCsvIntoDomainCerts")()
	rows, err := ReadCSV(filename, 2)
	if err != nil {
		return err
	}
	if err := d.wr("csv-domain_certs"); err != nil {
		return err
	}
	for _, r := range rows {
		a, err := b64id(r[0])
		if err != nil {
			return err
		}
		b, err := b64id(r[1])
		if err != nil {
			return err
		}
		link(d.S.DomainCerts, a, b)
	}
	return nil
}

func (d *DB) InsertCsvIntoDomains(ctx context.Context, filename string) error {
	defer d.enter(ctx, "InsertCsvIntoDomains")()
	rows, err := ReadCSV(filename, 2)
	if err != nil {
		return err
	}
	if err := d.wr("csv-domains"); err != nil {
		return err
	}
	for _, r := range rows {
		a, err := b64id(r[0])
		if err != nil {
			return err
		}
		if _, ok := d.S.Domains[a]; !ok {
			d.S.Domains[a] = r[1]
		}
	}
	return nil
}

func (d *DB) InsertCsvIntoDirty(ctx context.Context, filename string) error {
	defer d.enter(ctx, "InsertCsvIntoDirty")()
	rows, err := ReadCSV(filename, 1)
	if err != nil {
		return err
	}
	if err := d.wr("csv-dirty"); err != nil {
		return err
	}
	for _, r := range rows {
		a, err := b64id(r[0])
		if err != nil {
			return err
		}
		d.S.Dirty[a] = false
	}
	return nil
}

type nullConn struct{}

func (nullConn) Connect(context.Context) (driver.Conn, error) { return nullConn{}, nil }
func (nullConn) Driver() driver.Driver                        { return nil }
func (nullConn) Prepare(string) (driver.Stmt, error)          { return nullConn{}, nil }
func (nullConn) Close() error                                 { return nil }
func (nullConn) Begin() (driver.Tx, error)                    { return nil, errors.New("no transactions") }
func (nullConn) NumInput() int                                { return -1 }
func (nullConn) Exec([]driver.Value) (driver.Result, error)   { return driver.ResultNoRows, nil }
func (nullConn) Query([]driver.Value) (driver.Rows, error)    { return nil, errors.New("no queries") }

var nullDB = sql.OpenDB(nullConn{})
