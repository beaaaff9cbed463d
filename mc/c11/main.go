// Command c11: the MySQL implementation of the storage interface behaves like the relational model memdb.
// Every transition of the model up to a depth is replayed on a real server: the tables are filled with the
// source state, the operation runs on the implementation, its result and all tables are compared.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	_ "github.com/go-sql-driver/mysql"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/tools"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

type ID = common.SHA256Output

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- the server side

type server struct {
	conn db.Conn
	sock string
	name string
	raw  *sql.DB
	cur  *memdb.State // contents of the tables
}

var tables = []string{"domains", "certs", "domain_certs", "policies", "domain_policies", "domain_payloads", "dirty", "root", "ctlog_server_last_status", "tree"}

func nid(b []byte) (id ID) {
	if len(b) == 32 {
		copy(id[:], b)
	} else if len(b) != 0 {
		panic(fmt.Sprintf("identifier of %d bytes: %x", len(b), b))
	}
	return
}

func (s *server) each(q string, n int, f func(v [][]byte)) {
	rows, err := s.raw.Query(q)
	must(err)
	defer rows.Close()
	for rows.Next() {
		v := make([][]byte, n)
		p := make([]any, n)
		for i := range v {
			p[i] = &v[i]
		}
		must(rows.Scan(p...))
		f(v)
	}
	must(rows.Err())
}

// dump reads all tables.
func (s *server) dump() *memdb.State {
	m := memdb.NewState()
	s.each("SELECT domain_id, domain_name FROM domains", 2, func(v [][]byte) { m.Domains[nid(v[0])] = string(v[1]) })
	obj := func(q string, t map[ID]memdb.Object) {
		s.each(q, 4, func(v [][]byte) {
			t[nid(v[0])] = memdb.Object{Parent: nid(v[1]), Exp: string(v[2]), Payload: string(v[3])}
		})
	}
	obj("SELECT cert_id, parent_id, DATE_FORMAT(expiration,'%Y-%m-%d %H:%i:%s'), payload FROM certs", m.Certs)
	obj("SELECT policy_id, parent_id, DATE_FORMAT(expiration,'%Y-%m-%d %H:%i:%s'), payload FROM policies", m.Policies)
	rel := func(q string, t map[ID]map[ID]bool) {
		s.each(q, 2, func(v [][]byte) {
			a := nid(v[0])
			if t[a] == nil {
				t[a] = map[ID]bool{}
			}
			t[a][nid(v[1])] = true
		})
	}
	rel("SELECT domain_id, cert_id FROM domain_certs", m.DomainCerts)
	rel("SELECT domain_id, policy_id FROM domain_policies", m.DomainPolicies)
	s.each("SELECT domain_id, cert_ids, cert_ids_id, policy_ids, policy_ids_id FROM domain_payloads", 5, func(v [][]byte) {
		ok := func(b, id []byte) bool {
			if len(b) == 0 {
				return len(id) == 0
			}
			h := sha256.Sum256(b)
			return bytes.Equal(h[:], id)
		}
		p := memdb.Payload{CertIDs: string(v[1]), PolicyIDs: string(v[3])}
		if !ok(v[1], v[2]) || !ok(v[3], v[4]) {
			p.CertIDs += "!identifier of the payload does not match"
		}
		m.Payloads[nid(v[0])] = p
	})
	s.each("SELECT domain_id, coalesced FROM dirty", 2, func(v [][]byte) { m.Dirty[nid(v[0])] = string(v[1]) != "0" })
	s.each("SELECT key32 FROM root", 1, func(v [][]byte) { r := nid(v[0]); m.Root = &r })
	s.each("SELECT url_hash, size, sth FROM ctlog_server_last_status", 3, func(v [][]byte) {
		var n int64
		fmt.Sscan(string(v[1]), &n)
		m.Logs[string(v[0])] = memdb.LogState{Size: n, STH: string(v[2])}
	})
	s.each("SELECT key32, value FROM tree", 2, func(v [][]byte) { m.Tree[nid(v[0])] = string(v[1]) })
	return m
}

func (s *server) exec(q string, a ...any) {
	_, err := s.raw.Exec(q, a...)
	must(err)
}

func (s *server) fill(table string, cols int, rows [][]any) {
	s.exec("DELETE FROM " + table)
	for len(rows) > 0 {
		n := min(len(rows), 2000)
		var args []any
		for _, r := range rows[:n] {
			args = append(args, r...)
		}
		one := "(" + strings.Repeat(",?", cols)[1:] + ")"
		names := map[string]string{"domains": "domain_id,domain_name", "certs": "cert_id,parent_id,expiration,payload",
			"policies": "policy_id,parent_id,expiration,payload", "domain_certs": "domain_id,cert_id", "domain_policies": "domain_id,policy_id",
			"domain_payloads": "domain_id,cert_ids,cert_ids_id,policy_ids,policy_ids_id", "dirty": "domain_id,coalesced", "root": "key32",
			"ctlog_server_last_status": "url_hash,size,sth", "tree": "key32,value"}[table]
		s.exec("INSERT INTO "+table+" ("+names+") VALUES "+strings.Repeat(","+one, n)[1:], args...)
		rows = rows[n:]
	}
}

func nilable(s string) any {
	if s == "" {
		return nil
	}
	return []byte(s)
}

// load fills the tables with a state.
func (s *server) load(m *memdb.State) {
	for _, t := range tables {
		if s.cur != nil && s.cur.Dump(t) == m.Dump(t) {
			continue
		}
		var rows [][]any
		cols := 2
		objs := func(o map[ID]memdb.Object) {
			cols = 4
			for id, x := range o {
				var par any
				if x.Parent != (ID{}) {
					par = bytes.Clone(x.Parent[:])
				}
				rows = append(rows, []any{bytes.Clone(id[:]), par, x.Exp, []byte(x.Payload)})
			}
		}
		rels := func(o map[ID]map[ID]bool) {
			for a, l := range o {
				for b := range l {
					rows = append(rows, []any{bytes.Clone(a[:]), bytes.Clone(b[:])})
				}
			}
		}
		switch t {
		case "domains":
			for id, n := range m.Domains {
				rows = append(rows, []any{bytes.Clone(id[:]), []byte(n)})
			}
		case "certs":
			objs(m.Certs)
		case "policies":
			objs(m.Policies)
		case "domain_certs":
			rels(m.DomainCerts)
		case "domain_policies":
			rels(m.DomainPolicies)
		case "domain_payloads":
			cols = 5
			for id, p := range m.Payloads {
				h := func(s string) any {
					if s == "" {
						return nil
					}
					x := sha256.Sum256([]byte(s))
					return x[:]
				}
				rows = append(rows, []any{bytes.Clone(id[:]), nilable(p.CertIDs), h(p.CertIDs), nilable(p.PolicyIDs), h(p.PolicyIDs)})
			}
		case "dirty":
			for id, c := range m.Dirty {
				rows = append(rows, []any{bytes.Clone(id[:]), c})
			}
		case "root":
			cols = 1
			if m.Root != nil {
				rows = append(rows, []any{m.Root[:]})
			}
		case "ctlog_server_last_status":
			cols = 3
			for h, l := range m.Logs {
				rows = append(rows, []any{[]byte(h), l.Size, []byte(l.STH)})
			}
		case "tree":
			for id, v := range m.Tree {
				rows = append(rows, []any{bytes.Clone(id[:]), []byte(v)})
			}
		}
		s.fill(t, cols, rows)
	}
	s.cur = m.Clone()
}

func newServer(i int) *server {
	sock, port := os.Getenv("C11_SOCKET"), os.Getenv("C11_PORT")
	name := fmt.Sprintf("v%d", i)
	script, err := os.CreateTemp(os.Getenv("VERIF_WORK"), "schema*.sh")
	must(err)
	_, err = io.WriteString(script, tools.CreateSchemaScript())
	must(err)
	must(script.Close())
	cmd := exec.Command("bash", "-c", "source "+script.Name()+"; create_new_db "+name)
	cmd.Env = append(os.Environ(), "MYSQL_USER=root", "MYSQL_PASSWORD=", "MYSQL_HOST=127.0.0.1", "MYSQL_PORT="+port)
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("creating the schema: %v\n%s", err, out))
	}
	conn, err := mysql.Connect(db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(sock), db.WithDB(name)))
	must(err)
	raw, err := sql.Open("mysql", "root@unix("+sock+")/"+name+"?interpolateParams=true&collation=binary")
	must(err)
	raw.SetMaxOpenConns(2)
	return &server{conn: conn, raw: raw, sock: sock, name: name}
}

// ---- operations

type op struct {
	name string
	run  func(ctx context.Context, c db.Conn) (string, error)
}

func wr(name string, f func(ctx context.Context, c db.Conn) error) op {
	return op{name, func(ctx context.Context, c db.Conn) (string, error) { return "", f(ctx, c) }}
}

func nm(prefix byte, s string) ID {
	h := ID(sha256.Sum256([]byte(s)))
	h[0] = prefix
	return h
}

const nasty = "'\"\\\x00\n\r\x1a%_;--\xff\xfe"

type object struct {
	id      ID
	parent  *ID
	exp     time.Time
	payload []byte
}

type universe struct {
	d, c, p, k []ID
	certs      map[string]object
	pols       map[string]object
	names      []string
}

func newUniverse() *universe {
	u := &universe{}
	u.d = []ID{nm(0x00, "d0"), nm(0xff, "d1"), nm(0x07, "d2")}
	u.c = []ID{nm(0x10, "c0"), nm(0xf0, "c1"), nm(0x11, "c2")}
	u.p = []ID{nm(0x20, "p0"), nm(0xe0, "p1")}
	u.k = []ID{nm(0x00, "k0"), nm(0xff, "k1")}
	u.names = []string{"a.com", "b,\"c\\d\n", "*.x.com"}
	t := func(y, h int) time.Time { return time.Date(y, 2, 3, h, 5, 6, 0, time.UTC) }
	zone := time.FixedZone("", -5*3600)
	u.certs = map[string]object{
		"c0":  {u.c[0], nil, t(2050, 4), []byte("payload of c0" + nasty)},
		"c0'": {u.c[0], &u.c[1], t(2060, 4), []byte("another one")},
		"c1":  {u.c[1], &u.c[0], t(2020, 23).In(zone), []byte("payload of c1")},
		"c2":  {u.c[2], &u.c[1], t(2040, 4), nil},
	}
	u.pols = map[string]object{
		"p0":  {u.p[0], nil, t(2050, 4), []byte(nasty + "payload of p0")},
		"p0'": {u.p[0], &u.p[1], t(2060, 4), []byte("another one")},
		"p1":  {u.p[1], &u.p[0], t(2020, 1).In(zone), []byte("{}")},
	}
	return u
}

func split(l []object) (ids []ID, parents []*ID, exps []time.Time, payloads [][]byte) {
	for _, o := range l {
		ids, parents, exps, payloads = append(ids, o.id), append(parents, o.parent), append(exps, o.exp), append(payloads, o.payload)
	}
	return
}

// withFile writes a file as the bulk ingestion does and passes it on.
func withFile(f func(name string) error, rows ...string) error {
	t, err := os.CreateTemp(mysql.TemporaryDir, "c11-*.csv")
	must(err)
	defer os.Remove(t.Name())
	_, err = t.WriteString(strings.Join(rows, ""))
	must(err)
	must(t.Close())
	return f(t.Name())
}

func b64(id ID) string { return base64.StdEncoding.EncodeToString(id[:]) }

func (u *universe) writes() (l []op) {
	pick := func(m map[string]object, names ...string) (l []object) {
		for _, n := range names {
			l = append(l, m[n])
		}
		return
	}
	for _, ns := range [][]string{{}, {"c0"}, {"c1"}, {"c0'"}, {"c2"}, {"c2", "c1", "c0"}, {"c0", "c0", "c0'"}} {
		ids, pars, exps, pays := split(pick(u.certs, ns...))
		l = append(l, wr(fmt.Sprint("UpdateCerts", ns), func(ctx context.Context, c db.Conn) error { return c.UpdateCerts(ctx, ids, pars, exps, pays) }))
	}
	for _, ns := range [][]string{{}, {"p0"}, {"p0'"}, {"p1"}, {"p0", "p1", "p0'"}} {
		ids, pars, exps, pays := split(pick(u.pols, ns...))
		l = append(l, wr(fmt.Sprint("UpdatePolicies", ns), func(ctx context.Context, c db.Conn) error { return c.UpdatePolicies(ctx, ids, pars, exps, pays) }))
	}
	for _, ns := range [][]int{{}, {0}, {0, 1, 2, 0}, {2, 1}} {
		var ids []ID
		var names []string
		for i, n := range ns {
			ids, names = append(ids, u.d[n]), append(names, u.names[(n+i)%3])
		}
		l = append(l, wr(fmt.Sprint("UpdateDomains", ns), func(ctx context.Context, c db.Conn) error { return c.UpdateDomains(ctx, ids, names) }))
		l = append(l, wr(fmt.Sprint("InsertDomainsIntoDirty", ns), func(ctx context.Context, c db.Conn) error { return c.InsertDomainsIntoDirty(ctx, ids) }))
	}
	for _, ns := range [][][2]int{{}, {{0, 0}}, {{0, 1}, {1, 1}}, {{0, 2}, {0, 2}, {2, 0}, {1, 2}}} {
		var a, b, p []ID
		for _, x := range ns {
			a, b, p = append(a, u.d[x[0]]), append(b, u.c[x[1]]), append(p, u.p[x[1]%2])
		}
		l = append(l, wr(fmt.Sprint("UpdateDomainCerts", ns), func(ctx context.Context, c db.Conn) error { return c.UpdateDomainCerts(ctx, a, b) }))
		l = append(l, wr(fmt.Sprint("UpdateDomainPolicies", ns), func(ctx context.Context, c db.Conn) error { return c.UpdateDomainPolicies(ctx, a, p) }))
	}
	l = append(l, wr("Recompute", func(ctx context.Context, c db.Conn) error { return c.RecomputeDirtyDomainsCertAndPolicyIDs(ctx) }),
		wr("CleanupDirty", func(ctx context.Context, c db.Conn) error { return c.CleanupDirty(ctx) }),
		wr("TruncateAllTables", func(ctx context.Context, c db.Conn) error { return c.TruncateAllTables(ctx) }))
	exp := u.certs["c1"].exp
	for n, t := range map[string]time.Time{"at": exp, "after": exp.Add(time.Second), "after, another zone": exp.Add(time.Second).In(time.FixedZone("", 9*3600)),
		"before": exp.Add(-time.Second).In(time.FixedZone("", 9*3600)), "late": exp.AddDate(50, 0, 0)} {
		l = append(l, wr("PruneCerts "+n, func(ctx context.Context, c db.Conn) error { return c.PruneCerts(ctx, t) }))
	}
	for _, i := range []int{-1, 0, 1} {
		var r *ID
		if i >= 0 {
			r = &u.k[i]
		}
		l = append(l, wr(fmt.Sprint("SaveRoot ", i), func(ctx context.Context, c db.Conn) error { return c.SaveRoot(ctx, r) }))
	}
	for _, ns := range [][]int{{}, {0}, {1, 0}, {0, 0}} {
		var kv []*db.TreeNodeRecord
		var ks []ID
		for i, n := range ns {
			kv, ks = append(kv, &db.TreeNodeRecord{Key: u.k[n], Value: []byte(fmt.Sprint(nasty, i))}), append(ks, u.k[n])
		}
		l = append(l, op{fmt.Sprint("UpdateTreeNodes", ns), func(ctx context.Context, c db.Conn) (string, error) {
			n, err := c.UpdateTreeNodes(ctx, kv)
			return fmt.Sprint(n), err
		}}, op{fmt.Sprint("DeleteTreeNodes", ns), func(ctx context.Context, c db.Conn) (string, error) {
			n, err := c.DeleteTreeNodes(ctx, ks)
			return fmt.Sprint(n), err
		}})
	}
	for i, x := range []struct {
		url  string
		size int64
		sth  []byte
	}{{"https://a", 0, nil}, {"https://a", 1 << 40, []byte(nasty)}, {"https://b", 7, []byte("x")}} {
		l = append(l, wr(fmt.Sprint("UpdateLastCTlogServerState ", i), func(ctx context.Context, c db.Conn) error {
			return c.UpdateLastCTlogServerState(ctx, x.url, x.size, x.sth)
		}))
	}
	row := func(o object) string {
		par := ""
		if o.parent != nil {
			par = b64(*o.parent)
		}
		return fmt.Sprintf("%s,%s,%s,%s\n", b64(o.id), par, o.exp.UTC().Format(time.DateTime), base64.StdEncoding.EncodeToString(o.payload))
	}
	for _, ns := range [][]string{{}, {"c0", "c0'"}, {"c2", "c1"}} {
		var rows []string
		for _, o := range pick(u.certs, ns...) {
			rows = append(rows, row(o))
		}
		l = append(l, wr(fmt.Sprint("InsertCsvIntoCerts", ns), func(ctx context.Context, c db.Conn) error {
			return withFile(func(f string) error { return c.InsertCsvIntoCerts(ctx, f) }, rows...)
		}))
	}
	l = append(l,
		wr("InsertCsvIntoDomains", func(ctx context.Context, c db.Conn) error {
			return withFile(func(f string) error { return c.InsertCsvIntoDomains(ctx, f) }, b64(u.d[0])+",a.com\n", b64(u.d[1])+",\"b,\"\"c\\\\d\n\"\n", b64(u.d[2])+",*.x.com\n", b64(u.d[0])+",z\n")
		}),
		wr("InsertCsvIntoDirty", func(ctx context.Context, c db.Conn) error {
			return withFile(func(f string) error { return c.InsertCsvIntoDirty(ctx, f) }, b64(u.d[1])+"\n", b64(u.d[1])+"\n")
		}),
		wr("InsertCsvIntoDomainCerts", func(ctx context.Context, c db.Conn) error {
			return withFile(func(f string) error { return c.InsertCsvIntoDomainCerts(ctx, f) }, b64(u.d[1])+","+b64(u.c[0])+"\n", b64(u.d[0])+","+b64(u.c[1])+"\n")
		}),
		wr("InsertCsvIntoDirty (no such file)", func(ctx context.Context, c db.Conn) error { return c.InsertCsvIntoDirty(ctx, mysql.TemporaryDir+"/none") }),
		wr("InsertCsvIntoCerts (no such file)", func(ctx context.Context, c db.Conn) error { return c.InsertCsvIntoCerts(ctx, mysql.TemporaryDir+"/none") }),
	)
	return
}

func entries(l []db.DomainEntryRecord) string {
	var x []string
	for _, e := range l {
		x = append(x, fmt.Sprintf("%x=%x", e.DomainID[:], e.Payload))
	}
	sort.Strings(x)
	return strings.Join(x, " ")
}

func bundles(ctx context.Context, c db.Conn, max uint64) (string, error) {
	var cur *db.DirtyDomainEntriesCursor
	var all []db.DomainEntryRecord
	for n := 0; ; n++ {
		l, next, done, err := c.RetrieveDomainEntriesDirtyBundle(ctx, cur, max)
		if err != nil {
			return "", err
		}
		if uint64(len(l)) > max {
			return "", fmt.Errorf("bundle of %d entries, asked for %d", len(l), max)
		}
		if len(l) == 0 && !done {
			return "empty bundle before the end", nil
		}
		all = append(all, l...)
		if done {
			break
		}
		if n > 100000 {
			return "no end of bundles", nil
		}
		cur = next
	}
	return entries(all), nil
}

func raws(l [][]byte) string { return fmt.Sprintf("%d %x", len(l), l) }

// reads: ids of things that may exist.
func reads(d, c, p, k []ID, maxes []uint64, ranges [][2]uint64) (l []op) {
	add := func(name string, f func(ctx context.Context, c db.Conn) (string, error)) { l = append(l, op{name, f}) }
	all := append(append(append([]ID{}, c...), p...), nm(0x55, "unknown"))
	if len(all) > 3 {
		all = append(all, all[0], all[2]) // twice
	}
	sets := map[string][]ID{"none": {}, "unknown": {nm(0x55, "unknown")}, "all": all}
	for n, s := range sets {
		add("CheckCertsExist "+n, func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.CheckCertsExist(ctx, s)
			return fmt.Sprint(r), err
		})
		add("CheckPoliciesExist "+n, func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.CheckPoliciesExist(ctx, s)
			return fmt.Sprint(r), err
		})
		add("RetrieveCertificatePayloads "+n, func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.RetrieveCertificatePayloads(ctx, s)
			return raws(r), err
		})
		add("RetrievePolicyPayloads "+n, func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.RetrievePolicyPayloads(ctx, s)
			return raws(r), err
		})
		add("RetrieveCertificateOrPolicyPayloads "+n, func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.RetrieveCertificateOrPolicyPayloads(ctx, s)
			return raws(r), err
		})
	}
	for _, id := range d[:min(len(d), 3)] {
		add(fmt.Sprintf("RetrieveDomainCertificatesIDs %x", id[:2]), func(ctx context.Context, c db.Conn) (string, error) {
			i, b, err := c.RetrieveDomainCertificatesIDs(ctx, id)
			return fmt.Sprintf("%x %x", i[:], b), err
		})
		add(fmt.Sprintf("RetrieveDomainPoliciesIDs %x", id[:2]), func(ctx context.Context, c db.Conn) (string, error) {
			i, b, err := c.RetrieveDomainPoliciesIDs(ctx, id)
			return fmt.Sprintf("%x %x", i[:], b), err
		})
	}
	for n, s := range map[string][]ID{"none": {}, "one": d[:min(len(d), 1)], "all": append([]ID{nm(0x55, "unknown")}, d...)} {
		add("RetrieveDomainEntries "+n, func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.RetrieveDomainEntries(ctx, s)
			return entries(r), err
		})
	}
	add("DirtyCount", func(ctx context.Context, c db.Conn) (string, error) {
		r, err := c.DirtyCount(ctx)
		return fmt.Sprint(r), err
	})
	add("RetrieveDirtyDomains", func(ctx context.Context, c db.Conn) (string, error) {
		r, err := c.RetrieveDirtyDomains(ctx)
		sort.Slice(r, func(i, j int) bool { return string(r[i][:]) < string(r[j][:]) })
		return fmt.Sprintf("%x", r), err
	})
	for _, m := range maxes {
		add(fmt.Sprint("RetrieveDomainEntriesDirtyBundle ", m), func(ctx context.Context, c db.Conn) (string, error) { return bundles(ctx, c, m) })
	}
	for _, m := range ranges {
		add(fmt.Sprint("RetrieveDomainEntriesDirtyOnes ", m), func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.RetrieveDomainEntriesDirtyOnes(ctx, m[0], m[1])
			return entries(r), err
		})
	}
	add("LoadRoot", func(ctx context.Context, c db.Conn) (string, error) {
		r, err := c.LoadRoot(ctx)
		if r == nil {
			return "none", err
		}
		return fmt.Sprintf("%x", r[:]), err
	})
	for _, id := range append([]ID{nm(0x55, "unknown")}, k[:min(len(k), 3)]...) {
		add(fmt.Sprintf("RetrieveTreeNode %x", id[:2]), func(ctx context.Context, c db.Conn) (string, error) {
			r, err := c.RetrieveTreeNode(ctx, id)
			return fmt.Sprintf("%v %x", r == nil, r), err
		})
	}
	for _, url := range []string{"https://a", "https://b", "https://c"} {
		add("LastCTlogServerState "+url, func(ctx context.Context, c db.Conn) (string, error) {
			n, sth, err := c.LastCTlogServerState(ctx, url)
			return fmt.Sprintf("%d %x", n, sth), err
		})
	}
	return
}

// ---- comparison

var replayed atomic.Int64

// both runs the operation on the model (from state m) and on the server; it returns the state after it.
func (s *server) both(m *memdb.State, o op, write bool) (*memdb.State, error) {
	ctx := context.Background()
	mod := memdb.On(m)
	want, werr := o.run(ctx, mod)
	s.load(m)
	if write {
		s.cur = nil
	}
	got, gerr := o.run(ctx, s.conn)
	replayed.Add(1)
	if (werr == nil) != (gerr == nil) {
		return nil, fmt.Errorf("%s: error %v, the model says %v", o.name, gerr, werr)
	}
	if werr == nil && got != want {
		return nil, fmt.Errorf("%s: result %.2000q, the model says %.2000q", o.name, got, want)
	}
	if !write {
		return m, nil
	}
	after := s.dump()
	if a, b := after.Dump(), mod.S.Dump(); a != b {
		return nil, fmt.Errorf("%s: tables differ:\n%.6000s\nmodel:\n%.6000s", o.name, diff(a, b), diff(b, a))
	}
	s.cur = after
	return mod.S, nil
}

// diff returns the lines of a that are not in b.
func diff(a, b string) string {
	in := map[string]int{}
	for _, l := range strings.Split(b, "\n") {
		in[l]++
	}
	var r []string
	for _, l := range strings.Split(a, "\n") {
		if in[l]--; in[l] < 0 {
			r = append(r, l)
		}
	}
	return strings.Join(r, "\n")
}

type node struct {
	s    *memdb.State
	path string
}

func main() {
	r := core.Start("C11", "model_checking")
	r.Rule = "every transition of the relational model up to a depth from several states replayed on a MySQL server; every read operation in every state; batches of all sizes around the internal limits"
	r.Assume("operations run one after the other; the server is a private MySQL with the settings of the repository's configuration file (less memory, no durability)")
	u := newUniverse()
	writes := u.writes()
	rds := reads(u.d, u.c, u.p, u.k, []uint64{0, 1, 2, 3, 33, 1000}, [][2]uint64{{0, 0}, {0, 2}, {1, 3}, {2, 9}})

	// the servers
	nw := 8
	pool := make(chan *server, nw)
	var wg sync.WaitGroup
	for i := range nw {
		wg.Add(1)
		go func() {
			defer wg.Done()
			pool <- newServer(i)
		}()
	}
	wg.Wait()
	with := func(f func(s *server) error) error {
		s := <-pool
		defer func() { pool <- s }()
		defer func() {
			if e := recover(); e != nil {
				s.cur = nil
				panic(e)
			}
		}()
		return f(s)
	}

	// rich is a state with everything in it.
	rich := memdb.New()
	for _, n := range []string{"UpdateCerts[c2 c1 c0]", "UpdatePolicies[p0 p1 p0']", "UpdateDomains[0 1 2 0]", "InsertDomainsIntoDirty[0]", "InsertDomainsIntoDirty[2 1]",
		"UpdateDomainCerts[[0 1] [1 1]]", "UpdateDomainCerts[[0 2] [0 2] [2 0] [1 2]]", "UpdateDomainPolicies[[0 0]]", "Recompute", "CleanupDirty", "InsertDomainsIntoDirty[0]", "SaveRoot 0", "UpdateTreeNodes[1 0]", "UpdateLastCTlogServerState 1"} {
		found := false
		for _, o := range writes {
			if o.name == n {
				_, err := o.run(context.Background(), rich)
				must(err)
				found = true
			}
		}
		if !found {
			panic("no operation " + n)
		}
	}

	// transitions
	seen := map[string]bool{}
	var mu sync.Mutex
	depth := r.Pick(2, 3)
	var transitions, states atomic.Int64
	level := []node{{memdb.NewState(), ""}, {rich.S, "(rich)"}}
	for dep := 0; dep <= depth && len(level) > 0; dep++ {
		var next []node
		what := fmt.Sprintf("transitions at depth %d", dep)
		r.Parallel(what, len(level), func(i int) {
			nd := level[i]
			states.Add(1)
			for _, o := range rds {
				if r.Expired(what) {
					return
				}
				r.Case(nd.path+" "+o.name, nil, func() error {
					return with(func(s *server) error { _, err := s.both(nd.s, o, false); return err })
				})
			}
			if dep == depth {
				return
			}
			for _, o := range writes {
				if r.Expired(what) {
					return
				}
				var after *memdb.State
				if r.Case(nd.path+" "+o.name, nil, func() error {
					return with(func(s *server) (err error) { after, err = s.both(nd.s, o, true); return })
				}) {
					transitions.Add(1)
					k := after.Dump()
					mu.Lock()
					if !seen[k] {
						seen[k] = true
						r.Distinct.Add(1)
						next = append(next, node{after, nd.path + " " + o.name})
					}
					mu.Unlock()
				}
			}
		})
		sort.Slice(next, func(i, j int) bool { return next[i].path < next[j].path })
		level = next
	}
	r.States.Add(states.Load())
	r.Transitions.Add(transitions.Load())

	sizes(r, with)
	if r.Expired("faults") {
		r.Finish()
	}
	// also with pending work in several partitions
	for _, o := range writes {
		if o.name == "InsertDomainsIntoDirty[2 1]" {
			_, err := o.run(context.Background(), rich)
			must(err)
		}
	}
	faults(r, rich.S, append(append([]op{}, rds...), writes...), len(rds), with)
	r.Validated.Add(replayed.Load())
	r.Finish()
}

// sizes runs every batched operation with batches of many sizes.
func sizes(r *core.Run, with func(func(s *server) error) error) {
	type sized struct {
		name  string
		prep  func(n int, ids []ID) *memdb.State
		op    func(n int, ids []ID) op
		write bool
	}
	ids := func(n int, onePartition bool) (l []ID) {
		for i := range n {
			id := ID(sha256.Sum256([]byte(fmt.Sprint("id", i))))
			if onePartition {
				id[0] = 0x38 | id[0]&7
			}
			l = append(l, id)
		}
		return
	}
	empty := func(int, []ID) *memdb.State { return memdb.NewState() }
	obj := func(i int, id ID) memdb.Object {
		return memdb.Object{Exp: fmt.Sprintf("20%02d-01-02 03:04:05", 20+i%2*30), Payload: fmt.Sprint("payload ", i)}
	}
	half := func(m func(s *memdb.State) map[ID]memdb.Object) func(int, []ID) *memdb.State {
		return func(n int, l []ID) *memdb.State {
			s := memdb.NewState()
			for i, id := range l {
				if i%3 != 1 {
					m(s)[id] = obj(i, id)
				}
			}
			return s
		}
	}
	certs := half(func(s *memdb.State) map[ID]memdb.Object { return s.Certs })
	pols := half(func(s *memdb.State) map[ID]memdb.Object { return s.Policies })
	dirty := func(n int, l []ID) *memdb.State {
		s := memdb.NewState()
		for i, id := range l {
			s.Dirty[id] = i%7 == 6
			s.Domains[id] = fmt.Sprint("d", i)
			s.Certs[id] = obj(i, id)
			if i%5 != 4 {
				s.DomainCerts[id] = map[ID]bool{l[i/2]: true, id: true}
			}
			if i%5 == 3 {
				s.Policies[id] = obj(i, id)
				s.DomainPolicies[id] = map[ID]bool{id: true}
			}
			if i%11 == 0 {
				s.Payloads[id] = memdb.Payload{CertIDs: string(id[:])}
			}
		}
		return s
	}
	many := func(n int, l []ID) *memdb.State { // one domain with n certificates in a chain of up to 40, and n policies
		s := memdb.NewState()
		d := nm(0x33, "d")
		s.Dirty[d] = false
		s.DomainCerts[d], s.DomainPolicies[d] = map[ID]bool{}, map[ID]bool{}
		for i, id := range l {
			o := obj(i, id)
			if i%40 != 39 && i+1 < len(l) {
				o.Parent = l[i+1]
			}
			s.Certs[id] = o
			if i%40 == 0 {
				s.DomainCerts[d][id] = true
			}
			p := obj(i, id)
			s.Policies[id] = p
			s.DomainPolicies[d][id] = true
		}
		return s
	}
	objs := func(n int, l []ID) (par []*ID, exps []time.Time, pays [][]byte) {
		for i := range l {
			var p *ID
			if i > 0 {
				p = &l[i-1]
			}
			par, exps, pays = append(par, p), append(exps, time.Date(2030, 1, 1, 0, 0, i, 0, time.UTC)), append(pays, []byte(fmt.Sprint("new ", i)))
		}
		return
	}
	names := func(l []ID) (r []string) {
		for i := range l {
			r = append(r, fmt.Sprint("name", i))
		}
		return
	}
	rot := func(l []ID) []ID {
		if len(l) == 0 {
			return l
		}
		return append(append([]ID{}, l[1:]...), l[0])
	}
	w := func(name string, prep func(int, []ID) *memdb.State, f func(ctx context.Context, c db.Conn, n int, l []ID) error) sized {
		return sized{name, prep, func(n int, l []ID) op {
			return wr(name, func(ctx context.Context, c db.Conn) error { return f(ctx, c, n, l) })
		}, true}
	}
	rd := func(name string, prep func(int, []ID) *memdb.State, f func(ctx context.Context, c db.Conn, n int, l []ID) (string, error)) sized {
		return sized{name, prep, func(n int, l []ID) op {
			return op{name, func(ctx context.Context, c db.Conn) (string, error) { return f(ctx, c, n, l) }}
		}, false}
	}
	ops := []sized{
		w("UpdateCerts", certs, func(ctx context.Context, c db.Conn, n int, l []ID) error {
			par, exps, pays := objs(n, l)
			return c.UpdateCerts(ctx, l, par, exps, pays)
		}),
		w("UpdatePolicies", pols, func(ctx context.Context, c db.Conn, n int, l []ID) error {
			par, exps, pays := objs(n, l)
			return c.UpdatePolicies(ctx, l, par, exps, pays)
		}),
		w("UpdateDomains", empty, func(ctx context.Context, c db.Conn, n int, l []ID) error { return c.UpdateDomains(ctx, l, names(l)) }),
		w("InsertDomainsIntoDirty", empty, func(ctx context.Context, c db.Conn, n int, l []ID) error { return c.InsertDomainsIntoDirty(ctx, l) }),
		w("UpdateDomainCerts", empty, func(ctx context.Context, c db.Conn, n int, l []ID) error { return c.UpdateDomainCerts(ctx, l, rot(l)) }),
		w("UpdateDomainPolicies", empty, func(ctx context.Context, c db.Conn, n int, l []ID) error { return c.UpdateDomainPolicies(ctx, l, rot(l)) }),
		w("UpdateTreeNodes", empty, func(ctx context.Context, c db.Conn, n int, l []ID) error {
			var kv []*db.TreeNodeRecord
			for i, id := range l {
				kv = append(kv, &db.TreeNodeRecord{Key: id, Value: []byte(fmt.Sprint(i))})
			}
			_, err := c.UpdateTreeNodes(ctx, kv)
			return err
		}),
		w("DeleteTreeNodes", func(n int, l []ID) *memdb.State {
			s := memdb.NewState()
			for i, id := range l {
				if i%3 != 1 {
					s.Tree[id] = fmt.Sprint(i)
				}
			}
			s.Tree[nm(1, "stays")] = "x"
			return s
		}, func(ctx context.Context, c db.Conn, n int, l []ID) error { _, err := c.DeleteTreeNodes(ctx, l); return err }),
		w("PruneCerts", func(n int, l []ID) *memdb.State {
			s := certs(n, l)
			for i, id := range l {
				s.DomainCerts[l[i/2]] = map[ID]bool{id: true}
			}
			return s
		}, func(ctx context.Context, c db.Conn, n int, l []ID) error {
			return c.PruneCerts(ctx, time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC))
		}),
		w("Recompute", dirty, func(ctx context.Context, c db.Conn, n int, l []ID) error {
			return c.RecomputeDirtyDomainsCertAndPolicyIDs(ctx)
		}),
		w("Recompute one domain", many, func(ctx context.Context, c db.Conn, n int, l []ID) error {
			return c.RecomputeDirtyDomainsCertAndPolicyIDs(ctx)
		}),
		rd("CheckCertsExist", certs, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.CheckCertsExist(ctx, l)
			return fmt.Sprint(x), err
		}),
		rd("CheckPoliciesExist", pols, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.CheckPoliciesExist(ctx, l)
			return fmt.Sprint(x), err
		}),
		rd("RetrieveCertificatePayloads", certs, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.RetrieveCertificatePayloads(ctx, l)
			return raws(x), err
		}),
		rd("RetrievePolicyPayloads", pols, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.RetrievePolicyPayloads(ctx, l)
			return raws(x), err
		}),
		rd("RetrieveCertificateOrPolicyPayloads", func(n int, l []ID) *memdb.State {
			s := certs(n, l)
			for i, id := range l {
				if i%3 == 1 && i%2 == 0 {
					s.Policies[id] = obj(i, id)
				}
			}
			return s
		}, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.RetrieveCertificateOrPolicyPayloads(ctx, l)
			return raws(x), err
		}),
		rd("RetrieveDomainEntries", func(n int, l []ID) *memdb.State {
			s := memdb.NewState()
			for i, id := range l {
				if i%3 != 1 {
					s.Payloads[id] = memdb.Payload{CertIDs: string(id[:])}
				}
			}
			return s
		}, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.RetrieveDomainEntries(ctx, l)
			return entries(x), err
		}),
		rd("DirtyCount", dirty, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.DirtyCount(ctx)
			return fmt.Sprint(x), err
		}),
		rd("RetrieveDirtyDomains", dirty, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			x, err := c.RetrieveDirtyDomains(ctx)
			sort.Slice(x, func(i, j int) bool { return string(x[i][:]) < string(x[j][:]) })
			return fmt.Sprintf("%x", x), err
		}),
	}
	for _, m := range []uint64{1, 31, 32, 33, 100, 1000, 5000} {
		ops = append(ops, rd(fmt.Sprint("DirtyBundles of ", m), dirty, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			if m == 1 && n > 64 {
				return "", nil
			}
			return bundles(ctx, c, m)
		}))
	}
	for _, m := range []uint64{1, 7, 1000} {
		ops = append(ops, rd(fmt.Sprint("DirtyOnes of ", m), dirty, func(ctx context.Context, c db.Conn, n int, l []ID) (string, error) {
			var all []db.DomainEntryRecord
			if m < 1000 && n > 64 {
				return "", nil
			}
			for i := uint64(0); i < uint64(n)+m; i += m {
				x, err := c.RetrieveDomainEntriesDirtyOnes(ctx, i, i+m)
				if err != nil {
					return "", err
				}
				all = append(all, x...)
			}
			return entries(all), nil
		}))
	}
	ns := []int{0, 1, 2, 33, 999, 1000, 1001, 1024, 1025, 2000}
	if r.Thorough() {
		ns = append(ns, 3, 31, 32, 64, 1022, 1023, 1999, 2001, 2047, 2048, 2049, 3000, 4096, 5000)
	}
	type job struct {
		o   sized
		n   int
		one bool
	}
	var jobs []job
	for _, o := range ops {
		for _, n := range ns {
			jobs = append(jobs, job{o, n, false})
			if n > 1 && (strings.HasPrefix(o.name, "Recompute") || strings.HasPrefix(o.name, "Dirty")) {
				jobs = append(jobs, job{o, n, true})
			}
		}
	}
	r.Extra("batch_sizes", ns)
	r.Parallel("batch sizes", len(jobs), func(i int) {
		j := jobs[i]
		l := ids(j.n, j.one)
		if r.Case(fmt.Sprintf("%s n=%d one-partition=%v", j.o.name, j.n, j.one), nil, func() error {
			return with(func(s *server) error { _, err := s.both(j.o.prep(j.n, l), j.o.op(j.n, l), j.o.write); return err })
		}) {
			r.Distinct.Add(1)
		}
	})
}
