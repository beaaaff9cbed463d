// Package fix builds the small universe of certificates and policies of the map checks, and the
// reference computation of what the map has to contain.
package fix

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

type ID = common.SHA256Output

// Cert is a certificate of the universe.
type Cert struct {
	Name   string
	C      *ctx509.Certificate
	ID     ID
	Parent *Cert
	Names  []string // distinct names it covers
	Exp    time.Time
}

func key(seed byte) ed25519.PrivateKey {
	s := make([]byte, ed25519.SeedSize)
	for i := range s {
		s[i] = seed
	}
	return ed25519.NewKeyFromSeed(s)
}

var serial int64

// New makes a certificate with the given common name and alternative names, signed by parent's key.
func New(name, cn string, sans []string, parent *Cert, exp time.Time) *Cert {
	serial++
	k := key(1) // one key for all: signatures are not looked at
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial),
		Subject:      pkix.Name{CommonName: cn, Organization: []string{name}},
		DNSNames:     sans,
		NotBefore:    time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC),
		NotAfter:     exp,
	}
	p := t
	if parent != nil {
		p = &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: parent.Name}}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, k.Public(), k)
	if err != nil {
		panic(err)
	}
	c, err := ctx509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	var names []string
	for _, n := range append([]string{cn}, sans...) {
		if n != "" && !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	return &Cert{Name: name, C: c, ID: common.SHA256Hash32Bytes(der), Parent: parent, Names: names, Exp: exp}
}

// Chain returns the ancestors, direct parent first.
func (c *Cert) Chain() (l []*ctx509.Certificate) {
	for p := c.Parent; p != nil; p = p.Parent {
		l = append(l, p.C)
	}
	return
}

func (c *Cert) Object() memdb.Object {
	o := memdb.Object{Exp: c.Exp.UTC().Format(time.DateTime), Payload: string(c.C.Raw)}
	if c.Parent != nil {
		o.Parent = c.Parent.ID
	}
	return o
}

// Policy is a policy document of the universe.
type Policy struct {
	Name    string
	Doc     *common.PolicyCertificate
	ID      ID
	Payload string
}

func NewPolicy(name, domain string, serialNumber int) *Policy {
	d := &common.PolicyCertificate{}
	d.DomainField = domain
	d.SerialNumberField = serialNumber
	d.Version = 1
	pl, err := common.ToJSON(d)
	if err != nil {
		panic(err)
	}
	return &Policy{Name: name, Doc: d, ID: common.SHA256Hash32Bytes(pl), Payload: string(pl)}
}

// Expect computes the certificates and entries that must exist after the given leaves and policies
// were submitted, with none expired.
type Expect struct {
	Certs    map[ID]memdb.Object
	Entries  map[ID]memdb.Payload
	Domains  map[ID]string
	Policies map[ID]memdb.Object
}

func glue(m map[ID]bool) string {
	var b strings.Builder
	for _, id := range memdb.SortedKeys(m) {
		b.Write(id[:])
	}
	return b.String()
}

func ExpectOf(leaves []*Cert, pols []*Policy) *Expect {
	e := &Expect{Certs: map[ID]memdb.Object{}, Entries: map[ID]memdb.Payload{}, Domains: map[ID]string{}, Policies: map[ID]memdb.Object{}}
	dc, dp := map[ID]map[ID]bool{}, map[ID]map[ID]bool{}
	add := func(m map[ID]map[ID]bool, name string, id ID) {
		d := ID(common.SHA256Hash([]byte(name)))
		e.Domains[d] = name
		if m[d] == nil {
			m[d] = map[ID]bool{}
		}
		m[d][id] = true
	}
	for _, l := range leaves {
		for c := l; c != nil; c = c.Parent {
			e.Certs[c.ID] = c.Object()
			for _, n := range l.Names {
				add(dc, n, c.ID)
			}
		}
	}
	for _, p := range pols {
		add(dp, p.Doc.Domain(), p.ID)
		e.Policies[p.ID] = memdb.Object{Payload: p.Payload}
	}
	for d := range e.Domains {
		e.Entries[d] = memdb.Payload{CertIDs: glue(dc[d]), PolicyIDs: glue(dp[d])}
	}
	return e
}

// Value is the leaf value of the tree for an entry.
func Value(p memdb.Payload) []byte {
	ids := map[ID]bool{}
	for _, s := range []string{p.CertIDs, p.PolicyIDs} {
		for i := 0; i+32 <= len(s); i += 32 {
			ids[ID([]byte(s[i:i+32]))] = true
		}
	}
	return common.SHA256Hash([]byte(glue(ids)))
}

// Namer maps identifiers to names for messages.
type Namer map[ID]string

func (n Namer) Certs(cs ...*Cert) {
	for _, c := range cs {
		n[c.ID] = c.Name
		for _, x := range c.Names {
			n[ID(common.SHA256Hash([]byte(x)))] = x
		}
	}
}
func (n Namer) Policies(ps ...*Policy) {
	for _, p := range ps {
		n[p.ID] = p.Name
		n[ID(common.SHA256Hash([]byte(p.Doc.Domain())))] = p.Doc.Domain()
	}
}
func (n Namer) Of(id ID) string {
	if s, ok := n[id]; ok {
		return s
	}
	return fmt.Sprintf("%x", id[:4])
}
func (n Namer) Glued(s string) string {
	var l []string
	for i := 0; i+32 <= len(s); i += 32 {
		l = append(l, n.Of(ID([]byte(s[i:i+32]))))
	}
	if len(s)%32 != 0 {
		l = append(l, "(broken)")
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ",") + "}"
}

// CompareEntries compares entries and domains of the state with the expectation.
func (n Namer) CompareEntries(s *memdb.State, e *Expect) error {
	for d, w := range e.Entries {
		g := s.Payloads[d]
		if g != w {
			return fmt.Errorf("entry of %s lists certificates %s and policies %s, expected %s and %s", n.Of(d),
				n.Glued(g.CertIDs), n.Glued(g.PolicyIDs), n.Glued(w.CertIDs), n.Glued(w.PolicyIDs))
		}
		if s.Domains[d] != e.Domains[d] {
			return fmt.Errorf("name of domain %s stored as %q", n.Of(d), s.Domains[d])
		}
	}
	for d, g := range s.Payloads {
		if _, ok := e.Entries[d]; !ok {
			return fmt.Errorf("unexpected entry of %s: certificates %s, policies %s", n.Of(d), n.Glued(g.CertIDs), n.Glued(g.PolicyIDs))
		}
	}
	for d, g := range s.Domains {
		if _, ok := e.Entries[d]; !ok {
			return fmt.Errorf("unexpected domain %q", g)
		}
	}
	return nil
}

// CompareObjects compares the stored certificates and policies with the expectation.
func (n Namer) CompareObjects(s *memdb.State, e *Expect) error {
	for id, w := range e.Certs {
		g, ok := s.Certs[id]
		if !ok {
			return fmt.Errorf("certificate %s is not stored", n.Of(id))
		}
		if g.Payload != w.Payload {
			return fmt.Errorf("certificate %s stored with another payload", n.Of(id))
		}
		if g.Parent != w.Parent {
			return fmt.Errorf("certificate %s stored with parent %s, expected %s", n.Of(id), n.Of(g.Parent), n.Of(w.Parent))
		}
		if g.Exp != w.Exp {
			return fmt.Errorf("certificate %s stored with expiration %s, its own is %s", n.Of(id), g.Exp, w.Exp)
		}
	}
	for id := range s.Certs {
		if _, ok := e.Certs[id]; !ok {
			return fmt.Errorf("unexpected certificate %s", n.Of(id))
		}
	}
	for id, w := range e.Policies {
		if s.Policies[id].Payload != w.Payload {
			return fmt.Errorf("policy %s not stored or with another payload", n.Of(id))
		}
	}
	for id := range s.Policies {
		if _, ok := e.Policies[id]; !ok {
			return fmt.Errorf("unexpected policy %s", n.Of(id))
		}
	}
	return nil
}
