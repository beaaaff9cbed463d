// Command c25: the policy CA.
package main

import (
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/domainowner"
	"github.com/netsec-ethz/fpki/pkg/pca"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/polx"
)

type (
	pc  = common.PolicyCertificate
	req = common.PolicyCertificateSigningRequest
)

// logs stands in for the policy logs.
type logs struct {
	root    *pc
	calls   int
	failAt  int // call that fails, -1: none
	stamped map[string]*common.SignedPolicyCertificateTimestamp
	final   map[string]string
	first   []string
	bad     error
}

var errLog = errors.New("log unavailable")

func (l *logs) ObtainSptFromLogServer(url string, p *pc) (*common.SignedPolicyCertificateTimestamp, error) {
	n := l.calls
	l.calls++
	if err := crypto.VerifyIssuerSignature(l.root, polx.Copy(p)); err != nil {
		l.bad = fmt.Errorf("the log got a certificate without valid issuer signature: %w", err)
	}
	if len(p.SPCTs) != 0 {
		l.bad = fmt.Errorf("the log got a certificate that is stamped already")
	}
	l.first = append(l.first, url)
	if n == l.failAt {
		return nil, errLog
	}
	s := common.NewSignedPolicyCertificateTimestamp(n, []byte(url), polx.T0.Add(time.Duration(n)), []byte{byte(n)})
	l.stamped[url] = s
	return s, nil
}

func (l *logs) SendPolicyCertificateToLogServer(url string, p *pc) error {
	n := l.calls
	l.calls++
	if n == l.failAt {
		return errLog
	}
	if _, ok := l.final[url]; ok {
		l.bad = fmt.Errorf("log %s got the final certificate twice", url)
	}
	l.final[url] = polx.Canon(*p)
	return nil
}

// world is a policy CA with what its clients know.
type world struct {
	ca     *pca.PCA
	urls   []string
	issued []polx.Cert // certificates issued, with their keys
	barred []polx.Cert // certificates issued that cannot own
	reqs   []*req      // requests made
	expDB  map[[32]byte]string
	serial int
}

func (w *world) db() string {
	var l []string
	for k, v := range w.ca.DB {
		l = append(l, fmt.Sprintf("%x %s", k, polx.Canon(*v)))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (w *world) want() string {
	var l []string
	for k, v := range w.expDB {
		l = append(l, fmt.Sprintf("%x %s", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var (
	kForge, kRoot, kOwner, kOther, kChild = polx.NewKey("forge"), polx.NewKey("root"), polx.NewKey("owner"), polx.NewKey("other"), polx.NewKey("child")
)

func rootCert() *pc {
	return common.NewPolicyCertificate(1, 1, "", polx.T0, polx.T0.Add(1000*time.Hour), true, true, kRoot.Pub, common.RSA, common.SHA256, polx.T0,
		common.PolicyAttributes{}, nil, nil, nil, nil, nil)
}

// writeConfig writes the configuration of a CA with n logs.
func writeConfig(file string, n int, cert *pc, key *polx.Key) error {
	cj, err := common.ToJSON(cert)
	if err != nil {
		return err
	}
	c := &pca.PCAConfig{CAName: "pca", CertJSON: cj,
		KeyPEM: pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key.Priv)})}
	for i := range n {
		c.CTLogServers = append(c.CTLogServers, pca.CTLogServerEntryConfig{Name: fmt.Sprint("log", i), URL: fmt.Sprintf("log%d", i), PublicKeyDER: []byte{byte(i)}})
	}
	return pca.SaveConfigToFile(c, file)
}

func newWorld(cfg string, n int) (*world, error) {
	ca, err := pca.NewPCA(cfg)
	if err != nil {
		return nil, err
	}
	w := &world{ca: ca, expDB: map[[32]byte]string{}}
	for i := range n {
		w.urls = append(w.urls, fmt.Sprintf("log%d", i))
	}
	var got []string
	for k, s := range ca.CtLogServers {
		if k != common.SHA256Hash32Bytes(s.PublicKeyDER) {
			return nil, fmt.Errorf("log %s stored under another key", s.URL)
		}
		got = append(got, s.URL)
	}
	sort.Strings(got)
	if strings.Join(got, ",") != strings.Join(w.urls, ",") || ca.RootPolicyCert == nil || polx.Canon(*ca.RootPolicyCert) != polx.Canon(*rootCert()) {
		return nil, fmt.Errorf("the CA has logs %v and not its configuration", got)
	}
	return w, nil
}

// newReq is a plain request; every request differs from the others.
func (w *world) newReq(domain string, canOwn bool, k *polx.Key) *req {
	w.serial++
	return common.NewPolicyCertificateSigningRequest(1, 100+w.serial, domain, polx.T0.Add(time.Second), polx.T0.Add(time.Hour), false, canOwn, k.Pub,
		common.RSA, common.SHA256, polx.T0, common.PolicyAttributes{AllowedCAs: []string{"CA1"}, ExcludedSubdomains: []string{"x"}}, nil, nil)
}

func sign(owner *pc, k *polx.Key, q *req) error {
	h, err := crypto.ComputeHashAsSigner(polx.Copy(owner))
	if err != nil {
		return err
	}
	q.OwnerHash = h
	ser, err := common.ToJSON(common.NewPolicyCertificateFromRequest(q))
	if err != nil {
		return err
	}
	q.OwnerSignature, err = crypto.SignBytes(ser, k.Priv)
	return err
}

// submit has a request signed by the CA and compares everything with the expectation.
func (w *world) submit(q *req, k *polx.Key, accept bool, failAt int) error {
	l := &logs{root: w.ca.RootPolicyCert, failAt: failAt, stamped: map[string]*common.SignedPolicyCertificateTimestamp{}, final: map[string]string{}}
	w.ca.LogServerRequester = l
	bq, broot, bserial := polx.Exact(q), polx.Exact(w.ca.RootPolicyCert), w.ca.SerialNumber
	if failAt >= 2*len(w.urls) {
		failAt = -1
	}
	p, err := w.ca.SignAndLogRequest(q)
	if l.bad != nil {
		return l.bad
	}
	if polx.Exact(q) != bq {
		return fmt.Errorf("the request was changed")
	}
	if polx.Exact(w.ca.RootPolicyCert) != broot || w.ca.SerialNumber != bserial {
		return fmt.Errorf("the certificate or serial number of the CA was changed")
	}
	if !accept {
		if err == nil {
			return fmt.Errorf("the request was accepted")
		}
		if l.calls != 0 {
			return fmt.Errorf("a refused request was sent to a log")
		}
	} else if failAt >= 0 {
		if !errors.Is(err, errLog) {
			return fmt.Errorf("a log failed but the result was %v", err)
		}
	} else if err != nil {
		return fmt.Errorf("the request was refused: %w", err)
	}
	if err != nil {
		if p != nil {
			return fmt.Errorf("certificate and error returned")
		}
		if w.db() != w.want() {
			return fmt.Errorf("a refused request changed the database:\n%s\nexpected\n%s", w.db(), w.want())
		}
		return nil
	}
	if err := crypto.VerifyIssuerSignature(w.ca.RootPolicyCert, p); err != nil {
		return fmt.Errorf("issued certificate: %w", err)
	}
	if polx.Canon(req{PolicyCertificateFields: p.PolicyCertificateFields}) != polx.Canon(*q) {
		return fmt.Errorf("the certificate differs from the request:\n%s\n%s", polx.Canon(p.PolicyCertificateFields), polx.Canon(*q))
	}
	if len(p.SPCTs) != len(w.urls) || len(l.stamped) != len(w.urls) || len(l.first) != len(w.urls) {
		return fmt.Errorf("%d timestamps from %v, expected one of each log", len(p.SPCTs), l.first)
	}
	for _, s := range p.SPCTs {
		if x := l.stamped[string(s.LogID)]; x == nil || polx.Canon(*x) != polx.Canon(s) {
			return fmt.Errorf("timestamp %v is not the one of the log", s)
		}
		delete(l.stamped, string(s.LogID))
	}
	for _, u := range w.urls {
		if l.final[u] != polx.Canon(*p) {
			return fmt.Errorf("log %s did not get the final certificate", u)
		}
	}
	w.expDB[common.SHA256Hash32Bytes(p.PublicKey)] = polx.Canon(*p)
	if w.db() != w.want() {
		return fmt.Errorf("wrong database:\n%s\nexpected\n%s", w.db(), w.want())
	}
	if p.CanOwn {
		w.issued = append(w.issued, polx.Cert{Key: k, PC: p})
	} else {
		w.barred = append(w.barred, polx.Cert{Key: k, PC: p})
	}
	return nil
}

// last is the latest issued certificate (skipping n).
func (w *world) last(n int) *polx.Cert {
	if len(w.issued) <= n {
		return nil
	}
	return &w.issued[len(w.issued)-1-n]
}

type op struct {
	name string
	run  func(w *world) error
}

func ops() []op {
	stranger := polx.NewCert("stranger", "a.com", 55, kOther)
	signed := func(n int, f func(w *world, o *polx.Cert, q *req) (bool, error)) func(w *world) error {
		return func(w *world) error {
			o := w.last(n)
			if o == nil {
				return nil
			}
			q := w.newReq("a.com", true, kOwner)
			ok, err := f(w, o, q)
			if err != nil {
				return err
			}
			w.reqs = append(w.reqs, q)
			return w.submit(q, kOwner, ok, -1)
		}
	}
	return []op{
		{"first certificate", func(w *world) error {
			q := w.newReq("a.com", true, kOwner)
			w.reqs = append(w.reqs, q)
			return w.submit(q, kOwner, true, -1)
		}},
		{"first certificate, another key", func(w *world) error { return w.submit(w.newReq("b.com", true, kChild), kChild, true, -1) }},
		{"first certificate, cannot own", func(w *world) error { return w.submit(w.newReq("c.com", false, kOther), kOther, true, -1) }},
		{"owner signature of another key, certificate that cannot own", func(w *world) error {
			if len(w.barred) == 0 {
				return nil
			}
			o, q := w.barred[len(w.barred)-1], w.newReq("a.com", true, kOwner)
			if err := sign(o.PC, kForge, q); err != nil {
				return err
			}
			return w.submit(q, kOwner, false, -1)
		}},
		{"owned by the last certificate", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) {
			return true, crypto.SignAsOwner(o.PC, o.Key.Priv, q)
		})},
		{"owned by the certificate before", signed(1, func(w *world, o *polx.Cert, q *req) (bool, error) {
			return true, crypto.SignAsOwner(o.PC, o.Key.Priv, q)
		})},
		{"owner signature of another key", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) { return false, sign(o.PC, kForge, q) })},
		{"owner signature of another key, certificate before", signed(1, func(w *world, o *polx.Cert, q *req) (bool, error) { return false, sign(o.PC, kForge, q) })},
		{"changed after signing", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) {
			err := crypto.SignAsOwner(o.PC, o.Key.Priv, q)
			q.DomainField = "evil.com"
			return false, err
		})},
		{"damaged signature", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) {
			err := crypto.SignAsOwner(o.PC, o.Key.Priv, q)
			q.OwnerSignature[3] ^= 1
			return false, err
		})},
		{"signature with owner hash cut", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) {
			err := crypto.SignAsOwner(o.PC, o.Key.Priv, q)
			q.OwnerHash = q.OwnerHash[:31]
			return false, err
		})},
		{"signature with owner hash extended", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) {
			err := crypto.SignAsOwner(o.PC, o.Key.Priv, q)
			q.OwnerHash = append(q.OwnerHash, 0)
			return false, err
		})},
		{"signature without owner hash", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) {
			err := crypto.SignAsOwner(o.PC, o.Key.Priv, q)
			q.OwnerHash = nil
			return false, err
		})},
		{"signature moved from an earlier request", signed(0, func(w *world, o *polx.Cert, q *req) (bool, error) {
			for i := len(w.reqs) - 1; i >= 0; i-- {
				if len(w.reqs[i].OwnerSignature) > 0 && len(w.reqs[i].OwnerHash) == 32 {
					q.OwnerHash, q.OwnerSignature = w.reqs[i].OwnerHash, w.reqs[i].OwnerSignature
					for _, x := range w.issued {
						h, _ := crypto.ComputeHashAsSigner(x.PC)
						if string(h) == string(q.OwnerHash) {
							return false, nil
						}
					}
					return true, nil // the owner is unknown
				}
			}
			return true, nil
		})},
		{"owner unknown to the CA", signed(-1, nil)},
		{"first log fails", func(w *world) error { return w.submit(w.newReq("a.com", true, kOwner), kOwner, true, 0) }},
		{"last timestamp fails", func(w *world) error { return w.submit(w.newReq("a.com", true, kOwner), kOwner, true, len(w.urls)-1) }},
		{"first final log fails", func(w *world) error { return w.submit(w.newReq("a.com", true, kOwner), kOwner, true, len(w.urls)) }},
		{"last final log fails", func(w *world) error {
			return w.submit(w.newReq("a.com", true, kOwner), kOwner, true, 2*len(w.urls)-1)
		}},
		{"request made by the CA", func(w *world) error {
			o := w.last(0)
			own, k := stranger.PC, stranger.Key
			if o != nil {
				own, k = o.PC, o.Key
			}
			h, err := crypto.ComputeHashAsSigner(own)
			if err != nil {
				return err
			}
			n := w.ca.SerialNumber
			for i, v := range []struct {
				nb, na time.Time
				ok     bool
			}{{polx.T0.Add(-1), polx.T0.Add(time.Hour), false}, {polx.T0, polx.T0.Add(1000*time.Hour + 1), false}, {polx.T0, polx.T0.Add(1000 * time.Hour), true}, {polx.T0.Add(1), polx.T0.Add(2), true}} {
				calls, canIssue, canOwn := 0, (i+len(w.issued))&1 == 0, (i+len(w.barred))&2 == 0
				q, err := w.ca.NewPolicyCertificateSigningRequest(3, "d.com", v.nb, v.na, canIssue, canOwn, kChild.Pub, common.RSA, common.SHA256, common.PolicyAttributes{AllowedCAs: []string{"q"}},
					func(b []byte) []byte {
						calls++
						s, _ := crypto.SignBytes(b, k.Priv)
						return s
					}, h)
				if (err == nil) != v.ok {
					return fmt.Errorf("validity %d: %v", i, err)
				}
				if err != nil {
					if calls != 0 || w.ca.SerialNumber != n || q != nil {
						return fmt.Errorf("validity %d: refused but signed", i)
					}
					continue
				}
				n++
				if w.ca.SerialNumber != n || q.SerialNumber() != n {
					return fmt.Errorf("serial number %d after %d", q.SerialNumber(), n-1)
				}
				want := common.NewPolicyCertificateSigningRequest(3, n, "d.com", v.nb, v.na, canIssue, canOwn, kChild.Pub, common.RSA, common.SHA256, q.TimeStamp, common.PolicyAttributes{AllowedCAs: []string{"q"}}, q.OwnerSignature, h)
				if polx.Canon(*q) != polx.Canon(*want) || calls != 1 {
					return fmt.Errorf("wrong request %s", polx.Canon(*q))
				}
				if err := crypto.VerifyOwnerSignature(own, q); err != nil {
					return fmt.Errorf("the request does not verify: %w", err)
				}
				if err := w.submit(q, kChild, true, -1); err != nil {
					return err
				}
			}
			return nil
		}},
	}
}

func main() {
	r := core.Start("C25", "exploration")
	r.Rule = "a history of requests is sent to a fresh CA; a case is distinct by its sequence of request kinds and the number of logs"
	dir := os.Getenv("VERIF_WORK")
	all := ops()
	stranger := polx.NewCert("stranger", "a.com", 55, kOther)
	for i := range all {
		if all[i].name == "owner unknown to the CA" {
			all[i].run = func(w *world) error { // no cool off period is enforced by the CA
				q := w.newReq("a.com", true, kOther)
				if err := sign(stranger.PC, kOther, q); err != nil {
					return err
				}
				return w.submit(q, kOther, true, -1)
			}
		}
	}
	for n := range 4 {
		if err := writeConfig(filepath.Join(dir, fmt.Sprintf("pca%d.json", n)), n, rootCert(), kRoot); err != nil {
			r.InternalError("%v", err)
		}
	}
	depth := r.Pick(3, 4)
	type job struct{ logs, first, second int }
	var jobs []job
	for _, n := range []int{2, 1, 3, 0} {
		for i := range all {
			for j := range all {
				jobs = append(jobs, job{n, i, j})
			}
		}
	}
	r.Parallel("request histories", len(jobs), func(i int) {
		j := jobs[i]
		d := depth
		if j.logs != 2 {
			d = depth - 1
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			if r.Expired("request histories") {
				return
			}
			var names []string
			for _, s := range seq {
				names = append(names, all[s].name)
			}
			if r.Case(fmt.Sprintf("%d logs: %s", j.logs, strings.Join(names, "; ")), nil, func() error {
				w, err := newWorld(filepath.Join(dir, fmt.Sprintf("pca%d.json", j.logs)), j.logs)
				if err != nil {
					return err
				}
				for k, s := range seq {
					if j.logs == 0 && strings.Contains(all[s].name, "fails") {
						continue
					}
					if err := all[s].run(w); err != nil {
						return fmt.Errorf("step %d (%s): %w", k, all[s].name, err)
					}
				}
				return nil
			}) {
				r.Distinct.Add(1)
			}
			if len(seq) < d {
				for s := range all {
					rec(append(seq[:len(seq):len(seq)], s))
				}
			}
		}
		rec([]int{j.first, j.second})
	})

	// configurations that do not fit together
	bad := filepath.Join(dir, "bad.json")
	for what, f := range map[string]func() error{
		"key of another certificate": func() error { return writeConfig(bad, 1, rootCert(), kOther) },
		"no file":                    func() error { os.Remove(bad); return nil },
		"not json":                   func() error { return os.WriteFile(bad, []byte("{"), 0644) },
		"empty":                      func() error { return os.WriteFile(bad, []byte("{}"), 0644) },
		"certificate is a request": func() error {
			b, _ := common.ToJSON(&req{})
			d, _ := json.Marshal(pca.PCAConfig{CertJSON: b, KeyPEM: pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(kRoot.Priv)})})
			return os.WriteFile(bad, d, 0644)
		},
	} {
		r.Case("configuration: "+what, nil, func() error {
			if err := f(); err != nil {
				return err
			}
			if _, err := pca.NewPCA(bad); err == nil {
				return fmt.Errorf("accepted")
			}
			return nil
		})
	}

	// the owner's side: requests carry the owner's signature exactly when the owner has a certificate that can own
	for i, c := range []struct {
		have, canOwn, other bool
	}{{false, false, false}, {true, true, false}, {true, false, false}, {true, true, true}} {
		r.Case(fmt.Sprint("domain owner ", i), nil, func() error {
			do := domainowner.NewDomainOwner()
			cert := polx.NewCert("o", "a.com", 1, kOwner)
			cert.PC.CanOwn = c.canOwn
			d := "a.com"
			if c.other {
				d = "b.com"
			}
			if c.have {
				do.DomainRoots[d] = domainowner.CertKey{Cert: cert.PC, Key: kOwner.Priv}
			}
			q, err := do.GeneratePolCertSignRequest("a.com", 5)
			if c.have && !c.other && !c.canOwn {
				if err == nil {
					return fmt.Errorf("signed with a certificate that cannot own")
				}
				return nil
			}
			if err != nil {
				return err
			}
			if q.DomainField != "a.com" || q.Version != 5 {
				return fmt.Errorf("wrong request %+v", q)
			}
			if c.have && !c.other {
				return crypto.VerifyOwnerSignature(cert.PC, q)
			}
			if q.OwnerHash != nil || q.OwnerSignature != nil {
				return fmt.Errorf("signed without an own certificate")
			}
			return nil
		})
	}
	r.Assume("requests without owner signature, or signed by an owner certificate the CA did not issue, are issued: the code leaves the cool-off period to clients")
	r.Finish()
}
