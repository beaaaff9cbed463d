// Command c23: signatures on policy objects.
package main

import (
	"crypto/sha256"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/polx"
)

type (
	pc  = common.PolicyCertificate
	req = common.PolicyCertificateSigningRequest
)

var (
	pcFields   = polx.Fields(reflect.TypeOf(pc{}))
	reqFields  = polx.Fields(reflect.TypeOf(req{}))
	spctFields = polx.Fields(reflect.TypeOf(common.SignedPolicyCertificateTimestamp{}))
)

// identity is the content on which the identifier of a signer depends.
func identity(c *pc) string { return polx.Canon(*c, "SPCTs", "IssuerSignature") }

// what the signatures cover
func ownerContent(c *pc) string {
	return polx.Canon(*c, "SPCTs", "IssuerSignature", "IssuerHash", "OwnerSignature")
}
func issuerContent(c *pc) string { return polx.Canon(*c, "IssuerSignature") }

// ids remembers which content every identifier handed out belongs to.
var ids sync.Map

// hashes remembers the identifier of every content.
var hashes sync.Map

func hashOf(c *pc) ([]byte, error) {
	b := polx.Exact(c)
	h, err := crypto.ComputeHashAsSigner(c)
	if err != nil {
		return nil, err
	}
	if polx.Exact(c) != b {
		return nil, fmt.Errorf("computing the identifier changed the certificate")
	}
	if len(h) != 32 {
		return nil, fmt.Errorf("identifier of %d bytes", len(h))
	}
	if old, ok := ids.LoadOrStore(string(h), identity(c)); ok && old != identity(c) {
		return nil, fmt.Errorf("two certificates share an identifier:\n%s\n%s", old, identity(c))
	}
	bare := *c
	bare.SPCTs, bare.IssuerSignature, bare.JSONField = nil, nil, nil
	if old, ok := hashes.LoadOrStore(polx.Exact(bare), string(h)); ok && old != string(h) {
		return nil, fmt.Errorf("a certificate has two identifiers, depending on its timestamps or its issuer's signature: %s", identity(c))
	}
	return h, nil
}

// model of the signatures on an object
type sig struct {
	key     string // public key
	content string
}

type tracked struct {
	owner, issuer map[string]sig // signature bytes -> what they were made for
}

func (t *tracked) ownerOK(signer *pc, c *pc) (bool, error) {
	h, err := hashOf(signer)
	if err != nil {
		return false, err
	}
	s, ok := t.owner[string(c.OwnerSignature)]
	return ok && string(h) == string(c.OwnerHash) && s.key == string(signer.PublicKey) && s.content == ownerContent(c), nil
}

func (t *tracked) issuerOK(signer *pc, c *pc) (bool, error) {
	h, err := hashOf(signer)
	if err != nil {
		return false, err
	}
	s, ok := t.issuer[string(c.IssuerSignature)]
	return ok && string(h) == string(c.IssuerHash) && s.key == string(signer.PublicKey) && s.content == issuerContent(c), nil
}

// same reports whether a verification agrees with the model and changes nothing.
func same(what string, want bool, call func() error, objs ...any) error {
	var before []string
	for _, o := range objs {
		before = append(before, polx.Exact(o))
	}
	err := call()
	if (err == nil) != want {
		return fmt.Errorf("%s: accepted=%v (%v), expected %v", what, err == nil, err, want)
	}
	for i, o := range objs {
		if polx.Exact(o) != before[i] {
			return fmt.Errorf("%s changed its argument %d", what, i)
		}
	}
	return nil
}

func asReq(c *pc) *req { return &req{PolicyCertificateFields: c.PolicyCertificateFields} }

// verifyAll checks every verification function on the object with every candidate signer.
func (t *tracked) verifyAll(c *pc, signers []*polx.Cert) error {
	for _, s := range signers {
		want, err := t.ownerOK(s.PC, c)
		if err != nil {
			return err
		}
		if err := same("owner signature in certificate, signer "+s.Name, want, func() error { return crypto.VerifyOwnerSignatureInPolicyCertificate(s.PC, c) }, s.PC, c); err != nil {
			return err
		}
		q := asReq(c)
		if err := same("owner signature in request, signer "+s.Name, want, func() error { return crypto.VerifyOwnerSignature(s.PC, q) }, s.PC, q); err != nil {
			return err
		}
		want, err = t.issuerOK(s.PC, c)
		if err != nil {
			return err
		}
		if err := same("issuer signature, signer "+s.Name, want, func() error { return crypto.VerifyIssuerSignature(s.PC, c) }, s.PC, c); err != nil {
			return err
		}
	}
	return nil
}

func base(k int, key *polx.Key) *pc {
	o := polx.Filled(reflect.TypeOf(pc{}), k)
	c := o.Addr().Interface().(*pc)
	c.PublicKey = key.Pub
	c.OwnerSignature, c.OwnerHash, c.IssuerSignature, c.IssuerHash = nil, nil, nil, nil
	return c
}

// own returns copies of signers for use by one goroutine: the functions under test change a
// certificate while they compute with it.
func own(l ...*polx.Cert) (r []*polx.Cert) {
	for _, s := range l {
		c := *s
		c.PC = polx.Copy(s.PC)
		r = append(r, &c)
	}
	return
}

func ptr(v reflect.Value) *pc { return v.Addr().Interface().(*pc) }

func main() {
	r := core.Start("C23", "exploration")
	r.Rule = "an object is signed, changed and verified; a case is distinct by object, signing steps and change"
	kA, kB, kI, kC := polx.NewKey("A"), polx.NewKey("B"), polx.NewKey("I"), polx.NewKey("child")
	A, B, I := polx.NewCert("A", "a.com", 1, kA), polx.NewCert("B", "b.com", 2, kB), polx.NewCert("I", "", 3, kI)
	// same content as A but another key; same key as A but another certificate; A with timestamps
	A2 := polx.NewCert("A-other-key", "a.com", 1, kB)
	A3 := polx.NewCert("A-other-serial", "a.com", 9, kA)
	A4 := polx.NewCert("A-timestamped", "a.com", 1, kA)
	A4.PC.SPCTs = []common.SignedPolicyCertificateTimestamp{polx.Filled(reflect.TypeOf(common.SignedPolicyCertificateTimestamp{}), 2).Interface().(common.SignedPolicyCertificateTimestamp)}
	A4.PC.IssuerSignature = []byte{1, 2}
	A5, A6 := polx.NewCert("A-signed", "a.com", 1, kA), polx.NewCert("A-only-timestamps", "a.com", 1, kA)
	A5.PC.IssuerSignature, A6.PC.SPCTs = A4.PC.IssuerSignature, A4.PC.SPCTs
	I2 := polx.NewCert("I-reissued", "", 3, kI)
	I2.PC.IssuerHash = []byte{1}
	N := polx.NewCert("N-cannot-own", "a.com", 4, kA)
	N.PC.CanOwn = false
	signers := []*polx.Cert{A, B, I, A2, A3, A4, I2, N, A5, A6}

	// 1: every single change (thorough: pair of changes) to a signed object
	type change struct {
		f polx.Field
		v any
	}
	var changes []change
	for _, f := range pcFields {
		for _, v := range polx.Values(f, true) {
			changes = append(changes, change{f, v})
		}
	}
	nbase := r.Pick(3, 6)
	r.Parallel("changes to signed objects", nbase*len(changes), func(i int) {
		b, ch := i/len(changes), changes[i%len(changes)]
		t := &tracked{map[string]sig{}, map[string]sig{}}
		signers := own(signers...)
		A, B, I := signers[0], signers[1], signers[2]
		c := base(b, kC)
		q := asReq(c)
		var signed *pc
		if !r.Case(fmt.Sprintf("sign base %d (%s)", b, ch.f.Path), nil, func() error {
			if err := crypto.SignAsOwner(A.PC, kA.Priv, q); err != nil {
				return err
			}
			tmp := common.NewPolicyCertificateFromRequest(q)
			t.owner[string(q.OwnerSignature)] = sig{string(kA.Pub), ownerContent(tmp)}
			before := polx.Exact(q)
			var err error
			if signed, err = crypto.SignRequestAsIssuer(I.PC, kI.Priv, q); err != nil {
				return err
			}
			if polx.Exact(q) != before {
				return fmt.Errorf("signing as issuer changed the request")
			}
			first := polx.Copy(signed)
			t.issuer[string(signed.IssuerSignature)] = sig{string(kI.Pub), issuerContent(signed)}
			if len(c.SPCTs) > 0 || b%2 == 1 { // the final signature includes the timestamps
				signed.SPCTs = polx.Copy(c.SPCTs)
				signed.IssuerSignature, signed.IssuerHash = nil, nil
				if err := crypto.SignPolicyCertificateAsIssuer(I.PC, kI.Priv, signed); err != nil {
					return err
				}
				t.issuer[string(signed.IssuerSignature)] = sig{string(kI.Pub), issuerContent(signed)}
			}
			// fields are inherited from the request
			if polx.Canon(asReq(signed)) != polx.Canon(*q) && polx.Canon(*asReq(signed)) != polx.Canon(*q) {
				return fmt.Errorf("the certificate differs from the request")
			}
			if err := t.verifyAll(first, signers); err != nil {
				return err
			}
			return t.verifyAll(signed, signers)
		}) {
			return
		}
		apply := func(o *pc, ch change) *pc { return ptr(polx.Set(reflect.ValueOf(o).Elem(), ch.f, ch.v)) }
		one := apply(signed, ch)
		if r.Case(fmt.Sprintf("base %d change %s=%v", b, ch.f.Path, ch.v), nil, func() error { return t.verifyAll(one, signers) }) {
			r.Distinct.Add(1)
		}
		// the same change in the certificate of the signer
		if r.Case(fmt.Sprintf("base %d signer change %s=%v", b, ch.f.Path, ch.v), nil, func() error {
			sA, sI := *A, *I
			sA.PC, sI.PC = apply(A.PC, ch), apply(I.PC, ch)
			sA.Name, sI.Name = "A changed", "I changed"
			return t.verifyAll(signed, []*polx.Cert{&sA, &sI})
		}) {
			r.Distinct.Add(1)
		}
		if r.Thorough() {
			for j, ch2 := range changes {
				if ch2.f.Path == ch.f.Path || j > i%len(changes) || r.Expired("pairs of changes") {
					continue
				}
				two := apply(one, ch2)
				if r.Case(fmt.Sprintf("base %d change %s=%v and %s=%v", b, ch.f.Path, ch.v, ch2.f.Path, ch2.v), nil, func() error { return t.verifyAll(two, []*polx.Cert{A, I, B}) }) {
					r.Distinct.Add(1)
				}
			}
		}
	})

	// 2: every sequence of signing steps
	steps := []string{"own A", "own B", "own N", "issue I", "issue B", "clear owner sig", "clear owner", "clear issuer", "stamp", "rename", "swap", "steal"}
	depth := r.Pick(4, 5)
	var starts [][]int
	for i := range steps {
		for j := range steps {
			starts = append(starts, []int{i, j})
		}
	}
	stamp := polx.Filled(reflect.TypeOf(common.SignedPolicyCertificateTimestamp{}), 1).Interface().(common.SignedPolicyCertificateTimestamp)
	run := func(seq []int) error {
		t := &tracked{map[string]sig{}, map[string]sig{}}
		o := own(A, B, I, A4, N)
		A, B, I, A4, N := o[0], o[1], o[2], o[3], o[4]
		c := base(2, kC)
		c.SPCTs = nil
		other := base(1, kC) // a second, fully signed object
		for k, s := range seq {
			switch st := steps[s]; {
			case strings.HasPrefix(st, "own "):
				by := map[string]*polx.Cert{"A": A, "B": B, "N": N}[st[4:]]
				q := asReq(c)
				want := c.OwnerSignature == nil && c.OwnerHash == nil && by != N
				before, sb := polx.Exact(q), polx.Exact(by.PC)
				err := crypto.SignAsOwner(by.PC, by.Key.Priv, q)
				if (err == nil) != want {
					return fmt.Errorf("step %d of %v: signing as owner: %v, expected success %v", k, seq, err, want)
				}
				if err != nil && polx.Exact(q) != before {
					return fmt.Errorf("step %d of %v: failed signing as owner changed the request", k, seq)
				}
				if polx.Exact(by.PC) != sb {
					return fmt.Errorf("signing changed the owner's certificate")
				}
				if err == nil {
					before := polx.Canon(*c, "OwnerSignature", "OwnerHash")
					c.PolicyCertificateFields = q.PolicyCertificateFields
					if polx.Canon(*c, "OwnerSignature", "OwnerHash") != before {
						return fmt.Errorf("signing as owner changed other fields")
					}
					t.owner[string(c.OwnerSignature)] = sig{string(by.Key.Pub), ownerContent(c)}
					h, err := hashOf(by.PC)
					if err != nil {
						return err
					}
					if string(h) != string(c.OwnerHash) {
						return fmt.Errorf("the owner hash is not the identifier of the owner")
					}
				}
			case strings.HasPrefix(st, "issue "):
				by := map[string]*polx.Cert{"I": I, "B": B}[st[6:]]
				want := c.IssuerSignature == nil && c.IssuerHash == nil
				before, sb := polx.Exact(c), polx.Exact(by.PC)
				rest := polx.Canon(*c, "IssuerSignature", "IssuerHash")
				err := crypto.SignPolicyCertificateAsIssuer(by.PC, by.Key.Priv, c)
				if (err == nil) != want {
					return fmt.Errorf("step %d of %v: signing as issuer: %v, expected success %v", k, seq, err, want)
				}
				if err != nil && polx.Exact(c) != before {
					return fmt.Errorf("step %d of %v: failed signing as issuer changed the certificate", k, seq)
				}
				if polx.Exact(by.PC) != sb || polx.Canon(*c, "IssuerSignature", "IssuerHash") != rest {
					return fmt.Errorf("signing as issuer changed other fields")
				}
				if err == nil {
					t.issuer[string(c.IssuerSignature)] = sig{string(by.Key.Pub), issuerContent(c)}
				}
			case st == "clear owner sig":
				c.OwnerSignature = nil
			case st == "clear owner":
				c.OwnerSignature, c.OwnerHash = nil, nil
			case st == "clear issuer":
				c.IssuerSignature, c.IssuerHash = nil, nil
			case st == "stamp":
				c.SPCTs = append(c.SPCTs[:len(c.SPCTs):len(c.SPCTs)], stamp)
			case st == "rename":
				c.DomainField += "x"
			case st == "swap": // the signatures change places
				c.OwnerSignature, c.OwnerHash, c.IssuerSignature, c.IssuerHash = c.IssuerSignature, c.IssuerHash, c.OwnerSignature, c.OwnerHash
			case st == "steal": // take over the signatures of another object
				if other.OwnerSignature == nil {
					q := asReq(other)
					if err := crypto.SignAsOwner(A.PC, kA.Priv, q); err != nil {
						return err
					}
					other.PolicyCertificateFields = q.PolicyCertificateFields
					t.owner[string(other.OwnerSignature)] = sig{string(kA.Pub), ownerContent(other)}
					if err := crypto.SignPolicyCertificateAsIssuer(I.PC, kI.Priv, other); err != nil {
						return err
					}
					t.issuer[string(other.IssuerSignature)] = sig{string(kI.Pub), issuerContent(other)}
				}
				c.OwnerSignature, c.OwnerHash, c.IssuerSignature, c.IssuerHash = other.OwnerSignature, other.OwnerHash, other.IssuerSignature, other.IssuerHash
			}
		}
		return t.verifyAll(c, []*polx.Cert{A, B, I, A4})
	}
	r.Parallel("signing steps", len(starts), func(i int) {
		var rec func(seq []int)
		rec = func(seq []int) {
			if r.Expired("signing steps") {
				return
			}
			var names []string
			for _, s := range seq {
				names = append(names, steps[s])
			}
			if r.Case("steps "+strings.Join(names, ", "), nil, func() error { return run(seq) }) {
				r.Distinct.Add(1)
			}
			if len(seq) < depth {
				for s := range steps {
					rec(append(seq[:len(seq):len(seq)], s))
				}
			}
		}
		rec(starts[i])
	})
	for i := range steps {
		r.Case("step "+steps[i], nil, func() error { return run([]int{i}) })
	}

	// 3: timestamps of policy logs cover the certificate, the log, the time and the version
	r.Parallel("timestamps", nbase, func(b int) {
		c := base(b, kC)
		r.Case(fmt.Sprint("timestamp of base ", b), nil, func() error {
			bc := polx.Exact(c)
			t0 := time.Now()
			spt, err := crypto.SignPolicyCertificateTimestamp(c, 7, []byte{1, 2, 3}, kA.Priv)
			if err != nil {
				return err
			}
			if polx.Exact(c) != bc {
				return fmt.Errorf("stamping changed the certificate")
			}
			if spt.Version != 7 || string(spt.LogID) != "\x01\x02\x03" || spt.AddedTS.Before(t0) || spt.AddedTS.After(time.Now()) {
				return fmt.Errorf("wrong timestamp %+v", spt)
			}
			verify := func(c *pc, s common.SignedPolicyCertificateTimestamp, k *polx.Key) error {
				ser, err := common.ToJSON(c)
				if err != nil {
					return err
				}
				sg := s.Signature
				s.Signature = nil
				in, err := common.ToJSON(common.NewSignedEntryTimestampSignatureInput(ser, &s))
				if err != nil {
					return err
				}
				return crypto.VerifySignedBytes(in, sg, &k.Priv.PublicKey)
			}
			// the signed time has to survive serialization
			ser, err := common.ToJSON(spt)
			if err != nil {
				return err
			}
			o, err := common.FromJSON(ser)
			if err != nil {
				return err
			}
			spt = o.(*common.SignedPolicyCertificateTimestamp)
			if err := verify(c, *spt, kA); err != nil {
				return fmt.Errorf("genuine timestamp rejected: %w", err)
			}
			if verify(c, *spt, kB) == nil {
				return fmt.Errorf("timestamp accepted with another key")
			}
			for _, ch := range changes {
				d := ptr(polx.Set(reflect.ValueOf(c).Elem(), ch.f, ch.v))
				if polx.Canon(*d) != polx.Canon(*c) && verify(d, *spt, kA) == nil {
					return fmt.Errorf("timestamp accepted for a certificate changed in %s", ch.f.Path)
				}
			}
			for _, f := range spctFields {
				for _, v := range polx.Values(f, false) {
					d := polx.Set(reflect.ValueOf(spt).Elem(), f, v).Interface().(common.SignedPolicyCertificateTimestamp)
					if polx.Canon(d) != polx.Canon(*spt) && verify(c, d, kA) == nil {
						return fmt.Errorf("timestamp accepted after a change of %s", f.Path)
					}
				}
			}
			return nil
		})
	})

	// 4: signatures of plain bytes (signed tree heads): all messages, keys and single edits of the signature
	msgs := [][]byte{nil, {0}, {0, 0}, []byte("root"), make([]byte, 100000)}
	for i, m := range msgs {
		r.Case(fmt.Sprint("bytes ", i), nil, func() error {
			h := sha256.Sum256(m)
			s, err := crypto.SignBytes(m, kA.Priv)
			if err != nil {
				return err
			}
			if sha256.Sum256(m) != h {
				return fmt.Errorf("signing changed the message")
			}
			for j, n := range msgs {
				for _, k := range []*polx.Key{kA, kB} {
					if ok := crypto.VerifySignedBytes(n, s, &k.Priv.PublicKey) == nil; ok != (i == j && k == kA) {
						return fmt.Errorf("message %d key %s: accepted=%v", j, k.Name, ok)
					}
				}
			}
			for e := range len(s) * 8 {
				x := append([]byte(nil), s...)
				x[e/8] ^= 1 << (e % 8)
				if crypto.VerifySignedBytes(m, x, &kA.Priv.PublicKey) == nil {
					return fmt.Errorf("accepted with bit %d of the signature flipped", e)
				}
			}
			for _, x := range [][]byte{nil, {}, s[:len(s)-1], append(append([]byte{}, s...), 0), append([]byte{0}, s...)} {
				if crypto.VerifySignedBytes(m, x, &kA.Priv.PublicKey) == nil {
					return fmt.Errorf("accepted with a signature of %d bytes", len(x))
				}
			}
			return nil
		})
	}

	// 5: objects that cannot be encoded are refused and stay as they are
	late := time.Date(10001, 1, 1, 0, 0, 0, 0, time.UTC)
	for _, who := range []string{"object", "signer", "both"} {
		r.Case("not encodable: "+who, nil, func() error {
			c, s := base(2, kC), polx.Copy(A.PC)
			c.OwnerSignature, c.OwnerHash, c.IssuerSignature, c.IssuerHash = []byte{1}, []byte{2}, []byte{3}, []byte{4}
			good, err := hashOf(A.PC)
			if err != nil {
				return err
			}
			c.OwnerHash, c.IssuerHash = good, good
			if who != "signer" {
				c.NotAfter = late
			}
			if who != "object" {
				s.NotAfter = late
			}
			q := asReq(c)
			for what, f := range map[string]func() error{
				"owner signature":   func() error { return crypto.VerifyOwnerSignatureInPolicyCertificate(s, c) },
				"request signature": func() error { return crypto.VerifyOwnerSignature(s, q) },
				"issuer signature":  func() error { return crypto.VerifyIssuerSignature(s, c) },
			} {
				if err := same(what, false, f, s, c, q); err != nil {
					return err
				}
			}
			c.OwnerSignature, c.OwnerHash, c.IssuerSignature, c.IssuerHash = nil, nil, nil, nil
			q = asReq(c)
			for what, f := range map[string]func() error{
				"sign as owner":  func() error { return crypto.SignAsOwner(s, kA.Priv, q) },
				"sign as issuer": func() error { return crypto.SignPolicyCertificateAsIssuer(s, kA.Priv, c) },
				"sign request":   func() error { _, err := crypto.SignRequestAsIssuer(s, kA.Priv, q); return err },
			} {
				if err := same(what, false, f, s, c, q); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// 6: a genuine signature does not help an object which names no signer, or another one
	okey, err := hashOf(A.PC)
	if err != nil {
		r.InternalError("%v", err)
	}
	named := map[string][]byte{"right": okey, "nil": nil, "empty": {}, "short": okey[:31], "long": append(append([]byte{}, okey...), 0), "first byte": okey[:1],
		"zeros": make([]byte, 32), "flipped": append([]byte{okey[0] ^ 1}, okey[1:]...), "last flipped": append(append([]byte{}, okey[:31]...), okey[31]^0x80)}
	for name, h := range named {
		for b := range nbase {
			r.Case(fmt.Sprintf("signer named by %s hash, base %d", name, b), nil, func() error {
				enc := func(c *pc) ([]byte, error) {
					j, err := common.ToJSON(c)
					if err != nil {
						return nil, err
					}
					return crypto.SignBytes(j, kA.Priv)
				}
				c := base(b, kC)
				c.OwnerHash = h
				st := c.SPCTs
				c.SPCTs = nil
				var err error
				if c.OwnerSignature, err = enc(c); err != nil {
					return err
				}
				c.SPCTs, c.IssuerHash = st, h
				if c.IssuerSignature, err = enc(c); err != nil {
					return err
				}
				if name == "right" && crypto.VerifyOwnerSignatureInPolicyCertificate(A.PC, c) != nil && crypto.VerifyIssuerSignature(A.PC, c) != nil {
					return nil // the code signs another encoding: nothing to learn here, and genuine signatures are examined above
				}
				q, want := asReq(c), name == "right"
				for what, f := range map[string]func() error{
					"owner signature":   func() error { return crypto.VerifyOwnerSignatureInPolicyCertificate(A.PC, c) },
					"request signature": func() error { return crypto.VerifyOwnerSignature(A.PC, q) },
					"issuer signature":  func() error { return crypto.VerifyIssuerSignature(A.PC, c) },
				} {
					if err := same(what, want, f, A.PC, c, q); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	// and so are signers without a usable key
	for i, pub := range [][]byte{nil, {}, {1, 2, 3}} {
		r.Case(fmt.Sprint("unusable public key ", i), nil, func() error {
			s := polx.Copy(A.PC)
			s.PublicKey = pub
			h, err := hashOf(s)
			if err != nil {
				return err
			}
			c := base(2, kC)
			c.OwnerSignature, c.OwnerHash, c.IssuerSignature, c.IssuerHash = []byte{1}, h, []byte{3}, h
			if err := same("owner", false, func() error { return crypto.VerifyOwnerSignatureInPolicyCertificate(s, c) }, s, c); err != nil {
				return err
			}
			return same("issuer", false, func() error { return crypto.VerifyIssuerSignature(s, c) }, s, c)
		})
	}
	r.Assume("texts in policy objects are valid UTF-8 (the encoding replaces other bytes), and the zone of a time counts as unchanged when an object travels")
	r.Finish()
}
