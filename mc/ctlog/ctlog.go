// Package ctlog is a simulated CT log behind the real CT client: entries made of certificates, page
// sizes, faults, and the oracle of what a fetch must deliver.
package ctlog

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"path"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"
	"github.com/google/certificate-transparency-go/jsonclient"
	"github.com/google/certificate-transparency-go/tls"
	ctx509 "github.com/google/certificate-transparency-go/x509"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/verifmc/fix"
)

// Entry is an entry of a log.
type Entry struct {
	Cert   *fix.Cert
	Leaf   ct.LeafEntry
	Broken bool // it cannot be decoded
}

var Universe = map[string]*fix.Cert{}

// present is the time for which the certificates were made.
var present time.Time

var Base = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

func Odd(name, cn string, parent *fix.Cert, exp time.Time, ext pkix.Extension) *fix.Cert {
	k := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{1}, 32))
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(Universe) + 1000)), Subject: pkix.Name{CommonName: cn, Organization: []string{name}},
		NotBefore: Base.AddDate(-20, 0, 0), NotAfter: exp, ExtraExtensions: []pkix.Extension{ext}}
	der, err := x509.CreateCertificate(zero{}, t, &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "p"}}, k.Public(), k)
	if err != nil {
		panic(err)
	}
	c, err := ctx509.ParseCertificate(der)
	if c == nil {
		panic(err)
	}
	return &fix.Cert{Name: name, C: c, ID: common.SHA256Hash32Bytes(der), Parent: parent, Names: []string{cn}, Exp: exp}
}

type zero struct{}

func (zero) Read(b []byte) (int, error) { clear(b); return len(b), nil }

// Setup makes the certificates: leaves a..j (different parents and chain lengths), y with a non fatal
// fault, z below an authority with a non fatal fault, q a precertificate, r a root submitted itself.
func Setup(now time.Time) {
	if len(Universe) > 0 {
		return
	}
	present = now
	exp := now.AddDate(3, 0, 0)
	add := func(c *fix.Cert) *fix.Cert { Universe[c.Name] = c; return c }
	r := add(fix.New("R", "root R", nil, nil, exp))
	p := add(fix.New("P", "ca P", nil, r, exp))
	q := add(fix.New("Q", "ca Q", nil, p, exp))
	for i, n := range strings.Split("abcdefghij", "") {
		add(fix.New(n, n+".com", []string{"x." + n + ".com"}, []*fix.Cert{p, q, r}[i%3], exp.AddDate(0, 0, i)))
	}
	bad := pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 37}, Value: []byte{0x30, 0}} // empty list of usages: not fatal
	add(Odd("y", "y.com", p, exp, bad))
	o := add(Odd("O", "ca O", r, exp, bad))
	add(fix.New("z", "z.com", nil, o, exp))
	add(Odd("q", "q.com", p, exp, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}, Critical: true, Value: []byte{5, 0}}))
	add(fix.New("old", "old.com", nil, p, now.Add(-time.Second)))
	add(fix.New("edge", "edge.com", nil, p, now.Add(time.Second))) // only for clocks that stand still
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// NewEntry makes an entry: the name of a certificate, with an optional mark "!kind" of a fault.
func NewEntry(text string) Entry {
	name, fault, _ := strings.Cut(text, "!")
	c := Universe[name]
	var chain []ct.ASN1Cert
	for _, p := range c.Chain() {
		chain = append(chain, ct.ASN1Cert{Data: p.Raw})
	}
	raw := c.C.Raw
	switch fault {
	case "cert":
		raw = raw[:len(raw)/2]
	case "chain":
		chain[0].Data = chain[0].Data[5:]
	}
	var e Entry
	leaf := ct.CreateX509MerkleTreeLeaf(ct.ASN1Cert{Data: raw}, 77)
	if name == "q" {
		leaf.TimestampedEntry = &ct.TimestampedEntry{EntryType: ct.PrecertLogEntryType, Timestamp: 78,
			PrecertEntry: &ct.PreCert{TBSCertificate: c.C.RawTBSCertificate}}
		e.Leaf.ExtraData = must(tls.Marshal(ct.PrecertChainEntry{PreCertificate: ct.ASN1Cert{Data: raw}, CertificateChain: chain}))
	} else {
		e.Leaf.ExtraData = must(tls.Marshal(ct.CertificateChain{Entries: chain}))
	}
	e.Leaf.LeafInput = must(tls.Marshal(*leaf))
	switch fault {
	case "leaf":
		e.Leaf.LeafInput = e.Leaf.LeafInput[:9]
	case "extra":
		e.Leaf.ExtraData = append(e.Leaf.ExtraData, 1)
	}
	e.Cert, e.Broken = c, fault != ""
	return e
}

func Entries(texts ...string) (l []Entry) {
	for _, t := range texts {
		l = append(l, NewEntry(t))
	}
	return
}

// Log is the simulated log.
type Log struct {
	Entries []Entry
	Size    int // current tree size, if not that of Entries
	Page    int // most entries per answer, 0: no limit
	Pages   []int
	// At is called at every request; a fault is the name of what goes wrong with the answer.
	At       func(req string, n int) string
	Requests int // number of requests so far
	Hit      bool
	// Wait is called for the fault "hang": it returns when the request is given up.
	Wait func(ctx context.Context)
}

func (l *Log) size() int {
	if l.Size > 0 {
		return l.Size
	}
	return len(l.Entries)
}

var ErrNet = errors.New("connection refused")

type brokenBody struct{ r io.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (l *Log) RoundTrip(req *http.Request) (*http.Response, error) {
	what := path.Base(req.URL.Path)
	n := l.Requests
	l.Requests++
	fault := ""
	if l.At != nil {
		fault = l.At(what, n)
	}
	if fault != "" {
		l.Hit = true
	}
	if fault == "hang" {
		l.Wait(req.Context())
		return nil, errors.New("given up")
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if fault == "net" {
		return nil, ErrNet
	}
	code, body := 200, []byte(nil)
	switch what {
	case "get-sth":
		sig := must(tls.Marshal(ct.DigitallySigned{Algorithm: tls.SignatureAndHashAlgorithm{Hash: tls.SHA256, Signature: tls.ECDSA}, Signature: STH(l.size())}))
		body = must(json.Marshal(ct.GetSTHResponse{TreeSize: uint64(l.size()), Timestamp: 5, SHA256RootHash: make([]byte, 32), TreeHeadSignature: sig}))
	case "get-entries":
		a, _ := strconv.Atoi(req.URL.Query().Get("start"))
		b, _ := strconv.Atoi(req.URL.Query().Get("end"))
		if a < 0 || b < a || a >= l.size() {
			code, body = 400, []byte("bad range")
			break
		}
		b = min(b, l.size()-1)
		m := b - a + 1
		if l.Page > 0 {
			m = min(m, l.Page)
		}
		if len(l.Pages) > 0 {
			m, l.Pages = min(m, l.Pages[0]), l.Pages[1:]
		}
		switch fault {
		case "none":
			m = 0
		case "more":
			m = b - a + 2
		}
		rsp := ct.GetEntriesResponse{Entries: []ct.LeafEntry{}}
		for i := a; i < a+m; i++ {
			rsp.Entries = append(rsp.Entries, l.Entries[i%len(l.Entries)].Leaf)
		}
		body = must(json.Marshal(rsp))
	default:
		panic("request " + what)
	}
	rd := io.Reader(bytes.NewReader(body))
	switch fault {
	case "500":
		code, rd = 500, strings.NewReader("internal error")
	case "json":
		rd = bytes.NewReader(append([]byte("<html>"), body...))
	case "cut":
		rd = bytes.NewReader(body[:len(body)/2])
	case "body":
		rd = brokenBody{bytes.NewReader(body[:len(body)/2])}
	case "404":
		code = 404
	}
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(rd), Request: req}, nil
}

// STH is the signature of the tree head of the given size.
func STH(size int) []byte { return []byte(fmt.Sprintf("head of %d", size)) }

// SetField sets an unexported field, if it exists.
func SetField(obj any, name string, v any) bool {
	f := reflect.ValueOf(obj).Elem().FieldByName(name)
	if !f.IsValid() {
		return false
	}
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v).Convert(f.Type()))
	return true
}

// NewFetcher makes the fetcher under test, which talks to l.
func NewFetcher(url string, l http.RoundTripper, process, server int) *logfetcher.HttpLogFetcher {
	f := must(logfetcher.NewHttpLogFetcher(url))
	c := must(client.New(url, &http.Client{Transport: l}, jsonclient.Options{}))
	v := reflect.ValueOf(f).Elem()
	found := false
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(c) {
			reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem().Set(reflect.ValueOf(c))
			found = true
		}
	}
	if !found || process > 0 && !SetField(f, "processBatchSize", process) || server > 0 && !SetField(f, "serverBatchSize", server) {
		panic("the fields of the fetcher are not as expected")
	}
	return f
}

// Check compares delivered certificates with entries, in order.
func Check(want []Entry, certs []ctx509.Certificate, chains [][]*ctx509.Certificate) error {
	if len(certs) != len(chains) {
		return fmt.Errorf("%d certificates with %d chains are delivered", len(certs), len(chains))
	}
	if len(certs) > len(want) {
		return fmt.Errorf("%d certificates are delivered, %d are left", len(certs), len(want))
	}
	for i := range certs {
		if a, b := Describe(certs[i].Raw, chains[i]), Describe(want[i].Cert.C.Raw, want[i].Cert.Chain()); a != b {
			return fmt.Errorf("%s is delivered, not %s", a, b)
		}
	}
	return nil
}

// Describe names a certificate and its chain.
func Describe(raw []byte, chain []*ctx509.Certificate) string {
	name := func(b []byte) string {
		for n, c := range Universe {
			if bytes.Equal(c.C.Raw, b) {
				return n
			}
		}
		return fmt.Sprintf("(unknown, %d bytes)", len(b))
	}
	s := name(raw)
	for _, c := range chain {
		if c == nil {
			s += " (nil)"
			continue
		}
		s += " " + name(c.Raw)
	}
	return s
}
