// Command c30: certificate streams, chains, keys and certificate files.
package main

import (
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/base64"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/polx"
)

var exp = time.Date(2031, 5, 6, 7, 8, 9, 0, time.UTC)

// source delivers its data in pieces.
type source struct {
	data  []byte
	cuts  []int // positions where a read ends
	step  int   // maximal size of a read, 0: any
	early bool  // the end is reported together with the last data
	zero  int   // position before which one read delivers nothing
	fail  int   // position at which reading fails, -1: never
	once  bool  // it fails once, together with the data before the position if there is any
	err   error // failure, errSource if nil
	pos   int
}

var errSource = errors.New("source fails")

func (s *source) Read(b []byte) (int, error) {
	failure := s.err
	if failure == nil {
		failure = errSource
	}
	if s.fail >= 0 && s.pos >= s.fail {
		if s.once {
			s.fail = -1
			s.data = s.data[:s.pos]
		}
		return 0, failure
	}
	if s.zero > 0 && s.pos >= s.zero {
		s.zero = 0
		return 0, nil
	}
	if s.pos == len(s.data) {
		return 0, io.EOF
	}
	end := min(len(s.data), s.pos+len(b))
	if s.step > 0 {
		end = min(end, s.pos+s.step)
	}
	for _, c := range s.cuts {
		if c > s.pos && c < end {
			end = c
		}
	}
	if s.fail >= 0 {
		end = min(end, s.fail)
	}
	n := copy(b, s.data[s.pos:end])
	s.pos += n
	if s.once && s.pos == s.fail && n > 0 {
		s.fail = -1
		s.data = s.data[:s.pos]
		return n, failure
	}
	if s.early && s.pos == len(s.data) && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

type item struct {
	name string
	text []byte
	cert *ctx509.Certificate
	bad  bool
}

func encode(typ string, b []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b})
}

func sameCerts(got []ctx509.Certificate, want []*ctx509.Certificate) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d certificates, expected %d", len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i].Raw, want[i].Raw) || !got[i].NotAfter.Equal(want[i].NotAfter) || got[i].Subject.CommonName != want[i].Subject.CommonName {
			return fmt.Errorf("certificate number %d is %q, expected %q", i, got[i].Subject, want[i].Subject)
		}
	}
	return nil
}

// read reads the stream with the given number of certificates per call (0: all at once).
func read(src io.Reader, batch int, want []*ctx509.Certificate, bad bool) error {
	r := util.NewCertReader(src)
	var got []ctx509.Certificate
	var err error
	if batch == 0 {
		got, err = r.ReadAll()
	} else {
		for {
			buf := make([]ctx509.Certificate, batch)
			var n int
			n, err = r.Read(buf)
			if err != nil {
				break
			}
			got = append(got, buf[:n]...)
			if n < batch {
				if n2, err2 := r.Read(buf); n2 != 0 || err2 != nil {
					return fmt.Errorf("reading at the end gives %d, %v", n2, err2)
				}
				break
			}
		}
	}
	if bad {
		if err == nil {
			return fmt.Errorf("the undecodable certificate is not reported")
		}
		if batch == 1 {
			return sameCerts(got, want)
		}
		return nil
	}
	if err != nil {
		return err
	}
	return sameCerts(got, want)
}

func main() {
	r := core.Start("C30", "exploration")
	r.Rule = "every stream of the enumeration is delivered in every way; all lists of chains, file names and damaged files; distinct by the case"
	do := func(key string, fn func() error) bool {
		ok := r.Case(key, nil, fn)
		r.Distinct.Add(1)
		return ok
	}
	streams(r, do)
	unfold(r, do)
	csvRows(r, do)
	policies(r, do)
	keys(r, do)
	files(r, do)
	names(r, do)
	r.Assume("blocks cut off at the end of a stream are not certificates of the stream; certificates are the ones the certificate transparency library parses without any error")
	r.Finish()
}

func streams(r *core.Run, do func(string, func() error) bool) {
	root := fix.New("root", "root", nil, nil, exp)
	a := fix.New("a", "a.com", []string{"www.a.com"}, root, exp.Add(time.Hour))
	b := fix.New("b", "", []string{"b.com"}, root, exp.Add(2*time.Hour))
	big := fix.New("big", "big.com", []string{strings.Repeat(strings.Repeat("x", 60)+".", 4) + "com"}, root, exp)
	items := []item{
		{"a", encode("CERTIFICATE", a.C.Raw), a.C, false},
		{"b", encode("CERTIFICATE", b.C.Raw), b.C, false},
		{"tbs", encode("CERTIFICATE", a.C.RawTBSCertificate), nil, false},
		{"key", encode("RSA PRIVATE KEY", a.C.Raw), nil, false},
		{"text", []byte("subject: a.com\n\n"), nil, false},
		{"bad", encode("CERTIFICATE", a.C.Raw[:len(a.C.Raw)-1]), nil, true},
		{"crlf", bytes.ReplaceAll(encode("CERTIFICATE", big.C.Raw), []byte("\n"), []byte("\r\n")), big.C, false},
	}
	if c, err := ctx509.ParseTBSCertificate(a.C.RawTBSCertificate); err == nil {
		items[2].cert = c
	}
	seqs := [][]int{nil}
	level := seqs
	for range r.Pick(3, 4) {
		var next [][]int
		for _, s := range level {
			for i := range items {
				next = append(next, append(s[:len(s):len(s)], i))
			}
		}
		seqs = append(seqs, next...)
		level = next
	}
	r.Parallel("streams", len(seqs), func(k int) {
		var data []byte
		var want []*ctx509.Certificate
		var ends []int
		name := ""
		bad := false
		for _, i := range seqs[k] {
			data = append(data, items[i].text...)
			ends = append(ends, len(data))
			name += " " + items[i].name
			bad = bad || items[i].bad
			if items[i].cert != nil && !bad {
				want = append(want, items[i].cert)
			}
		}
		try := func(how string, batch int, s source) bool {
			s.data = data
			s.fail = -1
			return do(fmt.Sprintf("stream%s read %d at a time, %s", name, batch, how), func() error { return read(&s, batch, want, bad) })
		}
		for batch := 0; batch <= 3; batch++ {
			try("whole", batch, source{})
			try("end with data", batch, source{early: true})
			try("by 97", batch, source{step: 97})
			try("by 97, end with data", batch, source{step: 97, early: true})
			if batch > 1 && !r.Thorough() {
				continue
			}
			for i, e := range ends {
				for d := -2; d <= 2; d++ {
					if e+d <= 0 || e+d > len(data) {
						continue
					}
					try(fmt.Sprintf("cut %d after item %d", d, i), batch, source{cuts: []int{e + d}, early: d < 0})
				}
			}
		}
		try("nothing once", 0, source{zero: len(data) / 2})
		// Failures of the source.
		for _, p := range []int{0, 1, len(data) / 2, len(data)} {
			if p > len(data) {
				continue
			}
			for _, e := range []error{errSource, io.ErrUnexpectedEOF, io.ErrClosedPipe} {
				for _, once := range []bool{false, true} {
					do(fmt.Sprintf("stream%s fails at %d with %v, once %v", name, p, e, once), func() error {
						got, err := util.NewCertReader(&source{data: data, fail: p, once: once, err: e}).ReadAll()
						if err == nil || !bad && !errors.Is(err, e) {
							return fmt.Errorf("reading returns %d certificates, %v", len(got), err)
						}
						return nil
					})
				}
			}
		}
		// What is read can be written and read again.
		if !bad && !strings.Contains(name, "tbs") {
			do("serialize"+name, func() error {
				var l []ctx509.Certificate
				for _, c := range want {
					l = append(l, *c)
				}
				buf, err := util.SerializeCertificates(l)
				if err != nil {
					return err
				}
				got, err := util.DeserializeCertificates(buf)
				if err != nil {
					return err
				}
				if err := sameCerts(got, want); err != nil {
					return err
				}
				// A failing writer is reported with the number of complete certificates.
				for lim := 0; lim < len(buf); lim += 50 {
					w := &limited{n: lim}
					n, err := util.NewCertWriter(w).Write(l)
					if err == nil || n >= len(l) && len(l) > 0 {
						return fmt.Errorf("the writer failed after %d bytes, but %d certificates, %v", lim, n, err)
					}
					done, err := util.DeserializeCertificates(buf[:w.done])
					if err != nil || len(done) < n {
						return fmt.Errorf("%d certificates reported as written, %d are there, %v", n, len(done), err)
					}
				}
				return nil
			})
		}
	})
	// Every single cut and every step of a stream of three certificates.
	all := append(append(slices.Clone(items[0].text), items[6].text...), items[1].text...)
	want := []*ctx509.Certificate{items[0].cert, items[6].cert, items[1].cert}
	r.Parallel("cuts", len(all), func(c int) {
		for _, early := range []bool{false, true} {
			do(fmt.Sprintf("cut at %d early end %v", c, early), func() error {
				return read(&source{data: all, cuts: []int{c}, early: early, fail: -1}, 0, want, false)
			})
		}
		if c > 0 && (c < 200 || r.Thorough()) {
			do(fmt.Sprintf("steps of %d", c), func() error {
				return read(&source{data: all, step: c, fail: -1}, 2, want, false)
			})
		}
		if r.Thorough() {
			for d := c + 1; d < len(all); d += 41 {
				do(fmt.Sprintf("cut at %d and %d", c, d), func() error {
					return read(&source{data: all, cuts: []int{c, d}, fail: -1}, 1, want, false)
				})
			}
		}
	})
	// Streams and certificates around and beyond the size of the internal buffer.
	const size = 1 << 20
	one := items[0].text
	r.Parallel("large streams", 21, func(k int) {
		d := k - 10
		do(fmt.Sprintf("certificate ends %d after one buffer", d), func() error {
			pad := bytes.Repeat([]byte("# text\n"), size)
			data := append(pad[:size+d-len(one)-1:size+d-len(one)-1], '\n')
			data = append(append(data, one...), items[1].text...)
			for _, early := range []bool{false, true} {
				if err := read(&source{data: data, early: early, fail: -1}, 1, []*ctx509.Certificate{items[0].cert, items[1].cert}, false); err != nil {
					return err
				}
			}
			return nil
		})
		do(fmt.Sprintf("stream of %d certificates", 1480+k), func() error {
			// About one buffer of certificates, shifted by k.
			var data []byte
			var want []*ctx509.Certificate
			for i := 0; len(data) < size+k*300; i++ {
				it := items[[]int{0, 1, 6}[(i+k)%3]]
				data = append(data, it.text...)
				want = append(want, it.cert)
			}
			return read(&source{data: data, fail: -1}, 100+k, want, false)
		})
	})
	for _, n := range []int{4_000, 9_000, 30_000} {
		do(fmt.Sprintf("certificate with %d names", n), func() error {
			var sans []string
			for i := range n {
				sans = append(sans, fmt.Sprintf("%0240d.%d.com", i, i))
			}
			c := fix.New("huge", "huge.com", sans, root, exp)
			data := slices.Concat(one, encode("CERTIFICATE", c.C.Raw), items[1].text)
			for _, batch := range []int{0, 1, 3} {
				if err := read(&source{data: data, fail: -1}, batch, []*ctx509.Certificate{items[0].cert, c.C, items[1].cert}, false); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// One certificate from a file or text.
	tmp := filepath.Join(os.Getenv("VERIF_WORK"), "one.pem")
	for _, it := range items {
		do("load "+it.name, func() error {
			if err := os.WriteFile(tmp, it.text, 0600); err != nil {
				r.InternalError(err.Error())
			}
			c1, err1 := util.CertificateFromPEMBytes(it.text)
			c2, err2 := util.CertificateFromPEMFile(tmp)
			if it.cert == nil {
				if c1 != nil || c2 != nil {
					return fmt.Errorf("loaded as %v and %v", c1, c2)
				}
				if it.bad && (err1 == nil || err2 == nil) {
					return fmt.Errorf("loaded with %v and %v", err1, err2)
				}
				return nil
			}
			if err1 != nil || err2 != nil {
				return fmt.Errorf("loaded with %v and %v", err1, err2)
			}
			return sameCerts([]ctx509.Certificate{*c1, *c2}, []*ctx509.Certificate{it.cert, it.cert})
		})
	}
	do("load a missing file", func() error {
		if c, err := util.CertificateFromPEMFile(tmp + ".none"); err == nil || c != nil {
			return fmt.Errorf("loaded as %v, %v", c, err)
		}
		return nil
	})
}

type limited struct{ n, done int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n-l.done {
		k := l.n - l.done
		l.done = l.n
		return k, errSource
	}
	l.done += len(b)
	return len(b), nil
}

func universe() []*fix.Cert {
	root := fix.New("root", "root", nil, nil, exp)
	root2 := fix.New("root2", "root2.com", []string{"r.com"}, nil, exp)
	i1 := fix.New("i1", "i1", nil, root, exp.Add(time.Hour))
	i2 := fix.New("i2", "i2", nil, i1, exp.Add(2*time.Hour))
	return []*fix.Cert{
		root, root2, i1,
		fix.New("a", "a.com", []string{"b.com", "a.com"}, i1, exp.Add(3*time.Hour)),
		fix.New("b", "", []string{"b.com"}, i2, exp.Add(4*time.Hour)),
		fix.New("c", "", nil, root, exp.Add(5*time.Hour)),
		i2,
	}
}

func sorted(l []string) []string {
	l = slices.Clone(l)
	slices.Sort(l)
	return l
}

// checkUnfolded compares with the leaves first, each with its names, then every ancestor.
func checkUnfolded(in []*fix.Cert, certs []ctx509.Certificate, ids []fix.ID, parents []*fix.ID, names [][]string) error {
	if len(ids) != len(certs) || len(parents) != len(certs) || len(names) != len(certs) {
		return fmt.Errorf("%d certificates, %d identifiers, %d parents, %d names", len(certs), len(ids), len(parents), len(names))
	}
	all := map[fix.ID]*fix.Cert{}
	for _, c := range in {
		for p := c; p != nil; p = p.Parent {
			all[p.ID] = p
		}
	}
	found := map[fix.ID]bool{}
	for i := range certs {
		id := common.SHA256Hash32Bytes(certs[i].Raw)
		c := all[id]
		if c == nil {
			return fmt.Errorf("entry %d is a certificate that was not given", i)
		}
		found[id] = true
		if ids[i] != id {
			return fmt.Errorf("entry %d (%s) has another identifier", i, c.Name)
		}
		if (parents[i] != nil) != (c.Parent != nil) || parents[i] != nil && *parents[i] != c.Parent.ID {
			return fmt.Errorf("entry %d (%s) has the wrong parent", i, c.Name)
		}
		if i < len(in) {
			if c != in[i] {
				return fmt.Errorf("entry %d is %s instead of %s", i, c.Name, in[i].Name)
			}
			if !slices.Equal(sorted(names[i]), sorted(c.Names)) {
				return fmt.Errorf("entry %d (%s) has names %q", i, c.Name, names[i])
			}
		} else if names[i] != nil {
			return fmt.Errorf("the ancestor %s has names %q", c.Name, names[i])
		}
	}
	for id, c := range all {
		if !found[id] {
			return fmt.Errorf("%s is missing", c.Name)
		}
	}
	return nil
}

func unfold(r *core.Run, do func(string, func() error) bool) {
	u := universe()
	lists := [][]*fix.Cert{nil}
	level := lists
	for range r.Pick(4, 5) {
		var next [][]*fix.Cert
		for _, l := range level {
			for _, c := range u {
				next = append(next, append(l[:len(l):len(l)], c))
			}
		}
		lists = append(lists, next...)
		level = next
	}
	r.Parallel("unfolding", (len(lists)+49)/50, func(k int) {
		for _, l := range lists[k*50 : min(len(lists), k*50+50)] {
			name := ""
			var leaves []ctx509.Certificate
			var chains [][]*ctx509.Certificate
			for _, c := range l {
				name += " " + c.Name
				leaves = append(leaves, *c.C)
				chains = append(chains, c.Chain())
			}
			if !do("unfold"+name, func() error {
				certs, ids, parents, names := util.UnfoldCerts(leaves, chains)
				if err := checkUnfolded(l, certs, ids, parents, names); err != nil {
					return err
				}
				for i, e := range util.ExtractExpirations(certs) {
					if !e.Equal(certs[i].NotAfter) || !bytes.Equal(util.ExtractPayloads(certs)[i], certs[i].Raw) {
						return fmt.Errorf("entry %d has another expiration or payload", i)
					}
				}
				for i, c := range l {
					if !bytes.Equal(leaves[i].Raw, c.C.Raw) || len(chains[i]) != len(c.Chain()) {
						return fmt.Errorf("the arguments were changed")
					}
				}
				return nil
			}) && r.Stop() {
				return
			}
		}
	})
	// One chain, with every set of ancestors left out.
	for _, c := range u {
		chain := c.Chain()
		for m := 0; m < 1<<len(chain); m++ {
			do(fmt.Sprintf("unfold %s without ancestors %b", c.Name, m), func() error {
				var ids []*fix.ID
				given := slices.Clone(chain)
				for i := range chain {
					id := common.SHA256Hash32Bytes(chain[i].Raw)
					ids = append(ids, &id)
					if m>>i&1 == 1 {
						given[i] = nil
					}
				}
				certs, got, parents, names := util.UnfoldCert(c.C, c.ID, given, ids)
				want := []*fix.Cert{c}
				for i, p := 0, c.Parent; p != nil; i, p = i+1, p.Parent {
					if given[i] != nil {
						want = append(want, p)
					}
				}
				if len(certs) != len(want) || len(got) != len(want) || len(parents) != len(want) || len(names) != len(want) {
					return fmt.Errorf("%d certificates, %d identifiers, %d parents, %d names, expected %d", len(certs), len(got), len(parents), len(names), len(want))
				}
				for i, w := range want {
					if !bytes.Equal(certs[i].Raw, w.C.Raw) || got[i] != w.ID {
						return fmt.Errorf("entry %d is not %s", i, w.Name)
					}
					if (parents[i] != nil) != (w.Parent != nil) || parents[i] != nil && *parents[i] != w.Parent.ID {
						return fmt.Errorf("entry %d (%s) has the wrong parent", i, w.Name)
					}
					if i == 0 && !slices.Equal(sorted(names[0]), sorted(c.Names)) || i > 0 && names[i] != nil {
						return fmt.Errorf("entry %d (%s) has names %q", i, w.Name, names[i])
					}
				}
				return nil
			})
		}
	}
}

func csvRows(r *core.Run, do func(string, func() error) bool) {
	u := universe()
	b64 := func(c *ctx509.Certificate) string { return base64.StdEncoding.EncodeToString(c.Raw) }
	type row struct {
		name string
		text string
		cert *fix.Cert // nil: malformed
	}
	var rows []row
	for _, c := range u[2:] {
		var l []string
		for _, p := range c.Chain() {
			l = append(l, b64(p))
		}
		f := []string{"0", "x", "y", b64(c.C), strings.Join(l, ";"), "1.5"}
		rows = append(rows, row{c.Name, strings.Join(f, ","), c}, row{c.Name + " short", strings.Join(f[:5], ","), c})
	}
	c := u[3]
	chain := b64(c.Parent.C) + ";" + b64(u[0].C)
	for i, x := range []string{"0,1,2", "0,1,2," + b64(c.C), "0,1,2,!!," + chain, "0,1,2,," + chain, "0,1,2," + b64(c.C) + ",AAAA", "0,1,2," + b64(c.C)[4:] + "," + chain,
		"0,1,2," + b64(c.C) + "," + chain + ";", "0,1,2," + b64(c.C) + ",\"" + chain} {
		rows = append(rows, row{fmt.Sprint("malformed", i), x, nil})
	}
	var rec func(l []row, depth int)
	rec = func(l []row, depth int) {
		for _, end := range []string{"", "\n", "\n\n"} {
			name, text, bad := "", "", false
			var want []*fix.Cert
			for i, x := range l {
				name += " " + x.name
				if i > 0 {
					text += "\n"
				}
				text += x.text
				bad = bad || x.cert == nil
				want = append(want, x.cert)
			}
			text += end
			do(fmt.Sprintf("rows%s end %q", name, end), func() error {
				certs, ids, parents, names, err := util.LoadCertsAndChainsFromCSV([]byte(text))
				if (err != nil) != bad {
					return fmt.Errorf("loaded %d certificates, %v", len(certs), err)
				}
				if bad {
					return nil
				}
				return checkUnfolded(want, certs, ids, parents, names)
			})
		}
		if depth > 0 {
			for _, x := range rows {
				rec(append(l[:len(l):len(l)], x), depth-1)
			}
		}
	}
	rec(nil, r.Pick(2, 3))
}

func policies(r *core.Run, do func(string, func() error) bool) {
	var docs []common.PolicyDocument
	for i := range 3 {
		p := fix.NewPolicy(fmt.Sprint("p", i), "a.com", i)
		docs = append(docs, p.Doc)
	}
	k := polx.NewKey("k")
	docs = append(docs, polx.NewCert("pc", "b.com", 7, k).PC)
	for m := 0; m < 1<<len(docs); m++ {
		do(fmt.Sprintf("policies %b", m), func() error {
			l := []any{}
			for i, d := range docs {
				if m>>i&1 == 1 {
					l = append(l, d)
				}
			}
			raw, err := common.ToJSON(l)
			if err != nil {
				return err
			}
			got, err := util.LoadPoliciesFromRaw(raw)
			if err != nil || len(got) != len(l) {
				return fmt.Errorf("%d policies of %d, %v", len(got), len(l), err)
			}
			for i := range got {
				if polx.Canon(got[i], "JSONField") != polx.Canon(l[i], "JSONField") {
					return fmt.Errorf("policy %d is %s, expected %s", i, polx.Canon(got[i]), polx.Canon(l[i]))
				}
			}
			for cut := 0; cut < len(raw); cut += 1 + len(raw)/200 {
				if got, err := util.LoadPoliciesFromRaw(raw[:cut]); err == nil {
					return fmt.Errorf("the first %d bytes are read as %d policies", cut, len(got))
				}
			}
			return nil
		})
	}
	for i, o := range []any{docs[0], docs[3]} {
		do(fmt.Sprint("single object ", i), func() error {
			raw, err := common.ToJSON(o)
			if err != nil {
				return err
			}
			if l, err := util.LoadPoliciesFromRaw(raw); err == nil {
				return fmt.Errorf("read as list %v", l)
			}
			if pc, ok := o.(*common.PolicyCertificate); ok {
				raw, err = util.PolicyCertificateToBytes(pc)
				if err != nil {
					return err
				}
				f := filepath.Join(os.Getenv("VERIF_WORK"), "pc.json")
				if err := os.WriteFile(f, raw, 0600); err != nil {
					r.InternalError(err.Error())
				}
				g1, err1 := util.PolicyCertificateFromBytes(raw)
				g2, err2 := util.PolicyCertificateFromFile(f)
				if err1 != nil || err2 != nil || polx.Canon(g1, "JSONField") != polx.Canon(pc, "JSONField") || polx.Canon(g2, "JSONField") != polx.Canon(pc, "JSONField") {
					return fmt.Errorf("read as %v, %v and %v, %v", g1, err1, g2, err2)
				}
			}
			return nil
		})
	}
	do("a list as certificate", func() error {
		raw, err := common.ToJSON([]any{docs[3]})
		if err != nil {
			return err
		}
		if pc, err := util.PolicyCertificateFromBytes(raw); err == nil {
			return fmt.Errorf("read as %v", pc)
		}
		return nil
	})
}

func keys(r *core.Run, do func(string, func() error) bool) {
	dir := os.Getenv("VERIF_WORK")
	for i := range 2 {
		k := polx.NewKey(fmt.Sprint(i)).Priv
		text := util.RSAKeyToPEM(k)
		do(fmt.Sprint("key ", i), func() error {
			got, err := util.RSAKeyFromPEM(text)
			if err != nil || !got.Equal(k) {
				return fmt.Errorf("read as %v, %v", got, err)
			}
			f := filepath.Join(dir, "key.pem")
			if err := os.WriteFile(f, text, 0600); err != nil {
				r.InternalError(err.Error())
			}
			if got, err := util.RSAKeyFromPEMFile(f); err != nil || !got.Equal(k) {
				return fmt.Errorf("read from the file as %v, %v", got, err)
			}
			der, err := util.RSAPublicToDERBytes(&k.PublicKey)
			if err != nil {
				return err
			}
			p, err := util.DERBytesToRSAPublic(der)
			if err != nil || !p.Equal(&k.PublicKey) {
				return fmt.Errorf("public key read as %v, %v", p, err)
			}
			b, err := util.RSAPublicToDERBase64(&k.PublicKey)
			if err != nil {
				return err
			}
			p, err = util.DERBase64ToRSAPublic(b)
			if err != nil || !p.Equal(&k.PublicKey) {
				return fmt.Errorf("public key read as %v, %v", p, err)
			}
			for c := range der {
				if p, err := util.DERBytesToRSAPublic(der[:c]); err == nil {
					return fmt.Errorf("the first %d bytes of the public key are read as %v", c, p)
				}
			}
			return nil
		})
		for c := 0; c < len(text); c++ {
			do(fmt.Sprintf("key %d cut at %d", i, c), func() error {
				got, err := util.RSAKeyFromPEM(text[:c])
				if err == nil && !got.Equal(k) {
					return fmt.Errorf("read as another key")
				}
				if err == nil && c < len(text)-1 {
					return fmt.Errorf("read without error")
				}
				return nil
			})
			do(fmt.Sprintf("key %d changed at %d", i, c), func() error {
				for _, x := range []byte{0, '\n', 'A', '-', '='} {
					t := bytes.Clone(text)
					t[c] = x
					// The result may only be an error or a key.
					if got, err := util.RSAKeyFromPEM(t); err == nil && got == nil {
						return fmt.Errorf("no key and no error")
					}
				}
				return nil
			})
		}
	}
	for i, x := range [][]byte{nil, {}, []byte("x"), encode("CERTIFICATE", []byte{1}), encode("RSA PRIVATE KEY", nil), encode("RSA PRIVATE KEY", []byte{0x30, 0}), encode("PRIVATE KEY", []byte{1})} {
		do(fmt.Sprint("not a key ", i), func() error {
			if got, err := util.RSAKeyFromPEM(x); err == nil || got != nil {
				return fmt.Errorf("read as %v, %v", got, err)
			}
			return nil
		})
	}
	do("other kinds of keys", func() error {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			r.InternalError(err.Error())
		}
		der, err := ctx509.MarshalPKIXPublicKey(&k.PublicKey)
		if err != nil {
			r.InternalError(err.Error())
		}
		if p, err := util.DERBytesToRSAPublic(der); err == nil || p != nil {
			return fmt.Errorf("read as %v, %v", p, err)
		}
		for _, x := range []string{"", "!", "AAAA", base64.StdEncoding.EncodeToString(der)} {
			if p, err := util.DERBase64ToRSAPublic(x); err == nil || p != nil {
				return fmt.Errorf("%q read as %v, %v", x, p, err)
			}
		}
		return nil
	})
}

func files(r *core.Run, do func(string, func() error) bool) {
	dir := os.Getenv("VERIF_WORK")
	contents := []string{"", "x", "0,1,2\n3,4,5\n", strings.Repeat("abc,def\n", 3000)}
	gz := func(x string, level int) []byte {
		var b bytes.Buffer
		w, _ := gzip.NewWriterLevel(&b, level)
		w.Write([]byte(x))
		w.Close()
		return b.Bytes()
	}
	read := func(f util.CsvFile) (string, error) {
		rd, err := f.Open()
		if err != nil {
			return "", err
		}
		b, err := io.ReadAll(rd)
		if e := f.Close(); err == nil {
			err = e
		}
		return string(b), err
	}
	for i, x := range contents {
		for _, ext := range []string{".csv", ".CSV", ".gz", ".GZ"} {
			do(fmt.Sprintf("file %d%s", i, ext), func() error {
				name := filepath.Join(dir, fmt.Sprint("f", i, ext))
				data := []byte(x)
				if strings.ToLower(ext) == ".gz" {
					data = gz(x, 6)
				}
				if err := os.WriteFile(name, data, 0600); err != nil {
					r.InternalError(err.Error())
				}
				f, err := util.LoadCsvFile(name)
				if err != nil {
					return err
				}
				if f.Filename() != name {
					return fmt.Errorf("its name is %q", f.Filename())
				}
				for range 2 { // it can be opened again
					got, err := read(f)
					if err != nil || got != x {
						return fmt.Errorf("%d bytes are read as %d bytes, %v", len(x), len(got), err)
					}
				}
				g := f.WithFile(name + ".none")
				if _, err := g.Open(); err == nil {
					return fmt.Errorf("a missing file is opened")
				}
				return nil
			})
		}
		// Damaged compressed files: cut anywhere, with two members, with trailing bytes.
		full := gz(x, 6)
		step := max(1, len(full)/200)
		for c := 0; c < len(full); c += step {
			do(fmt.Sprintf("compressed file %d cut at %d", i, c), func() error {
				name := filepath.Join(dir, "cut.gz")
				if err := os.WriteFile(name, full[:c], 0600); err != nil {
					r.InternalError(err.Error())
				}
				f, err := util.LoadCsvFile(name)
				if err != nil {
					return err
				}
				if got, err := read(f); err == nil {
					return fmt.Errorf("read as %d bytes without error", len(got))
				}
				if got, err := util.ReadAllGzippedFile(name); err == nil {
					return fmt.Errorf("read as %d bytes without error", len(got))
				}
				return nil
			})
		}
		do(fmt.Sprintf("compressed file %d in parts", i), func() error {
			name := filepath.Join(dir, "parts.gz")
			if err := os.WriteFile(name, append(gz(x, 1), gz("tail", 9)...), 0600); err != nil {
				r.InternalError(err.Error())
			}
			f, err := util.LoadCsvFile(name)
			if err != nil {
				return err
			}
			if got, err := read(f); err != nil || got != x+"tail" {
				return fmt.Errorf("read as %d bytes, %v", len(got), err)
			}
			if got, err := util.ReadAllGzippedFile(name); err != nil || string(got) != x+"tail" {
				return fmt.Errorf("read as %d bytes, %v", len(got), err)
			}
			return nil
		})
	}
	for _, n := range []string{"x", "x.txt", "x.gz.bak", "gz", ".", "", "x.gzip", "x.csv2"} {
		do(fmt.Sprintf("file %q", n), func() error {
			if f, err := util.LoadCsvFile(n); err == nil {
				return fmt.Errorf("taken for %T", f)
			}
			return nil
		})
	}
	do("missing compressed file", func() error {
		if b, err := util.ReadAllGzippedFile(filepath.Join(dir, "none.gz")); err == nil {
			return fmt.Errorf("read as %q", b)
		}
		return nil
	})
}

// indices is the reference for names of certificate files.
func indices(name string) (first, last uint64, ok bool) {
	name = strings.TrimRight(name, "/")
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	base, ok1 := strings.CutSuffix(name, ".gz")
	if !ok1 {
		base, ok1 = strings.CutSuffix(name, ".csv")
	}
	a, b, ok2 := strings.Cut(base, "-")
	if !ok1 || !ok2 || a == "" || b == "" || strings.Trim(a, "0123456789") != "" || strings.Trim(b, "0123456789") != "" {
		return 0, 0, false
	}
	x, err1 := strconv.ParseInt(a, 10, 64)
	y, err2 := strconv.ParseInt(b, 10, 64)
	return uint64(x), uint64(y), err1 == nil && err2 == nil && x <= y
}

func names(r *core.Run, do func(string, func() error) bool) {
	nums := []string{"0", "1", "9", "10", "010", "99", "100", "100000", "9223372036854775807", "9223372036854775808", "", "-1", "+1", "x", "1 "}
	exts := []string{".gz", ".csv", "gz", "xgz", ".gz2", ".GZ", ".csv.gz", "", ".", ".gz\n"}
	for _, p := range []string{"", "dir/", "/a/5-6.gz/", "./", "9-"} {
		for _, a := range nums {
			for _, b := range nums {
				for _, sep := range []string{"-", "--", "_", ""} {
					for _, e := range exts {
						n := p + a + sep + b + e
						do("name "+strconv.Quote(n), func() error {
							first, last, ok := indices(n)
							f, err1 := util.CsvFilenameToFirstIndex(n)
							c, err2 := util.EstimateCertCount(n)
							if (err1 == nil) != ok || (err2 == nil) != ok {
								return fmt.Errorf("accepted with %v and %v, expected %v", err1, err2, ok)
							}
							if ok && (uint64(f) != first || uint64(c) != last-first+1) {
								return fmt.Errorf("first %d, count %d, expected %d, %d", f, c, first, last-first+1)
							}
							return nil
						})
					}
				}
			}
		}
	}
	pool := []string{"0-9.gz", "10-19.csv", "9-100.gz", "d/2-3.gz", "z/100-100.csv", "10-12.gz", "bad.gz", "00010-11.gz"}
	var rec func(l []string, depth int)
	rec = func(l []string, depth int) {
		do(fmt.Sprintf("sort %q", l), func() error {
			in := slices.Clone(l)
			bad := slices.Contains(l, "bad.gz")
			err := util.SortByBundleName(in)
			if (err != nil) != bad {
				return fmt.Errorf("sorted with %v", err)
			}
			if !slices.Equal(sorted(in), sorted(l)) {
				return fmt.Errorf("became %q", in)
			}
			if bad {
				return nil
			}
			for i := 1; i < len(in); i++ {
				a, _, _ := indices(in[i-1])
				b, _, _ := indices(in[i])
				if a > b {
					return fmt.Errorf("sorted as %q", in)
				}
			}
			return nil
		})
		if depth > 0 {
			for _, n := range pool {
				rec(append(l[:len(l):len(l)], n), depth-1)
			}
		}
	}
	rec(nil, r.Pick(4, 5))
}
