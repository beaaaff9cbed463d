package ctlog

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

// Reader follows what a fetcher delivers of one range.
type Reader struct {
	F       logfetcher.Fetcher
	Want    []Entry
	Pos     int
	Max     int // largest batch, 0: not checked
	Stopped bool
	Failed  error
	Ended   bool
}

// Next reads a batch and checks it. It returns false at the end.
func (r *Reader) Next(ctx context.Context) (bool, error) {
	if !r.F.NextBatch(ctx) {
		r.Ended = true
		if r.Pos < len(r.Want) && !r.Stopped && r.Failed == nil {
			return false, fmt.Errorf("the end is reported after %d of %d entries", r.Pos, len(r.Want))
		}
		return false, nil
	}
	if r.Ended {
		return false, fmt.Errorf("there is a batch after the end")
	}
	certs, chains, expired, err := r.F.ReturnNextBatch()
	if err != nil {
		if errors.Is(err, ctx.Err()) && ctx.Err() != nil {
			return true, ctx.Err()
		}
		r.Failed = err
		return true, nil
	}
	if r.Failed != nil && !r.Stopped {
		return false, fmt.Errorf("there is a batch after the error %v", r.Failed)
	}
	if expired != 0 || len(certs) == 0 {
		return false, fmt.Errorf("a batch with %d certificates and %d expired ones", len(certs), expired)
	}
	if r.Max > 0 && len(certs) > r.Max {
		return false, fmt.Errorf("a batch of %d certificates, at most %d are asked for", len(certs), r.Max)
	}
	if err := Check(r.Want[r.Pos:], certs, chains); err != nil {
		return false, fmt.Errorf("after %d entries: %w", r.Pos, err)
	}
	r.Pos += len(certs)
	return true, nil
}

// All reads until the end or the first error.
func (r *Reader) All(ctx context.Context) error {
	for r.Failed == nil {
		ok, err := r.Next(ctx)
		if err != nil || !ok {
			return err
		}
	}
	return nil
}

// Row is a row of a local file. The name of a certificate with an optional mark "!kind" of a fault, or
// "-" if the last column says that it expired, "+" that it is about to.
func Row(text string) string {
	name, fault, _ := strings.Cut(strings.TrimRight(text, "-+"), "!")
	if fault == "empty" {
		return "\n"
	}
	c := Universe[name]
	leaf := base64.StdEncoding.EncodeToString(c.C.Raw)
	var l []string
	for _, p := range c.Chain() {
		l = append(l, base64.StdEncoding.EncodeToString(p.Raw))
	}
	exp := fmt.Sprintf("%d.0", Base.AddDate(10, 0, 0).Unix())
	switch {
	case strings.HasSuffix(text, "-"):
		exp = fmt.Sprintf("%d.0", present.Add(-time.Second).Unix())
	case strings.HasSuffix(text, "+"):
		exp = fmt.Sprintf("%d.0", present.Add(time.Second).Unix())
	}
	switch fault {
	case "leaf64":
		leaf = "*" + leaf[1:]
	case "leafder":
		leaf = leaf[8:]
	case "chain64":
		l[0] = l[0][:9]
	case "chainder":
		l[len(l)-1] = "QUJD"
	case "exp":
		exp = "soon"
	case "expn":
		exp = "a.0"
	case "short":
		return leaf + "," + exp + "\n"
	case "quote":
		return "1,\"2,3\n"
	}
	return strings.Join([]string{"0", "1", "2", leaf, strings.Join(l, ";"), "x", exp}, ",") + "\n"
}

// Shown is what is delivered for a set of rows: multiset of certificates with their chains, and the number of expired rows.
type Shown struct {
	Certs   []string
	Expired int
}

func (s Shown) String() string {
	sort.Strings(s.Certs)
	return fmt.Sprintf("%q and %d expired", s.Certs, s.Expired)
}

func (s *Shown) Add(certs []ctx509.Certificate, chains [][]*ctx509.Certificate, expired int) {
	for i := range certs {
		s.Certs = append(s.Certs, Describe(certs[i].Raw, chains[i]))
	}
	s.Expired += expired
}

// WantRows is what rows amount to, and whether one of them is broken.
func WantRows(now time.Time, rows []string) (s Shown, broken bool) {
	for _, t := range rows {
		name, fault, _ := strings.Cut(strings.TrimRight(t, "-+"), "!")
		switch {
		case fault == "empty":
		case fault != "":
			broken = true
		case strings.HasSuffix(t, "-") || Universe[name].Exp.Before(now):
			s.Expired++
		default:
			c := Universe[name]
			s.Certs = append(s.Certs, Describe(c.C.Raw, c.Chain()))
		}
	}
	return
}

// WriteFile writes a file of rows.
func WriteFile(name string, rows []string) {
	s := ""
	for _, r := range rows {
		s += Row(r)
	}
	if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, []byte(s), 0644); err != nil {
		panic(err)
	}
}

// Cycle is the update of the certificates as the map server does it.
func Cycle(ctx context.Context, u *updater.MapUpdater) error {
	if err := u.StartFetchingRemaining(); err != nil {
		return err
	}
	for {
		more, err := u.NextBatch(ctx)
		if err != nil {
			return err
		}
		if !more {
			return nil
		}
		if _, err := u.UpdateNextBatch(ctx); err != nil {
			return err
		}
	}
}

// Covered checks that the first n of the given certificates are stored with all that belongs to them.
func Covered(s *memdb.State, leaves []*fix.Cert) error {
	want := fix.ExpectOf(leaves, nil)
	for id := range want.Certs {
		if _, ok := s.Certs[id]; !ok {
			return fmt.Errorf("certificate %s is not stored", nameOf(id))
		}
	}
	for _, l := range leaves {
		for _, n := range l.Names {
			if !s.DomainCerts[common.SHA256Hash32Bytes([]byte(n))][l.ID] {
				return fmt.Errorf("certificate %s is not linked to %s", l.Name, n)
			}
		}
	}
	return nil
}

func nameOf(id fix.ID) string {
	for n, c := range Universe {
		if c.ID == id {
			return n
		}
	}
	return fmt.Sprintf("%x", id[:4])
}

// Namer names all certificates.
func Namer() fix.Namer {
	n := fix.Namer{}
	for _, c := range Universe {
		n.Certs(c)
	}
	return n
}

// Progress checks that the recorded sizes of logs do not run ahead of what is stored.
func Progress(s *memdb.State, logs map[string][]*fix.Cert) error {
	for url, l := range logs {
		st := State(s, url)
		if int(st.Size) > len(l) {
			return fmt.Errorf("size %d is recorded for %s, which has %d entries", st.Size, url, len(l))
		}
		if err := Covered(s, l[:st.Size]); err != nil {
			return fmt.Errorf("size %d is recorded for %s: %w", st.Size, url, err)
		}
	}
	return nil
}

// State is the recorded state of a log.
func State(s *memdb.State, url string) memdb.LogState {
	return s.Logs[string(common.SHA256Hash([]byte(url)))]
}
