// Overlaid into cmd/ingest: from the rows of the input files to the storage, under every schedule.
package main

import (
	"cmp"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/netsec-ethz/fpki/cmd/ingest/fastcsv"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/pkg/util/noallocs"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
	"github.com/netsec-ethz/fpki/verifmc/pipex"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

type vID = common.SHA256Output

// vRow is a row of an input file: "leaf parent grandparent" with optional marks.
type vRow struct {
	text   string
	leaf   *fix.Cert
	chain  []*fix.Cert
	skip   bool // expired
	broken bool
	raw    string
}

var (
	vCerts = map[string]*fix.Cert{}
	vDir   string
)

func vUniverse() {
	future, past := vrt.Base.AddDate(5, 0, 0), vrt.Base.AddDate(0, -1, 0)
	for _, n := range []string{"R", "S"} {
		vCerts[n] = fix.New(n, "root "+n, nil, nil, future.AddDate(0, 0, int(n[0])))
	}
	for _, n := range []string{"P", "Q", "X"} {
		vCerts[n] = fix.New(n, "ca-"+n+".com", []string{"www." + n + ".com"}, vCerts["R"], future.AddDate(0, 0, int(n[0])))
	}
	for _, n := range []string{"a", "b", "c", "d", "e", "f"} {
		vCerts[n] = fix.New(n, n+".com", []string{"x." + n + ".com"}, vCerts["P"], future.AddDate(0, 0, int(n[0])))
	}
	for _, n := range []string{"o", "p"} { // expired
		vCerts[n] = fix.New(n, n+".com", nil, vCerts["P"], past)
	}
}

// vMake makes a row. Marks: "-" the column says that it is expired, "+" that it is not, "!kind" broken.
func vMake(text string) vRow {
	r := vRow{text: text}
	var fields []string
	expired, broken := "", ""
	for i, w := range strings.Fields(text) {
		switch {
		case w == "-" || w == "+":
			expired = w
		case w[0] == '!':
			broken = w
		case i == 0:
			r.leaf = vCerts[w]
		default:
			r.chain = append(r.chain, vCerts[w])
			fields = append(fields, base64.StdEncoding.EncodeToString(vCerts[w].C.Raw))
		}
	}
	exp := r.leaf.Exp
	switch expired {
	case "-":
		exp = vrt.Base.AddDate(0, 0, -1)
	case "+":
		exp = vrt.Base.AddDate(0, 0, 1)
	}
	r.skip = expired == "-" || r.leaf.Exp.Before(vrt.Base)
	r.broken = broken != ""
	leaf, chain, last := base64.StdEncoding.EncodeToString(r.leaf.C.Raw), strings.Join(fields, ";"), fmt.Sprintf("%d.0", exp.Unix())
	switch broken {
	case "!leaf64":
		leaf = "*" + leaf
	case "!leafder":
		leaf = leaf[4:]
	case "!chain64":
		chain += "*"
	case "!chainder":
		chain += ";QUJD"
	case "!exp":
		last = "x.y"
	case "!short":
		r.raw = "1,2,3\n"
		return r
	}
	r.raw = strings.Join([]string{"0", "1", "2", leaf, chain, "x", last}, ",") + "\n"
	return r
}

type vCfg struct {
	readers, chains, certs, writers, batch int
	files                                  [][]string
	fail                                   string // failure: "op:k" of the storage, "open:f", "read:f", "close:f", "missing:f" of file f
	skip                                   bool   // skip missing files
	cancel                                 bool
}

// vFile is an input file in memory.
type vFile struct {
	w    *vWorld
	n    int
	data string
	pos  int
}

func (f *vFile) WithFile(string) util.CsvFile { return f }
func (f *vFile) Filename() string             { return fmt.Sprintf("file-%d", f.n) }
func (f *vFile) String() string               { return f.Filename() }
func (f *vFile) on(what string) bool {
	if f.w.fail == fmt.Sprintf("%s:%d", what, f.n) {
		f.w.hit = true
		return true
	}
	return false
}
func (f *vFile) Open() (io.Reader, error) {
	if f.on("open") {
		return nil, pipex.InjErr(f.w.fail)
	}
	if f.on("missing") {
		return nil, os.ErrNotExist
	}
	return f, nil
}
func (f *vFile) Close() error {
	if f.on("close") {
		return pipex.InjErr(f.w.fail)
	}
	return nil
}
func (f *vFile) Read(b []byte) (int, error) {
	if f.pos == len(f.data) {
		if f.on("read") {
			return 0, pipex.InjErr(f.w.fail)
		}
		return 0, io.EOF
	}
	n := copy(b, f.data[f.pos:min(len(f.data), f.pos+700)])
	f.pos += n
	return n, nil
}

type vWorld struct {
	vCfg
	db      *memdb.DB
	created map[string]bool
	count   map[string]int
	hit     bool
	done    bool // cancelled
}

var vCur *vWorld

func (w *vWorld) at(what string) error {
	vrt.Touch("ops")
	w.count[what]++
	if fmt.Sprintf("%s:%d", what, w.count[what]) == w.fail {
		w.hit = true
		return pipex.InjErr(w.fail)
	}
	return nil
}

func (w *vWorld) cleanup() {
	for f := range w.created {
		os.Remove(f)
	}
}

// expect is what has to be stored; the parents that rows give to a certificate are alternatives.
func (w *vWorld) expect() (*memdb.State, map[vID]map[vID]bool, bool) {
	s, parents, broken := memdb.NewState(), map[vID]map[vID]bool{}, false
	store := func(c, parent *fix.Cert) {
		var p vID
		if parent != nil {
			p = parent.ID
		}
		s.Certs[c.ID] = memdb.Object{Exp: memdb.Exp(c.Exp), Payload: string(c.C.Raw), Parent: p}
		if parents[c.ID] == nil {
			parents[c.ID] = map[vID]bool{}
		}
		parents[c.ID][p] = true
	}
	for i, f := range w.files {
		if w.fail == fmt.Sprintf("missing:%d", i) {
			continue
		}
		for _, text := range f {
			r := vMake(text)
			broken = broken || r.broken
			if r.skip || r.broken {
				continue
			}
			prev := r.leaf
			for _, c := range r.chain {
				store(prev, c)
				prev = c
			}
			store(prev, nil)
			for _, n := range r.leaf.Names {
				d := vID(common.SHA256Hash32Bytes([]byte(n)))
				s.Domains[d] = n
				s.Dirty[d] = false
				if s.DomainCerts[d] == nil {
					s.DomainCerts[d] = map[vID]bool{}
				}
				s.DomainCerts[d][r.leaf.ID] = true
			}
		}
	}
	return s, parents, broken
}

func (w *vWorld) body() error {
	vCur = w
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p, err := NewProcessor(ctx, w.db, w.batch, &statistics.Stats{},
		WithNumFileReaders(w.readers), WithNumToChains(w.chains), WithNumToCerts(w.certs), WithNumDBWriters(w.writers), WithSkipMissingFiles(w.skip))
	if err != nil {
		return err
	}
	var files []util.CsvFile
	for i, f := range w.files {
		data := ""
		for _, text := range f {
			data += vMake(text).raw
		}
		files = append(files, &vFile{w: w, n: i, data: data})
	}
	p.AddCsvFiles(files)
	if w.cancel {
		vrt.Go(func() {
			vrt.Step("cancel")
			w.done = true
			cancel()
		})
	}
	p.Resume()
	err = p.Wait()
	vrt.Touch("ops")
	want, parents, broken := w.expect()
	missing := strings.HasPrefix(w.fail, "missing:")
	switch {
	case missing && w.skip:
	case missing && w.hit:
		if !errors.Is(err, os.ErrNotExist) {
			return fmt.Errorf("a file is missing, the run reports %v", err)
		}
	case w.hit && !(broken && err != nil):
		if err == nil || !strings.Contains(err.Error(), w.fail) {
			return fmt.Errorf("%s failed, the run reports %v", w.fail, err)
		}
	case broken && err == nil:
		return fmt.Errorf("a row is broken, the run reports success")
	case err != nil && w.done || broken:
	case err != nil:
		return fmt.Errorf("the run fails: %v", err)
	}
	if err != nil {
		return nil
	}
	for id, o := range w.db.S.Certs {
		if x, ok := want.Certs[id]; ok && parents[id][o.Parent] {
			x.Parent = o.Parent
			want.Certs[id] = x
		}
	}
	if a, b := w.db.S.Dump(), want.Dump(); a != b {
		return fmt.Errorf("stored beyond what is expected:\n%s\nmissing:\n%s", vMinus(a, b), vMinus(b, a))
	}
	return nil
}

// vShort leaves out the payloads.
func vShort(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		for n, c := range vCerts {
			x = strings.ReplaceAll(x, fmt.Sprintf("%x", c.C.Raw), "<"+n+">")
			x = strings.ReplaceAll(x, fmt.Sprintf("%x", c.ID[:]), n)
		}
		l = append(l, x)
	}
	return strings.Join(l, "\n")
}

func vMinus(a, b string) string {
	has := map[string]bool{}
	for _, l := range strings.Split(vShort(b), "\n") {
		has[l] = true
	}
	var l []string
	for _, x := range strings.Split(vShort(a), "\n") {
		if !has[x] {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

func main() {
	fastcsv.SetStderr(io.Discard)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_STDERR") == "" {
		os.Stderr = null // "missing file" notes
	}
	vUniverse()
	vDir = fmt.Sprintf("%s/files-%d/", cmp.Or(os.Getenv("VERIF_WORK"), os.TempDir()), os.Getpid())
	if err := os.MkdirAll(vDir, 0755); err != nil {
		panic(err)
	}
	noallocs.VerifTempfile = func(storage []byte, prefix, suffix string, orig func([]byte, string, string) (string, error)) (string, error) {
		w := vCur
		i := strings.LastIndexByte(prefix, '/')
		name, err := orig(storage, vDir+prefix[i+1:], suffix)
		if err == nil {
			w.created[strings.Clone(name)] = true
		}
		return name, err
	}
	var scens []*vrt.Scenario
	add := func(q, d int, c vCfg) {
		var prev *vWorld
		scens = append(scens, &vrt.Scenario{
			Name:  fmt.Sprintf("readers=%d chains=%d certs=%d writers=%d batch=%d files=%q fail=%s skip=%v cancel=%v", c.readers, c.chains, c.certs, c.writers, c.batch, c.files, c.fail, c.skip, c.cancel),
			Quick: max(q, 0), Deep: d, OnlyDeep: q < 0, MaxSteps: 200000,
			Body: func() error {
				if prev != nil {
					prev.cleanup()
				}
				w := &vWorld{vCfg: c, db: memdb.New(), created: map[string]bool{}, count: map[string]int{}}
				prev = w
				w.db.Point = func(op string) { vrt.Step(op) }
				w.db.Hook = func(step string, write bool) error { return w.at(step) }
				return w.body()
			},
			Final: func(r *vrt.Result) error {
				if r.Status == vrt.StLeak { // helpers of the replaced source stage and of stopped readers stay
					return r.Err
				}
				return vrt.DefaultFinal(r)
			},
			Outcome: func(r *vrt.Result) string {
				if prev.hit || prev.done {
					return r.Status.String() + " (with error)"
				}
				return r.Status.String()
			},
		})
	}
	one := func(batch int, files ...[]string) vCfg {
		return vCfg{readers: 1, chains: 1, certs: 1, writers: 1, batch: batch, files: files}
	}
	with := func(c vCfg, r, ch, ce, w int) vCfg {
		c.readers, c.chains, c.certs, c.writers = r, ch, ce, w
		return c
	}
	plain := []string{"a P R", "b P R"}
	cross := []string{"a P R", "b P S", "c Q S"}
	asLeaf := []string{"a P R", "P R"}
	old := []string{"o P R", "a P R -", "p Q R +", "b X R"}
	more := []string{"d Q R", "a P R", "e X S", "f R"}
	add(1, 2, one(1, plain))
	add(1, 1, one(2, cross))
	add(1, 1, one(1, asLeaf))
	add(1, 1, one(2, old))
	add(0, 1, one(1, []string{"P R", "a P R"}, []string{"a P R", "b P X S", "X S"}))
	add(0, 1, one(3, plain, more, cross))
	add(0, 1, one(1))
	add(0, 1, one(1, []string{}, plain[:1], []string{}))
	add(1, 1, with(one(1, []string{"a P R"}), 1, 2, 1, 1))
	add(0, 1, with(one(1, []string{"a P R"}), 1, 1, 2, 1))
	add(0, 1, with(one(1, plain[:1], plain[1:]), 2, 1, 1, 1))
	add(0, 1, with(one(1, []string{"a P R"}), 1, 1, 1, 2))
	add(0, 1, with(one(2, cross), 2, 2, 2, 2))
	add(0, 1, with(one(2, cross, more), 2, 2, 2, 2))
	add(0, 1, with(one(1, asLeaf, plain, more), 2, 3, 2, 2))
	add(0, 1, with(one(1, old, more, []string{"P R", "X R"}), 3, 2, 1, 3))
	add(-1, 1, with(one(2, plain, more, cross, asLeaf), 4, 4, 4, 4))
	for _, b := range []string{"!leaf64", "!leafder", "!chain64", "!chainder", "!exp", "!short"} {
		for i := 0; i < 3; i++ {
			f := []string{"a P R", "b P R"}
			f = append(f[:i:i], append([]string{"c P R " + b}, f[i:]...)...)
			q := 0
			if i == 1 && (b == "!chain64" || b == "!short") {
				q = 1
			}
			add(q, 1, one(1, f))
			add(0, 1, with(one(1, []string{"d Q R"}, f), 2, 2, 2, 2))
		}
	}
	for _, f := range []string{"open", "read", "close", "missing", "csv-certs", "csv-dirty", "csv-domains", "csv-domain_certs"} {
		for k := 0; k <= 2; k++ {
			c := one(1, plain, more[:1])
			c.fail = fmt.Sprintf("%s:%d", f, k)
			q := 0
			if k == 1 && (f == "read" || f == "csv-certs") {
				q = 1
			}
			add(q, 1, c)
			add(0, 1, with(c, 2, 2, 2, 2))
			if f == "missing" {
				c.skip = true
				add(0, 1, c)
				add(0, 1, with(c, 2, 1, 1, 1))
			}
		}
	}
	for _, c := range []vCfg{one(1, plain[:1]), with(one(1, plain), 2, 2, 2, 2)} {
		c.cancel = true
		q := 1
		if c.readers == 2 {
			q = 0
		}
		add(q, 1, c)
	}
	vrt.Main("C22", "every schedule of the ingestion of small input files (readers, row and chain workers, joined with the bulk ingestion) for given worker counts, rows, corrupt rows and failing operations, with a bounded number of deviations from four base policies", scens, nil)
}
