// Overlaid into cmd/ingest: parsing of rows and splitting of files into rows.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"errors"
	"fmt"
	"hash/maphash"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/netsec-ethz/fpki/cmd/ingest/fastcsv"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/vos"
)

// vRow is what a row says.
type vRow struct{ cert, chain, exp string }

// vParse is the reference: the row as encoding/csv reads it.
func vParse(raw string) (vRow, bool) {
	raw = strings.TrimRight(raw, "\r\n")
	r := csv.NewReader(strings.NewReader(raw))
	r.FieldsPerRecord = -1
	f, err := r.Read()
	if err != nil || len(f) < 5 {
		return vRow{}, false
	}
	w := vRow{f[3], f[4], f[len(f)-1]}
	return w, w.cert != "" && w.exp != ""
}

// The distinct well-formed rows and non-empty streams that were checked.
var (
	vSeed maphash.Seed = maphash.MakeSeed()
	vSeen [64]struct {
		sync.Mutex
		m map[uint64]bool
	}
)

func vCount(raw string) {
	h := maphash.String(vSeed, raw)
	s := &vSeen[h%64]
	s.Lock()
	defer s.Unlock()
	if s.m == nil {
		s.m = map[uint64]bool{}
	}
	if len(s.m) < 1<<20 { // bounds the memory of the thorough tier
		s.m[h] = true
	}
}

func vCheckRow(raw string) error {
	want, good := vParse(raw)
	if good {
		vCount(raw)
	}
	buf := []byte(raw)
	got, err := fastcsv.ParseLine(buf, "file", 7)
	if string(buf) != raw {
		return fmt.Errorf("row %q: the parser changed its input", raw)
	}
	if good != (err == nil) {
		return fmt.Errorf("row %q: well-formed %v, error %v", raw, good, err)
	}
	if err != nil {
		return nil
	}
	if g := (vRow{string(got.CertField), string(got.ChainField), string(got.ExpirationField)}); g != want || got.Number != 7 {
		return fmt.Errorf("row %q: parsed %+v number %d, expected %+v", raw, g, got.Number, want)
	}
	return nil
}

// vStream is an input file whose reads end at the given places.
type vStream struct {
	data     string
	cuts     []int // ascending
	step     int   // at most so many bytes per read, 0: no limit
	fail     error // instead of the end of file
	together bool  // the last bytes come together with the end
	openErr  error
	closeErr error
	pos      int
	closed   int
}

func (s *vStream) WithFile(string) util.CsvFile { return s }
func (s *vStream) Filename() string             { return "the-file" }
func (s *vStream) String() string               { return "the-file" }
func (s *vStream) Open() (io.Reader, error) {
	if s.openErr != nil {
		return nil, s.openErr
	}
	return s, nil
}
func (s *vStream) Close() error { s.closed++; return s.closeErr }
func (s *vStream) Read(b []byte) (int, error) {
	end := s.fail
	if end == nil {
		end = io.EOF
	}
	if s.pos == len(s.data) {
		return 0, end
	}
	n := len(s.data) - s.pos
	for _, c := range s.cuts {
		if c > s.pos {
			n = min(n, c-s.pos)
			break
		}
	}
	if s.step > 0 {
		n = min(n, s.step)
	}
	n = copy(b, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == len(s.data) && s.together {
		return n, end
	}
	return n, nil
}

var vFail = errors.New("injected read failure")
var vCloseFail = errors.New("injected close failure")

// vSplit reads the file with the worker and keeps the rows until the end.
func vSplit(p *Processor, f util.CsvFile) (rows []line, err error) {
	w := NewCsvSplitWorker(p)
	if err := w.startReadingLines(f); err != nil {
		return nil, err
	}
	for l := range w.lines {
		rows = append(rows, l)
	}
	return rows, <-w.done
}

// vExpect computes the rows of the content and whether all of them are well-formed.
func vExpect(data string, cut bool) (rows []vRow, bad int) {
	for n := 1; len(data) > 0; n++ {
		i := strings.IndexByte(data, '\n')
		if i < 0 {
			if cut {
				return rows, 0 // the rest of the last row is unknown
			}
			i = len(data) - 1
		}
		r, ok := vParse(data[:i+1])
		if !ok {
			return rows, n
		}
		rows = append(rows, r)
		data = data[i+1:]
	}
	return rows, 0
}

func vCompare(rows []line, want []vRow) error {
	if len(rows) != len(want) {
		return fmt.Errorf("%d rows, expected %d", len(rows), len(want))
	}
	for i, l := range rows {
		if g := (vRow{string(l.certField), string(l.chainField), string(l.expirationField)}); g != want[i] || l.number != i+1 {
			return fmt.Errorf("row %d: %.200v number %d, expected %.200v", i+1, g, l.number, want[i])
		}
	}
	return nil
}

func vCheckStream(p *Processor, s vStream) error {
	f := &s
	rows, err := vSplit(p, f)
	want, bad := vExpect(s.data, s.fail != nil)
	if e := vCompare(rows, want); e != nil {
		return e
	}
	if f.closed != 1 {
		return fmt.Errorf("file closed %d times", f.closed)
	}
	if good := bad == 0 && s.fail == nil && s.closeErr == nil; good != (err == nil) {
		return fmt.Errorf("first malformed row %d (0: none), read failure %v, close failure %v: reported %v", bad, s.fail, s.closeErr, err)
	}
	if err == nil {
		return nil
	}
	for _, e := range []error{s.fail, s.closeErr} {
		if e != nil && !errors.Is(err, e) {
			return fmt.Errorf("%v not reported, only %v", e, err)
		}
	}
	if (bad != 0 || s.fail != nil) && !strings.Contains(err.Error(), "the-file") {
		return fmt.Errorf("the error does not name the file: %v", err)
	}
	return nil
}

func main() {
	r := core.Start("C21", "exploration")
	defer fastcsv.SetStderr(io.Discard)()
	stats := statistics.NewStatistics(1<<60, nil)
	p := &Processor{Manager: &updater.Manager{Stats: stats}}
	skip := &Processor{SkipMissing: true, Manager: &updater.Manager{Stats: stats}}

	// 1. All short rows.
	const alphabet = ",\"a1. \r"
	depth := r.Pick(7, 9)
	r.Rule = fmt.Sprintf("rows: all strings up to %d symbols over %q behind each of 5 prefixes, all rows of up to 7 fields over 13 field contents, with 6 line ends, rows of 5 to 7 fields with one field of 16 widths (to 70000 bytes, plain, quoted, broken) and one of 6 contents in any columns; files: all files of up to 3 (thorough: 4) rows over 12 rows with every position of a read boundary, of a read failure, with failures of open and close, all pairs of read boundaries of smaller files, row lengths around the buffer size; gzip files: every truncation and every flipped bit of 3 files. Non-trivial: distinct well-formed rows, and distinct streams with at least one byte (counted up to 64 million)", depth, alphabet)
	prefixes := []string{"", "x,y,z,QUJD,", "x,y,z,", `x,"y,""",z,QUJD,REVG,`, "x,y,z,QUJD,REVG;R0hJ,q,"}
	nsym := len(alphabet)
	r.Parallel("short rows", nsym*nsym*len(prefixes), func(i int) {
		pre := prefixes[i%len(prefixes)]
		i /= len(prefixes)
		a, b := alphabet[i%nsym], alphabet[i/nsym]
		var n int64
		key := fmt.Sprintf("short %q %q", pre, string([]byte{a, b}))
		r.Case(key, "", func() error {
			if err := vCheckRow(pre + string(a)); err != nil {
				return err
			}
			var rec func(s []byte) error
			rec = func(s []byte) error {
				if err := vCheckRow(string(s)); err != nil {
					return err
				}
				n++
				if len(s) == len(pre)+depth {
					return nil
				}
				for k := 0; k < nsym; k++ {
					if err := rec(append(s, alphabet[k])); err != nil {
						return err
					}
				}
				return nil
			}
			return rec(append(append(make([]byte, 0, 64), pre...), a, b))
		})
		r.Evaluations.Add(n)
	})

	// 2. Rows by fields.
	fields := []string{"", "QUJD", "1.0", "17.", ".5", "1.x", "-1.0", `"QUJD"`, `"Q,""D"`, `""`, `"`, `Q"D`, " "}
	ends := []string{"", "\n", "\r\n", "\r", "\r\r\n", "\n\n"}
	r.Parallel("fields", len(fields)*len(fields)*len(fields), func(i int) {
		c, ch, last := fields[i%len(fields)], fields[i/len(fields)%len(fields)], fields[i/len(fields)/len(fields)]
		for _, first := range fields {
			for _, end := range ends {
				for n := 0; n <= 7; n++ {
					l := []string{first, "b", "c", c, ch, "f", last}[:n]
					if n >= 5 {
						l[n-1] = last
					}
					row := strings.Join(l, ",") + end
					r.Case("fields", row, func() error { return vCheckRow(row) })
				}
			}
		}
	})

	// Rows with a wide field before, in, or behind the columns that are read.
	widths := []int{1, 31, 63, 64, 65, 127, 255, 256, 257, 1023, 4095, 4096, 4097, 65535, 65536, 70000}
	r.Parallel("wide fields", len(widths)*7, func(i int) {
		w, col := widths[i/7], i%7
		pads := []string{strings.Repeat("A", w), "\"" + strings.Repeat("A", w) + "\"", "\"" + strings.Repeat("A", w-1) + ",\"", strings.Repeat("A", w-1) + "\"", strings.Repeat("1", w), strings.Repeat("A", w/2) + "." + strings.Repeat("1", w-w/2)}
		for _, pad := range pads {
			for _, other := range []string{"QUJD", `"QUJD"`, `"Q,""D"`, "", `Q"D`, `"QU`} {
				for at := 0; at < 7; at++ {
					for n := 5; n <= 7; n++ {
						l := []string{"a", "b", "c", "QUJD", "REVG", "f", "g"}[:n]
						l[n-1] = "17.0"
						if col >= n || at >= n {
							continue
						}
						l[at] = other
						l[col] = pad
						row := strings.Join(l, ",")
						for _, end := range []string{"", "\n", "\r\n"} {
							r.Case("wide fields", fmt.Sprintf("width %d column %d of %d, %q in %d, end %q, %q", w, col, n, other, at, end, pad[:1]+pad[len(pad)-1:]), func() error { return vCheckRow(row + end) })
						}
					}
				}
			}
		}
	})

	// 3. Files.
	var rows []string
	for _, c := range []string{"a,b,c,QUJD,REVG,17.0", `a,"b,1",c,"QUJE",RE;R0,x,9.5`, "a,b,c", "", "a,b,c,,x,1.0", `a,"b`} {
		rows = append(rows, c+"\n", c+"\r\n")
	}
	var files []string
	for n, l := 0, []string{""}; n <= r.Pick(3, 4); n++ {
		var next []string
		for _, f := range l {
			files = append(files, f)
			if n > 0 {
				files = append(files, strings.TrimSuffix(f, "\n"))
			}
			for _, row := range rows {
				next = append(next, f+row)
			}
		}
		l = next
	}
	vcase := func(what string, s vStream) {
		if len(s.data) > 0 {
			vCount(fmt.Sprintf("file %q %v %d %v %v %v", s.data, s.cuts, s.step, s.fail, s.together, s.closeErr))
		}
		r.Case(what, fmt.Sprintf("%q cuts %v step %d fail %v together %v close %v", s.data, s.cuts, s.step, s.fail, s.together, s.closeErr), func() error { return vCheckStream(p, s) })
	}
	r.Parallel("files", len(files), func(i int) {
		f := files[i]
		for _, together := range []bool{false, true} {
			vcase("files", vStream{data: f, together: together, step: 1})
			vcase("files", vStream{data: f, together: together, closeErr: vCloseFail})
		}
		for k := 0; k <= len(f); k++ {
			vcase("files", vStream{data: f, cuts: []int{k}, together: k%2 == 0})
			for _, e := range []error{vFail, io.ErrUnexpectedEOF} {
				vcase("failures", vStream{data: f[:k], fail: e, together: k > 0 && k%2 == 0})
			}
			vcase("failures", vStream{data: f[:k], fail: vFail, closeErr: vCloseFail, together: k%2 == 1})
			if len(f) < 60 {
				for j := k + 1; j < len(f); j++ {
					vcase("two boundaries", vStream{data: f, cuts: []int{k, j}})
				}
			}
		}
	})

	// 4. Rows around the size of the read buffer.
	r.Parallel("long rows", 40, func(i int) {
		for _, base := range []int{16, 512, 1024, 2048, 4096, 8192, 12288, 16384, 32768, 65536} {
			n := base - 20 + i
			if n < 22 {
				continue
			}
			long := func(c byte) string {
				return strings.Repeat(string(c), n-len(",b,c,QUJD,REVG,17.0")) + ",b,c,QUJ" + string(c) + ",REVG,17.0"
			}
			for _, end := range []string{"\n", "\r\n"} {
				for _, last := range []string{"", end, "x" + end} {
					d := long('A') + end + long('B') + end + rows[0] + long('C') + last
					vcase("long rows", vStream{data: d})
					vcase("long rows", vStream{data: d, cuts: []int{n}, together: true})
					vcase("long rows", vStream{data: d, step: 7})
					vcase("long rows", vStream{data: d, fail: vFail})
				}
			}
		}
	})

	// 5. Opening.
	for _, c := range []struct {
		p    *Processor
		err  error
		want bool
	}{{p, os.ErrNotExist, false}, {p, vFail, false}, {skip, vFail, false}, {skip, os.ErrPermission, false},
		{skip, os.ErrNotExist, true}, {skip, &os.PathError{Op: "open", Path: "x", Err: os.ErrNotExist}, true}, {skip, fmt.Errorf("w: %w", os.ErrNotExist), true}} {
		r.Case("open", fmt.Sprintf("skip %v: %v", c.p.SkipMissing, c.err), func() error {
			f := &vStream{data: rows[0], openErr: c.err}
			got, err := vSplit(c.p, f)
			if len(got) != 0 || f.closed != 0 {
				return fmt.Errorf("%d rows, closed %d times", len(got), f.closed)
			}
			if c.want != (err == nil) || err != nil && !errors.Is(err, c.err) {
				return fmt.Errorf("reported %v", err)
			}
			return nil
		})
	}

	// 6. Compressed files: truncated and corrupted.
	dir := vos.Scratch()
	for fi, content := range []string{rows[0] + rows[2], rows[0] + strings.TrimSuffix(rows[2], "\n"), strings.Repeat(rows[0]+rows[3], 40)} {
		for members := 1; members <= 2; members++ {
			var b bytes.Buffer
			for m := 0; m < members; m++ {
				z := gzip.NewWriter(&b)
				part := content
				if members == 2 {
					h := len(content)/2 + 3
					part = []string{content[:h], content[h:]}[m]
				}
				if _, err := z.Write([]byte(part)); err != nil {
					panic(err)
				}
				z.Close()
			}
			data := b.Bytes()
			want, _ := vExpect(content, false)
			try := func(worker, what string, d []byte, boundary bool) {
				r.Case("gzip", fmt.Sprintf("file %d, %d members, %s", fi, members, what), func() error {
					name := filepath.Join(dir, worker+".gz")
					if err := os.WriteFile(name, d, 0o644); err != nil {
						panic(err)
					}
					defer os.Remove(name)
					f, err := util.LoadCsvFile(name)
					if err != nil {
						return err
					}
					got, err := vSplit(p, f)
					if what == "unchanged" && err != nil {
						return err
					}
					if err == nil && !boundary {
						return vCompare(got, want)
					}
					return nil
				})
			}
			try("w", "unchanged", data, false)
			first := 0 // a file that ends after a whole member is a valid file
			if members == 2 {
				z := bytes.NewReader(data)
				g, _ := gzip.NewReader(z)
				g.Multistream(false)
				io.Copy(io.Discard, g)
				first = len(data) - z.Len()
			}
			r.Parallel(fmt.Sprintf("gzip %d/%d", fi, members), len(data), func(i int) {
				w := fmt.Sprintf("%d-%d-%d", fi, members, i)
				try(w, fmt.Sprintf("truncated to %d", i), data[:i], i == first)
				for bit := 0; bit < 8; bit++ {
					d := bytes.Clone(data)
					d[i] ^= 1 << bit
					try(w, fmt.Sprintf("bit %d of byte %d flipped", bit, i), d, false)
				}
			})
		}
	}
	r.Assume("encoding/csv is the reference for the fields of a row; a row ends at a newline and all line-end characters at its end are ignored")
	for i := range vSeen {
		r.Distinct.Add(int64(len(vSeen[i].m)))
	}
	r.Finish()
}
