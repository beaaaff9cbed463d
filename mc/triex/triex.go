// Package triex holds the alphabet, the store and the history executor of the tree checks.
package triex

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

var ErrInjected = errors.New("injected storage error")

// Store is an in-memory implementation of the storage interface of the tree.
// Operations are counted; operation FailAt (1-based, among mutating ops or reads) fails.
type Store struct {
	// Point, if set, is called at the start of every operation (scheduling point).
	Point func(op string)

	mu      sync.Mutex
	M       map[common.SHA256Output][]byte
	Writes  int
	Reads   int
	FailW   int // fail the n-th write operation (1-based, counted from the last reset)
	FailR   int
	Partial int // number of records applied before a failing write fails (-1: none)
	Log     []string
}

func NewStore() *Store { return &Store{M: map[common.SHA256Output][]byte{}} }
func (s *Store) Clone() *Store {
	c := NewStore()
	for k, v := range s.M {
		c.M[k] = v
	}
	return c
}
func (s *Store) Close() error { return nil }
func (s *Store) RetrieveTreeNode(_ context.Context, key common.SHA256Output) ([]byte, error) {
	if s.Point != nil {
		s.Point("RetrieveTreeNode")
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Reads++
	if s.FailR > 0 && s.Reads == s.FailR {
		return nil, ErrInjected
	}
	v, ok := s.M[key]
	if !ok {
		return nil, nil // like the MySQL implementation: no row, no error
	}
	return append([]byte{}, v...), nil
}
func (s *Store) UpdateTreeNodes(_ context.Context, r []*db.TreeNodeRecord) (int, error) {
	if s.Point != nil {
		s.Point("UpdateTreeNodes")
	}
	s.Writes++
	sort.Slice(r, func(i, j int) bool { return bytes.Compare(r[i].Key[:], r[j].Key[:]) < 0 })
	fail := s.FailW > 0 && s.Writes == s.FailW
	for i, x := range r {
		if fail && i >= s.Partial {
			break
		}
		s.M[x.Key] = append([]byte{}, x.Value...)
	}
	s.Log = append(s.Log, fmt.Sprintf("write %d", len(r)))
	if fail {
		return 0, ErrInjected
	}
	return len(r), nil
}
func (s *Store) DeleteTreeNodes(_ context.Context, keys []common.SHA256Output) (int, error) {
	if s.Point != nil {
		s.Point("DeleteTreeNodes")
	}
	s.Writes++
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) < 0 })
	fail := s.FailW > 0 && s.Writes == s.FailW
	n := 0
	for i, k := range keys {
		if fail && i >= s.Partial {
			break
		}
		if _, ok := s.M[k]; ok {
			n++
			delete(s.M, k)
		}
	}
	s.Log = append(s.Log, fmt.Sprintf("delete %d", len(keys)))
	if fail {
		return 0, ErrInjected
	}
	return n, nil
}

// Geometry is a set of keys. Probe keys are never inserted.
type Geometry struct {
	Name   string
	Keys   [][]byte
	Probes [][]byte
}

func flip(k []byte, bit int) []byte {
	c := append([]byte{}, k...)
	c[bit/8] ^= 1 << (7 - uint(bit%8))
	return c
}

// Triples returns geometries of three keys a, b, c: b leaves the path of a at bit i, c at bit j.
func Triples(bits []int, bases []byte) (res []Geometry) {
	for _, base := range bases {
		a := bytes.Repeat([]byte{base}, 32)
		for x, i := range bits {
			for _, j := range bits[x:] {
				b := flip(a, i)
				c := flip(a, j)
				if i == j {
					// b and c share the bit, differ at the next bits
					if j+1 < 256 {
						c = flip(c, j+1)
					} else {
						continue
					}
				}
				g := Geometry{Name: fmt.Sprintf("base%02x-bits%d-%d", base, i, j), Keys: [][]byte{a, b, c}}
				g.finish()
				res = append(res, g)
			}
		}
	}
	return
}

// Quads returns four-key geometries.
func Quads(trip [][3]int, bases []byte) (res []Geometry) {
	for _, base := range bases {
		a := bytes.Repeat([]byte{base}, 32)
		for _, t := range trip {
			g := Geometry{Name: fmt.Sprintf("base%02x-bits%d-%d-%d", base, t[0], t[1], t[2]),
				Keys: [][]byte{a, flip(a, t[0]), flip(a, t[1]), flip(flip(a, t[0]), t[2])}}
			g.finish()
			res = append(res, g)
		}
	}
	return
}

func (g *Geometry) finish() {
	sort.Slice(g.Keys, func(i, j int) bool { return bytes.Compare(g.Keys[i], g.Keys[j]) < 0 })
	has := func(k []byte) bool {
		for _, x := range g.Keys {
			if bytes.Equal(x, k) {
				return true
			}
		}
		for _, x := range g.Probes {
			if bytes.Equal(x, k) {
				return true
			}
		}
		return false
	}
	for i := range g.Keys {
		if i > 0 && bytes.Equal(g.Keys[i], g.Keys[i-1]) {
			panic("duplicate keys in geometry " + g.Name)
		}
	}
	for _, bit := range []int{0, 2, 3, 4, 6, 9, 251, 254} {
		k := flip(g.Keys[0], bit)
		if !has(k) {
			g.Probes = append(g.Probes, k)
		}
		k = flip(g.Keys[len(g.Keys)-1], bit)
		if !has(k) {
			g.Probes = append(g.Probes, k)
		}
	}
}

// Val returns value number i (1-based); 0 stands for absent/deleted.
func Val(i int) []byte {
	if i == 0 {
		return append([]byte{}, trie.DefaultLeaf...)
	}
	return bytes.Repeat([]byte{0x10*byte(i) + 1}, 32)
}

// After says what happens after a batch.
type After int

const (
	Nothing After = iota
	Commit
	Reopen      // commit, then open a new tree on the same store
	ReopenCache // commit, open a new tree with caching on and warm the cache
)

func (a After) String() string { return [...]string{"", "+commit", "+reopen", "+reopenWarm"}[a] }

// Batch assigns to every key of the geometry: -1 untouched, 0 delete, n value n.
type Step struct {
	Set   []int
	After After
}

func (s Step) String() string {
	var b strings.Builder
	b.WriteByte('[')
	for i, v := range s.Set {
		if i > 0 {
			b.WriteByte(' ')
		}
		switch v {
		case -1:
			b.WriteByte('.')
		case 0:
			b.WriteByte('x')
		default:
			fmt.Fprintf(&b, "%d", v)
		}
	}
	b.WriteString("]" + s.After.String())
	return b.String()
}

type History []Step

func (h History) String() string {
	l := make([]string, len(h))
	for i, s := range h {
		l[i] = s.String()
	}
	return strings.Join(l, " ")
}

// Batches enumerates all non-empty batches over n keys and values 0..maxv.
func Batches(n, maxv int) (res [][]int) {
	cur := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			for _, v := range cur {
				if v >= 0 {
					res = append(res, append([]int{}, cur...))
					return
				}
			}
			return
		}
		for v := -1; v <= maxv; v++ {
			cur[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	return
}

// Sys is a tree together with its reference contents.
type Sys struct {
	G         *Geometry
	Cache     int // CacheHeightLimit, -1: default
	Atomic    bool
	Store     *Store
	T         *trie.Trie
	Content   []int // current value per key (0 absent)
	Committed []int
	CRoot     []byte // root at the last commit
}

var Ctx = context.Background()

func Open(g *Geometry, cache int) (*Sys, error) {
	s := &Sys{G: g, Cache: cache, Store: NewStore(), Content: make([]int, len(g.Keys)), Committed: make([]int, len(g.Keys))}
	return s, s.open(nil, false)
}

func (s *Sys) open(root []byte, warm bool) error {
	t, err := trie.NewTrie(root, common.SHA256Hash, s.Store)
	if err != nil {
		return err
	}
	if s.Cache >= 0 {
		t.CacheHeightLimit = s.Cache
	}
	if warm {
		if s.Cache < 0 {
			t.CacheHeightLimit = 0
		}
		if err := t.LoadCache(Ctx, root); err != nil {
			return fmt.Errorf("LoadCache: %w", err)
		}
	}
	s.T = t
	return nil
}

// OpenAt opens a separate view of the store at a root.
func OpenAt(st *Store, root []byte) (*trie.Trie, error) {
	return trie.NewTrie(root, common.SHA256Hash, st)
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// Batch applies a batch to the real tree and to the model.
func (s *Sys) Batch(set []int) error {
	var ks, vs [][]byte
	for i, v := range set {
		if v < 0 {
			continue
		}
		ks = append(ks, cp(s.G.Keys[i]))
		vs = append(vs, Val(v))
	}
	var root []byte
	var err error
	if s.Atomic {
		root, err = s.T.AtomicUpdate(Ctx, ks, vs)
	} else {
		root, err = s.T.Update(Ctx, ks, vs)
	}
	if err != nil {
		return fmt.Errorf("Update: %w", err)
	}
	if !bytes.Equal(root, s.T.Root) {
		return fmt.Errorf("Update returned root %x but the tree has root %x", root, s.T.Root)
	}
	for i, v := range set {
		if v >= 0 {
			s.Content[i] = v
		}
	}
	return nil
}

func (s *Sys) Commit() error {
	if err := s.T.Commit(Ctx); err != nil {
		return fmt.Errorf("Commit: %w", err)
	}
	copy(s.Committed, s.Content)
	s.CRoot = cp(s.T.Root)
	return nil
}

func (s *Sys) Step(st Step) error {
	if err := s.Batch(st.Set); err != nil {
		return err
	}
	if st.After == Nothing {
		return nil
	}
	if err := s.Commit(); err != nil {
		return err
	}
	switch st.After {
	case Reopen:
		return s.open(rootOrNil(s.T.Root), false)
	case ReopenCache:
		return s.open(rootOrNil(s.T.Root), true)
	}
	return nil
}

func rootOrNil(r []byte) []byte {
	if len(r) == 0 {
		return nil
	}
	return cp(r)
}

// CheckReads compares Get of all keys with the model.
func CheckReads(t *trie.Trie, g *Geometry, content []int) error {
	for i, k := range g.Keys {
		v, err := t.Get(Ctx, cp(k))
		if err != nil {
			return fmt.Errorf("Get(key %d): %w", i, err)
		}
		if content[i] == 0 {
			if len(v) != 0 {
				return fmt.Errorf("Get(key %d) = %x, want nothing", i, v)
			}
		} else if !bytes.Equal(v, Val(content[i])) {
			return fmt.Errorf("Get(key %d) = %x, want %x", i, v, Val(content[i]))
		}
	}
	for i, k := range g.Probes {
		v, err := t.Get(Ctx, cp(k))
		if err != nil {
			return fmt.Errorf("Get(absent probe %d): %w", i, err)
		}
		if len(v) != 0 {
			return fmt.Errorf("Get(absent probe %d) = %x, want nothing", i, v)
		}
	}
	return nil
}

// FreshRoot builds the contents in a fresh tree, in a single batch.
func FreshRoot(g *Geometry, content []int) ([]byte, error) {
	s, err := Open(g, -1)
	if err != nil {
		return nil, err
	}
	set := make([]int, len(content))
	any := false
	for i, v := range content {
		set[i] = v
		if v == 0 {
			set[i] = -1
		} else {
			any = true
		}
	}
	if !any {
		return nil, nil
	}
	if err := s.Batch(set); err != nil {
		return nil, err
	}
	return s.T.Root, nil
}

// ContentKey is a map key for contents.
func ContentKey(c []int) string { return fmt.Sprint(c) }

// Histories calls f with all histories: every batch of batches[i] at step i followed by afters[i].
func Histories(steps [][]Step, f func(h History) bool) {
	h := make(History, len(steps))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(steps) {
			return f(append(History{}, h...))
		}
		for _, s := range steps[i] {
			h[i] = s
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// Steps crosses batches with the actions after them.
func Steps(batches [][]int, afters ...After) (res []Step) {
	for _, b := range batches {
		for _, a := range afters {
			res = append(res, Step{b, a})
		}
	}
	return
}
