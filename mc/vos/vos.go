// Package vos stands in for package os in code under check: within attached directories every operation on files
// is numbered and can be made to fail, to be cut short, or to be the last one before a crash.
package vos

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
)

// Op is one operation on files.
type Op struct {
	N    int
	Kind string
	Path string
	Size int
}

func (o Op) String() string { return fmt.Sprintf("%d:%s %s", o.N, o.Kind, filepath.Base(o.Path)) }

// Fate is what happens to an operation.
type Fate struct {
	Crash bool  // the process dies at the operation
	Err   error // the operation fails
	Part  int   // bytes of a write that take effect before
}

// Crash is the panic value of a crash.
type Crash struct{ Op Op }

var errFrozen = errors.New("vos: process is dead")

// FS controls one directory.
type FS struct {
	Root     string
	Decide   func(Op) *Fate
	mu       sync.Mutex
	Ops      []Op
	frozen   bool
	unsynced map[string]bool
}

var (
	mu  sync.RWMutex
	all = map[string]*FS{}
)

// Attach starts controlling the operations below dir.
func Attach(dir string) *FS {
	f := &FS{Root: dir, unsynced: map[string]bool{}}
	mu.Lock()
	all[dir] = f
	mu.Unlock()
	return f
}

// Detach ends it.
func (f *FS) Detach() {
	mu.Lock()
	delete(all, f.Root)
	mu.Unlock()
}

// Restart begins the life of another process.
func (f *FS) Restart() {
	f.mu.Lock()
	f.frozen, f.Ops, f.Decide = false, nil, nil
	f.mu.Unlock()
}

// Frozen tells whether the process is dead.
func (f *FS) Frozen() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.frozen }

// Die ends the process here.
func (f *FS) Die(what string) {
	f.mu.Lock()
	f.frozen = true
	f.mu.Unlock()
	panic(Crash{Op{Kind: what}})
}

// Unsynced lists files whose content would not survive a crash of the machine.
func (f *FS) Unsynced() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	var l []string
	for p := range f.unsynced {
		l = append(l, p)
	}
	return l
}

// Settle forgets what is not synchronised.
func (f *FS) Settle() { f.mu.Lock(); f.unsynced = map[string]bool{}; f.mu.Unlock() }

func find(path string) *FS {
	abs := path
	if !filepath.IsAbs(abs) {
		abs, _ = filepath.Abs(path)
	}
	abs = filepath.Clean(abs)
	mu.RLock()
	defer mu.RUnlock()
	for d := abs; ; d = filepath.Dir(d) {
		if f := all[d]; f != nil {
			return f
		}
		if d == "/" || d == "." {
			return nil
		}
	}
}

// at decides about an operation. Size is the number of bytes of a write.
func (f *FS) at(kind, path string, size int) (int, error) {
	if f == nil {
		return size, nil
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.frozen {
		return 0, errFrozen
	}
	op := Op{N: len(f.Ops), Kind: kind, Path: path, Size: size}
	f.Ops = append(f.Ops, op)
	if f.Decide == nil {
		return size, nil
	}
	fate := f.Decide(op)
	if fate == nil {
		return size, nil
	}
	if fate.Crash {
		f.frozen = true
		return fate.Part, Crash{op}
	}
	err := fate.Err
	if err == nil {
		err = syscall.EIO
	}
	return fate.Part, err
}

func (c Crash) Error() string { return "crash at " + c.Op.String() }

// end turns the decision into a result.
func end(kind, path string, err error) error {
	if c, ok := err.(Crash); ok {
		panic(c)
	}
	if err != nil {
		return &os.PathError{Op: kind, Path: path, Err: err}
	}
	return nil
}

func step(kind, path string) error {
	_, err := find(path).at(kind, path, 0)
	return end(kind, path, err)
}

func (f *FS) dirty(path string, d bool) {
	if f == nil {
		return
	}
	f.mu.Lock()
	if d {
		f.unsynced[clean(path)] = true
	} else {
		delete(f.unsynced, clean(path))
	}
	f.mu.Unlock()
}

func clean(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return filepath.Clean(p)
	}
	return a
}

// File is a file.
type File struct {
	*os.File
	fs *FS
}

var (
	Stdin  = &File{File: os.Stdin}
	Stdout = &File{File: os.Stdout}
	Stderr = &File{File: os.Stderr}
)

func NewFile(fd uintptr, name string) *File { return &File{File: os.NewFile(fd, name)} }

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	kind := "open"
	if flag&(O_CREATE|O_TRUNC) != 0 {
		kind = "create"
	}
	if err := step(kind, name); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	fs := find(name)
	if flag&O_TRUNC != 0 {
		fs.dirty(name, true)
	}
	return &File{File: f, fs: fs}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	d := dir
	if d == "" {
		d = os.TempDir()
	}
	if err := step("createtemp", filepath.Join(d, pattern)); err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	fs := find(f.Name())
	fs.dirty(f.Name(), true)
	return &File{File: f, fs: fs}, nil
}

func (f *File) Write(b []byte) (int, error) {
	n, err := f.fs.at("write", f.Name(), len(b))
	if err != nil && n <= 0 {
		return 0, end("write", f.Name(), err)
	}
	n = min(n, len(b))
	n, werr := f.File.Write(b[:n])
	f.fs.dirty(f.Name(), true)
	if err != nil {
		return n, end("write", f.Name(), err)
	}
	return n, werr
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	n, err := f.fs.at("write", f.Name(), len(b))
	if err != nil && n <= 0 {
		return 0, end("write", f.Name(), err)
	}
	n = min(n, len(b))
	n, werr := f.File.WriteAt(b[:n], off)
	f.fs.dirty(f.Name(), true)
	if err != nil {
		return n, end("write", f.Name(), err)
	}
	return n, werr
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Read(b []byte) (int, error) {
	if f.fs != nil {
		if _, err := f.fs.at("read", f.Name(), 0); err != nil {
			return 0, end("read", f.Name(), err)
		}
	}
	return f.File.Read(b)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Sync() error {
	if f.fs == nil {
		return f.File.Sync()
	}
	if _, err := f.fs.at("sync", f.Name(), 0); err != nil {
		return end("sync", f.Name(), err)
	}
	f.fs.dirty(f.Name(), false)
	return nil
}

func (f *File) Truncate(size int64) error {
	if f.fs != nil {
		if _, err := f.fs.at("truncate", f.Name(), 0); err != nil {
			return end("truncate", f.Name(), err)
		}
		f.fs.dirty(f.Name(), true)
	}
	return f.File.Truncate(size)
}

func (f *File) Close() error {
	if f.fs != nil {
		if _, err := f.fs.at("close", f.Name(), 0); err != nil {
			f.File.Close()
			return end("close", f.Name(), err)
		}
	}
	return f.File.Close()
}

func Rename(a, b string) error {
	if err := step("rename", b); err != nil {
		return err
	}
	if err := os.Rename(a, b); err != nil {
		return err
	}
	if f := find(b); f != nil {
		f.mu.Lock()
		ca, cb := clean(a), clean(b)
		delete(f.unsynced, cb)
		if f.unsynced[ca] {
			delete(f.unsynced, ca)
			f.unsynced[cb] = true
		}
		f.mu.Unlock()
	}
	return nil
}

func Remove(name string) error {
	if err := step("remove", name); err != nil {
		return err
	}
	if err := os.Remove(name); err != nil {
		return err
	}
	find(name).dirty(name, false)
	return nil
}

func RemoveAll(name string) error {
	fs := find(name)
	if fs == nil || clean(name) == fs.Root { // only within controlled directories
		return &os.PathError{Op: "removeall", Path: name, Err: syscall.EPERM}
	}
	if err := step("removeall", name); err != nil {
		return err
	}
	return os.RemoveAll(name)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func ReadDir(name string) ([]DirEntry, error) {
	if err := step("readdir", name); err != nil {
		return nil, err
	}
	return os.ReadDir(name)
}

func Truncate(name string, size int64) error {
	if err := step("truncate", name); err != nil {
		return err
	}
	find(name).dirty(name, true)
	return os.Truncate(name, size)
}

func simple(kind, name string, fn func() error) error {
	if err := step(kind, name); err != nil {
		return err
	}
	return fn()
}

func Link(a, b string) error { return simple("link", b, func() error { return os.Link(a, b) }) }
func Symlink(a, b string) error {
	return simple("symlink", b, func() error { return os.Symlink(a, b) })
}
func Mkdir(n string, p FileMode) error {
	return simple("mkdir", n, func() error { return os.Mkdir(n, p) })
}
func MkdirAll(n string, p FileMode) error {
	return simple("mkdir", n, func() error { return os.MkdirAll(n, p) })
}
func MkdirTemp(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }
func Chmod(n string, p FileMode) error {
	return simple("chmod", n, func() error { return os.Chmod(n, p) })
}

// Lost damages the files that are not synchronised as a crash of the machine can: what is kept of each is the
// given number of quarters of its content.
func (f *FS) Lost(quarters int) error {
	for _, p := range f.Unsynced() {
		b, err := os.ReadFile(p)
		if errors.Is(err, os.ErrNotExist) {
			continue
		}
		if err != nil {
			return err
		}
		if err := os.WriteFile(p, b[:len(b)*quarters/4], 0o644); err != nil {
			return err
		}
	}
	f.Settle()
	return nil
}

// Entries lists the names in the directory that begin with prefix.
func Entries(dir, prefix string) (l []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), prefix) {
			l = append(l, e.Name())
		}
	}
	return
}

// Scratch creates a directory for the files of a check, in memory if possible.
func Scratch() string {
	w := os.Getenv("VERIF_WORK")
	for _, d := range []string{filepath.Join("/dev/shm", filepath.Base(w)), filepath.Join(w, "scratch")} {
		if os.MkdirAll(d, 0o755) == nil && os.WriteFile(filepath.Join(d, "probe"), []byte("x"), 0o644) == nil {
			os.Remove(filepath.Join(d, "probe"))
			return d
		}
	}
	panic("no scratch directory")
}
