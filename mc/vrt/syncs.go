package vrt

import (
	"fmt"
	"sort"
	"sync/atomic"
	"unsafe"
)

func quick() bool { return s == nil || s.deadOp() }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	o      obj
	ep     uint64
	locked bool
}

func (m *Mutex) reset() {
	if s != nil && m.ep != s.epoch {
		m.ep = s.epoch
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if quick() {
		return
	}
	s.yield("Lock")
	m.reset()
	if m.locked {
		s.touch(&m.o, 41)
		s.blockOn("Lock", func() bool { return !m.locked })
	}
	m.locked = true
	s.touch(&m.o, 42)
}

func (m *Mutex) TryLock() bool {
	if quick() {
		return true
	}
	s.yield("TryLock")
	m.reset()
	s.touch(&m.o, 43)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if quick() {
		return
	}
	m.reset()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	s.touch(&m.o, 44)
}

// RWMutex replaces sync.RWMutex: a waiting writer keeps new readers out, and a leaving writer admits the
// readers that are waiting.
type RWMutex struct {
	o       obj
	ep      uint64
	writer  bool
	readers int
	wwait   int
	rq      []*bool
}

func (m *RWMutex) reset() {
	if s != nil && m.ep != s.epoch {
		*m = RWMutex{ep: s.epoch}
	}
}

func (m *RWMutex) Lock() {
	if quick() {
		return
	}
	s.yield("RWMutex.Lock")
	m.reset()
	if m.writer || m.readers > 0 || m.wwait > 0 {
		m.wwait++
		s.touch(&m.o, 45)
		s.blockOn("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
		m.wwait--
	}
	m.writer = true
	s.touch(&m.o, 46)
}

func (m *RWMutex) TryLock() bool {
	if quick() {
		return true
	}
	s.yield("RWMutex.TryLock")
	m.reset()
	s.touch(&m.o, 47)
	if m.writer || m.readers > 0 || m.wwait > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if quick() {
		return
	}
	m.reset()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	for _, g := range m.rq {
		*g = true
		m.readers++
	}
	m.rq = nil
	s.touch(&m.o, 48)
}

func (m *RWMutex) RLock() {
	if quick() {
		return
	}
	s.yield("RLock")
	m.reset()
	if m.writer || m.wwait > 0 {
		g := new(bool)
		m.rq = append(m.rq, g)
		s.touch(&m.o, 49)
		s.blockOn("RLock", func() bool { return *g })
		s.touch(&m.o, 50)
		return
	}
	m.readers++
	s.touch(&m.o, 51)
}

func (m *RWMutex) TryRLock() bool {
	if quick() {
		return true
	}
	s.yield("TryRLock")
	m.reset()
	s.touch(&m.o, 52)
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if quick() {
		return
	}
	m.reset()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.touch(&m.o, 53)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	o  obj
	ep uint64
	n  int
}

func (w *WaitGroup) reset() {
	if s != nil && w.ep != s.epoch {
		*w = WaitGroup{ep: s.epoch}
	}
}

func (w *WaitGroup) Add(d int) {
	if quick() {
		return
	}
	if d > 0 {
		s.yield("WaitGroup.Add")
	}
	w.reset()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	s.touch(&w.o, 54)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if s == nil {
		return
	}
	if s.dead {
		s.die()
	}
	s.yield("WaitGroup.Wait")
	w.reset()
	if w.n > 0 {
		s.touch(&w.o, 55)
		s.blockOn("WaitGroup.Wait", func() bool { return w.n == 0 })
	}
	s.touch(&w.o, 56)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	o       obj
	ep      uint64
	done    bool
	running bool
	plain   bool
}

func (o *Once) Do(f func()) {
	if s == nil {
		if !o.plain {
			o.plain = true
			f()
		}
		return
	}
	if s.deadOp() {
		return
	}
	s.yield("Once.Do")
	if o.plain {
		return
	}
	if o.ep != s.epoch {
		*o = Once{ep: s.epoch}
	}
	s.touch(&o.o, 57)
	if o.done {
		return
	}
	if o.running {
		s.blockOn("Once.Do", func() bool { return o.done })
		s.touch(&o.o, 58)
		return
	}
	o.running = true
	sc := s
	defer func() {
		o.done = true
		if !sc.dead {
			sc.touch(&o.o, 59)
		}
	}()
	f()
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	valid := false
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					if p != nil {
						panic(p)
					}
				}
			}()
			f()
			valid = true
		})
		if !valid && s != nil && !s.dead {
			panic(p)
		}
	}
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L  Locker
	o  obj
	ws []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if s.dead {
		s.die()
	}
	s.yield("Cond.Wait")
	g := new(bool)
	c.ws = append(c.ws, g)
	s.touch(&c.o, 60)
	c.L.Unlock()
	s.blockOn("Cond.Wait", func() bool { return *g })
	s.touch(&c.o, 61)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if quick() {
		return
	}
	s.yield("Cond.Signal")
	s.touch(&c.o, 62)
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
	}
}

func (c *Cond) Broadcast() {
	if quick() {
		return
	}
	s.yield("Cond.Broadcast")
	s.touch(&c.o, 63)
	for _, g := range c.ws {
		*g = true
	}
	c.ws = nil
}

// Map replaces sync.Map.
type Map struct {
	o  obj
	ep uint64
	m  map[any]any
}

func (m *Map) in(what string) {
	if s != nil && !s.deadOp() {
		s.yield("Map." + what)
		if m.ep != s.epoch {
			*m = Map{ep: s.epoch}
		}
		s.touch(&m.o, 64)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.in("Load"); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.in("Store"); m.m[k] = v }
func (m *Map) Delete(k any)           { m.in("Delete"); delete(m.m, k) }
func (m *Map) Clear()                 { m.in("Clear"); clear(m.m) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.in("LoadOrStore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.in("LoadAndDelete")
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.in("Swap")
	x, ok := m.m[k]
	m.m[k] = v
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.in("CompareAndSwap")
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.in("CompareAndDelete")
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.in("Range")
	keys := []any{}
	for k := range m.m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool: the most recently returned object is handed out first.
type Pool struct {
	New func() any
	o   obj
	ep  uint64
	l   []any
}

func (p *Pool) Get() any {
	if s != nil && !s.deadOp() {
		s.yield("Pool.Get")
		if p.ep != s.epoch {
			p.ep, p.l = s.epoch, nil
		}
		s.touch(&p.o, 65)
	}
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if s != nil && !s.deadOp() {
		s.yield("Pool.Put")
		if p.ep != s.epoch {
			p.ep, p.l = s.epoch, nil
		}
		s.touch(&p.o, 66)
	}
	p.l = append(p.l, x)
}

// ---- atomics

func at(o *obj, what string) {
	if s == nil || s.deadOp() {
		return
	}
	if t := s.cur; what != "atomic load" {
		t.lastLoad, t.loads = nil, 0
	} else if t.lastLoad != o {
		t.lastLoad, t.loads = o, 0
	} else if t.loads++; t.loads >= 2 {
		Gosched()
	}
	s.yield(what)
	s.touch(o, 70)
}

func atp(p unsafe.Pointer, what string) {
	if s == nil || s.deadOp() {
		return
	}
	o := s.objs[p]
	if o == nil {
		o = &obj{}
		s.objs[p] = o
	}
	at(o, what)
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type num[T integer] struct {
	o obj
	v T
}

func (a *num[T]) Load() T    { at(&a.o, "atomic load"); return a.v }
func (a *num[T]) Store(v T)  { at(&a.o, "atomic store"); a.v = v }
func (a *num[T]) Add(d T) T  { at(&a.o, "atomic add"); a.v += d; return a.v }
func (a *num[T]) Swap(v T) T { at(&a.o, "atomic swap"); x := a.v; a.v = v; return x }
func (a *num[T]) And(v T) T  { at(&a.o, "atomic and"); x := a.v; a.v &= v; return x }
func (a *num[T]) Or(v T) T   { at(&a.o, "atomic or"); x := a.v; a.v |= v; return x }
func (a *num[T]) CompareAndSwap(o, n T) bool {
	at(&a.o, "atomic cas")
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

// Of go.uber.org/atomic.
func (a *num[T]) Inc() T          { return a.Add(1) }
func (a *num[T]) Dec() T          { var z T; return a.Add(z - 1) }
func (a *num[T]) Sub(d T) T       { var z T; return a.Add(z - d) }
func (a *num[T]) CAS(o, n T) bool { return a.CompareAndSwap(o, n) }

func NewInt32(v int32) *Int32    { a := &Int32{}; a.v = v; return a }
func NewInt64(v int64) *Int64    { a := &Int64{}; a.v = v; return a }
func NewUint32(v uint32) *Uint32 { a := &Uint32{}; a.v = v; return a }
func NewUint64(v uint64) *Uint64 { a := &Uint64{}; a.v = v; return a }
func NewBool(v bool) *Bool       { a := &Bool{}; a.v = v; return a }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Bool struct {
	o obj
	v bool
}

func (a *Bool) Load() bool       { at(&a.o, "atomic load"); return a.v }
func (a *Bool) Store(v bool)     { at(&a.o, "atomic store"); a.v = v }
func (a *Bool) Swap(v bool) bool { at(&a.o, "atomic swap"); x := a.v; a.v = v; return x }
func (a *Bool) CompareAndSwap(o, n bool) bool {
	at(&a.o, "atomic cas")
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	o obj
	v *T
}

func (a *Pointer[T]) Load() *T     { at(&a.o, "atomic load"); return a.v }
func (a *Pointer[T]) Store(v *T)   { at(&a.o, "atomic store"); a.v = v }
func (a *Pointer[T]) Swap(v *T) *T { at(&a.o, "atomic swap"); x := a.v; a.v = v; return x }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	at(&a.o, "atomic cas")
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type Value struct {
	o obj
	v any
}

func (a *Value) Load() any      { at(&a.o, "atomic load"); return a.v }
func (a *Value) Store(v any)    { at(&a.o, "atomic store"); a.v = v }
func (a *Value) Swap(v any) any { at(&a.o, "atomic swap"); x := a.v; a.v = v; return x }
func (a *Value) CompareAndSwap(o, n any) bool {
	at(&a.o, "atomic cas")
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

func add[T integer](p *T, d T) T { atp(unsafe.Pointer(p), "atomic add"); *p += d; return *p }
func load[T integer](p *T) T     { atp(unsafe.Pointer(p), "atomic load"); return *p }
func store[T integer](p *T, v T) { atp(unsafe.Pointer(p), "atomic store"); *p = v }
func swap[T integer](p *T, v T) T {
	atp(unsafe.Pointer(p), "atomic swap")
	x := *p
	*p = v
	return x
}
func cas[T integer](p *T, o, n T) bool {
	atp(unsafe.Pointer(p), "atomic cas")
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }

var _ atomic.Int32
