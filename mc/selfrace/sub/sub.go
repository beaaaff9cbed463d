package sub

import (
	"sync"
	"sync/atomic"
)

type T struct {
	mu  sync.Mutex
	n   int
	m   map[int]int
	ch  chan struct{}
	un  chan int
	a   atomic.Int32
	st  atomic.Int32
}

func New() *T { return &T{m: map[int]int{}, ch: make(chan struct{}, 1), un: make(chan int)} }

func (t *T) Plain()  { t.n++ }
func (t *T) MapPut() { t.m[len(t.m)] = 1 }
func (t *T) HalfLocked() {
	t.mu.Lock()
	t.n++
	t.mu.Unlock()
	if t.a.Add(1) == 1 {
		t.n++
	}
}
func (t *T) Locked() { t.mu.Lock(); t.n++; t.mu.Unlock() }
func (t *T) Chan()   { t.ch <- struct{}{}; t.n++; <-t.ch }
func (t *T) Unbuf() {
	if t.a.Add(1) == 1 {
		t.n++
		t.un <- 1
		<-t.un
		t.n++
	} else {
		<-t.un
		t.n++
		t.un <- 1
	}
}
func (t *T) Atomic() {
	if t.a.Add(1) == 1 {
		t.n++
		t.st.Store(1)
	} else {
		for t.st.Load() == 0 {
		}
		t.n++
	}
}
