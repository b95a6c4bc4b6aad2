package sched

import (
	"sync"
	"unsafe"
)

// The types below stand for those of package sync.

type lockState struct {
	held    bool
	readers int
	rtok    byte
	lazy    bool    // a lock of a package without goroutines
	old     bool    // used before the exploration
	shared  bool    // used by several goroutines
	owner   *thread // first user
}

// lazyOn: the locks of packages that start no goroutines take part too. Without
// it nothing is held across a step of an explored goroutine there, so that the
// real locks never block.
var lazyOn bool

// LMutex stands for sync.Mutex in packages that start no goroutines: others may
// go on before it only if it is not the running goroutine's own.
type LMutex struct {
	sync.Mutex
	m Mutex
}

//go:norace
//go:noinline
func (m *LMutex) Lock() {
	if !active || !lazyOn {
		m.m.st.old = m.m.st.old || !active
		m.Mutex.Lock()
		return
	}
	m.m.st.lazy = true
	m.m.Lock()
}

//go:norace
//go:noinline
func (m *LMutex) Unlock() {
	if !active || !lazyOn {
		m.Mutex.Unlock()
		return
	}
	m.m.Unlock()
}

// LRWMutex is the same for sync.RWMutex.
type LRWMutex struct {
	sync.RWMutex
	m RWMutex
}

//go:norace
//go:noinline
func (m *LRWMutex) Lock() {
	if !active || !lazyOn {
		m.m.st.old = m.m.st.old || !active
		m.RWMutex.Lock()
		return
	}
	m.m.st.lazy = true
	m.m.Lock()
}

//go:norace
//go:noinline
func (m *LRWMutex) Unlock() {
	if !active || !lazyOn {
		m.RWMutex.Unlock()
		return
	}
	m.m.Unlock()
}

//go:norace
//go:noinline
func (m *LRWMutex) RLock() {
	if !active || !lazyOn {
		m.m.st.old = m.m.st.old || !active
		m.RWMutex.RLock()
		return
	}
	m.m.st.lazy = true
	m.m.RLock()
}

//go:norace
//go:noinline
func (m *LRWMutex) RUnlock() {
	if !active || !lazyOn {
		m.RWMutex.RUnlock()
		return
	}
	m.m.RUnlock()
}

// private tells whether the lock is so far the thread's own.
//
//go:norace
//go:noinline
func (s *lockState) private(t *thread) bool {
	if !s.lazy || s.old || s.shared {
		return false
	}
	if s.owner == nil {
		s.owner = t
	}
	if s.owner != t {
		s.shared = true
	}
	return !s.shared && !s.held && s.readers == 0
}

// Mutex stands for sync.Mutex.
type Mutex struct {
	mu sync.Mutex
	st lockState
}

//go:norace
//go:noinline
func (m *Mutex) Lock() {
	if !active {
		m.st.old = true
		m.mu.Lock()
		return
	}
	lock(&m.st)
}

//go:norace
//go:noinline
func lock(s *lockState) {
	if t := running; !s.private(t) {
		t.kind, t.lock = kLock, s
		park(t)
	}
	s.held = true
	acquire(unsafe.Pointer(s))
	acquire(unsafe.Pointer(&s.rtok))
}

//go:norace
//go:noinline
func (m *Mutex) TryLock() bool {
	if !active {
		return m.mu.TryLock()
	}
	Point()
	if m.st.held {
		return false
	}
	m.st.held = true
	acquire(unsafe.Pointer(&m.st))
	return true
}

//go:norace
//go:noinline
func (m *Mutex) Unlock() {
	if !active {
		m.mu.Unlock()
		return
	}
	unlock(&m.st)
}

//go:norace
//go:noinline
func unlock(s *lockState) {
	if !s.held {
		panic("sync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(s))
	s.held = false
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	mu sync.RWMutex
	st lockState
}

//go:norace
//go:noinline
func (m *RWMutex) Lock() {
	if !active {
		m.st.old = true
		m.mu.Lock()
		return
	}
	lock(&m.st)
}

//go:norace
//go:noinline
func (m *RWMutex) Unlock() {
	if !active {
		m.mu.Unlock()
		return
	}
	unlock(&m.st)
}

//go:norace
//go:noinline
func (m *RWMutex) RLock() {
	if !active {
		m.st.old = true
		m.mu.RLock()
		return
	}
	if t := running; !m.st.private(t) {
		t.kind, t.lock = kRLock, &m.st
		park(t)
	}
	m.st.readers++
	acquire(unsafe.Pointer(&m.st))
}

//go:norace
//go:noinline
func (m *RWMutex) RUnlock() {
	if !active {
		m.mu.RUnlock()
		return
	}
	if m.st.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(unsafe.Pointer(&m.st.rtok))
	m.st.readers--
}

//go:norace
//go:noinline
func (m *RWMutex) TryLock() bool {
	if !active {
		return m.mu.TryLock()
	}
	Point()
	if m.st.held || m.st.readers > 0 {
		return false
	}
	m.st.held = true
	acquire(unsafe.Pointer(&m.st))
	acquire(unsafe.Pointer(&m.st.rtok))
	return true
}

//go:norace
//go:noinline
func (m *RWMutex) TryRLock() bool {
	if !active {
		return m.mu.TryRLock()
	}
	Point()
	if m.st.held {
		return false
	}
	m.st.readers++
	acquire(unsafe.Pointer(&m.st))
	return true
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
//go:noinline
func (w *WaitGroup) Add(n int) {
	if !active {
		w.wg.Add(n)
		return
	}
	t := running
	t.kind, t.wait = kAdd, &w.n
	park(t)
	if n < 0 {
		releaseMerge(unsafe.Pointer(&w.n))
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done ends one of the group.
//
//go:norace
//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
//go:noinline
func (w *WaitGroup) Wait() {
	if !active {
		w.wg.Wait()
		return
	}
	t := running
	t.kind, t.wait = kWait, &w.n
	park(t)
	acquire(unsafe.Pointer(&w.n))
}

// Go runs f as one of the group.
//
//go:norace
//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands for sync.Once.
type Once struct {
	o    sync.Once
	mu   Mutex
	done bool
}

//go:norace
//go:noinline
func (o *Once) Do(f func()) {
	if !active {
		o.o.Do(f)
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer setTrue(&o.done)
		f()
	}
}

//go:norace
//go:noinline
func setTrue(b *bool) { *b = true }

type condState struct {
	next *condState
	t    *thread
}

// Cond stands for sync.Cond.
type Cond struct {
	L       sync.Locker
	c       *sync.Cond
	waiters *condState
	tok     byte
}

// NewCond stands for sync.NewCond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

//go:norace
//go:noinline
func (c *Cond) Wait() {
	if !active {
		c.c.Wait()
		return
	}
	t := running
	w := &condState{t: t}
	p := &c.waiters
	for *p != nil {
		p = &(*p).next
	}
	*p = w
	t.cond = w // before the unlock: a signal in between wakes this goroutine
	c.L.Unlock()
	t.kind = kCond
	park(t)
	c.L.Lock()
}

//go:norace
//go:noinline
func (c *Cond) Signal() {
	if !active {
		c.c.Signal()
		return
	}
	Point()
	if c.waiters != nil {
		c.waiters.t.cond = nil
		c.waiters = c.waiters.next
	}
}

//go:norace
//go:noinline
func (c *Cond) Broadcast() {
	if !active {
		c.c.Broadcast()
		return
	}
	Point()
	for c.waiters != nil {
		c.waiters.t.cond = nil
		c.waiters = c.waiters.next
	}
}
