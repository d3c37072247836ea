// Package vsync replaces package sync in instrumented code: the same semantics, but every wait is a channel
// operation, which a synctest bubble recognises as durable blocking.
package vsync

import (
	"sync"
)

type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
)

// Mutex is a mutual exclusion lock.
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

func (m *Mutex) Lock() {
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	c := make(chan struct{})
	m.waiters = append(m.waiters, c)
	m.mu.Unlock()
	<-c
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.waiters) > 0 {
		c := m.waiters[0]
		m.waiters = m.waiters[1:]
		close(c)
		return
	}
	m.locked = false
}

type rwWaiter struct {
	write bool
	c     chan struct{}
}

// RWMutex is a reader/writer lock; a waiting writer blocks later readers, as in package sync.
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	waiters []rwWaiter
}

func (m *RWMutex) grant() {
	for len(m.waiters) > 0 {
		w := m.waiters[0]
		if w.write {
			if m.writer || m.readers > 0 {
				return
			}
			m.writer = true
		} else {
			if m.writer {
				return
			}
			m.readers++
		}
		m.waiters = m.waiters[1:]
		close(w.c)
	}
}

func (m *RWMutex) wait(write bool) {
	m.mu.Lock()
	c := make(chan struct{})
	m.waiters = append(m.waiters, rwWaiter{write, c})
	m.grant()
	m.mu.Unlock()
	<-c
}

func (m *RWMutex) Lock()  { m.wait(true) }
func (m *RWMutex) RLock() { m.wait(false) }

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.waiters) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.grant()
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.grant()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once; concurrent callers wait for it.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	mu sync.Mutex
	n  int
	c  []chan struct{}
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, c := range w.c {
			close(c)
		}
		w.c = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}

func (w *WaitGroup) Wait() {
	w.mu.Lock()
	if w.n == 0 {
		w.mu.Unlock()
		return
	}
	c := make(chan struct{})
	w.c = append(w.c, c)
	w.mu.Unlock()
	<-c
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	mu sync.Mutex
	c  []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.c = append(c.c, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.c) > 0 {
		close(c.c[0])
		c.c = c.c[1:]
	}
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, ch := range c.c {
		close(ch)
	}
	c.c = nil
}
