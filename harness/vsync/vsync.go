// Package vsync replaces package sync in the code under test. Its locks block on channels, so that a goroutine
// waiting for one counts as durably blocked in a synctest bubble and fake time can go on while a lock is held.
package vsync

import (
	"sync"

	"gevulotverif/vsched"
)

type (
	Locker    = sync.Locker
	Cond      = sync.Cond
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// waitq is a set of goroutines waiting for a lock to change.
type waitq struct{ ws []chan struct{} }

func (q *waitq) add() chan struct{} {
	c := make(chan struct{})
	q.ws = append(q.ws, c)
	return c
}

func (q *waitq) wakeAll() {
	for _, c := range q.ws {
		close(c)
	}
	q.ws = nil
}

func (q *waitq) wakeOne() {
	if len(q.ws) == 0 {
		return
	}
	i := vsched.Intn(len(q.ws))
	close(q.ws[i])
	q.ws = append(q.ws[:i], q.ws[i+1:]...)
}

// Mutex is a mutual exclusion lock; like sync.Mutex, barging is possible.
type Mutex struct {
	mu     sync.Mutex
	locked bool
	q      waitq
}

func (m *Mutex) Lock() {
	for {
		m.mu.Lock()
		if !m.locked {
			m.locked = true
			m.mu.Unlock()
			return
		}
		c := m.q.add()
		m.mu.Unlock()
		<-c
	}
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.wakeOne()
}

// RWMutex is a reader/writer lock; a waiting writer holds off new readers, as in sync.RWMutex.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	waiting int // writers waiting
	q       waitq
}

func (m *RWMutex) Lock() {
	waiting := false
	for {
		m.mu.Lock()
		if !m.writer && m.readers == 0 {
			m.writer = true
			if waiting {
				m.waiting--
			}
			m.mu.Unlock()
			return
		}
		if !waiting {
			waiting = true
			m.waiting++
		}
		c := m.q.add()
		m.mu.Unlock()
		<-c
	}
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.q.wakeAll()
}

func (m *RWMutex) RLock() {
	for {
		m.mu.Lock()
		if !m.writer && m.waiting == 0 {
			m.readers++
			m.mu.Unlock()
			return
		}
		c := m.q.add()
		m.mu.Unlock()
		<-c
	}
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.q.wakeAll()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once on top of a channel-based lock.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.mu.Lock()
	d := o.done
	o.m.mu.Unlock()
	if d {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() {
		o.m.mu.Lock()
		o.done = true
		o.m.mu.Unlock()
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
