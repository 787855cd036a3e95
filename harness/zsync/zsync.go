// Package zsync is a drop-in for "sync" used in instrumented builds. Its Mutex,
// RWMutex and Once block on channels, so that testing/synctest sees a goroutine
// waiting for a lock as durably blocked; semantics (and the happens-before edges
// shown to the race detector) are those of package sync.
package zsync

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

type (
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// waiter and queue avoid append (whose runtime part reports to the race detector).
type waiter struct {
	c     chan struct{}
	write bool
	next  *waiter
}

type queue struct{ head, tail *waiter }

//go:norace
func (q *queue) push(write bool) chan struct{} {
	w := &waiter{c: make(chan struct{}, 1), write: write}
	if q.tail == nil {
		q.head = w
	} else {
		q.tail.next = w
	}
	q.tail = w
	return w.c
}

//go:norace
func (q *queue) pop() {
	q.head = q.head.next
	if q.head == nil {
		q.tail = nil
	}
}

// Mutex

type Mutex struct {
	g      sync.Mutex
	locked bool
	q      queue
}

//go:norace
func (m *Mutex) Lock() {
	raceDisable()
	m.g.Lock()
	if !m.locked {
		m.locked = true
		m.g.Unlock()
	} else {
		c := m.q.push(true)
		m.g.Unlock()
		<-c
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	raceDisable()
	m.g.Lock()
	ok := !m.locked
	if ok {
		m.locked = true
	}
	m.g.Unlock()
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(m))
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	raceRelease(unsafe.Pointer(m))
	raceDisable()
	m.g.Lock()
	if !m.locked {
		m.g.Unlock()
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	if w := m.q.head; w != nil {
		m.q.pop()
		w.c <- struct{}{}
	} else {
		m.locked = false
	}
	m.g.Unlock()
	raceEnable()
}

// RWMutex: writers wait for readers; a waiting writer holds off new readers.

type RWMutex struct {
	g       sync.Mutex
	writer  bool
	readers int
	q       queue
	rtok    byte // race token: writers -> readers
	wtok    byte // race token: readers -> writers
}

//go:norace
func (m *RWMutex) wake() {
	for w := m.q.head; w != nil; w = m.q.head {
		if w.write {
			if m.readers == 0 && !m.writer {
				m.writer = true
				m.q.pop()
				w.c <- struct{}{}
			}
			return
		}
		if m.writer {
			return
		}
		m.readers++
		m.q.pop()
		w.c <- struct{}{}
	}
}

//go:norace
func (m *RWMutex) Lock() {
	raceDisable()
	m.g.Lock()
	if !m.writer && m.readers == 0 && m.q.head == nil {
		m.writer = true
		m.g.Unlock()
	} else {
		c := m.q.push(true)
		m.g.Unlock()
		<-c
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.rtok))
	raceAcquire(unsafe.Pointer(&m.wtok))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	raceDisable()
	m.g.Lock()
	ok := !m.writer && m.readers == 0 && m.q.head == nil
	if ok {
		m.writer = true
	}
	m.g.Unlock()
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(&m.rtok))
		raceAcquire(unsafe.Pointer(&m.wtok))
	}
	return ok
}

//go:norace
func (m *RWMutex) Unlock() {
	raceRelease(unsafe.Pointer(&m.rtok))
	raceDisable()
	m.g.Lock()
	if !m.writer {
		m.g.Unlock()
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
	m.g.Unlock()
	raceEnable()
}

//go:norace
func (m *RWMutex) RLock() {
	raceDisable()
	m.g.Lock()
	if !m.writer && m.q.head == nil {
		m.readers++
		m.g.Unlock()
	} else {
		c := m.q.push(false)
		m.g.Unlock()
		<-c
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(&m.rtok))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	raceDisable()
	m.g.Lock()
	ok := !m.writer && m.q.head == nil
	if ok {
		m.readers++
	}
	m.g.Unlock()
	raceEnable()
	if ok {
		raceAcquire(unsafe.Pointer(&m.rtok))
	}
	return ok
}

//go:norace
func (m *RWMutex) RUnlock() {
	raceReleaseMerge(unsafe.Pointer(&m.wtok))
	raceDisable()
	m.g.Lock()
	if m.readers == 0 {
		m.g.Unlock()
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
	m.g.Unlock()
	raceEnable()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}
