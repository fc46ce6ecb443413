// Package vsync stands in for package sync in instrumented code: the same meaning, but a goroutine
// that waits for a lock is one the scheduler and the virtual clock know to be waiting.
package vsync

import (
	"runtime"
	"sync"

	"github.com/ahKevinXy/go-web-tools/zzverif/vsched"
)

type (
	// Locker as in sync.
	Locker = sync.Locker
	// Map as in sync.
	Map = sync.Map
	// Pool as in sync.
	Pool = sync.Pool
	// WaitGroup as in sync.
	WaitGroup = sync.WaitGroup
	// Cond as in sync.
	Cond = sync.Cond
)

// NewCond as in sync.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// RWMutex as in sync: a waiting writer keeps new readers out.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	wantW   int
	queue   []chan struct{}
}

func (m *RWMutex) wake() {
	for _, c := range m.queue {
		close(c)
	}
	m.queue = nil
}

func (m *RWMutex) wait(free func() bool, get func(), waiting *int) {
	vsched.Point()
	m.mu.Lock()
	if waiting != nil {
		*waiting++
	}
	for !free() {
		c := make(chan struct{})
		m.queue = append(m.queue, c)
		m.mu.Unlock()
		kill, dead := vsched.Kill()
		if dead {
			runtime.Goexit()
		}
		select {
		case <-c:
		case <-kill:
			runtime.Goexit()
		}
		vsched.Point()
		m.mu.Lock()
	}
	if waiting != nil {
		*waiting--
	}
	get()
	m.mu.Unlock()
}

// Lock as in sync.
func (m *RWMutex) Lock() {
	m.wait(func() bool { return !m.writer && m.readers == 0 }, func() { m.writer = true }, &m.wantW)
}

// TryLock as in sync.
func (m *RWMutex) TryLock() bool {
	vsched.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// Unlock as in sync.
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
	m.mu.Unlock()
}

// RLock as in sync.
func (m *RWMutex) RLock() {
	m.wait(func() bool { return !m.writer && m.wantW == 0 }, func() { m.readers++ }, nil)
}

// TryRLock as in sync.
func (m *RWMutex) TryRLock() bool {
	vsched.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.wantW > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock as in sync.
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
	m.mu.Unlock()
}

// RLocker as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex as in sync.
type Mutex struct{ rw RWMutex }

// Lock as in sync.
func (m *Mutex) Lock() { m.rw.Lock() }

// TryLock as in sync.
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Unlock as in sync.
func (m *Mutex) Unlock() { m.rw.Unlock() }

// Once as in sync.
type Once struct {
	m    Mutex
	done bool
}

// Do as in sync.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as in sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue as in sync.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues as in sync.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
