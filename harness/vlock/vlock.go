// Package vlock is package sync for code running in a bubble of virtual time: whoever waits for a lock lets time pass.
// Its operations also pause, so that rare interleavings become common.
package vlock

import (
	"math/rand"
	"runtime"
	"sync"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
	Once      = sync.Once
)

var (
	NewCond  = sync.NewCond
	OnceFunc = sync.OnceFunc
)

// Jitter is how long, at most, an operation pauses.
var Jitter = 0

func pause() {
	if Jitter > 0 {
		for n := rand.Intn(1 + Jitter); n > 0; n-- {
			runtime.Gosched()
		}
	}
}

// Mutex is a lock made of a channel: waiting for it is waiting in the bubble.
type Mutex struct {
	once sync.Once
	c    chan struct{}
}

func (m *Mutex) ch() chan struct{} {
	m.once.Do(func() { m.c = make(chan struct{}, 1) })
	return m.c
}

func (m *Mutex) Lock() { pause(); m.ch() <- struct{}{} }
func (m *Mutex) Unlock() {
	select {
	case <-m.ch():
	default:
		panic("unlock of unlocked mutex")
	}
	pause()
}
func (m *Mutex) TryLock() bool {
	select {
	case m.ch() <- struct{}{}:
		return true
	default:
		return false
	}
}

type RWMutex struct {
	w, r Mutex
	n    int
}

func (m *RWMutex) Lock()         { m.w.Lock() }
func (m *RWMutex) Unlock()       { m.w.Unlock() }
func (m *RWMutex) TryLock() bool { return m.w.TryLock() }
func (m *RWMutex) RLock() {
	m.r.Lock()
	if m.n++; m.n == 1 {
		m.w.Lock()
	}
	m.r.Unlock()
}
func (m *RWMutex) RUnlock() {
	m.r.Lock()
	if m.n--; m.n == 0 {
		m.w.Unlock()
	}
	m.r.Unlock()
}
func (m *RWMutex) TryRLock() bool { m.RLock(); return true }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()                 { r.m.RLock() }
func (r rlocker) Unlock()               { r.m.RUnlock() }
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { pause(); defer pause(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { pause(); defer pause(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { pause(); defer pause(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { pause(); defer pause(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { pause(); defer pause(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { pause(); defer pause(); return m.m.Swap(k, v) }
func (m *Map) Clear()                           { pause(); defer pause(); m.m.Clear() }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	pause()
	defer pause()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	pause()
	defer pause()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	pause()
	m.m.Range(func(k, v any) bool { pause(); return f(k, v) })
}
