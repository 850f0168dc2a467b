// Package vsync is package sync with pauses around its operations: substituted for "sync" (with -overlay), it makes rare
// interleavings of the code under test common.
package vsync

import (
	"math/rand"
	"runtime"
	"sync"
	"time"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
)

var (
	NewCond  = sync.NewCond
	OnceFunc = sync.OnceFunc
)

// Jitter is how often, in percent, an operation pauses.
var Jitter = 0

func pause() {
	if Jitter == 0 || rand.Intn(100) >= Jitter {
		return
	}
	if rand.Intn(4) > 0 {
		runtime.Gosched()
	} else {
		time.Sleep(time.Duration(rand.Intn(30)) * time.Microsecond)
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { pause(); m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); pause() }
func (m *Mutex) TryLock() bool { pause(); return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()                { pause(); m.m.Lock() }
func (m *RWMutex) Unlock()              { m.m.Unlock(); pause() }
func (m *RWMutex) RLock()               { pause(); m.m.RLock() }
func (m *RWMutex) RUnlock()             { m.m.RUnlock(); pause() }
func (m *RWMutex) TryLock() bool        { pause(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool       { pause(); return m.m.TryRLock() }
func (m *RWMutex) RLocker() sync.Locker { return m.m.RLocker() }

type Once struct{ o sync.Once }

func (o *Once) Do(f func()) { pause(); o.o.Do(f); pause() }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { pause(); defer pause(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { pause(); defer pause(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { pause(); defer pause(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { pause(); defer pause(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { pause(); defer pause(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { pause(); defer pause(); return m.m.Swap(k, v) }
func (m *Map) Clear()                           { pause(); defer pause(); m.m.Clear() }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	pause()
	defer pause()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	pause()
	defer pause()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	pause()
	m.m.Range(func(k, v any) bool { pause(); return f(k, v) })
}
