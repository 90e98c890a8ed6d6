// Package zsync stands in for the locks of package sync when counterexamples are replayed:
// it tells the harness where another goroutine may run (everything in one goroutine).
package zsync

import (
	"sync"
	"time"
)

var held, points int
var touched bool

// MaxPoints is how many atomic operations per path are possible switches.
const MaxPoints = 12

// Hook is called wherever another goroutine may run.
var Hook func()

// Busy tells, when no lock is held, whether another goroutine holds the one that is wanted.
var Busy func() bool

// Waiting makes every read lock of a lock that is held block, as it does when a writer waits.
var Waiting bool

// Reset starts a new set of operations.
func Reset(h func(), b func() bool) {
	Hook, Busy, points, touched = h, b, 0, false
}

// Point is where another goroutine may run.
func Point() {
	if Hook == nil || points == MaxPoints {
		return
	}
	points++
	Hook()
	touched = held == 0
}

func busy() bool { return held == 0 && Busy != nil && Busy() }

// before is the moment before a lock is taken.
func before() {
	if touched && held == 0 && Hook != nil {
		touched = false
		Hook()
	}
}

func acquired() { held++ }

func released() {
	if held--; held == 0 && Hook != nil {
		touched = false
		Hook()
	}
}

// Map is sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { Point(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Point()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	Point()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{})                      { Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { Point(); return m.m.Swap(k, v) }
func (m *Map) Range(f func(k, v interface{}) bool)       { Point(); m.m.Range(f) }

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() { before(); m.mu.Lock(); acquired() }
func (m *Mutex) TryLock() bool {
	if busy() {
		return false
	}
	if m.mu.TryLock() {
		acquired()
		return true
	}
	return false
}
func (m *Mutex) Unlock() { m.mu.Unlock(); released() }

type RWMutex struct {
	mu      sync.RWMutex
	readers int
}

func (m *RWMutex) Lock() { before(); m.mu.Lock(); acquired() }
func (m *RWMutex) TryLock() bool {
	if busy() {
		return false
	}
	if m.mu.TryLock() {
		acquired()
		return true
	}
	return false
}
func (m *RWMutex) Unlock() { m.mu.Unlock(); released() }
func (m *RWMutex) RLock() {
	before()
	if Waiting && m.readers > 0 {
		go func() {
			m.mu.Lock()
			m.mu.Unlock()
		}()
		time.Sleep(50 * time.Millisecond)
	}
	m.mu.RLock()
	m.readers++
	acquired()
}
func (m *RWMutex) TryRLock() bool {
	if busy() {
		return false
	}
	if m.mu.TryRLock() {
		m.readers++
		acquired()
		return true
	}
	return false
}
func (m *RWMutex) RUnlock() { m.readers--; m.mu.RUnlock(); released() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }
