// Package vsync is a drop-in replacement of the standard "sync" package used
// at check time (through `go build -overlay`) inside the packages under test.
//
// Every lock operation is a schedule point: when a controller is installed,
// the calling goroutine parks there until the controller lets it continue, and
// waiting for a lock is a channel operation, so that testing/synctest sees the
// goroutine as durably blocked.  Without a controller the types behave as
// ordinary locks (with Go's writer preference for RWMutex).
package vsync

import (
	"runtime"
	stdsync "sync"
	"sync/atomic"
	"time"
)

// Point describes one parked goroutine.
type Point struct {
	Op   string
	Obj  any
	GoID uint64
	ch   chan struct{}
}

// Controller receives schedule points.
type Controller struct {
	mu     stdsync.Mutex
	parked []*Point
	// Yields counts the schedule points passed.
	Yields int
	off    bool
	note   chan struct{}
}

// NewController returns a controller.
func NewController() *Controller { return &Controller{note: make(chan struct{}, 1)} }

// WaitParked waits until a goroutine parks or d has passed.
func (c *Controller) WaitParked(d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-c.note:
	case <-t.C:
	}
}

// Kick wakes WaitParked.
func (c *Controller) Kick() {
	select {
	case c.note <- struct{}{}:
	default:
	}
}

var active atomic.Pointer[Controller]

// Install makes c the active controller; nil removes it.
func Install(c *Controller) { active.Store(c) }

// Release lets every parked goroutine run free and disables c.
func (c *Controller) Release() {
	c.mu.Lock()
	c.off = true
	p := c.parked
	c.parked = nil
	c.mu.Unlock()
	for _, q := range p {
		close(q.ch)
	}
}

// Parked returns the goroutines waiting at a schedule point.
func (c *Controller) Parked() []*Point {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*Point(nil), c.parked...)
}

// Resume continues p.
func (c *Controller) Resume(p *Point) {
	c.mu.Lock()
	for i, q := range c.parked {
		if q == p {
			c.parked = append(c.parked[:i:i], c.parked[i+1:]...)
			break
		}
	}
	c.mu.Unlock()
	close(p.ch)
}

// GoID returns the id of the calling goroutine.
func GoID() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	// "goroutine 123 [..."
	var id uint64
	for _, b := range buf[10:n] {
		if b < '0' || b > '9' {
			break
		}
		id = id*10 + uint64(b-'0')
	}
	return id
}

// Yield is a schedule point.
func Yield(op string, obj any) {
	c := active.Load()
	if c == nil {
		return
	}
	p := &Point{Op: op, Obj: obj, ch: make(chan struct{}), GoID: GoID()}
	c.mu.Lock()
	if c.off {
		c.mu.Unlock()
		return
	}
	c.Yields++
	c.parked = append(c.parked, p)
	c.mu.Unlock()
	c.Kick()
	<-p.ch
}

// Locker is sync.Locker.
type Locker = stdsync.Locker

// WaitGroup, Map and Pool are the standard ones (synctest knows WaitGroup).
type (
	WaitGroup = stdsync.WaitGroup
	Map       = stdsync.Map
	Pool      = stdsync.Pool
)

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Mutex is a sync.Mutex with schedule points.
type Mutex struct {
	mu      stdsync.Mutex
	locked  bool
	waiters []chan struct{}
}

// Lock locks m.
func (m *Mutex) Lock() {
	Yield("Lock", m)
	m.mu.Lock()
	for m.locked {
		ch := make(chan struct{})
		m.waiters = append(m.waiters, ch)
		m.mu.Unlock()
		<-ch
		m.mu.Lock()
	}
	m.locked = true
	m.mu.Unlock()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	Yield("TryLock", m)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("vsync: unlock of unlocked mutex")
	}
	m.locked = false
	ws := m.waiters
	m.waiters = nil
	m.mu.Unlock()
	for _, w := range ws {
		close(w)
	}
	Yield("Unlock", m)
}

// RWMutex is a sync.RWMutex with schedule points and writer preference.
type RWMutex struct {
	mu       stdsync.Mutex
	writer   bool
	wpending int
	readers  int
	waiters  []chan struct{}
}

func (m *RWMutex) wait() {
	ch := make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch
	m.mu.Lock()
}

func (m *RWMutex) wake() {
	ws := m.waiters
	m.waiters = nil
	m.mu.Unlock()
	for _, w := range ws {
		close(w)
	}
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	Yield("Lock", m)
	m.mu.Lock()
	m.wpending++
	for m.writer || m.readers > 0 {
		m.wait()
	}
	m.wpending--
	m.writer = true
	m.mu.Unlock()
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	Yield("TryLock", m)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("vsync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
	Yield("Unlock", m)
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	Yield("RLock", m)
	m.mu.Lock()
	for m.writer || m.wpending > 0 {
		m.wait()
	}
	m.readers++
	m.mu.Unlock()
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	Yield("TryRLock", m)
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.wpending > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("vsync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
	Yield("RUnlock", m)
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a sync.Once whose waiters block on channels.
type Once struct {
	mu   stdsync.Mutex
	st   int
	done chan struct{}
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.mu.Lock()
	switch o.st {
	case 2:
		o.mu.Unlock()
		return
	case 1:
		d := o.done
		o.mu.Unlock()
		<-d
		return
	}
	o.st = 1
	o.done = make(chan struct{})
	o.mu.Unlock()
	defer func() {
		o.mu.Lock()
		o.st = 2
		close(o.done)
		o.mu.Unlock()
	}()
	f()
}

// Cond is a sync.Cond.
type Cond struct {
	L       Locker
	mu      stdsync.Mutex
	waiters []chan struct{}
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.waiters = append(c.waiters, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.waiters) > 0 {
		close(c.waiters[0])
		c.waiters = c.waiters[1:]
	}
	c.mu.Unlock()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, w := range c.waiters {
		close(w)
	}
	c.waiters = nil
	c.mu.Unlock()
}
