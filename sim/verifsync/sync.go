// Package verifsync replaces package sync in the instrumented sources: its
// locks yield to the simulator's scheduler instead of blocking the thread that
// holds the baton.
package verifsync

import (
	"sync"

	"MODULE/internal/verifsim"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Cond is a cooperative condition variable.
type Cond struct {
	L  Locker
	ws []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := new(bool)
	c.ws = append(c.ws, w)
	c.L.Unlock()
	for !*w {
		verifsim.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.ws) > 0 {
		*c.ws[0] = true
		c.ws = c.ws[1:]
		verifsim.Progress()
	}
}

func (c *Cond) Broadcast() {
	for len(c.ws) > 0 {
		c.Signal()
	}
}

// WaitGroup is a cooperative wait group.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	verifsim.Progress()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	for w.n > 0 {
		verifsim.Block()
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	verifsim.Spawn(func() {
		defer w.Done()
		f()
	})
}

// Pool hands the latest item back first, which exposes items that are still in
// use elsewhere.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// OnceFunc returns a function that runs f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue returns a function that returns what f returned the first time.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is OnceValue for two results.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Mutex is a cooperative mutual exclusion lock.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	for m.held {
		verifsim.Block()
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	verifsim.Progress()
}

// RWMutex is a cooperative reader/writer lock.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	for m.w || m.r > 0 {
		verifsim.Block()
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	verifsim.Progress()
}

func (m *RWMutex) RLock() {
	for m.w {
		verifsim.Block()
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	verifsim.Progress()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once; latecomers wait for it cooperatively.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
