// Package simsync stands in for package sync in the instrumented build: the
// same API, but blocking is a decision of the simulator's scheduler.
package simsync

import (
	"sync"
	"vsim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	for m.locked {
		simrt.Block()
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	for m.w || m.r > 0 {
		simrt.Block()
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	for m.w {
		simrt.Block()
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ c int }

func (w *WaitGroup) Add(d int) {
	w.c += d
	if w.c < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for w.c > 0 {
		simrt.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Pool hands out the most recently returned object first, without ever
// dropping one: the most sharing a real sync.Pool can produce.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if k := len(p.items); k > 0 {
		x := p.items[k-1]
		p.items = p.items[:k-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

type Map = sync.Map

type Cond struct {
	L   Locker
	gen uint64
	sig int
	wtg int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := c.gen
	c.wtg++
	c.L.Unlock()
	for c.gen == g && c.sig == 0 {
		simrt.Block()
	}
	if c.gen == g && c.sig > 0 {
		c.sig--
	}
	c.wtg--
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.wtg > c.sig {
		c.sig++
	}
}
func (c *Cond) Broadcast() { c.gen++; c.sig = 0 }
