// Package sync replaces the standard package in instrumented code: same API, scheduled by simrt.
package sync

import (
	"unsafe"

	"zkdst/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	tok    byte
}

//go:norace
func (m *Mutex) SimReady(*simrt.Task) bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(0)
	for m.locked {
		simrt.Park(m, "mutex")
	}
	m.locked = true
	simrt.Acquire(unsafe.Pointer(&m.tok))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(unsafe.Pointer(&m.tok))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(unsafe.Pointer(&m.tok))
	m.locked = false
	simrt.Y(0)
}

type RWMutex struct {
	w       bool
	readers int
	wTok    byte
	rTok    byte
}

type rwW struct{ m *RWMutex }

//go:norace
func (r rwW) SimReady(*simrt.Task) bool { return !r.m.w && r.m.readers == 0 }

type rwR struct{ m *RWMutex }

//go:norace
func (r rwR) SimReady(*simrt.Task) bool { return !r.m.w }

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(0)
	for m.w || m.readers > 0 {
		simrt.Park(rwW{m}, "rwmutex write")
	}
	m.w = true
	simrt.Acquire(unsafe.Pointer(&m.wTok))
	simrt.Acquire(unsafe.Pointer(&m.rTok))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	simrt.Acquire(unsafe.Pointer(&m.wTok))
	simrt.Acquire(unsafe.Pointer(&m.rTok))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.wTok))
	m.w = false
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(0)
	for m.w {
		simrt.Park(rwR{m}, "rwmutex read")
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.wTok))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.w {
		return false
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.wTok))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.rTok))
	m.readers--
	simrt.Y(0)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n   int
	tok byte
}

//go:norace
func (wg *WaitGroup) SimReady(*simrt.Task) bool { return wg.n == 0 }

//go:norace
func (wg *WaitGroup) Add(d int) {
	simrt.Y(0)
	if d < 0 {
		simrt.Release(unsafe.Pointer(&wg.tok))
	}
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

//go:norace
func (wg *WaitGroup) Wait() {
	simrt.Y(0)
	if wg.n != 0 {
		simrt.Park(wg, "waitgroup")
	}
	simrt.Acquire(unsafe.Pointer(&wg.tok))
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() {
		defer wg.Done()
		f()
	})
}

type Once struct {
	state int // 0 new, 1 running, 2 done
	tok   byte
}

//go:norace
func (o *Once) SimReady(*simrt.Task) bool { return o.state == 2 }

//go:norace
func (o *Once) enter() bool {
	simrt.Y(0)
	if o.state == 1 {
		simrt.Park(o, "once")
	}
	if o.state == 2 {
		simrt.Acquire(unsafe.Pointer(&o.tok))
		return false
	}
	o.state = 1
	return true
}

//go:norace
func (o *Once) leave() {
	simrt.Release(unsafe.Pointer(&o.tok))
	o.state = 2
}

func (o *Once) Do(f func()) {
	if o.enter() {
		defer o.leave()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L   Locker
	q   *condWait
	tok byte
}

type condWait struct {
	done bool
	next *condWait
}

//go:norace
func (c *condWait) SimReady(*simrt.Task) bool { return c.done }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) add() *condWait {
	w := &condWait{}
	p := &c.q
	for *p != nil {
		p = &(*p).next
	}
	*p = w
	return w
}

func (c *Cond) Wait() {
	w := c.add()
	c.L.Unlock()
	simrt.Park(w, "cond")
	simrt.Acquire(unsafe.Pointer(&c.tok))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	simrt.Release(unsafe.Pointer(&c.tok))
	if c.q != nil {
		c.q.done = true
		c.q = c.q.next
	}
	simrt.Y(0)
}

//go:norace
func (c *Cond) Broadcast() {
	simrt.Release(unsafe.Pointer(&c.tok))
	for c.q != nil {
		c.q.done = true
		c.q = c.q.next
	}
	simrt.Y(0)
}

// Pool hands out pooled items last-in first-out, and now and then (as the real one may) drops them.
type Pool struct {
	New   func() any
	head  *poolNode
	count uint32
}

type poolNode struct {
	v    any
	tok  byte
	next *poolNode
}

//go:norace
func (p *Pool) take() *poolNode {
	simrt.Y(0)
	n := p.head
	if n != nil {
		p.head = n.next
		simrt.Acquire(unsafe.Pointer(&n.tok))
	}
	return n
}

func (p *Pool) Get() any {
	if n := p.take(); n != nil {
		return n.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.count++
	if p.count%13 != 0 {
		n := &poolNode{v: x, next: p.head}
		simrt.Release(unsafe.Pointer(&n.tok))
		p.head = n
	}
	simrt.Y(0)
}

type mapEnt struct {
	k, v any
	next *mapEnt
}

// Map is a list: insertion order, small sizes.
type Map struct {
	head *mapEnt
	tok  byte
}

//go:norace
func (m *Map) find(k any) *mapEnt {
	simrt.Y(0)
	simrt.Acquire(unsafe.Pointer(&m.tok))
	for e := m.head; e != nil; e = e.next {
		if e.k == k {
			return e
		}
	}
	return nil
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	if e := m.find(k); e != nil {
		return e.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	e := m.find(k)
	simrt.Release(unsafe.Pointer(&m.tok))
	if e != nil {
		old := e.v
		e.v = v
		return old, true
	}
	m.head = &mapEnt{k, v, m.head}
	return nil, false
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if e := m.find(k); e != nil {
		return e.v, true
	}
	simrt.Release(unsafe.Pointer(&m.tok))
	m.head = &mapEnt{k, v, m.head}
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y(0)
	simrt.Acquire(unsafe.Pointer(&m.tok))
	simrt.Release(unsafe.Pointer(&m.tok))
	for p := &m.head; *p != nil; p = &(*p).next {
		if (*p).k == k {
			v := (*p).v
			*p = (*p).next
			return v, true
		}
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndSwap(k, o, n any) bool {
	e := m.find(k)
	if e == nil || e.v != o {
		return false
	}
	simrt.Release(unsafe.Pointer(&m.tok))
	e.v = n
	return true
}

//go:norace
func (m *Map) CompareAndDelete(k, o any) bool {
	e := m.find(k)
	if e == nil || e.v != o {
		return false
	}
	m.LoadAndDelete(k)
	return true
}

func (m *Map) Clear() { m.head = nil }

func (m *Map) Range(f func(k, v any) bool) {
	m.find(nil)
	for e := m.head; e != nil; e = e.next {
		if !f(e.k, e.v) {
			return
		}
	}
}
