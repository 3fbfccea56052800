package simrt

import "unsafe"

// Channel operations of library code. The real channel is only an identity (and a capacity); values live in
// chanState. A channel that was filled or closed by uninstrumented code is still honoured on receive.

type item struct {
	v   interface{}
	tok byte
}

type waiter struct {
	it    *item
	done  bool
	ok    bool
	sel   *selOp
	idx   int
	next  *waiter
	owner *chanState
	send  bool
}

type selOp struct {
	fired bool
	idx   int
	it    *item
	ok    bool
}

type chanState struct {
	key    unsafe.Pointer
	keep   interface{}
	cap    int
	head   *qnode
	tail   *qnode
	n      int
	closed bool
	recvq  *waiter
	sendq  *waiter
	rTok   byte
	cTok   byte
	real   func() (interface{}, bool, bool) // non-blocking receive on the real channel: value, ok, got
	peek   *item                            // a value taken from the real channel, not yet delivered
	rdone  bool                             // the real channel was closed by uninstrumented code
	link   *chanState
}

type qnode struct {
	it   *item
	next *qnode
}

const tabSize = 1 << 14

var tab [tabSize]*chanState

//go:norace
func lookup(key unsafe.Pointer) *chanState {
	h := mix(uint64(uintptr(key))) & (tabSize - 1)
	for s := tab[h]; s != nil; s = s.link {
		if s.key == key {
			return s
		}
	}
	return nil
}

//go:norace
func insert(s *chanState) {
	h := mix(uint64(uintptr(s.key))) & (tabSize - 1)
	s.link = tab[h]
	tab[h] = s
}

//go:norace
func stateR[T any](ch <-chan T) *chanState {
	key := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	s := lookup(key)
	if s != nil && s.real != nil {
		return s
	}
	if s == nil {
		s = &chanState{key: key, keep: ch, cap: cap(ch)}
		insert(s)
	}
	s.real = func() (interface{}, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
	return s
}

//go:norace
func stateS[T any](ch chan<- T) *chanState {
	key := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if s := lookup(key); s != nil {
		return s
	}
	s := &chanState{key: key, keep: ch, cap: cap(ch)}
	insert(s)
	return s
}

//go:norace
func (s *chanState) push(it *item) {
	q := &qnode{it: it}
	if s.tail == nil {
		s.head, s.tail = q, q
	} else {
		s.tail.next = q
		s.tail = q
	}
	s.n++
}

//go:norace
func (s *chanState) pop() *item {
	q := s.head
	s.head = q.next
	if s.head == nil {
		s.tail = nil
	}
	s.n--
	return q.it
}

//go:norace
func (w *waiter) live() bool { return !w.done && (w.sel == nil || !w.sel.fired) }

//go:norace
func takeWaiter(q **waiter) *waiter {
	for *q != nil {
		w := *q
		*q = w.next
		if w.live() {
			return w
		}
	}
	return nil
}

//go:norace
func enqueue(q **waiter, w *waiter) {
	for *q != nil {
		q = &(*q).next
	}
	*q = w
}

//go:norace
func fire(w *waiter, it *item, ok bool) {
	w.done = true
	w.it = it
	w.ok = ok
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.it = it
		w.sel.ok = ok
	}
}

//go:norace
func (s *chanState) trySend(it *item) bool {
	if s.closed {
		panic("send on closed channel")
	}
	if w := takeWaiter(&s.recvq); w != nil {
		Release(unsafe.Pointer(&it.tok))
		Acquire(unsafe.Pointer(&s.rTok))
		fire(w, it, true)
		return true
	}
	if s.n < s.cap {
		Acquire(unsafe.Pointer(&s.rTok))
		Release(unsafe.Pointer(&it.tok))
		s.push(it)
		return true
	}
	return false
}

//go:norace
func (s *chanState) tryRecv() (*item, bool, bool) {
	if s.n > 0 {
		it := s.pop()
		Acquire(unsafe.Pointer(&it.tok))
		Release(unsafe.Pointer(&s.rTok))
		if w := takeWaiter(&s.sendq); w != nil {
			s.push(w.it)
			fire(w, w.it, true)
		}
		return it, true, true
	}
	if w := takeWaiter(&s.sendq); w != nil {
		it := w.it
		Acquire(unsafe.Pointer(&it.tok))
		Release(unsafe.Pointer(&s.rTok))
		fire(w, it, true)
		return it, true, true
	}
	if s.closed {
		Acquire(unsafe.Pointer(&s.cTok))
		return nil, false, true
	}
	if s.poll() {
		it := s.peek
		s.peek = nil
		return it, !s.rdone, true
	}
	return nil, false, false
}

// poll looks for a value (or a close) that uninstrumented code put on the real channel.
//
//go:norace
func (s *chanState) poll() bool {
	if s.peek != nil || s.rdone {
		return true
	}
	if s.real == nil {
		return false
	}
	v, ok, got := s.real()
	if !got {
		return false
	}
	if ok {
		s.peek = &item{v: v}
	} else {
		s.rdone = true
	}
	return true
}

type never struct{}

func (never) SimReady(*Task) bool { return false }

type chWait struct {
	s *chanState
	w *waiter
}

//go:norace
func (c *chWait) SimReady(*Task) bool {
	return c.w.done || c.s.closed || (!c.w.send && c.s.poll())
}

// Send is `ch <- v`.
//
//go:norace
func Send[T any](ch chan<- T, v T) {
	Y(0)
	if ch == nil {
		Park(never{}, "send on nil channel")
	}
	s := stateS(ch)
	it := &item{v: v}
	if s.trySend(it) {
		return
	}
	Release(unsafe.Pointer(&it.tok))
	w := &waiter{it: it, send: true, owner: s}
	enqueue(&s.sendq, w)
	Park(&chWait{s, w}, "channel send")
	if !w.done {
		w.done = true
		panic("send on closed channel")
	}
	Acquire(unsafe.Pointer(&s.rTok))
}

//go:norace
func recv(s *chanState) (*item, bool) {
	for {
		it, ok, got := s.tryRecv()
		if got {
			return it, ok
		}
		w := &waiter{owner: s}
		enqueue(&s.recvq, w)
		Park(&chWait{s, w}, "channel receive")
		if w.done {
			Acquire(unsafe.Pointer(&w.it.tok))
			Release(unsafe.Pointer(&s.rTok))
			return w.it, w.ok
		}
		w.done = true
	}
}

// Recv is `<-ch`.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is `v, ok := <-ch`.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	Y(0)
	if ch == nil {
		Park(never{}, "receive from nil channel")
	}
	it, ok := recv(stateR(ch))
	var zero T
	if it == nil || it.v == nil {
		return zero, ok
	}
	return it.v.(T), ok
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	Y(0)
	if ch == nil {
		panic("close of nil channel")
	}
	s := stateS(ch)
	if s.closed {
		panic("close of closed channel")
	}
	Release(unsafe.Pointer(&s.cTok))
	s.closed = true
}

// Len is len(ch).
//
//go:norace
func Len[T any](ch <-chan T) int {
	if ch == nil {
		return 0
	}
	s := stateR(ch)
	return s.n + len(ch)
}

// Case is one communication clause of a select.
type Case struct {
	s    *chanState
	it   *item
	send bool
	null bool
}

// Comm is a communication clause as seen by Sel.
type Comm interface{ base() *Case }

// RCase is a receive clause; after Sel it carries the received value.
type RCase[T any] struct {
	c  Case
	it *item
	ok bool
}

// SCase is a send clause.
type SCase struct{ c Case }

func (r *RCase[T]) base() *Case { return &r.c }
func (s *SCase) base() *Case    { return &s.c }

//go:norace
func (r *RCase[T]) Val() T {
	var zero T
	if r.it == nil || r.it.v == nil {
		return zero
	}
	return r.it.v.(T)
}

//go:norace
func (r *RCase[T]) Val2() (T, bool) { return r.Val(), r.ok }

func (r *RCase[T]) set(it *item, ok bool) { r.it, r.ok = it, ok }

type setter interface{ set(*item, bool) }

//go:norace
func CaseRecv[T any](ch <-chan T) *RCase[T] {
	if ch == nil {
		return &RCase[T]{c: Case{null: true}}
	}
	return &RCase[T]{c: Case{s: stateR(ch)}}
}

func CaseSendTo[T any](ch chan<- T) func(T) *SCase {
	return func(v T) *SCase {
		if ch == nil {
			return &SCase{Case{null: true, send: true}}
		}
		return &SCase{Case{s: stateS(ch), it: &item{v: v}, send: true}}
	}
}

// Sel runs a select statement and returns the index of the clause taken, -1 for default.
func Sel(hasDefault bool, comms ...Comm) int {
	cases := make([]Case, len(comms))
	for i, c := range comms {
		cases[i] = *c.base()
	}
	k, r := Select(hasDefault, cases...)
	if k >= 0 {
		if s, ok := comms[k].(setter); ok {
			s.set(r.it, r.ok)
		}
	}
	return k
}

// Block is select{}.
func Block() { Park(never{}, "select{}") }

// SendTo is `ch <- v` in two steps, so that v keeps its assignment conversion.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// Range iterates over a channel.
type Range[T any] struct{ ch <-chan T }

func RangeOver[T any](ch <-chan T) Range[T] { return Range[T]{ch} }
func (r Range[T]) Next() (T, bool)          { return Recv2(r.ch) }

// Res carries a received value out of Select.
type Res struct {
	it *item
	ok bool
}

type selWait struct {
	sel   *selOp
	cases []Case
}

//go:norace
func (w *selWait) SimReady(*Task) bool {
	if w.sel.fired {
		return true
	}
	for i := range w.cases {
		c := &w.cases[i]
		if !c.null && (c.s.closed || (!c.send && c.s.poll())) {
			return true
		}
	}
	return false
}

//go:norace
func (c *Case) ready() bool {
	if c.null {
		return false
	}
	s := c.s
	if s.closed {
		return true
	}
	if c.send {
		for w := s.recvq; w != nil; w = w.next {
			if w.live() {
				return true
			}
		}
		return s.n < s.cap
	}
	if s.n > 0 {
		return true
	}
	for w := s.sendq; w != nil; w = w.next {
		if w.live() {
			return true
		}
	}
	return s.poll()
}

// Select runs a select statement; -1 means the default clause.
//
//go:norace
func Select(hasDefault bool, cases ...Case) (int, Res) {
	Y(0)
	for {
		n := 0
		for i := range cases {
			if cases[i].ready() {
				n++
			}
		}
		if n > 0 {
			k := 0
			if n > 1 && active {
				k = int(selChoice(uint32(n)))
			}
			for i := range cases {
				if cases[i].ready() {
					if k == 0 {
						c := &cases[i]
						if c.send {
							c.s.trySend(c.it)
							return i, Res{}
						}
						it, ok, _ := c.s.tryRecv()
						return i, Res{it, ok}
					}
					k--
				}
			}
		}
		if hasDefault {
			return -1, Res{}
		}
		sel := &selOp{}
		for i := range cases {
			c := &cases[i]
			if c.null {
				continue
			}
			w := &waiter{it: c.it, sel: sel, idx: i, owner: c.s, send: c.send}
			if c.send {
				Release(unsafe.Pointer(&c.it.tok))
				enqueue(&c.s.sendq, w)
			} else {
				enqueue(&c.s.recvq, w)
			}
		}
		Park(&selWait{sel, cases}, "select")
		if sel.fired {
			c := &cases[sel.idx]
			if c.send {
				Acquire(unsafe.Pointer(&c.s.rTok))
				return sel.idx, Res{}
			}
			Acquire(unsafe.Pointer(&sel.it.tok))
			Release(unsafe.Pointer(&c.s.rTok))
			return sel.idx, Res{sel.it, sel.ok}
		}
		sel.fired = true // invalidate our waiters, then retry: some channel was closed
	}
}

//go:norace
func selChoice(n uint32) uint32 {
	d := decideSel()
	return d % n
}

// decideSel draws the choice between ready select cases from the same decision stream.
//
//go:norace
func decideSel() uint32 {
	if pol.Explicit {
		var d Decision
		if decIdx < len(script) {
			d = script[decIdx]
		}
		decIdx++
		return d.Pick
	}
	decIdx++
	d := Decision{1, uint32(next64() >> 16)}
	if nRec < maxRecord {
		rec[nRec] = d
		nRec++
	}
	return d.Pick
}
