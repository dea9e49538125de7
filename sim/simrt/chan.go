package simrt

import (
	"unsafe"
)

// Channels keep their real Go type; buffered values live in the real channel, everything that would block is
// arbitrated here with the runtime's semantics (FIFO waiters, direct hand-off).

type hchan struct {
	keep    any
	closed  bool
	recvq   []*waiter
	sendq   []*waiter
	vcs     []VC // clocks of buffered elements
	recvVC  VC
	closeVC VC
}

type selState struct {
	g     *G
	fired int
	done  bool
}

type waiter struct {
	sel  *selState
	i    int
	elem unsafe.Pointer
	ok   bool
	push func(unsafe.Pointer) // sender: move elem into the real buffer
	vc   VC
}

func chanID[C any](c C) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }

func (s *Sim) hc(id uintptr, keep any) *hchan {
	h := s.chans[id]
	if h == nil {
		h = &hchan{keep: keep}
		s.chans[id] = h
	}
	return h
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func fire(w *waiter) {
	w.sel.done = true
	w.sel.fired = w.i
	S.ready(w.sel.g)
}

type chanErr string

func (e chanErr) Error() string { return string(e) }
func (e chanErr) RuntimeError() {}

// trySend attempts a non-blocking send under the simulator.
func trySend[T any](h *hchan, ch chan<- T, v *T) bool {
	if h.closed {
		panic(chanErr("send on closed channel"))
	}
	if w := popWaiter(&h.recvq); w != nil {
		*(*T)(w.elem) = *v
		w.ok = true
		if RaceOn {
			w.vc = S.cur.vc.clone()
			S.cur.vc.inc(S.cur.idx)
			if cap(ch) == 0 {
				S.cur.vc.join(w.sel.g.vc)
			} else {
				S.cur.vc.join(h.recvVC)
				h.recvVC.join(w.sel.g.vc)
			}
		}
		fire(w)
		return true
	}
	if len(ch) < cap(ch) {
		ch <- *v
		if RaceOn {
			S.cur.vc.join(h.recvVC)
			h.vcs = append(h.vcs, S.cur.vc.clone())
			S.cur.vc.inc(S.cur.idx)
		}
		return true
	}
	return false
}

func canSend[T any](h *hchan, ch chan<- T) bool {
	return h.closed || live(h.recvq) || len(ch) < cap(ch)
}

func tryRecv[T any](h *hchan, ch <-chan T, v *T, ok *bool) bool {
	if len(ch) > 0 {
		*v = <-ch
		*ok = true
		if RaceOn {
			if len(h.vcs) > 0 {
				S.cur.vc.join(h.vcs[0])
				h.vcs = h.vcs[1:]
			}
			h.recvVC.join(S.cur.vc)
			S.cur.vc.inc(S.cur.idx)
		}
		if w := popWaiter(&h.sendq); w != nil {
			if RaceOn {
				w.vc = h.recvVC.clone()
				h.vcs = append(h.vcs, w.sel.g.vc.clone())
				w.sel.g.vc.inc(w.sel.g.idx)
			}
			w.push(w.elem)
			w.ok = true
			fire(w)
		}
		return true
	}
	if w := popWaiter(&h.sendq); w != nil { // unbuffered
		*v = *(*T)(w.elem)
		*ok = true
		w.ok = true
		if RaceOn {
			S.cur.vc.join(w.sel.g.vc)
			w.vc = S.cur.vc.clone()
			S.cur.vc.inc(S.cur.idx)
			w.sel.g.vc.inc(w.sel.g.idx)
		}
		fire(w)
		return true
	}
	if h.closed {
		var zero T
		*v, *ok = zero, false
		if RaceOn {
			S.cur.vc.join(h.closeVC)
		}
		return true
	}
	// closed by code outside the simulator (never-buffered notification channels)
	select {
	case x, o := <-ch:
		*v, *ok = x, o
		return true
	default:
	}
	return false
}

func canRecv[T any](h *hchan, ch <-chan T) bool {
	return len(ch) > 0 || live(h.sendq) || h.closed
}

// Send implements ch <- v. (Curried so that the element type comes from the channel alone.)
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !InSim() {
			ch <- v
			return
		}
		Point()
		s := S
		if ch == nil {
			for {
				Block("send on nil channel")
			}
		}
		h := s.hc(chanID(ch), ch)
		if trySend(h, ch, &v) {
			return
		}
		w := &waiter{sel: &selState{g: s.cur}, elem: unsafe.Pointer(&v)}
		w.push = func(p unsafe.Pointer) { ch <- *(*T)(p) }
		h.sendq = append(h.sendq, w)
		Block("chan send")
		if RaceOn {
			s.cur.vc.join(w.vc)
		}
		if !w.ok {
			panic(chanErr("send on closed channel"))
		}
	}
}

// Recv implements <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 implements v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if !InSim() {
		v, ok = <-ch
		return
	}
	if S.killing {
		// deferred unlock during teardown
		return
	}
	Point()
	s := S
	if ch == nil {
		for {
			Block("receive on nil channel")
		}
	}
	h := s.hc(chanID(ch), ch)
	if tryRecv(h, ch, &v, &ok) {
		return
	}
	w := &waiter{sel: &selState{g: s.cur}, elem: unsafe.Pointer(&v)}
	h.recvq = append(h.recvq, w)
	Block("chan receive")
	if RaceOn {
		s.cur.vc.join(w.vc)
	}
	return v, w.ok
}

// Close implements close(ch).
func Close[T any](ch chan<- T) {
	if !InSim() {
		close(ch)
		return
	}
	if S.killing {
		return
	}
	Point()
	closeNow(ch)
}

func closeNow[T any](ch chan<- T) {
	s := S
	if ch == nil {
		panic(chanErr("close of nil channel"))
	}
	h := s.hc(chanID(ch), ch)
	if h.closed {
		panic(chanErr("close of closed channel"))
	}
	h.closed = true
	close(ch)
	if RaceOn && s.cur != nil {
		h.closeVC.join(s.cur.vc)
		s.cur.vc.inc(s.cur.idx)
	}
	for {
		w := popWaiter(&h.recvq)
		if w == nil {
			break
		}
		w.ok = false
		if RaceOn {
			w.vc = h.closeVC.clone()
		}
		fire(w)
	}
	for {
		w := popWaiter(&h.sendq)
		if w == nil {
			break
		}
		w.ok = false
		fire(w)
	}
}

// SendNB delivers v without blocking if possible; usable from timer callbacks.
func SendNB[T any](ch chan T, v T, vc VC) bool {
	h := S.hc(chanID(ch), ch)
	if h.closed {
		return false
	}
	if w := popWaiter(&h.recvq); w != nil {
		*(*T)(w.elem) = v
		w.ok = true
		w.vc = vc
		fire(w)
		return true
	}
	if len(ch) < cap(ch) {
		ch <- v
		if RaceOn {
			h.vcs = append(h.vcs, vc)
		}
		return true
	}
	return false
}

// Drain empties a buffered channel (timer Stop/Reset semantics).
func Drain[T any](ch chan T) {
	for len(ch) > 0 {
		<-ch
	}
	if S != nil && RaceOn {
		S.hc(chanID(ch), ch).vcs = nil
	}
}

// Case is one communication clause of a select.
type Case interface {
	ready() bool
	exec()
	enq(sel *selState, i int)
	fin()
}

type RecvCase[T any] struct {
	V  T
	OK bool
	ch <-chan T
	h  *hchan
	w  *waiter
}

// CaseRecv evaluates a receive clause.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	c.h = S.hc(chanID(c.ch), c.ch)
	if canRecv(c.h, c.ch) {
		return true
	}
	select {
	case c.V, c.OK = <-c.ch: // closed outside the simulator
		if !c.OK {
			c.h.closed = true
			return true
		}
		panic("simrt: value appeared on a channel outside the simulator")
	default:
		return false
	}
}
func (c *RecvCase[T]) exec() {
	if !tryRecv(c.h, c.ch, &c.V, &c.OK) {
		panic("simrt: receive case not ready")
	}
}
func (c *RecvCase[T]) enq(sel *selState, i int) {
	if c.ch == nil {
		return
	}
	c.w = &waiter{sel: sel, i: i, elem: unsafe.Pointer(&c.V)}
	c.h.recvq = append(c.h.recvq, c.w)
}
func (c *RecvCase[T]) fin() {
	c.OK = c.w.ok
	if RaceOn {
		S.cur.vc.join(c.w.vc)
	}
}

type SendCase[T any] struct {
	V  T
	ch chan<- T
	h  *hchan
	w  *waiter
}

// CaseSend evaluates a send clause.
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, V: v} }
}

func (c *SendCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	c.h = S.hc(chanID(c.ch), c.ch)
	return canSend(c.h, c.ch)
}
func (c *SendCase[T]) exec() {
	if !trySend(c.h, c.ch, &c.V) {
		panic("simrt: send case not ready")
	}
}
func (c *SendCase[T]) enq(sel *selState, i int) {
	if c.ch == nil {
		return
	}
	c.w = &waiter{sel: sel, i: i, elem: unsafe.Pointer(&c.V)}
	ch := c.ch
	c.w.push = func(p unsafe.Pointer) { ch <- *(*T)(p) }
	c.h.sendq = append(c.h.sendq, c.w)
}
func (c *SendCase[T]) fin() {
	if RaceOn {
		S.cur.vc.join(c.w.vc)
	}
	if !c.w.ok {
		panic(chanErr("send on closed channel"))
	}
}

// Select implements select; it returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if !InSim() {
		panic("simrt: select outside a simulation")
	}
	s := S
	if s.killing {
		if hasDefault {
			return -1
		}
		panic(killSentinel)
	}
	Point()
	var rd [8]int
	ready := rd[:0]
	for i, c := range cases {
		if c.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			s.NSelMulti++
			if s.st.SelRand {
				k = s.Choose(len(ready))
			}
		}
		cases[ready[k]].exec()
		return ready[k]
	}
	if hasDefault {
		return -1
	}
	sel := &selState{g: s.cur, fired: -1}
	for i, c := range cases {
		c.enq(sel, i)
	}
	Block("select")
	if sel.fired < 0 {
		panic("simrt: select woken without a case")
	}
	cases[sel.fired].fin()
	return sel.fired
}
