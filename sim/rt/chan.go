package simrt

import (
	"reflect"
	"unsafe"
)

type selWait struct {
	g    *G
	done bool
}

type waiter struct {
	sw  *selWait
	idx int
	val any
}

type chanState struct {
	ref    any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

func chanPtr[C any](ch C) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (w *World) chst(p uintptr, ref any, cap int) *chanState {
	if p == 0 {
		return nil
	}
	cs := w.chans[p]
	if cs == nil {
		cs = &chanState{ref: ref, cap: cap}
		w.chans[p] = cs
	}
	return cs
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.sw.done {
			return x
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, x := range q {
		if !x.sw.done {
			return true
		}
	}
	return false
}

func (w *World) wakeWaiter(x *waiter, val any, ok bool) {
	x.sw.done = true
	x.sw.g.wr = wakeRes{x.idx, val, ok}
	w.ready(x.sw.g)
}

// trySend attempts a non-blocking send.
func (cs *chanState) trySend(w *World, v any) bool {
	if cs.closed {
		panic(closedSend{})
	}
	if x := popWaiter(&cs.recvq); x != nil {
		w.wakeWaiter(x, v, true)
		return true
	}
	if len(cs.buf) < cs.cap {
		cs.buf = append(cs.buf, v)
		return true
	}
	return false
}

type closedSend struct{}

func (closedSend) Error() string { return "send on closed channel" }
func (closedSend) RuntimeError() {}

func (cs *chanState) tryRecv(w *World) (any, bool, bool) {
	if len(cs.buf) > 0 {
		v := cs.buf[0]
		cs.buf = cs.buf[1:]
		if x := popWaiter(&cs.sendq); x != nil {
			cs.buf = append(cs.buf, x.val)
			w.wakeWaiter(x, nil, true)
		}
		return v, true, true
	}
	if x := popWaiter(&cs.sendq); x != nil {
		v := x.val
		w.wakeWaiter(x, nil, true)
		return v, true, true
	}
	if cs.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (w *World) syncPoint() {
	w.checkKilled()
	P()
}

func (w *World) needG(what string) {
	if w == nil || w.cur == nil {
		panic("simrt: " + what + " outside a simulated goroutine")
	}
}

func compact(q *[]*waiter) {
	if len(*q) > 64 {
		n := (*q)[:0]
		for _, x := range *q {
			if !x.sw.done {
				n = append(n, x)
			}
		}
		*q = n
	}
}

func (w *World) send(cs *chanState, v any) {
	w.needG("send")
	w.syncPoint()
	if cs == nil {
		w.park("send on nil channel")
		return
	}
	if cs.trySend(w, v) {
		return
	}
	sw := &selWait{g: w.cur}
	cs.sendq = append(cs.sendq, &waiter{sw, 0, v})
	compact(&cs.sendq)
	g := w.cur
	w.park("channel send")
	if !g.wr.ok {
		panic(closedSend{})
	}
}

func (w *World) recv(cs *chanState) (any, bool) {
	w.needG("receive")
	w.syncPoint()
	if cs == nil {
		w.park("receive on nil channel")
		return nil, false
	}
	if v, ok, done := cs.tryRecv(w); done {
		return v, ok
	}
	sw := &selWait{g: w.cur}
	cs.recvq = append(cs.recvq, &waiter{sw, 0, nil})
	compact(&cs.recvq)
	g := w.cur
	w.park("channel receive")
	return g.wr.val, g.wr.ok
}

func (w *World) closeCh(cs *chanState) {
	if cs == nil {
		panic("close of nil channel")
	}
	if cs.closed {
		panic("close of closed channel")
	}
	cs.closed = true
	for {
		x := popWaiter(&cs.recvq)
		if x == nil {
			break
		}
		w.wakeWaiter(x, nil, false)
	}
	for {
		x := popWaiter(&cs.sendq)
		if x == nil {
			break
		}
		w.wakeWaiter(x, nil, false)
	}
}

// ---- typed API used by rewritten code ----

type SendHandle[T any] struct {
	cs  *chanState
	raw chan<- T
}

func ChS[T any](ch chan<- T) SendHandle[T] {
	if W == nil {
		return SendHandle[T]{raw: ch}
	}
	return SendHandle[T]{cs: W.chst(chanPtr(ch), ch, cap(ch))}
}

func (h SendHandle[T]) Send(v T) {
	if W == nil {
		h.raw <- v
		return
	}
	W.send(h.cs, v)
}

func conv[T any](v any) T {
	x, _ := v.(T)
	return x
}

func Recv[T any](ch <-chan T) T {
	if W == nil {
		return <-ch
	}
	v, _ := W.recv(W.chst(chanPtr(ch), ch, cap(ch)))
	return conv[T](v)
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if W == nil {
		v, ok := <-ch
		return v, ok
	}
	v, ok := W.recv(W.chst(chanPtr(ch), ch, cap(ch)))
	return conv[T](v), ok
}

func Close[T any](ch chan<- T) {
	w := W
	if w == nil {
		close(ch)
		return
	}
	w.needG("close")
	w.syncPoint()
	w.closeCh(w.chst(chanPtr(ch), ch, cap(ch)))
}

// CloseWorld closes a channel from the world side (event callbacks).
func CloseWorld[T any](ch chan T) { W.closeCh(W.chst(chanPtr(ch), ch, cap(ch))) }

// TrySendWorld does a non-blocking send from the world side.
func TrySendWorld[T any](ch chan T, v T) bool {
	cs := W.chst(chanPtr(ch), ch, cap(ch))
	if cs.closed {
		return false
	}
	return cs.trySend(W, v)
}

func ChanLen[C any](ch C) int {
	if W == nil {
		return reflect.ValueOf(ch).Len()
	}
	cs := W.chans[chanPtr(ch)]
	if cs == nil {
		return 0
	}
	return len(cs.buf)
}

type SelCase interface {
	state() *chanState
	isSend() bool
	sendVal() any
	set(v any, ok bool)
}

type RecvCase[T any] struct {
	cs *chanState
	V  T
	Ok bool
}

func RC[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{cs: W.chst(chanPtr(ch), ch, cap(ch))}
}
func (c *RecvCase[T]) state() *chanState  { return c.cs }
func (c *RecvCase[T]) isSend() bool       { return false }
func (c *RecvCase[T]) sendVal() any       { return nil }
func (c *RecvCase[T]) set(v any, ok bool) { c.V = conv[T](v); c.Ok = ok }

type SendCase[T any] struct {
	cs *chanState
	v  T
}

func SC[T any](ch chan<- T) *SendCase[T] {
	return &SendCase[T]{cs: W.chst(chanPtr(ch), ch, cap(ch))}
}
func (c *SendCase[T]) With(v T) *SendCase[T] { c.v = v; return c }
func (c *SendCase[T]) state() *chanState     { return c.cs }
func (c *SendCase[T]) isSend() bool          { return true }
func (c *SendCase[T]) sendVal() any          { return c.v }
func (c *SendCase[T]) set(v any, ok bool)    {}

// Select returns the index of the chosen case, or -1 for the default case.
func Select(hasDefault bool, cases ...SelCase) int {
	w := W
	w.needG("select")
	w.syncPoint()
	var rdy []int
	for i, c := range cases {
		cs := c.state()
		if cs == nil {
			continue
		}
		if c.isSend() {
			if cs.closed || hasWaiter(cs.recvq) || len(cs.buf) < cs.cap {
				rdy = append(rdy, i)
			}
		} else if len(cs.buf) > 0 || cs.closed || hasWaiter(cs.sendq) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[w.choose("s", len(rdy))]
		c := cases[i]
		if c.isSend() {
			if !c.state().trySend(w, c.sendVal()) {
				panic("simrt: select send")
			}
		} else {
			v, ok, done := c.state().tryRecv(w)
			if !done {
				panic("simrt: select recv")
			}
			c.set(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	g := w.cur
	sw := &selWait{g: g}
	for i, c := range cases {
		cs := c.state()
		if cs == nil {
			continue
		}
		if c.isSend() {
			cs.sendq = append(cs.sendq, &waiter{sw, i, c.sendVal()})
			compact(&cs.sendq)
		} else {
			cs.recvq = append(cs.recvq, &waiter{sw, i, nil})
			compact(&cs.recvq)
		}
	}
	w.park("select")
	r := g.wr
	c := cases[r.idx]
	if c.isSend() {
		if !r.ok {
			panic(closedSend{})
		}
	} else {
		c.set(r.val, r.ok)
	}
	return r.idx
}
