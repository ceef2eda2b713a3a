package vsched

import (
	"fmt"
	"runtime"
	"unsafe"
)

type item struct {
	v  interface{}
	vc VC
}

type hchan struct {
	keep   interface{}
	cap    int
	buf    []item
	closed bool
	vc     VC // of close
	recvq  []*waiter
	sendq  []*waiter
	slots  VC // receivers of a buffered channel happen before later senders
}

// waiter is a goroutine blocked in a channel operation (all cases of a select
// share one)
type waiter struct {
	g     *G
	done  bool
	idx   int // case chosen
	val   interface{}
	ok    bool
	vc    VC // of the partner
	sends []interface{}
}

type qent = *waiter

func hc[T any](c chan T) *hchan {
	p := *(*uintptr)(unsafe.Pointer(&c))
	if p == 0 {
		return nil
	}
	s := S
	h := s.chans[p]
	if h == nil {
		h = &hchan{keep: c, cap: cap(c)}
		s.chans[p] = h
	}
	return h
}

func hcS[T any](c chan<- T) *hchan { return hc(*(*chan T)(unsafe.Pointer(&c))) }
func hcR[T any](c <-chan T) *hchan { return hc(*(*chan T)(unsafe.Pointer(&c))) }

// Case of a select
type Case struct {
	h    *hchan
	send bool
	v    interface{}
}

// Sel is the result of a select
type Sel struct {
	I  int
	V  interface{}
	Ok bool
}

// Snd is a channel to send to
type Snd[T any] struct{ c chan<- T }

// To wraps a channel for sending
func To[T any](c chan<- T) Snd[T] { return Snd[T]{c} }

// Send a value
func (s Snd[T]) Send(v T) {
	if Aborting() {
		runtime.Goexit()
	}
	Select(false, Case{hcS(s.c), true, v})
}

// Case of a select
func (s Snd[T]) Case(v T) Case {
	return Case{hcS(s.c), true, v}
}

// RCase is a receive case of a select
func RCase[T any](c <-chan T) Case { return Case{hcR(c), false, nil} }

// Val is the received value of a select, typed by its channel
func Val[T any](c <-chan T, s *Sel) T {
	v, _ := s.V.(T)
	return v
}

// Val2 as Val with the ok flag
func Val2[T any](c <-chan T, s *Sel) (T, bool) {
	v, _ := s.V.(T)
	return v, s.Ok
}

// Recv a value
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 with the ok flag
func Recv2[T any](c <-chan T) (T, bool) {
	if Aborting() {
		runtime.Goexit()
	}
	s := Select(false, RCase(c))
	v, _ := s.V.(T)
	return v, s.Ok
}

// Forever blocks
func Forever() { Block("select {}", func() bool { return false }) }

// Close a channel
func Close[T any](c chan<- T) {
	if Aborting() {
		return
	}
	Point("close")
	h := hcS(c)
	if h == nil {
		panic("close of nil channel")
	}
	if h.closed {
		panic("close of closed channel")
	}
	h.closed = true
	if S.opts.Race {
		h.vc.join(S.cur.vc)
		S.cur.vc.tick(S.cur.id)
	}
	for _, w := range h.recvq {
		if !w.done {
			w.done, w.val, w.ok = true, nil, false
			w.idx = w.find(h, false)
			w.vc = h.vc
		}
	}
	h.recvq = nil
	for _, w := range h.sendq {
		if !w.done {
			w.done, w.ok = true, false
			w.idx = w.find(h, true)
		}
	}
	h.sendq = nil
}

// Len of a channel
func Len[T any](c <-chan T) int {
	h := hcR(c)
	if h == nil {
		return 0
	}
	return len(h.buf)
}

func (w *waiter) find(h *hchan, send bool) int {
	for i, x := range w.g.local.([]Case) {
		if x.h == h && x.send == send {
			return i
		}
	}
	return -1
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.done {
			return w
		}
	}
	return nil
}

func peek(q *[]*waiter) bool {
	for len(*q) > 0 {
		if !(*q)[0].done {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

// ready tells whether the case can proceed now
func (c *Case) ready() bool {
	h := c.h
	if h == nil {
		return false
	}
	if c.send {
		return h.closed || len(h.buf) < h.cap || peek(&h.recvq)
	}
	return len(h.buf) > 0 || h.closed || peek(&h.sendq)
}

func (c *Case) perform(i int) (r Sel) {
	r.I = i
	h := c.h
	s := S
	me := s.cur
	race := s.opts.Race
	if c.send {
		if h.closed {
			panic("send on closed channel")
		}
		if w := pop(&h.recvq); w != nil {
			w.done, w.val, w.ok = true, c.v, true
			w.idx = w.find(h, false)
			if race {
				w.vc = me.vc.clone()
				if h.cap == 0 {
					me.vc.join(w.g.vc)
				}
				me.vc.tick(me.id)
			}
			return
		}
		it := item{v: c.v}
		if race {
			me.vc.join(h.slots)
			it.vc = me.vc.clone()
			me.vc.tick(me.id)
		}
		h.buf = append(h.buf, it)
		return
	}
	if len(h.buf) > 0 {
		it := h.buf[0]
		h.buf = h.buf[1:]
		r.V, r.Ok = it.v, true
		if race {
			me.vc.join(it.vc)
			h.slots.join(me.vc)
			me.vc.tick(me.id)
		}
		if w := pop(&h.sendq); w != nil {
			w.done, w.ok = true, true
			w.idx = w.find(h, true)
			nit := item{v: w.sends[w.idx]}
			if race {
				nit.vc = w.g.vc.clone()
				w.vc = h.slots.clone()
			}
			h.buf = append(h.buf, nit)
		}
		return
	}
	if w := pop(&h.sendq); w != nil {
		w.done, w.ok = true, true
		w.idx = w.find(h, true)
		r.V, r.Ok = w.sends[w.idx], true
		if race {
			me.vc.join(w.g.vc)
			w.vc = me.vc.clone()
			me.vc.tick(me.id)
		}
		return
	}
	// closed
	if race {
		me.vc.join(h.vc)
	}
	return
}

// Select performs a select statement
func Select(def bool, cases ...Case) *Sel {
	s := S
	if s == nil {
		panic("vsched: channel operation outside an execution")
	}
	if s.aborting {
		runtime.Goexit()
	}
	g := s.cur
	Point("chan")
	var rd [32]int
	ready := rd[:0]
	for i := range cases {
		if cases[i].ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if def {
			return &Sel{I: -1}
		}
		w := &waiter{g: g, idx: -1}
		g.local = cases
		for i := range cases {
			c := &cases[i]
			w.sends = append(w.sends, c.v)
			if c.h == nil {
				continue
			}
			if c.send {
				c.h.sendq = append(c.h.sendq, w)
			} else {
				c.h.recvq = append(c.h.recvq, w)
			}
		}
		Block("chan op", func() bool { return w.done })
		g.local = nil
		if s.opts.Race {
			g.vc.join(w.vc)
			g.vc.tick(g.id)
		}
		i := w.idx
		if cases[i].send && !w.ok {
			panic("send on closed channel")
		}
		return &Sel{I: i, V: w.val, Ok: w.ok}
	}
	k := ready[Choose(len(ready))]
	r := cases[k].perform(k)
	return &r
}

// trySend used by timers: never blocks
func (h *hchan) trySend(v interface{}) {
	if w := pop(&h.recvq); w != nil {
		w.done, w.val, w.ok = true, v, true
		w.idx = w.find(h, false)
		return
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, item{v: v})
	}
}

// Seen numbers map keys in the order in which they are first used
func Seen[K any](k K) K {
	if S != nil {
		if _, ok := S.seen[any(k)]; !ok {
			S.seen[any(k)] = len(S.seen)
		}
	}
	return k
}

func (h *hchan) String() string {
	return fmt.Sprintf("len %d cap %d closed %v", len(h.buf), h.cap, h.closed)
}
