package verifsim

import (
	"runtime"
	"unsafe"
)

// Channels: a real channel is only the identity (and capacity) of a modelled channel. While a simulation is
// active no value ever passes through the real channel, except for channels owned by uninstrumented code
// (contexts, timers), which are polled.

type syncPt struct{ x int64 }

type chItem struct {
	box unsafe.Pointer
	syn *syncPt
}

type waitTok struct {
	fired  bool
	idx    int
	ok     bool
	box    unsafe.Pointer
	syn    *syncPt // partner's release
	back   *syncPt // released by the partner when it completed the exchange
	closed bool
}

type waiter struct {
	g   *G
	tok *waitTok
	idx int
	box unsafe.Pointer
	syn *syncPt
}

type foreignW struct {
	w    waiter
	poll func() (unsafe.Pointer, bool, bool)
}

// pollForeign re-tries the real channels that blocked goroutines wait for (channels owned by uninstrumented code).
func (s *Sched) pollForeign() bool {
	any := false
	out := s.foreign[:0]
	for _, f := range s.foreign {
		if f.w.tok.fired {
			continue
		}
		if b, ok, done := f.poll(); done {
			f.w.tok.fired, f.w.tok.idx, f.w.tok.ok, f.w.tok.box = true, f.w.idx, ok, b
			s.ready(f.w.g)
			any = true
			continue
		}
		out = append(out, f)
	}
	s.foreign = out
	return any
}

type chanS struct {
	id           int
	key          unsafe.Pointer
	keep         interface{}
	cap          int
	buf          []chItem
	slots        []*syncPt // per-slot synchronisation, as in the Go runtime
	sendx, recvx int
	recvq        []waiter
	sendq        []waiter
	closed       bool
	closeSyn     syncPt
}

// chanTable is a small open-addressing hash table (no Go map: the runtime's map code reports accesses to the race
// detector even from uninstrumented packages).
type chanTable struct {
	tab []*chanS
	n   int
}

func (t *chanTable) init() { t.tab = make([]*chanS, 64) }

func hashPtr(p unsafe.Pointer) uintptr {
	x := uintptr(p)
	x ^= x >> 15
	x *= 0x9E3779B97F4A7C15 >> 1
	x ^= x >> 21
	return x
}

func (t *chanTable) get(p unsafe.Pointer, c int, keep interface{}) *chanS {
	mask := uintptr(len(t.tab) - 1)
	for i := hashPtr(p) & mask; ; i = (i + 1) & mask {
		e := t.tab[i]
		if e == nil {
			if t.n*2 >= len(t.tab) {
				old := t.tab
				t.tab = make([]*chanS, 2*len(old))
				m := uintptr(len(t.tab) - 1)
				for _, o := range old {
					if o != nil {
						j := hashPtr(o.key) & m
						for t.tab[j] != nil {
							j = (j + 1) & m
						}
						t.tab[j] = o
					}
				}
				return t.get(p, c, keep)
			}
			e = &chanS{id: t.n, key: p, keep: keep, cap: c}
			for k := 0; k < c && k < 4096; k++ {
				if !RaceEnabled {
					break
				}
				e.slots = append(e.slots, new(syncPt))
			}
			t.tab[i] = e
			t.n++
			return e
		}
		if e.key == p {
			return e
		}
	}
}

func (c *chanS) slotTouch(i int) {
	if RaceEnabled && len(c.slots) > 0 {
		p := unsafe.Pointer(c.slots[i%len(c.slots)])
		RaceAcquire(p)
		RaceRelease(p)
	}
}

func popWaiter(q *[]waiter) (waiter, bool) {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = append((*q)[:0], (*q)[1:]...)
		if !w.tok.fired {
			return w, true
		}
	}
	return waiter{}, false
}

// trySend attempts the operation without blocking.
func (s *Sched) trySend(c *chanS, box unsafe.Pointer) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w, ok := popWaiter(&c.recvq); ok {
		syn := new(syncPt)
		RaceRelease(unsafe.Pointer(syn))
		w.tok.fired, w.tok.idx, w.tok.ok, w.tok.box, w.tok.syn = true, w.idx, true, box, syn
		if c.cap == 0 {
			RaceAcquire(unsafe.Pointer(w.syn))
		} else {
			c.slotTouch(c.sendx)
			c.sendx++
			c.recvx++
		}
		s.ready(w.g)
		return true
	}
	if len(c.buf) < c.cap {
		c.slotTouch(c.sendx)
		c.sendx++
		syn := (*syncPt)(nil)
		if RaceEnabled {
			syn = new(syncPt)
			RaceRelease(unsafe.Pointer(syn))
		}
		c.buf = append(c.buf, chItem{box, syn})
		return true
	}
	return false
}

// tryRecv attempts the operation without blocking.
func (s *Sched) tryRecv(c *chanS) (box unsafe.Pointer, ok, done bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf[0] = chItem{}
		c.buf = c.buf[1:]
		c.slotTouch(c.recvx)
		c.recvx++
		if it.syn != nil {
			RaceAcquire(unsafe.Pointer(it.syn))
		}
		if w, ok := popWaiter(&c.sendq); ok {
			back := new(syncPt)
			RaceRelease(unsafe.Pointer(back))
			c.buf = append(c.buf, chItem{w.box, w.syn})
			c.sendx++
			w.tok.fired, w.tok.idx, w.tok.ok, w.tok.back = true, w.idx, true, back
			s.ready(w.g)
		}
		return it.box, true, true
	}
	if w, ok := popWaiter(&c.sendq); ok { // unbuffered hand-over
		back := new(syncPt)
		RaceRelease(unsafe.Pointer(back))
		RaceAcquire(unsafe.Pointer(w.syn))
		w.tok.fired, w.tok.idx, w.tok.ok, w.tok.back = true, w.idx, true, back
		s.ready(w.g)
		return w.box, true, true
	}
	if c.closed {
		RaceAcquire(unsafe.Pointer(&c.closeSyn))
		return nil, false, true
	}
	return nil, false, false
}

func (s *Sched) send(c *chanS, box unsafe.Pointer) {
	if s.cur.killed {
		return
	}
	s.point("send")
	s.Log("send", "", c.id, len(c.buf))
	if s.trySend(c, box) {
		return
	}
	tok := &waitTok{}
	syn := new(syncPt)
	RaceRelease(unsafe.Pointer(syn))
	c.sendq = append(c.sendq, waiter{s.cur, tok, 0, box, syn})
	for !tok.fired {
		s.block("sending on a channel")
		if Killed() {
			return
		}
	}
	if tok.closed {
		panic("send on closed channel")
	}
	if tok.back != nil {
		RaceAcquire(unsafe.Pointer(tok.back))
	}
}

func (s *Sched) recv(c *chanS, poll func() (unsafe.Pointer, bool, bool)) (unsafe.Pointer, bool) {
	if s.cur.killed {
		return nil, false
	}
	s.point("recv")
	s.Log("recv", "", c.id, len(c.buf))
	if b, ok, done := s.tryRecv(c); done {
		return b, ok
	}
	if b, ok, done := poll(); done {
		return b, ok
	}
	tok := &waitTok{}
	syn := new(syncPt)
	RaceRelease(unsafe.Pointer(syn))
	c.recvq = append(c.recvq, waiter{s.cur, tok, 0, nil, syn})
	s.addForeign(waiter{s.cur, tok, 0, nil, syn}, poll)
	for !tok.fired {
		s.block("receiving from a channel")
		if Killed() {
			return nil, false
		}
	}
	if tok.syn != nil {
		RaceAcquire(unsafe.Pointer(tok.syn))
	}
	if tok.closed {
		RaceAcquire(unsafe.Pointer(&c.closeSyn))
	}
	return tok.box, tok.ok
}

func (s *Sched) addForeign(w waiter, poll func() (unsafe.Pointer, bool, bool)) {
	if len(s.foreign) > 256 {
		out := s.foreign[:0]
		for _, f := range s.foreign {
			if !f.w.tok.fired {
				out = append(out, f)
			}
		}
		s.foreign = out
	}
	s.foreign = append(s.foreign, foreignW{w, poll})
}

func (s *Sched) closeCh(c *chanS) {
	if s.cur.killed {
		return
	}
	s.point("close")
	s.Log("close", "", c.id, len(c.buf))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.closeSyn))
	for {
		w, ok := popWaiter(&c.recvq)
		if !ok {
			break
		}
		w.tok.fired, w.tok.idx, w.tok.ok, w.tok.closed = true, w.idx, false, true
		s.ready(w.g)
	}
	for {
		w, ok := popWaiter(&c.sendq)
		if !ok {
			break
		}
		w.tok.fired, w.tok.idx, w.tok.closed = true, w.idx, true
		s.ready(w.g)
	}
}

func chanKey[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// SendTo returns the send operation on ch (the rewritten ch <- v is SendTo(ch)(v)).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !active {
			ch <- v
			return
		}
		b := new(T)
		*b = v
		doSend(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch, unsafe.Pointer(b))
	}
}

//go:noinline
func doSend(key unsafe.Pointer, c int, keep interface{}, b unsafe.Pointer) {
	s := sch
	if key == nil {
		s.block("sending on a nil channel")
		return
	}
	s.send(s.chans.get(key, c, keep), b)
}

//go:noinline
func doRecv(key unsafe.Pointer, c int, keep interface{}, poll func() (unsafe.Pointer, bool, bool)) (unsafe.Pointer, bool) {
	s := sch
	if key == nil {
		s.block("receiving from a nil channel")
		return nil, false
	}
	return s.recv(s.chans.get(key, c, keep), poll)
}

//go:noinline
func doClose(key unsafe.Pointer, c int, keep interface{}) {
	s := sch
	if key == nil {
		panic("close of nil channel")
	}
	s.closeCh(s.chans.get(key, c, keep))
}

func pollReal[T any](ch <-chan T) func() (unsafe.Pointer, bool, bool) {
	return func() (unsafe.Pointer, bool, bool) {
		select {
		case v, ok := <-ch:
			b := new(T)
			*b = v
			return unsafe.Pointer(b), ok, true
		default:
			return nil, false, false
		}
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !active {
		v, ok := <-ch
		return v, ok
	}
	b, ok := doRecv(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch, pollReal(ch))
	if b == nil {
		var zero T
		return zero, ok
	}
	return *(*T)(b), ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// RangeChan starts a rewritten range loop over a channel.
func RangeChan[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if !active {
		close(ch)
		return
	}
	doClose(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
}

// Cap is cap(ch).
func Cap[T any](ch <-chan T) int { return cap(ch) }

// Len is the number of elements in a channel.
func Len[T any](ch <-chan T) int {
	if !active {
		return len(ch)
	}
	return doLen(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch) + len(ch)
}

//go:noinline
func doLen(key unsafe.Pointer, c int, keep interface{}) int {
	if key == nil {
		return 0
	}
	return len(sch.chans.get(key, c, keep).buf)
}

// Sel is one case of a rewritten select.
type Sel interface{ sel() *selCase }

type selCase struct {
	key  unsafe.Pointer
	cap  int
	keep interface{}
	send bool
	box  unsafe.Pointer
	ok   bool
	poll func() (unsafe.Pointer, bool, bool)
	real func() bool // non-blocking real operation for passthrough mode
}

// SelRecvCase is a receive case.
type SelRecvCase[T any] struct{ c selCase }

func (r *SelRecvCase[T]) sel() *selCase { return &r.c }

// Get returns the received value.
func (r *SelRecvCase[T]) Get() (T, bool) {
	if r.c.box == nil {
		var zero T
		return zero, r.c.ok
	}
	return *(*T)(r.c.box), r.c.ok
}

// V returns the received value.
func (r *SelRecvCase[T]) V() T { v, _ := r.Get(); return v }

// SelRecv makes a receive case.
func SelRecv[T any](ch <-chan T) *SelRecvCase[T] {
	r := &SelRecvCase[T]{}
	r.c = selCase{key: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), keep: ch, poll: pollReal(ch)}
	r.c.real = func() bool {
		select {
		case v, ok := <-ch:
			b := new(T)
			*b = v
			r.c.box, r.c.ok = unsafe.Pointer(b), ok
			return true
		default:
			return false
		}
	}
	return r
}

// SelSendCase is a send case.
type SelSendCase struct{ c selCase }

func (r *SelSendCase) sel() *selCase { return &r.c }

// SelSend makes a send case: SelSend(ch)(v).
func SelSend[T any](ch chan<- T) func(T) *SelSendCase {
	return func(v T) *SelSendCase {
		b := new(T)
		*b = v
		r := &SelSendCase{c: selCase{key: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), keep: ch, send: true, box: unsafe.Pointer(b)}}
		r.c.real = func() bool {
			select {
			case ch <- v:
				return true
			default:
				return false
			}
		}
		return r
	}
}

// Select is the rewritten select statement; it returns the index of the chosen case or -1 for default.
//
//go:noinline
func Select(hasDefault bool, cases ...Sel) int {
	cs := make([]*selCase, len(cases))
	for i, c := range cases {
		cs[i] = c.sel()
	}
	if !active {
		for {
			for i, c := range cs {
				if c.key != nil && c.real() {
					return i
				}
			}
			if hasDefault {
				return -1
			}
			Sleep(1000)
		}
	}
	s := sch
	if s.cur.killed {
		runtime.Goexit()
	}
	s.point("select")
	s.Log("select", "", len(cs), 0)
	// the runtime picks a ready case at random
	start := s.Src.Env(len(cs)+1, nil)
	for k := range cs {
		i := (start + k) % len(cs)
		c := cs[i]
		if c.key == nil {
			continue
		}
		ch := s.chans.get(c.key, c.cap, c.keep)
		if c.send {
			if s.trySend(ch, c.box) {
				return i
			}
		} else {
			if b, ok, done := s.tryRecv(ch); done {
				c.box, c.ok = b, ok
				return i
			}
			if b, ok, done := c.poll(); done {
				c.box, c.ok = b, ok
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	tok := &waitTok{}
	for i, c := range cs {
		if c.key == nil {
			continue
		}
		ch := s.chans.get(c.key, c.cap, c.keep)
		syn := new(syncPt)
		RaceRelease(unsafe.Pointer(syn))
		if c.send {
			ch.sendq = append(ch.sendq, waiter{s.cur, tok, i, c.box, syn})
		} else {
			ch.recvq = append(ch.recvq, waiter{s.cur, tok, i, nil, syn})
			s.addForeign(waiter{s.cur, tok, i, nil, syn}, c.poll)
		}
	}
	for !tok.fired {
		s.block("select")
		if Killed() {
			runtime.Goexit()
		}
	}
	c := cs[tok.idx]
	if c.send {
		if tok.closed {
			panic("send on closed channel")
		}
		if tok.back != nil {
			RaceAcquire(unsafe.Pointer(tok.back))
		}
	} else {
		if tok.syn != nil {
			RaceAcquire(unsafe.Pointer(tok.syn))
		}
		if tok.closed {
			RaceAcquire(unsafe.Pointer(&s.chans.get(c.key, c.cap, c.keep).closeSyn))
		}
		c.box, c.ok = tok.box, tok.ok
	}
	return tok.idx
}

// Block is select{}.
func Block() {
	if !active {
		select {}
	}
	for !Killed() {
		sch.block("select{}")
	}
}
