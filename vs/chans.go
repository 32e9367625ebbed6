package vs

import (
	"unsafe"
)

type chanState struct {
	taken  int // when a select with several ready cases last took it, or when it was first seen
	ref    any
	closed bool
	stash  []any // values received by polling
	nat    bool  // closed natively, seen by polling
	ns, nr int   // pending send and receive cases
}

// enlist counts the pending cases per channel.
func (o *op) enlist(d int) {
	for _, c := range o.cases {
		if c.st == nil {
			continue
		}
		if c.send {
			c.st.ns += d
		} else {
			c.st.nr += d
		}
	}
}

type selCase struct {
	send  bool
	id    uintptr // 0: nil channel
	st    *chanState
	clen  func() int
	ccap  int
	poll  func() (v any, got, closed bool) // receive only: non-blocking native receive
	put   func()                           // send: native send (must succeed)
	val   func() any                       // send: the value
	set   func(v any, ok bool)             // recv: deliver
	owner *op
	th    *thread
}

func chanID[T any](ch <-chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func (x *Exec) state(id uintptr, ref any) *chanState {
	s := x.chans[id]
	if s == nil {
		s = &chanState{ref: ref, taken: x.nextStamp()}
		x.chans[id] = s
	}
	return s
}

// partner finds a waiting operation of the opposite direction on an unbuffered channel.
func (c *selCase) partner() *selCase {
	if c.send && c.st.nr == 0 || !c.send && c.st.ns == 0 {
		return nil
	}
	for _, t := range cx.threads {
		if t.done || t.op == nil || t.op == c.owner || t.op.done || t.op.cases == nil {
			continue
		}
		for _, d := range t.op.cases {
			if d.id == c.id && d.send != c.send {
				d.th = t
				return d
			}
		}
	}
	return nil
}

func (c *selCase) ready() bool {
	if c.id == 0 {
		return false
	}
	if c.send {
		if c.st.closed || c.st.nat {
			return true
		}
		if c.ccap > 0 {
			return c.clen() < c.ccap
		}
		return c.partner() != nil
	}
	if c.clen() > 0 || c.st.closed || c.st.nat || len(c.st.stash) > 0 {
		return true
	}
	if c.ccap == 0 {
		if c.partner() != nil {
			return true
		}
	}
	v, got, closed := c.poll()
	if got {
		c.st.stash = append(c.st.stash, v)
		return true
	}
	if closed {
		c.st.nat = true
		return true
	}
	return false
}

// commit performs the channel operation of t.
func (x *Exec) commit(t *thread) {
	o := t.op
	var rdy []int
	for i, c := range o.cases {
		if c.ready() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) == 0 {
		o.sel = -1
		return
	}
	k := 0
	if len(rdy) > 1 {
		// fair by default: the channel a select took least recently comes first
		for i, r := range rdy {
			if o.cases[r].st.taken < o.cases[rdy[0]].st.taken {
				copy(rdy[1:i+1], rdy[:i])
				rdy[0] = r
			}
		}
		if x.cfg.SelOrder {
			k = x.decide(len(rdy), 'd')
		}
		o.cases[rdy[k]].st.taken = x.nextStamp()
	}
	o.sel = rdy[k]
	c := o.cases[o.sel]
	if c.send {
		if c.st.closed || c.st.nat {
			return // native send panics in the thread
		}
		if c.ccap > 0 {
			return // native send in the thread
		}
		d := c.partner()
		d.set(c.val(), true)
		d.complete()
		return
	}
	// receive
	if len(c.st.stash) > 0 {
		v := c.st.stash[0]
		c.st.stash = c.st.stash[1:]
		c.set(v, true)
		return
	}
	if c.ccap == 0 && !c.st.closed && !c.st.nat {
		if d := c.partner(); d != nil {
			c.set(d.val(), true)
			d.complete()
			return
		}
	}
	v, got, _ := c.poll()
	if got {
		c.set(v, true)
	} else {
		c.set(nil, false)
	}
}

func (d *selCase) complete() {
	o := d.owner
	for i, c := range o.cases {
		if c == d {
			o.sel = i
		}
	}
	o.done = true
}

// RCase is a receive case.
type RCase[T any] struct {
	selCase
	V  T
	OK bool
}

// Case of a select statement.
type Case interface{ base() *selCase }

func (c *RCase[T]) base() *selCase { return &c.selCase }

// SCase is a send case.
type SCase[T any] struct {
	selCase
	ch chan<- T
	v  T
}

func (c *SCase[T]) base() *selCase { return &c.selCase }

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *RCase[T] {
	c := &RCase[T]{}
	c.id = chanID(ch)
	if c.id == 0 {
		return c
	}
	if cx != nil {
		c.st = cx.state(c.id, ch)
	}
	c.ccap = cap(ch)
	c.clen = func() int { return len(ch) }
	c.poll = func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, !ok
		default:
			return nil, false, false
		}
	}
	c.set = func(v any, ok bool) {
		if v != nil {
			c.V = v.(T)
		}
		c.OK = ok
	}
	return c
}

// SendCase makes a send case.
func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] {
		c := &SCase[T]{ch: ch, v: v}
		c.send = true
		c.id = uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		if c.id == 0 {
			return c
		}
		if cx != nil {
			c.st = cx.state(c.id, ch)
		}
		c.ccap = cap(ch)
		c.clen = func() int { return len(ch) }
		c.val = func() any { return c.v }
		c.put = func() { ch <- v }
		return c
	}
}

// Select executes a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	if !Active() {
		panic("vs: select outside the scheduler")
	}
	o := &op{kind: "select", deflt: hasDefault, cases: make([]*selCase, len(cases))}
	for i, c := range cases {
		b := c.base()
		b.owner = o
		o.cases[i] = b
	}
	if len(cases) == 0 {
		if hasDefault {
			Point("select")
			return -1
		}
		Block("select{}", nil, func() bool { return false })
	}
	return doSel(o)
}

func doSel(o *op) int {
	point(o)
	if o.sel >= 0 && !o.done {
		c := o.cases[o.sel]
		if c.send && (c.ccap > 0 || c.st.closed || c.st.nat) {
			if c.st.closed || c.st.nat {
				panic("send on closed channel")
			}
			c.put()
		}
	}
	return o.sel
}

// SendTo is the send statement.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		c := SendCase(ch)(v)
		o := &op{kind: "send", cases: []*selCase{&c.selCase}}
		c.owner = o
		doSel(o)
	}
}

// Recv is the receive expression.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the receive expression with ok.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	c := RecvCase(ch)
	o := &op{kind: "recv", cases: []*selCase{&c.selCase}}
	c.owner = o
	doSel(o)
	return c.V, c.OK
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	relPoint("close", nil)
	id := uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	close(ch) // panics as the original would
	if cx != nil {
		cx.state(id, ch).closed = true
	}
}

// TrySend is a non-blocking native send usable from timer callbacks.
func TrySend[T any](ch chan T, v T) bool {
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}
