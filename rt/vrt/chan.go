package vrt

import (
	"reflect"
	"unsafe"
)

type item struct {
	v  any
	vc [maxT]uint32
}

type waiter struct {
	t   *thread
	v   any
	sel *selToken
	idx int
}

type selToken struct{ done bool }

// model of a channel; the real channel is only its identity
type mchan struct {
	keep   any
	cap    int
	buf    []item
	sendq  []waiter
	recvq  []waiter
	closed bool
	cvc    [maxT]uint32 // closer / slot releases
}

func chanID[T any](ch chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func mch[T any](ch chan T) *mchan {
	id := chanID(ch)
	m := ex.chans[id]
	if m == nil {
		m = &mchan{keep: ch, cap: cap(ch)}
		ex.chans[id] = m
	}
	return m
}

// MakeChan is the instrumented make(chan T, n).
func MakeChan[T any, I integer](n I) chan T {
	ch := make(chan T, n)
	if cur != nil {
		ex.chansMade++
		mch(ch)
	}
	return ch
}

func (m *mchan) popRecv() (w waiter, ok bool) {
	for len(m.recvq) > 0 {
		w = m.recvq[0]
		m.recvq = m.recvq[1:]
		if w.sel == nil || !w.sel.done {
			if w.sel != nil {
				w.sel.done = true
			}
			return w, true
		}
	}
	return
}

func (m *mchan) popSend() (w waiter, ok bool) {
	for len(m.sendq) > 0 {
		w = m.sendq[0]
		m.sendq = m.sendq[1:]
		if w.sel == nil || !w.sel.done {
			if w.sel != nil {
				w.sel.done = true
			}
			return w, true
		}
	}
	return
}

func live(q []waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.done {
			return true
		}
	}
	return false
}

func (m *mchan) canSend() bool { return m.closed || live(m.recvq) || len(m.buf) < m.cap }
func (m *mchan) canRecv() bool { return m.closed || live(m.sendq) || len(m.buf) > 0 }

func tick(t *thread) { t.vc[t.slot]++ }

// meet: both threads synchronize with each other (unbuffered hand-over)
func meet(a, b *thread) {
	joinV(&a.vc, &b.vc)
	b.vc = orOwn(b, a)
	tick(a)
	tick(b)
}

func orOwn(b, a *thread) [maxT]uint32 {
	v := b.vc
	joinV(&v, &a.vc)
	return v
}

// doSend performs a possible send by the current thread
func (m *mchan) doSend(v any) {
	t := cur
	if m.closed {
		panic("send on closed channel")
	}
	if w, ok := m.popRecv(); ok {
		w.t.val, w.t.ok, w.t.selIdx = v, true, w.idx
		if m.cap == 0 {
			meet(t, w.t)
		} else {
			joinV(&w.t.vc, &t.vc)
			tick(t)
		}
		ex.wakeup(w.t)
		return
	}
	joinV(&t.vc, &m.cvc)
	m.buf = append(m.buf, item{v, t.vc})
	tick(t)
}

func (m *mchan) doRecv() (any, bool) {
	t := cur
	if len(m.buf) > 0 {
		it := m.buf[0]
		m.buf = m.buf[1:]
		joinV(&t.vc, &it.vc)
		joinV(&m.cvc, &t.vc)
		tick(t)
		if w, ok := m.popSend(); ok {
			joinV(&w.t.vc, &t.vc)
			m.buf = append(m.buf, item{w.v, w.t.vc})
			tick(w.t)
			w.t.ok, w.t.selIdx = true, w.idx
			ex.wakeup(w.t)
		}
		return it.v, true
	}
	if w, ok := m.popSend(); ok {
		meet(t, w.t)
		w.t.ok, w.t.selIdx = true, w.idx
		ex.wakeup(w.t)
		return w.v, true
	}
	// closed
	joinV(&t.vc, &m.cvc)
	return nil, false
}

func chop(name string, id uintptr) op {
	return mkop(name, id, kWrite)
}

func blockForever() {
	for {
		block("nil channel")
	}
}

func Send[T any](ch chan<- T, v T) {
	if cur == nil {
		ch <- v
		return
	}
	c := *(*chan T)(unsafe.Pointer(&ch))
	if c == nil {
		blockForever()
	}
	point(chop("send", chanID(c)))
	m := mch(c)
	if m.canSend() {
		m.doSend(v)
		return
	}
	t := cur
	t.ok = false
	m.sendq = append(m.sendq, waiter{t: t, v: v})
	block("channel send")
	if !t.ok {
		panic("send on closed channel")
	}
}

func Recv2[T any](ch <-chan T) (r T, ok bool) {
	if cur == nil {
		r, ok = <-ch
		return
	}
	c := *(*chan T)(unsafe.Pointer(&ch))
	if c == nil {
		blockForever()
	}
	point(chop("recv", chanID(c)))
	m := mch(c)
	var v any
	if m.canRecv() {
		v, ok = m.doRecv()
	} else {
		t := cur
		m.recvq = append(m.recvq, waiter{t: t})
		block("channel receive")
		v, ok = t.val, t.ok
		t.val = nil
	}
	if v != nil {
		r = v.(T)
	}
	return
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Close[T any](ch chan<- T) {
	if cur == nil {
		close(ch)
		return
	}
	c := *(*chan T)(unsafe.Pointer(&ch))
	if c == nil {
		panic("close of nil channel")
	}
	point(chop("close", chanID(c)))
	m := mch(c)
	if m.closed {
		panic("close of closed channel")
	}
	m.closed = true
	t := cur
	joinV(&m.cvc, &t.vc)
	for {
		w, ok := m.popRecv()
		if !ok {
			break
		}
		w.t.val, w.t.ok, w.t.selIdx = nil, false, w.idx
		joinV(&w.t.vc, &t.vc)
		ex.wakeup(w.t)
	}
	for {
		w, ok := m.popSend()
		if !ok {
			break
		}
		w.t.ok, w.t.selIdx = false, w.idx
		ex.wakeup(w.t)
	}
	tick(t)
}

func ChanLen[T any](ch chan T) int {
	if cur == nil || ch == nil {
		return len(ch)
	}
	point(mkop("chanlen", chanID(ch), kRead))
	return len(mch(ch).buf)
}

// Case of a select statement.
type Case struct {
	id   uintptr
	m    func() *mchan
	send bool
	v    any
	rc   reflect.Value
}

func SendCase[T any](ch chan<- T, v T) Case {
	c := *(*chan T)(unsafe.Pointer(&ch))
	return Case{id: chanID(c), m: func() *mchan { return mch(c) }, send: true, v: v, rc: reflect.ValueOf(c)}
}

func RecvCase[T any](ch <-chan T) Case {
	c := *(*chan T)(unsafe.Pointer(&ch))
	return Case{id: chanID(c), m: func() *mchan { return mch(c) }, rc: reflect.ValueOf(c)}
}

// To converts a received value.
func To[T any](ch <-chan T, v any) (r T) {
	if v != nil {
		r = v.(T)
	}
	return
}

// Select runs a select statement; returns the case (-1: default).
func Select(def bool, cs ...Case) (int, any, bool) {
	if cur == nil {
		var rs []reflect.SelectCase
		for _, c := range cs {
			if c.send {
				rs = append(rs, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.rc, Send: reflect.ValueOf(c.v)})
			} else {
				rs = append(rs, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.rc})
			}
		}
		if def {
			rs = append(rs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rs)
		if i == len(cs) {
			return -1, nil, false
		}
		if v.IsValid() {
			return i, v.Interface(), ok
		}
		return i, nil, ok
	}
	o := op{name: "select"}
	o.more = []touch{}
	for _, c := range cs {
		if c.id != 0 {
			o.more = append(o.more, touch{c.id, kWrite})
		}
	}
	point(o)
	var can []int
	for i, c := range cs {
		if c.id == 0 {
			continue
		}
		m := c.m()
		if c.send && m.canSend() || !c.send && m.canRecv() {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		i := can[Choose(len(can))]
		m := cs[i].m()
		if cs[i].send {
			m.doSend(cs[i].v)
			return i, nil, true
		}
		v, ok := m.doRecv()
		return i, v, ok
	}
	if def {
		return -1, nil, false
	}
	t := cur
	tok := &selToken{}
	t.sel = tok
	for i, c := range cs {
		if c.id == 0 {
			continue
		}
		m := c.m()
		w := waiter{t: t, v: c.v, sel: tok, idx: i}
		if c.send {
			m.sendq = append(m.sendq, w)
		} else {
			m.recvq = append(m.recvq, w)
		}
	}
	t.ok = false
	block("select")
	i := t.selIdx
	v, ok := t.val, t.ok
	t.val = nil
	if cs[i].send && !ok {
		panic("send on closed channel")
	}
	return i, v, ok
}
