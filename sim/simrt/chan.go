package simrt

import (
	"fmt"
	"reflect"
)

// ChooseHook picks one of n alternatives that are ready.
var ChooseHook func(n int) int

func choose(n int) int {
	if n > 1 && ChooseHook != nil {
		return ChooseHook(n)
	}
	return 0
}

// selState is shared by the records of one waiting operation.
type selState struct {
	done   bool
	closed bool
	idx    int
}

type waiter[T any] struct {
	st  *selState
	idx int
	val T
	ok  bool
}

// Chan replaces channels.
type Chan[T any] struct {
	buf    []T
	n      int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
	vc     VClock
}

// MakeChan replaces make.
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.n = n[0]
	}
	return c
}

func (c *Chan[T]) hb() {
	c.vc.Acquire()
	c.vc.Release()
}

func first[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.st.done {
			return w
		}
	}
	return nil
}

func anyWaiting[T any](q []*waiter[T]) bool {
	for _, w := range q {
		if !w.st.done {
			return true
		}
	}
	return false
}

func (c *Chan[T]) sendReady() bool {
	return c != nil && (c.closed || len(c.buf) < c.n || anyWaiting(c.recvq))
}

func (c *Chan[T]) recvReady() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || anyWaiting(c.sendq))
}

// put sends; the channel is ready.
func (c *Chan[T]) put(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	c.hb()
	if w := first(&c.recvq); w != nil {
		w.val, w.ok = v, true
		w.st.done, w.st.idx = true, w.idx
		return
	}
	c.buf = append(c.buf, v)
}

// get receives; the channel is ready.
func (c *Chan[T]) get() (v T, ok bool) {
	c.hb()
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]T(nil), c.buf[1:]...)
		if w := first(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.st.done, w.st.idx = true, w.idx
		}
		return v, true
	}
	if w := first(&c.sendq); w != nil {
		w.st.done, w.st.idx = true, w.idx
		return w.val, true
	}
	return v, false
}

// Send replaces c <- v.
func (c *Chan[T]) Send(v T) {
	Select(false, c.SelSend(v))
}

// Recv replaces <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 replaces v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	s := c.SelRecv()
	Select(false, s)
	return s.Val, s.Ok
}

// Close replaces close.
func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.hb()
	c.closed = true
	for w := first(&c.recvq); w != nil; w = first(&c.recvq) {
		w.st.done, w.st.idx = true, w.idx
	}
	for w := first(&c.sendq); w != nil; w = first(&c.sendq) {
		w.st.done, w.st.closed = true, true
	}
}

// Len replaces len.
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap replaces cap.
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.n
}

// Case is an alternative of a select statement.
type Case interface {
	ready() bool
	fire()
	wait(st *selState, idx int)
	finish()
}

// RecvCase is case <-c.
type RecvCase[T any] struct {
	c   *Chan[T]
	w   *waiter[T]
	Val T
	Ok  bool
}

// SendCase is case c <- v.
type SendCase[T any] struct {
	c *Chan[T]
	v T
}

func (c *Chan[T]) SelRecv() *RecvCase[T]    { return &RecvCase[T]{c: c} }
func (c *Chan[T]) SelSend(v T) *SendCase[T] { return &SendCase[T]{c, v} }
func (s *RecvCase[T]) ready() bool          { return s.c.recvReady() }
func (s *SendCase[T]) ready() bool          { return s.c.sendReady() }
func (s *RecvCase[T]) fire()                { s.Val, s.Ok = s.c.get() }
func (s *SendCase[T]) fire()                { s.c.put(s.v) }
func (s *SendCase[T]) finish()              { s.c.hb() }
func (s *RecvCase[T]) finish()              { s.c.hb(); s.Val, s.Ok = s.w.val, s.w.ok }
func (s *RecvCase[T]) wait(st *selState, idx int) {
	if s.c != nil {
		s.w = &waiter[T]{st: st, idx: idx}
		s.c.recvq = append(s.c.recvq, s.w)
	}
}
func (s *SendCase[T]) wait(st *selState, idx int) {
	if s.c != nil {
		s.c.hb()
		s.c.sendq = append(s.c.sendq, &waiter[T]{st: st, idx: idx, val: s.v})
	}
}

// Select replaces the select statement; it returns the number of the alternative
// taken, -1 for the default.
func Select(def bool, cases ...Case) int {
	var r []int
	for i, c := range cases {
		if c.ready() {
			r = append(r, i)
		}
	}
	if len(r) > 0 {
		i := r[choose(len(r))]
		cases[i].fire()
		Sync()
		return i
	}
	if def {
		return -1
	}
	st := &selState{}
	for i, c := range cases {
		c.wait(st, i)
	}
	for !st.done {
		Block()
	}
	if st.closed {
		panic("send on closed channel")
	}
	cases[st.idx].finish()
	return st.idx
}

// GoCall replaces go f(args...).
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		switch {
		case ft.IsVariadic() && i >= ft.NumIn()-1:
			pt = ft.In(ft.NumIn() - 1).Elem()
		case i < ft.NumIn():
			pt = ft.In(i)
		default:
			panic(fmt.Sprint("simrt: too many arguments for ", ft))
		}
		v := reflect.ValueOf(a)
		switch {
		case !v.IsValid():
			v = reflect.Zero(pt)
		case !v.Type().AssignableTo(pt):
			v = v.Convert(pt)
		}
		in[i] = v
	}
	Go(func() { fv.Call(in) })
}
