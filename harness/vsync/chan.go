package vsync

import (
	"reflect"
	"sync/atomic"
	"time"
)

// Channel operations of the instrumented library go through this file. Under a controlled schedule
// an operation first tries the channel itself (which settles buffered and closed channels, and
// counterparts outside of the schedule); the rendezvous of an unbuffered channel is made here.

// Timers is set by a generated file when the library uses both channels and package time: a state
// in which nobody can proceed may then be left by a timer.
var Timers bool

// outside counts goroutines of the library that were started outside of a schedule and still run.
var outside int64

type waiter struct {
	done     bool
	idx      int
	v        interface{}
	ok       bool
	panicked interface{}
}

type slot struct {
	w   *waiter
	idx int
	v   interface{}
}

type chanModel struct{ send, recv []*slot }

// Case is one case of a select statement.
type Case struct {
	ch   reflect.Value
	send bool
	v    interface{}
	sv   reflect.Value
	try  func() (v interface{}, ok, done bool)
}

// CRecv is a case that receives.
func CRecv[T any](ch <-chan T) Case {
	return Case{ch: reflect.ValueOf(ch), try: func() (interface{}, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

// CSend is a case that sends.
func CSend[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{ch: reflect.ValueOf(ch), send: true, v: v, sv: reflect.ValueOf(&v).Elem(), try: func() (interface{}, bool, bool) {
			select {
			case ch <- v:
				return nil, true, true
			default:
				return nil, false, false
			}
		}}
	}
}

// As converts a received value.
func As[T any](_ <-chan T, v interface{}) T {
	x, _ := v.(T)
	return x
}

// Send replaces ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if active == nil {
			ySync()
			ch <- v
			return
		}
		Select(false, CSend(ch)(v))
	}
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if active == nil {
		ySync()
		v, ok := <-ch
		return v, ok
	}
	_, v, ok := Select(false, CRecv(ch))
	return As(ch, v), ok
}

// Select replaces a select statement; it returns the case that proceeded (-1: the default).
func Select(def bool, cs ...Case) (int, interface{}, bool) {
	s := ySync()
	if s == nil {
		return selectNative(def, cs)
	}
	if s.abort {
		panic(abortT{})
	}
	w := &waiter{}
	order := s.rng.Perm(len(cs))
	try := func() bool {
		if w.done {
			return true
		}
		for _, i := range order {
			if s.tryCase(w, i, cs[i]) {
				return true
			}
		}
		return false
	}
	if !try() {
		if def {
			return -1, nil, false
		}
		for i, c := range cs {
			if c.ch.IsNil() || c.ch.Cap() > 0 {
				continue
			}
			m := s.model(c.ch)
			sl := &slot{w, i, c.v}
			if c.send {
				m.send = append(m.send, sl)
			} else {
				m.recv = append(m.recv, sl)
			}
		}
		what := "select"
		if len(cs) == 1 {
			what = "a channel"
		}
		s.block(what, try)
		w.done = true // its slots are dead from here on
	}
	if w.panicked != nil {
		panic(w.panicked)
	}
	return w.idx, w.v, w.ok
}

func (s *sched) model(ch reflect.Value) *chanModel {
	if s.chans == nil {
		s.chans = map[uintptr]*chanModel{}
	}
	m := s.chans[ch.Pointer()]
	if m == nil {
		m = &chanModel{}
		s.chans[ch.Pointer()] = m
	}
	return m
}

// first drops dead slots and those of the same select from the front and returns the next one.
func first(q *[]*slot, not *waiter) *slot {
	live := (*q)[:0]
	for _, sl := range *q {
		if !sl.w.done {
			live = append(live, sl)
		}
	}
	*q = live
	for _, sl := range live {
		if sl.w != not {
			return sl
		}
	}
	return nil
}

func (s *sched) tryCase(w *waiter, i int, c Case) (did bool) {
	if c.ch.IsNil() {
		return false
	}
	defer func() {
		if r := recover(); r != nil { // a send on a closed channel
			w.done, w.idx, w.panicked = true, i, r
			did = true
		}
	}()
	if v, ok, done := c.try(); done {
		w.done, w.idx, w.v, w.ok = true, i, v, ok
		return true
	}
	if c.ch.Cap() > 0 {
		return false
	}
	m := s.model(c.ch)
	if c.send {
		if o := first(&m.recv, w); o != nil {
			o.w.done, o.w.idx, o.w.v, o.w.ok = true, o.idx, c.v, true
			w.done, w.idx, w.ok = true, i, true
			return true
		}
		return false
	}
	if o := first(&m.send, w); o != nil {
		o.w.done, o.w.idx, o.w.ok = true, o.idx, true
		w.done, w.idx, w.v, w.ok = true, i, o.v, true
		return true
	}
	return false
}

func selectNative(def bool, cs []Case) (int, interface{}, bool) {
	var rs []reflect.SelectCase
	for _, c := range cs {
		if c.send {
			rs = append(rs, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.ch, Send: c.sv})
		} else {
			rs = append(rs, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.ch})
		}
	}
	if def {
		rs = append(rs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rs)
	if i >= len(cs) {
		return -1, nil, false
	}
	if !cs[i].send && v.IsValid() && v.CanInterface() {
		return i, v.Interface(), ok
	}
	return i, nil, ok
}

// quiet waits for goroutines started outside of the schedule to end.
func quiet() bool {
	for i := 0; i < 100; i++ {
		if atomic.LoadInt64(&outside) == 0 {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}
