package vsync

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/bobg/fab/zzverif/nd"
)

// A shadow holds who waits on a channel. Buffered values are in the channel
// itself, so that values sent by and to libraries are seen.
type shadow struct {
	ch     any // keeps the channel, and so its address
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

type waiter struct {
	val  any
	ok   bool
	done bool
	sel  *sel
	idx  int
}

type sel struct {
	fired bool
	idx   int
	val   any
	ok    bool
}

var shadows = map[uintptr]*shadow{}

func shadowOf(ch any) *shadow {
	p := reflect.ValueOf(ch).Pointer()
	s := shadows[p]
	if s == nil {
		s = &shadow{ch: ch}
		shadows[p] = s
	}
	return s
}

// take removes the first live waiter of a queue and marks it as served.
func take(q *[]*waiter, val any, ok bool) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done {
			continue
		}
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, val, ok
		}
		w.done = true
		return w
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if !w.done && (w.sel == nil || !w.sel.fired) {
			return true
		}
	}
	return false
}

func trySend[T any](c chan<- T, v T) bool {
	s := shadowOf(c)
	if w := take(&s.recvq, v, true); w != nil {
		w.val, w.ok = v, true
		return true
	}
	select {
	case c <- v:
		return true
	default:
		return false
	}
}

// tryRecv returns the value, whether it was sent, and whether there was one.
func tryRecv[T any](c <-chan T) (v T, ok, got bool) {
	s := shadowOf(c)
	select {
	case v, ok = <-c:
		if ok {
			if w := take(&s.sendq, nil, true); w != nil {
				w.ok = true
				w.val.(sending).push()
			}
		}
		return v, ok, true
	default:
	}
	if w := take(&s.sendq, nil, true); w != nil {
		w.ok = true
		v, _ = w.val.(sending).value().(T)
		return v, true, true
	}
	return v, false, false
}

// sending is what a sender waits with.
type sending interface {
	value() any
	push()
}

// Send sends on a channel.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		yield("send")
		if c == nil {
			block("send on nil channel", never)
		}
		if trySend(c, v) {
			return
		}
		s := shadowOf(c)
		w := &waiter{}
		w.val = pending[T]{c, v}
		s.sendq = append(s.sendq, w)
		block("send", func() bool { return w.done })
		if !w.ok {
			panic("send on closed channel")
		}
	}
}

func never() bool { return false }

type pending[T any] struct {
	c chan<- T
	v T
}

func (p pending[T]) value() any { return p.v }
func (p pending[T]) push()      { p.c <- p.v }

// Recv2 receives from a channel.
func Recv2[T any](c <-chan T) (T, bool) {
	yield("receive")
	if c == nil {
		block("receive from nil channel", never)
	}
	if v, ok, got := tryRecv(c); got {
		return v, ok
	}
	s := shadowOf(c)
	w := &waiter{}
	s.recvq = append(s.recvq, w)
	block("receive", func() bool {
		if !w.done {
			if v, ok, got := poll(c); got {
				w.val, w.ok, w.done = v, ok, true
			}
		}
		return w.done
	})
	v, _ := w.val.(T)
	return v, w.ok
}

// poll receives what a library sent on a channel.
func poll[T any](c <-chan T) (v T, ok, got bool) {
	select {
	case v, ok = <-c:
		return v, ok, true
	default:
		return v, false, false
	}
}

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	if c == nil {
		close(c)
	}
	yield("close")
	close(c) // panics if it is closed
	s := shadowOf(c)
	s.closed = true
	for {
		w := take(&s.recvq, nil, false)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
	}
	for {
		w := take(&s.sendq, nil, false)
		if w == nil {
			break
		}
		w.ok = false
	}
}

// A Case is a case of a select statement.
type Case interface {
	ready() bool
	fire()
	wait(*sel, int)
	poll(*sel, int)
	finish(*sel)
}

// RecvCase is a receiving case.
type RecvCase[T any] struct {
	c  <-chan T
	v  T
	ok bool
}

// R makes a receiving case.
func R[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

// V is the value received.
func (r *RecvCase[T]) V() T { return r.v }

// V2 is the value received and whether it was sent.
func (r *RecvCase[T]) V2() (T, bool) { return r.v, r.ok }

func (r *RecvCase[T]) ready() bool {
	if r.c == nil {
		return false
	}
	if len(r.c) > 0 || live(shadowOf(r.c).sendq) {
		return true
	}
	// Closed, or something from a library: keep what there is.
	if v, ok, got := poll(r.c); got {
		if ok {
			s := shadowOf(r.c)
			s.sendq = append([]*waiter{{val: kept[T]{v}}}, s.sendq...)
		}
		return true
	}
	return false
}

type kept[T any] struct{ v T }

func (k kept[T]) value() any { return k.v }
func (k kept[T]) push()      {}

func (r *RecvCase[T]) fire() { r.v, r.ok, _ = tryRecv(r.c) }
func (r *RecvCase[T]) wait(s *sel, i int) {
	if r.c != nil {
		sh := shadowOf(r.c)
		sh.recvq = append(sh.recvq, &waiter{sel: s, idx: i})
	}
}
func (r *RecvCase[T]) poll(s *sel, i int) {
	if r.c == nil || s.fired {
		return
	}
	if v, ok, got := poll(r.c); got {
		s.fired, s.idx, s.val, s.ok = true, i, v, ok
	}
}
func (r *RecvCase[T]) finish(s *sel) {
	r.v, _ = s.val.(T)
	r.ok = s.ok
}

// SendCase is a sending case.
type SendCase[T any] struct {
	c chan<- T
	v T
}

// S makes a sending case.
func S[T any](c chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c, v} }
}

func (x *SendCase[T]) ready() bool {
	return x.c != nil && (len(x.c) < cap(x.c) || live(shadowOf(x.c).recvq) || shadowOf(x.c).closed)
}

func (x *SendCase[T]) fire() {
	if !trySend(x.c, x.v) {
		panic("vsync: send was not ready")
	}
}
func (x *SendCase[T]) wait(s *sel, i int) {
	if x.c != nil {
		sh := shadowOf(x.c)
		sh.sendq = append(sh.sendq, &waiter{val: pending[T]{x.c, x.v}, sel: s, idx: i})
	}
}
func (x *SendCase[T]) poll(*sel, int) {}
func (x *SendCase[T]) finish(s *sel) {
	if !s.ok {
		panic("send on closed channel")
	}
}

// Select is a select statement; it returns the index of the case taken.
func Select(hasDefault bool, cs ...Case) int {
	yield("select")
	var ready []int
	for i, c := range cs {
		if c.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 && exploring && Diverged == "" && pos < len(steps) {
			var k int
			if _, err := fmt.Sscanf(steps[pos].What, "choose %d", &k); err != nil || !strings.HasPrefix(steps[pos].What, "choose ") || k >= len(ready) {
				Diverged = fmt.Sprintf("step %d: %s chooses, expected %q", pos, cur.path, steps[pos].What)
			} else {
				pos++
				i = ready[k]
			}
		}
		cs[i].fire()
		return i
	}
	if hasDefault {
		return -1
	}
	s := &sel{}
	for i, c := range cs {
		c.wait(s, i)
	}
	block("select", func() bool {
		for i, c := range cs {
			c.poll(s, i)
		}
		return s.fired
	})
	if len(cs) == 0 {
		nd.Deadlock("select without cases")
		os.Exit(3)
	}
	cs[s.idx].finish(s)
	return s.idx
}
