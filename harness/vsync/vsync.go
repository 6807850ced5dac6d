// Package vsync replaces package sync in native replays of schedules. One
// goroutine runs at a time; at the points where the symbolic engine schedules,
// the next goroutine is taken from the recorded schedule.
package vsync

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/bobg/fab/zzverif/nd"
)

type (
	Pool   = sync.Pool
	Locker = sync.Locker
)

type g struct {
	id     int
	path   string
	nspawn int
	wake   chan struct{}
	done   bool
	ready  func() bool
	what   string
}

var (
	cur       = &g{path: "0", wake: make(chan struct{}, 1)}
	gs        = []*g{cur}
	exploring bool
	fine      bool
	steps     []nd.Step
	pos       int
	// Diverged tells why the schedule could not be followed ("" if it was).
	Diverged string
)

func init() {
	nd.SchedYield = yield
	nd.SchedFine = func(on bool) { fine = on }
	nd.SchedExplore = func(on bool) { stretch(); exploring = on }
	nd.SchedStart = func(s []nd.Step) { steps = s }
	nd.SchedDiverged = func() string {
		stretch()
		if Diverged == "" && pos < len(steps) {
			return fmt.Sprintf("%d of %d steps taken", pos, len(steps))
		}
		return Diverged
	}
}

func runnable() []*g {
	var rs []*g
	for _, x := range gs {
		if !x.done && (x.ready == nil || x.ready()) {
			rs = append(rs, x)
		}
	}
	return rs
}

// last is when the running goroutine was given the processor.
var last = time.Now()

// stretch notes a schedule in which a goroutine was held up for real, by a lock
// that another one holds outside the scheduler's sight: it could not have
// happened, because the other would have gone on.
func stretch() {
	if exploring && Diverged == "" && len(gs) > 1 && time.Since(last) > 4*time.Second {
		Diverged = fmt.Sprintf("step %d: held up for %v", pos, time.Since(last))
	}
	last = time.Now()
}

func schedule(me *g) {
	stretch()
	rs := runnable()
	if len(rs) == 0 {
		if gs[0].done {
			return
		}
		msg := "deadlock:"
		for _, x := range gs {
			if !x.done {
				msg += fmt.Sprintf(" [%s: %s]", x.path, x.what)
			}
		}
		nd.Deadlock(msg)
		os.Exit(3)
	}
	sort.SliceStable(rs, func(i, j int) bool {
		if (rs[i] == me) != (rs[j] == me) {
			return rs[i] == me
		}
		return rs[i].id < rs[j].id
	})
	next := rs[0]
	if exploring && Diverged == "" && pos < len(steps) {
		st := steps[pos]
		pos++
		found := false
		for _, x := range rs {
			if x.path == st.G {
				next, found = x, true
			}
		}
		if !found {
			Diverged = fmt.Sprintf("step %d: %s %s is not runnable", pos-1, st.G, st.What)
		} else if next.what != st.What {
			Diverged = fmt.Sprintf("step %d: %s at %q, expected %q", pos-1, st.G, next.what, st.What)
		}
	}
	if next == me && !me.done {
		return
	}
	cur = next
	next.wake <- struct{}{}
	if me.done {
		return
	}
	<-me.wake
	cur = me
}

func yield(what string) {
	if !exploring || len(gs) == 1 {
		return
	}
	cur.what = what
	schedule(cur)
}

func block(what string, ready func() bool) {
	if ready() {
		return
	}
	me := cur
	me.ready, me.what = ready, what
	schedule(me)
	me.ready = nil
}

// Go starts a goroutine.
func Go(f func()) {
	parent := cur
	x := &g{id: len(gs), path: fmt.Sprintf("%s.%d", parent.path, parent.nspawn), wake: make(chan struct{}, 1)}
	parent.nspawn++
	gs = append(gs, x)
	go func() {
		<-x.wake
		cur = x
		defer func() {
			if r := recover(); r != nil {
				nd.GoroutinePanic(r)
				os.Exit(3)
			}
		}()
		f()
		x.done = true
		schedule(x)
	}()
}

// released is a scheduling point after a releasing operation.
func released(what string) {
	if fine {
		yield(what)
	}
}

// Mutex is a cooperative sync.Mutex.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	yield("Lock")
	block("Lock", func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	yield("TryLock")
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		nd.Fatal("fatal error: sync: unlock of unlocked mutex")
		os.Exit(3)
	}
	m.held = false
	released("Unlock")
}

// RWMutex is a cooperative sync.RWMutex.
type RWMutex struct {
	held    bool
	readers int
}

func (m *RWMutex) Lock() {
	yield("Lock")
	block("Lock", func() bool { return !m.held && m.readers == 0 })
	m.held = true
}

func (m *RWMutex) Unlock() {
	if !m.held {
		nd.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
		os.Exit(3)
	}
	m.held = false
	released("Unlock")
}

func (m *RWMutex) RLock() {
	yield("RLock")
	block("RLock", func() bool { return !m.held })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		nd.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		os.Exit(3)
	}
	m.readers--
	released("RUnlock")
}

// WaitGroup is a cooperative sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		released("WaitGroup.Done")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	yield("WaitGroup.Wait")
	block("WaitGroup.Wait", func() bool { return w.n == 0 })
}

// Cond is a cooperative sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	done := new(bool)
	c.waiters = append(c.waiters, done)
	c.L.Unlock()
	block("Cond.Wait", func() bool { return *done })
	c.L.Lock()
}

func (c *Cond) Signal() {
	yield("Cond.Signal")
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	yield("Cond.Signal")
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Once is a cooperative sync.Once.
type Once struct {
	held, done bool
}

func (o *Once) Do(f func()) {
	yield("Once.Do")
	o.do(f)
}

func (o *Once) do(f func()) {
	if o.done {
		return
	}
	block("Lock", func() bool { return !o.held })
	o.held = true
	defer func() { o.held = false }()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		once  Once
		valid bool
		p     any
		res   T
	)
	return func() T {
		once.do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			res = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return res
	}
}

// OnceValues is like sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var b B
	g := OnceValue(func() (a A) { a, b = f(); return a })
	return func() (A, B) { a := g(); return a, b }
}

// Map is a sync.Map whose operations are scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { yield("sync.Map"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { yield("sync.Map"); m.m.Store(k, v) }
func (m *Map) Delete(k any)           { yield("sync.Map"); m.m.Delete(k) }
func (m *Map) Clear() {
	yield("sync.Map")
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	yield("sync.Map")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { yield("sync.Map"); return m.m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { yield("sync.Map"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool {
	yield("sync.Map")
	return m.m.CompareAndSwap(k, a, b)
}
func (m *Map) CompareAndDelete(k, a any) bool {
	yield("sync.Map")
	return m.m.CompareAndDelete(k, a)
}
func (m *Map) Range(f func(k, v any) bool) { yield("sync.Map"); m.m.Range(f) }
