package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// G is one interpreted goroutine, run by a host goroutine under a baton.
type G struct {
	id     int
	path   string // spawn path, canonical across schedules
	nspawn int
	wake   chan struct{}
	done   bool
	ready  func() bool // nil: runnable
	what   string
	top    *Frame
	depth  int
	vc     VC
	start  thunk
	noRace bool
}

type schedStep struct {
	G    string
	What string
}

type waiter struct {
	g    *G
	val  Value
	ok   bool
	done bool
	sel  *selState
	idx  int
	vc   VC
}

type selState struct {
	fired bool
	idx   int
	val   Value
	ok    bool
}

// VC is a vector clock indexed by goroutine id.
type VC []int32

func (v VC) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) join(o VC) VC {
	if len(o) > len(v) {
		n := make(VC, len(o))
		copy(n, v)
		v = n
	} else {
		n := make(VC, len(v))
		copy(n, v)
		v = n
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v VC) clone() VC { return append(VC(nil), v...) }

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc = g.vc.clone()
	g.vc[g.id]++
}

func (m *Machine) spawn(fr *Frame, th thunk) {
	if th.fn == nil && th.host == nil {
		m.nilDeref(fr)
	}
	parent := m.g
	g := &G{id: len(m.gs), path: fmt.Sprintf("%s.%d", parent.path, parent.nspawn), wake: make(chan struct{})}
	parent.nspawn++
	if len(m.gs) > 64 {
		m.unsupported("more than 64 goroutines")
	}
	g.start = th
	if m.path.race {
		g.vc = parent.vc.clone()
		g.tick()
		parent.tick()
	}
	m.gs = append(m.gs, g)
	m.wg.Add(1)
	go m.gmain(g, th)
}

// gmain is the host goroutine of g.
func (m *Machine) gmain(g *G, th thunk) {
	defer m.wg.Done()
	<-g.wake
	end := pathEnd{kind: endDone}
	killed := m.killed
	if !killed {
		m.g = g
		func() {
			defer func() {
				if r := recover(); r != nil {
					end = m.classify(g, r)
				}
			}()
			if th.host != nil {
				fr := &Frame{m: m, g: g, fn: rootFunc}
				th.host(fr, th.args)
			} else {
				m.call(nil, th.fn, th.args, th.free)
			}
		}()
	}
	g.done = true
	g.top = nil
	if m.killed {
		return
	}
	if end.kind != endDone {
		m.finish(end)
		return
	}
	// Hand the baton on.
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.finish(m.classify(g, r))
			}
		}()
		m.schedule(g, true)
	}()
}

var rootFunc = &Func{name: "(root)"}

// finish reports the end of the path to the driver.
func (m *Machine) finish(e pathEnd) {
	select {
	case m.mainEnd <- e:
	default:
	}
}

// classify turns a host panic into a path end.
func (m *Machine) classify(g *G, r any) pathEnd {
	switch r := r.(type) {
	case pathEnd:
		return r
	case *goPanic:
		if r.exit {
			return pathEnd{kind: endDone}
		}
		msg := "panic: " + m.panicText(r) + " at " + r.where
		m.x.candidate(m, msg)
		return pathEnd{endViolation, msg}
	}
	panic(r)
}

func (m *Machine) runnable() []*G {
	var rs []*G
	for _, g := range m.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			rs = append(rs, g)
		}
	}
	return rs
}

// schedule passes the baton from g. If g is not done and is chosen, it returns
// at once; otherwise it returns when g is next resumed.
func (m *Machine) schedule(g *G, explore bool) {
	rs := m.runnable()
	for len(rs) == 0 && len(m.path.sleepers) > 0 && !m.gs[0].done {
		// Time passes until the first sleeper wakes up.
		next := m.path.sleepers[0]
		for _, t := range m.path.sleepers {
			if t < next {
				next = t
			}
		}
		m.path.vtime = next
		var rest []int64
		for _, t := range m.path.sleepers {
			if t > next {
				rest = append(rest, t)
			}
		}
		m.path.sleepers = rest
		rs = m.runnable()
	}
	if len(rs) == 0 {
		if m.gs[0].done {
			return // main has finished; driver handles it
		}
		m.deadlock()
	}
	// Order: the current goroutine first, then by spawn path.
	sort.SliceStable(rs, func(i, j int) bool {
		if (rs[i] == g) != (rs[j] == g) {
			return rs[i] == g
		}
		return rs[i].id < rs[j].id
	})
	next := rs[0]
	if len(rs) > 1 && m.path.explore && m.path.atomicD == 0 {
		if m.path.preempt >= 0 && rs[0] == g && !g.done {
			if m.path.preempt == 0 {
				// no preemption budget left: continue
				rs = rs[:1]
			}
		}
		if len(rs) > 1 {
			sort.SliceStable(rs[b2i(rs[0] == g):], func(i, j int) bool {
				o := b2i(rs[0] == g)
				return rs[o+i].path < rs[o+j].path
			})
			m.x.visit(m)
			c := m.choiceQuiet("sched", len(rs))
			next = rs[c]
			if c > 0 && rs[0] == g && !g.done && m.path.preempt > 0 {
				m.path.preempt--
			}
		}
	}
	if m.path.explore {
		m.path.sched = append(m.path.sched, schedStep{next.path, next.what})
	}
	if next == g && !g.done {
		return
	}
	m.g = next
	next.wake <- struct{}{}
	if g.done {
		return
	}
	<-g.wake
	if m.killed {
		panic(pathEnd{kind: endKilled})
	}
	m.g = g
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (m *Machine) deadlock() {
	msg := "deadlock:"
	for _, g := range m.gs {
		if !g.done {
			msg += fmt.Sprintf(" [%s: %s]", g.path, g.what)
		}
	}
	m.x.candidate(m, msg)
	panic(pathEnd{endViolation, msg})
}

// yield is called before every visible operation.
func (m *Machine) yield(what string) {
	if m.inSetup || m.path == nil {
		return
	}
	if !m.path.explore || m.path.atomicD > 0 || len(m.gs) == 1 {
		return
	}
	g := m.g
	g.what = what
	m.schedule(g, true)
}

// block waits until ready holds.
func (m *Machine) block(what string, ready func() bool) {
	if ready() {
		return
	}
	if m.inSetup {
		m.unsupported("blocking in initialization: " + what)
	}
	g := m.g
	g.ready = ready
	g.what = what
	m.schedule(g, true)
	g.ready = nil
	if !ready() {
		m.unsupported("internal: woken while not ready")
	}
}

// sleep blocks for a duration.
func (m *Machine) sleep(d Value) {
	if d.sym() != nil {
		m.unsupported("sleeping for a symbolic time")
	}
	if int64(d.n) <= 0 || m.path == nil {
		m.yield("sleep")
		return
	}
	p := m.path
	when := p.vtime + int64(d.n)
	if when < p.vtime {
		when = 1<<63 - 1
	}
	p.sleepers = append(p.sleepers, when)
	m.block("sleep", func() bool { return p.vtime >= when })
}

// --- happens-before

func (m *Machine) acquire(k cellKey) {
	if m.path == nil || !m.path.race {
		return
	}
	if vc, ok := m.path.syncVC[k]; ok {
		m.g.vc = m.g.vc.join(vc)
	}
}

func (m *Machine) release(k cellKey) {
	if m.path == nil || !m.path.race {
		return
	}
	m.setSyncVC(k, m.path.syncVC[k].join(m.g.vc))
	m.g.tick()
}

func (m *Machine) setSyncVC(k cellKey, vc VC) {
	if _, ok := m.path.syncVC[k]; !ok {
		m.path.syncOrder = append(m.path.syncOrder, k)
	}
	m.path.syncVC[k] = vc
}

type epoch struct {
	g int
	c int32
}

type shadowCell struct {
	w     epoch
	hasW  bool
	reads []epoch
}

type shadow struct {
	c []shadowCell
}

func (m *Machine) raceShadow(o *Obj) *shadow {
	if o.shad == nil {
		o.shad = &shadow{c: make([]shadowCell, len(o.cells))}
		if o.setup {
			m.dirtyObj = append(m.dirtyObj, o)
		}
	}
	if len(o.shad.c) < len(o.cells) {
		o.shad.c = append(o.shad.c, make([]shadowCell, len(o.cells)-len(o.shad.c))...)
	}
	return o.shad
}

func (m *Machine) raceRead(o *Obj, off, n int) {
	if m.path == nil || !m.path.race || m.g.noRace {
		return
	}
	g := m.g
	s := m.raceShadow(o)
	for i := off; i < off+n; i++ {
		c := &s.c[i]
		m.raceReadCell(g, c, o)
	}
}

func (m *Machine) raceReadCell(g *G, c *shadowCell, o any) {
	if c.hasW && c.w.g != g.id && c.w.c > g.vc.get(c.w.g) {
		m.raceReport(o, "read", "write")
	}
	for j := range c.reads {
		if c.reads[j].g == g.id {
			c.reads[j].c = g.vc.get(g.id)
			return
		}
	}
	c.reads = append(c.reads, epoch{g.id, g.vc.get(g.id)})
}

func (m *Machine) raceWriteCell(g *G, c *shadowCell, o any) {
	if c.hasW && c.w.g != g.id && c.w.c > g.vc.get(c.w.g) {
		m.raceReport(o, "write", "write")
	}
	for _, r := range c.reads {
		if r.g != g.id && r.c > g.vc.get(r.g) {
			m.raceReport(o, "write", "read")
		}
	}
	c.reads = c.reads[:0]
	c.hasW = true
	c.w = epoch{g.id, g.vc.get(g.id)}
}

func (m *Machine) raceWrite(o *Obj, off, n int) {
	if m.path == nil || !m.path.race || m.g.noRace {
		return
	}
	g := m.g
	s := m.raceShadow(o)
	for i := off; i < off+n; i++ {
		m.raceWriteCell(g, &s.c[i], o)
	}
}

func (m *Machine) raceReadRange(o *Obj, off, n int) {
	if m.path != nil && m.path.race {
		m.raceRead(o, off, n)
	}
}

func (m *Machine) raceWriteRange(o *Obj, off, n int) {
	if m.path != nil && m.path.race {
		m.raceWrite(o, off, n)
	}
}

func (m *Machine) raceMap(mp *Map, write bool) {
	if m.path == nil || !m.path.race || m.g.noRace {
		return
	}
	if mp.shad == nil {
		mp.shad = &shadow{c: make([]shadowCell, 1)}
		if mp.setup {
			m.touchMapShadow(mp)
		}
	}
	if write {
		m.raceWriteCell(m.g, &mp.shad.c[0], mp)
	} else {
		m.raceReadCell(m.g, &mp.shad.c[0], mp)
	}
}

func (m *Machine) touchMapShadow(mp *Map) { m.undoMap = append(m.undoMap, mp) }

func (m *Machine) raceReport(o any, a, b string) {
	what := "memory"
	switch o := o.(type) {
	case *Obj:
		what = "a value of type " + o.elem.String()
	case *Map:
		what = "a map of type " + o.t.String()
	}
	msg := fmt.Sprintf("data race: unsynchronized %s and %s of %s at %s", a, b, what, frStack(m.g.top))
	m.x.candidate(m, msg)
	panic(pathEnd{endViolation, msg})
}

// --- mutexes, condition variables, wait groups (state in the object's first cells)

func keyOf(v Value) cellKey { return cellKey{v.p.(*Obj), int(v.n)} }

func (c *Call) recvKey() cellKey {
	if c.args[0].p == nil {
		c.m.nilDeref(c.fr)
	}
	return keyOf(c.args[0])
}

func (m *Machine) lockMutex(k cellKey) {
	m.yield("Lock")
	m.block("Lock", func() bool { return k.o.cells[k.off].n == 0 })
	m.setCell(k.o, k.off, Value{n: 1})
	m.acquire(k)
}

func (m *Machine) unlockMutex(fr *Frame, k cellKey) {
	if k.o.cells[k.off].n == 0 {
		m.x.candidate(m, "fatal error: sync: unlock of unlocked mutex at "+frStack(fr))
		panic(pathEnd{endViolation, "unlock of unlocked mutex"})
	}
	m.release(k)
	m.setCell(k.o, k.off, Value{n: 0})
}

type condState struct {
	waiters []*waiter
	seq     int
}

func (m *Machine) cond(k cellKey) *condState {
	cs := m.path.conds[k]
	if cs == nil {
		cs = &condState{}
		m.path.conds[k] = cs
	}
	return cs
}

// --- channels

func (m *Machine) chanSend(fr *Frame, cv, v Value) {
	ch, _ := cv.p.(*Chan)
	m.yieldFrom(fr, "send")
	if ch == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	if m.path != nil && m.path.race {
		defer m.g.tick()
	}
	if m.trySend(fr, ch, v) {
		return
	}
	w := &waiter{g: m.g, val: v, vc: m.g.vc.clone()}
	ch.sendq = append(ch.sendq, w)
	m.block("send", func() bool { return w.done })
	if !w.ok {
		m.goPanicStr(fr, "send on closed channel")
	}
	m.g.vc = m.g.vc.join(w.vc)
}

func (m *Machine) trySend(fr *Frame, ch *Chan, v Value) bool {
	if ch.closed {
		m.goPanicStr(fr, "send on closed channel")
	}
	for len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		}
		w.val, w.ok, w.done = v, true, true
		w.g.vc = w.g.vc.join(m.g.vc)
		m.g.vc = m.g.vc.join(w.vc)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		ch.bufvc = append(ch.bufvc, m.g.vc.clone())
		ch.vc = ch.vc.join(m.g.vc)
		return true
	}
	return false
}

func (m *Machine) tryRecv(ch *Chan, et *TI) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		m.g.vc = m.g.vc.join(ch.bufvc[0])
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		ch.bufvc = append([]VC(nil), ch.bufvc[1:]...)
		for len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			if w.sel != nil {
				if w.sel.fired {
					continue
				}
				w.sel.fired, w.sel.idx = true, w.idx
			}
			w.ok, w.done = true, true
			ch.buf = append(ch.buf, w.val)
			ch.bufvc = append(ch.bufvc, w.vc)
			w.vc = m.g.vc.clone()
			break
		}
		return v, true, true
	}
	for len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired, w.sel.idx = true, w.idx
		}
		w.ok, w.done = true, true
		m.g.vc = m.g.vc.join(w.vc)
		w.vc = m.g.vc.clone()
		return w.val, true, true
	}
	if ch.closed {
		m.g.vc = m.g.vc.join(ch.vc)
		return zeroOf(et), false, true
	}
	return Value{}, false, false
}

func (m *Machine) chanRecv(fr *Frame, cv Value, et *TI) (Value, bool) {
	ch, _ := cv.p.(*Chan)
	m.yieldFrom(fr, "receive")
	if ch == nil {
		m.block("receive from nil channel", func() bool { return false })
	}
	if v, ok, done := m.tryRecv(ch, et); done {
		return v, ok
	}
	w := &waiter{g: m.g, vc: m.g.vc.clone()}
	ch.recvq = append(ch.recvq, w)
	m.block("receive", func() bool { return w.done })
	if !w.ok {
		return zeroOf(et), false
	}
	return w.val, true
}

func (m *Machine) chanClose(fr *Frame, cv Value) {
	ch, _ := cv.p.(*Chan)
	if ch == nil {
		m.goPanicStr(fr, "close of nil channel")
	}
	m.yieldFrom(fr, "close")
	if ch.closed {
		m.goPanicStr(fr, "close of closed channel")
	}
	ch.closed = true
	ch.vc = ch.vc.join(m.g.vc)
	for _, w := range ch.recvq {
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired, w.sel.idx, w.sel.ok, w.sel.val = true, w.idx, false, Value{}
		}
		w.ok, w.done = false, true
		w.g.vc = w.g.vc.join(m.g.vc)
	}
	ch.recvq = nil
	for _, w := range ch.sendq {
		if w.sel != nil && w.sel.fired {
			continue
		}
		if w.sel != nil {
			w.sel.fired, w.sel.idx = true, w.idx
		}
		w.ok, w.done = false, true
	}
	ch.sendq = nil
	if m.path != nil && m.path.race {
		m.g.tick()
	}
}

func (c *fcomp) sel(in *ssa.Select, dst opnd) instr {
	type st struct {
		ch, v opnd
		send  bool
		et    *TI
	}
	var sts []st
	nrecv := 0
	for _, s := range in.States {
		x := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly, et: c.p.ti(s.Chan.Type()).elem}
		if x.send {
			x.v = c.op(s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *Frame) {
		m := fr.m
		m.yieldFrom(fr, "select")
		result := func(idx int, val Value, ok bool) {
			vs := []Value{{n: uint64(int64(idx))}, vBool(ok)}
			for i, s := range sts {
				if s.send {
					continue
				}
				if i == idx && ok {
					vs = append(vs, val)
				} else {
					vs = append(vs, zeroOf(s.et))
				}
			}
			fr.slots[dst] = vTuple(vs...)
		}
		var ready []int
		for i, s := range sts {
			ch, _ := fr.get(s.ch).p.(*Chan)
			if ch == nil {
				continue
			}
			if s.send {
				if ch.closed || len(ch.buf) < ch.cap || liveWaiters(ch.recvq) {
					ready = append(ready, i)
				}
			} else if len(ch.buf) > 0 || ch.closed || liveWaiters(ch.sendq) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[0]
			if len(ready) > 1 && m.path != nil {
				k := m.choiceQuiet("select", len(ready))
				i = ready[k]
				if m.path.explore {
					m.path.sched = append(m.path.sched, schedStep{m.g.path, fmt.Sprintf("choose %d", k)})
				}
			}
			s := sts[i]
			ch := fr.get(s.ch).p.(*Chan)
			if s.send {
				m.trySend(fr, ch, fr.get(s.v))
				result(i, Value{}, false)
			} else {
				v, ok, _ := m.tryRecv(ch, s.et)
				result(i, v, ok)
			}
			return
		}
		if !blocking {
			result(-1, Value{}, false)
			return
		}
		ss := &selState{}
		for i, s := range sts {
			ch, _ := fr.get(s.ch).p.(*Chan)
			if ch == nil {
				continue
			}
			w := &waiter{g: m.g, sel: ss, idx: i, vc: m.g.vc.clone()}
			if s.send {
				w.val = fr.get(s.v)
				ch.sendq = append(ch.sendq, w)
			} else {
				ch.recvq = append(ch.recvq, w)
			}
		}
		m.block("select", func() bool { return ss.fired })
		if sts[ss.idx].send {
			ch := fr.get(sts[ss.idx].ch).p.(*Chan)
			if ch.closed {
				m.goPanicStr(fr, "send on closed channel")
			}
		}
		result(ss.idx, ss.val, ss.ok)
	}
}

func liveWaiters(ws []*waiter) bool {
	for _, w := range ws {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}
