package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type syncMap[K comparable, V any] struct {
	mu sync.RWMutex
	m  map[K]V
}

func (s *syncMap[K, V]) load(k K) (V, bool) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	v, ok := s.m[k]
	return v, ok
}

func (s *syncMap[K, V]) store(k K, v V) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[K]V{}
	}
	s.m[k] = v
}

var implLock sync.Mutex

func (p *Program) implMu()   { implLock.Lock() }
func (p *Program) implUnmu() { implLock.Unlock() }

// goPanic is a Go-level panic travelling up the interpreted stack.
type goPanic struct {
	v     Value // interface value
	where string
	rt    bool
	exit  bool // runtime.Goexit
}

type endKind int

const (
	endDone endKind = iota
	endAssume
	endUnsupported
	endLimit
	endViolation
	endPruned
	endKilled
)

// pathEnd unwinds the host stack to finish a path.
type pathEnd struct {
	kind endKind
	msg  string
}

// Frame is one interpreted activation.
type Frame struct {
	m         *Machine
	g         *G
	fn        *Func
	slots     []Value
	caller    *Frame
	blk       *Block
	ip        int
	defers    []thunk
	panicking *goPanic
	result    Value
	noRace    bool
}

type thunk struct {
	fn    *Func
	args  []Value
	free  []Value
	host  func(fr *Frame, args []Value) Value
	name  string
	noop  bool
	panik string
}

func (fr *Frame) get(o opnd) Value {
	if o >= 0 {
		return fr.slots[o]
	}
	k := &fr.fn.consts[^o]
	if k.glob != 0 {
		return Value{p: fr.m.global(k.glob - 1)}
	}
	return k.v
}

func (fr *Frame) stack() string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 12; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.name)
		n++
	}
	return sb.String()
}

// Machine executes paths; one per worker.
type Machine struct {
	p    *Program
	tt   *TermTable
	sol  *Solver
	x    *Explorer
	opts *HarnessOpts

	globals   []*Obj
	undo      []undoEnt
	undoMap   []*Map
	inSetup   bool
	setupDone bool
	dirtyObj  []*Obj
	qcache    map[string]qres

	// per path
	path    *PathState
	g       *G
	gs      []*G
	nextID  int
	steps   int64
	limit   int64
	depth   int
	baton   bool
	killed  bool
	mainEnd chan pathEnd
	wg      sync.WaitGroup

	uint8T, intT, stringT, boolT, anyT, errorT, emptyIfaceT *TI

	varCache map[*Term][]string
	typeObjs map[*TI]*Obj
}

type undoEnt struct {
	o   *Obj
	off int
	v   Value
	mp  *Map
	mc  *Map
	ext bool
}

type PathState struct {
	job       *Job
	idx       int // next decision
	dec       []Decision
	pc        []*Term
	pcset     map[*Term]bool
	model     Model
	nvars     map[string]int
	inputs    []Input // symbolic inputs in order of creation
	hashes    []hashEnt
	observes  []string
	obsv      []obsEnt
	reached   map[string]bool
	sched     []schedStep
	race      bool
	explore   bool
	fine      bool // scheduling points after releasing operations as well
	gcmode    bool
	mapOrder  int
	preempt   int // -1 unlimited
	syncVC    map[cellKey]VC
	conds     map[cellKey]*condState
	addrs     []*Obj
	freed     []Value
	nextAddr  uint64
	seenAddr  map[*Obj]bool
	host      map[string]any
	atomicD   int
	crash     bool
	notes     []string
	symbolic  int
	vtime     int64   // nanoseconds that passed in sleep
	sleepers  []int64 // when they wake up
	syncOrder []cellKey
	fmtBusy   int
}

type hashEnt struct {
	kind string
	in   []Value
	out  []byte
	conc bool
}

type obsEnt struct {
	name string
	v    Value
}

type cellKey struct {
	o   *Obj
	off int
}

type Input struct {
	Name string
	W    uint8
	Term *Term
	Val  uint64 // when concrete (choices)
	Kind string
}

func (m *Machine) newObj(t *TI) *Obj {
	o := &Obj{elem: t, setup: m.inSetup}
	if t.size > 0 {
		o.cells = make([]Value, t.size)
	}
	m.nextID++
	o.id = m.nextID
	return o
}

func (m *Machine) newArr(et *TI, n int) *Obj {
	o := &Obj{elem: et, setup: m.inSetup}
	o.cells = make([]Value, n*et.size)
	m.nextID++
	o.id = m.nextID
	return o
}

func (m *Machine) newSlice(et *TI, l, c int) Value {
	return Value{p: &Slice{o: m.newArr(et, c), len: l, cap: c}}
}

// bytesSlice makes a slice backed by cells (one cell per element).
func (m *Machine) bytesSlice(cells []Value, et *TI) Value {
	o := &Obj{elem: et, setup: m.inSetup, cells: cells}
	m.nextID++
	o.id = m.nextID
	return Value{p: &Slice{o: o, len: len(cells), cap: len(cells)}}
}

func (m *Machine) strSliceVal(ss []Value) Value {
	return m.bytesSlice(ss, m.stringT)
}

func (m *Machine) newMap(t *TI) *Map {
	m.nextID++
	return &Map{t: t, idx: map[string]int{}, setup: m.inSetup, id: m.nextID}
}

func (m *Machine) newChan(n int) *Chan {
	m.nextID++
	return &Chan{cap: n, id: m.nextID}
}

func (m *Machine) global(i int) *Obj {
	if i < len(m.globals) && m.globals[i] != nil {
		return m.globals[i]
	}
	m.p.mu.Lock()
	g := m.p.glist[i]
	n := len(m.p.glist)
	m.p.mu.Unlock()
	for len(m.globals) < n {
		m.globals = append(m.globals, nil)
	}
	t := m.p.ti(g.Type().Underlying().(*types.Pointer).Elem())
	o := &Obj{elem: t, cells: make([]Value, t.size)}
	// A global materialised during a path belongs to the setup state.
	o.setup = true
	o.gidx = i + 1
	o.id = -1 - i
	m.globals[i] = o
	if init := globalInit[g.Pkg.Pkg.Path()+"."+g.Name()]; init != nil {
		was := m.inSetup
		m.inSetup = true
		putCells(o.cells, 0, t, init(m))
		m.inSetup = was
	} else if ev, ok := m.p.embeds[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
		was := m.inSetup
		m.inSetup = true
		putCells(o.cells, 0, t, m.embedValue(ev, t))
		m.inSetup = was
	} else if d := denied(g.Pkg.Pkg.Path()); d != "" && !globalOK[g.Pkg.Pkg.Path()+"."+g.Name()] {
		m.globals[i] = nil
		m.unsupported("global " + g.String() + " of " + d)
	}
	return o
}

func (m *Machine) globalByName(pkg, name string) *Obj {
	pk := m.p.pkgs[pkg]
	if pk == nil {
		m.unsupported("package " + pkg + " not loaded")
	}
	g := pk.Var(name)
	if g == nil {
		m.unsupported("no global " + pkg + "." + name)
	}
	return m.global(m.p.globalIdx(g))
}

// --- memory

func (m *Machine) load(fr *Frame, a Value, t *TI) Value {
	o, ok := a.p.(*Obj)
	if !ok {
		if tm, ok := a.p.(*Term); ok {
			return m.fromTerm(tm, t)
		}
		m.nilDeref(fr)
	}
	off := int(a.n)
	if m.path != nil && m.path.race {
		m.raceRead(o, off, t.size)
	}
	if t.leaf() {
		return o.cells[off]
	}
	c := make([]Value, t.size)
	copy(c, o.cells[off:off+t.size])
	return Value{p: &Agg{c}}
}

func (m *Machine) store(fr *Frame, a Value, t *TI, v Value) {
	o, ok := a.p.(*Obj)
	if !ok {
		m.nilDeref(fr)
	}
	off := int(a.n)
	if m.path != nil && m.path.race {
		m.raceWrite(o, off, t.size)
	}
	if o.setup && !m.inSetup {
		for i := 0; i < t.size; i++ {
			m.undo = append(m.undo, undoEnt{o: o, off: off + i, v: o.cells[off+i]})
		}
	}
	if t.leaf() {
		o.cells[off] = v
		return
	}
	putCells(o.cells, off, t, v)
}

// setCell writes one leaf cell, honouring the undo log.
func (m *Machine) setCell(o *Obj, off int, v Value) {
	if o.setup && !m.inSetup {
		m.undo = append(m.undo, undoEnt{o: o, off: off, v: o.cells[off]})
	}
	o.cells[off] = v
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.mp != nil {
			*u.mp = *u.mc
			continue
		}
		u.o.cells[u.off] = u.v
	}
	m.undo = m.undo[:0]
	for _, o := range m.dirtyObj {
		o.addr, o.shad = nil, nil
	}
	m.dirtyObj = m.dirtyObj[:0]
}

func (m *Machine) touchMap(mp *Map) {
	if mp.setup && !m.inSetup {
		// Save a full copy once per path.
		for _, u := range m.undo {
			if u.mp == mp {
				return
			}
		}
		cp := *mp
		cp.shad = nil
		cp.ents = append([]mapEntry(nil), mp.ents...)
		cp.idx = make(map[string]int, len(mp.idx))
		for k, v := range mp.idx {
			cp.idx[k] = v
		}
		m.undo = append(m.undo, undoEnt{mp: mp, mc: &cp})
	}
}

// --- terms and symbolic values

func (m *Machine) term(v Value, t *TI) *Term {
	if v.p != nil {
		if x, ok := v.p.(*Term); ok {
			return x
		}
		m.unsupported(fmt.Sprintf("term of %T", v.p))
	}
	return m.tt.Const(t.w, v.n)
}

func (m *Machine) fromTerm(t *Term, ti *TI) Value {
	if t.op == OpConst {
		if ti.kind == KBool {
			return Value{n: t.val}
		}
		return Value{n: normInt(ti, uint64(sextIf(t.val, t.w, ti.sgn)))}
	}
	return Value{p: t}
}

func sextIf(v uint64, w uint8, s bool) uint64 {
	if s {
		return uint64(sext(v, w))
	}
	return v
}

func (m *Machine) concrete(v Value) (uint64, bool) {
	if v.p == nil {
		return v.n, true
	}
	return 0, false
}

// concInt concretizes an integer operand by forking over its values.
func (m *Machine) concInt(fr *Frame, v Value) int64 {
	if v.p == nil {
		return int64(v.n)
	}
	return m.concretize(v, m.intT)
}

// concretize forks over the feasible values of v.
func (m *Machine) concretize(v Value, t *TI) int64 {
	x, ok := v.p.(*Term)
	if !ok {
		if v.p != nil {
			m.unsupported(fmt.Sprintf("concretize %T", v.p))
		}
		return int64(v.n)
	}
	for i := 0; i < 300; i++ {
		val := m.pickValue(x)
		if m.branch(m.tt.Eq(x, m.tt.Const(x.w, val))) {
			if t.sgn {
				return sext(val, x.w)
			}
			return int64(val)
		}
	}
	m.unsupported("concretization of a value with more than 300 choices")
	return 0
}

func (m *Machine) strLess(a, b Value, orEq bool) *Term {
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var r *Term
	if orEq {
		r = m.tt.Bool(len(x) <= len(y))
	} else {
		r = m.tt.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		tx, ty := m.term(x[i], m.uint8T), m.term(y[i], m.uint8T)
		r = m.tt.Or(m.tt.Cmp(OpULt, tx, ty), m.tt.And(m.tt.Eq(tx, ty), r))
	}
	return r
}

func (m *Machine) strEq(a, b Value) *Term {
	if sa, ok := goStr(a); ok {
		if sb, ok := goStr(b); ok {
			return m.tt.Bool(sa == sb)
		}
	}
	if strLen(a) != strLen(b) {
		return m.tt.Fals
	}
	x, y := strBytes(a), strBytes(b)
	r := m.tt.True
	for i := range x {
		if x[i].p == nil && y[i].p == nil {
			if x[i].n != y[i].n {
				return m.tt.Fals
			}
			continue
		}
		r = m.tt.And(r, m.tt.Eq(m.term(x[i], m.uint8T), m.term(y[i], m.uint8T)))
		if r == m.tt.Fals {
			return r
		}
	}
	return r
}

// eq is Go's == on values of type t.
func (m *Machine) eq(fr *Frame, t *TI, a, b Value) *Term {
	switch t.kind {
	case KBool, KInt:
		if a.p == nil && b.p == nil {
			return m.tt.Bool(a.n == b.n)
		}
		return m.tt.Eq(m.term(a, t), m.term(b, t))
	case KFloat:
		return m.tt.Bool(f64(a) == f64(b))
	case KComplex:
		x, _ := a.p.(complex128)
		y, _ := b.p.(complex128)
		return m.tt.Bool(x == y)
	case KString:
		return m.strEq(a, b)
	case KPtr, KUnsafePtr:
		if a.p == nil || b.p == nil {
			return m.tt.Bool(a.p == nil && b.p == nil)
		}
		return m.tt.Bool(a.p == b.p && a.n == b.n)
	case KMap, KChan:
		return m.tt.Bool(a.p == b.p)
	case KFunc:
		return m.tt.Bool(a.p == nil && b.p == nil)
	case KSlice:
		return m.tt.Bool(a.p == nil && b.p == nil)
	case KIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return m.tt.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return m.tt.Fals
		}
		if !types.Comparable(x.t.t) {
			m.rtPanic(fr, "comparing uncomparable type "+x.t.String())
		}
		return m.eq(fr, x.t, x.v, y.v)
	case KStruct:
		ca, cb := a.agg(t), b.agg(t)
		r := m.tt.True
		st := t.under.(*types.Struct)
		for i, f := range t.flds {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = m.tt.And(r, m.eq(fr, f, subAgg(ca, t.offs[i], f), subAgg(cb, t.offs[i], f)))
			if r == m.tt.Fals {
				return r
			}
		}
		return r
	case KArray:
		ca, cb := a.agg(t), b.agg(t)
		r := m.tt.True
		for i := 0; i < t.alen; i++ {
			r = m.tt.And(r, m.eq(fr, t.elem, subAgg(ca, i*t.elem.size, t.elem), subAgg(cb, i*t.elem.size, t.elem)))
			if r == m.tt.Fals {
				return r
			}
		}
		return r
	}
	m.unsupported("comparison of " + t.String())
	return nil
}

// keyString gives a canonical key for concrete values.
func (m *Machine) keyString(t *TI, v Value, sb *strings.Builder) bool {
	switch t.kind {
	case KBool, KInt, KFloat:
		if v.p != nil {
			return false
		}
		fmt.Fprintf(sb, "%d;", v.n)
		return true
	case KString:
		s, ok := goStr(v)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "%d:%s;", len(s), s)
		return true
	case KPtr, KUnsafePtr:
		if v.p == nil {
			sb.WriteString("nil;")
			return true
		}
		o := v.p.(*Obj)
		fmt.Fprintf(sb, "p%p.%d;", o, v.n)
		return true
	case KChan:
		fmt.Fprintf(sb, "c%p;", v.p)
		return true
	case KIface:
		x, _ := v.p.(*Iface)
		if x == nil {
			sb.WriteString("nil;")
			return true
		}
		if !types.Comparable(x.t.t) {
			m.rtPanic(m.g.top, "hash of unhashable type "+x.t.String())
		}
		fmt.Fprintf(sb, "i%d:", x.t.id)
		if x.t.kind == KInvalid {
			return false
		}
		return m.keyString(x.t, x.v, sb)
	case KStruct:
		c := v.agg(t)
		for i, f := range t.flds {
			if !m.keyString(f, subAgg(c, t.offs[i], f), sb) {
				return false
			}
		}
		return true
	case KArray:
		c := v.agg(t)
		for i := 0; i < t.alen; i++ {
			if !m.keyString(t.elem, subAgg(c, i*t.elem.size, t.elem), sb) {
				return false
			}
		}
		return true
	}
	m.unsupported("map key of type " + t.String())
	return false
}

// find returns the index of the entry for k, or -1.
func (m *Machine) find(fr *Frame, mp *Map, k Value) (int, string, bool) {
	var sb strings.Builder
	if m.keyString(mp.t.key, k, &sb) {
		ks := sb.String()
		if i, ok := mp.idx[ks]; ok {
			return i, ks, true
		}
		if mp.nsym > 0 {
			for i := range mp.ents {
				e := &mp.ents[i]
				if e.deleted {
					continue
				}
				if m.branch(m.eq(fr, mp.t.key, e.k, k)) {
					return i, ks, true
				}
			}
		}
		return -1, ks, true
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.deleted {
			continue
		}
		if m.branch(m.eq(fr, mp.t.key, e.k, k)) {
			return i, "", false
		}
	}
	return -1, "", false
}

func (m *Machine) mapGet(fr *Frame, mp *Map, k Value) (Value, bool) {
	if mp == nil {
		return Value{}, false
	}
	m.raceMap(mp, false)
	i, _, _ := m.find(fr, mp, k)
	if i < 0 {
		return Value{}, false
	}
	return mp.ents[i].v, true
}

func (m *Machine) mapSet(fr *Frame, mp *Map, k, v Value) {
	m.raceMap(mp, true)
	i, ks, conc := m.find(fr, mp, k)
	m.touchMap(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	mp.ents = append(mp.ents, mapEntry{k: k, v: v})
	mp.live++
	if conc {
		mp.idx[ks] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(fr *Frame, mp *Map, k Value) {
	if mp == nil {
		return
	}
	m.raceMap(mp, true)
	i, _, _ := m.find(fr, mp, k)
	if i < 0 {
		return
	}
	m.touchMap(mp)
	e := &mp.ents[i]
	var sb strings.Builder
	if m.keyString(mp.t.key, e.k, &sb) {
		delete(mp.idx, sb.String())
	} else {
		mp.nsym--
	}
	e.deleted = true
	e.v = Value{}
	mp.live--
}

func (m *Machine) mapClear(mp *Map) {
	if mp == nil {
		return
	}
	m.raceMap(mp, true)
	m.touchMap(mp)
	for i := range mp.ents {
		mp.ents[i].deleted = true
	}
	mp.ents = append([]mapEntry(nil), mp.ents...)
	mp.idx = map[string]int{}
	mp.nsym = 0
	mp.live = 0
}

type iter interface {
	next(fr *Frame) Value
}

type mapIter struct {
	mp    *Map
	order []int
	pos   int
	kt    *TI
	vt    *TI
}

func (m *Machine) newMapIter(fr *Frame, mp *Map, t *TI) *mapIter {
	it := &mapIter{mp: mp, kt: t.key, vt: t.elem}
	if mp == nil {
		return it
	}
	m.raceMap(mp, false)
	for i := range mp.ents {
		if !mp.ents[i].deleted {
			it.order = append(it.order, i)
		}
	}
	if m.path != nil && m.path.mapOrder > 0 && len(it.order) > 1 && fr.fn.mapOrd {
		n := len(it.order)
		if m.path.mapOrder == 1 || n > 4 {
			// forward or reverse
			if m.choice("maporder", 2) == 1 {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
		} else {
			for i := 0; i < n-1; i++ {
				j := i + m.choice("maporder", n-i)
				x := it.order[j]
				copy(it.order[i+1:j+1], it.order[i:j])
				it.order[i] = x
			}
		}
	}
	return it
}

func (it *mapIter) next(fr *Frame) Value {
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if i >= len(it.mp.ents) {
			continue
		}
		e := &it.mp.ents[i]
		if e.deleted {
			continue
		}
		fr.m.raceMap(it.mp, false)
		return vTuple(vBool(true), e.k, e.v)
	}
	return vTuple(vBool(false), zeroOf(it.kt), zeroOf(it.vt))
}

func zeroOf(t *TI) Value {
	if t == nil || t.leaf() {
		return Value{}
	}
	return Value{p: &Agg{make([]Value, t.size)}}
}

type strIter struct {
	s   Value
	pos int
}

// step decodes one rune.
func (it *strIter) step(m *Machine) (bool, int, Value) {
	n := strLen(it.s)
	if it.pos >= n {
		return false, 0, Value{}
	}
	start := it.pos
	b := strByte(it.s, it.pos)
	if t := b.sym(); t != nil {
		if m.branch(m.tt.Cmp(OpULt, t, m.tt.Const(8, 0x80))) {
			it.pos++
			return true, start, Value{p: m.tt.Resize(t, 32, false)}
		}
		// Non-ASCII: concretize the bytes involved.
		var bs []byte
		for i := it.pos; i < n && i < it.pos+4; i++ {
			x := strByte(it.s, i)
			if x.p != nil {
				x = Value{n: uint64(m.concretize(x, m.uint8T))}
			}
			bs = append(bs, byte(x.n))
		}
		r, sz := decodeRune(bs)
		it.pos += sz
		return true, start, Value{n: normInt(runeTI, uint64(r))}
	}
	if b.n < 0x80 {
		it.pos++
		return true, start, Value{n: b.n}
	}
	var bs []byte
	for i := it.pos; i < n && i < it.pos+4; i++ {
		x := strByte(it.s, i)
		if x.p != nil {
			x = Value{n: uint64(m.concretize(x, m.uint8T))}
		}
		bs = append(bs, byte(x.n))
	}
	r, sz := decodeRune(bs)
	it.pos += sz
	return true, start, Value{n: uint64(r)}
}

func (it *strIter) next(fr *Frame) Value {
	ok, i, r := it.step(fr.m)
	return vTuple(vBool(ok), Value{n: uint64(i)}, r)
}

// --- indexing

// index checks and concretizes an index.
func (m *Machine) index(fr *Frame, v Value, t *TI, n int) int {
	if v.p == nil {
		if t.sgn && int64(v.n) < 0 || v.n >= uint64(n) {
			m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", int64(v.n), n))
		}
		return int(v.n)
	}
	x := m.term(v, t)
	if !m.branch(m.tt.Cmp(OpULt, m.tt.Resize(x, 64, t.sgn), m.tt.Const(64, uint64(n)))) {
		m.rtPanic(fr, fmt.Sprintf("index out of range with length %d", n))
	}
	return int(m.concretize(v, t))
}

func (m *Machine) sliceIdx(fr *Frame, v Value, max int64) int64 {
	if v.p == nil {
		return int64(v.n)
	}
	x := v.p.(*Term)
	if !m.branch(m.tt.Cmp(OpULe, m.tt.Resize(x, 64, true), m.tt.Const(64, uint64(max)))) {
		m.rtPanic(fr, fmt.Sprintf("slice bounds out of range with capacity %d", max))
	}
	return m.concretize(v, m.intT)
}

func (m *Machine) strIndex(fr *Frame, s, ix Value, it *TI) Value {
	n := strLen(s)
	if ix.p != nil {
		x := m.term(ix, it)
		if !m.branch(m.tt.Cmp(OpULt, m.tt.Resize(x, 64, it.sgn), m.tt.Const(64, uint64(n)))) {
			m.rtPanic(fr, fmt.Sprintf("index out of range with length %d", n))
		}
		// ITE over the bytes.
		b := strBytes(s)
		return m.fromTerm(m.iteRuns(x, b, m.uint8T), m.uint8T)
	}
	if int64(ix.n) < 0 || ix.n >= uint64(n) {
		m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", int64(ix.n), n))
	}
	return strByte(s, int(ix.n))
}

// iteRuns builds the value of vals[x].
func (m *Machine) iteRuns(x *Term, vals []Value, t *TI) *Term {
	var r *Term
	i := len(vals) - 1
	r = m.term(vals[i], t)
	for i > 0 {
		j := i
		v := vals[i]
		for j > 0 && vals[j-1].p == v.p && vals[j-1].n == v.n {
			j--
		}
		// vals[j..i] are all v; r is the value for indexes > i.
		tv := m.term(v, t)
		if r != tv {
			r = m.tt.Ite(m.tt.Cmp(OpULe, x, m.tt.Const(x.w, uint64(i))), tv, r)
		}
		i = j - 1
		if i == 0 && j > 0 {
			r = m.tt.Ite(m.tt.Cmp(OpULe, x, m.tt.Const(x.w, 0)), m.term(vals[0], t), r)
		}
	}
	return r
}

func (m *Machine) symIndexLoad(fr *Frame, o *Obj, base, n, esz int, iv Value, it, et *TI) *Term {
	x, ok := iv.p.(*Term)
	if !ok || n == 0 {
		return nil
	}
	if !m.branch(m.tt.Cmp(OpULt, m.tt.Resize(x, 64, it.sgn), m.tt.Const(64, uint64(n)))) {
		m.rtPanic(fr, fmt.Sprintf("index out of range with length %d", n))
	}
	lim := n
	if x.w < 63 && uint64(lim) > mask(x.w)+1 {
		lim = int(mask(x.w) + 1)
	}
	if x.op == OpZExt && x.a.w < 63 && uint64(lim) > mask(x.a.w)+1 {
		lim = int(mask(x.a.w) + 1)
	}
	for i := 0; i < lim; i++ {
		if v := o.cells[base+i*esz]; v.p != nil {
			if _, ok := v.p.(*Term); !ok {
				return nil
			}
		}
	}
	return m.iteRuns(x, o.cells[base:base+lim], et)
}

// --- runtime panics

func (m *Machine) rtPanic(fr *Frame, msg string) {
	t := m.p.namedType("runtime", "errorString")
	panic(&goPanic{v: Value{p: &Iface{t: t, v: vStr(msg)}}, where: fr.stack(), rt: true})
}

func (m *Machine) goPanicStr(fr *Frame, msg string) {
	t := m.p.namedType("runtime", "plainError")
	panic(&goPanic{v: Value{p: &Iface{t: t, v: vStr(msg)}}, where: fr.stack(), rt: true})
}

func (m *Machine) nilDeref(fr *Frame) {
	m.rtPanic(fr, "invalid memory address or nil pointer dereference")
}

func (m *Machine) typeAssertPanic(fr *Frame, ifc *Iface, at *TI) {
	dyn := "nil"
	if ifc != nil {
		dyn = ifc.t.String()
	}
	m.rtPanic(fr, "interface conversion: interface is "+dyn+", not "+at.String())
}

func (p *Program) namedType(pkg, name string) *TI {
	pk := p.pkgs[pkg]
	if pk == nil {
		panic(pathEnd{endUnsupported, "package " + pkg + " not loaded"})
	}
	obj := pk.Pkg.Scope().Lookup(name)
	if obj == nil {
		panic(pathEnd{endUnsupported, "type " + pkg + "." + name + " not found"})
	}
	return p.ti(obj.Type())
}

func (p *Program) ptrTo(t *TI) *TI { return p.ti(types.NewPointer(t.t)) }

func (m *Machine) unsupported(msg string) {
	where := ""
	if m.g != nil && m.g.top != nil {
		where = " at " + m.g.top.stack()
	}
	panic(pathEnd{endUnsupported, msg + where})
}

// --- calls

func (m *Machine) callValue(fr *Frame, fv Value, args []Value) Value {
	c, _ := fv.p.(*Closure)
	if c == nil {
		m.nilDeref(fr)
	}
	if c.host != nil {
		return c.host(m, m.g, args)
	}
	return m.call(fr, c.fn, args, c.free)
}

const maxDepth = 1500

func (m *Machine) call(caller *Frame, f *Func, args []Value, free []Value) Value {
	if f.used.Load() == 0 {
		f.used.Store(1)
	}
	if f.pre != "" {
		m.yieldFrom(caller, f.pre)
	}
	if f.fast != nil {
		if v, ok := f.fast(&Call{m: m, g: m.g, fr: caller, fn: f, args: args}); ok {
			return v
		}
	}
	if f.intr != nil {
		return f.intr(&Call{m: m, g: m.g, fr: caller, fn: f, args: args})
	}
	if f.redirect != "" {
		tf := m.p.redirTarget(f)
		if tf == nil {
			m.unsupported("redirect target " + f.redirect + " missing")
		}
		return m.call(caller, tf, args, nil)
	}
	if f.deny != "" {
		if m.inSetup && caller != nil && (caller.fn.pkg == "go/constant" || caller.fn.pkg == "go/types") {
			if f.res == nil {
				return Value{}
			}
			return zeroOf(f.res)
		}
		panic(pathEnd{endUnsupported, "call of " + f.name + " (" + f.deny + ") at " + frStack(caller)})
	}
	f.ensure()
	if f.blocks == nil {
		panic(pathEnd{endUnsupported, "no body for " + f.name + " at " + frStack(caller)})
	}
	g := m.g
	g.depth++
	if g.depth > maxDepth {
		m.x.candidate(m, "stack overflow (recursion deeper than "+fmt.Sprint(maxDepth)+" calls) at "+frStack(caller))
		panic(pathEnd{endViolation, "stack overflow"})
	}
	fr := &Frame{m: m, g: g, fn: f, caller: caller, slots: make([]Value, f.nslots)}
	copy(fr.slots, args)
	copy(fr.slots[f.nparams:], free)
	g.top = fr
	savedRace := g.noRace
	if f.model {
		g.noRace = true
	} else if f.inRepo {
		g.noRace = false
	}
	fr.noRace = g.noRace
	if f.hasDefer {
		fr.runWithDefers()
	} else {
		fr.loop(f.blocks[0])
	}
	g.noRace = savedRace
	g.top = caller
	g.depth--
	return fr.result
}

func frStack(fr *Frame) string {
	if fr == nil {
		return "(top)"
	}
	return fr.stack()
}

func (fr *Frame) loop(b *Block) {
	m := fr.m
	for b != nil {
		fr.blk = b
		m.steps += int64(b.n)
		if profiling {
			fr.fn.cnt.Add(int64(b.n))
		}
		if m.steps > m.limit {
			m.stepLimit(fr)
		}
		for i, op := range b.ops {
			fr.ip = i
			op(fr)
		}
		fr.ip = len(b.ops)
		b = b.term(fr)
	}
}

func (m *Machine) stepLimit(fr *Frame) {
	if m.inSetup {
		panic(pathEnd{endLimit, "step limit in initialization"})
	}
	if m.x.timeUp() {
		panic(pathEnd{endLimit, "time budget"})
	}
	if m.opts != nil && m.opts.Terminates {
		m.x.candidate(m, fmt.Sprintf("no termination within %d instructions at %s", m.limit, fr.stack()))
		panic(pathEnd{endViolation, "non-termination"})
	}
	panic(pathEnd{endLimit, fmt.Sprintf("step limit %d at %s", m.limit, fr.stack())})
}

func (fr *Frame) runWithDefers() {
	start := fr.fn.blocks[0]
	for {
		if fr.protect(func() { fr.loop(start) }) {
			return
		}
		fr.g.top = fr
		fr.g.depth = fr.baseDepth()
		fr.g.noRace = fr.noRace
		fr.runDefers()
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.fn.recov == nil {
			fr.result = zeroOf(fr.fn.res)
			if fr.fn.res != nil && fr.fn.res.kind == KTuple {
				vs := make([]Value, len(fr.fn.res.flds))
				for i, f := range fr.fn.res.flds {
					vs[i] = zeroOf(f)
				}
				fr.result = vTuple(vs...)
			}
			return
		}
		start = fr.fn.recov
	}
}

func (fr *Frame) baseDepth() int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
	}
	return n
}

// protect runs f, turning a Go panic into fr.panicking.
func (fr *Frame) protect(f func()) (ok bool) {
	defer func() {
		if ok {
			return
		}
		r := recover()
		if gp, isgo := r.(*goPanic); isgo {
			fr.panicking = gp
			return
		}
		panic(r)
	}()
	f()
	ok = true
	return
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		th := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if fr.panicking != nil {
			if !fr.protect(func() { fr.runThunk(th, true) }) {
				fr.g.top = fr
				fr.g.depth = fr.baseDepth()
				fr.g.noRace = fr.noRace
			}
			continue
		}
		fr.runThunk(th, true)
	}
}

func (fr *Frame) runThunk(th thunk, deferred bool) {
	if th.noop {
		return
	}
	m := fr.m
	if th.host != nil {
		// A builtin: recover() called directly by defer does nothing useful.
		th.host(fr, th.args)
		return
	}
	if th.fn == nil {
		m.nilDeref(fr)
	}
	m.call(fr, th.fn, th.args, th.free)
}

// doRecover implements the recover builtin called in frame fr.
func (fr *Frame) doRecover() Value {
	// fr is the deferred function; its caller is the frame running defers.
	c := fr.caller
	if c != nil && c.panicking != nil && !c.panicking.exit {
		v := c.panicking.v
		c.panicking = nil
		if v.p == nil {
			t := fr.m.p.namedType("runtime", "errorString")
			return Value{p: &Iface{t: t, v: vStr("panic called with nil argument")}}
		}
		return v
	}
	return Value{}
}

// prepCall evaluates a call for go/defer.
func (c *fcomp) prepCall(cc *ssa.CallCommon) func(fr *Frame) thunk {
	p := c.p
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	evalArgs := func(fr *Frame, pre ...Value) []Value {
		vs := make([]Value, 0, len(args)+len(pre))
		vs = append(vs, pre...)
		for _, a := range args {
			vs = append(vs, fr.get(a))
		}
		return vs
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		mname, mpkg := cc.Method.Name(), cc.Method.Pkg()
		return func(fr *Frame) thunk {
			ifc, _ := fr.get(x).p.(*Iface)
			if ifc == nil {
				fr.m.nilDeref(fr)
			}
			f := p.method(ifc.t, mpkg, mname)
			if f == nil {
				fr.m.unsupported("method " + mname + " of " + ifc.t.String())
			}
			return thunk{fn: f, args: evalArgs(fr, ifc.v)}
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		h := c.builtin(v, cc)
		return func(fr *Frame) thunk { return thunk{host: h, args: evalArgs(fr), name: v.Name()} }
	case *ssa.Function:
		f := p.fun(v)
		return func(fr *Frame) thunk { return thunk{fn: f, args: evalArgs(fr)} }
	}
	x := c.op(cc.Value)
	return func(fr *Frame) thunk {
		cl, _ := fr.get(x).p.(*Closure)
		if cl == nil {
			return thunk{}
		}
		if cl.host != nil {
			a := evalArgs(fr)
			return thunk{host: func(fr *Frame, args []Value) Value { return cl.host(fr.m, fr.g, a) }}
		}
		return thunk{fn: cl.fn, args: evalArgs(fr), free: cl.free}
	}
}

func (c *fcomp) callCommon(cc *ssa.CallCommon, in *ssa.Call) func(fr *Frame) Value {
	p := c.p
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		mname, mpkg := cc.Method.Name(), cc.Method.Pkg()
		var lastT *TI
		var lastF *Func
		_ = lastT
		_ = lastF
		return func(fr *Frame) Value {
			ifc, _ := fr.get(x).p.(*Iface)
			if ifc == nil {
				fr.m.nilDeref(fr)
			}
			f := p.method(ifc.t, mpkg, mname)
			if f == nil {
				fr.m.unsupported("method " + mname + " of " + ifc.t.String())
			}
			vs := make([]Value, 1+len(args))
			vs[0] = ifc.v
			for i, a := range args {
				vs[i+1] = fr.get(a)
			}
			return fr.m.call(fr, f, vs, nil)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		h := c.builtin(v, cc)
		return func(fr *Frame) Value {
			vs := make([]Value, len(args))
			for i, a := range args {
				vs[i] = fr.get(a)
			}
			return h(fr, vs)
		}
	case *ssa.Function:
		f := p.fun(v)
		return func(fr *Frame) Value {
			vs := make([]Value, len(args))
			for i, a := range args {
				vs[i] = fr.get(a)
			}
			return fr.m.call(fr, f, vs, nil)
		}
	}
	x := c.op(cc.Value)
	return func(fr *Frame) Value {
		vs := make([]Value, len(args))
		for i, a := range args {
			vs[i] = fr.get(a)
		}
		return fr.m.callValue(fr, fr.get(x), vs)
	}
}

var msLock sync.Mutex

// method finds the implementation of a method for dynamic type t.
func (p *Program) method(t *TI, pkg *types.Package, name string) *Func {
	key := name
	if pkg != nil && !isExported(name) {
		key = pkg.Path() + "." + name
	}
	t.msMu.Lock()
	f, ok := t.ms[key]
	t.msMu.Unlock()
	if ok {
		return f
	}
	msLock.Lock()
	sel := p.prog.MethodSets.MethodSet(t.t).Lookup(pkg, name)
	var fn *ssa.Function
	if sel != nil {
		fn = p.prog.MethodValue(sel)
	}
	msLock.Unlock()
	if fn != nil {
		f = p.fun(fn)
	}
	t.msMu.Lock()
	if t.ms == nil {
		t.ms = map[string]*Func{}
	}
	t.ms[key] = f
	t.msMu.Unlock()
	return f
}

func isExported(name string) bool {
	return name != "" && name[0] >= 'A' && name[0] <= 'Z'
}

// callMethod calls a named method on an interface value.
func (m *Machine) callMethod(fr *Frame, ifc *Iface, name string, args ...Value) Value {
	f := m.p.method(ifc.t, nil, name)
	if f == nil {
		m.unsupported("method " + name + " of " + ifc.t.String())
	}
	return m.call(fr, f, append([]Value{ifc.v}, args...), nil)
}

func (m *Machine) hasMethod(ifc *Iface, name string) bool {
	return ifc != nil && m.p.method(ifc.t, nil, name) != nil
}

var redirCache syncMap[string, *Func]

func (p *Program) redirTarget(f *Func) *Func {
	name := f.redirect
	if tf, ok := redirCache.load(name); ok {
		return tf
	}
	fn := p.lookupFunc(name)
	if fn == nil {
		return nil
	}
	tf := p.fun(fn)
	redirCache.store(name, tf)
	return tf
}

// lookupFunc finds "pkgpath.Func".
func (p *Program) lookupFunc(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	pk := p.pkgs[name[:i]]
	if pk == nil {
		return nil
	}
	return pk.Func(name[i+1:])
}

var _ = sort.Strings
var _ = time.Now
