package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// --- liveness of slots

var liveMu sync.Mutex

type liveInfo struct {
	out map[*Block][]bool         // live at the end of the ops, before the terminator
	at  map[*Block]map[int][]bool // live after op ip has been started
	ops map[*Block][]ssa.Instruction
	ssb map[*Block]*ssa.BasicBlock
}

var liveCache = map[*Func]*liveInfo{}

// live returns the slots still needed by the frame, counting the operands of
// the instruction being executed as consumed.
func (fr *Frame) live() []bool {
	if fr.fn.fn == nil || fr.blk == nil || fr.panicking != nil {
		return nil
	}
	liveMu.Lock()
	defer liveMu.Unlock()
	li := liveCache[fr.fn]
	if li == nil {
		li = computeLive(fr.fn)
		liveCache[fr.fn] = li
	}
	at := li.at[fr.blk]
	if at == nil {
		return nil
	}
	return at[fr.ip]
}

func computeLive(f *Func) *liveInfo {
	li := &liveInfo{at: map[*Block]map[int][]bool{}}
	fn := f.fn
	slots := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		slots[p] = n
		n++
	}
	for _, v := range fn.FreeVars {
		slots[v] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := slots[v]; !ok {
					slots[v] = n
					n++
				}
			}
		}
	}
	use := func(live []bool, in ssa.Instruction) {
		for _, o := range in.Operands(nil) {
			if *o == nil {
				continue
			}
			if s, ok := slots[*o]; ok {
				live[s] = true
			}
		}
	}
	liveIn := map[*ssa.BasicBlock][]bool{}
	for _, b := range fn.Blocks {
		liveIn[b] = make([]bool, n)
	}
	outOf := func(b *ssa.BasicBlock) []bool {
		out := make([]bool, n)
		for _, s := range b.Succs {
			for i, l := range liveIn[s] {
				if l {
					out[i] = true
				}
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range s.Preds {
					if p == b {
						if sl, ok := slots[phi.Edges[i]]; ok {
							out[sl] = true
						}
					}
				}
			}
		}
		return out
	}
	// Values used by the recover block stay live throughout.
	rec := make([]bool, n)
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			use(rec, in)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := outOf(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					l[slots[v]] = false
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				use(l, in)
			}
			for k := range l {
				if l[k] != liveIn[b][k] {
					liveIn[b] = l
					changed = true
					break
				}
			}
		}
	}
	for bi, b := range fn.Blocks {
		blk := f.blocks[bi]
		// Walk the instructions backwards, numbering ops as compiled.
		ops := 0
		idx := map[int]int{} // instr index -> op index
		for j, in := range b.Instrs {
			if j == len(b.Instrs)-1 {
				idx[j] = ops
				break
			}
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			idx[j] = ops
			ops++
		}
		l := outOf(b)
		for k := range rec {
			if rec[k] {
				l[k] = true
			}
		}
		at := map[int][]bool{}
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			in := b.Instrs[j]
			if o, ok := idx[j]; ok {
				c := append([]bool(nil), l...)
				if v, ok := in.(ssa.Value); ok {
					c[slots[v]] = false
				}
				at[o] = c
			}
			if v, ok := in.(ssa.Value); ok {
				l[slots[v]] = false
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			use(l, in)
		}
		li.at[blk] = at
	}
	return li
}

// --- canonical state hashing

type hasher struct {
	m      *Machine
	sb     strings.Builder
	lab    map[any]int
	queue  []any
	gidx   map[int]int // goroutine id -> canonical index
	gs     []*G
	syncIx []cellKey
}

func (h *hasher) w(f string, a ...any) { fmt.Fprintf(&h.sb, f, a...) }

func (h *hasher) label(x any) int {
	if l, ok := h.lab[x]; ok {
		return l
	}
	l := len(h.lab) + 1
	h.lab[x] = l
	h.queue = append(h.queue, x)
	return l
}

func (h *hasher) obj(o *Obj) {
	if o.setup {
		// Setup objects are named by identity; modified ones are roots.
		h.w("S%d", o.id)
		if o.gidx != 0 {
			h.w("g%d", o.gidx)
		}
		return
	}
	h.w("o%d", h.label(o))
}

func (h *hasher) val(v Value) {
	switch p := v.p.(type) {
	case nil:
		h.w("%d,", v.n)
	case string:
		h.w("%q,", p)
	case *Term:
		h.w("t%x,", p.h)
	case *SymStr:
		h.w("s[")
		for _, b := range p.b {
			h.val(b)
		}
		h.w("]")
	case *Obj:
		h.obj(p)
		h.w("+%d,", v.n)
	case *Slice:
		h.w("sl")
		h.obj(p.o)
		h.w("+%d:%d:%d,", p.base, p.len, p.cap)
	case *Agg:
		h.w("{")
		for _, c := range p.c {
			h.val(c)
		}
		h.w("}")
	case *Iface:
		h.w("i%d:", p.t.id)
		h.val(p.v)
	case *Closure:
		if p.fn != nil {
			h.w("f%s(", p.fn.fn.String())
		} else {
			h.w("fh%s(", p.name)
		}
		for _, c := range p.free {
			h.val(c)
		}
		h.w(")")
	case *Map:
		if p.setup {
			h.w("SM%d,", p.id)
			return
		}
		h.w("m%d,", h.label(p))
	case *Chan:
		h.w("c%d,", h.label(p))
	case *mapIter:
		h.w("it%v@%d,", p.order, p.pos)
		if p.mp != nil {
			h.val(Value{p: p.mp})
		}
	case *strIter:
		h.w("sit%d,", p.pos)
		h.val(p.s)
	case *TI:
		h.w("T%d,", p.id)
	case *reflVal:
		h.w("rv%d/%d,", p.t.id, p.off)
		h.val(p.v)
		if p.o != nil {
			h.obj(p.o)
		}
	case *Frame:
		h.w("fr")
	case complex128, int, bool:
		h.w("h%v,", p)
	default:
		h.m.unsupported(fmt.Sprintf("hashing %T", p))
	}
}

func (h *hasher) drain() {
	for len(h.queue) > 0 {
		x := h.queue[0]
		h.queue = h.queue[1:]
		switch x := x.(type) {
		case *Obj:
			h.w("O%d:", h.lab[x])
			for _, c := range x.cells {
				h.val(c)
			}
			h.shadow(x.shad)
		case *Map:
			h.w("M%d:", h.lab[x])
			h.mapContents(x)
			h.shadow(x.shad)
		case *Chan:
			h.w("C%d:%v:", h.lab[x], x.closed)
			for _, v := range x.buf {
				h.val(v)
			}
			for _, w := range x.recvq {
				h.w("r%d/%d", h.gi(w.g), w.idx)
			}
			for _, w := range x.sendq {
				h.w("s%d/%d", h.gi(w.g), w.idx)
				h.val(w.val)
			}
		}
	}
}

func (h *hasher) mapContents(x *Map) {
	for i := range x.ents {
		e := &x.ents[i]
		if e.deleted {
			continue
		}
		h.val(e.k)
		h.w("=>")
		h.val(e.v)
	}
}

func (h *hasher) gi(g *G) int {
	if i, ok := h.gidx[g.id]; ok {
		return i
	}
	return -1
}

// covered describes which live goroutines (and sync objects) know an epoch.
func (h *hasher) covered(e epoch) (string, bool) {
	all := true
	var sb strings.Builder
	for _, g := range h.gs {
		if g.id == e.g || e.c <= g.vc.get(e.g) {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
			all = false
		}
	}
	if all {
		return "", true
	}
	sb.WriteByte('/')
	for _, k := range h.syncIx {
		if e.c <= h.m.path.syncVC[k].get(e.g) {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	return sb.String(), false
}

func (h *hasher) shadow(s *shadow) {
	if s == nil || !h.m.path.race {
		return
	}
	for i := range s.c {
		c := &s.c[i]
		if c.hasW {
			if d, all := h.covered(c.w); !all {
				h.w("w%d:%s;", i, d)
			}
		}
		var rs []string
		for _, r := range c.reads {
			if d, all := h.covered(r); !all {
				rs = append(rs, d)
			}
		}
		sort.Strings(rs)
		for j, r := range rs {
			if j > 0 && r == rs[j-1] {
				continue
			}
			h.w("r%d:%s;", i, r)
		}
	}
}

type stateKey [16]byte

func (m *Machine) stateHash() stateKey {
	h := &hasher{m: m, lab: map[any]int{}, gidx: map[int]int{}}
	for _, g := range m.gs {
		if !g.done {
			h.gs = append(h.gs, g)
		}
	}
	sort.Slice(h.gs, func(i, j int) bool { return h.gs[i].path < h.gs[j].path })
	for i, g := range h.gs {
		h.gidx[g.id] = i
	}
	// Sync objects whose clock is not already known to every live goroutine.
	for _, k := range m.path.syncOrder {
		vc := m.path.syncVC[k]
		rel := false
		for _, g := range h.gs {
			for i, c := range vc {
				if i != g.id && c > g.vc.get(i) {
					rel = true
				}
			}
		}
		if rel {
			h.syncIx = append(h.syncIx, k)
		}
	}
	// Canonical order for sync objects is by label; label by visiting later, so
	// first do a pass to assign labels without shadows.
	if len(h.syncIx) > 1 {
		pre := &hasher{m: m, lab: map[any]int{}, gidx: h.gidx, gs: h.gs}
		pre.roots()
		type kk struct {
			k cellKey
			s string
		}
		var ks []kk
		for _, k := range h.syncIx {
			if !k.o.setup {
				if _, ok := pre.lab[k.o]; !ok {
					continue // unreachable: irrelevant
				}
			}
			ks = append(ks, kk{k, fmt.Sprintf("%v/%d/%d/%d", k.o.setup, k.o.id*b2i(k.o.setup), pre.lab[k.o], k.off)})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
		h.syncIx = h.syncIx[:0]
		for _, k := range ks {
			h.syncIx = append(h.syncIx, k.k)
		}
	}
	h.roots()
	// Path condition, excluding scheduling choices.
	var pcs []uint64
	for _, t := range m.path.pc {
		sched := true
		for _, v := range m.termVars(t) {
			if !strings.HasPrefix(v, "sched#") && !strings.HasPrefix(v, "select#") {
				sched = false
				break
			}
		}
		if !sched {
			pcs = append(pcs, t.h)
		}
	}
	sort.Slice(pcs, func(i, j int) bool { return pcs[i] < pcs[j] })
	h.w("PC%x", pcs)
	if m.path.vtime != 0 || len(m.path.sleepers) != 0 {
		h.w("T%d%v", m.path.vtime, m.path.sleepers)
	}
	for _, k := range sortedKeys(m.path.nvars) {
		if k == "sched" || k == "select" {
			continue
		}
		h.w("n%s=%d", k, m.path.nvars[k])
	}
	h.w("P%d", m.path.preempt)
	f := fnv.New128a()
	f.Write([]byte(h.sb.String()))
	var k stateKey
	copy(k[:], f.Sum(nil))
	return k
}

func (h *hasher) roots() {
	m := h.m
	for i, g := range h.gs {
		rdy := g.ready == nil || g.ready()
		h.w("G%d:%s:%s:%v:%d:", i, g.path, g.what, rdy, g.nspawn)
		if g == m.g && m.path.preempt >= 0 {
			h.w("*")
		}
		if g.top == nil && !g.done {
			for _, a := range g.start.args {
				h.val(a)
			}
			for _, a := range g.start.free {
				h.val(a)
			}
		}
		for fr := g.top; fr != nil; fr = fr.caller {
			bi := -1
			if fr.blk != nil {
				bi = fr.blk.idx
			}
			h.w("F%s@%d.%d(", fr.fn.name, bi, fr.ip)
			live := fr.live()
			for i, s := range fr.slots {
				if live == nil || live[i] {
					h.w("%d:", i)
					h.val(s)
				}
			}
			h.w(")")
			for _, d := range fr.defers {
				h.w("D")
				if d.fn != nil {
					h.w("%s", d.fn.name)
				} else {
					h.w("%s", d.name)
				}
				for _, a := range d.args {
					h.val(a)
				}
				for _, a := range d.free {
					h.val(a)
				}
			}
			if fr.panicking != nil {
				h.w("P")
				h.val(fr.panicking.v)
			}
		}
	}
	// Modified setup state.
	type dc struct {
		o   *Obj
		off int
	}
	seen := map[dc]bool{}
	var ds []dc
	var dm []*Map
	seenM := map[*Map]bool{}
	for _, u := range m.undo {
		if u.mp != nil {
			if !seenM[u.mp] {
				seenM[u.mp] = true
				dm = append(dm, u.mp)
			}
			continue
		}
		k := dc{u.o, u.off}
		if !seen[k] {
			seen[k] = true
			ds = append(ds, k)
		}
	}
	sort.Slice(ds, func(i, j int) bool {
		if ds[i].o.id != ds[j].o.id {
			return ds[i].o.id < ds[j].o.id
		}
		if ds[i].o.gidx != ds[j].o.gidx {
			return ds[i].o.gidx < ds[j].o.gidx
		}
		return ds[i].off < ds[j].off
	})
	for _, d := range ds {
		h.w("d%d.%d.%d=", d.o.id, d.o.gidx, d.off)
		h.val(d.o.cells[d.off])
	}
	sort.Slice(dm, func(i, j int) bool { return dm[i].id < dm[j].id })
	for _, mp := range dm {
		h.w("dm%d=", mp.id)
		h.mapContents(mp)
	}
	if m.path.race {
		dos := append([]*Obj(nil), m.dirtyObj...)
		sort.Slice(dos, func(i, j int) bool {
			if dos[i].id != dos[j].id {
				return dos[i].id < dos[j].id
			}
			return dos[i].gidx < dos[j].gidx
		})
		for _, o := range dos {
			if o.shad != nil {
				h.w("ds%d", o.id)
				h.shadow(o.shad)
			}
		}
		dms := append([]*Map(nil), m.undoMap...)
		sort.Slice(dms, func(i, j int) bool { return dms[i].id < dms[j].id })
		for _, mp := range dms {
			h.w("dms%d", mp.id)
			h.shadow(mp.shad)
		}
	}
	h.drain()
	// Waiters on condition variables.
	var cs []string
	for k, c := range m.path.conds {
		if len(c.waiters) == 0 {
			continue
		}
		s := fmt.Sprintf("%v%d.%d:", k.o.setup, h.lab[k.o], k.off)
		for _, w := range c.waiters {
			s += fmt.Sprintf("%d,", h.gi(w.g))
		}
		cs = append(cs, s)
	}
	sort.Strings(cs)
	h.w("CV%v", cs)
}
