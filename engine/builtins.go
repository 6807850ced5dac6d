package main

import (
	"fmt"
	"math"
	"unicode/utf8"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func f64(v Value) float64 { return math.Float64frombits(v.n) }

func decodeRune(b []byte) (rune, int) {
	r, n := utf8.DecodeRune(b)
	if n == 0 {
		n = 1
	}
	return r, n
}

var runeTI = &TI{kind: KInt, w: 32, sgn: true, size: 1}

// appendVals is append(s, vals...) where vals are the flattened cells of n elements.
func (m *Machine) appendCells(s Value, et *TI, cells []Value, n int) Value {
	sl, _ := s.p.(*Slice)
	if n == 0 {
		return s
	}
	l, c := 0, 0
	if sl != nil {
		l, c = sl.len, sl.cap
	}
	if l+n <= c {
		off := sl.base + l*et.size
		m.raceWriteRange(sl.o, off, n*et.size)
		for i, v := range cells {
			m.setCell(sl.o, off+i, v)
		}
		return Value{p: &Slice{o: sl.o, base: sl.base, len: l + n, cap: c}}
	}
	nc := growCap(c, l+n, et)
	o := m.newArr(et, nc)
	if sl != nil {
		m.raceReadRange(sl.o, sl.base, l*et.size)
		copy(o.cells, sl.o.cells[sl.base:sl.base+l*et.size])
	}
	copy(o.cells[l*et.size:], cells)
	return Value{p: &Slice{o: o, len: l + n, cap: nc}}
}

// byteSize is the approximate size in bytes of an element.
func byteSize(t *TI) int {
	switch t.kind {
	case KBool:
		return 1
	case KInt, KFloat:
		return int(t.w) / 8
	case KString, KIface:
		return 16
	case KSlice:
		return 24
	case KComplex:
		return 16
	case KStruct:
		n := 0
		for _, f := range t.flds {
			n += byteSize(f)
		}
		return n
	case KArray:
		return t.alen * byteSize(t.elem)
	}
	return 8
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need int, et *TI) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	sz := byteSize(et)
	if sz == 0 {
		return nc
	}
	total := nc * sz
	for _, c := range sizeClasses {
		if c >= total {
			total = c
			break
		}
	}
	if total > 32768 {
		total = (total + 8191) / 8192 * 8192
	}
	return total / sz
}

func (c *fcomp) builtin(v *ssa.Builtin, cc *ssa.CallCommon) func(fr *Frame, args []Value) Value {
	p := c.p
	var at []*TI
	for _, a := range cc.Args {
		at = append(at, p.ti(a.Type()))
	}
	sig, _ := v.Type().(*types.Signature)
	var rt *TI
	if sig != nil && sig.Results().Len() == 1 {
		rt = p.ti(sig.Results().At(0).Type())
	}
	switch v.Name() {
	case "append":
		et := at[0].elem
		if et == nil && rt != nil {
			et = rt.elem
		}
		if len(cc.Args) == 1 {
			return func(fr *Frame, a []Value) Value { return a[0] }
		}
		if at[1].kind == KString {
			return func(fr *Frame, a []Value) Value {
				b := strBytes(a[1])
				return fr.m.appendCells(a[0], et, b, len(b))
			}
		}
		return func(fr *Frame, a []Value) Value {
			s2, _ := a[1].p.(*Slice)
			if s2 == nil || s2.len == 0 {
				return a[0]
			}
			fr.m.raceReadRange(s2.o, s2.base, s2.len*et.size)
			cells := append([]Value(nil), s2.o.cells[s2.base:s2.base+s2.len*et.size]...)
			return fr.m.appendCells(a[0], et, cells, s2.len)
		}
	case "copy":
		et := at[0].elem
		return func(fr *Frame, a []Value) Value {
			d, _ := a[0].p.(*Slice)
			if d == nil {
				return Value{}
			}
			var src []Value
			n := 0
			if at[1].kind == KString {
				src = strBytes(a[1])
				n = len(src)
			} else if s, _ := a[1].p.(*Slice); s != nil {
				n = s.len
				if d.len < n {
					n = d.len
				}
				fr.m.raceReadRange(s.o, s.base, n*et.size)
				src = append([]Value(nil), s.o.cells[s.base:s.base+n*et.size]...)
			}
			if d.len < n {
				n = d.len
			}
			fr.m.raceWriteRange(d.o, d.base, n*et.size)
			if d.o.setup && !fr.m.inSetup {
				for i := 0; i < n*et.size; i++ {
					fr.m.setCell(d.o, d.base+i, src[i])
				}
			} else {
				copy(d.o.cells[d.base:], src[:n*et.size])
			}
			return vInt(int64(n))
		}
	case "len":
		t := at[0]
		return func(fr *Frame, a []Value) Value {
			switch t.kind {
			case KString:
				return vInt(int64(strLen(a[0])))
			case KSlice:
				if s, _ := a[0].p.(*Slice); s != nil {
					return vInt(int64(s.len))
				}
			case KMap:
				if mp, _ := a[0].p.(*Map); mp != nil {
					fr.m.raceMap(mp, false)
					return vInt(int64(mp.live))
				}
			case KChan:
				if ch, _ := a[0].p.(*Chan); ch != nil {
					return vInt(int64(len(ch.buf)))
				}
			case KArray:
				return vInt(int64(t.alen))
			case KPtr:
				return vInt(int64(t.elem.alen))
			}
			return Value{}
		}
	case "cap":
		t := at[0]
		return func(fr *Frame, a []Value) Value {
			switch t.kind {
			case KSlice:
				if s, _ := a[0].p.(*Slice); s != nil {
					return vInt(int64(s.cap))
				}
			case KChan:
				if ch, _ := a[0].p.(*Chan); ch != nil {
					return vInt(int64(ch.cap))
				}
			case KArray:
				return vInt(int64(t.alen))
			case KPtr:
				return vInt(int64(t.elem.alen))
			}
			return Value{}
		}
	case "delete":
		return func(fr *Frame, a []Value) Value {
			mp, _ := a[0].p.(*Map)
			fr.m.mapDelete(fr, mp, a[1])
			return Value{}
		}
	case "clear":
		t := at[0]
		return func(fr *Frame, a []Value) Value {
			switch x := a[0].p.(type) {
			case *Map:
				fr.m.mapClear(x)
			case *Slice:
				fr.m.raceWriteRange(x.o, x.base, x.len*t.elem.size)
				for i := 0; i < x.len*t.elem.size; i++ {
					fr.m.setCell(x.o, x.base+i, Value{})
				}
			}
			return Value{}
		}
	case "print", "println":
		return func(fr *Frame, a []Value) Value { return Value{} }
	case "panic":
		return func(fr *Frame, a []Value) Value {
			panic(&goPanic{v: a[0], where: fr.stack()})
		}
	case "recover":
		return func(fr *Frame, a []Value) Value { return fr.doRecover() }
	case "close":
		return func(fr *Frame, a []Value) Value { fr.m.chanClose(fr, a[0]); return Value{} }
	case "min", "max":
		mx := v.Name() == "max"
		t := at[0]
		return func(fr *Frame, a []Value) Value {
			r := a[0]
			for _, x := range a[1:] {
				var lt *Term
				m := fr.m
				switch t.kind {
				case KInt:
					op := OpULt
					if t.sgn {
						op = OpSLt
					}
					lt = m.tt.Cmp(op, m.term(x, t), m.term(r, t))
					if mx {
						lt = m.tt.Cmp(op, m.term(r, t), m.term(x, t))
					}
					r = m.fromTerm(m.tt.Ite(lt, m.term(x, t), m.term(r, t)), t)
				case KString:
					lt = m.strLess(x, r, false)
					if mx {
						lt = m.strLess(r, x, false)
					}
					if m.branch(lt) {
						r = x
					}
				case KFloat:
					if mx && f64(x) > f64(r) || !mx && f64(x) < f64(r) {
						r = x
					}
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, a []Value) Value {
			if a[0].p == nil {
				s, _ := goStr(a[1])
				s2, _ := goStr(a[2])
				fr.m.goPanicStr(fr, "value method "+s+"."+s2+" called using nil pointer")
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(fr *Frame, a []Value) Value { return Value{p: fr} }
	case "String": // unsafe.String(ptr, len)
		return func(fr *Frame, a []Value) Value {
			n := int(fr.m.concInt(fr, a[1]))
			if n == 0 {
				return Value{}
			}
			o, ok := a[0].p.(*Obj)
			if !ok {
				fr.m.nilDeref(fr)
			}
			off := int(a[0].n)
			fr.m.raceReadRange(o, off, n)
			return mkStr(append([]Value(nil), o.cells[off:off+n]...))
		}
	case "StringData":
		return func(fr *Frame, a []Value) Value {
			b := strBytes(a[0])
			if len(b) == 0 {
				return Value{}
			}
			s := fr.m.bytesSlice(append([]Value(nil), b...), fr.m.uint8T).p.(*Slice)
			return Value{p: s.o}
		}
	case "SliceData":
		return func(fr *Frame, a []Value) Value {
			s, _ := a[0].p.(*Slice)
			if s == nil {
				return Value{}
			}
			return Value{p: s.o, n: uint64(s.base)}
		}
	case "Slice":
		et := at[0].elem
		return func(fr *Frame, a []Value) Value {
			n := int(fr.m.concInt(fr, a[1]))
			o, ok := a[0].p.(*Obj)
			if !ok {
				if n == 0 {
					return Value{}
				}
				fr.m.nilDeref(fr)
			}
			if int(a[0].n)+n*et.size > len(o.cells) {
				fr.m.unsupported("unsafe.Slice beyond the object")
			}
			return Value{p: &Slice{o: o, base: int(a[0].n), len: n, cap: n}}
		}
	case "real", "imag", "complex", "Add", "Sizeof", "Offsetof", "Alignof":
		name := v.Name()
		return func(fr *Frame, a []Value) Value {
			fr.m.unsupported("builtin " + name)
			return Value{}
		}
	}
	panic(fmt.Sprintf("builtin %s", v.Name()))
}

// --- addresses

// addrOf gives a pointer its numeric address: distinct live objects have
// distinct addresses, except that all zero-size objects share one. After
// nd.GC, addresses of objects found unreachable may be given to new objects.
func (m *Machine) addrOf(v Value) Value {
	o, _ := v.p.(*Obj)
	if o == nil {
		return Value{}
	}
	if len(o.cells) == 0 {
		return Value{n: 0x5a5a10}
	}
	if m.path == nil {
		m.unsupported("address taken during initialization")
	}
	if o.addr == nil {
		if o.setup {
			m.dirtyObj = append(m.dirtyObj, o)
		}
		var a uint64
		// Freed addresses of the same size class may be reused.
		var cand []int
		for i, f := range m.path.freed {
			if sz, ok := f.p.(int); ok && sz == addrClass(o) {
				cand = append(cand, i)
			}
		}
		pick := -1
		if len(cand) > 0 {
			if c := m.choice("gcreuse", len(cand)+1); c > 0 {
				pick = cand[c-1]
			}
		}
		if pick >= 0 {
			a = m.path.freed[pick].n
			m.path.freed = append(append([]Value(nil), m.path.freed[:pick]...), m.path.freed[pick+1:]...)
		} else {
			a = m.path.nextAddr
			m.path.nextAddr += 0x1000
		}
		av := Value{n: a}
		o.addr = &av
		m.path.addrs = append(m.path.addrs, o)
	}
	return Value{n: o.addr.n + 8*v.n}
}

func addrClass(o *Obj) int {
	n := 0
	if o.elem != nil {
		n = byteSize(o.elem)
	}
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return n
}

// gc frees the addresses of unreachable objects.
func (m *Machine) gc() {
	m.path.gcmode = true
	seen := map[any]bool{}
	var visit func(v Value)
	var visitObj func(o *Obj)
	visitObj = func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		for _, c := range o.cells {
			visit(c)
		}
	}
	visit = func(v Value) {
		switch p := v.p.(type) {
		case nil, string, *Term, *SymStr:
		case *Obj:
			visitObj(p)
		case *Slice:
			visitObj(p.o)
		case *Agg:
			for _, c := range p.c {
				visit(c)
			}
		case *Iface:
			visit(p.v)
		case *Closure:
			for _, c := range p.free {
				visit(c)
			}
		case *Map:
			if seen[p] {
				return
			}
			seen[p] = true
			for _, e := range p.ents {
				if !e.deleted {
					visit(e.k)
					visit(e.v)
				}
			}
		case *Chan:
			if seen[p] {
				return
			}
			seen[p] = true
			for _, x := range p.buf {
				visit(x)
			}
		case *mapIter:
			if p.mp != nil {
				visit(Value{p: p.mp})
			}
		case *reflVal:
			visit(p.v)
			if p.o != nil {
				visitObj(p.o)
			}
		case *mapIterBox:
			visit(Value{p: p.it.mp})
		case *Frame:
		default:
			m.unsupported(fmt.Sprintf("garbage collection over %T", p))
		}
	}
	for _, o := range m.globals {
		if o != nil {
			visitObj(o)
		}
	}
	for _, g := range m.gs {
		for _, a := range g.start.args {
			if !g.done {
				visit(a)
			}
		}
		for fr := g.top; fr != nil; fr = fr.caller {
			live := fr.live()
			for i, s := range fr.slots {
				if live == nil || live[i] {
					visit(s)
				}
			}
			for _, d := range fr.defers {
				for _, a := range d.args {
					visit(a)
				}
				for _, a := range d.free {
					visit(a)
				}
			}
		}
	}
	var keep []*Obj
	for _, o := range m.path.addrs {
		if !seen[o] && !o.setup {
			m.path.freed = append(m.path.freed, Value{n: o.addr.n, p: addrClass(o)})
			o.gone = true
			continue
		}
		keep = append(keep, o)
	}
	m.path.addrs = keep
}
