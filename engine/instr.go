package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (c *fcomp) instr(in ssa.Instruction) instr {
	p := c.p
	dst := opnd(-1)
	if v, ok := in.(ssa.Value); ok {
		dst = opnd(c.slots[v])
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil

	case *ssa.Alloc:
		et := p.ti(in.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *Frame) {
			fr.slots[dst] = Value{p: fr.m.newObj(et)}
		}

	case *ssa.BinOp:
		return c.binop(in, dst)

	case *ssa.UnOp:
		return c.unop(in, dst)

	case *ssa.Call:
		call := c.callCommon(&in.Call, in)
		return func(fr *Frame) {
			fr.slots[dst] = call(fr)
		}

	case *ssa.Go:
		prep := c.prepCall(&in.Call)
		return func(fr *Frame) {
			th := prep(fr)
			fr.m.spawn(fr, th)
		}

	case *ssa.Defer:
		prep := c.prepCall(&in.Call)
		if in.DeferStack != nil {
			ds := c.op(in.DeferStack)
			return func(fr *Frame) {
				th := prep(fr)
				tf := fr.get(ds).p.(*Frame)
				tf.defers = append(tf.defers, th)
			}
		}
		return func(fr *Frame) {
			fr.defers = append(fr.defers, prep(fr))
		}

	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }

	case *ssa.ChangeInterface, *ssa.ChangeType:
		x := c.op((*in.Operands(nil)[0]))
		return func(fr *Frame) { fr.slots[dst] = fr.get(x) }

	case *ssa.Convert:
		x := c.op(in.X)
		from, to := p.ti(in.X.Type()), p.ti(in.Type())
		conv := convertFn(p, from, to)
		return func(fr *Frame) { fr.slots[dst] = conv(fr.m, fr.get(x)) }

	case *ssa.MultiConvert:
		x := c.op(in.X)
		from, to := p.ti(in.X.Type()), p.ti(in.Type())
		conv := convertFn(p, from, to)
		return func(fr *Frame) { fr.slots[dst] = conv(fr.m, fr.get(x)) }

	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(fr *Frame) { fr.slots[dst] = fr.get(x).p.(*Agg).c[i] }

	case *ssa.Field:
		x := c.op(in.X)
		st := p.ti(in.X.Type())
		off, ft := st.offs[in.Field], st.flds[in.Field]
		return func(fr *Frame) {
			v := fr.get(x)
			if v.p == nil {
				fr.slots[dst] = Value{}
				return
			}
			fr.slots[dst] = subAgg(v.p.(*Agg).c, off, ft)
		}

	case *ssa.FieldAddr:
		x := c.op(in.X)
		st := p.ti(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.offs[in.Field])
		return func(fr *Frame) {
			v := fr.get(x)
			if v.p == nil {
				fr.m.nilDeref(fr)
			}
			v.n += off
			fr.slots[dst] = v
		}

	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		xt := p.ti(in.X.Type())
		it := p.ti(in.Index.Type())
		if xt.kind == KString {
			return func(fr *Frame) {
				fr.slots[dst] = fr.m.strIndex(fr, fr.get(x), fr.get(ix), it)
			}
		}
		return func(fr *Frame) {
			cells := fr.get(x).agg(xt)
			i := fr.m.index(fr, fr.get(ix), it, xt.alen)
			fr.slots[dst] = subAgg(cells, i*xt.elem.size, xt.elem)
		}

	case *ssa.IndexAddr:
		x, ix := c.op(in.X), c.op(in.Index)
		xt := p.ti(in.X.Type())
		it := p.ti(in.Index.Type())
		if xt.kind == KSlice {
			esz := xt.elem.size
			// A load-only address with a symbolic index can become an ITE chain.
			var loadOnly bool
			if refs := in.Referrers(); refs != nil && xt.elem.kind == KInt {
				loadOnly = true
				for _, r := range *refs {
					if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
						loadOnly = false
					}
				}
			}
			return func(fr *Frame) {
				v := fr.get(x)
				iv := fr.get(ix)
				sl, _ := v.p.(*Slice)
				n := 0
				if sl != nil {
					n = sl.len
				}
				if loadOnly && iv.p != nil && n <= 1024 {
					if t := fr.m.symIndexLoad(fr, sl.o, sl.base, n, esz, iv, it, xt.elem); t != nil {
						fr.slots[dst] = Value{p: t}
						return
					}
				}
				i := fr.m.index(fr, iv, it, n)
				fr.slots[dst] = Value{n: uint64(sl.base + i*esz), p: sl.o}
			}
		}
		at := xt.elem // pointer to array
		esz := at.elem.size
		var loadOnly bool
		if refs := in.Referrers(); refs != nil && at.elem.kind == KInt {
			loadOnly = true
			for _, r := range *refs {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					loadOnly = false
				}
			}
		}
		return func(fr *Frame) {
			v := fr.get(x)
			if v.p == nil {
				fr.m.nilDeref(fr)
			}
			iv := fr.get(ix)
			if loadOnly && iv.p != nil && at.alen <= 1024 {
				if t := fr.m.symIndexLoad(fr, v.p.(*Obj), int(v.n), at.alen, esz, iv, it, at.elem); t != nil {
					fr.slots[dst] = Value{p: t}
					return
				}
			}
			i := fr.m.index(fr, iv, it, at.alen)
			v.n += uint64(i * esz)
			fr.slots[dst] = v
		}

	case *ssa.Lookup:
		x, ix := c.op(in.X), c.op(in.Index)
		xt := p.ti(in.X.Type())
		if xt.kind == KString {
			it := p.ti(in.Index.Type())
			return func(fr *Frame) {
				fr.slots[dst] = fr.m.strIndex(fr, fr.get(x), fr.get(ix), it)
			}
		}
		comma := in.CommaOk
		et := xt.elem
		return func(fr *Frame) {
			mp, _ := fr.get(x).p.(*Map)
			v, ok := fr.m.mapGet(fr, mp, fr.get(ix))
			if !ok && !et.leaf() {
				v = Value{p: &Agg{make([]Value, et.size)}}
			}
			if comma {
				fr.slots[dst] = vTuple(v, vBool(ok))
			} else {
				fr.slots[dst] = v
			}
		}

	case *ssa.MakeChan:
		sz := c.op(in.Size)
		return func(fr *Frame) {
			n, ok := fr.m.concrete(fr.get(sz))
			if !ok {
				fr.m.unsupported("symbolic channel size")
			}
			fr.slots[dst] = Value{p: fr.m.newChan(int(n))}
		}

	case *ssa.MakeClosure:
		f := p.fun(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *Frame) {
			free := make([]Value, len(bs))
			for i, b := range bs {
				free[i] = fr.get(b)
			}
			fr.slots[dst] = Value{p: &Closure{fn: f, free: free}}
		}

	case *ssa.MakeInterface:
		x := c.op(in.X)
		t := p.ti(in.X.Type())
		return func(fr *Frame) {
			fr.slots[dst] = Value{p: &Iface{t: t, v: fr.get(x)}}
		}

	case *ssa.MakeMap:
		t := p.ti(in.Type())
		return func(fr *Frame) { fr.slots[dst] = Value{p: fr.m.newMap(t)} }

	case *ssa.MakeSlice:
		t := p.ti(in.Type())
		ln, cp := c.op(in.Len), c.op(in.Cap)
		return func(fr *Frame) {
			l, c := fr.m.concInt(fr, fr.get(ln)), fr.m.concInt(fr, fr.get(cp))
			if l < 0 || l > 1<<26 {
				fr.m.rtPanic(fr, "makeslice: len out of range")
			}
			if c < l {
				fr.m.rtPanic(fr, "makeslice: cap out of range")
			}
			fr.slots[dst] = fr.m.newSlice(t.elem, int(l), int(c))
		}

	case *ssa.MapUpdate:
		mo, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *Frame) {
			mp, _ := fr.get(mo).p.(*Map)
			if mp == nil {
				fr.m.goPanicStr(fr, "assignment to entry in nil map")
			}
			fr.m.mapSet(fr, mp, fr.get(k), fr.get(v))
		}

	case *ssa.Next:
		x := c.op(in.Iter)
		return func(fr *Frame) {
			fr.slots[dst] = fr.get(x).p.(iter).next(fr)
		}

	case *ssa.Range:
		x := c.op(in.X)
		xt := p.ti(in.X.Type())
		if xt.kind == KString {
			return func(fr *Frame) { fr.slots[dst] = Value{p: &strIter{s: fr.get(x)}} }
		}
		return func(fr *Frame) {
			mp, _ := fr.get(x).p.(*Map)
			fr.slots[dst] = Value{p: fr.m.newMapIter(fr, mp, xt)}
		}

	case *ssa.Select:
		return c.sel(in, dst)

	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(fr *Frame) { fr.m.chanSend(fr, fr.get(ch), fr.get(x)) }

	case *ssa.Slice:
		return c.slice(in, dst)

	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := p.ti(in.Type()).elem.alen
		return func(fr *Frame) {
			sl, _ := fr.get(x).p.(*Slice)
			if sl == nil {
				if n > 0 {
					fr.m.rtPanic(fr, "cannot convert slice to array pointer")
				}
				fr.slots[dst] = Value{}
				return
			}
			if sl.len < n {
				fr.m.rtPanic(fr, "cannot convert slice to array pointer: length too short")
			}
			fr.slots[dst] = Value{n: uint64(sl.base), p: sl.o}
		}

	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		t := p.ti(in.Val.Type())
		return func(fr *Frame) { fr.m.store(fr, fr.get(a), t, fr.get(v)) }

	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	}
	panic(fmt.Sprintf("unknown instruction %T in %s", in, c.f.name))
}

// --- unary and binary operators

func (c *fcomp) unop(in *ssa.UnOp, dst opnd) instr {
	p := c.p
	x := c.op(in.X)
	t := p.ti(in.Type())
	switch in.Op {
	case token.MUL:
		return func(fr *Frame) { fr.slots[dst] = fr.m.load(fr, fr.get(x), t) }
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(x)
			if v.p == nil {
				fr.slots[dst] = Value{n: 1 - v.n}
				return
			}
			fr.slots[dst] = fr.m.fromTerm(fr.m.tt.Not(v.p.(*Term)), t)
		}
	case token.SUB:
		return func(fr *Frame) {
			v := fr.get(x)
			switch {
			case t.kind == KFloat:
				fr.slots[dst] = Value{n: math.Float64bits(-math.Float64frombits(v.n))}
			case t.kind == KComplex:
				cv, _ := v.p.(complex128)
				fr.slots[dst] = Value{p: -cv}
			case v.p != nil:
				fr.slots[dst] = fr.m.fromTerm(fr.m.tt.Neg(v.p.(*Term)), t)
			default:
				fr.slots[dst] = Value{n: normInt(t, -v.n)}
			}
		}
	case token.XOR:
		return func(fr *Frame) {
			v := fr.get(x)
			if v.p != nil {
				fr.slots[dst] = fr.m.fromTerm(fr.m.tt.BNot(v.p.(*Term)), t)
				return
			}
			fr.slots[dst] = Value{n: normInt(t, ^v.n)}
		}
	case token.ARROW:
		et := p.ti(in.X.Type()).elem
		comma := in.CommaOk
		return func(fr *Frame) {
			v, ok := fr.m.chanRecv(fr, fr.get(x), et)
			if comma {
				fr.slots[dst] = vTuple(v, vBool(ok))
			} else {
				fr.slots[dst] = v
			}
		}
	}
	panic("unop " + in.Op.String())
}

func (c *fcomp) binop(in *ssa.BinOp, dst opnd) instr {
	p := c.p
	x, y := c.op(in.X), c.op(in.Y)
	xt, yt := p.ti(in.X.Type()), p.ti(in.Y.Type())
	rt := p.ti(in.Type())
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		// Comparison of interface with concrete operand: types are made equal by ssa.
		t := xt
		if xt.kind == KInt || xt.kind == KBool {
			return func(fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if a.p == nil && b.p == nil {
					fr.slots[dst] = vBool((a.n == b.n) != neg)
					return
				}
				r := fr.m.tt.Eq(fr.m.term(a, t), fr.m.term(b, t))
				if neg {
					r = fr.m.tt.Not(r)
				}
				fr.slots[dst] = fr.m.fromTerm(r, rt)
			}
		}
		if xt.kind == KUnsafePtr && yt.kind != KUnsafePtr {
			t = yt
		}
		return func(fr *Frame) {
			r := fr.m.eq(fr, t, fr.get(x), fr.get(y))
			if neg {
				r = fr.m.tt.Not(r)
			}
			fr.slots[dst] = fr.m.fromTerm(r, rt)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := in.Op
		switch xt.kind {
		case KInt:
			sgn := xt.sgn
			return func(fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				if a.p == nil && b.p == nil {
					var r bool
					if sgn {
						r = cmpI(op, int64(a.n), int64(b.n))
					} else {
						r = cmpU(op, a.n, b.n)
					}
					fr.slots[dst] = vBool(r)
					return
				}
				ta, tb := fr.m.term(a, xt), fr.m.term(b, xt)
				lt, le := OpULt, OpULe
				if sgn {
					lt, le = OpSLt, OpSLe
				}
				var r *Term
				switch op {
				case token.LSS:
					r = fr.m.tt.Cmp(lt, ta, tb)
				case token.LEQ:
					r = fr.m.tt.Cmp(le, ta, tb)
				case token.GTR:
					r = fr.m.tt.Cmp(lt, tb, ta)
				default:
					r = fr.m.tt.Cmp(le, tb, ta)
				}
				fr.slots[dst] = fr.m.fromTerm(r, rt)
			}
		case KFloat:
			return func(fr *Frame) {
				a, b := math.Float64frombits(fr.get(x).n), math.Float64frombits(fr.get(y).n)
				var r bool
				switch op {
				case token.LSS:
					r = a < b
				case token.LEQ:
					r = a <= b
				case token.GTR:
					r = a > b
				default:
					r = a >= b
				}
				fr.slots[dst] = vBool(r)
			}
		case KString:
			return func(fr *Frame) {
				a, b := fr.get(x), fr.get(y)
				sa, oka := goStr(a)
				sb, okb := goStr(b)
				if oka && okb {
					var r bool
					switch op {
					case token.LSS:
						r = sa < sb
					case token.LEQ:
						r = sa <= sb
					case token.GTR:
						r = sa > sb
					default:
						r = sa >= sb
					}
					fr.slots[dst] = vBool(r)
					return
				}
				var r *Term
				switch op {
				case token.LSS:
					r = fr.m.strLess(a, b, false)
				case token.LEQ:
					r = fr.m.strLess(a, b, true)
				case token.GTR:
					r = fr.m.strLess(b, a, false)
				default:
					r = fr.m.strLess(b, a, true)
				}
				fr.slots[dst] = fr.m.fromTerm(r, rt)
			}
		}
	case token.ADD:
		if xt.kind == KString {
			return func(fr *Frame) { fr.slots[dst] = strConcat(fr.get(x), fr.get(y)) }
		}
	}
	if xt.kind == KFloat {
		op := in.Op
		f32 := xt.w == 32
		return func(fr *Frame) {
			a, b := math.Float64frombits(fr.get(x).n), math.Float64frombits(fr.get(y).n)
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.slots[dst] = Value{n: math.Float64bits(r)}
		}
	}
	if xt.kind == KComplex {
		return func(fr *Frame) { fr.m.unsupported("complex arithmetic") }
	}
	op := in.Op
	switch op {
	case token.SHL, token.SHR:
		ysgn := yt.sgn
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.p == nil && b.p == nil {
				if ysgn && int64(b.n) < 0 {
					fr.m.rtPanic(fr, "negative shift amount")
				}
				var r uint64
				if op == token.SHL {
					if b.n < 64 {
						r = a.n << b.n
					}
				} else if xt.sgn {
					s := b.n
					if s > 63 {
						s = 63
					}
					r = uint64(int64(a.n) >> s)
				} else if b.n < 64 {
					r = a.n >> b.n
				}
				fr.slots[dst] = Value{n: normInt(rt, r)}
				return
			}
			ta := fr.m.term(a, xt)
			if ysgn && b.p != nil {
				if fr.m.branch(fr.m.tt.Cmp(OpSLt, b.p.(*Term), fr.m.tt.Const(yt.w, 0))) {
					fr.m.rtPanic(fr, "negative shift amount")
				}
			}
			tb := fr.m.term(b, yt)
			// Bring the shift amount to the width of x, saturating.
			if tb.w > ta.w {
				big := fr.m.tt.Cmp(OpULe, fr.m.tt.Const(tb.w, uint64(ta.w)), tb)
				tb = fr.m.tt.Ite(big, fr.m.tt.Const(ta.w, uint64(ta.w)), fr.m.tt.Resize(tb, ta.w, false))
			} else {
				tb = fr.m.tt.Resize(tb, ta.w, false)
			}
			o := OpShl
			if op == token.SHR {
				o = OpLShr
				if xt.sgn {
					o = OpAShr
				}
			}
			fr.slots[dst] = fr.m.fromTerm(fr.m.tt.Bin(o, ta, tb), rt)
		}
	case token.QUO, token.REM:
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if b.p == nil {
				if b.n == 0 {
					fr.m.rtPanic(fr, "integer divide by zero")
				}
			} else if fr.m.branch(fr.m.tt.Eq(b.p.(*Term), fr.m.tt.Const(yt.w, 0))) {
				fr.m.rtPanic(fr, "integer divide by zero")
			}
			if a.p == nil && b.p == nil {
				var r uint64
				if xt.sgn {
					if int64(b.n) == -1 {
						if op == token.QUO {
							r = -a.n
						}
					} else if op == token.QUO {
						r = uint64(int64(a.n) / int64(b.n))
					} else {
						r = uint64(int64(a.n) % int64(b.n))
					}
				} else if op == token.QUO {
					r = a.n / b.n
				} else {
					r = a.n % b.n
				}
				fr.slots[dst] = Value{n: normInt(rt, r)}
				return
			}
			var o Op
			switch {
			case op == token.QUO && xt.sgn:
				o = OpSDiv
			case op == token.QUO:
				o = OpUDiv
			case xt.sgn:
				o = OpSRem
			default:
				o = OpURem
			}
			fr.slots[dst] = fr.m.fromTerm(fr.m.tt.Bin(o, fr.m.term(a, xt), fr.m.term(b, xt)), rt)
		}
	}
	var o Op
	var cf func(a, b uint64) uint64
	switch op {
	case token.ADD:
		o, cf = OpAdd, func(a, b uint64) uint64 { return a + b }
	case token.SUB:
		o, cf = OpSub, func(a, b uint64) uint64 { return a - b }
	case token.MUL:
		o, cf = OpMul, func(a, b uint64) uint64 { return a * b }
	case token.AND:
		o, cf = OpBAnd, func(a, b uint64) uint64 { return a & b }
	case token.OR:
		o, cf = OpBOr, func(a, b uint64) uint64 { return a | b }
	case token.XOR:
		o, cf = OpBXor, func(a, b uint64) uint64 { return a ^ b }
	case token.AND_NOT:
		return func(fr *Frame) {
			a, b := fr.get(x), fr.get(y)
			if a.p == nil && b.p == nil {
				fr.slots[dst] = Value{n: normInt(rt, a.n&^b.n)}
				return
			}
			tt := fr.m.tt
			fr.slots[dst] = fr.m.fromTerm(tt.Bin(OpBAnd, fr.m.term(a, xt), tt.BNot(fr.m.term(b, xt))), rt)
		}
	default:
		panic("binop " + op.String())
	}
	isBool := xt.kind == KBool
	return func(fr *Frame) {
		a, b := fr.get(x), fr.get(y)
		if a.p == nil && b.p == nil {
			fr.slots[dst] = Value{n: normInt(rt, cf(a.n, b.n))}
			return
		}
		ta, tb := fr.m.term(a, xt), fr.m.term(b, xt)
		if isBool {
			var r *Term
			switch o {
			case OpBAnd:
				r = fr.m.tt.And(ta, tb)
			case OpBOr:
				r = fr.m.tt.Or(ta, tb)
			default:
				r = fr.m.tt.Not(fr.m.tt.Eq(ta, tb))
			}
			fr.slots[dst] = fr.m.fromTerm(r, rt)
			return
		}
		fr.slots[dst] = fr.m.fromTerm(fr.m.tt.Bin(o, ta, tb), rt)
	}
}

func cmpI(op token.Token, a, b int64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

func cmpU(op token.Token, a, b uint64) bool {
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

// --- conversions

func convertFn(p *Program, from, to *TI) func(m *Machine, v Value) Value {
	switch {
	case from.kind == KInt && to.kind == KInt:
		return func(m *Machine, v Value) Value {
			if v.p == nil {
				return Value{n: normInt(to, v.n)}
			}
			if t, ok := v.p.(*Term); ok {
				return m.fromTerm(m.tt.Resize(t, to.w, from.sgn), to)
			}
			return v // address-valued
		}
	case from.kind == KInt && to.kind == KFloat:
		return func(m *Machine, v Value) Value {
			n, ok := m.concrete(v)
			if !ok {
				m.unsupported("symbolic int to float")
			}
			f := float64(n)
			if from.sgn {
				f = float64(int64(n))
			}
			if to.w == 32 {
				f = float64(float32(f))
			}
			return Value{n: math.Float64bits(f)}
		}
	case from.kind == KFloat && to.kind == KInt:
		return func(m *Machine, v Value) Value {
			f := math.Float64frombits(v.n)
			if to.sgn {
				return Value{n: normInt(to, uint64(int64(f)))}
			}
			return Value{n: normInt(to, uint64(f))}
		}
	case from.kind == KFloat && to.kind == KFloat:
		return func(m *Machine, v Value) Value {
			if to.w == 32 {
				return Value{n: math.Float64bits(float64(float32(math.Float64frombits(v.n))))}
			}
			return v
		}
	case from.kind == KInt && to.kind == KString:
		return func(m *Machine, v Value) Value {
			if v.p != nil {
				if m.branch(m.tt.And(m.tt.Cmp(OpSLe, m.tt.Const(from.w, 0), m.term(v, from)), m.tt.Cmp(OpSLt, m.term(v, from), m.tt.Const(from.w, 0x80&mask(from.w))))) {
					return mkStr([]Value{m.fromTerm(m.tt.Resize(v.p.(*Term), 8, false), m.uint8T)})
				}
				v = Value{n: uint64(m.concretize(v, from))}
			}
			n := int64(v.n)
			if n < 0 || n > 0x10ffff {
				n = 0xfffd
			}
			return vStr(string(rune(n)))
		}
	case from.kind == KString && to.kind == KString, from.kind == KComplex:
		return func(m *Machine, v Value) Value { return v }
	case from.kind == KString && to.kind == KSlice:
		if to.elem.w == 8 {
			return func(m *Machine, v Value) Value {
				return m.bytesSlice(append([]Value(nil), strBytes(v)...), to.elem)
			}
		}
		return func(m *Machine, v Value) Value { // []rune
			var rs []Value
			it := &strIter{s: v}
			for {
				ok, _, r := it.step(m)
				if !ok {
					break
				}
				rs = append(rs, r)
			}
			return m.bytesSlice(rs, to.elem)
		}
	case from.kind == KSlice && to.kind == KString:
		if from.elem.w == 8 {
			return func(m *Machine, v Value) Value {
				sl, _ := v.p.(*Slice)
				if sl == nil {
					return Value{}
				}
				m.raceReadRange(sl.o, sl.base, sl.len)
				return mkStr(append([]Value(nil), sl.o.cells[sl.base:sl.base+sl.len]...))
			}
		}
		return func(m *Machine, v Value) Value {
			sl, _ := v.p.(*Slice)
			if sl == nil {
				return Value{}
			}
			var out Value
			rt := from.elem
			cv := convertFn(p, rt, to)
			for i := 0; i < sl.len; i++ {
				out = strConcat(out, cv(m, sl.o.cells[sl.base+i]))
			}
			return out
		}
	case (from.kind == KPtr || from.kind == KUnsafePtr) && (to.kind == KPtr || to.kind == KUnsafePtr):
		return func(m *Machine, v Value) Value { return v }
	case (from.kind == KUnsafePtr || from.kind == KPtr) && to.kind == KInt:
		return func(m *Machine, v Value) Value { return m.addrOf(v) }
	case from.kind == KInt && to.kind == KUnsafePtr:
		return func(m *Machine, v Value) Value {
			if v.p == nil && v.n == 0 {
				return Value{}
			}
			m.unsupported("uintptr to unsafe.Pointer")
			return v
		}
	case from.kind == KSlice && to.kind == KArray:
		return func(m *Machine, v Value) Value {
			sl, _ := v.p.(*Slice)
			n := 0
			if sl != nil {
				n = sl.len
			}
			if n < to.alen {
				m.rtPanic(m.g.top, "cannot convert slice to array: length too short")
			}
			cells := make([]Value, to.size)
			if sl != nil {
				copy(cells, sl.o.cells[sl.base:sl.base+to.size])
			}
			return Value{p: &Agg{cells}}
		}
	case from.kind == KSlice && to.kind == KPtr:
		return func(m *Machine, v Value) Value {
			sl, _ := v.p.(*Slice)
			if sl == nil {
				return Value{}
			}
			if sl.len < to.elem.alen {
				m.rtPanic(m.g.top, "cannot convert slice to array pointer")
			}
			return Value{n: uint64(sl.base), p: sl.o}
		}
	}
	if from.kind == to.kind {
		return func(m *Machine, v Value) Value { return v }
	}
	return func(m *Machine, v Value) Value {
		m.unsupported(fmt.Sprintf("conversion %s to %s", from, to))
		return v
	}
}

// --- slicing

func (c *fcomp) slice(in *ssa.Slice, dst opnd) instr {
	p := c.p
	x := c.op(in.X)
	xt := p.ti(in.X.Type())
	var lo, hi, mx opnd
	hasLo, hasHi, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	if hasLo {
		lo = c.op(in.Low)
	}
	if hasHi {
		hi = c.op(in.High)
	}
	if hasMax {
		mx = c.op(in.Max)
	}
	if xt.kind == KString {
		return func(fr *Frame) {
			v := fr.get(x)
			n := int64(strLen(v))
			l, h := int64(0), n
			if hasLo {
				l = fr.m.sliceIdx(fr, fr.get(lo), n)
			}
			if hasHi {
				h = fr.m.sliceIdx(fr, fr.get(hi), n)
			}
			if l < 0 || h < l || h > n {
				fr.m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.slots[dst] = strSlice(v, int(l), int(h))
		}
	}
	isSlice := xt.kind == KSlice
	var et *TI
	var alen int
	if isSlice {
		et = xt.elem
	} else {
		et = xt.elem.elem
		alen = xt.elem.alen
	}
	return func(fr *Frame) {
		v := fr.get(x)
		var o *Obj
		base, ln, cp := 0, 0, 0
		if isSlice {
			if sl, _ := v.p.(*Slice); sl != nil {
				o, base, ln, cp = sl.o, sl.base, sl.len, sl.cap
			}
		} else {
			if v.p == nil {
				fr.m.nilDeref(fr)
			}
			o, base, ln, cp = v.p.(*Obj), int(v.n), alen, alen
		}
		l, h, m3 := int64(0), int64(ln), int64(cp)
		if hasLo {
			l = fr.m.sliceIdx(fr, fr.get(lo), int64(cp))
		}
		if hasHi {
			h = fr.m.sliceIdx(fr, fr.get(hi), int64(cp))
		}
		if hasMax {
			m3 = fr.m.sliceIdx(fr, fr.get(mx), int64(cp))
		}
		if l < 0 || h < l || m3 < h || m3 > int64(cp) {
			fr.m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
		}
		if o == nil {
			fr.slots[dst] = Value{}
			return
		}
		fr.slots[dst] = Value{p: &Slice{o: o, base: base + int(l)*et.size, len: int(h - l), cap: int(m3 - l)}}
	}
}

// --- type assertions

func (c *fcomp) typeAssert(in *ssa.TypeAssert, dst opnd) instr {
	p := c.p
	x := c.op(in.X)
	at := p.ti(in.AssertedType)
	comma := in.CommaOk
	if at.kind == KIface {
		it := at.under.(*types.Interface)
		return func(fr *Frame) {
			v := fr.get(x)
			ifc, _ := v.p.(*Iface)
			ok := ifc != nil && p.implements(ifc.t, it, at)
			if comma {
				if !ok {
					v = Value{}
				}
				fr.slots[dst] = vTuple(v, vBool(ok))
				return
			}
			if !ok {
				fr.m.typeAssertPanic(fr, ifc, at)
			}
			fr.slots[dst] = v
		}
	}
	return func(fr *Frame) {
		ifc, _ := fr.get(x).p.(*Iface)
		ok := ifc != nil && ifc.t == at
		var r Value
		if ok {
			r = ifc.v
		} else if !comma {
			fr.m.typeAssertPanic(fr, ifc, at)
		} else if !at.leaf() {
			r = Value{p: &Agg{make([]Value, at.size)}}
		}
		if comma {
			fr.slots[dst] = vTuple(r, vBool(ok))
		} else {
			fr.slots[dst] = r
		}
	}
}

type implKey struct{ t, i int }

var implCache syncMap[implKey, bool]

func (p *Program) implements(t *TI, it *types.Interface, ii *TI) bool {
	k := implKey{t.id, ii.id}
	if v, ok := implCache.load(k); ok {
		return v
	}
	p.implMu()
	r := types.Implements(t.t, it)
	p.implUnmu()
	implCache.store(k, r)
	return r
}
