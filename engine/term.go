package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed quantifier-free bit-vector/boolean formulas.
// Width 0 means Bool.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpZExt
	OpSExt
	OpTrunc
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle",
}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
	id      int
	size    int    // saturating tree size
	h       uint64 // structural hash
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
	name    string
}

// TermTable interns terms. It is used by one worker only.
type TermTable struct {
	tab  map[termKey]*Term
	next int
	True *Term
	Fals *Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{tab: make(map[termKey]*Term)}
	tt.Fals = tt.mk(OpConst, 0, nil, nil, nil, 0, "")
	tt.True = tt.mk(OpConst, 0, nil, nil, nil, 1, "")
	return tt
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, name: name, id: tt.next}
	tt.next++
	t.size = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.size += x.size
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)<<56 ^ val*0xff51afd7ed558ccd
	for _, x := range []*Term{a, b, c} {
		h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9
		if x != nil {
			h += x.h
		}
	}
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 0x100000001b3
	}
	t.h = h ^ h>>31
	tt.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tt.True
		}
		return tt.Fals
	}
	return tt.mk(OpConst, w, nil, nil, nil, v&mask(w), "")
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.Fals
}

func (tt *TermTable) Var(w uint8, name string) *Term {
	return tt.mk(OpVar, w, nil, nil, nil, 0, name)
}

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tt.Bool(a.val == 0)
	case OpNot:
		return a.a
	case OpULt:
		return tt.Cmp(OpULe, a.b, a.a)
	case OpULe:
		return tt.Cmp(OpULt, a.b, a.a)
	case OpSLt:
		return tt.Cmp(OpSLe, a.b, a.a)
	case OpSLe:
		return tt.Cmp(OpSLt, a.b, a.a)
	}
	return tt.mk(OpNot, 0, a, nil, nil, 0, "")
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tt.Fals
	}
	return tt.mk(OpAnd, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tt.True
	}
	return tt.mk(OpOr, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 && b.isConst() {
		if b.val != 0 {
			return a
		}
		return tt.Not(a)
	}
	if b.isConst() {
		switch a.op {
		case OpZExt:
			if b.val > mask(a.a.w) {
				return tt.Fals
			}
			return tt.Eq(a.a, tt.Const(a.a.w, b.val))
		case OpSExt:
			lo := tt.Const(a.a.w, b.val)
			if uint64(sext(lo.val, a.a.w))&mask(a.w) != b.val {
				return tt.Fals
			}
			return tt.Eq(a.a, lo)
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				if a.b.val == b.val && a.c.val != b.val {
					return a.a
				}
				if a.b.val != b.val && a.c.val == b.val {
					return tt.Not(a.a)
				}
				if a.b.val != b.val && a.c.val != b.val {
					return tt.Fals
				}
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return tt.Eq(a.a, b.a)
	}
	return tt.mk(OpEq, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return c
			}
			return tt.Not(c)
		}
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	return tt.mk(OpIte, a.w, c, a, b, 0, "")
}

func (tt *TermTable) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(evalCmp(op, a.val, b.val, a.w))
	}
	if a == b {
		return tt.Bool(op == OpULe || op == OpSLe)
	}
	// Narrow comparisons of zero-extended terms with constants.
	if b.isConst() && a.op == OpZExt {
		sm := a.a
		bv := sext(b.val, b.w)
		if op == OpSLt || op == OpSLe {
			if bv < 0 {
				return tt.Fals
			}
			if op == OpSLt {
				op = OpULt
			} else {
				op = OpULe
			}
		}
		if b.val > mask(sm.w) {
			return tt.True
		}
		return tt.Cmp(op, sm, tt.Const(sm.w, b.val))
	}
	if a.isConst() && b.op == OpZExt {
		sm := b.a
		av := sext(a.val, a.w)
		if op == OpSLt || op == OpSLe {
			if av < 0 {
				return tt.True
			}
			if op == OpSLt {
				op = OpULt
			} else {
				op = OpULe
			}
		}
		if a.val > mask(sm.w) {
			return tt.Fals
		}
		return tt.Cmp(op, tt.Const(sm.w, a.val), sm)
	}
	if op == OpULt && b.isConst() && b.val == 0 {
		return tt.Fals
	}
	if op == OpULe && a.isConst() && a.val == 0 {
		return tt.True
	}
	if op == OpULt && a.isConst() && a.val == mask(a.w) {
		return tt.Fals
	}
	if op == OpULe && b.isConst() && b.val == mask(b.w) {
		return tt.True
	}
	return tt.mk(op, 0, a, b, nil, 0, "")
}

func evalCmp(op Op, x, y uint64, w uint8) bool {
	switch op {
	case OpULt:
		return x < y
	case OpULe:
		return x <= y
	case OpSLt:
		return sext(x, w) < sext(y, w)
	case OpSLe:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Const(a.w, evalBin(op, a.val, b.val, a.w))
	}
	if b.isConst() && b.val == 0 {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			return a
		case OpMul, OpBAnd:
			return b
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OpAdd, OpBOr, OpBXor:
			return b
		case OpMul, OpBAnd:
			return a
		}
	}
	if b.isConst() && b.val == mask(b.w) && op == OpBAnd {
		return a
	}
	if b.isConst() && b.val == 1 && (op == OpMul || op == OpUDiv) {
		return a
	}
	if op == OpSub && a == b {
		return tt.Const(a.w, 0)
	}
	if op == OpAdd && b.isConst() && a.op == OpAdd && a.b.isConst() {
		return tt.Bin(OpAdd, a.a, tt.Const(a.w, a.b.val+b.val))
	}
	if op == OpSub && b.isConst() {
		return tt.Bin(OpAdd, a, tt.Const(a.w, -b.val))
	}
	if op == OpAdd && a.isConst() {
		a, b = b, a
	}
	return tt.mk(op, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.val)
	}
	return tt.mk(OpBNot, a.w, a, nil, nil, 0, "")
}

func (tt *TermTable) Neg(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, -a.val)
	}
	return tt.mk(OpNeg, a.w, a, nil, nil, 0, "")
}

// Resize converts a to width w, sign- or zero-extending.
func (tt *TermTable) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		if a.isConst() {
			return tt.Const(w, a.val)
		}
		if (a.op == OpZExt || a.op == OpSExt) && a.a.w >= w {
			return tt.Resize(a.a, w, false)
		}
		if (a.op == OpZExt || a.op == OpSExt) && a.a.w < w {
			return tt.Resize(a.a, w, a.op == OpSExt)
		}
		return tt.mk(OpTrunc, w, a, nil, nil, 0, "")
	case signed:
		if a.isConst() {
			return tt.Const(w, uint64(sext(a.val, a.w)))
		}
		if a.op == OpZExt {
			return tt.mk(OpZExt, w, a.a, nil, nil, 0, "")
		}
		return tt.mk(OpSExt, w, a, nil, nil, 0, "")
	default:
		if a.isConst() {
			return tt.Const(w, a.val)
		}
		if a.op == OpZExt {
			return tt.mk(OpZExt, w, a.a, nil, nil, 0, "")
		}
		return tt.mk(OpZExt, w, a, nil, nil, 0, "")
	}
}

// Model assigns values to variables by name; missing ones are zero.
type Model map[string]uint64

// Eval evaluates t under a model.
func (t *Term) Eval(m Model) uint64 {
	if t.size < 64 {
		return t.eval(m, nil)
	}
	return t.eval(m, make(map[*Term]uint64))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Term) eval(m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return m[t.name] & maskB(t.w)
	}
	if memo != nil {
		if v, ok := memo[t]; ok {
			return v
		}
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - t.a.eval(m, memo)
	case OpAnd:
		r = t.a.eval(m, memo)
		if r != 0 {
			r = t.b.eval(m, memo)
		}
	case OpOr:
		r = t.a.eval(m, memo)
		if r == 0 {
			r = t.b.eval(m, memo)
		}
	case OpEq:
		r = b2u(t.a.eval(m, memo) == t.b.eval(m, memo))
	case OpIte:
		if t.a.eval(m, memo) != 0 {
			r = t.b.eval(m, memo)
		} else {
			r = t.c.eval(m, memo)
		}
	case OpULt, OpULe, OpSLt, OpSLe:
		r = b2u(evalCmp(t.op, t.a.eval(m, memo), t.b.eval(m, memo), t.a.w))
	case OpBNot:
		r = ^t.a.eval(m, memo) & mask(t.w)
	case OpNeg:
		r = -t.a.eval(m, memo) & mask(t.w)
	case OpZExt:
		r = t.a.eval(m, memo)
	case OpSExt:
		r = uint64(sext(t.a.eval(m, memo), t.a.w)) & mask(t.w)
	case OpTrunc:
		r = t.a.eval(m, memo) & mask(t.w)
	default:
		r = evalBin(t.op, t.a.eval(m, memo), t.b.eval(m, memo), t.w)
	}
	if memo != nil {
		memo[t] = r
	}
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// vars appends the variables of t to set.
func (t *Term) vars(seen map[*Term]bool, out map[string]*Term) {
	if t == nil || t.op == OpConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		out[t.name] = t
		return
	}
	t.a.vars(seen, out)
	t.b.vars(seen, out)
	t.c.vars(seen, out)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// SMT renders t, naming shared subterms with let.
func (t *Term) SMT() string {
	if t.size < 40 {
		var sb strings.Builder
		t.render(&sb, nil)
		return sb.String()
	}
	// Count references in the DAG.
	refs := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil {
			return
		}
		refs[x]++
		if refs[x] > 1 {
			return
		}
		walk(x.a)
		walk(x.b)
		walk(x.c)
		order = append(order, x)
	}
	walk(t)
	names := map[*Term]string{}
	var sb strings.Builder
	n := 0
	for _, x := range order {
		if refs[x] > 1 && x.op != OpConst && x.op != OpVar && x != t {
			sb.WriteString("(let ((?s")
			fmt.Fprint(&sb, n)
			sb.WriteString(" ")
			x.render(&sb, names)
			sb.WriteString(")) ")
			names[x] = fmt.Sprintf("?s%d", n)
			n++
		}
	}
	t.render(&sb, names)
	sb.WriteString(strings.Repeat(")", n))
	return sb.String()
}

func (t *Term) render(sb *strings.Builder, names map[*Term]string) {
	if n, ok := names[t]; ok {
		sb.WriteString(n)
		return
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", t.val, t.w)
		return
	case OpVar:
		sb.WriteString("|" + t.name + "|")
		return
	case OpZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a.w)
	case OpSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a.w)
	case OpTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
	default:
		sb.WriteString("(" + opNames[t.op] + " ")
	}
	t.a.render(sb, names)
	if t.b != nil {
		sb.WriteByte(' ')
		t.b.render(sb, names)
	}
	if t.c != nil {
		sb.WriteByte(' ')
		t.c.render(sb, names)
	}
	sb.WriteByte(')')
}

var _ = bits.Len
