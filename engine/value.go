package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one interpreter value. For scalars n holds the bits (sign-extended
// for signed types) when p is nil, and p holds a *Term when symbolic.
// For other types:
//
//	string     p: string or *SymStr (nil: "")
//	pointer    p: *Obj, n: cell offset (nil: nil pointer)
//	slice      p: *Slice (nil: nil slice)
//	map        p: *Map
//	chan       p: *Chan
//	func       p: *Closure
//	interface  p: *Iface (nil: nil interface)
//	struct, array  p: *Agg (nil: all zero)
//	tuple      p: *Agg of unflattened component values
//	host data  p: anything
type Value struct {
	n uint64
	p any
}

// SymStr is a string of known length with possibly symbolic bytes.
type SymStr struct{ b []Value }

type Obj struct {
	cells []Value
	elem  *TI // allocation type
	setup bool
	id    int
	host  any    // host data (type descriptors)
	addr  *Value // assigned address, when observed
	shad  *shadow
	gone  bool
	gidx  int // global index + 1
}

type Slice struct {
	o              *Obj
	base, len, cap int // base: cell offset of element 0
}

type Agg struct{ c []Value }

type Iface struct {
	t *TI
	v Value
}

type Closure struct {
	fn   *Func
	free []Value
	host func(m *Machine, g *G, args []Value) Value
	name string
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

type Map struct {
	t     *TI
	ents  []mapEntry
	idx   map[string]int // concrete keys only
	nsym  int
	live  int
	setup bool
	id    int
	shad  *shadow
}

type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     VC
	bufvc  []VC
}

// TI is the canonical information on one type.
type TI struct {
	t     types.Type
	under types.Type
	kind  TKind
	w     uint8 // bit width of scalars
	sgn   bool
	size  int // cells
	elem  *TI // pointer/slice/array/map value/chan element
	key   *TI
	alen  int
	offs  []int // struct field cell offsets
	flds  []*TI
	id    int
	ms    map[string]*Func
	msMu  sync.Mutex
}

type TKind uint8

const (
	KInvalid TKind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafePtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
)

// Types interns TIs.
type Types struct {
	mu sync.Mutex
	m  typeutil.Map
	n  int
}

func (ts *Types) of(t types.Type) *TI {
	ts.mu.Lock()
	defer ts.mu.Unlock()
	return ts.get(t)
}

func (ts *Types) get(t types.Type) *TI {
	t = types.Unalias(t)
	if v := ts.m.At(t); v != nil {
		return v.(*TI)
	}
	ti := &TI{t: t, under: t.Underlying(), id: ts.n}
	ts.n++
	ts.m.Set(t, ti)
	switch u := ti.under.(type) {
	case *types.Basic:
		ti.size = 1
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
			ti.w = 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.sgn = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.sgn = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.sgn = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.sgn = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32, types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafePtr
		case types.UntypedNil:
			ti.kind = KUnsafePtr
		default:
			ti.kind = KInvalid
		}
	case *types.Pointer:
		ti.kind, ti.size = KPtr, 1
		ti.elem = ts.get(u.Elem())
	case *types.Slice:
		ti.kind, ti.size = KSlice, 1
		ti.elem = ts.get(u.Elem())
	case *types.Map:
		ti.kind, ti.size = KMap, 1
		ti.key = ts.get(u.Key())
		ti.elem = ts.get(u.Elem())
	case *types.Chan:
		ti.kind, ti.size = KChan, 1
		ti.elem = ts.get(u.Elem())
	case *types.Signature:
		ti.kind, ti.size = KFunc, 1
	case *types.Interface:
		ti.kind, ti.size = KIface, 1
	case *types.Struct:
		ti.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := ts.get(u.Field(i).Type())
			ti.flds = append(ti.flds, f)
			ti.offs = append(ti.offs, off)
			off += f.size
		}
		ti.size = off
	case *types.Array:
		ti.kind = KArray
		ti.elem = ts.get(u.Elem())
		ti.alen = int(u.Len())
		ti.size = ti.alen * ti.elem.size
	case *types.Tuple:
		ti.kind = KTuple
		ti.size = 1
		for i := 0; i < u.Len(); i++ {
			ti.flds = append(ti.flds, ts.get(u.At(i).Type()))
		}
	default:
		ti.kind = KInvalid
		ti.size = 1
	}
	return ti
}

func (ti *TI) leaf() bool { return ti.kind != KStruct && ti.kind != KArray }

func (ti *TI) String() string { return types.TypeString(ti.t, nil) }

// --- constructors and accessors

func vInt(i int64) Value   { return Value{n: uint64(i)} }
func vUint(u uint64) Value { return Value{n: u} }
func vBool(b bool) Value   { return Value{n: b2u(b)} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func vTuple(vs ...Value) Value { return Value{p: &Agg{vs}} }

func (v Value) sym() *Term {
	t, _ := v.p.(*Term)
	return t
}

func (v Value) isSymStr() bool {
	_, ok := v.p.(*SymStr)
	return ok
}

func (v Value) agg(ti *TI) []Value {
	if v.p == nil {
		return make([]Value, ti.size)
	}
	return v.p.(*Agg).c
}

// subAgg returns the component of type ti at offset off within cells.
func subAgg(cells []Value, off int, ti *TI) Value {
	if ti.leaf() {
		return cells[off]
	}
	return Value{p: &Agg{cells[off : off+ti.size : off+ti.size]}}
}

func putCells(dst []Value, off int, ti *TI, v Value) {
	if ti.leaf() {
		dst[off] = v
		return
	}
	if v.p == nil {
		for i := 0; i < ti.size; i++ {
			dst[off+i] = Value{}
		}
		return
	}
	copy(dst[off:off+ti.size], v.p.(*Agg).c)
}

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strByte(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strByte")
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.p.(type) {
	case nil:
		return v
	case string:
		return vStr(s[lo:hi])
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

// mkStr makes a string value of bytes, concrete if all are.
func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, x := range b {
		if x.p != nil {
			return Value{p: &SymStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.n)
	}
	return Value{p: string(bs)}
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.p))
}

func strConcat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return Value{p: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

// goStr returns the concrete string or false.
func goStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

// dispStr renders a string for messages; symbolic bytes as '?'.
func dispStr(v Value) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		bs := make([]byte, len(s.b))
		for i, x := range s.b {
			if x.p != nil {
				bs[i] = '?'
			} else {
				bs[i] = byte(x.n)
			}
		}
		return string(bs)
	}
	return fmt.Sprintf("<%T>", v.p)
}

// normInt brings raw bits to the canonical form for ti.
func normInt(ti *TI, n uint64) uint64 {
	if ti.kind == KBool {
		return n & 1
	}
	if ti.w >= 64 {
		return n
	}
	if ti.sgn {
		return uint64(sext(n, ti.w))
	}
	return n & mask(ti.w)
}

var _ ssa.Value
