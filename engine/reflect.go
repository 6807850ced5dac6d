package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
)

// reflVal is the host form of a reflect.Value.
type reflVal struct {
	t   *TI
	v   Value
	o   *Obj // addressable location
	off int
	ro  bool
}

func (r *reflVal) get() Value {
	if r.o == nil {
		return r.v
	}
	return subAggCopy(r.o.cells, r.off, r.t)
}

func subAggCopy(cells []Value, off int, ti *TI) Value {
	if ti.leaf() {
		return cells[off]
	}
	return Value{p: &Agg{append([]Value(nil), cells[off:off+ti.size]...)}}
}

type mapIterBox struct {
	it   *mapIter
	k, v Value
	ok   bool
	t    *TI
}

// reflectKind follows reflect.Kind numbering.
func reflectKind(t *TI) uint64 {
	switch u := t.under.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

// reflString is the reflect.Type string of t.
func reflString(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return types.Typ[t.Kind()].Name()
	case *types.Named:
		s := t.Obj().Name()
		if t.Obj().Pkg() != nil {
			s = t.Obj().Pkg().Name() + "." + s
		}
		if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, types.TypeString(ta.At(i), nil))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	case *types.Pointer:
		return "*" + reflString(t.Elem())
	case *types.Slice:
		return "[]" + reflString(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), reflString(t.Elem()))
	case *types.Map:
		return "map[" + reflString(t.Key()) + "]" + reflString(t.Elem())
	case *types.Chan:
		switch t.Dir() {
		case types.SendOnly:
			return "chan<- " + reflString(t.Elem())
		case types.RecvOnly:
			return "<-chan " + reflString(t.Elem())
		}
		return "chan " + reflString(t.Elem())
	case *types.Signature:
		return "func" + sigString(t)
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "interface {}"
		}
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name()+sigString(t.Method(i).Type().(*types.Signature)))
		}
		sort.Strings(ms)
		return "interface { " + strings.Join(ms, "; ") + " }"
	case *types.Struct:
		if t.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < t.NumFields(); i++ {
			s := ""
			if !t.Field(i).Embedded() {
				s = t.Field(i).Name() + " "
			}
			s += reflString(t.Field(i).Type())
			if t.Tag(i) != "" {
				s += " " + strconv.Quote(t.Tag(i))
			}
			fs = append(fs, s)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	}
	return types.TypeString(t, nil)
}

func sigString(s *types.Signature) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		pt := s.Params().At(i).Type()
		if s.Variadic() && i == s.Params().Len()-1 {
			if sl, ok := pt.(*types.Slice); ok {
				ps = append(ps, "..."+reflString(sl.Elem()))
				continue
			}
		}
		ps = append(ps, reflString(pt))
	}
	r := "(" + strings.Join(ps, ", ") + ")"
	switch s.Results().Len() {
	case 0:
	case 1:
		r += " " + reflString(s.Results().At(0).Type())
	default:
		var rs []string
		for i := 0; i < s.Results().Len(); i++ {
			rs = append(rs, reflString(s.Results().At(i).Type()))
		}
		r += " (" + strings.Join(rs, ", ") + ")"
	}
	return r
}

// typeObj is the canonical object standing for a type descriptor.
func (m *Machine) typeObj(t *TI) *Obj {
	if o := m.typeObjs[t]; o != nil {
		return o
	}
	o := &Obj{setup: true, id: -1000000 - t.id, cells: make([]Value, 1), elem: m.uint8T, host: t}
	if m.typeObjs == nil {
		m.typeObjs = map[*TI]*Obj{}
	}
	m.typeObjs[t] = o
	return o
}

// rtype makes a reflect.Type (or reflectlite.Type) interface value.
func (m *Machine) rtype(lite bool, t *TI) Value {
	if t == nil {
		return Value{}
	}
	if lite {
		return Value{p: &Iface{t: m.p.namedType("internal/reflectlite", "rtype"), v: Value{p: &Agg{[]Value{{p: m.typeObj(t)}}}}}}
	}
	return Value{p: &Iface{t: m.p.ptrTo(m.p.namedType("reflect", "rtype")), v: Value{p: m.typeObj(t)}}}
}

func (c *Call) typeArg(i int) *TI {
	v := c.args[i]
	if ifc, ok := v.p.(*Iface); ok {
		v = ifc.v
	}
	if a, ok := v.p.(*Agg); ok {
		v = a.c[0]
	}
	o, ok := v.p.(*Obj)
	if !ok {
		c.m.nilDeref(c.fr)
	}
	t, ok := o.host.(*TI)
	if !ok {
		c.m.unsupported("unknown reflect.Type implementation")
	}
	return t
}

func rval(r *reflVal) Value {
	if r == nil {
		return Value{p: &Agg{make([]Value, 3)}}
	}
	return Value{p: &Agg{[]Value{{p: r}, {}, {}}}}
}

// rv returns the reflVal of an argument; nil for the zero Value.
func (c *Call) rv(i int) *reflVal {
	a, ok := c.args[i].p.(*Agg)
	if !ok {
		return nil
	}
	r, _ := a.c[0].p.(*reflVal)
	return r
}

func (c *Call) rvOk(i int, what string) *reflVal {
	r := c.rv(i)
	if r == nil {
		c.m.goPanicStr(c.fr, "reflect: call of reflect.Value."+what+" on zero Value")
	}
	return r
}

func (c *Call) str(i int) string {
	s, ok := goStr(c.args[i])
	if !ok {
		c.m.unsupported("symbolic string for " + c.fn.name)
	}
	return s
}

func (c *Call) int(i int) int64 { return c.m.concInt(c.fr, c.args[i]) }

// ifaceOf converts a value of static type t to an interface value.
func ifaceOf(t *TI, v Value) Value {
	if t.kind == KIface {
		return v
	}
	return Value{p: &Iface{t: t, v: v}}
}

// assignTo converts r's value for storage in a location of type t.
func assignTo(c *Call, r *reflVal, t *TI) Value {
	if t.kind == KIface && r.t.kind != KIface {
		return Value{p: &Iface{t: r.t, v: r.get()}}
	}
	return r.get()
}

func (m *Machine) mkStruct(t *TI, vals map[string]Value) Value {
	cells := make([]Value, t.size)
	st := t.under.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := vals[st.Field(i).Name()]; ok {
			putCells(cells, t.offs[i], t.flds[i], v)
		}
	}
	return Value{p: &Agg{cells}}
}

func (r *reflVal) mustSet(c *Call) {
	if r.o == nil {
		c.m.goPanicStr(c.fr, "reflect: reflect.Value.Set using unaddressable value")
	}
	if r.ro {
		c.m.goPanicStr(c.fr, "reflect: reflect.Value.Set using value obtained using unexported field")
	}
}

func (r *reflVal) set(c *Call, v Value) {
	r.mustSet(c)
	c.m.store(c.fr, Value{p: r.o, n: uint64(r.off)}, r.t, v)
}

// methodList is the exported method set in reflect order.
func (p *Program) methodList(t *TI) []*types.Selection {
	var r []*types.Selection
	msLock.Lock()
	ms := p.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	msLock.Unlock()
	sort.Slice(r, func(i, j int) bool { return r[i].Obj().Name() < r[j].Obj().Name() })
	return r
}

func ifaceMethods(it *types.Interface) []*types.Func {
	var r []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		r = append(r, it.Method(i))
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func (m *Machine) reflMethod(t *TI, i int) Value {
	mt := m.p.namedType("reflect", "Method")
	if it, ok := t.under.(*types.Interface); ok {
		f := ifaceMethods(it)[i]
		sig := f.Type().(*types.Signature)
		plain := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		return m.mkStruct(mt, map[string]Value{"Name": vStr(f.Name()), "Type": m.rtype(false, m.p.ti(plain)), "Index": vInt(int64(i))})
	}
	sel := m.p.methodList(t)[i]
	sig := sel.Obj().Type().(*types.Signature)
	ps := []*types.Var{types.NewVar(0, nil, "", t.t)}
	for j := 0; j < sig.Params().Len(); j++ {
		ps = append(ps, sig.Params().At(j))
	}
	fs := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
	ft := m.p.ti(fs)
	fn := m.p.method(t, sel.Obj().Pkg(), sel.Obj().Name())
	return m.mkStruct(mt, map[string]Value{
		"Name": vStr(sel.Obj().Name()), "Type": m.rtype(false, ft),
		"Func": rval(&reflVal{t: ft, v: Value{p: &Closure{fn: fn}}}), "Index": vInt(int64(i)),
	})
}

func (m *Machine) structField(t *TI, i int, index []int) Value {
	st := t.under.(*types.Struct)
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	var ix []Value
	for _, x := range index {
		ix = append(ix, vInt(int64(x)))
	}
	return m.mkStruct(m.p.namedType("reflect", "StructField"), map[string]Value{
		"Name": vStr(f.Name()), "PkgPath": vStr(pkg), "Type": m.rtype(false, m.p.ti(f.Type())),
		"Tag": vStr(st.Tag(i)), "Anonymous": vBool(f.Embedded()), "Index": m.bytesSlice(ix, m.intT),
		"Offset": vInt(int64(t.offs[i] * 8)),
	})
}

func (r *reflVal) field(i int) *reflVal {
	st := r.t.under.(*types.Struct)
	f := st.Field(i)
	n := &reflVal{t: r.t.flds[i], ro: r.ro || !f.Exported()}
	if r.o != nil {
		n.o, n.off = r.o, r.off+r.t.offs[i]
	} else {
		n.v = subAgg(r.v.agg(r.t), r.t.offs[i], n.t)
	}
	return n
}

func (r *reflVal) elem(c *Call) *reflVal {
	switch r.t.kind {
	case KIface:
		ifc, _ := r.get().p.(*Iface)
		if ifc == nil {
			return nil
		}
		return &reflVal{t: ifc.t, v: ifc.v, ro: r.ro}
	case KPtr:
		v := r.get()
		o, _ := v.p.(*Obj)
		if o == nil {
			return nil
		}
		return &reflVal{t: r.t.elem, o: o, off: int(v.n), ro: r.ro}
	}
	c.m.goPanicStr(c.fr, "reflect: call of reflect.Value.Elem on "+kindNames[reflectKind(r.t)]+" Value")
	return nil
}

func (r *reflVal) length(c *Call) int {
	v := r.get()
	switch r.t.kind {
	case KString:
		return strLen(v)
	case KSlice:
		if s, _ := v.p.(*Slice); s != nil {
			return s.len
		}
		return 0
	case KMap:
		if mp, _ := v.p.(*Map); mp != nil {
			return mp.live
		}
		return 0
	case KArray:
		return r.t.alen
	case KChan:
		if ch, _ := v.p.(*Chan); ch != nil {
			return len(ch.buf)
		}
		return 0
	case KPtr:
		if r.t.elem.kind == KArray {
			return r.t.elem.alen
		}
	}
	c.m.goPanicStr(c.fr, "reflect: call of reflect.Value.Len on "+kindNames[reflectKind(r.t)]+" Value")
	return 0
}

func (r *reflVal) index(c *Call, i int) *reflVal {
	if i < 0 || i >= r.length(c) {
		c.m.goPanicStr(c.fr, "reflect: slice index out of range")
	}
	switch r.t.kind {
	case KSlice:
		s := r.get().p.(*Slice)
		return &reflVal{t: r.t.elem, o: s.o, off: s.base + i*r.t.elem.size, ro: r.ro}
	case KArray:
		n := &reflVal{t: r.t.elem, ro: r.ro}
		if r.o != nil {
			n.o, n.off = r.o, r.off+i*r.t.elem.size
		} else {
			n.v = subAgg(r.v.agg(r.t), i*r.t.elem.size, r.t.elem)
		}
		return n
	case KString:
		return &reflVal{t: c.m.uint8T, v: strByte(r.get(), i), ro: r.ro}
	}
	c.m.unsupported("reflect Index of " + r.t.String())
	return nil
}

func (m *Machine) deepEqual(fr *Frame, t *TI, a, b Value, depth int) *Term {
	if depth > 50 {
		m.unsupported("deep recursion in reflect.DeepEqual")
	}
	tt := m.tt
	switch t.kind {
	case KIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return tt.Fals
		}
		return m.deepEqual(fr, x.t, x.v, y.v, depth+1)
	case KPtr:
		if a.p == nil || b.p == nil {
			return tt.Bool(a.p == nil && b.p == nil)
		}
		if a.p == b.p && a.n == b.n {
			return tt.True
		}
		oa, ob := a.p.(*Obj), b.p.(*Obj)
		return m.deepEqual(fr, t.elem, subAgg(oa.cells, int(a.n), t.elem), subAgg(ob.cells, int(b.n), t.elem), depth+1)
	case KSlice:
		x, _ := a.p.(*Slice)
		y, _ := b.p.(*Slice)
		if (x == nil) != (y == nil) {
			return tt.Fals
		}
		if x == nil {
			return tt.True
		}
		if x.len != y.len {
			return tt.Fals
		}
		r := tt.True
		for i := 0; i < x.len; i++ {
			r = tt.And(r, m.deepEqual(fr, t.elem, subAgg(x.o.cells, x.base+i*t.elem.size, t.elem), subAgg(y.o.cells, y.base+i*t.elem.size, t.elem), depth+1))
		}
		return r
	case KMap:
		x, _ := a.p.(*Map)
		y, _ := b.p.(*Map)
		if (x == nil) != (y == nil) {
			return tt.Fals
		}
		if x == nil {
			return tt.True
		}
		if x.live != y.live {
			return tt.Fals
		}
		r := tt.True
		for i := range x.ents {
			e := &x.ents[i]
			if e.deleted {
				continue
			}
			j, _, _ := m.find(fr, y, e.k)
			if j < 0 {
				return tt.Fals
			}
			r = tt.And(r, m.deepEqual(fr, t.elem, e.v, y.ents[j].v, depth+1))
		}
		return r
	case KStruct:
		r := tt.True
		ca, cb := a.agg(t), b.agg(t)
		for i, f := range t.flds {
			r = tt.And(r, m.deepEqual(fr, f, subAgg(ca, t.offs[i], f), subAgg(cb, t.offs[i], f), depth+1))
		}
		return r
	case KArray:
		r := tt.True
		ca, cb := a.agg(t), b.agg(t)
		for i := 0; i < t.alen; i++ {
			r = tt.And(r, m.deepEqual(fr, t.elem, subAgg(ca, i*t.elem.size, t.elem), subAgg(cb, i*t.elem.size, t.elem), depth+1))
		}
		return r
	case KFunc:
		return tt.Bool(a.p == nil && b.p == nil)
	}
	return m.eq(fr, t, a, b)
}

func (m *Machine) isZero(fr *Frame, t *TI, v Value) bool {
	switch t.kind {
	case KSlice, KMap, KPtr, KFunc, KIface, KChan, KUnsafePtr:
		return v.p == nil
	case KString:
		return strLen(v) == 0
	case KStruct, KArray:
		if v.p == nil {
			return true
		}
		var fs []*TI
		var offs []int
		if t.kind == KStruct {
			fs, offs = t.flds, t.offs
		} else {
			for i := 0; i < t.alen; i++ {
				fs = append(fs, t.elem)
				offs = append(offs, i*t.elem.size)
			}
		}
		for i, f := range fs {
			if !m.isZero(fr, f, subAgg(v.p.(*Agg).c, offs[i], f)) {
				return false
			}
		}
		return true
	}
	return m.branch(m.eq(fr, t, v, Value{}))
}

func registerReflect(in map[string]intrinsic) {
	for _, lite := range []bool{false, true} {
		lite := lite
		pkg, tp := "reflect", "(*reflect.rtype)."
		if lite {
			pkg, tp = "internal/reflectlite", "(internal/reflectlite.rtype)."
		}
		vp := "(" + pkg + ".Value)."
		T := func(name string, f func(c *Call, t *TI) Value) {
			in[tp+name] = func(c *Call) Value { return f(c, c.typeArg(0)) }
		}
		V := func(name string, f func(c *Call, r *reflVal) Value) {
			in[vp+name] = func(c *Call) Value { return f(c, c.rvOk(0, name)) }
		}
		in[pkg+".TypeOf"] = func(c *Call) Value {
			ifc, _ := c.args[0].p.(*Iface)
			if ifc == nil {
				return Value{}
			}
			return c.m.rtype(lite, ifc.t)
		}
		in[pkg+".ValueOf"] = func(c *Call) Value {
			ifc, _ := c.args[0].p.(*Iface)
			if ifc == nil {
				return rval(nil)
			}
			return rval(&reflVal{t: ifc.t, v: ifc.v})
		}
		// Types
		T("String", func(c *Call, t *TI) Value { return vStr(reflString(t.t)) })
		T("Name", func(c *Call, t *TI) Value {
			switch u := t.t.(type) {
			case *types.Named:
				s := reflString(u)
				if i := strings.IndexByte(s, '['); i >= 0 {
					j := strings.LastIndexByte(s[:i], '.')
					return vStr(s[j+1:])
				}
				return vStr(u.Obj().Name())
			case *types.Basic:
				if u.Kind() == types.UnsafePointer {
					return vStr("Pointer")
				}
				return vStr(reflString(u))
			}
			return Value{}
		})
		T("PkgPath", func(c *Call, t *TI) Value {
			if u, ok := t.t.(*types.Basic); ok && u.Kind() == types.UnsafePointer {
				return vStr("unsafe")
			}
			if u, ok := t.t.(*types.Named); ok && u.Obj().Pkg() != nil {
				return vStr(u.Obj().Pkg().Path())
			}
			return Value{}
		})
		T("Kind", func(c *Call, t *TI) Value { return vUint(reflectKind(t)) })
		T("Size", func(c *Call, t *TI) Value { return vUint(uint64(byteSize(t))) })
		T("Bits", func(c *Call, t *TI) Value { return vInt(int64(byteSize(t) * 8)) })
		T("Comparable", func(c *Call, t *TI) Value { return vBool(types.Comparable(t.t)) })
		T("Elem", func(c *Call, t *TI) Value {
			if t.elem == nil {
				c.m.goPanicStr(c.fr, "reflect: Elem of invalid type "+reflString(t.t))
			}
			return c.m.rtype(lite, t.elem)
		})
		T("Implements", func(c *Call, t *TI) Value {
			if c.args[1].p == nil {
				c.m.goPanicStr(c.fr, "reflect: nil type passed to Type.Implements")
			}
			u := c.typeArg(1)
			it, ok := u.under.(*types.Interface)
			if !ok {
				c.m.goPanicStr(c.fr, "reflect: non-interface type passed to Type.Implements")
			}
			return vBool(c.m.p.implements(t, it, u))
		})
		T("AssignableTo", func(c *Call, t *TI) Value {
			u := c.typeArg(1)
			c.m.p.implMu()
			defer c.m.p.implUnmu()
			return vBool(types.AssignableTo(t.t, u.t))
		})
		T("Len", func(c *Call, t *TI) Value { return vInt(int64(t.alen)) })
		V("Kind", func(c *Call, r *reflVal) Value { return vUint(reflectKind(r.t)) })
		in[vp+"Kind"] = func(c *Call) Value {
			if r := c.rv(0); r != nil {
				return vUint(reflectKind(r.t))
			}
			return Value{}
		}
		in[vp+"IsValid"] = func(c *Call) Value { return vBool(c.rv(0) != nil) }
		V("Type", func(c *Call, r *reflVal) Value { return c.m.rtype(lite, r.t) })
		V("IsNil", func(c *Call, r *reflVal) Value {
			switch r.t.kind {
			case KSlice, KMap, KPtr, KFunc, KIface, KChan, KUnsafePtr:
				return vBool(r.get().p == nil)
			}
			c.m.goPanicStr(c.fr, "reflect: call of reflect.Value.IsNil on "+kindNames[reflectKind(r.t)]+" Value")
			return Value{}
		})
		V("Elem", func(c *Call, r *reflVal) Value { return rval(r.elem(c)) })
		V("Set", func(c *Call, r *reflVal) Value {
			x := c.rvOk(1, "Set")
			c.m.p.implMu()
			ok := types.AssignableTo(x.t.t, r.t.t)
			c.m.p.implUnmu()
			if !ok {
				c.m.goPanicStr(c.fr, "reflect.Set: value of type "+reflString(x.t.t)+" is not assignable to type "+reflString(r.t.t))
			}
			r.set(c, assignTo(c, x, r.t))
			return Value{}
		})
		V("Len", func(c *Call, r *reflVal) Value { return vInt(int64(r.length(c))) })
		V("CanSet", func(c *Call, r *reflVal) Value { return vBool(r.o != nil && !r.ro) })
		in[vp+"CanSet"] = func(c *Call) Value { r := c.rv(0); return vBool(r != nil && r.o != nil && !r.ro) }
	}
	registerReflect2(in)
}

func registerReflect2(in map[string]intrinsic) {
	tp, vp := "(*reflect.rtype).", "(reflect.Value)."
	T := func(name string, f func(c *Call, t *TI) Value) {
		in[tp+name] = func(c *Call) Value { return f(c, c.typeArg(0)) }
	}
	V := func(name string, f func(c *Call, r *reflVal) Value) {
		in[vp+name] = func(c *Call) Value { return f(c, c.rvOk(0, name)) }
	}
	in["(reflect.Kind).String"] = func(c *Call) Value {
		n := c.args[0].n
		if n < uint64(len(kindNames)) {
			return vStr(kindNames[n])
		}
		return vStr("kind" + strconv.Itoa(int(n)))
	}
	in["(reflect.ChanDir).String"] = func(c *Call) Value {
		switch c.args[0].n {
		case 1:
			return vStr("<-chan")
		case 2:
			return vStr("chan<-")
		case 3:
			return vStr("chan")
		}
		return vStr("ChanDir" + strconv.Itoa(int(c.args[0].n)))
	}
	sigOf := func(c *Call, t *TI) *types.Signature {
		s, ok := t.under.(*types.Signature)
		if !ok {
			c.m.goPanicStr(c.fr, "reflect: NumIn of non-func type "+reflString(t.t))
		}
		return s
	}
	T("NumIn", func(c *Call, t *TI) Value { return vInt(int64(sigOf(c, t).Params().Len())) })
	T("NumOut", func(c *Call, t *TI) Value { return vInt(int64(sigOf(c, t).Results().Len())) })
	T("IsVariadic", func(c *Call, t *TI) Value { return vBool(sigOf(c, t).Variadic()) })
	T("In", func(c *Call, t *TI) Value {
		return c.m.rtype(false, c.m.p.ti(sigOf(c, t).Params().At(int(c.int(1))).Type()))
	})
	T("Out", func(c *Call, t *TI) Value {
		return c.m.rtype(false, c.m.p.ti(sigOf(c, t).Results().At(int(c.int(1))).Type()))
	})
	T("Key", func(c *Call, t *TI) Value {
		if t.kind != KMap {
			c.m.goPanicStr(c.fr, "reflect: Key of non-map type "+reflString(t.t))
		}
		return c.m.rtype(false, t.key)
	})
	T("ChanDir", func(c *Call, t *TI) Value {
		ch, ok := t.under.(*types.Chan)
		if !ok {
			c.m.goPanicStr(c.fr, "reflect: ChanDir of non-chan type "+reflString(t.t))
		}
		switch ch.Dir() {
		case types.SendOnly:
			return vInt(2)
		case types.RecvOnly:
			return vInt(1)
		}
		return vInt(3)
	})
	T("Len", func(c *Call, t *TI) Value {
		if t.kind != KArray {
			c.m.goPanicStr(c.fr, "reflect: Len of non-array type "+reflString(t.t))
		}
		return vInt(int64(t.alen))
	})
	T("NumMethod", func(c *Call, t *TI) Value {
		if it, ok := t.under.(*types.Interface); ok {
			return vInt(int64(it.NumMethods()))
		}
		return vInt(int64(len(c.m.p.methodList(t))))
	})
	T("Method", func(c *Call, t *TI) Value { return c.m.reflMethod(t, int(c.int(1))) })
	T("MethodByName", func(c *Call, t *TI) Value {
		name := c.str(1)
		if it, ok := t.under.(*types.Interface); ok {
			for i, f := range ifaceMethods(it) {
				if f.Name() == name {
					return vTuple(c.m.reflMethod(t, i), vBool(true))
				}
			}
		} else {
			for i, s := range c.m.p.methodList(t) {
				if s.Obj().Name() == name {
					return vTuple(c.m.reflMethod(t, i), vBool(true))
				}
			}
		}
		return vTuple(zeroOf(c.m.p.namedType("reflect", "Method")), vBool(false))
	})
	T("NumField", func(c *Call, t *TI) Value {
		if t.kind != KStruct {
			c.m.goPanicStr(c.fr, "reflect: NumField of non-struct type "+reflString(t.t))
		}
		return vInt(int64(len(t.flds)))
	})
	T("Field", func(c *Call, t *TI) Value {
		i := int(c.int(1))
		if t.kind != KStruct {
			c.m.goPanicStr(c.fr, "reflect: Field of non-struct type "+reflString(t.t))
		}
		if i < 0 || i >= len(t.flds) {
			c.m.goPanicStr(c.fr, "reflect: Field index out of bounds")
		}
		return c.m.structField(t, i, []int{i})
	})
	T("FieldByName", func(c *Call, t *TI) Value {
		name := c.str(1)
		obj, idx, _ := types.LookupFieldOrMethod(t.t, false, nil, name)
		if v, ok := obj.(*types.Var); ok && v.IsField() {
			cur := t
			for _, i := range idx[:len(idx)-1] {
				cur = cur.flds[i]
				if cur.kind == KPtr {
					cur = cur.elem
				}
			}
			return vTuple(c.m.structField(cur, idx[len(idx)-1], idx), vBool(true))
		}
		return vTuple(zeroOf(c.m.p.namedType("reflect", "StructField")), vBool(false))
	})
	T("ConvertibleTo", func(c *Call, t *TI) Value { return vBool(types.ConvertibleTo(t.t, c.typeArg(1).t)) })
	ptrTo := func(c *Call) Value { return c.m.rtype(false, c.m.p.ptrTo(c.typeArg(0))) }
	in["reflect.PtrTo"] = ptrTo
	in["reflect.PointerTo"] = ptrTo
	in["reflect.SliceOf"] = func(c *Call) Value { return c.m.rtype(false, c.m.p.ti(types.NewSlice(c.typeArg(0).t))) }
	in["reflect.MapOf"] = func(c *Call) Value {
		return c.m.rtype(false, c.m.p.ti(types.NewMap(c.typeArg(0).t, c.typeArg(1).t)))
	}
	in["reflect.New"] = func(c *Call) Value {
		t := c.typeArg(0)
		return rval(&reflVal{t: c.m.p.ptrTo(t), v: Value{p: c.m.newObj(t)}})
	}
	in["reflect.Zero"] = func(c *Call) Value {
		t := c.typeArg(0)
		return rval(&reflVal{t: t, v: zeroOf(t)})
	}
	in["reflect.MakeMap"] = func(c *Call) Value {
		t := c.typeArg(0)
		return rval(&reflVal{t: t, v: Value{p: c.m.newMap(t)}})
	}
	in["reflect.MakeMapWithSize"] = in["reflect.MakeMap"]
	in["reflect.MakeSlice"] = func(c *Call) Value {
		t := c.typeArg(0)
		return rval(&reflVal{t: t, v: c.m.newSlice(t.elem, int(c.int(1)), int(c.int(2)))})
	}
	in["reflect.Indirect"] = func(c *Call) Value {
		r := c.rv(0)
		if r == nil || r.t.kind != KPtr {
			return c.args[0]
		}
		return rval(r.elem(c))
	}
	in["reflect.Append"] = func(c *Call) Value {
		s := c.rvOk(0, "Append")
		xs, _ := c.args[1].p.(*Slice)
		cur := s.get()
		if xs != nil {
			vt := c.m.p.namedType("reflect", "Value")
			for i := 0; i < xs.len; i++ {
				cc := &Call{m: c.m, g: c.g, fr: c.fr, fn: c.fn, args: []Value{subAgg(xs.o.cells, xs.base+i*vt.size, vt)}}
				x := cc.rvOk(0, "Append")
				v := assignTo(c, x, s.t.elem)
				cells := make([]Value, s.t.elem.size)
				putCells(cells, 0, s.t.elem, v)
				cur = c.m.appendCells(cur, s.t.elem, cells, 1)
			}
		}
		return rval(&reflVal{t: s.t, v: cur})
	}
	in["reflect.DeepEqual"] = func(c *Call) Value {
		any := c.m.anyT
		return c.m.fromTerm(c.m.deepEqual(c.fr, any, c.args[0], c.args[1], 0), c.m.boolT)
	}
	in["reflect.Swapper"] = func(c *Call) Value { return c.m.swapper(c) }
	in["internal/reflectlite.Swapper"] = func(c *Call) Value { return c.m.swapper(c) }

	V("CanAddr", func(c *Call, r *reflVal) Value { return vBool(r.o != nil) })
	V("CanInterface", func(c *Call, r *reflVal) Value { return vBool(!r.ro) })
	V("Addr", func(c *Call, r *reflVal) Value {
		if r.o == nil {
			c.m.goPanicStr(c.fr, "reflect.Value.Addr of unaddressable value")
		}
		return rval(&reflVal{t: c.m.p.ptrTo(r.t), v: Value{p: r.o, n: uint64(r.off)}, ro: r.ro})
	})
	V("Interface", func(c *Call, r *reflVal) Value {
		if r.ro {
			c.m.goPanicStr(c.fr, "reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return ifaceOf(r.t, r.get())
	})
	V("IsZero", func(c *Call, r *reflVal) Value { return vBool(c.m.isZero(c.fr, r.t, r.get())) })
	V("NumField", func(c *Call, r *reflVal) Value { return vInt(int64(len(r.t.flds))) })
	V("Field", func(c *Call, r *reflVal) Value {
		i := int(c.int(1))
		if r.t.kind != KStruct || i < 0 || i >= len(r.t.flds) {
			c.m.goPanicStr(c.fr, "reflect: Field index out of range")
		}
		return rval(r.field(i))
	})
	V("FieldByName", func(c *Call, r *reflVal) Value {
		obj, idx, _ := types.LookupFieldOrMethod(r.t.t, false, nil, c.str(1))
		if v, ok := obj.(*types.Var); !ok || !v.IsField() {
			return rval(nil)
		}
		cur := r
		for _, i := range idx {
			if cur.t.kind == KPtr {
				cur = cur.elem(c)
			}
			cur = cur.field(i)
		}
		return rval(cur)
	})
	fieldByIndex := func(c *Call, r *reflVal) *reflVal {
		s := c.args[1].p.(*Slice)
		cur := r
		for i := 0; i < s.len; i++ {
			if cur.t.kind == KPtr {
				cur = cur.elem(c)
				if cur == nil {
					c.m.goPanicStr(c.fr, "reflect: indirection through nil pointer to embedded struct")
				}
			}
			cur = cur.field(int(s.o.cells[s.base+i].n))
		}
		return cur
	}
	V("FieldByIndex", func(c *Call, r *reflVal) Value { return rval(fieldByIndex(c, r)) })
	V("FieldByIndexErr", func(c *Call, r *reflVal) Value { return vTuple(rval(fieldByIndex(c, r)), Value{}) })
	V("Index", func(c *Call, r *reflVal) Value { return rval(r.index(c, int(c.int(1)))) })
	V("Cap", func(c *Call, r *reflVal) Value {
		if s, _ := r.get().p.(*Slice); s != nil {
			return vInt(int64(s.cap))
		}
		return Value{}
	})
	V("MapKeys", func(c *Call, r *reflVal) Value {
		mp, _ := r.get().p.(*Map)
		vt := c.m.p.namedType("reflect", "Value")
		var cells []Value
		n := 0
		if mp != nil {
			it := c.m.newMapIter(c.fr, mp, r.t)
			for _, i := range it.order {
				cells = append(cells, rval(&reflVal{t: r.t.key, v: mp.ents[i].k, ro: r.ro}).p.(*Agg).c...)
				n++
			}
		}
		o := c.m.newArr(vt, 0)
		o.cells = cells
		return Value{p: &Slice{o: o, len: n, cap: n}}
	})
	V("MapIndex", func(c *Call, r *reflVal) Value {
		mp, _ := r.get().p.(*Map)
		k := c.rvOk(1, "MapIndex")
		v, ok := c.m.mapGet(c.fr, mp, assignTo(c, k, r.t.key))
		if !ok {
			return rval(nil)
		}
		return rval(&reflVal{t: r.t.elem, v: v, ro: r.ro})
	})
	V("SetMapIndex", func(c *Call, r *reflVal) Value {
		mp, _ := r.get().p.(*Map)
		k := c.rvOk(1, "SetMapIndex")
		x := c.rv(2)
		if x == nil {
			c.m.mapDelete(c.fr, mp, assignTo(c, k, r.t.key))
			return Value{}
		}
		if mp == nil {
			c.m.goPanicStr(c.fr, "assignment to entry in nil map")
		}
		c.m.mapSet(c.fr, mp, assignTo(c, k, r.t.key), assignTo(c, x, r.t.elem))
		return Value{}
	})
	V("MapRange", func(c *Call, r *reflVal) Value {
		mp, _ := r.get().p.(*Map)
		o := c.m.newObj(c.m.p.namedType("reflect", "MapIter"))
		o.cells[0] = Value{p: &mapIterBox{it: c.m.newMapIter(c.fr, mp, r.t), t: r.t}}
		return Value{p: o}
	})
	box := func(c *Call) *mapIterBox {
		return c.args[0].p.(*Obj).cells[c.args[0].n].p.(*mapIterBox)
	}
	in["(*reflect.MapIter).Next"] = func(c *Call) Value {
		b := box(c)
		r := b.it.next(c.fr).p.(*Agg)
		b.ok = r.c[0].n != 0
		b.k, b.v = r.c[1], r.c[2]
		return vBool(b.ok)
	}
	in["(*reflect.MapIter).Key"] = func(c *Call) Value { b := box(c); return rval(&reflVal{t: b.t.key, v: b.k}) }
	in["(*reflect.MapIter).Value"] = func(c *Call) Value { b := box(c); return rval(&reflVal{t: b.t.elem, v: b.v}) }
	V("SetIterKey", func(c *Call, r *reflVal) Value {
		b := c.args[1].p.(*Obj).cells[c.args[1].n].p.(*mapIterBox)
		r.set(c, b.k)
		return Value{}
	})
	V("SetIterValue", func(c *Call, r *reflVal) Value {
		b := c.args[1].p.(*Obj).cells[c.args[1].n].p.(*mapIterBox)
		r.set(c, b.v)
		return Value{}
	})
	V("NumMethod", func(c *Call, r *reflVal) Value {
		if it, ok := r.t.under.(*types.Interface); ok {
			return vInt(int64(it.NumMethods()))
		}
		return vInt(int64(len(c.m.p.methodList(r.t))))
	})
	V("MethodByName", func(c *Call, r *reflVal) Value {
		name := c.str(1)
		if _, ok := r.t.under.(*types.Interface); !ok {
			for _, s := range c.m.p.methodList(r.t) {
				if s.Obj().Name() == name {
					c.m.unsupported("(reflect.Value).MethodByName of an existing method")
				}
			}
			return Value{}
		}
		c.m.unsupported("(reflect.Value).MethodByName of an interface")
		return Value{}
	})
	num := func(name string, ks ...TKind) {
		V(name, func(c *Call, r *reflVal) Value {
			ok := false
			for _, k := range ks {
				ok = ok || r.t.kind == k
			}
			if !ok || name == "Int" && !r.t.sgn || name == "Uint" && r.t.sgn {
				c.m.goPanicStr(c.fr, "reflect: call of reflect.Value."+name+" on "+kindNames[reflectKind(r.t)]+" Value")
			}
			v := r.get()
			if t := v.sym(); t != nil && (name == "Int" || name == "Uint") {
				return Value{p: c.m.tt.Resize(t, 64, r.t.sgn)}
			}
			return v
		})
	}
	num("Int", KInt)
	num("Uint", KInt)
	num("Bool", KBool)
	num("Float", KFloat)
	num("Complex", KComplex)
	can := func(name string, f func(t *TI) bool) {
		in[vp+name] = func(c *Call) Value { r := c.rv(0); return vBool(r != nil && f(r.t)) }
	}
	can("CanInt", func(t *TI) bool { return t.kind == KInt && t.sgn })
	can("CanUint", func(t *TI) bool { return t.kind == KInt && !t.sgn })
	can("CanFloat", func(t *TI) bool { return t.kind == KFloat })
	can("CanComplex", func(t *TI) bool { return t.kind == KComplex })
	in[vp+"String"] = func(c *Call) Value {
		r := c.rv(0)
		if r == nil {
			return vStr("<invalid Value>")
		}
		if r.t.kind == KString {
			return r.get()
		}
		return vStr("<" + reflString(r.t.t) + " Value>")
	}
	V("Bytes", func(c *Call, r *reflVal) Value {
		if r.t.kind == KArray {
			return Value{p: &Slice{o: r.o, base: r.off, len: r.t.alen, cap: r.t.alen}}
		}
		return r.get()
	})
	V("Pointer", func(c *Call, r *reflVal) Value {
		v := r.get()
		switch p := v.p.(type) {
		case *Slice:
			return c.m.addrOf(Value{p: p.o, n: uint64(p.base)})
		case *Obj, nil:
			return c.m.addrOf(v)
		case *Closure: // the address of the code
			h := fnv.New32a()
			if p.fn != nil {
				h.Write([]byte(p.fn.name))
			} else {
				h.Write([]byte(p.name))
			}
			return Value{n: 0x400000 + uint64(h.Sum32())<<4}
		}
		c.m.unsupported("reflect Pointer of " + r.t.String())
		return Value{}
	})
	V("UnsafePointer", func(c *Call, r *reflVal) Value {
		v := r.get()
		switch p := v.p.(type) {
		case *Slice:
			return Value{p: p.o, n: uint64(p.base)}
		case *Obj, nil:
			return v
		}
		c.m.unsupported("reflect UnsafePointer of " + r.t.String())
		return Value{}
	})
	V("UnsafeAddr", func(c *Call, r *reflVal) Value { return c.m.addrOf(Value{p: r.o, n: uint64(r.off)}) })
	V("SetString", func(c *Call, r *reflVal) Value { r.set(c, c.args[1]); return Value{} })
	V("SetBool", func(c *Call, r *reflVal) Value { r.set(c, c.args[1]); return Value{} })
	V("SetBytes", func(c *Call, r *reflVal) Value { r.set(c, c.args[1]); return Value{} })
	V("SetInt", func(c *Call, r *reflVal) Value {
		r.set(c, convertFn(c.m.p, c.m.intT, r.t)(c.m, c.args[1]))
		return Value{}
	})
	V("SetUint", func(c *Call, r *reflVal) Value {
		r.set(c, convertFn(c.m.p, c.m.intT, r.t)(c.m, c.args[1]))
		return Value{}
	})
	V("SetFloat", func(c *Call, r *reflVal) Value { r.set(c, c.args[1]); return Value{} })
	V("SetZero", func(c *Call, r *reflVal) Value { r.set(c, zeroOf(r.t)); return Value{} })
	V("SetLen", func(c *Call, r *reflVal) Value {
		s, _ := r.get().p.(*Slice)
		n := int(c.int(1))
		if s == nil {
			if n != 0 {
				c.m.goPanicStr(c.fr, "reflect: slice length out of range in SetLen")
			}
			return Value{}
		}
		r.set(c, Value{p: &Slice{o: s.o, base: s.base, len: n, cap: s.cap}})
		return Value{}
	})
	V("Grow", func(c *Call, r *reflVal) Value {
		n := int(c.int(1))
		s, _ := r.get().p.(*Slice)
		l, cp := 0, 0
		if s != nil {
			l, cp = s.len, s.cap
		}
		if l+n > cp {
			o := c.m.newArr(r.t.elem, growCap(cp, l+n, r.t.elem))
			if s != nil {
				copy(o.cells, s.o.cells[s.base:s.base+l*r.t.elem.size])
			}
			r.set(c, Value{p: &Slice{o: o, len: l, cap: len(o.cells) / max(1, r.t.elem.size)}})
		}
		return Value{}
	})
	V("Slice", func(c *Call, r *reflVal) Value {
		i, j := int(c.int(1)), int(c.int(2))
		v := r.get()
		if r.t.kind == KString {
			return rval(&reflVal{t: r.t, v: strSlice(v, i, j)})
		}
		s, _ := v.p.(*Slice)
		if s == nil {
			return rval(&reflVal{t: r.t})
		}
		return rval(&reflVal{t: r.t, v: Value{p: &Slice{o: s.o, base: s.base + i*r.t.elem.size, len: j - i, cap: s.cap - i}}})
	})
	V("Convert", func(c *Call, r *reflVal) Value {
		t := c.typeArg(1)
		if t.kind == KIface {
			return rval(&reflVal{t: t, v: ifaceOf(r.t, r.get())})
		}
		return rval(&reflVal{t: t, v: convertFn(c.m.p, r.t, t)(c.m, r.get())})
	})
	V("OverflowInt", func(c *Call, r *reflVal) Value {
		x := c.int(1)
		return vBool(int64(normInt(r.t, uint64(x))) != x)
	})
	V("OverflowUint", func(c *Call, r *reflVal) Value {
		x := uint64(c.int(1))
		return vBool(normInt(r.t, x) != x)
	})
	V("OverflowFloat", func(c *Call, r *reflVal) Value { return Value{} })
	V("Comparable", func(c *Call, r *reflVal) Value { return vBool(types.Comparable(r.t.t)) })
	V("Equal", func(c *Call, r *reflVal) Value {
		x := c.rvOk(1, "Equal")
		if x.t != r.t {
			return vBool(false)
		}
		return c.m.fromTerm(c.m.eq(c.fr, r.t, r.get(), x.get()), c.m.boolT)
	})
}

// swapper implements reflect.Swapper on a slice.
func (m *Machine) swapper(c *Call) Value {
	ifc, _ := c.args[0].p.(*Iface)
	if ifc == nil || ifc.t.kind != KSlice {
		m.unsupported("Swapper of a non-slice")
	}
	s, _ := ifc.v.p.(*Slice)
	es := ifc.t.elem.size
	return Value{p: &Closure{name: "swapper", host: func(m *Machine, g *G, a []Value) Value {
		i, j := int(m.concInt(g.top, a[0])), int(m.concInt(g.top, a[1]))
		if s == nil || i < 0 || j < 0 || i >= s.len || j >= s.len {
			m.goPanicStr(g.top, "reflect: slice index out of range")
		}
		m.raceWriteRange(s.o, s.base+i*es, es)
		m.raceWriteRange(s.o, s.base+j*es, es)
		for k := 0; k < es; k++ {
			x, y := s.o.cells[s.base+i*es+k], s.o.cells[s.base+j*es+k]
			m.setCell(s.o, s.base+i*es+k, y)
			m.setCell(s.o, s.base+j*es+k, x)
		}
		return Value{}
	}}}
}
