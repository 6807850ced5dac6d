package fab

import (
	"context"
	"go/types"
	"reflect"

	"github.com/bobg/fab/zzverif/nd"
)

// vhMirror builds the go/types form of reflect types. The component with number change is changed in one way.
type vhMirror struct {
	named   map[reflect.Type]*types.Named
	pkgs    map[string]*types.Package
	n       int // components so far
	change  int // the component to change, -1 for none
	changed string
	shallow bool // named types other than the method's own parameters are not changed
	depth   int
}

func newVhMirror(change int) *vhMirror {
	return &vhMirror{named: map[reflect.Type]*types.Named{}, pkgs: map[string]*types.Package{}, change: change}
}

func (m *vhMirror) pkg(path string) *types.Package {
	if path == "" {
		return nil
	}
	p := m.pkgs[path]
	if p == nil {
		name := path
		for i := range path {
			if path[i] == '/' {
				name = path[i+1:]
			}
		}
		p = types.NewPackage(path, name)
		m.pkgs[path] = p
	}
	return p
}

var vhBasics = map[reflect.Kind]types.BasicKind{
	reflect.Bool: types.Bool, reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16, reflect.Int32: types.Int32,
	reflect.Int64: types.Int64, reflect.Uint: types.Uint, reflect.Uint8: types.Uint8, reflect.Uint16: types.Uint16, reflect.Uint32: types.Uint32,
	reflect.Uint64: types.Uint64, reflect.Uintptr: types.Uintptr, reflect.Float32: types.Float32, reflect.Float64: types.Float64,
	reflect.Complex64: types.Complex64, reflect.Complex128: types.Complex128, reflect.String: types.String, reflect.UnsafePointer: types.UnsafePointer,
}

// hit counts a component with n ways of changing it and returns which of them to apply, from 1, or 0 for none.
func (m *vhMirror) hit(what string, n int) int {
	m.n++
	if m.n-1 != m.change || n == 0 {
		return 0
	}
	m.changed = what
	return 1 + nd.Choice("way", n)
}

// typ is the go/types form of r.
func (m *vhMirror) typ(r reflect.Type) types.Type {
	if r == reflect.TypeOf((*error)(nil)).Elem() {
		if m.hit("error", 1) == 1 {
			return types.Universe.Lookup("error").Type().Underlying()
		}
		return types.Universe.Lookup("error").Type()
	}
	if r.PkgPath() == "" || r.PkgPath() == "unsafe" {
		return m.under(r)
	}
	if n := m.named[r]; n != nil {
		return n
	}
	name, path := r.Name(), r.PkgPath()
	way := m.hit("named", 3)
	switch way {
	case 1:
		name += "X"
	case 2:
		path += "/x"
	}
	n := types.NewNamed(types.NewTypeName(0, m.pkg(path), name, nil), nil, nil)
	m.named[r] = n
	n.SetUnderlying(m.under(r))
	if way == 3 {
		return n.Underlying()
	}
	return n
}

func (m *vhMirror) vars(n int, at func(int) reflect.Type) []*types.Var {
	var v []*types.Var
	for i := 0; i < n; i++ {
		v = append(v, types.NewVar(0, nil, "", m.typ(at(i))))
	}
	return v
}

func (m *vhMirror) sig(r reflect.Type, skip int) *types.Signature {
	in := m.vars(r.NumIn()-skip, func(i int) reflect.Type { return r.In(i + skip) })
	out := m.vars(r.NumOut(), r.Out)
	variadic := r.IsVariadic()
	extra := types.NewVar(0, nil, "", types.Typ[types.Int])
	switch m.hit("signature", 5) {
	case 1:
		in = append([]*types.Var{extra}, in...)
	case 2:
		out = append(out, extra)
	case 3:
		if len(in) > 0 && !variadic {
			in = in[1:]
		} else {
			in = append([]*types.Var{extra}, in...)
		}
	case 4:
		if len(out) > 0 {
			out = out[:len(out)-1]
		} else {
			out = append(out, extra)
		}
	case 5:
		if variadic {
			variadic = false
		} else if len(in) > 0 {
			if _, ok := in[len(in)-1].Type().(*types.Slice); ok {
				variadic = true
			} else {
				in = append(in, extra)
			}
		} else {
			in = append(in, extra)
		}
	}
	if variadic {
		if _, ok := in[len(in)-1].Type().(*types.Slice); !ok {
			variadic = false
		}
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(in...), types.NewTuple(out...), variadic)
}

func (m *vhMirror) under(r reflect.Type) types.Type {
	if k, ok := vhBasics[r.Kind()]; ok {
		if m.hit("basic", 1) == 1 {
			j := types.BasicKind(1 + nd.Choice("basic", 18))
			if j == k {
				j = types.UntypedNil
			}
			return types.Typ[j]
		}
		return types.Typ[k]
	}
	switch r.Kind() {
	case reflect.Array:
		n := int64(r.Len())
		e := m.typ(r.Elem())
		switch m.hit("array", 2) {
		case 1:
			n = int64(nd.Int("len", 0, 7))
			nd.Assume(n != int64(r.Len()))
		case 2:
			return types.NewSlice(e)
		}
		return types.NewArray(e, n)
	case reflect.Chan:
		e := m.typ(r.Elem())
		dir := map[reflect.ChanDir]types.ChanDir{reflect.BothDir: types.SendRecv, reflect.RecvDir: types.RecvOnly, reflect.SendDir: types.SendOnly}[r.ChanDir()]
		if way := m.hit("chan", 2); way > 0 {
			dir = (dir + types.ChanDir(way)) % 3
		}
		return types.NewChan(dir, e)
	case reflect.Func:
		return m.sig(r, 0)
	case reflect.Interface:
		var ms []*types.Func
		for i := 0; i < r.NumMethod(); i++ {
			f := r.Method(i)
			name := f.Name
			if m.hit("method", 1) == 1 {
				name += "X"
			}
			ms = append(ms, types.NewFunc(0, m.pkg(f.PkgPath), name, m.sig(f.Type, 0)))
		}
		switch m.hit("interface", 2) {
		case 1:
			ms = append(ms, types.NewFunc(0, nil, "Extra", types.NewSignatureType(nil, nil, nil, nil, nil, false)))
		case 2:
			if len(ms) > 0 {
				ms = ms[1:]
			} else {
				ms = append(ms, types.NewFunc(0, nil, "Extra", types.NewSignatureType(nil, nil, nil, nil, nil, false)))
			}
		}
		return types.NewInterfaceType(ms, nil).Complete()
	case reflect.Map:
		k, e := m.typ(r.Key()), m.typ(r.Elem())
		switch m.hit("map", 2) {
		case 1:
			return types.NewMap(types.NewPointer(k), e)
		case 2:
			return types.NewMap(k, types.NewPointer(e))
		}
		return types.NewMap(k, e)
	case reflect.Pointer:
		e := m.typ(r.Elem())
		switch m.hit("pointer", 2) {
		case 1:
			return types.NewSlice(e)
		case 2:
			return e
		}
		return types.NewPointer(e)
	case reflect.Slice:
		e := m.typ(r.Elem())
		switch m.hit("slice", 2) {
		case 1:
			return types.NewArray(e, 0)
		case 2:
			return e
		}
		return types.NewSlice(e)
	case reflect.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < r.NumField(); i++ {
			f := r.Field(i)
			name, tag, emb := f.Name, string(f.Tag), f.Anonymous
			ft := m.typ(f.Type)
			switch m.hit("field", 3) {
			case 1:
				name += "X"
			case 2:
				tag += nd.StrN("tag", 1, "")
			case 3:
				emb = !emb
			}
			fs = append(fs, types.NewField(0, m.pkg(f.PkgPath), name, ft, emb))
			tags = append(tags, tag)
		}
		switch m.hit("struct", 2) {
		case 1:
			fs = append(fs, types.NewField(0, nil, "Extra", types.Typ[types.Int], false))
		case 2:
			if len(fs) > 0 {
				fs, tags = fs[:len(fs)-1], tags[:len(tags)-1]
			} else {
				fs = append(fs, types.NewField(0, nil, "Extra", types.Typ[types.Int], false))
			}
		}
		return types.NewStruct(fs, tags)
	}
	panic("kind " + r.Kind().String())
}

type vhTargetIface interface {
	Run(context.Context, *Controller) error
	Desc() string
}

// vhTargetType is a type with the methods of Target, as seen by m; recv tells what type they belong to and what type is asked about:
// 0: methods of T, asking about T; 1: methods of *T, asking about *T; 2: methods of T, asking about *T; 3: an interface;
// 4: a struct embedding such a type; 5: methods of *T, asking about T (not a target).
func vhTargetType(m *vhMirror, recv int) types.Type {
	it := reflect.TypeOf((*vhTargetIface)(nil)).Elem()
	pkg := m.pkg("example.com/rules")
	if recv == 3 {
		var ms []*types.Func
		for i := 0; i < it.NumMethod(); i++ {
			ms = append(ms, types.NewFunc(0, pkg, it.Method(i).Name, m.sig(it.Method(i).Type, 0)))
		}
		iface := types.NewInterfaceType(ms, nil).Complete()
		return types.NewNamed(types.NewTypeName(0, pkg, "I", nil), iface, nil)
	}
	named := types.NewNamed(types.NewTypeName(0, pkg, "T", nil), types.NewStruct(nil, nil), nil)
	var rt types.Type = named
	if recv == 1 || recv == 5 {
		rt = types.NewPointer(named)
	}
	for i := 0; i < it.NumMethod(); i++ {
		f := it.Method(i)
		s := m.sig(f.Type, 0)
		s = types.NewSignatureType(types.NewVar(0, pkg, "t", rt), nil, nil, s.Params(), s.Results(), s.Variadic())
		named.AddMethod(types.NewFunc(0, pkg, f.Name, s))
	}
	switch recv {
	case 1, 2:
		return types.NewPointer(named)
	case 4:
		return types.NewStruct([]*types.Var{types.NewField(0, pkg, "T", named, true)}, nil)
	}
	return named
}

// VH_C24_same: types with the methods of Target, in six forms of receiver, including the recursive types they mention, are accepted iff the methods are in the method set.
// vh: budget=10s
func VH_C24_same() {
	m := newVhMirror(-1)
	recv := nd.Choice("recv", 6)
	t := vhTargetType(m, recv)
	err := checkImplementsTarget(t)
	nd.Assert((err == nil) == (recv != 5), "a type is accepted iff it has the methods of Target")
	nd.Reach("end")
}

// VH_C24_changed: a type with methods Run and Desc whose types differ from those of Target in any one component, however deep in the parameter and
// result types, is refused.
// vh: budget=30s tbudget=120s
func VH_C24_changed() {
	count := newVhMirror(-1)
	vhTargetType(count, 1)
	m := newVhMirror(nd.Choice("component", count.n))
	t := vhTargetType(m, 1)
	nd.Assert(m.changed != "", "the change is applied")
	err := checkImplementsTarget(t)
	nd.Assert(err != nil, "a type whose methods differ from those of Target in a "+m.changed+" is refused")
	nd.Reach("end")
}

// VH_C24_missing: types without one or both methods, with a field of that name instead, or with methods under other names.
// vh: budget=5s
func VH_C24_missing() {
	m := newVhMirror(-1)
	it := reflect.TypeOf((*vhTargetIface)(nil)).Elem()
	pkg := m.pkg("example.com/rules")
	var fields []*types.Var
	var named *types.Named
	ok := true
	type meth struct {
		name string
		r    reflect.Type
	}
	var ms []meth
	for i := 0; i < it.NumMethod(); i++ {
		f := it.Method(i)
		switch nd.Choice("method", 4) {
		case 0:
			ms = append(ms, meth{f.Name, f.Type})
		case 1:
			ok = false
		case 2:
			ok = false
			fields = append(fields, types.NewField(0, pkg, f.Name, m.sig(f.Type, 0), false))
		case 3:
			ok = false
			ms = append(ms, meth{nd.StrN("first", 1, "rDXd") + f.Name[1:], f.Type})
			nd.Assume(ms[len(ms)-1].name != f.Name)
		}
	}
	named = types.NewNamed(types.NewTypeName(0, pkg, "T", nil), types.NewStruct(fields, nil), nil)
	for _, f := range ms {
		s := m.sig(f.r, 0)
		s = types.NewSignatureType(types.NewVar(0, pkg, "t", types.NewPointer(named)), nil, nil, s.Params(), s.Results(), s.Variadic())
		named.AddMethod(types.NewFunc(0, pkg, f.name, s))
	}
	err := checkImplementsTarget(types.NewPointer(named))
	nd.Assert((err == nil) == ok, "a type is accepted iff it has both methods")
	nd.Reach("end")
}
