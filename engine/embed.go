package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// embedVar describes a variable with a //go:embed directive.
type embedVar struct {
	dir  string
	pats []string
}

// embedVars finds the //go:embed variables of a package.
func embedVars(pk *packages.Package, out map[string]embedVar) {
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				var pats []string
				for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if cg == nil {
						continue
					}
					for _, c := range cg.List {
						if r, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							for _, p := range strings.Fields(r) {
								pats = append(pats, strings.TrimPrefix(strings.Trim(p, "\"`"), "all:"))
							}
						}
					}
				}
				if len(pats) > 0 && len(vs.Names) == 1 {
					dir := filepath.Dir(pk.Fset.Position(f.Pos()).Filename)
					out[pk.PkgPath+"."+vs.Names[0].Name] = embedVar{dir: dir, pats: pats}
				}
			}
		}
	}
}

// files expands the patterns to the embedded files.
func (ev embedVar) files() map[string]string {
	res := map[string]string{}
	add := func(p string) {
		rel, err := filepath.Rel(ev.dir, p)
		if err != nil {
			return
		}
		if b, err := os.ReadFile(p); err == nil {
			res[filepath.ToSlash(rel)] = string(b)
		}
	}
	for _, pat := range ev.pats {
		ms, _ := filepath.Glob(filepath.Join(ev.dir, pat))
		for _, p := range ms {
			fi, err := os.Lstat(p)
			if err != nil {
				continue
			}
			if fi.Mode().IsRegular() {
				add(p)
			} else if fi.IsDir() {
				filepath.WalkDir(p, func(q string, d fs.DirEntry, err error) error {
					if err != nil {
						return nil
					}
					if n := d.Name(); q != p && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_")) {
						if d.IsDir() {
							return fs.SkipDir
						}
						return nil
					}
					if d.Type().IsRegular() {
						add(q)
					}
					return nil
				})
			}
		}
	}
	return res
}

func (m *Machine) embedValue(ev embedVar, t *TI) Value {
	files := ev.files()
	if t.kind == KString || t.kind == KSlice {
		for _, s := range files {
			if t.kind == KString {
				return vStr(s)
			}
			cells := make([]Value, len(s))
			for i := range cells {
				cells[i] = Value{n: uint64(s[i])}
			}
			return m.bytesSlice(cells, t.elem)
		}
		return Value{}
	}
	if t.kind != KStruct || len(t.flds) != 1 || t.flds[0].kind != KPtr {
		m.unsupported("go:embed variable of type " + t.String())
	}
	all := map[string]string{}
	for n, s := range files {
		all[n] = s
		for d := path.Dir(n); d != "."; d = path.Dir(d) {
			all[d+"/"] = ""
		}
	}
	split := func(n string) (string, string) {
		n = strings.TrimSuffix(n, "/")
		return path.Dir(n), path.Base(n)
	}
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		di, ei := split(names[i])
		dj, ej := split(names[j])
		return di < dj || di == dj && ei < ej
	})
	st := t.flds[0].elem // []file
	ft := st.elem
	u := ft.under.(*types.Struct)
	o := m.newArr(ft, len(names))
	for i, n := range names {
		for k := range ft.flds {
			switch u.Field(k).Name() {
			case "name":
				o.cells[i*ft.size+ft.offs[k]] = vStr(n)
			case "data":
				// Long files are cut: their text is of no interest, only that it is copied.
				d := all[n]
				if len(d) > 64 {
					d = d[:64]
				}
				o.cells[i*ft.size+ft.offs[k]] = vStr(d)
			}
		}
	}
	box := m.newArr(st, 1)
	box.cells[0] = Value{p: &Slice{o: o, len: len(names), cap: len(names)}}
	r := make([]Value, t.size)
	r[0] = Value{p: box}
	return Value{p: &Agg{c: r}}
}
