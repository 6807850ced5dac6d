package fab

import (
	"context"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/bobg/fab/zzverif/nd"
)

// vhImporter imports the packages that rules may use, with types as they are in this program.
type vhImporter struct{ m *vhMirror }

func (i vhImporter) Import(path string) (*types.Package, error) {
	p := i.m.pkgs[path]
	if p == nil {
		return nil, &vhErr{"no package " + path}
	}
	return p, nil
}

func newVhImporter() vhImporter {
	m := newVhMirror(-1)
	for _, t := range []reflect.Type{
		reflect.TypeOf((*Target)(nil)).Elem(), reflect.TypeOf(Controller{}), reflect.TypeOf((*context.Context)(nil)).Elem(),
	} {
		n := m.typ(t).(*types.Named)
		n.Obj().Pkg().Scope().Insert(n.Obj())
	}
	for _, p := range m.pkgs {
		p.MarkComplete()
	}
	return vhImporter{m}
}

const vhRulesHead = `package rules

import (
	"context"

	"github.com/bobg/fab"
)

type tt struct{ x int }

func (*tt) Run(context.Context, *fab.Controller) error { return nil }
func (*tt) Desc() string                              { return "" }

// T is a target type.
type T struct{ tt }

type vv string

func (vv) Run(context.Context, *fab.Controller) error { return nil }
func (vv) Desc() string                              { return "" }

`

// vhDriver compiles the rules in the directory, of which the given files are part, and returns the targets that the driver registers, with their docs.
func vhDriver(base, dir string, files ...string) (map[string]string, error) {
	fset := token.NewFileSet()
	pkg := &packages.Package{ID: "x.com/rules", Name: "rules", PkgPath: "x.com/rules"}
	var syntax []*ast.File
	for _, f := range files {
		pkg.GoFiles = append(pkg.GoFiles, dir+"/"+f)
		b, _ := os.ReadFile(dir + "/" + f)
		s, err := parser.ParseFile(fset, dir+"/"+f, b, 0)
		nd.Assert(err == nil, "harness: rules parse")
		syntax = append(syntax, s)
	}
	conf := types.Config{Importer: newVhImporter(), IgnoreFuncBodies: true}
	tpkg, err := conf.Check("x.com/rules", fset, syntax, nil)
	if err != nil {
		nd.Assert(false, "harness: rules type-check: "+err.Error())
	}
	pkg.Types = tpkg
	keep := base + "/keep"
	os.MkdirAll(keep, 0755)
	os.MkdirAll(base+"/tmp", 0755)
	os.Setenv("PATH", nd.BinDir())
	os.Setenv("TMPDIR", base+"/tmp")
	os.Setenv("ZZKEEP", keep)
	if err := CompilePackage(context.Background(), pkg, base+"/fab.bin"); err != nil {
		return nil, err
	}
	_, err = os.Stat(base + "/fab.bin")
	nd.Assert(err == nil, "the driver is put in place")
	litter, err := os.ReadDir(base + "/tmp")
	nd.Assert(err == nil && len(litter) == 0, "no temporary files are left")
	return vhRegistered(keep), nil
}


// vhRegistered is the variables of the rules that the driver in the directory refers to, each together with two string constants that are its name and doc.
func vhRegistered(dir string) map[string]string {
	r := map[string]string{}
	es, err := os.ReadDir(dir)
	nd.Assert(err == nil && len(es) > 0, "the driver has a main package")
	imported := false
	for _, e := range es {
		b, _ := os.ReadFile(dir + "/" + e.Name())
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, e.Name(), b, 0)
		nd.Assert(err == nil, "the driver is well-formed")
		if err != nil {
			continue
		}
		nd.Assert(f.Name.Name == "main", "the driver is a main program")
		local := ""
		for _, im := range f.Imports {
			if path, _ := strconv.Unquote(im.Path.Value); strings.HasSuffix(path, "/pkg/rules") {
				imported = true
				local = "rules"
				if im.Name != nil {
					local = im.Name.Name
				}
			}
		}
		if local == "" {
			continue
		}
		n := 0
		ast.Inspect(f, func(node ast.Node) bool {
			var args []ast.Expr
			switch node := node.(type) {
			case *ast.CallExpr:
				args = node.Args
			case *ast.CompositeLit:
				for _, e := range node.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						e = kv.Value
					}
					args = append(args, e)
				}
			}
			var strs []string
			sel := ""
			for _, a := range args {
				switch a := a.(type) {
				case *ast.BasicLit:
					if a.Kind == token.STRING {
						s, err := strconv.Unquote(a.Value)
						nd.Assert(err == nil, "the driver's string constants are well-formed")
						strs = append(strs, s)
					}
				case *ast.SelectorExpr:
					if id, ok := a.X.(*ast.Ident); ok && id.Name == local {
						sel = a.Sel.Name
					}
				}
			}
			if sel != "" {
				n++
				nd.Assert(len(strs) == 2 && strs[0] == sel, "a target is registered under its own name")
				_, dup := r[sel]
				nd.Assert(!dup, "a target is registered once")
				r[sel] = strs[len(strs)-1]
			}
			return true
		})
		nd.Assert((n == 0) == (local == "_"), "the rules are imported as the driver needs")
	}
	nd.Assert(imported, "the driver imports the rules")
	return r
}

// vhDecl is a declaration of one of many kinds, with the targets that it declares and their docs.
func vhDecl(i int, doc, spec string) (string, map[string]string) {
	n := "N" + strconv.Itoa(i)
	if nd.Choice("exported", 2) == 0 {
		n = "n" + strconv.Itoa(i)
	}
	m := n + "b"
	comment := func(s string) string {
		if s == "" {
			return ""
		}
		return "// " + s + "\n"
	}
	d := comment(doc)
	t := map[string]string{}
	add := func(n, doc string) {
		if n[0] == 'N' {
			t[n] = doc
		}
	}
	switch nd.Choice("kind", 14) {
	case 0:
		add(n, doc)
		return d + "var " + n + " = &tt{}\n", t
	case 1:
		add(n, spec)
		if spec == "" {
			t = map[string]string{}
			add(n, doc)
		}
		add(m, doc)
		return d + "var (\n" + comment(spec) + n + " = &tt{}\n\n" + m + " = &T{}\n)\n", t
	case 2:
		add(n, doc)
		add(m, doc)
		return d + "var " + n + ", x" + n + ", " + m + " = &tt{}, 3, &T{}\n", t
	case 3:
		add(n, doc)
		return d + "var " + n + " *T = &T{}\n", t
	case 4:
		add(n, doc)
		return d + "var " + n + " fab.Target = &T{}\n", t
	case 5:
		return d + "var " + n + " = 3\n", t
	case 6:
		return d + "var " + n + " tt\n", t
	case 7:
		return d + "const " + n + " vv = \"a\"\n", t
	case 8:
		return d + "type " + n + " struct{ vv }\n", t
	case 9:
		return d + "func " + n + "() fab.Target { return nil }\n", t
	case 10:
		return d + "type " + n + " = *T\n", t
	case 11:
		add(n, doc)
		return d + "var " + n + " = &struct{ *T; y int }{}\n", t
	case 12:
		return d + "var " + n + " []fab.Target\n", t
	case 13:
		add(n, doc)
		return d + "type " + m + " T\n\nfunc (*" + m + ") Run(context.Context, *fab.Controller) error { return nil }\nfunc (*" + m + ") Desc() string { return \"\" }\n\n" + d + "var " + n + " *" + m + " = &" + m + "{}\n", t
	}
	return "", t
}

func vhSameDocs(got, want map[string]string) {
	for n, d := range want {
		g, ok := got[n]
		nd.Assert(ok, "an exported target variable is registered")
		nd.Assert(g == d, "a target is registered with its doc comment")
	}
	for n := range got {
		_, ok := want[n]
		nd.Assert(ok, "nothing but exported target variables is registered")
	}
}

// VH_C28_decls: rules with one or two (thorough: one to three) declarations of any of fourteen kinds - of variables that are targets or not, alone, in groups, several at once, with or without a type from the package or another, and of constants, types, aliases and functions - exported or not and with or without doc comments, in one file or two.
// vh: budget=60s tbudget=400s
func VH_C28_decls() {
	base := nd.TempDir()
	dir := base + "/t/_fab"
	os.MkdirAll(dir, 0755)
	n := 1 + nd.Choice("decls", nd.Tier(2, 3))
	texts := []string{vhRulesHead, "package rules\n\nimport (\n\t\"context\"\n\n\t\"github.com/bobg/fab\"\n)\n\nvar _ context.Context\nvar _ fab.Target\n"}
	want := map[string]string{}
	second := nd.Choice("files", 2)
	for i := 0; i < n; i++ {
		doc, spec := "", ""
		if i == 0 || nd.Tier(0, 1) == 1 {
			switch nd.Choice("docs", 3) {
			case 1:
				doc = "Doc of " + strconv.Itoa(i) + "."
			case 2:
				spec = "Own doc."
				doc = "Doc."
			}
		} else {
			spec = "Own doc of " + strconv.Itoa(i) + "."
		}
		text, t := vhDecl(i, doc, spec)
		texts[(i%2)*second] += text + "\n"
		for k, v := range t {
			want[k] = v
		}
	}
	files := []string{"a.go"}
	os.WriteFile(dir+"/a.go", []byte(texts[0]), 0644)
	if second == 1 {
		files = append(files, "b.go")
		os.WriteFile(dir+"/b.go", []byte(texts[1]), 0644)
	}
	got, err := vhDriver(base, dir, files...)
	nd.Assert(err == nil, "a driver is made")
	if err == nil {
		vhSameDocs(got, want)
	}
	nd.Reach("end")
}

// VH_C28_docs: a target with a doc comment of three (thorough: four) of the characters a, ", \, { and %, in a line or block comment, for a variable, in a group, or with code and directives.
// vh: budget=40s tbudget=200s
func VH_C28_docs() {
	base := nd.TempDir()
	dir := base + "/t/_fab"
	os.MkdirAll(dir, 0755)
	text := "x" + nd.StrN("doc", nd.Tier(3, 4), "a\"\\{%")
	kind := nd.Choice("kind", 4)
	decl := ""
	want := text
	switch kind {
	case 0:
		decl = "// " + text + "\nvar N = &tt{}\n"
	case 1:
		decl = "/*\n" + text + "\n*/\nvar N = &tt{}\n"
	case 2:
		decl = "var (\n\t// " + text + "\n\tN = &tt{}\n)\n"
	case 3:
		decl = "// " + text + "\n//\n//   " + text + "\n//\n//go:noinline\nvar N *T = &T{}\n"
		want = text + "\n\n    " + text
	}
	os.WriteFile(dir+"/a.go", []byte(vhRulesHead+decl), 0644)
	got, err := vhDriver(base, dir, "a.go")
	nd.Assert(err == nil, "a driver is made")
	if err == nil {
		g := strings.ReplaceAll(got["N"], "\t", "    ")
		nd.Assert(g == want, "the doc is as written")
		nd.Assert(len(got) == 1, "one target is registered")
	}
	nd.Reach("end")
}

// VH_C28_files: rules in one file or two, along with a test in the package, a test outside it, a file that is not built, a file in another language, and a subdirectory, in any combination; the driver is made from the rules.
// vh: budget=40s
func VH_C28_files() {
	base := nd.TempDir()
	dir := base + "/t/_fab"
	os.MkdirAll(dir, 0755)
	files := []string{"a.go"}
	os.WriteFile(dir+"/a.go", []byte(vhRulesHead+"var N = &tt{}\n"), 0644)
	want := map[string]string{"N": ""}
	for i, f := range []struct{ name, text string }{
		{"b.go", "package rules\n\n// M is m.\nvar M = &T{}\n"},
		{"a_test.go", "package rules\n\n// N is something else.\nvar O = &T{}\n"},
		{"x_test.go", "package rules_test\n\nvar N = 1\n"},
		{"gen.go", "//go:build ignore\n\npackage main\n\nfunc main() {}\n"},
		{"c.txt", "package"},
		{"sub/x.go", "package sub\n\nfunc {"},
	} {
		if nd.Choice("has", 2) == 0 {
			continue
		}
		if i == 0 {
			files = append(files, f.name)
			want["M"] = "M is m."
		}
		if i == 5 {
			os.Mkdir(dir+"/sub", 0755)
		}
		os.WriteFile(dir+"/"+f.name, []byte(f.text), 0644)
	}
	got, err := vhDriver(base, dir, files...)
	nd.Assert(err == nil, "a driver is made")
	if err == nil {
		vhSameDocs(got, want)
		b, _ := os.ReadFile(base + "/fab.bin")
		for _, f := range files {
			text, _ := os.ReadFile(dir + "/" + f)
			nd.Assert(strings.Contains(string(b), "\nfile "+f+"\n"+string(text)+"\n"), "the driver is made from the rules")
		}
		nd.Assert(!strings.Contains(string(b), "_test.go"), "the driver does not include tests")
	}
	nd.Reach("end")
}

// VH_C28_failures: rules in a package are compiled, where initializing the module, finding dependencies, building, or putting the driver in place fails, or a file is missing, or is not Go, or is of another package, or the package has errors or no files: that is an error and no temporary files are left.
// vh: budget=40s
func VH_C28_failures() {
	base := nd.TempDir()
	dir := base + "/t/_fab"
	os.MkdirAll(dir, 0755)
	os.MkdirAll(base+"/tmp", 0755)
	out := base + "/fab.bin"
	old := nd.Bool("old")
	if old {
		os.WriteFile(out, []byte("old"), 0755)
	}
	pkg := &packages.Package{ID: "x.com/rules", Name: "rules", PkgPath: "x.com/rules", Types: types.NewPackage("x.com/rules", "rules")}
	pkg.GoFiles = []string{dir + "/a.go", dir + "/b.go"}
	os.WriteFile(dir+"/a.go", []byte("package rules\n"), 0644)
	text := "package rules\n"
	what := nd.Choice("what", 11)
	switch what {
	case 0:
		os.Setenv("ZZFAIL", "init")
	case 1:
		os.Setenv("ZZFAIL", "tidy")
	case 2:
		os.Setenv("ZZFAIL", "build")
	case 3:
		out = base + "/missing/fab.bin"
	case 4:
		out = dir
	case 5:
		text = ""
	case 6:
		text = "package other\n"
	case 7:
		text = "package rules {"
	case 8:
		pkg.Errors = []packages.Error{{Msg: "oops"}}
	case 9:
		pkg.GoFiles = nil
	}
	if text != "" {
		os.WriteFile(dir+"/b.go", []byte(text), 0644)
	}
	os.Setenv("PATH", nd.BinDir())
	os.Setenv("TMPDIR", base+"/tmp")
	err := CompilePackage(context.Background(), pkg, out)
	nd.Assert((err == nil) == (what == 10), "a failure is an error and nothing else is")
	litter, err := os.ReadDir(base + "/tmp")
	nd.Assert(err == nil && len(litter) == 0, "no temporary files are left")
	if what != 10 && what != 3 && what != 4 {
		b, err := os.ReadFile(out)
		nd.Assert(old == (err == nil) && (!old || string(b) == "old"), "no driver is put in place")
	}
	nd.Reach("end")
}
