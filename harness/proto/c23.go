package proto

import (
	"context"
	"os"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zzverif/nd"
)

// vhSorted is the strings without duplicates, in order.
func vhSorted(files []string) []string {
	var res []string
	for _, f := range files {
		i := 0
		for i < len(res) && res[i] < f {
			i++
		}
		if i < len(res) && res[i] == f {
			continue
		}
		res = append(res, "")
		copy(res[i+1:], res[i:])
		res[i] = f
	}
	return res
}

func vhSame(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\n") == strings.Join(b, "\n")
}

// vhProto is a protocol-buffer file and what it imports, in order.
type vhProto struct {
	path    string
	imports []string
}

func (p *vhProto) write() {
	text := "syntax = \"proto3\";\n"
	for _, i := range p.imports {
		text += "import \"" + i + "\";\n"
	}
	os.WriteFile(p.path, []byte(text), 0644)
}

// vhClosure is the sorted list of the file and everything it imports.
func vhClosure(files []*vhProto, start string, includes []string) []string {
	find := func(path string) *vhProto {
		for _, f := range files {
			if f.path == path {
				return f
			}
		}
		return nil
	}
	res := []string{start}
	for i := 0; i < len(res); i++ {
		f := find(res[i])
		for _, imp := range f.imports {
			for _, inc := range includes {
				g := find(inc + "/" + imp)
				if g == nil {
					continue
				}
				known := false
				for _, r := range res {
					known = known || r == g.path
				}
				if !known {
					res = append(res, g.path)
				}
				break
			}
		}
	}
	return vhSorted(res)
}

// VH_C23_graph: a file in the first of two include directories, or in the second with or without another of its name in the first, or in none, and two (thorough: three) others, each of them in either, both or none of the include directories, with any imports of any of them (also of itself), where the two files of the same name may import different ones; the names of the file and the include directories are spelled in any of three ways.
// vh: budget=100s tbudget=300s
func VH_C23_graph() {
	base := nd.TempDir()
	os.MkdirAll(base+"/p/s", 0755)
	os.Mkdir(base+"/q", 0755)
	os.MkdirAll(base+"/q/s", 0755)
	os.Chdir(base)
	names := []string{"a", "s/b", "c", "d"}[:nd.Tier(3, 4)]
	main := []string{"a", "p/a", "q/a"}[nd.Choice("main", 3)]
	var files []*vhProto
	file := func(path string, self int) {
		f := &vhProto{path: path}
		from := 0
		if path == main {
			from = 1
		}
		for j := from; j < len(names); j++ {
			if path[0] == 'q' && path != main && nd.Tier(0, 1) == 0 {
				// the second copy differs
				if j == 0 || j == self {
					f.imports = append(f.imports, names[j])
				}
			} else if nd.Bool("imports") {
				f.imports = append(f.imports, names[j])
			}
		}
		f.write()
		files = append(files, f)
	}
	file(main, 0)
	if main == "q/a" && nd.Bool("other") {
		file("p/a", 0)
	}
	for i := 1; i < len(names); i++ {
		where := nd.Choice("where", 4)
		if where&1 != 0 {
			file("p/"+names[i], i)
		}
		if where&2 != 0 {
			file("q/"+names[i], i)
		}
	}
	includes := []string{"p", "q"}
	name := main
	switch nd.Choice("spelling", nd.Tier(2, 3)) {
	case 1:
		includes = []string{"./p/", "p/../q"}
		name = "./" + main
	case 2:
		includes = []string{"p", "nowhere", "q/.", "p"}
		name = "q/../" + main
	}
	nd.MapOrder(1)
	got, err := Deps(name, includes)
	nd.Assert(err == nil, "the dependencies are found")
	nd.Assert(vhSame(got, vhClosure(files, main, []string{"p", "q"})), "the list is exactly the import closure, sorted")
	nd.Reach("end")
}

// vhPieces are pieces of protocol-buffer files and what they import: "b" or "c" or nothing. A dot stands for any character.
var vhPieces = []struct{ text, imports string }{
	{"import \"b\";", "b"},
	{"import 'b';", "b"},
	{"import public \"b\";", "b"},
	{"import\tweak\n\"b\" ;", "b"},
	{"import\"b\";", "b"},
	{"import public'b';", "b"},
	{"import \"b\"; import \"c\";", "bc"},
	{"import \"b\";import 'c';// import \"d\"\n", "bc"},
	{"/* . */ import \"b\";", "b"},
	{"// import \"c\";\n", ""},
	{"// .import \"c\";\n", ""},
	{"/* import \"c\";\n import \"d\"; */", ""},
	{"/* . * import \"c\"; */ /**/ import \"b\"; /***/", "b"},
	{"option x = \"import 'c';\";", ""},
	{"option x = 'import \"c\";';", ""},
	{"option x = \"//\"; import \"b\";", "b"},
	{"option x = '/*'; import \"b\"; // */\n", "b"},
	{"option x = \"\\\"import 'c'; .\";", ""},
	{"option x = \"\\\\\"; import \"b\";", "b"},
	{"reimport \"c\";", ""},
	{"important \"c\";", ""},
	{"message import { string c = 1; }", ""},
	{"message M { string import = 1; } import \"b\";", "b"},
	{"syntax = \"proto3\"; package import.b;", ""},
	{"option a = \".\";", ""},
}

// VH_C23_syntax: a file made of any two of 25 pieces that import files in every form the language has, or that look like imports but are comments, string literals or other words, each with any printable character at one place.
// vh: budget=60s tbudget=200s
func VH_C23_syntax() {
	base := nd.TempDir()
	os.Chdir(base)
	text := ""
	has := map[string]bool{}
	for i := 0; i < 2; i++ {
		p := vhPieces[nd.Choice("piece", len(vhPieces))]
		t := p.text
		if k := strings.IndexByte(t, '.'); k >= 0 && !strings.Contains(t, "package") {
			c := nd.StrN("char", 1, "")
			nd.Assume(c[0] >= ' ' && c[0] < 0x7f)
			switch {
			case strings.HasPrefix(t, "/*"):
				nd.Assume(c != "*" && c != "/")
			case strings.HasPrefix(t, "option"):
				nd.Assume(c != "\\" && c != "\"")
			}
			t = t[:k] + c + t[k+1:]
		}
		text += t + []string{"\n", " "}[nd.Choice("separator", 2)]
		for _, c := range p.imports {
			has[string(c)] = true
		}
	}
	os.WriteFile("a", []byte(text), 0644)
	want := []string{"a"}
	for _, f := range []string{"b", "c", "d"} {
		os.WriteFile(f, nil, 0644)
		if has[f] {
			want = append(want, f)
		}
	}
	got, err := Deps("a", []string{"."})
	nd.Assert(err == nil && vhSame(got, want), "the imports are found, and nothing else")
	nd.Reach("end")
}

// VH_C23_errors: a file that is missing or a directory, an import that is a directory or below a file, in the file or in one it imports, and one that exists in a later include directory only.
// vh: budget=10s
func VH_C23_errors() {
	base := nd.TempDir()
	os.Chdir(base)
	os.MkdirAll("p/dir", 0755)
	os.MkdirAll("q/dir", 0755)
	(&vhProto{"q/b", nil}).write()
	(&vhProto{"file", nil}).write()
	(&vhProto{"q/link", nil}).write()
	os.Symlink("link", base+"/p/link")
	bad := nd.Choice("bad", 6)
	imp := []string{"b", "none", "dir", "b/x", "link", "c/b"}[bad]
	name, includes := "a", []string{"p", "q"}
	(&vhProto{"a", []string{"b", imp}}).write()
	if nd.Bool("indirect") {
		(&vhProto{"a", []string{"p"}}).write()
		(&vhProto{"p/p", []string{imp}}).write()
	}
	fails := bad == 2 || bad == 3 || bad == 4
	switch nd.Choice("what", 4) {
	case 1:
		name, fails = []string{"none", "p", "none/a", "file/a"}[nd.Choice("name", 4)], true
	case 2:
		includes, fails = []string{"file", "q"}, true
	case 3:
		includes, fails = []string{"none", "r"}, false
	}
	_, err := Deps(name, includes)
	nd.Assert((err != nil) == fails, "a file that cannot be read is an error, one that is not there is not")
	nd.Reach("end")
}

type vhDB map[string]bool

func (d vhDB) Has(_ context.Context, h []byte) (bool, error) { return d[string(h)], nil }
func (d vhDB) Add(_ context.Context, h []byte) error         { d[string(h)] = true; return nil }

// VH_C23_target: a target for one or two inputs, with up to two include directories, up to two options, given directly or in a YAML file in a subdirectory, and autoclean or not, is built twice, with any one of the inputs and imported files, another file in an include directory, or nothing changed in between; the compiler may fail.
// vh: budget=40s
func VH_C23_target() {
	base := nd.TempDir()
	os.Chdir(base)
	os.MkdirAll("s/p", 0755)
	os.MkdirAll("s/q", 0755)
	os.Setenv("PATH", nd.BinDir())
	files := []*vhProto{{"s/a", []string{"b"}}, {"s/d", []string{"c"}}, {"s/p/b", []string{"c"}}, {"s/q/c", nil}, {"s/p/e", nil}}
	for _, f := range files {
		f.write()
	}
	pick := func(name string, l ...string) []string { return l[:nd.Choice(name, len(l)+1)] }
	inputs := []string{"d", "a"}[:1+nd.Choice("inputs", 2)]
	includes := pick("includes", "q", "p")
	fails := nd.Choice("fails", 2) == 1
	opts := []string{"write:" + base + "/s/o:x"}
	if fails {
		opts = append(opts, "fail")
	}
	opts = append(opts, pick("options", "--x=1", "-Iz")...)
	autoclean := nd.Choice("autoclean", 2) == 1
	yam := nd.Choice("yaml", 2) == 1
	in := func(dir string, l []string) []string {
		r := []string{}
		for _, f := range l {
			r = append(r, dir+f)
		}
		return r
	}
	dir := "s/"
	if yam {
		dir = base + "/s/"
	}
	inputs, incl := in(dir, inputs), in(dir, includes)
	var (
		target fab.Target
		err    error
	)
	build := func() {
		con := fab.NewController(base)
		if yam {
			q := func(l []string) string {
				if len(l) == 0 {
					return "[]"
				}
				return "[\"" + strings.Join(l, "\", \"") + "\"]"
			}
			y := "Inputs: " + q(inputs) + "\nOutputs: [o]\nIncludes: " + q(includes) + "\nOpts: " + q(opts) + "\n"
			if autoclean {
				y += "Autoclean: true\n"
			}
			var doc yaml.Node
			nd.Assert(yaml.Unmarshal([]byte(y), &doc) == nil, "parses")
			doc.Content[0].Tag = "!proto.Proto"
			target, err = con.YAMLTarget(doc.Content[0], "s")
		} else {
			target, err = Proto(inputs, []string{dir + "o"}, incl, opts, fab.Autoclean(autoclean))
		}
		nd.Assert(err == nil, "the target is made")
	}
	build()
	ctx := fab.WithHashDB(context.Background(), vhDB{})
	err = fab.NewController(base).Run(ctx, target)
	nd.Assert((err != nil) == fails, "a compilation that fails is an error, one that succeeds is not")
	var want []string
	for _, i := range incl {
		want = append(want, "-I"+i)
	}
	want = append(append(want, opts...), inputs...)
	check := func(n int) {
		invs := nd.Invocations()
		nd.Assert(len(invs) == n, "the compiler is invoked as often as needed")
		in := invs[n-1]
		nd.Assert(in.Name == "protoc" && vhSame(in.Args, want), "the compiler gets the includes, options and inputs in order")
	}
	check(1)
	changed := nd.Choice("changed", len(files)+1)
	depends := false
	if changed < len(files) {
		c := files[changed]
		os.WriteFile(c.path, append([]byte(nd.StrN("text", 1, " \n")), vhRead(c.path)...), 0644)
		for _, f := range inputs {
			all := vhIn(files, dir)
			for _, d := range vhClosure(all, f, incl) {
				depends = depends || d == dir+c.path[2:]
			}
		}
	}
	build()
	nd.Assert(fails || fab.NewController(base).Run(ctx, target) == nil, "the second build succeeds")
	if !fails {
		check(1 + vhB2i(depends))
		nd.Assert(fab.NewController(base).Run(ctx, &fab.Clean{Autoclean: true}) == nil, "cleaning succeeds")
		_, err = os.Stat(base + "/s/o")
		nd.Assert((err != nil) == autoclean, "outputs are cleaned automatically if so asked")
	}
	nd.Reach("end")
}

// vhIn is the files with their paths in the given directory instead of s.
func vhIn(files []*vhProto, dir string) []*vhProto {
	var r []*vhProto
	for _, f := range files {
		r = append(r, &vhProto{dir + f.path[2:], f.imports})
	}
	return r
}

func vhRead(path string) []byte {
	b, _ := os.ReadFile(path)
	return b
}

func vhB2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// VH_C23_yaml: a list of dependencies in a YAML file in a subdirectory, with include directories given relative to it or as absolute names or as another list.
// vh: budget=10s
func VH_C23_yaml() {
	base := nd.TempDir()
	os.Chdir(base)
	os.MkdirAll("s/p", 0755)
	os.MkdirAll("p", 0755)
	(&vhProto{"s/a", []string{"b", "c"}}).write()
	(&vhProto{"s/p/b", nil}).write()
	(&vhProto{"p/b", nil}).write()
	(&vhProto{"p/c", nil}).write()
	file := []string{"a", base + "/s/a"}[nd.Choice("file", 2)]
	y, want := "", []string(nil)
	switch nd.Choice("includes", 4) {
	case 0:
		y, want = "[p]", []string{"s/a", "s/p/b"}
	case 1:
		y, want = "[p, "+base+"/p]", []string{"p/c", "s/a", "s/p/b"}
	case 2:
		y, want = "[../p]", []string{"p/b", "p/c", "s/a"}
	case 3:
		y, want = "[]", []string{"s/a"}
	}
	var doc yaml.Node
	nd.Assert(yaml.Unmarshal([]byte("File: "+file+"\nIncludes: "+y+"\n"), &doc) == nil, "parses")
	rel := nd.Choice("relative", 2) == 1
	nd.Assume(!rel || !strings.Contains(y+file, base))
	top := base
	if rel {
		top = ""
	}
	doc.Content[0].Tag = "!proto.Deps"
	got, err := fab.NewController(top).YAMLStringList(doc.Content[0], "s")
	nd.Assert(err == nil, "the list is made")
	for i := range want {
		if !rel {
			want[i] = base + "/" + want[i]
		}
	}
	nd.Assert(vhSame(got, want), "the list is the import closure, with names relative to the YAML file")
	nd.Reach("end")
}
