package golang

import (
	"context"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zzverif/nd"
	"github.com/bobg/fab/zzverif/vm"
)

// vhPkg is a package as the build system knows it.
type vhPkg struct {
	name    string
	mod     int // 0, 1: module; 2: none
	files   []string
	embeds  []string
	pattern string
	other   []string
	imports []int
	broken  bool
}

// vhProgram answers packages.Load with a program, giving only what is asked for.
type vhProgram struct {
	pkgs  []*vhPkg
	roots []int
	loads int
	cfg   packages.Config
	pats  []string
	err   error
}

func (p *vhProgram) load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	p.loads++
	p.cfg = *cfg
	p.pats = patterns
	if p.err != nil {
		return nil, p.err
	}
	mods := []*packages.Module{{Path: "m0", Main: true, Dir: "/m0"}, {Path: "m0/x", Dir: "/m1"}, nil}
	out := make([]*packages.Package, len(p.pkgs))
	for i, x := range p.pkgs {
		out[i] = &packages.Package{ID: x.name}
	}
	isRoot := map[int]bool{}
	for _, r := range p.roots {
		isRoot[r] = true
	}
	for i, x := range p.pkgs {
		if !isRoot[i] && cfg.Mode&packages.NeedDeps == 0 {
			continue
		}
		o := out[i]
		if cfg.Mode&packages.NeedName != 0 {
			o.Name, o.PkgPath = x.name, "m/"+x.name
		}
		if cfg.Mode&packages.NeedFiles != 0 {
			o.GoFiles, o.OtherFiles = x.files, x.other
		}
		if cfg.Mode&packages.NeedCompiledGoFiles != 0 {
			o.CompiledGoFiles = x.files
		}
		if cfg.Mode&packages.NeedEmbedFiles != 0 {
			o.EmbedFiles = x.embeds
		}
		if cfg.Mode&packages.NeedEmbedPatterns != 0 && x.pattern != "" {
			o.EmbedPatterns = []string{x.pattern}
		}
		if cfg.Mode&packages.NeedModule != 0 {
			o.Module = mods[x.mod]
		}
		if cfg.Mode&packages.NeedImports != 0 && len(x.imports) > 0 {
			o.Imports = map[string]*packages.Package{}
			for _, j := range x.imports {
				o.Imports["m/"+p.pkgs[j].name] = out[j]
			}
		}
		if x.broken {
			o.Errors = []packages.Error{{Pos: "-", Msg: "broken " + x.name, Kind: packages.ListError}}
		}
	}
	var res []*packages.Package
	for _, r := range p.roots {
		res = append(res, out[r])
	}
	return res, nil
}

// want is the files that must be listed, in order.
func (p *vhProgram) want() []string {
	seen := make([]bool, len(p.pkgs))
	var files []string
	var walk func(i, mod int)
	walk = func(i, mod int) {
		x := p.pkgs[i]
		if seen[i] || x.mod != mod {
			return
		}
		seen[i] = true
		for _, l := range [][]string{x.files, x.other, x.embeds} {
			for _, f := range l {
				files = append(files, f)
			}
		}
		for _, j := range x.imports {
			walk(j, mod)
		}
	}
	for _, r := range p.roots {
		walk(r, p.pkgs[r].mod)
	}
	// sorted, without duplicates
	var res []string
	for _, f := range files {
		i := 0
		for i < len(res) && res[i] < f {
			i++
		}
		if i < len(res) && res[i] == f {
			continue
		}
		res = append(res, "")
		copy(res[i+1:], res[i:])
		res[i] = f
	}
	return res
}

func vhSame(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\n") == strings.Join(b, "\n")
}

// VH_C22_graph: every acyclic import graph of four (thorough: five) packages, the first (thorough: or the first two) of them loaded, each of the others in the same module, in a module nested in it, or in none, where no package outside the module imports one in it;
// in each package a Go file, perhaps another file of two kinds (with names common to several packages), and in two packages an embedded file.
// vh: budget=40s tbudget=300s
func VH_C22_graph() {
	n := nd.Tier(4, 5)
	p := &vhProgram{roots: []int{0}}
	if nd.Tier(0, 1) == 1 && nd.Choice("roots", 2) == 1 {
		p.roots = append(p.roots, 1)
	}
	names := []string{"b", "a", "d", "c", "e"}
	for i := 0; i < n; i++ {
		x := &vhPkg{name: names[i], files: []string{"/m/" + names[i] + ".go", "/m/" + names[i] + "/x.go"}}
		if i >= len(p.roots) {
			x.mod = nd.Choice("mod", 3)
		}
		switch i {
		case 1:
			x.other = []string{"/m/z.h", "/m/a.s"}
		case 2:
			x.other = []string{"/m/z.h"}
			x.embeds = []string{"/m/a", "/m/data.txt"}
		case 3:
			x.embeds = []string{"/m/data.txt", "/m/z.h"}
		}
		p.pkgs = append(p.pkgs, x)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if p.pkgs[i].mod != 0 && p.pkgs[j].mod == 0 {
				continue
			}
			if nd.Bool("imports") {
				p.pkgs[i].imports = append(p.pkgs[i].imports, j)
			}
		}
	}
	vm.PackagesHook = p.load
	nd.MapOrder(1)
	got, err := Deps("dir", false, false)
	nd.Assert(err == nil, "the dependencies are found")
	nd.Assert(vhSame(got, p.want()), "the list is exactly the files of the packages of the module, sorted")
	nd.Reach("end")
}

// VH_C22_load: what is asked of the build system, for any directory and flags; a load that fails, and one in which any of two loaded packages is in error or outside any module, is an error.
// vh: budget=20s
func VH_C22_load() {
	dir := nd.Str("dir", 2, "./ad")
	rec, tests := nd.Bool("recursive"), nd.Bool("tests")
	p := &vhProgram{roots: []int{0, 1}, pkgs: []*vhPkg{
		{name: "a", files: []string{"/m/a.go"}, broken: nd.Bool("broken")},
		{name: "b", files: []string{"/m/b.go"}, broken: nd.Bool("broken")},
	}}
	none := nd.Choice("outside", 3)
	if none < 2 {
		p.pkgs[none].mod = 2
	}
	if nd.Bool("fails") {
		p.err = os.ErrPermission
	}
	vm.PackagesHook = p.load
	got, err := Deps(dir, rec, tests)
	nd.Assert(p.loads == 1, "the packages are loaded once")
	nd.Assert(p.cfg.Dir == dir && p.cfg.Tests == tests, "the given directory is loaded, with or without tests as asked")
	nd.Assert(len(p.pats) == 1, "one pattern is loaded")
	if rec {
		nd.Assert(p.pats[0] == "./...", "the packages of the tree are loaded")
	} else {
		nd.Assert(p.pats[0] == ".", "the package of the directory is loaded")
	}
	bad := p.err != nil || p.pkgs[0].broken || p.pkgs[1].broken || none < 2
	nd.Assert((err != nil) == bad, "packages that fail to load are an error")
	if err == nil {
		nd.Assert(vhSame(got, []string{"/m/a.go", "/m/b.go"}), "the files of both packages are listed")
	} else {
		nd.Assert(len(got) == 0, "no list is given together with an error")
		if p.err == nil {
			for _, x := range p.pkgs {
				nd.Assert(!x.broken || strings.Contains(err.Error(), "broken "+x.name), "each error is reported")
			}
		}
	}
	nd.Reach("end")
}

// VH_C22_patterns: a package whose embedding pattern matches any of three files that exist and are embedded.
// vh: budget=10s
func VH_C22_patterns() {
	base := nd.TempDir()
	x := &vhPkg{name: "a", files: []string{base + "/a.go"}}
	for _, f := range []string{"x.txt", "y.txt", "z.dat"} {
		if nd.Bool("exists") {
			os.WriteFile(base+"/"+f, nil, 0644)
			if f != "z.dat" {
				x.embeds = append(x.embeds, base+"/"+f)
			}
		}
	}
	x.pattern = base + "/" + []string{"*.txt", "?.txt", "[xy].txt"}[nd.Choice("pattern", 3)]
	p := &vhProgram{roots: []int{0}, pkgs: []*vhPkg{x}}
	vm.PackagesHook = p.load
	got, err := Deps(base, false, false)
	nd.Assert(err == nil && vhSame(got, p.want()), "the list is exactly the files of the package")
	nd.Reach("end")
}

type vhDB map[string]bool

func (d vhDB) Has(_ context.Context, h []byte) (bool, error) { return d[string(h)], nil }
func (d vhDB) Add(_ context.Context, h []byte) error         { d[string(h)] = true; return nil }

// VH_C22_binary: a binary target for a directory and an output file or none, given directly or in a YAML file, with up to two flags, is built twice, with any of its three files (one of which is of an imported package), one of another module, or none changed in between; the compiler may fail.
// vh: budget=40s
func VH_C22_binary() {
	base := nd.TempDir()
	os.MkdirAll(base+"/s/c/main", 0755)
	os.MkdirAll(base+"/s/c/lib", 0755)
	os.MkdirAll(base+"/s/ext", 0755)
	os.Chdir(base)
	files := []string{base + "/s/c/main/m.go", base + "/s/c/main/data", base + "/s/c/lib/l.go", base + "/s/ext/e.go"}
	for _, f := range files {
		os.WriteFile(f, []byte("1"), 0644)
	}
	p := &vhProgram{roots: []int{0}, pkgs: []*vhPkg{
		{name: "main", files: files[:1], embeds: files[1:2], imports: []int{1, 2}},
		{name: "lib", files: files[2:3]},
		{name: "ext", files: files[3:], mod: 1},
	}}
	vm.PackagesHook = p.load
	os.Setenv("PATH", nd.BinDir())
	var flags []string
	for i, n := 0, nd.Choice("flags", 3); i < n; i++ {
		flags = append(flags, []string{"-v", "-tags=x y"}[i])
	}
	var (
		target fab.Target
		err    error
		out    string
	)
	spelled := nd.Choice("dir", 2)
	dir := []string{"s/c/main", base + "/s/c/main"}[spelled]
	named := nd.Choice("out", 3) // not, in another directory, in the source directory
	yam := nd.Choice("yaml", 2) == 1
	con := fab.NewController("")
	if yam {
		// the YAML file is in directory s
		out = []string{"s/main", "s/o/bin", "s/c/main/bin"}[named]
		y := "Dir: " + []string{"c/main", base + "/s/c/main"}[spelled] + "\n"
		if named > 0 {
			y += "Out: " + []string{"", "o/bin", "c/main/bin"}[named] + "\n"
		}
		if len(flags) > 0 {
			y += "Flags: [\"" + strings.Join(flags, "\", \"") + "\"]\n"
		}
		var doc yaml.Node
		nd.Assert(yaml.Unmarshal([]byte(y), &doc) == nil, "parses")
		con = fab.NewController(base)
		out = base + "/" + out
		doc.Content[0].Tag = "!go.Binary"
		target, err = con.YAMLTarget(doc.Content[0], "s")
	} else {
		out = []string{"main", "o/bin", "s/c/main/bin"}[named]
		o := out
		if named == 0 {
			o = ""
		}
		if spelled == 1 {
			nd.Assume(named > 0)
			o = base + "/" + o
			out = o
		}
		target, err = Binary(dir, o, flags...)
	}
	nd.Assert(err == nil, "the target is made")
	ctx := fab.WithHashDB(context.Background(), vhDB{})
	fails := nd.Choice("fails", 2) == 1
	if fails {
		os.Setenv("ZZFAIL", "build")
	}
	err = con.Run(ctx, target)
	nd.Assert((err != nil) == fails, "a build that fails is an error, one that succeeds is not")
	check := func(in nd.Invocation) {
		var want []string
		if nd.Assert(len(in.Args) >= 6, "the compiler gets its arguments"); in.Name != "go" || in.Args[0] != "build" || in.Args[1] != "-C" || in.Args[3] != "-o" {
			nd.Assert(false, "go build is invoked in a directory with an output file")
		}
		want = append(append(want, flags...), ".")
		nd.Assert(vhSame(in.Args[5:], want), "the flags and then the package are given")
		nd.Assert(vhAbs(in.Dir, in.Args[2]) == base+"/s/c/main", "it builds in the package's directory")
		nd.Assert(vhAbs(base+"/s/c/main", in.Args[4]) == vhAbs(base, out), "it writes the output file")
	}
	invs := nd.Invocations()
	nd.Assert(len(invs) == 1, "the compiler is invoked once")
	check(invs[0])
	os.Unsetenv("ZZFAIL")
	changed := nd.Choice("changed", len(files)+1)
	if changed < len(files) {
		os.WriteFile(files[changed], []byte(nd.StrN("text", 1, "")), 0644)
	}
	same := changed >= 3
	if !same {
		b, _ := os.ReadFile(files[changed])
		same = string(b) == "1"
	}
	// a new process
	con = fab.NewController("")
	nd.Assert(con.Run(ctx, target) == nil, "the second build succeeds")
	invs = nd.Invocations()
	if same && !fails {
		nd.Assert(len(invs) == 1, "an unchanged binary is not built again")
	} else {
		nd.Assert(len(invs) == 2, "a binary is built again when a file it depends on has changed")
		check(invs[1])
	}
	nd.Reach("end")
}

// vhAbs is the clean absolute form of a path relative to dir.
func vhAbs(dir, p string) string {
	if p == "" || p[0] != '/' {
		p = dir + "/" + p
	}
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c == ".." && len(out) > 0 {
			out = out[:len(out)-1]
		} else if c != "" && c != "." && c != ".." {
			out = append(out, c)
		}
	}
	return "/" + strings.Join(out, "/")
}
