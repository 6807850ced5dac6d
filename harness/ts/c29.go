package ts

import (
	"context"
	"io"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zzverif/nd"
	"github.com/bobg/fab/zzverif/vm"
)

type vhDB map[string]bool

func (d vhDB) Has(_ context.Context, h []byte) (bool, error) { return d[string(h)], nil }
func (d vhDB) Add(_ context.Context, h []byte) error         { d[string(h)] = true; return nil }

type vhErr struct{}

func (vhErr) Error() string { return "generation fails" }

// vhGen is what is generated.
func vhGen(dir, typename, prefix string) string {
	s := "type " + typename + " prefix " + prefix + "\n"
	for _, f := range []string{"a.go", "b.go"} {
		b, err := os.ReadFile(dir + "/" + f)
		if err == nil {
			s += f + ":" + string(b) + "\n"
		}
	}
	return s
}

// VH_C29_history: a target for a package of two files, any of which may change, with any one-byte type and prefix of "ab", in a program or in YAML, the directory and output file relative or absolute, is run twice (thorough: three times): before each run but the first a file, the output, the type or the prefix changes to anything of "ab", the output is removed, or nothing changes.
// Generation fails or not, before or after something was written; the output file cannot be written or it can; forced or not. Then everything to be cleaned automatically is.
// vh: budget=60s tbudget=300s
func VH_C29_history() {
	base := nd.TempDir()
	pdir := base + "/s/p"
	os.MkdirAll(pdir, 0755)
	os.MkdirAll(base+"/s/o", 0755)
	nd.Assert(os.Chdir(base) == nil, "harness: directory")
	os.WriteFile(pdir+"/a.go", []byte("a"), 0644)
	os.WriteFile(pdir+"/b.go", []byte("a"), 0644)
	vm.PackagesHook = func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
		dir, err := filepath.Abs(cfg.Dir)
		nd.Assert(err == nil && dir == pdir, "the package is the one in the directory")
		return []*packages.Package{{Name: "p", PkgPath: "m/p", GoFiles: []string{dir + "/a.go", dir + "/b.go"}, Module: &packages.Module{Path: "m"}}}, nil
	}
	fails, runs := 0, 0
	vm.TSHook = func(w io.Writer, dir, typename, prefix string) error {
		runs++
		dir, err := filepath.Abs(dir)
		nd.Assert(err == nil && dir == pdir, "declarations are generated for the package in the directory")
		if fails == 1 {
			return vhErr{}
		}
		s := vhGen(dir, typename, prefix)
		io.WriteString(w, s[:7])
		if fails == 2 {
			return vhErr{}
		}
		_, err = io.WriteString(w, s[7:])
		return err
	}
	typename, prefix := nd.StrN("type", 1, "ab"), nd.StrN("prefix", 1, "ab")
	abs := nd.Choice("abs", 2) == 1
	yam := nd.Choice("yaml", 2) == 1
	autoclean := nd.Choice("autoclean", 2) == 1
	out := base + "/s/o/x.ts"
	if nd.Choice("where", 2) == 1 {
		out = base + "/s/missing/x.ts"
	}
	missing := !strings.Contains(out, "/o/")
	db := vhDB{}
	seen := map[string]bool{}
	for i := 0; i < nd.Tier(2, 3); i++ {
		if i > 0 {
			switch nd.Choice("change", 6) {
			case 1:
				os.WriteFile(pdir+"/b.go", []byte(nd.StrN("text", 1, "ab")), 0644)
			case 2:
				os.WriteFile(out, []byte(nd.StrN("text", 1, "ab")), 0644)
			case 3:
				typename = nd.StrN("type", 1, "ab")
			case 4:
				prefix = nd.StrN("prefix", 1, "ab")
			case 5:
				os.Remove(out)
			}
		}
		var target fab.Target
		con := fab.NewController(base)
		if yam {
			d, o := "p", strings.TrimPrefix(out, base+"/s/")
			if abs {
				d, o = pdir, out
			}
			y := "_dir: s\nT: !ts.Decls\n  Dir: " + d + "\n  Type: " + typename + "\n  Prefix: " + prefix + "\n  Out: " + o + "\n"
			if autoclean {
				y += "  Autoclean: true\n"
			}
			nd.Assert(con.ReadYAML(strings.NewReader(y), "s") == nil, "the target is made")
			target, _ = con.RegistryTarget("s/T")
			nd.Assert(target != nil, "the target is registered")
		} else {
			d, o := "s/p", strings.TrimPrefix(out, base+"/")
			if abs {
				d, o = pdir, out
			}
			var err error
			target, err = Decls(d, typename, prefix, o, fab.Autoclean(autoclean))
			nd.Assert(err == nil, "the target is made")
		}
		force := nd.Choice("force", 2) == 1
		if fails = 0; i == 0 {
			fails = nd.Choice("fails", 3)
		}
		had, _ := os.ReadFile(out)
		state := vhGen(pdir, typename, prefix) + "\x00" + string(had)
		runs = 0
		err := con.Run(fab.WithForce(fab.WithHashDB(context.Background(), db), force), target)
		got, _ := os.ReadFile(out)
		if missing {
			nd.Assert(err != nil, "an output file that cannot be written is an error")
			continue
		}
		if seen[state] && !force {
			nd.Assert(runs == 0, "nothing is generated again when nothing changed")
		} else {
			nd.Assert(runs == 1, "declarations are generated when something changed, the last time failed, or by force")
		}
		nd.Assert((err != nil) == (runs > 0 && fails > 0), "a failure is reported, success is not")
		if err == nil {
			nd.Assert(string(got) == vhGen(pdir, typename, prefix), "the output is that for the package, the type and the prefix")
			seen[vhGen(pdir, typename, prefix)+"\x00"+string(got)] = true
		}
	}
	_, err1 := os.Stat(out)
	err := fab.NewController(base).Run(context.Background(), &fab.Clean{Autoclean: true})
	nd.Assert(err == nil, "cleaning succeeds")
	_, err2 := os.Stat(out)
	nd.Assert((err2 == nil) == (err1 == nil && !autoclean), "the output is cleaned if asked for")
	nd.Reach("end")
}

// VH_C29_fails: the package cannot be loaded, or the YAML is not as it must be.
// vh: budget=10s
func VH_C29_fails() {
	base := nd.TempDir()
	bad := nd.Bool("bad")
	vm.PackagesHook = func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
		if bad {
			return nil, vhErr{}
		}
		return []*packages.Package{{Name: "p", PkgPath: "m/p", Module: &packages.Module{Path: "m"}}}, nil
	}
	wrong := nd.Choice("wrong", 3)
	y := []string{"T: !ts.Decls\n  Dir: p\n  Type: T\n  Prefix: /p\n  Out: o\n", "T: !ts.Decls\n  - p\n", "T: !ts.Decls\n  Dir: [p]\n"}[wrong]
	con := fab.NewController(base)
	err := con.ReadYAML(strings.NewReader(y), "")
	nd.Assert((err != nil) == (bad || wrong > 0), "what is wrong is reported")
	t, err := Decls(base, "T", "/p", base+"/o")
	nd.Assert((err != nil) == bad && (t == nil) == bad, "a package that cannot be loaded is an error")
	nd.Reach("end")
}
