package fab

import (
	"context"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/bobg/fab/zzverif/nd"
	"github.com/bobg/fab/zzverif/vm"
)

// vhRulesPackage answers packages.Load with the package in the given directory.
func vhRulesPackage(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	pkg := &packages.Package{ID: "x.com/rules", Name: "rules", PkgPath: "x.com/rules", Types: types.NewPackage("x.com/rules", "rules")}
	es, err := os.ReadDir(cfg.Dir)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") {
			pkg.GoFiles = append(pkg.GoFiles, cfg.Dir+"/"+e.Name())
		}
	}
	return []*packages.Package{pkg}, nil
}

// vhVersion makes the running fab the given version; 0 is one that does not know its version.
func vhVersion(v int) {
	vm.HaveBuildInfo = true
	vm.BuildInfo = nil
	os.Setenv("ZZVERSION", string(rune('0'+v)))
	if v == 0 {
		return
	}
	dep := &debug.Module{Path: "x.com/dep", Version: "v1.0.0", Sum: "h1:x", Replace: &debug.Module{Path: "x.com/fork", Version: "v1.0.1"}}
	vm.BuildInfo = &debug.BuildInfo{
		GoVersion: "go1.22", Path: "github.com/bobg/fab/cmd/fab",
		Main:     debug.Module{Path: "github.com/bobg/fab", Version: "v0.1.0"},
		Deps:     []*debug.Module{dep, {Path: "x.com/z", Version: "v1.0.0"}},
		Settings: []debug.BuildSetting{{Key: "-compiler", Value: "gc"}, {Key: "vcs.revision", Value: "a"}},
	}
	switch v {
	case 2:
		vm.BuildInfo.Main.Version = "v0.1.1"
	case 3:
		vm.BuildInfo.Settings[1].Value = "b"
	case 4:
		vm.BuildInfo.GoVersion = "go1.23"
	case 5:
		dep.Replace.Version = "v1.0.2"
	}
}

// vhRules is the rule files of a project.
type vhRules map[string]string

func (r vhRules) names() []string {
	var l []string
	for n := range r {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// text is what a driver built from the rules holds.
func (r vhRules) text() string {
	s := ""
	for _, n := range r.names() {
		s += "file " + n + "\n" + r[n] + "\n"
	}
	return s
}

func vhRuleText() string {
	return "package rules\n\n// " + nd.StrN("code", 1, []string{"ab", "abc"}[nd.Tier(0, 1)]) + "\n"
}

// vhBuilds is the number of times the compiler was started, to build something, and a driver was, and the last driver started.
func vhBuilds(from int) (tries, builds, drivers int, last nd.Invocation) {
	invs := nd.Invocations()
	for _, in := range invs[from:] {
		if in.Name == "go" {
			tries++
		}
		if in.Name == "go" && len(in.Args) > 0 && in.Args[0] == "build" {
			builds++
		}
		if in.Name == "vprog" {
			drivers++
			last = in
		}
	}
	return
}

// VH_C20_history: three (thorough: four) runs of fab in one of two projects with the same package name, before each of which (the first aside) nothing changes, or one or both of its rule files get either of two (thorough: three) contents or one is added or removed, or the version of fab becomes unknown or another (thorough: any of five others), or the other project is used;
// each run except the last is a plain one, a forced one, or is one in which the compiler fails, or fab crashes at any of eight (thorough: ten) points where it changes the cache.
// vh: budget=150s tbudget=600s
func VH_C20_history() {
	base := nd.TempDir()
	os.MkdirAll(base+"/tmp", 0755)
	os.Setenv("PATH", nd.BinDir())
	os.Setenv("TMPDIR", base+"/tmp")
	vm.PackagesHook = vhRulesPackage
	projects := []vhRules{{}, {}}
	put := func(p int, name, text string) {
		f := base + "/" + []string{"t", "u"}[p] + "/_fab/" + name
		if text == "" {
			os.Remove(f)
			delete(projects[p], name)
			return
		}
		os.WriteFile(f, []byte(text), 0644)
		projects[p][name] = text
	}
	os.MkdirAll(base+"/t/_fab", 0755)
	os.MkdirAll(base+"/u/_fab", 0755)
	os.MkdirAll(base+"/cache", 0755)
	put(0, "a.go", vhRuleText())
	version := 1
	vhVersion(version)
	cur := 0
	n := nd.Tier(3, 4)
	// what the last run that went through was for
	done, doneText := -1, ""
	for i := 0; i < n; i++ {
		if i > 0 {
			switch nd.Choice("change", 6) {
			case 1:
				put(cur, "a.go", vhRuleText())
			case 2:
				put(cur, "a.go", vhRuleText())
				put(cur, "b.go", vhRuleText())
			case 3:
				if projects[cur]["b.go"] == "" {
					put(cur, "b.go", vhRuleText())
				} else {
					put(cur, "b.go", "")
				}
			case 4:
				if v := nd.Choice("version", nd.Tier(2, 6)); nd.Tier(0, 1) == 1 {
					version = v
				} else if v == 0 {
					version = 0
				} else {
					version = 1 + (version+i)%5
				}
				vhVersion(version)
			case 5:
				cur = 1 - cur
				if len(projects[cur]) == 0 {
					put(cur, "a.go", vhRuleText())
				}
			}
		}
		how := 0
		if i < n-1 {
			how = nd.Choice("how", 3+nd.Tier(8, 10))
		}
		os.Unsetenv("ZZFAIL")
		m := &Main{Fabdir: base + "/cache", Topdir: base + "/" + []string{"t", "u"}[cur], Force: how == 1}
		if how == 2 {
			os.Setenv("ZZFAIL", "build")
		}
		before := len(nd.Invocations())
		crash := how - 2
		if crash < 0 {
			crash = 0
		}
		nd.CrashIn(base+"/cache", crash)
		err, crashed := vhRunMain(m)
		nd.CrashIn("", 0)
		tries, builds, drivers, last := vhBuilds(before)
		os.RemoveAll(base + "/tmp")
		os.MkdirAll(base+"/tmp", 0755)
		text := projects[cur].text()
		if crashed {
			done = -1
			continue
		}
		want := "#!" + nd.BinDir() + "/vprog\nversion " + os.Getenv("ZZVERSION") + "\n" + text
		if err != nil {
			nd.Assert(how == 2, "a run in which nothing fails succeeds")
			nd.Assert(drivers == 0, "no driver is run when the compilation fails")
			done = -1
			continue
		}
		nd.Assert(how != 2 || tries == 0, "a failing compilation is reported")
		nd.Assert(drivers == 1 && len(last.Args) > 0, "the driver is run")
		used, _ := os.ReadFile(last.Args[0])
		nd.Assert(string(used) == want, "the driver that is used was built from the present code by the present version")
		if how == 1 {
			nd.Assert(builds == 1, "a forced run compiles the driver")
		} else if done == cur+2*version && version != 0 && doneText == text {
			nd.Assert(tries == 0, "an unchanged project is not compiled again")
		}
		done, doneText = cur+2*version, text
	}
	nd.Reach("end")
}

func vhRunMain(m *Main) (err error, crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(nd.Crash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	return m.Run(context.Background()), false
}

// VH_C20_fail: a run, perhaps with a driver for older rules in place, in which any one thing fails: loading the package, which may be in error, hold no files or be one of none or two, its syntax, the name of its package, any step of the compiler, or which has no compiler; or nothing fails.
// vh: budget=20s
func VH_C20_fail() {
	base := nd.TempDir()
	os.MkdirAll(base+"/tmp", 0755)
	os.Setenv("PATH", nd.BinDir())
	os.Setenv("TMPDIR", base+"/tmp")
	vhVersion(1)
	rules := base + "/t/_fab"
	os.MkdirAll(rules, 0755)
	vm.PackagesHook = vhRulesPackage
	m := &Main{Fabdir: base + "/cache", Topdir: base + "/t"}
	old := nd.Choice("old", 2) == 1
	if old {
		os.WriteFile(rules+"/a.go", []byte("package rules\n"), 0644)
		err, _ := vhRunMain(m)
		nd.Assert(err == nil, "the first run succeeds")
	}
	before := len(nd.Invocations())
	os.WriteFile(rules+"/a.go", []byte(vhRuleText()), 0644)
	what := nd.Choice("what", 11)
	switch what {
	case 1, 2, 3:
		os.Setenv("ZZFAIL", []string{"init", "tidy", "build"}[what-1])
	case 4:
		os.WriteFile(rules+"/a.go", []byte("package rules\n\nfunc {"), 0644)
	case 5:
		os.WriteFile(rules+"/a.go", []byte("package other\n"), 0644)
	case 6:
		os.WriteFile(rules+"/b.go", []byte("package other\n"), 0644)
	case 7:
		os.Setenv("PATH", base)
	default:
		vm.PackagesHook = func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
			ps, err := vhRulesPackage(cfg, patterns...)
			switch what {
			case 8:
				return nil, &vhErr{"load"}
			case 9:
				ps[0].Errors = []packages.Error{{Msg: "broken"}, {Msg: "very broken"}}
			case 10:
				ps = append(ps, ps[0])
			}
			return ps, err
		}
	}
	m = &Main{Fabdir: base + "/cache", Topdir: base + "/t", Force: nd.Choice("force", 2) == 1}
	err, _ := vhRunMain(m)
	_, _, drivers, _ := vhBuilds(before)
	nd.Assert((err != nil) == (what != 0), "a failure is reported, success is not")
	nd.Assert(drivers == vhB2i(err == nil), "no driver is run unless it was compiled")
	if what == 9 && err != nil {
		nd.Assert(strings.Contains(err.Error(), "very broken"), "each error is reported")
	}
	nd.Reach("end")
}
