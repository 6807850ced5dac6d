// Package mains calls main programs.
package mains

import (
	"context"
	"flag"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/packages"
	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zzverif/nd"
	"github.com/bobg/fab/zzverif/vm"
	"github.com/bobg/fab/zzverif/zzdrv"
	"github.com/bobg/fab/zzverif/zzfab"
	"github.com/bobg/fab/zzverif/zzrules"
)

// vhYAMLProbe is a target of a YAML file that notes its runs.
type vhYAMLProbe struct{ name string }

func (p *vhYAMLProbe) Run(ctx context.Context, con *fab.Controller) error {
	return zzrules.Note(ctx, con, p.name)
}
func (p *vhYAMLProbe) Desc() string { return "probe" }

// vhRulesPackage answers packages.Load with the package in the given directory.
func vhRulesPackage(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	pkg := &packages.Package{ID: "x.com/rules", Name: "rules", PkgPath: "x.com/rules", Types: types.NewPackage("x.com/rules", "rules")}
	pkg.GoFiles = []string{cfg.Dir + "/a.go"}
	return []*packages.Package{pkg}, nil
}

// vhProject makes a project in the directory: its rules are in Go or not, and in YAML or not, or wrongly so.
func vhProject(dir string, gorules bool, yamlrules int) {
	os.MkdirAll(dir+"/sub", 0755)
	if gorules {
		os.MkdirAll(dir+"/_fab", 0755)
		os.WriteFile(dir+"/_fab/a.go", []byte("package rules\n"), 0644)
	}
	text := ""
	if !gorules {
		text = "Alpha: !zz.Probe Alpha\nBeta: !zz.Probe Beta\n"
	}
	switch yamlrules {
	case 1:
		text += "Yam: !zz.Probe Yam\n"
	case 2:
		text += "Yam: !zz.Unknown Yam\n"
	}
	if text != "" {
		os.WriteFile(dir+"/fab.yaml", []byte(text), 0644)
	}
}

func vhWorld(base string) {
	os.MkdirAll(base+"/tmp", 0755)
	os.MkdirAll(base+"/home", 0755)
	os.Setenv("PATH", nd.BinDir())
	os.Setenv("TMPDIR", base+"/tmp")
	os.Setenv("HOME", base+"/home")
	os.Unsetenv("XDG_CACHE_HOME")
	os.Setenv("ZZVERSION", "1")
	vm.HaveBuildInfo = true
	vm.BuildInfo = &debug.BuildInfo{GoVersion: "go1.22", Path: "github.com/bobg/fab/cmd/fab"}
	vm.PackagesHook = vhRulesPackage
	zzrules.Log, zzrules.Failing, zzrules.Key = nil, "", "key"
	fab.RegisterYAMLTarget("zz.Probe", func(con *fab.Controller, node *yaml.Node, dir string) (fab.Target, error) {
		return &vhYAMLProbe{name: node.Value}, nil
	})
}

// vhCall runs a main program and returns its exit code and standard output.
func vhCall(base string, main func(), dir string, args ...string) (code int, stdout string) {
	nd.Assert(os.Chdir(dir) == nil, "the program's directory exists")
	f, err := os.Create(base + "/stdout")
	nd.Assert(err == nil, "harness: output file")
	os.Args = args
	flag.CommandLine = flag.NewFlagSet(args[0], flag.PanicOnError)
	saved := os.Stdout
	os.Stdout = f
	func() {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(nd.ExitPanic)
				if !ok {
					panic(r)
				}
				code = e.Code
			}
		}()
		main()
	}()
	os.Stdout = saved
	f.Close()
	b, err := os.ReadFile(base + "/stdout")
	nd.Assert(err == nil, "harness: output file")
	return code, string(b)
}

// vhFab runs fab as a user does; when it starts a driver, that is run as well.
// The exit code is that of what did the work.
func vhFab(base, dir string, gorules bool, args ...string) (code int, stdout string) {
	before := len(nd.Invocations())
	code, stdout = vhCall(base, zzfab.Main, dir, append([]string{"fab"}, args...)...)
	var drv []nd.Invocation
	for _, in := range nd.Invocations()[before:] {
		if in.Name == "vprog" {
			drv = append(drv, in)
		}
	}
	if !gorules {
		nd.Assert(len(drv) == 0, "no driver is run without rules in Go")
		return
	}
	nd.Assert(len(drv) == 1, "the driver is run once")
	nd.Assert(len(zzrules.Log) == 0, "targets are run by the driver")
	nd.Assert(code == 0, "the command succeeds when the driver does")
	for _, e := range drv[0].Env {
		if i := strings.IndexByte(e, '='); i > 0 {
			os.Setenv(e[:i], e[i+1:])
		}
	}
	return vhCall(base, zzdrv.Main, drv[0].Dir, drv[0].Args...)
}

// VH_C27_run: the fab command, and the driver it starts if the project has rules in Go, with any of the flags -v, -list, -f and -n, the cache directory given (absolute or relative) or not, in the project's top directory or below it; targets in Go or YAML, or (in Go) both, or YAML that is in error;
// arguments: none, a target, two, one twice, an unknown one, a target and an unknown one, a target with options, or any string of three (thorough: four) of "-vf= " alone, after "--", or after a target; any target fails or none does. The same command is then given again with the same or another cache directory.
// vh: budget=120s tbudget=500s
func VH_C27_run() {
	base := nd.TempDir()
	vhWorld(base)
	proj := base + "/proj"
	gorules := nd.Choice("go", 2) == 1
	yamlrules := nd.Choice("yaml", 3)
	vhProject(proj, gorules, yamlrules)
	verbose, list, force, dry := nd.Bool("v"), nd.Bool("list"), nd.Bool("f"), nd.Bool("n")
	dir := proj + []string{"", "/sub"}[nd.Choice("dir", 2)]
	var args []string
	if verbose {
		args = append(args, "-v")
	}
	if list {
		args = append(args, "-list")
	}
	if force {
		args = append(args, "-f")
	}
	if dry {
		args = append(args, "-n")
	}
	cache := nd.Choice("cache", 3)
	if cache > 0 {
		args = append(args, "-fab", []string{base + "/cache", "../rel"}[cache-1])
	}
	var rest, want []string
	var options string
	unknown := false
	sym := ""
	what := nd.Choice("args", 10)
	if what >= 7 {
		sym = nd.StrN("arg", nd.Tier(3, 4), "-vf= ")
	}
	switch what {
	case 0:
	case 1:
		rest, want = []string{"Alpha"}, []string{"Alpha"}
	case 2:
		rest, want = []string{"Beta", "Alpha"}, []string{"Alpha", "Beta"}
	case 3:
		rest, want = []string{"Beta", "Beta"}, []string{"Beta"}
	case 4:
		rest, unknown = []string{"gamma"}, true
	case 5:
		rest, unknown = []string{"Alpha", "Count"}, true
	case 6:
		rest, want, options = []string{"Alpha", "-v", "--", "-list", "Beta"}, []string{"Alpha"}, "-v;--;-list;Beta;"
		if yamlrules == 1 {
			rest[0], want[0] = "Yam", "Yam"
		}
	case 7:
		nd.Assume(!strings.HasPrefix(sym, "-"))
		rest, unknown = []string{sym}, true
	case 8:
		rest, unknown = []string{"--", sym}, true
	case 9:
		rest = []string{"Beta", sym}
		if strings.HasPrefix(sym, "-") {
			want, options = []string{"Beta"}, sym+";"
		} else {
			unknown = true
		}
	}
	args = append(args, rest...)
	if len(want) > 0 && !list {
		zzrules.Failing = append([]string{""}, want...)[nd.Choice("failing", 1+len(want))]
	}
	had := false
	for i := 0; i < 2; i++ {
		zzrules.Log = nil
		given := args
		if i == 1 {
			if len(want) == 0 || list || yamlrules == 2 {
				break
			}
			if had = nd.Choice("same", 2) == 1; !had {
				given = append([]string{"-fab", base + "/another"}, args...)
				if cache > 0 {
					break // the flag is given already
				}
			}
		}
		code, stdout := vhFab(base, dir, gorules, given...)
		if yamlrules == 2 {
			nd.Assert(code != 0, "an error in YAML is reported")
			nd.Assert(len(zzrules.Log) == 0, "no target runs when the YAML is in error")
			break
		}
		if list {
			nd.Assert(code == 0 && len(zzrules.Log) == 0, "listing succeeds and runs nothing")
			names := map[string]bool{}
			for _, l := range strings.Split(stdout, "\n") {
				names[l] = true
			}
			nd.Assert(names["Alpha"] && names["Beta"] && names["Yam"] == (yamlrules == 1) && !names["gamma"] && !names["Count"], "listing tells the targets")
			nd.Assert(!gorules || strings.Contains(stdout, "\n    Alpha is the first. It says \"a\\b\".\n"), "listing tells what targets are")
			break
		}
		if unknown {
			nd.Assert(code != 0, "an unknown target is an error")
			nd.Assert(len(zzrules.Log) == 0, "an unknown target keeps all from running")
			break
		}
		nd.Assert((code != 0) == (zzrules.Failing != ""), "the command fails iff a target does")
		nd.Assert(len(zzrules.Log) <= len(want), "nothing but the targets is run")
		for _, w := range want {
			n := 0
			for _, r := range zzrules.Log {
				if r.Name != w {
					continue
				}
				n++
				nd.Assert(r.Verbose == verbose && r.Force == force && r.Dry == dry, "the targets see the flags")
				nd.Assert(r.Args == options, "the target gets its options")
				nd.Assert(r.DB, "there is a hash DB")
				nd.Assert(r.Top == proj, "the targets see the top directory")
				nd.Assert(len(want) > 1 || r.Had == had, "the hash DB is that in the cache directory")
			}
			nd.Assert(n == 1, "each target is run once")
		}
	}
	nd.Reach("end")
}

// VH_C27_driver: whatever exit code the driver ends with and whatever it writes to its output, the fab command fails if the driver does, and passes the output on; it fails too when there is no driver to start.
// vh: budget=20s
func VH_C27_driver() {
	base := nd.TempDir()
	vhWorld(base)
	proj := base + "/proj"
	vhProject(proj, true, 0)
	exit := nd.Choice("exit", 3)
	out := nd.StrN("out", 2, "a\nb")
	args := []string{"Alpha", "-x", "out:" + out, "err:z" + out, "exit:" + string(rune('0'+exit))}
	if nd.Choice("broken", 2) == 1 {
		os.Setenv("ZZFAIL", "build")
		exit = 1
	}
	e, err := os.Create(base + "/stderr")
	nd.Assert(err == nil, "harness: output file")
	os.Stderr = e
	code, stdout := vhCall(base, zzfab.Main, proj, append([]string{"fab"}, args...)...)
	nd.Assert((code != 0) == (exit != 0), "the command fails iff the driver does")
	stderr, _ := os.ReadFile(base + "/stderr")
	if os.Getenv("ZZFAIL") == "" {
		nd.Assert(strings.HasPrefix(stdout, out) && (exit != 0 || stdout == out), "the driver's standard output is the command's")
		nd.Assert(string(stderr) == "z"+out, "the driver's standard error is the command's")
	}
	nd.Reach("end")
}
