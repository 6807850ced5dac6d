package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native builds the code under test with the harnesses and replays assignments.
type Native struct {
	repo, verif string
	l           *Loaded
	dir         string // scratch directory, removed by Close
	bins        map[string]string
	errs        map[string]error
	mu          sync.Mutex
	seq         int
	race        bool
	noDrop      bool
}

// Outcome is what a native run reported.
type Outcome struct {
	Failed   []string
	Obs      []string
	Missing  []string
	Reached  []string
	Panic    string
	Assume   bool
	Crash    bool
	Race     bool `json:"-"`
	Diverged string
	Filled   map[string]uint64
	Hang     bool   `json:"-"`
	Text     string `json:"-"`
}

// Bad reports whether the run violated the property.
func (o *Outcome) Bad() bool {
	return len(o.Failed) > 0 || o.Panic != "" || o.Hang || o.Crash || o.Race
}

func (o *Outcome) String() string {
	switch {
	case len(o.Failed) > 0:
		return "assertion failed: " + o.Failed[0]
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Race:
		return "data race: " + trunc(o.Text, 1500)
	case o.Hang:
		return "hangs"
	case o.Crash:
		return "crashes: " + trunc(o.Text, 300)
	case o.Assume:
		return "assumption not met"
	}
	return "ok"
}

func NewNative(repo, verif string, l *Loaded) (*Native, error) {
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return nil, err
	}
	os.Chmod(dir, 0755)
	return &Native{repo: repo, verif: verif, l: l, dir: dir, bins: map[string]string{}, errs: map[string]error{}}, nil
}

func (n *Native) Close() {
	if n != nil && strings.Contains(n.dir, "gosym-native-") {
		os.RemoveAll(n.dir)
		n.l.removeGen()
	}
}

// nativeShims are calls in the code under test that native replays direct to
// stand-ins: those answer with what the harness set up, or else do the real thing.
var nativeShims = []struct{ pat, repl, decl, imp string }{
	{`\bpackages\.Load\(`, "zzPackagesLoad(", "var zzPackagesLoad = vm.NativePackagesLoad", ""},
	{`\btsdecls\.Write\(`, "zzTSWrite(", "var zzTSWrite = vm.NativeTSWrite", ""},
	{`\bdebug\.ReadBuildInfo\(`, "zzReadBuildInfo(", "var zzReadBuildInfo = vm.NativeReadBuildInfo", ""},
	{`\bos\.Rename\b`, "zzRename", "func zzRename(a, b string) error { nd.CrashPoint(a, b); return os.Rename(a, b) }", "nd"},
	{`\bos\.Remove\b`, "zzRemove", "func zzRemove(p string) error { nd.CrashPoint(p); return os.Remove(p) }", "nd"},
	{`\bos\.RemoveAll\b`, "zzRemoveAll", "func zzRemoveAll(p string) error { nd.CrashPoint(p); return os.RemoveAll(p) }", "nd"},
	{`\bos\.Mkdir\b`, "zzMkdir", "func zzMkdir(p string, m fs.FileMode) error { nd.CrashPoint(p); return os.Mkdir(p, m) }", "nd"},
	{`\bos\.MkdirAll\b`, "zzMkdirAll", "func zzMkdirAll(p string, m fs.FileMode) error { nd.CrashPoint(p); return os.MkdirAll(p, m) }", "nd"},
	{`\bos\.MkdirTemp\b`, "zzMkdirTemp", "func zzMkdirTemp(d, p string) (string, error) { nd.CrashPoint(d); return os.MkdirTemp(d, p) }", "nd"},
	{`\bos\.CreateTemp\b`, "zzCreateTemp", "func zzCreateTemp(d, p string) (*os.File, error) { nd.CrashPoint(d); return os.CreateTemp(d, p) }", "nd"},
	{`\bos\.OpenFile\b`, "zzOpenFile", "func zzOpenFile(p string, f int, m fs.FileMode) (*os.File, error) { return nd.OpenFile(os.OpenFile, p, f, m) }", "nd"},
	{`\bos\.Create\b`, "zzCreate", "func zzCreate(p string) (*os.File, error) { return nd.OpenFile(os.OpenFile, p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }", "nd"},
	{`\bos\.WriteFile\(`, "zzWF(os.WriteFile)(", `func zzWF(f func(string, []byte, fs.FileMode) error) func(string, []byte, fs.FileMode) error {
	return func(name string, data []byte, perm fs.FileMode) error { return nd.WriteFile(f, name, data, perm) }
}`, "io/fs"},
}

// schedShims do the same in replays of schedules: the engine schedules at these calls.
var schedShims = []struct{ pat, repl, decl, imp string }{
	{`\bos\.(Rename)\(`, "zzYD(\"rename\", os.$1)(", zzYD, "nd"},
	{`\bos\.(Remove)\(`, "zzYD(\"remove\", os.$1)(", zzYD, "nd"},
	{`\bos\.(Create|OpenFile|Open|ReadFile)\(`, "zzYD(\"open\", os.$1)(", zzYD, "nd"},
	{`\bos\.(Stat)\(`, "zzYD(\"stat\", os.$1)(", zzYD, "nd"},
	{`\b([\w.]+)\.(ExecContext|QueryContext|QueryRowContext)\(`, "zzYD(\"sql\", $1.$2)(", zzYD, "nd"},
	{`\bos\.(Lstat)\(`, "zzYD(\"lstat\", os.$1)(", zzYD, "nd"},
}

const zzYD = "func zzYD[T any](what string, f T) T { nd.Yield(what); return f }"

// vsyncSource makes a source file use the cooperative replacement of sync.
func vsyncSource(name, src string, chanRng map[int]bool) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	type edit struct {
		from, to int
		text     string
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		for _, w := range [][2]string{{"sync", "vsync"}, {"atomic", "vatomic"}} {
			if im.Path.Value == `"`+w[0]+`"` || im.Path.Value == `"sync/`+w[0]+`"` {
				nm := w[0]
				if im.Name != nil {
					nm = im.Name.Name
				}
				eds = append(eds, edit{off(im.Pos()), off(im.End()), nm + " \"" + repoPath + "/zzverif/" + w[1] + "\""})
			}
		}
	}
	addImport := false
	rep := func(from, to token.Pos, text string) {
		eds = append(eds, edit{off(from), off(to), text})
		addImport = true
	}
	text := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
	two := map[ast.Node]bool{}  // receive expressions that give two values
	skip := map[ast.Node]bool{} // nodes that are rewritten with their parents
	arrow := func(e ast.Expr) *ast.UnaryExpr {
		u, ok := ast.Unparen(e).(*ast.UnaryExpr)
		if ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	rng := -1
	ast.Inspect(f, func(nd ast.Node) bool {
		if skip[nd] {
			return false
		}
		switch nd := nd.(type) {
		case *ast.RangeStmt:
			rng++
			if !chanRng[rng] {
				return true
			}
			// for zc := C; ; { K, zok := zzvsync.Recv2(zc); if !zok { break }; ... }
			lhs, op := "_, zok", ":="
			if nd.Key != nil {
				if nd.Tok == token.DEFINE {
					lhs = text(nd.Key) + ", zok"
				} else {
					lhs, op = text(nd.Key)+", zok", "="
				}
			}
			head := ""
			if op == "=" {
				head = "var zok bool; "
			}
			rep(nd.For, nd.X.Pos(), "for zc := ")
			rep(nd.X.End(), nd.Body.Lbrace+1, "; ; { "+head+lhs+" "+op+" zzvsync.Recv2(zc); if !zok { break }; ")
			if nd.Key != nil {
				skip[nd.Key] = true
			}
		case *ast.AssignStmt:
			if len(nd.Lhs) == 2 && len(nd.Rhs) == 1 {
				if u := arrow(nd.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(nd.Names) == 2 && len(nd.Values) == 1 {
				if u := arrow(nd.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if nd.Op != token.ARROW {
				return true
			}
			fn := "zzvsync.Recv("
			if two[nd] {
				fn = "zzvsync.Recv2("
			}
			rep(nd.OpPos, nd.X.Pos(), fn)
			rep(nd.End(), nd.End(), ")")
		case *ast.SendStmt:
			rep(nd.Chan.Pos(), nd.Chan.Pos(), "zzvsync.Send(")
			rep(nd.Chan.End(), nd.Value.Pos(), ")(")
			rep(nd.End(), nd.End(), ")")
		case *ast.CallExpr:
			if id, ok := nd.Fun.(*ast.Ident); ok && id.Name == "close" && len(nd.Args) == 1 {
				rep(id.Pos(), id.End(), "zzvsync.Close")
			}
		case *ast.SelectStmt:
			// switch z0, z1 := zzvsync.R(C), zzvsync.S(D)(x); zzvsync.Select(false, z0, z1) { case 0: ... }
			var names, vals []string
			def := false
			for _, s := range nd.Body.List {
				cc := s.(*ast.CommClause)
				if cc.Comm == nil {
					def = true
					continue
				}
				k := len(names)
				z := fmt.Sprintf("z%d", k)
				names = append(names, z)
				body := ""
				switch c := cc.Comm.(type) {
				case *ast.SendStmt:
					vals = append(vals, "zzvsync.S("+text(c.Chan)+")("+text(c.Value)+")")
				case *ast.ExprStmt:
					vals = append(vals, "zzvsync.R("+text(arrow(c.X).X)+")")
				case *ast.AssignStmt:
					vals = append(vals, "zzvsync.R("+text(arrow(c.Rhs[0]).X)+")")
					v := ".V()"
					l := text(c.Lhs[0])
					if len(c.Lhs) == 2 {
						v = ".V2()"
						l += ", " + text(c.Lhs[1])
					}
					body = " " + l + " " + c.Tok.String() + " " + z + v + ";"
				}
				rep(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:%s", k, body))
				skip[cc.Comm] = true
			}
			init := ""
			if len(names) > 0 {
				init = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			args := append([]string{fmt.Sprint(def)}, names...)
			rep(nd.Select, nd.Body.Lbrace, "switch "+init+"zzvsync.Select("+strings.Join(args, ", ")+") ")
			if !def {
				rep(nd.Body.Rbrace, nd.Body.Rbrace, "default: panic(\"select\"); ")
			}
		case *ast.GoStmt:
			addImport = true
			c := nd.Call
			if len(c.Args) == 0 {
				eds = append(eds, edit{off(nd.Pos()), off(c.Pos()), "zzvsync.Go("}, edit{off(c.Lparen), off(c.Rparen) + 1, ")"})
				return true
			}
			// { zf, za0 := F, A0; zzvsync.Go(func() { zf(za0) }) }
			var vs []string
			for i := range c.Args {
				vs = append(vs, fmt.Sprintf("za%d", i))
			}
			dots := ""
			if c.Ellipsis.IsValid() {
				dots = "..."
			}
			eds = append(eds,
				edit{off(nd.Pos()), off(c.Pos()), "{ zf, " + strings.Join(vs, ", ") + " := "},
				edit{off(c.Lparen), off(c.Lparen) + 1, ", "},
			)
			end := off(c.Args[len(c.Args)-1].End())
			eds = append(eds, edit{end, off(c.Rparen) + 1, "; zzvsync.Go(func() { zf(" + strings.Join(vs, ", ") + dots + ") }) }"})
		}
		return true
	})
	if addImport {
		e := off(f.Name.End())
		eds = append(eds, edit{e, e, "; import zzvsync \"" + repoPath + "/zzverif/vsync\""})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
	out := src
	for _, e := range eds {
		out = out[:e.from] + e.text + out[e.to:]
	}
	return out, nil
}

var embedRE = regexp.MustCompile(`(?m)^//go:embed (.*)$`)

// expandEmbeds expands the glob patterns of go:embed directives, which would
// otherwise match files that exist only in the overlay.
func expandEmbeds(dir, src string) string {
	return embedRE.ReplaceAllStringFunc(src, func(ln string) string {
		var r []string
		for _, pat := range strings.Fields(ln[len("//go:embed "):]) {
			if !strings.ContainsAny(pat, "*?[") {
				r = append(r, pat)
				continue
			}
			ms, _ := filepath.Glob(filepath.Join(dir, pat))
			for _, m := range ms {
				if rel, err := filepath.Rel(dir, m); err == nil {
					r = append(r, rel)
				}
			}
		}
		return "//go:embed " + strings.Join(r, " ")
	})
}

// shimmed rewrites the repository sources of the packages for native replay.
func (n *Native) shimmed(rep map[string]string, pkgs []string, kind string) error {
	tag := kind + "__"
	if kind == "sched" {
		for v, r := range rep {
			if !strings.Contains(v, "/zz_verif_") {
				continue
			}
			b, err := os.ReadFile(r)
			if err != nil {
				return err
			}
			out, err := vsyncSource(v, string(b), n.l.chanRng[v])
			if err != nil {
				return err
			}
			if out != string(b) {
				f := filepath.Join(n.dir, tag+strings.ReplaceAll(v, "/", "_"))
				if err := os.WriteFile(f, []byte(out), 0644); err != nil {
					return err
				}
				rep[v] = f
			}
		}
	}
	for _, p := range pkgs {
		dir := filepath.Join(n.repo, p)
		if strings.HasPrefix(p, "zzverif/") {
			continue
		}
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		decls := map[string]bool{}
		pkgName := ""
		for _, e := range ents {
			nm := e.Name()
			if !strings.HasSuffix(nm, ".go") || strings.HasSuffix(nm, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, nm))
			if err != nil {
				return err
			}
			s := string(b)
			if m := regexp.MustCompile(`(?m)^package (\w+)`).FindStringSubmatch(s); m != nil {
				pkgName = m[1]
			}
			out := expandEmbeds(dir, s)
			shims := nativeShims
			if kind == "sched" {
				shims = append(append(shims[:0:0], schedShims...), nativeShims...)
			}
			for _, sh := range shims {
				re := regexp.MustCompile(sh.pat)
				if re.MatchString(out) {
					out = re.ReplaceAllString(out, sh.repl)
					decls[sh.decl] = true
				}
			}
			if kind == "sched" {
				if out, err = vsyncSource(nm, out, n.l.chanRng[filepath.Join(dir, nm)]); err != nil {
					return err
				}
			}
			if out == s {
				continue
			}
			if regexp.MustCompile(`(?m)^(import|\t)\s*"os"$`).MatchString(out) {
				out += "\nvar _ = os.Getpid\n"
			}
			if regexp.MustCompile(`(?m)^(import|\t)\s*"runtime/debug"$`).MatchString(out) {
				out += "\nvar _ debug.BuildInfo\n"
			}
			if regexp.MustCompile(`(?m)^(import|\t)\s*"github.com/bobg/tsdecls"$`).MatchString(out) {
				out += "\nvar _ = tsdecls.Write\n"
			}
			f := filepath.Join(n.dir, tag+strings.ReplaceAll(p, "/", "_")+"__"+nm)
			if err := os.WriteFile(f, []byte(out), 0644); err != nil {
				return err
			}
			rep[filepath.Join(dir, nm)] = f
		}
		if len(decls) == 0 {
			continue
		}
		var ds []string
		for d := range decls {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		src := "package " + pkgName + "\n\nimport (\n\t\"io/fs\"\n\t\"os\"\n\n\t\"github.com/bobg/fab/zzverif/nd\"\n\t\"github.com/bobg/fab/zzverif/vm\"\n)\n\nvar _ = nd.Symbolic\nvar _ = vm.NativeReadBuildInfo\nvar _ fs.FileMode\nvar _ = os.Getpid\nvar _ = nd.TempDir\n\n" + strings.Join(ds, "\n") + "\n"
		f := filepath.Join(n.dir, tag+strings.ReplaceAll(p, "/", "_")+"__zz_verif_shims.go")
		if err := os.WriteFile(f, []byte(src), 0644); err != nil {
			return err
		}
		rep[filepath.Join(dir, "zz_verif_shims.go")] = f
	}
	return nil
}

// Build compiles the replay program. Kind is "" or "race".
func (n *Native) Build(kind string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[kind]; ok {
		return b, n.errs[kind]
	}
	b, err := n.build(kind)
	n.bins[kind], n.errs[kind] = b, err
	return b, err
}

func (n *Native) build(kind string) (string, error) {
	rep := map[string]string{}
	for v, r := range n.l.files {
		rep[v] = r
	}
	pkgset := map[string]bool{}
	var hs []string
	for h := range n.l.harness {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	var imps, regs []string
	pkgIdx := map[string]int{}
	for _, h := range hs {
		path := n.l.harness[h]
		if _, ok := pkgIdx[path]; !ok {
			pkgIdx[path] = len(pkgIdx)
			imps = append(imps, fmt.Sprintf("\tp%d %q", pkgIdx[path], path))
		}
		regs = append(regs, fmt.Sprintf("\t\t%q: p%d.%s,", h, pkgIdx[path], h))
		pkgset[strings.TrimPrefix(strings.TrimPrefix(path, repoPath), "/")] = true
	}
	var pkgs []string
	for p := range pkgset {
		pkgs = append(pkgs, p)
	}
	// The packages with harnesses may call others of the repository.
	filepath.WalkDir(n.repo, func(path string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return nil
		}
		nm := d.Name()
		if path != n.repo && (strings.HasPrefix(nm, "_") || strings.HasPrefix(nm, ".") || nm == "testdata") {
			return filepath.SkipDir
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, n.repo), "/")
		if pkgset[rel] {
			return nil
		}
		fs, _ := filepath.Glob(filepath.Join(path, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, _ := os.ReadFile(f)
			m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b)
			if m != nil && string(m[1]) != "main" {
				pkgs = append(pkgs, rel)
				break
			}
		}
		return nil
	})
	if err := n.shimmed(rep, pkgs, kind); err != nil {
		return "", err
	}
	if kind == "sched" {
		imps = append(imps, "\t_ \""+repoPath+"/zzverif/vsync\"")
		for _, f := range []string{"vsync/vsync.go", "vsync/chan.go", "vatomic/vatomic.go"} {
			rep[n.repo+"/zzverif/"+f] = n.verif + "/harness/" + f
		}
	}
	src := "package main\n\nimport (\n" + strings.Join(imps, "\n") + "\n\t\"github.com/bobg/fab/zzverif/ndrun\"\n)\n\nfunc main() {\n\tndrun.Main(map[string]func(){\n" + strings.Join(regs, "\n") + "\n\t})\n}\n"
	mainf := filepath.Join(n.dir, kind+"_run_main.go")
	if err := os.WriteFile(mainf, []byte(src), 0644); err != nil {
		return "", err
	}
	rep[n.repo+"/zzverif/run/main.go"] = mainf
	rep[n.repo+"/zzverif/ndrun/ndrun.go"] = n.verif + "/harness/ndrun/ndrun.go"
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(n.dir, kind+"_overlay.json")
	if err := os.WriteFile(ovf, ov, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, "runner"+kind)
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if kind == "race" {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/run")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = append(goEnv(), "CGO_ENABLED=1", "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the native replay program: %v\n%s", err, out)
	}
	os.Chmod(bin, 0755)
	return bin, nil
}

const nobody = 65534

// Run replays one assignment of a harness in a process and directory of its own.
func (n *Native) Run(kind, harness string, inputs map[string]uint64, sched []schedStep, thorough bool, timeout time.Duration, extra ...string) (*Outcome, error) {
	return n.RunFilled(kind, harness, inputs, 0, sched, thorough, timeout, extra...)
}

// RunFilled is Run with values made from fill for the inputs that have none, unless fill is 0.
func (n *Native) RunFilled(kind, harness string, inputs map[string]uint64, fill uint64, sched []schedStep, thorough bool, timeout time.Duration, extra ...string) (*Outcome, error) {
	bin, err := n.Build(kind)
	if err != nil {
		return nil, err
	}
	n.mu.Lock()
	n.seq++
	d := filepath.Join(n.dir, fmt.Sprintf("r%d", n.seq))
	n.mu.Unlock()
	for _, s := range []string{"", "w", "bin", "home", "tmp"} {
		if err := os.MkdirAll(filepath.Join(d, s), 0755); err != nil {
			return nil, err
		}
		if err := os.Chown(filepath.Join(d, s), nobody, nobody); err != nil {
			return nil, err
		}
	}
	defer func() {
		if strings.HasPrefix(d, n.dir+"/r") {
			os.RemoveAll(d)
		}
	}()
	for _, p := range []string{"go", "protoc", "sh", "vprog"} {
		if err := os.Link(bin, filepath.Join(d, "bin", p)); err != nil {
			return nil, err
		}
	}
	req, _ := json.Marshal(map[string]any{"Harness": harness, "Inputs": inputs, "Thorough": thorough, "Sched": sched, "Fill": fill})
	if err := os.WriteFile(filepath.Join(d, "request"), req, 0644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = filepath.Join(d, "w")
	cmd.Env = append([]string{"ZZDIR=" + d, "PATH=" + filepath.Join(d, "bin"), "HOME=" + filepath.Join(d, "home"), "TMPDIR=" + filepath.Join(d, "tmp")}, extra...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: false}}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = time.Second
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	rerr := cmd.Run()
	o := &Outcome{Text: buf.String()}
	b, err := os.ReadFile(filepath.Join(d, "outcome"))
	if err == nil {
		if err := json.Unmarshal(b, o); err != nil {
			return nil, err
		}
		o.Race = strings.Contains(o.Text, "DATA RACE")
		return o, nil
	}
	if ctx.Err() != nil {
		o.Hang = true
		return o, nil
	}
	if cmd.ProcessState == nil {
		return nil, fmt.Errorf("native replay did not start: %v", rerr)
	}
	if strings.Contains(o.Text, "all goroutines are asleep") {
		o.Hang = true
		return o, nil
	}
	o.Crash = true
	return o, nil
}
