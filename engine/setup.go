package main

import (
	"bufio"
	"errors"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// allowPkgs are the packages interpreted from source. All others are denied:
// calls into them must be intrinsics or be redirected to models.
var allowPkgs = map[string]bool{}

func init() {
	globalInit["os.ErrNotExist"] = copyGlobal("io/fs", "ErrNotExist")
	globalInit["os.ErrExist"] = copyGlobal("io/fs", "ErrExist")
	globalInit["os.ErrPermission"] = copyGlobal("io/fs", "ErrPermission")
	globalInit["os.ErrInvalid"] = copyGlobal("io/fs", "ErrInvalid")
	globalInit["os.ErrClosed"] = copyGlobal("io/fs", "ErrClosed")
	globalInit["os.Stdin"] = newFileGlobal
	globalInit["os.Stdout"] = newFileGlobal
	globalInit["os.Stderr"] = newFileGlobal
	globalInit["os.Args"] = func(m *Machine) Value { return m.strSliceVal([]Value{vStr("prog")}) }
	globalInit["internal/bytealg.MaxLen"] = func(m *Machine) Value { return vInt(63) }
	for _, p := range strings.Fields(`
errors io io/fs bytes strings bufio unicode unicode/utf8 unicode/utf16 strconv fmt
internal/fmtsort path path/filepath internal/filepathlite internal/stringslite internal/itoa
internal/oserror internal/bytealg internal/byteorder internal/race internal/asan internal/msan
cmp iter slices maps sort math math/bits context sync sync/atomic time hash
encoding encoding/json encoding/hex encoding/base64 encoding/binary
regexp regexp/syntax internal/reflectlite
go/types go/token go/ast go/constant go/version internal/gover go/scanner go/parser
go/build/constraint go/internal/typeparams internal/types/errors container/heap
flag embed internal/lazyregexp go/doc go/doc/comment text/template text/template/parse
gopkg.in/yaml.v3 internal/goversion
github.com/bobg/errors github.com/bobg/go-generics/v2/internal github.com/bobg/go-generics/v2/iter
github.com/bobg/go-generics/v2/maps github.com/bobg/go-generics/v2/set github.com/bobg/go-generics/v2/slices
golang.org/x/exp/maps golang.org/x/exp/slices golang.org/x/exp/constraints
github.com/gibson042/canonicaljson-go golang.org/x/mod/semver golang.org/x/mod/module
github.com/benbjohnson/clock golang.org/x/mod/modfile golang.org/x/mod/internal/lazyregexp golang.org/x/sync/errgroup golang.org/x/sync/singleflight golang.org/x/sync/semaphore
hash/fnv hash/crc32 hash/crc64 hash/adler32 text/tabwriter encoding/csv encoding/base32 encoding/pem container/list container/ring
log log/internal io/ioutil net/url html text/scanner github.com/bobg/go-generics/v2/parallel github.com/pkg/errors
github.com/bobg/fab github.com/bobg/fab/sqlite github.com/bobg/fab/golang github.com/bobg/fab/proto
github.com/bobg/fab/ts github.com/bobg/fab/cmd/fab
`) {
		allowPkgs[p] = true
	}
	allowPkgs[ndPath] = true
	allowPkgs[vmPath] = true
}

func denied(path string) string {
	if allowPkgs[path] || strings.HasPrefix(path, repoPath+"/zzverif/") {
		return ""
	}
	return "package " + path + " is outside the encoded code"
}

func inRepo(path string) bool {
	return (path == repoPath || strings.HasPrefix(path, repoPath+"/")) && path != ndPath && path != vmPath
}

// allowFn are functions of denied packages that are interpreted all the same.
var allowFn = map[string]bool{
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.underlyingErrorIs": true, "os.underlyingError": true,
	"reflect.TypeFor": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(reflect.StructField).IsExported": true, "(*reflect.ValueError).Error": true, "(reflect.Method).IsExported": true,
	"reflect.VisibleFields": true,
	"(syscall.Errno).Is":    true, "(syscall.Errno).Temporary": true, "(syscall.Errno).Timeout": true,
	"(*os/exec.Error).Error": true, "(*os/exec.Error).Unwrap": true,
	"(*os.SyscallError).Error": true, "(*os.SyscallError).Unwrap": true,
	"(golang.org/x/tools/go/packages.Error).Error": true, "golang.org/x/tools/go/packages.Visit": true,
	"(*os.LinkError).Error": true, "(*os.LinkError).Unwrap": true,
}

func copyGlobal(pkg, name string) func(m *Machine) Value {
	return func(m *Machine) Value {
		o := m.globalByName(pkg, name)
		return o.cells[0]
	}
}

// globalInit gives the initial values of globals of denied packages.
var globalInit = map[string]func(m *Machine) Value{}

func newFileGlobal(m *Machine) Value {
	o := m.newObj(m.p.namedType("os", "File"))
	return Value{p: o}
}

// globalOK are globals of denied packages that may start out zero.
var globalOK = map[string]bool{
	"internal/cpu.X86": true, "math.useFMA": true, "database/sql.ErrNoRows": true, "database/sql.ErrTxDone": true, "database/sql.ErrConnDone": true,
	"math/rand.globalRandGenerator": true,
}

func init() {
	globalInit["database/sql.ErrNoRows"] = func(m *Machine) Value {
		return m.mkError("sql: no rows in result set")
	}
	globalInit["database/sql.ErrTxDone"] = func(m *Machine) Value {
		return m.mkError("sql: transaction has already been committed or rolled back")
	}
	globalInit["database/sql.ErrConnDone"] = func(m *Machine) Value {
		return m.mkError("sql: connection is already closed")
	}
	for name, n := range map[string]uint64{"os.Interrupt": 2, "os.Kill": 9} {
		n := n
		globalInit[name] = func(m *Machine) Value {
			return Value{p: &Iface{t: m.p.namedType("syscall", "Signal"), v: vInt(int64(n))}}
		}
	}
	globalInit["os/exec.ErrNotFound"] = func(m *Machine) Value {
		return m.mkError("executable file not found in $PATH")
	}
	globalInit["os/exec.ErrDot"] = func(m *Machine) Value {
		return m.mkError("cannot run executable found relative to current directory")
	}
}

func (m *Machine) mkError(s string) Value {
	t := m.p.namedType("errors", "errorString")
	o := m.newObj(t)
	o.setup = true
	o.cells[0] = vStr(s)
	return Value{p: &Iface{t: m.p.ptrTo(t), v: Value{p: o}}}
}

const goRoot123 = "/opt/veriftools/go1.23.12"

// goEnv is the environment for building the code under test.
func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOFLAGS", "GOROOT", "GOSUMDB", "GONOSUMDB", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(goRoot123 + "/bin/go"); err == nil {
		path = goRoot123 + "/bin:" + path
	}
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off")
}

// Loaded is a loaded and partly compiled program.
type Loaded struct {
	p       *Program
	overlay map[string][]byte
	files   map[string]string // virtual path -> real path
	harness map[string]string // harness name -> package path
	bounds  map[string]string // harness name -> bounds text
	loadT   time.Duration
	chanRng map[string]map[int]bool // file name -> which of its range statements are over channels
	genDir  string                  // scratch directory with generated sources, or ""
}

// harnessOverlay maps virtual files in the repository to harness files.
func harnessOverlay(repo, verif string, pkgs []string, id string) (map[string]string, error) {
	files := map[string]string{}
	add := func(dir, vdir, prefix string) error {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") && (prefix == "" || forID(e.Name(), id)) {
				files[filepath.Join(vdir, prefix+e.Name())] = filepath.Join(dir, e.Name())
			}
		}
		return nil
	}
	if err := add(verif+"/harness/nd", repo+"/zzverif/nd", ""); err != nil {
		return nil, err
	}
	if err := add(verif+"/harness/vm", repo+"/zzverif/vm", ""); err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		d := p
		if d == "." {
			d = "root"
		}
		if err := add(verif+"/harness/"+strings.ReplaceAll(d, "/", "_"), filepath.Join(repo, p), "zz_verif_"); err != nil && !errors.Is(err, os.ErrNotExist) {
			return nil, err
		}
	}
	return files, nil
}

// forID reports whether a harness file belongs to a property: its name
// contains the property's id, or is common.go.
func forID(name, id string) bool {
	base := strings.TrimSuffix(name, ".go")
	if id == "" || base == "common" {
		return true
	}
	for _, t := range strings.Split(base, "_") {
		if t == strings.ToLower(id) {
			return true
		}
	}
	return false
}

// harnessPkgs finds the packages with harnesses for a property.
func harnessPkgs(verif, id string) ([]string, error) {
	ents, err := os.ReadDir(verif + "/harness")
	if err != nil {
		return nil, err
	}
	var r []string
	for _, e := range ents {
		switch e.Name() {
		case "nd", "vm", "ndrun", "vsync", "vatomic", "zzgen", "zzrules":
			continue
		}
		fs, err := os.ReadDir(verif + "/harness/" + e.Name())
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if f.Name() != "common.go" && forID(f.Name(), id) {
				p := strings.ReplaceAll(e.Name(), "_", "/")
				if p == "root" {
					p = "."
				}
				r = append(r, p)
				break
			}
		}
	}
	return r, nil
}

// Load type-checks the given repository packages with harnesses and builds SSA.
func Load(repo, verif string, pkgs []string, id string) (*Loaded, error) {
	t0 := time.Now()
	files, err := harnessOverlay(repo, verif, pkgs, id)
	if err != nil {
		return nil, err
	}
	l := &Loaded{overlay: map[string][]byte{}, files: files, harness: map[string]string{}, bounds: map[string]string{}}
	for _, p := range pkgs {
		if p == mainsPkg {
			if l.genDir, err = generateMains(repo, verif, files); err != nil {
				fmt.Printf("DROPPED main programs: %v\n", err)
			}
		}
	}
	for v, r := range files {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		l.overlay[v] = b
	}
	env := goEnv()
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     repo,
		Env:     append(env, "CGO_ENABLED=0", "GOFLAGS="),
		Overlay: l.overlay,
	}
	pats := []string{"./zzverif/nd", "./zzverif/vm"}
	for _, p := range pkgs {
		if p == "." {
			pats = append(pats, ".")
		} else {
			pats = append(pats, "./"+p)
		}
	}
reload:
	init, err := packages.Load(cfg, pats...)
	if err != nil {
		return l, fmt.Errorf("loading: %w", err)
	}
	var errs []string
	packages.Visit(init, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if inRepo(p.PkgPath) || p.PkgPath == ndPath || p.PkgPath == vmPath {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		// A harness that refers to something private that is gone is left out.
		dropped, other := map[string]string{}, false
		for _, e := range errs {
			f := e
			if i := strings.Index(e, ".go:"); i >= 0 {
				f = e[:i+3]
			}
			if strings.HasPrefix(filepath.Base(f), "zz_verif_") && files[f] != "" {
				if dropped[f] == "" {
					dropped[f] = e
				}
			} else {
				other = true
			}
		}
		if !other && len(dropped) < len(files) {
			for f, e := range dropped {
				fmt.Printf("DROPPED %s: %s\n", filepath.Base(files[f]), e)
				delete(files, f)
				delete(l.overlay, f)
			}
			goto reload
		}
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return l, fmt.Errorf("the code does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	p := NewProgram(prog)
	p.intr = map[string]intrinsic{}
	registerIntrinsics(p.intr)
	p.redir = redirects()
	p.embeds = map[string]embedVar{}
	packages.Visit(init, nil, func(pk *packages.Package) {
		if inRepo(pk.PkgPath) {
			embedVars(pk, p.embeds)
		}
	})
	l.p = p
	l.chanRng = map[string]map[int]bool{}
	packages.Visit(init, nil, func(pk *packages.Package) {
		if inRepo(pk.PkgPath) && pk.TypesInfo != nil {
			chanRanges(pk, l.chanRng)
		}
	})
	// Build in parallel the packages that will be interpreted.
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, pk := range prog.AllPackages() {
		if denied(pk.Pkg.Path()) == "" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				pk.Build()
				<-sem
			}()
		}
	}
	wg.Wait()
	for _, ip := range init {
		pk := prog.Package(ip.Types)
		if pk == nil {
			continue
		}
		for n, mem := range pk.Members {
			if _, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, "VH_") {
				l.harness[n] = pk.Pkg.Path()
			}
		}
	}
	l.loadT = time.Since(t0)
	return l, nil
}

// redirects maps functions to their models: each exported function of the
// model package with a "//model: NAME" line in its doc comment.
func redirects() map[string]string { return redirTable }

var redirTable = map[string]string{}

// readRedirects scans the model sources for "//model:" lines.
func readRedirects(dir string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := os.Open(filepath.Join(dir, e.Name()))
		if err != nil {
			return err
		}
		var pend []string
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			ln := sc.Text()
			if strings.HasPrefix(ln, "//model:") {
				pend = append(pend, strings.Fields(ln[8:])...)
				continue
			}
			if strings.HasPrefix(ln, "func ") && len(pend) > 0 {
				name := ln[5:]
				if i := strings.IndexAny(name, "([ "); i > 0 {
					name = name[:i]
				}
				for _, p := range pend {
					redirTable[p] = vmPath + "." + name
				}
				pend = nil
			}
		}
		f.Close()
	}
	return nil
}

// NewMachine makes a worker with its own copy of the initialized globals.
func (l *Loaded) NewMachine(solver []string) (*Machine, error) {
	m := &Machine{p: l.p, tt: NewTermTable(), sol: NewSolver(solver)}
	p := l.p
	m.uint8T = p.ti(types.Typ[types.Uint8])
	m.intT = p.ti(types.Typ[types.Int])
	m.stringT = p.ti(types.Typ[types.String])
	m.boolT = p.ti(types.Typ[types.Bool])
	m.anyT = p.ti(types.NewInterfaceType(nil, nil))
	m.errorT = p.ti(types.Universe.Lookup("error").Type())
	m.emptyIfaceT = m.anyT
	return m, nil
}

// Init runs the package initializers of pkgs (and what they import).
func (m *Machine) Init(pkgs []string) (err error) {
	m.inSetup = true
	m.limit = 1 << 40
	m.g = &G{id: 0, path: "init"}
	m.gs = []*G{m.g}
	defer func() {
		m.inSetup = false
		m.g = nil
		m.gs = nil
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				err = errors.New("initialization: " + r.msg)
			case *goPanic:
				m.g = &G{}
				err = errors.New("initialization panics: " + m.panicText(r) + " at " + r.where)
			default:
				panic(r)
			}
		}
	}()
	m.x = NewExplorer(&HarnessOpts{})
	for _, path := range pkgs {
		pk := m.p.pkgs[path]
		if pk == nil {
			return fmt.Errorf("package %s not loaded", path)
		}
		m.call(nil, m.p.fun(pk.Func("init")), nil, nil)
	}
	m.undo = nil
	return nil
}

// chanRanges notes the range statements over channels, by their position among
// the range statements of the file.
func chanRanges(pk *packages.Package, res map[string]map[int]bool) {
	for _, f := range pk.Syntax {
		name := pk.Fset.Position(f.Package).Filename
		k := 0
		ast.Inspect(f, func(nd ast.Node) bool {
			r, ok := nd.(*ast.RangeStmt)
			if !ok {
				return true
			}
			if t := pk.TypesInfo.TypeOf(r.X); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					if res[name] == nil {
						res[name] = map[int]bool{}
					}
					res[name][k] = true
				}
			}
			k++
			return true
		})
	}
}
