package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Program is the compiled form of the code under analysis, shared by workers.
type Program struct {
	prog  *ssa.Program
	fset  *token.FileSet
	types *Types

	mu      sync.Mutex
	funcs   map[*ssa.Function]*Func
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	byName  map[string]*ssa.Function // package-level functions and methods of model packages
	pkgs    map[string]*ssa.Package
	intr    map[string]intrinsic
	redir   map[string]string
	sites   atomic.Int64
	sizes   types.Sizes
	embeds  map[string]embedVar
}

// Call is one invocation of an intrinsic; fr is the calling frame.
type Call struct {
	m    *Machine
	g    *G
	fr   *Frame
	fn   *Func
	args []Value
}

type intrinsic func(c *Call) Value

type opnd int

type konst struct {
	v    Value
	glob int // global index + 1
}

type instr func(fr *Frame)

type Block struct {
	idx    int
	ops    []instr
	term   func(fr *Frame) *Block
	npreds int
	n      int
}

type Func struct {
	p        *Program
	fn       *ssa.Function
	name     string
	intr     intrinsic
	fast     func(c *Call) (Value, bool)
	redirect string
	deny     string
	pre      string // name of the scheduling point before a call from the repository
	once     sync.Once
	nslots   int
	nparams  int
	nfree    int
	consts   []konst
	blocks   []*Block
	recov    *Block
	hasDefer bool
	used     atomic.Int32
	cnt      atomic.Int64
	res      *TI
	inRepo   bool
	model    bool
	mapOrd   bool
	pkg      string
}

func NewProgram(prog *ssa.Program) *Program {
	p := &Program{
		prog: prog, fset: prog.Fset, types: &Types{},
		funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{},
		byName: map[string]*ssa.Function{}, pkgs: map[string]*ssa.Package{},
	}
	for _, pk := range prog.AllPackages() {
		p.pkgs[pk.Pkg.Path()] = pk
	}
	return p
}

func (p *Program) ti(t types.Type) *TI { return p.types.of(t) }

func (p *Program) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.glist)
	p.globals[g] = i
	p.glist = append(p.glist, g)
	return i
}

// originName is the name under which intrinsics and redirects are registered.
func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) fun(fn *ssa.Function) *Func {
	p.mu.Lock()
	if f, ok := p.funcs[fn]; ok {
		p.mu.Unlock()
		return f
	}
	p.mu.Unlock()
	name := originName(fn)
	f := &Func{p: p, fn: fn, name: name}
	f.intr, f.fast = p.intr[name], fast[name]
	f.pre = schedPoint(name)
	if f.intr == nil && fn.Synthetic == "" || fn.Origin() != nil {
		f.redirect = p.redir[name]
	}
	if f.redirect == "" && f.intr == nil {
		f.redirect = p.redir[name]
	}
	var path string
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if pk != nil {
		path = pk.Pkg.Path()
	}
	f.pkg = path
	if fn.Synthetic == "" || fn.Origin() != nil {
		f.deny = denied(path)
		if allowFn[name] {
			f.deny = ""
		}
	}
	if fn.Synthetic == "package initializer" && denied(path) != "" {
		f.intr = func(c *Call) Value { return Value{} }
	}
	f.inRepo = inRepo(path)
	f.model = path == vmPath || path == ndPath
	f.mapOrd = !f.model && (strings.Contains(strings.SplitN(path, "/", 2)[0], ".") || path == "maps")
	sig := fn.Signature
	switch sig.Results().Len() {
	case 0:
	case 1:
		f.res = p.ti(sig.Results().At(0).Type())
	default:
		f.res = p.ti(sig.Results())
	}
	p.mu.Lock()
	if g, ok := p.funcs[fn]; ok {
		f = g
	} else {
		p.funcs[fn] = f
	}
	p.mu.Unlock()
	return f
}

func constValue(c *ssa.Const, ti *TI) Value {
	if c.Value == nil {
		return Value{}
	}
	switch ti.kind {
	case KBool:
		return vBool(constant.BoolVal(c.Value))
	case KInt:
		if ti.sgn {
			v := constant.ToInt(c.Value)
			i, _ := constant.Int64Val(v)
			return Value{n: normInt(ti, uint64(i))}
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return Value{n: normInt(ti, u)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		return Value{n: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return vStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return vStr(string(rune(i)))
	case KComplex:
		r, _ := constant.Float64Val(constant.Real(c.Value))
		i, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{p: complex(r, i)}
	case KIface:
		return Value{}
	}
	return Value{}
}

// fcomp compiles one function.
type fcomp struct {
	p     *Program
	f     *Func
	slots map[ssa.Value]int
	kidx  map[ssa.Value]opnd
	bmap  map[*ssa.BasicBlock]*Block
}

func (f *Func) ensure() {
	f.once.Do(func() { f.compile() })
}

func (f *Func) compile() {
	fn := f.fn
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		return
	}
	c := &fcomp{p: f.p, f: f, slots: map[ssa.Value]int{}, kidx: map[ssa.Value]opnd{}, bmap: map[*ssa.BasicBlock]*Block{}}
	for _, p := range fn.Params {
		c.slots[p] = f.nslots
		f.nslots++
	}
	f.nparams = f.nslots
	for _, v := range fn.FreeVars {
		c.slots[v] = f.nslots
		f.nslots++
	}
	f.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = f.nslots
				f.nslots++
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	for _, b := range fn.Blocks {
		c.bmap[b] = &Block{idx: b.Index}
	}
	if fn.Recover != nil {
		if c.bmap[fn.Recover] == nil {
			c.bmap[fn.Recover] = &Block{idx: fn.Recover.Index}
		}
		f.recov = c.bmap[fn.Recover]
	}
	for _, b := range fn.Blocks {
		c.block(b)
	}
	if fn.Recover != nil && f.recov.term == nil {
		for _, in := range fn.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := c.slots[v]; !ok {
					c.slots[v] = f.nslots
					f.nslots++
				}
			}
		}
		c.block(fn.Recover)
	}
	for _, b := range fn.Blocks {
		f.blocks = append(f.blocks, c.bmap[b])
	}
}

func (c *fcomp) op(v ssa.Value) opnd {
	if s, ok := c.slots[v]; ok {
		return opnd(s)
	}
	if k, ok := c.kidx[v]; ok {
		return k
	}
	var k konst
	switch v := v.(type) {
	case *ssa.Const:
		k.v = constValue(v, c.p.ti(v.Type()))
	case *ssa.Global:
		k.glob = c.p.globalIdx(v) + 1
	case *ssa.Function:
		k.v = Value{p: &Closure{fn: c.p.fun(v)}}
	case *ssa.Builtin:
		k.v = Value{}
	default:
		panic(fmt.Sprintf("operand %T in %s", v, c.f.name))
	}
	c.f.consts = append(c.f.consts, k)
	o := opnd(^(len(c.f.consts) - 1))
	c.kidx[v] = o
	return o
}

type move struct{ dst, src opnd }

func (c *fcomp) edge(from, to *ssa.BasicBlock) func(fr *Frame) *Block {
	tb := c.bmap[to]
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var moves []move
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		moves = append(moves, move{opnd(c.slots[phi]), c.op(phi.Edges[pi])})
	}
	switch len(moves) {
	case 0:
		return func(fr *Frame) *Block { return tb }
	case 1:
		mv := moves[0]
		return func(fr *Frame) *Block {
			fr.slots[mv.dst] = fr.get(mv.src)
			return tb
		}
	}
	return func(fr *Frame) *Block {
		var buf [8]Value
		tmp := buf[:0]
		for _, mv := range moves {
			tmp = append(tmp, fr.get(mv.src))
		}
		for i, mv := range moves {
			fr.slots[mv.dst] = tmp[i]
		}
		return tb
	}
}

func (c *fcomp) block(b *ssa.BasicBlock) {
	blk := c.bmap[b]
	for i, in := range b.Instrs {
		if i == len(b.Instrs)-1 {
			blk.term = c.terminator(b, in)
			continue
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if o := c.instr(in); o != nil {
			blk.ops = append(blk.ops, o)
		}
	}
	blk.n = len(blk.ops) + 1
}

func (c *fcomp) terminator(b *ssa.BasicBlock, in ssa.Instruction) func(fr *Frame) *Block {
	switch in := in.(type) {
	case *ssa.Jump:
		return c.edge(b, b.Succs[0])
	case *ssa.If:
		cond := c.op(in.Cond)
		// Both edges may lead to the same block; pick by order.
		t := c.edgeN(b, 0)
		f := c.edgeN(b, 1)
		pos := in.Cond.Pos()
		_ = pos
		return func(fr *Frame) *Block {
			v := fr.get(cond)
			var taken bool
			if v.p == nil {
				taken = v.n != 0
			} else {
				taken = fr.m.branch(v.p.(*Term))
			}
			if taken {
				return t(fr)
			}
			return f(fr)
		}
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			return func(fr *Frame) *Block { fr.result = Value{}; return nil }
		case 1:
			o := c.op(in.Results[0])
			return func(fr *Frame) *Block { fr.result = fr.get(o); return nil }
		}
		var os []opnd
		for _, r := range in.Results {
			os = append(os, c.op(r))
		}
		return func(fr *Frame) *Block {
			vs := make([]Value, len(os))
			for i, o := range os {
				vs[i] = fr.get(o)
			}
			fr.result = vTuple(vs...)
			return nil
		}
	case *ssa.Panic:
		o := c.op(in.X)
		return func(fr *Frame) *Block {
			panic(&goPanic{v: fr.get(o), where: fr.stack()})
		}
	}
	panic(fmt.Sprintf("terminator %T", in))
}

func (c *fcomp) edgeN(b *ssa.BasicBlock, n int) func(fr *Frame) *Block {
	to := b.Succs[n]
	if b.Succs[0] != b.Succs[1] {
		return c.edge(b, to)
	}
	// Identical successors: the n'th occurrence among the preds.
	tb := c.bmap[to]
	cnt := 0
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			if cnt == n {
				pi = i
				break
			}
			cnt++
		}
	}
	var moves []move
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		moves = append(moves, move{opnd(c.slots[phi]), c.op(phi.Edges[pi])})
	}
	return func(fr *Frame) *Block {
		tmp := make([]Value, len(moves))
		for i, mv := range moves {
			tmp[i] = fr.get(mv.src)
		}
		for i, mv := range moves {
			fr.slots[mv.dst] = tmp[i]
		}
		return tb
	}
}

// usedFuncs are the functions called since the last resetUsed, without harnesses.
func (p *Program) usedFuncs() []*Func {
	p.mu.Lock()
	defer p.mu.Unlock()
	var r []*Func
	seen := map[string]bool{}
	for _, f := range p.funcs {
		if f.used.Load() == 0 || seen[f.name] {
			continue
		}
		if pos := f.fn.Pos(); pos.IsValid() && strings.Contains(p.fset.Position(pos).Filename, "zz_verif_") {
			continue
		}
		seen[f.name] = true
		r = append(r, f)
	}
	return r
}

func (p *Program) resetUsed() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, f := range p.funcs {
		f.used.Store(0)
	}
}

// profiling makes functions count the instructions they execute ($GOSYM_PROF).
var profiling = os.Getenv("GOSYM_PROF") != ""

func (p *Program) profile() {
	if !profiling {
		return
	}
	var fs []*Func
	for _, f := range p.funcs {
		if f.cnt.Load() > 0 {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].cnt.Load() > fs[j].cnt.Load() })
	for i, f := range fs {
		if i == 40 {
			break
		}
		fmt.Printf("%12d %s\n", f.cnt.Load(), f.name)
	}
}

// schedPoint names the scheduling point at calls of functions of the standard
// library that synchronize and whose bodies are interpreted.
func schedPoint(name string) string {
	if name == "(*sync.Once).Do" {
		return "Once.Do"
	}
	if strings.HasPrefix(name, "(*sync.Map).") {
		switch name[len("(*sync.Map)."):] {
		case "Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range", "Clear":
			return "sync.Map"
		}
	}
	return ""
}
