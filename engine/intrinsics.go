package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"syscall"
)

const (
	repoPath = "github.com/bobg/fab"
	ndPath   = repoPath + "/zzverif/nd"
	vmPath   = repoPath + "/zzverif/vm"
)

// yieldFrom yields when the operation is performed directly by code of the
// repository; the internal synchronization of libraries is not interleaved.
func (m *Machine) yieldFrom(fr *Frame, what string) {
	for fr != nil && (strings.HasPrefix(fr.fn.name, "(*sync/atomic.") || fr.fn.fn != nil && fr.fn.fn.Synthetic != "") {
		fr = fr.caller
	}
	if fr != nil && fr.fn.inRepo {
		m.yield(what)
	}
}

func (m *Machine) lockFrom(fr *Frame, k cellKey, what string) {
	m.yieldFrom(fr, what)
	m.block(what, func() bool { return k.o.cells[k.off].n == 0 })
	m.setCell(k.o, k.off, Value{n: 1})
	m.acquire(k)
}

func (c *Call) at(i int) (*Obj, int) {
	if c.args[i].p == nil {
		c.m.nilDeref(c.fr)
	}
	o, ok := c.args[i].p.(*Obj)
	if !ok {
		c.m.unsupported("pointer to symbolic cell in " + c.fn.name)
	}
	return o, int(c.args[i].n)
}

// bytesOf returns the elements of a slice or string value.
func bytesOf(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case *Slice:
		return s.o.cells[s.base : s.base+s.len]
	}
	return strBytes(v)
}

func (m *Machine) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return m.tt.Fals
	}
	r := m.tt.True
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			if a[i].n != b[i].n {
				return m.tt.Fals
			}
			continue
		}
		r = m.tt.And(r, m.tt.Eq(m.term(a[i], m.uint8T), m.term(b[i], m.uint8T)))
		if r == m.tt.Fals {
			return r
		}
	}
	return r
}

func registerIntrinsics(in map[string]intrinsic) {
	registerReflect(in)
	registerSync(in)
	registerBytealg(in)
	registerND(in)

	none := func(c *Call) Value { return Value{} }
	for _, n := range []string{
		"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Callers",
		"(runtime.errorString).RuntimeError", "(runtime.plainError).RuntimeError",
		"(*strings.Builder).copyCheck", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge",
		"internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write",
		"internal/race.ReadRange", "internal/race.WriteRange",
		"time.initLocal", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value",
		"runtime/debug.SetGCPercent", "sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "unique.runtime_registerUniqueMapCleanup",
	} {
		in[n] = none
	}
	in["internal/godebug.New"] = func(c *Call) Value {
		t := c.m.p.namedType("internal/godebug", "Setting")
		return Value{p: c.m.newObj(t)}
	}
	in["(*internal/godebug.Setting).Name"] = none
	in["runtime.Caller"] = func(c *Call) Value { return vTuple(Value{}, Value{}, Value{}, Value{}) }
	in["runtime.NumCPU"] = func(c *Call) Value { return vInt(4) }
	in["runtime.GOMAXPROCS"] = func(c *Call) Value { return vInt(4) }
	in["(runtime.errorString).Error"] = func(c *Call) Value {
		return strConcat(vStr("runtime error: "), c.args[0])
	}
	in["(runtime.plainError).Error"] = func(c *Call) Value { return c.args[0] }
	in["(syscall.Errno).Error"] = func(c *Call) Value {
		return vStr(syscall.Errno(c.int(0)).Error())
	}
	ident := func(c *Call) Value { return c.args[0] }
	in["internal/abi.NoEscape"] = ident
	in["internal/abi.Escape"] = ident
	in["math.Float64bits"] = ident
	in["math.Float64frombits"] = ident
	in["math.Float32bits"] = func(c *Call) Value { return vUint(uint64(math.Float32bits(float32(f64(c.args[0]))))) }
	in["math.Float32frombits"] = func(c *Call) Value {
		return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(c.args[0].n))))}
	}
	fl := func(f func(float64) float64) intrinsic {
		return func(c *Call) Value { return Value{n: math.Float64bits(f(f64(c.args[0])))} }
	}
	in["math.Floor"] = fl(math.Floor)
	in["math.Ceil"] = fl(math.Ceil)
	in["math.Trunc"] = fl(math.Trunc)
	in["math.Sqrt"] = fl(math.Sqrt)
	in["math.Abs"] = fl(math.Abs)
	in["math.archFloor"] = fl(math.Floor)
	in["math.archCeil"] = fl(math.Ceil)
	in["math.archTrunc"] = fl(math.Trunc)
	in["math.archLog"] = fl(math.Log)
	in["math.archExp"] = fl(math.Exp)
	in["strconv.ParseFloat"] = nil
	delete(in, "strconv.ParseFloat")
	in["strconv.FormatFloat"] = func(c *Call) Value {
		return vStr(strconv.FormatFloat(f64(c.args[0]), byte(c.int(1)), int(c.int(2)), int(c.int(3))))
	}
	in["strconv.AppendFloat"] = func(c *Call) Value {
		s := strconv.FormatFloat(f64(c.args[1]), byte(c.int(2)), int(c.int(3)), int(c.int(4)))
		b := strBytes(vStr(s))
		return c.m.appendCells(c.args[0], c.m.uint8T, b, len(b))
	}
	now := func(c *Call) int64 {
		if c.m.path == nil {
			return 0
		}
		return c.m.path.vtime
	}
	in["time.now"] = func(c *Call) Value {
		t := now(c)
		return vTuple(vInt(1700000000+t/1e9), vInt(t%1e9), vInt(1+t))
	}
	in["time.runtimeNano"] = func(c *Call) Value { return vInt(1 + now(c)) }
	in["time.Now"] = func(c *Call) Value {
		fn := c.m.p.lookupFunc("time.Unix")
		t := now(c)
		return c.m.call(c.fr, c.m.p.fun(fn), []Value{vInt(1700000000 + t/1e9), vInt(t % 1e9)}, nil)
	}
	in["time.Sleep"] = func(c *Call) Value {
		c.m.sleep(c.args[0])
		return Value{}
	}
	in["runtime.NumGoroutine"] = func(c *Call) Value {
		n := int64(0)
		for _, g := range c.m.gs {
			if !g.done {
				n++
			}
		}
		return vInt(n)
	}
	in["syscall.Getpagesize"] = func(c *Call) Value { return vInt(4096) }
	in["strings.runtime_memequal"] = nil
	delete(in, "strings.runtime_memequal")
}

func registerSync(in map[string]intrinsic) {
	in["(*sync.Mutex).Lock"] = func(c *Call) Value { c.m.lockFrom(c.fr, c.recvKey(), "Lock"); return Value{} }
	in["(*sync.Mutex).TryLock"] = func(c *Call) Value {
		k := c.recvKey()
		c.m.yieldFrom(c.fr, "TryLock")
		if k.o.cells[k.off].n != 0 {
			return vBool(false)
		}
		c.m.setCell(k.o, k.off, Value{n: 1})
		c.m.acquire(k)
		return vBool(true)
	}
	// released is a scheduling point after a releasing operation, in fine exploration.
	released := func(c *Call, what string) Value {
		if c.m.path != nil && c.m.path.fine {
			c.m.yieldFrom(c.fr, what)
		}
		return Value{}
	}
	in["(*sync.Mutex).Unlock"] = func(c *Call) Value {
		c.m.unlockMutex(c.fr, c.recvKey())
		return released(c, "Unlock")
	}

	// RWMutex: cell 0 writer, cell 1 readers.
	in["(*sync.RWMutex).Lock"] = func(c *Call) Value {
		k := c.recvKey()
		c.m.yieldFrom(c.fr, "Lock")
		c.m.block("Lock", func() bool { return k.o.cells[k.off].n == 0 && k.o.cells[k.off+1].n == 0 })
		c.m.setCell(k.o, k.off, Value{n: 1})
		c.m.acquire(k)
		c.m.acquire(cellKey{k.o, k.off + 1})
		return Value{}
	}
	in["(*sync.RWMutex).Unlock"] = func(c *Call) Value {
		c.m.unlockMutex(c.fr, c.recvKey())
		return released(c, "Unlock")
	}
	in["(*sync.RWMutex).RLock"] = func(c *Call) Value {
		k := c.recvKey()
		c.m.yieldFrom(c.fr, "RLock")
		c.m.block("RLock", func() bool { return k.o.cells[k.off].n == 0 })
		c.m.setCell(k.o, k.off+1, Value{n: k.o.cells[k.off+1].n + 1})
		c.m.acquire(k)
		return Value{}
	}
	in["(*sync.RWMutex).RUnlock"] = func(c *Call) Value {
		k := c.recvKey()
		if k.o.cells[k.off+1].n == 0 {
			c.m.x.candidate(c.m, "fatal error: sync: RUnlock of unlocked RWMutex at "+frStack(c.fr))
			panic(pathEnd{endViolation, "RUnlock of unlocked RWMutex"})
		}
		c.m.release(cellKey{k.o, k.off + 1})
		c.m.setCell(k.o, k.off+1, Value{n: k.o.cells[k.off+1].n - 1})
		return released(c, "RUnlock")
	}

	wgAdd := func(c *Call, d int64) Value {
		k := c.recvKey()
		n := int64(k.o.cells[k.off].n) + d
		if n < 0 {
			c.m.goPanicStr(c.fr, "sync: negative WaitGroup counter")
		}
		if d < 0 {
			c.m.release(k)
		}
		c.m.setCell(k.o, k.off, vInt(n))
		if d < 0 {
			return released(c, "WaitGroup.Done")
		}
		return Value{}
	}
	in["(*sync.WaitGroup).Add"] = func(c *Call) Value { return wgAdd(c, c.int(1)) }
	in["(*sync.WaitGroup).Done"] = func(c *Call) Value { return wgAdd(c, -1) }
	in["(*sync.WaitGroup).Wait"] = func(c *Call) Value {
		k := c.recvKey()
		c.m.yieldFrom(c.fr, "WaitGroup.Wait")
		c.m.block("WaitGroup.Wait", func() bool { return k.o.cells[k.off].n == 0 })
		c.m.acquire(k)
		return Value{}
	}

	in["(*sync.Cond).Wait"] = func(c *Call) Value {
		m := c.m
		k := c.recvKey()
		l, _ := k.o.cells[k.off].p.(*Iface)
		if l == nil {
			m.nilDeref(c.fr)
		}
		cs := m.cond(k)
		w := &waiter{g: m.g}
		cs.waiters = append(cs.waiters, w)
		m.callMethod(c.fr, l, "Unlock")
		m.block("Cond.Wait", func() bool { return w.done })
		if m.path != nil && m.path.race {
			m.g.vc = m.g.vc.join(w.vc)
		}
		m.callMethod(c.fr, l, "Lock")
		return Value{}
	}
	wake := func(c *Call, all bool) Value {
		m := c.m
		k := c.recvKey()
		m.yieldFrom(c.fr, "Cond.Signal")
		cs := m.cond(k)
		for len(cs.waiters) > 0 {
			w := cs.waiters[0]
			cs.waiters = cs.waiters[1:]
			w.done = true
			if m.path.race {
				w.vc = m.g.vc.clone()
			}
			if !all {
				break
			}
		}
		if m.path.race {
			m.g.tick()
		}
		return Value{}
	}
	in["(*sync.Cond).Signal"] = func(c *Call) Value { return wake(c, false) }
	in["(*sync.Cond).Broadcast"] = func(c *Call) Value { return wake(c, true) }

	in["(*sync.Pool).Get"] = func(c *Call) Value {
		o, off := c.at(0)
		pt := c.m.p.namedType("sync", "Pool")
		st := pt.under.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				fv := o.cells[off+pt.offs[i]]
				if fv.p == nil {
					return Value{}
				}
				return c.m.callValue(c.fr, fv, nil)
			}
		}
		return Value{}
	}
	in["(*sync.Pool).Put"] = func(c *Call) Value { return Value{} }

	// sync/atomic
	type szT struct {
		name string
		ti   func(m *Machine) *TI
	}
	atomicOp := func(name string, mk func(ti *TI) intrinsic) {
		for _, s := range []struct {
			n string
			k types.BasicKind
		}{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}, {"Pointer", types.UnsafePointer}} {
			s := s
			var inner intrinsic
			in["sync/atomic."+name+s.n] = func(c *Call) Value {
				if inner == nil {
					_ = inner
				}
				return mk(c.m.p.ti(types.Typ[s.k]))(c)
			}
		}
	}
	sync := func(c *Call) (*Obj, int) {
		o, off := c.at(0)
		c.m.yieldFrom(c.fr, "atomic")
		k := cellKey{o, off}
		c.m.acquire(k)
		c.m.release(k)
		return o, off
	}
	atomicOp("Load", func(ti *TI) intrinsic {
		return func(c *Call) Value {
			o, off := sync(c)
			return o.cells[off]
		}
	})
	atomicOp("Store", func(ti *TI) intrinsic {
		return func(c *Call) Value {
			o, off := sync(c)
			c.m.setCell(o, off, c.args[1])
			return Value{}
		}
	})
	atomicOp("Swap", func(ti *TI) intrinsic {
		return func(c *Call) Value {
			o, off := sync(c)
			old := o.cells[off]
			c.m.setCell(o, off, c.args[1])
			return old
		}
	})
	atomicOp("CompareAndSwap", func(ti *TI) intrinsic {
		return func(c *Call) Value {
			o, off := sync(c)
			if !c.m.branch(c.m.eq(c.fr, ti, o.cells[off], c.args[1])) {
				return vBool(false)
			}
			c.m.setCell(o, off, c.args[2])
			return vBool(true)
		}
	})
	atomicOp("Add", func(ti *TI) intrinsic {
		return func(c *Call) Value {
			o, off := sync(c)
			v := c.m.fromTerm(c.m.tt.Bin(OpAdd, c.m.term(o.cells[off], ti), c.m.term(c.args[1], ti)), ti)
			c.m.setCell(o, off, v)
			return v
		}
	})
	atomicOp("And", func(ti *TI) intrinsic {
		return func(c *Call) Value {
			o, off := sync(c)
			old := o.cells[off]
			c.m.setCell(o, off, c.m.fromTerm(c.m.tt.Bin(OpBAnd, c.m.term(old, ti), c.m.term(c.args[1], ti)), ti))
			return old
		}
	})
	atomicOp("Or", func(ti *TI) intrinsic {
		return func(c *Call) Value {
			o, off := sync(c)
			old := o.cells[off]
			c.m.setCell(o, off, c.m.fromTerm(c.m.tt.Bin(OpBOr, c.m.term(old, ti), c.m.term(c.args[1], ti)), ti))
			return old
		}
	})
	in["(*sync/atomic.Value).Load"] = func(c *Call) Value { o, off := sync(c); return o.cells[off] }
	in["(*sync/atomic.Value).Store"] = func(c *Call) Value {
		o, off := sync(c)
		c.m.setCell(o, off, c.args[1])
		return Value{}
	}
	in["(*sync/atomic.Value).Swap"] = func(c *Call) Value {
		o, off := sync(c)
		old := o.cells[off]
		c.m.setCell(o, off, c.args[1])
		return old
	}
	in["(*sync/atomic.Value).CompareAndSwap"] = func(c *Call) Value {
		o, off := sync(c)
		if !c.m.branch(c.m.eq(c.fr, c.m.anyT, o.cells[off], c.args[1])) {
			return vBool(false)
		}
		c.m.setCell(o, off, c.args[2])
		return vBool(true)
	}
}

func registerBytealg(in map[string]intrinsic) {
	p := "internal/bytealg."
	in[p+"Equal"] = func(c *Call) Value {
		return c.m.fromTerm(c.m.bytesEq(bytesOf(c.args[0]), bytesOf(c.args[1])), c.m.boolT)
	}
	cmp := func(c *Call) Value {
		m := c.m
		a, b := bytesOf(c.args[0]), bytesOf(c.args[1])
		for i := 0; i < len(a) && i < len(b); i++ {
			x, y := m.term(a[i], m.uint8T), m.term(b[i], m.uint8T)
			if m.branch(m.tt.Eq(x, y)) {
				continue
			}
			if m.branch(m.tt.Cmp(OpULt, x, y)) {
				return vInt(-1)
			}
			return vInt(1)
		}
		switch {
		case len(a) < len(b):
			return vInt(-1)
		case len(a) > len(b):
			return vInt(1)
		}
		return Value{}
	}
	in[p+"Compare"] = cmp
	in[p+"CompareString"] = cmp
	count := func(c *Call) Value {
		m := c.m
		n := 0
		for _, x := range bytesOf(c.args[0]) {
			if m.branch(m.tt.Eq(m.term(x, m.uint8T), m.term(c.args[1], m.uint8T))) {
				n++
			}
		}
		return vInt(int64(n))
	}
	in[p+"Count"] = count
	in[p+"CountString"] = count
	idxByte := func(c *Call) Value {
		m := c.m
		if s, ok := c.args[0].p.(string); ok && c.args[1].p == nil {
			return vInt(int64(strings.IndexByte(s, byte(c.args[1].n))))
		}
		for i, x := range bytesOf(c.args[0]) {
			if m.branch(m.tt.Eq(m.term(x, m.uint8T), m.term(c.args[1], m.uint8T))) {
				return vInt(int64(i))
			}
		}
		return vInt(-1)
	}
	in[p+"IndexByte"] = idxByte
	in[p+"IndexByteString"] = idxByte
	lastByte := func(c *Call) Value {
		m := c.m
		b := bytesOf(c.args[0])
		for i := len(b) - 1; i >= 0; i-- {
			if m.branch(m.tt.Eq(m.term(b[i], m.uint8T), m.term(c.args[1], m.uint8T))) {
				return vInt(int64(i))
			}
		}
		return vInt(-1)
	}
	in[p+"LastIndexByte"] = lastByte
	in[p+"LastIndexByteString"] = lastByte
	index := func(c *Call) Value {
		m := c.m
		if a, ok := goStr2(c.args[0]); ok {
			if b, ok := goStr2(c.args[1]); ok {
				return vInt(int64(strings.Index(a, b)))
			}
		}
		a, b := bytesOf(c.args[0]), bytesOf(c.args[1])
		for i := 0; i+len(b) <= len(a); i++ {
			if m.branch(m.bytesEq(a[i:i+len(b)], b)) {
				return vInt(int64(i))
			}
		}
		return vInt(-1)
	}
	in[p+"Index"] = index
	in[p+"IndexString"] = index
	in["strings.Index"] = index
	in["bytes.Index"] = index
	in[p+"Cutover"] = func(c *Call) Value { return vInt(4) }
	in[p+"MakeNoZero"] = func(c *Call) Value {
		n := int(c.int(0))
		return c.m.newSlice(c.m.uint8T, n, n)
	}
}

// goStr2 is the concrete text of a string or byte slice.
func goStr2(v Value) (string, bool) {
	if s, ok := v.p.(*Slice); ok {
		bs := make([]byte, s.len)
		for i := range bs {
			x := s.o.cells[s.base+i]
			if x.p != nil {
				return "", false
			}
			bs[i] = byte(x.n)
		}
		return string(bs), true
	}
	return goStr(v)
}

func (m *Machine) setModel(name string, v uint64) {
	if _, ok := m.path.model[name]; ok {
		return
	}
	mdl := make(Model, len(m.path.model)+1)
	for k, x := range m.path.model {
		mdl[k] = x
	}
	mdl[name] = v
	m.path.model = mdl
}

// inAlphabet constrains t to the bytes of alpha.
func (m *Machine) inAlphabet(t *Term, alpha string) *Term {
	var set [256]bool
	for i := 0; i < len(alpha); i++ {
		set[alpha[i]] = true
	}
	r := m.tt.Fals
	for i := 0; i < 256; {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && set[j+1] {
			j++
		}
		c := m.tt.Eq(t, m.tt.Const(8, uint64(i)))
		if j > i {
			c = m.tt.And(m.tt.Cmp(OpULe, m.tt.Const(8, uint64(i)), t), m.tt.Cmp(OpULe, t, m.tt.Const(8, uint64(j))))
		}
		r = m.tt.Or(r, c)
		i = j + 1
	}
	return r
}

// symByte makes a symbolic byte named full, restricted to alpha if non-empty.
func (m *Machine) symByte(full, alpha string) Value {
	t := m.tt.Var(8, full)
	m.path.inputs = append(m.path.inputs, Input{Name: full, W: 8, Term: t, Kind: "byte"})
	m.path.symbolic++
	if len(alpha) == 1 {
		m.setModel(full, uint64(alpha[0]))
		m.addPC(m.tt.Eq(t, m.tt.Const(8, uint64(alpha[0]))))
		return Value{n: uint64(alpha[0])}
	}
	if alpha != "" {
		m.setModel(full, uint64(alpha[0]))
		m.addPC(m.inAlphabet(t, alpha))
	}
	return Value{p: t}
}

func registerND(in map[string]intrinsic) {
	p := ndPath + "."
	in[p+"Symbolic"] = func(c *Call) Value { return vBool(true) }
	in[p+"Bool"] = func(c *Call) Value {
		return Value{p: c.m.input(c.str(0), 0, "bool")}
	}
	in[p+"Byte"] = func(c *Call) Value {
		return Value{p: c.m.input(c.str(0), 8, "byte")}
	}
	in[p+"Uint64"] = func(c *Call) Value {
		return Value{p: c.m.input(c.str(0), 64, "uint64")}
	}
	in[p+"Int"] = func(c *Call) Value {
		m := c.m
		lo, hi := c.int(1), c.int(2)
		if lo == hi {
			return vInt(lo)
		}
		t := m.input(c.str(0), 64, "int")
		m.setModel(t.name, uint64(lo))
		m.addPC(m.tt.And(m.tt.Cmp(OpSLe, m.tt.Const(64, uint64(lo)), t), m.tt.Cmp(OpSLe, t, m.tt.Const(64, uint64(hi)))))
		return Value{p: t}
	}
	in[p+"Choice"] = func(c *Call) Value {
		return vInt(int64(c.m.choice(c.str(0), int(c.int(1)))))
	}
	str := func(c *Call, minLen, maxLen int, alpha string) []Value {
		m := c.m
		full := m.freshName(c.str(0))
		n := minLen
		if maxLen > minLen {
			k := m.choiceNamed(full+".len", maxLen-minLen+1)
			n = minLen + k
		}
		m.path.inputs = append(m.path.inputs, Input{Name: full + ".len", Val: uint64(n), Kind: "len"})
		b := make([]Value, n)
		for i := range b {
			b[i] = m.symByte(fmt.Sprintf("%s[%d]", full, i), alpha)
		}
		return b
	}
	in[p+"Str"] = func(c *Call) Value { return mkStr(str(c, 0, int(c.int(1)), c.str(2))) }
	in[p+"StrN"] = func(c *Call) Value {
		n := int(c.int(1))
		return mkStr(str(c, n, n, c.str(2)))
	}
	in[p+"Bytes"] = func(c *Call) Value {
		return c.m.bytesSlice(str(c, 0, int(c.int(1)), c.str(2)), c.m.uint8T)
	}
	in[p+"Assume"] = func(c *Call) Value {
		c.m.assume(c.m.term(c.args[0], c.m.boolT))
		return Value{}
	}
	in[p+"Assert"] = func(c *Call) Value {
		c.m.assert(c.m.term(c.args[0], c.m.boolT), dispStr(c.args[1]))
		return Value{}
	}
	in[p+"Reach"] = func(c *Call) Value {
		c.m.path.reached[c.str(0)] = true
		return Value{}
	}
	in[p+"Observe"] = func(c *Call) Value {
		ifc, _ := c.args[1].p.(*Iface)
		v := vStr("nil")
		if ifc != nil {
			v = ifc.v
			if s, ok := v.p.(*Slice); ok {
				v = mkStr(append([]Value(nil), s.o.cells[s.base:s.base+s.len]...))
			}
			if ifc.t.kind == KString && v.p == nil {
				v = Value{p: ""}
			}
		}
		c.m.path.obsv = append(c.m.path.obsv, obsEnt{c.str(0), v})
		return Value{}
	}
	in[p+"Tier"] = func(c *Call) Value {
		if c.m.x.opts.Thorough {
			return c.args[1]
		}
		return c.args[0]
	}
	in[p+"GC"] = func(c *Call) Value { c.m.gc(); return Value{} }
	in[p+"Yield"] = func(c *Call) Value { c.m.yield(c.str(0)); return Value{} }
	in[p+"AtomicBegin"] = func(c *Call) Value { c.m.path.atomicD++; return Value{} }
	in[p+"AtomicEnd"] = func(c *Call) Value { c.m.path.atomicD--; return Value{} }
	in[p+"Explore"] = func(c *Call) Value {
		m := c.m
		m.path.explore = true
		m.path.preempt = int(c.int(0))
		if c.args[1].n != 0 {
			m.path.race = true
			m.g.tick()
		}
		return Value{}
	}
	in[p+"Fine"] = func(c *Call) Value { c.m.path.fine = true; return Value{} }
	in[p+"StopExplore"] = func(c *Call) Value {
		c.m.path.fine = false
		c.m.path.explore = false
		c.m.path.race = false
		return Value{}
	}
	in[p+"MapOrder"] = func(c *Call) Value { c.m.path.mapOrder = int(c.int(0)); return Value{} }
	in[p+"HashOf"] = func(c *Call) Value {
		m := c.m
		kind := c.str(0)
		return m.bytesSlice(m.hashOf(kind, append([]Value(nil), bytesOf(c.args[1])...)), m.uint8T)
	}
	in[p+"Unsupported"] = func(c *Call) Value { c.m.unsupported("model: " + dispStr(c.args[0])); return Value{} }
	in[p+"Concrete"] = func(c *Call) Value { // a concrete copy of a string, forking over its values
		b := append([]Value(nil), strBytes(c.args[0])...)
		for i := range b {
			if b[i].p != nil {
				b[i] = Value{n: uint64(c.m.concretize(b[i], c.m.uint8T))}
			}
		}
		return mkStr(b)
	}
	in[p+"IsConcrete"] = func(c *Call) Value {
		_, ok := goStr2(c.args[0])
		return vBool(ok)
	}
}

func realDigest(kind string, b []byte) []byte {
	switch kind {
	case "sha224":
		s := sha256.Sum224(b)
		return s[:]
	case "sha256":
		s := sha256.Sum256(b)
		return s[:]
	case "sha1":
		s := sha1.Sum(b)
		return s[:]
	case "md5":
		s := md5.Sum(b)
		return s[:]
	case "sha512":
		s := sha512.Sum512(b)
		return s[:]
	}
	panic("hash " + kind)
}

// hashOf is an idealised (collision-free) hash function: equal inputs give
// equal digests, different inputs different ones.
func (m *Machine) hashOf(kind string, in []Value) []Value {
	conc := true
	bs := make([]byte, len(in))
	for i, x := range in {
		if x.p != nil {
			conc = false
		}
		bs[i] = byte(x.n)
	}
	for _, e := range m.path.hashes {
		if e.kind != kind || len(e.in) != len(in) || conc && e.conc {
			continue
		}
		if m.branch(m.bytesEq(e.in, in)) {
			return cellsOf(e.out)
		}
	}
	var out []byte
	if conc {
		out = realDigest(kind, bs)
	} else {
		out = realDigest(kind, []byte(fmt.Sprintf("\x00symbolic digest %d", len(m.path.hashes))))
	}
	for _, e := range m.path.hashes {
		if conc && e.conc && string(e.out) == string(out) {
			return cellsOf(out)
		}
	}
	m.path.hashes = append(m.path.hashes, hashEnt{kind: kind, in: in, out: out, conc: conc})
	return cellsOf(out)
}

func cellsOf(b []byte) []Value {
	r := make([]Value, len(b))
	for i, x := range b {
		r[i].n = uint64(x)
	}
	return r
}

// panicText renders the value of a Go panic.
func (m *Machine) panicText(gp *goPanic) string {
	ifc, _ := gp.v.p.(*Iface)
	if ifc == nil {
		return "nil"
	}
	if ifc.t.kind == KString {
		if gp.rt {
			return dispStr(ifc.v)
		}
		return dispStr(ifc.v)
	}
	if m.hasMethod(ifc, "Error") {
		var s string
		func() {
			defer func() {
				if recover() != nil {
					s = ifc.t.String()
				}
			}()
			s = dispStr(m.callMethod(m.g.top, ifc, "Error"))
		}()
		return s
	}
	return ifc.t.String()
}
