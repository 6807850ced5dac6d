package main

import (
	"fmt"
	"hash/maphash"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Decision is one resolved choice of a path.
type Decision struct {
	Val    uint64
	Forced bool
}

// Job is a path prefix still to be explored, with a model satisfying it.
type Job struct {
	prefix []Decision
	model  Model
}

// HarnessOpts are the settings of one harness.
type HarnessOpts struct {
	Name       string
	Pkg        string
	Terminates bool
	StepLimit  int64
	Budget     time.Duration
	MaxPaths   int64
	Thorough   bool
	AfterCand  time.Duration // how long to go on after the first candidate
}

// Candidate is a violation found by the solver, before replay.
type Candidate struct {
	Harness string            `json:"harness"`
	Pkg     string            `json:"pkg"`
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Order   []string          `json:"order"`
	Sched   []schedStep       `json:"sched,omitempty"`
	Conc    bool              `json:"concurrent,omitempty"`
	GC      bool              `json:"gc,omitempty"`
	Obs     []string          `json:"observed,omitempty"`
	Replay  string            `json:"replay,omitempty"`
}

// Violation is a reported candidate.
type Violation = Candidate

// Stats accumulates what one harness exploration did.
type Stats struct {
	Paths, Done, Assumed, Pruned, Killed int64
	Unsup                                map[string]int64
	Limits                               map[string]int64
	Asserts, AssertsSMT, AssertsConst    int64
	Steps                                int64
	Branches, Forced                     int64
	Reached                              map[string]int64
	MaxDec                               int
	States                               int64
	Leftover                             int64
	Queries, SatN, UnsatN, UnkN          int
	SolverTime                           time.Duration
	Wall                                 time.Duration
	SymInputs                            int
	Samples                              []PathSample
	Cuts                                 []PathSample // paths that could not be encoded to their end
	Nodes, Edges, CacheHits              int64
}

// PathSample is one explored path with a model, for native validation.
type PathSample struct {
	Inputs map[string]uint64
	Order  []string
	Obs    []string
	Sched  []schedStep
}

// Explorer runs one harness to exhaustion or budget.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*Job
	active   int
	stop     bool
	opts     *HarnessOpts
	st       Stats
	cands    map[string]*Candidate
	corder   []string
	deadline time.Time
	seed     maphash.Seed
	seen     sync.Map
	nseen    atomic.Int64
	nsample  int
	ncut     int
	rnd      uint64
}

func NewExplorer(o *HarnessOpts) *Explorer {
	x := &Explorer{opts: o, cands: map[string]*Candidate{}, seed: maphash.MakeSeed()}
	x.cond = sync.NewCond(&x.mu)
	x.st.Unsup = map[string]int64{}
	x.st.Limits = map[string]int64{}
	x.st.Reached = map[string]int64{}
	x.deadline = time.Now().Add(o.Budget)
	x.jobs = []*Job{{model: Model{}}}
	x.rnd = 88172645463325252
	return x
}

func (x *Explorer) timeUp() bool { return time.Now().After(x.deadline) }

func (x *Explorer) push(j *Job) {
	x.mu.Lock()
	x.jobs = append(x.jobs, j)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) take() *Job {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || x.timeUp() || (x.opts.MaxPaths > 0 && x.st.Paths >= x.opts.MaxPaths) {
			x.stop = true
			x.cond.Broadcast()
			return nil
		}
		if n := len(x.jobs); n > 0 {
			// Mostly depth first; now and then a random job, so that every
			// part of the space gets its share if the budget runs out.
			x.rnd ^= x.rnd << 13
			x.rnd ^= x.rnd >> 7
			x.rnd ^= x.rnd << 17
			if n > 1 && n < 200000 && x.rnd>>20%4 == 0 {
				i := int(x.rnd >> 24 % uint64(n))
				x.jobs[i], x.jobs[n-1] = x.jobs[n-1], x.jobs[i]
			}
			j := x.jobs[n-1]
			x.jobs = x.jobs[:n-1]
			x.active++
			x.st.Paths++
			return j
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return nil
		}
		x.cond.Wait()
	}
}

func (x *Explorer) release() {
	x.mu.Lock()
	x.active--
	x.mu.Unlock()
	x.cond.Broadcast()
}

// candidate records a violation candidate for the current path.
func (x *Explorer) candidate(m *Machine, msg string) {
	x.candidateModel(m, msg, m.path.model)
}

func (x *Explorer) candidateModel(m *Machine, msg string, model Model) {
	x.mu.Lock()
	defer x.mu.Unlock()
	key := msg
	if len(key) > 200 {
		key = key[:200]
	}
	// A few candidates per message, in case one does not reproduce.
	for k := 0; ; k++ {
		kk := fmt.Sprintf("%s#%d", key, k)
		if _, ok := x.cands[kk]; !ok {
			key = kk
			break
		}
		if k == 4 {
			return
		}
	}
	if len(x.cands) >= 40 {
		return
	}
	x.corder = append(x.corder, key)
	if d := time.Now().Add(x.opts.AfterCand); x.opts.AfterCand > 0 && d.Before(x.deadline) {
		x.deadline = d
	}
	c := &Candidate{Harness: x.opts.Name, Pkg: x.opts.Pkg, Msg: msg, Inputs: map[string]uint64{}}
	for _, in := range m.path.inputs {
		v := in.Val
		if in.Term != nil {
			v = in.Term.Eval(model)
		}
		c.Inputs[in.Name] = v
		c.Order = append(c.Order, in.Name)
	}
	c.Sched = append([]schedStep(nil), m.path.sched...)
	c.Conc = m.path.explore
	c.GC = m.path.gcmode
	for _, o := range m.path.obsv {
		c.Obs = append(c.Obs, o.name+"="+m.showModel(o.v, model))
	}
	x.cands[key] = c
}

// --- decisions

func (m *Machine) addPC(t *Term) {
	if t == m.tt.True {
		return
	}
	if m.path.pcset[t] {
		return
	}
	m.path.pc = append(m.path.pc, t)
	m.path.pcset[t] = true
	if t.op == OpAnd {
		m.markAnd(t)
	}
}

func (m *Machine) markAnd(t *Term) {
	if t.op == OpAnd {
		m.markAnd(t.a)
		m.markAnd(t.b)
		return
	}
	m.path.pcset[t] = true
}

func (m *Machine) replaying() bool { return m.path.idx < len(m.path.job.prefix) }

func (m *Machine) nextDecision() (Decision, bool) {
	ps := m.path
	if ps.idx < len(ps.job.prefix) {
		d := ps.job.prefix[ps.idx]
		ps.idx++
		ps.dec = append(ps.dec, d)
		return d, true
	}
	return Decision{}, false
}

func (m *Machine) record(d Decision) {
	atomic.AddInt64(&m.x.st.Nodes, 1)
	atomic.AddInt64(&m.x.st.Edges, 1)
	m.path.dec = append(m.path.dec, d)
	m.path.idx++
}

func (m *Machine) fork(val uint64, model Model) {
	pre := make([]Decision, len(m.path.dec)+1)
	copy(pre, m.path.dec)
	pre[len(m.path.dec)] = Decision{Val: val}
	atomic.AddInt64(&m.x.st.Edges, 1)
	m.x.push(&Job{prefix: pre, model: model})
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) branch(t *Term) bool {
	if t.op == OpConst {
		return t.val != 0
	}
	if m.path == nil {
		m.unsupported("symbolic branch in initialization")
	}
	if m.path.pcset[t] {
		return true
	}
	nt := m.tt.Not(t)
	if m.path.pcset[nt] {
		return false
	}
	m.x.stBranch()
	if d, ok := m.nextDecision(); ok {
		if !d.Forced {
			if d.Val != 0 {
				m.addPC(t)
			} else {
				m.addPC(nt)
			}
		}
		return d.Val != 0
	}
	cur := t.Eval(m.path.model)
	me, other := t, nt
	if cur == 0 {
		me, other = nt, t
	}
	res, mdl := m.check(other)
	switch res {
	case Sat:
		m.fork(1-cur, mdl)
		m.record(Decision{Val: cur})
		m.addPC(me)
	case Unsat:
		m.record(Decision{Val: cur, Forced: true})
	default:
		m.x.note("solver unknown")
		m.record(Decision{Val: cur})
		m.addPC(me)
	}
	return cur != 0
}

func (x *Explorer) stBranch() { atomic.AddInt64(&x.st.Branches, 1) }

func (x *Explorer) note(s string) {
	x.mu.Lock()
	x.st.Limits[s]++
	x.mu.Unlock()
}

// qres is a remembered answer of the solver.
type qres struct {
	res SatResult
	mdl Model
}

// check queries PC ∧ t. Only constraints sharing variables with t matter, so
// the query is sliced; the returned model is completed from the current one.
func (m *Machine) check(t *Term) (SatResult, Model) {
	pc := m.slice(t)
	key := make([]byte, 0, 4*len(pc)+4)
	for _, c := range pc {
		key = append(key, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	key = append(key, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	var res SatResult
	var mdl Model
	if r, ok := m.qcache[string(key)]; ok {
		res, mdl = r.res, r.mdl
		atomic.AddInt64(&m.x.st.CacheHits, 1)
	} else {
		res, mdl = m.sol.Check(pc, t)
		if res != Unknown {
			if m.qcache == nil || len(m.qcache) > 100000 {
				m.qcache = map[string]qres{}
			}
			m.qcache[string(key)] = qres{res, mdl}
		}
	}
	if res == Sat {
		full := make(Model, len(m.path.model)+len(mdl))
		for k, v := range m.path.model {
			full[k] = v
		}
		for k, v := range mdl {
			full[k] = v
		}
		mdl = full
	}
	return res, mdl
}

func (m *Machine) termVars(t *Term) []string {
	if v, ok := m.varCache[t]; ok {
		return v
	}
	vs := map[string]*Term{}
	t.vars(map[*Term]bool{}, vs)
	r := make([]string, 0, len(vs))
	for n := range vs {
		r = append(r, n)
	}
	if m.varCache == nil || len(m.varCache) > 200000 {
		m.varCache = map[*Term][]string{}
	}
	m.varCache[t] = r
	return r
}

func (m *Machine) slice(t *Term) []*Term {
	pc := m.path.pc
	if len(pc) == 0 {
		return nil
	}
	in := map[string]bool{}
	for _, v := range m.termVars(t) {
		in[v] = true
	}
	use := make([]bool, len(pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if use[i] {
				continue
			}
			vs := m.termVars(c)
			hit := false
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				use[i] = true
				n++
				for _, v := range vs {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	r := make([]*Term, 0, n)
	for i, c := range pc {
		if use[i] {
			r = append(r, c)
		}
	}
	return r
}

// pickValue chooses a feasible value of x, recorded for replay.
func (m *Machine) pickValue(x *Term) uint64 {
	if d, ok := m.nextDecision(); ok {
		return d.Val
	}
	v := x.Eval(m.path.model)
	m.record(Decision{Val: v, Forced: true})
	return v
}

func (m *Machine) freshName(name string) string {
	k := m.path.nvars[name]
	m.path.nvars[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

// choice is an n-way nondeterministic choice, represented by a solver variable.
func (m *Machine) choice(name string, n int) int {
	full := m.freshName(name)
	v := m.choiceNamed(full, n)
	m.path.inputs = append(m.path.inputs, Input{Name: full, Val: uint64(v), Kind: "choice"})
	return v
}

func (m *Machine) choiceQuiet(name string, n int) int {
	return m.choiceNamed(m.freshName(name), n)
}

func (m *Machine) choiceNamed(full string, n int) int {
	if n <= 1 {
		return 0
	}
	m.x.stBranch()
	v := m.tt.Var(16, full)
	if d, ok := m.nextDecision(); ok {
		m.addPC(m.tt.Eq(v, m.tt.Const(16, d.Val)))
		return int(d.Val)
	}
	for i := n - 1; i >= 1; i-- {
		mdl := make(Model, len(m.path.model)+1)
		for k, x := range m.path.model {
			mdl[k] = x
		}
		mdl[full] = uint64(i)
		m.fork(uint64(i), mdl)
	}
	m.record(Decision{Val: 0})
	mdl := make(Model, len(m.path.model)+1)
	for k, x := range m.path.model {
		mdl[k] = x
	}
	mdl[full] = 0
	m.path.model = mdl
	m.addPC(m.tt.Eq(v, m.tt.Const(16, 0)))
	return 0
}

// input makes a fresh symbolic input of width w.
func (m *Machine) input(name string, w uint8, kind string) *Term {
	full := m.freshName(name)
	t := m.tt.Var(w, full)
	m.path.inputs = append(m.path.inputs, Input{Name: full, W: w, Term: t, Kind: kind})
	m.path.symbolic++
	return t
}

func (m *Machine) assume(t *Term) {
	if t.op == OpConst {
		if t.val == 0 {
			panic(pathEnd{kind: endAssume})
		}
		return
	}
	if m.path.pcset[t] {
		return
	}
	if m.replaying() {
		// Was feasible when first passed on this prefix; the job's model
		// satisfies it as well.
		m.addPC(t)
		return
	}
	if t.Eval(m.path.model) != 0 {
		m.addPC(t)
		return
	}
	res, mdl := m.check(t)
	switch res {
	case Sat:
		m.path.model = mdl
		m.addPC(t)
	case Unsat:
		panic(pathEnd{kind: endAssume})
	default:
		m.x.note("solver unknown in assume")
		panic(pathEnd{kind: endAssume})
	}
}

// assert checks that t holds for every value on this path.
func (m *Machine) assert(t *Term, msg string) {
	x := m.x
	replay := m.replaying()
	if !replay {
		atomic.AddInt64(&x.st.Asserts, 1)
	}
	if t.op == OpConst {
		if t.val != 0 {
			if !replay {
				atomic.AddInt64(&x.st.AssertsConst, 1)
			}
			return
		}
		x.candidate(m, msg)
		panic(pathEnd{endViolation, msg})
	}
	if m.path.pcset[t] {
		return
	}
	if replay {
		// Already checked on the path that forked this one.
		m.addPC(t)
		return
	}
	atomic.AddInt64(&x.st.AssertsSMT, 1)
	nt := m.tt.Not(t)
	if nt.Eval(m.path.model) != 0 {
		x.candidateModel(m, msg, m.path.model)
		// Continue where the assertion holds, if anywhere.
		res, mdl := m.check(t)
		if res != Sat {
			panic(pathEnd{endViolation, msg})
		}
		m.path.model = mdl
		m.addPC(t)
		return
	}
	res, mdl := m.check(nt)
	switch res {
	case Sat:
		x.candidateModel(m, msg, mdl)
		m.addPC(t)
	case Unsat:
		m.addPC(t) // implied; keeps later slices precise
	default:
		x.note("solver unknown in assert")
		m.addPC(t)
	}
}

// visit prunes schedules that reach a state already explored.
func (x *Explorer) visit(m *Machine) {
	if m.replaying() {
		return
	}
	h := m.stateHash()
	if _, dup := x.seen.LoadOrStore(h, true); dup {
		panic(pathEnd{kind: endPruned})
	}
	x.nseen.Add(1)
}

// --- running

func (m *Machine) runJob(x *Explorer, j *Job, entry *Func) {
	m.x = x
	m.opts = x.opts
	m.path = &PathState{
		job: j, model: j.model, pcset: map[*Term]bool{}, nvars: map[string]int{},
		reached: map[string]bool{}, syncVC: map[cellKey]VC{}, conds: map[cellKey]*condState{},
		preempt: -1, host: map[string]any{}, nextAddr: 0xc000010000,
	}
	m.steps = 0
	m.limit = x.opts.StepLimit
	m.killed = false
	m.mainEnd = make(chan pathEnd, 1)
	saveID := m.nextID
	g0 := &G{id: 0, path: "0", wake: make(chan struct{})}
	m.gs = []*G{g0}
	m.g = g0
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		end := pathEnd{kind: endDone}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if m.killed {
						if _, ok := r.(pathEnd); !ok {
							panic(r)
						}
						return
					}
					end = m.classify(g0, r)
				}
			}()
			m.call(nil, entry, nil, nil)
		}()
		g0.done = true
		if !m.killed {
			m.finish(end)
		}
	}()
	end := <-m.mainEnd
	m.killed = true
	for _, g := range m.gs {
		if !g.done {
			g := g
			go func() {
				select {
				case g.wake <- struct{}{}:
				case <-time.After(5 * time.Second):
				}
			}()
		}
	}
	m.wg.Wait()
	x.finish(m, end)
	m.rollback()
	for _, mp := range m.undoMap {
		mp.shad = nil
	}
	m.undoMap = nil
	for _, o := range m.path.addrs {
		o.addr = nil
	}
	m.path = nil
	m.g = nil
	m.gs = nil
	m.nextID = saveID
	if len(m.tt.tab) > 3_000_000 {
		m.tt = NewTermTable()
		m.varCache = nil
		m.qcache = nil
		m.sol.stack = nil
		m.sol.Close()
		m.sol.start()
	}
}

func (x *Explorer) finish(m *Machine, end pathEnd) {
	x.mu.Lock()
	defer x.mu.Unlock()
	st := &x.st
	st.Steps += m.steps
	if len(m.path.dec) > st.MaxDec {
		st.MaxDec = len(m.path.dec)
	}
	if m.path.symbolic > st.SymInputs {
		st.SymInputs = m.path.symbolic
	}
	for l := range m.path.reached {
		st.Reached[l]++
	}
	switch end.kind {
	case endDone:
		st.Done++
		x.sample(m, &st.Samples, &x.nsample, maxSamples)
	case endAssume:
		st.Assumed++
	case endPruned:
		st.Pruned++
	case endUnsupported:
		st.Unsup[trunc(end.msg, 400)]++
		x.sample(m, &st.Cuts, &x.ncut, maxCuts)
	case endLimit:
		st.Limits[trunc(end.msg, 300)]++
		x.sample(m, &st.Cuts, &x.ncut, maxCuts)
	case endKilled:
		st.Killed++
	}
	for _, n := range m.path.notes {
		st.Limits[n]++
	}
}

const (
	maxSamples = 24
	maxCuts    = 64
)

// sample keeps some paths for native runs (reservoir).
func (x *Explorer) sample(m *Machine, list *[]PathSample, n *int, max int) {
	*n++
	k := len(*list)
	if k >= max {
		x.rnd ^= x.rnd << 13
		x.rnd ^= x.rnd >> 7
		x.rnd ^= x.rnd << 17
		r := int(x.rnd % uint64(*n))
		if r >= max {
			return
		}
		k = r
	}
	s := PathSample{Inputs: map[string]uint64{}, Sched: append([]schedStep(nil), m.path.sched...)}
	for _, in := range m.path.inputs {
		v := in.Val
		if in.Term != nil {
			v = in.Term.Eval(m.path.model)
		}
		s.Inputs[in.Name] = v
		s.Order = append(s.Order, in.Name)
	}
	for _, o := range m.path.obsv {
		s.Obs = append(s.Obs, o.name+"="+m.showModel(o.v, m.path.model))
	}
	if k == len(*list) {
		*list = append(*list, s)
	} else {
		(*list)[k] = s
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// showModel renders a string/int/bool observation under a model.
func (m *Machine) showModel(v Value, mdl Model) string {
	switch p := v.p.(type) {
	case *Term:
		return fmt.Sprint(p.Eval(mdl))
	case string:
		return fmt.Sprintf("%q", p)
	case *SymStr:
		bs := make([]byte, len(p.b))
		for i, x := range p.b {
			if t := x.sym(); t != nil {
				bs[i] = byte(t.Eval(mdl))
			} else {
				bs[i] = byte(x.n)
			}
		}
		return fmt.Sprintf("%q", string(bs))
	}
	return fmt.Sprint(v.n)
}

// Explore runs harness entry on the given machines.
func (x *Explorer) Explore(ms []*Machine, entry *Func) {
	t0 := time.Now()
	var wg sync.WaitGroup
	q0 := make([]Solver, len(ms))
	for i, m := range ms {
		q0[i] = *m.sol
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j := x.take()
				if j == nil {
					return
				}
				m.runJob(x, j, entry)
				x.release()
			}
		}()
	}
	wg.Wait()
	st := &x.st
	st.Leftover = int64(len(x.jobs))
	st.States = x.nseen.Load()
	for i, m := range ms {
		st.Queries += m.sol.Queries - q0[i].Queries
		st.SatN += m.sol.SatN - q0[i].SatN
		st.UnsatN += m.sol.UnsatN - q0[i].UnsatN
		st.UnkN += m.sol.UnkN - q0[i].UnkN
		st.SolverTime += m.sol.Time - q0[i].Time
	}
	st.Wall = time.Since(t0)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
