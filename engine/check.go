package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// harnessInfo is what the doc comment of a harness says.
type harnessInfo struct {
	name, doc       string
	budget, tbudget time.Duration
	steps           int64
	rep             int // native repetitions for nondeterminism the replay cannot fix (map order)
	thoroughOnly    bool
	labels          []string
	file            string
	samples         int
}

var reachRE = regexp.MustCompile(`nd\.Reach\("([^"]*)"\)`)

// harnessInfos reads the directives of the harness functions.
func harnessInfos(files map[string]string) (map[string]*harnessInfo, error) {
	r := map[string]*harnessInfo{}
	for v, f := range files {
		if !strings.Contains(v, "/zz_verif_") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		lines := strings.Split(string(b), "\n")
		var cur *harnessInfo
		var doc []string
		for _, ln := range lines {
			switch {
			case strings.HasPrefix(ln, "//"):
				doc = append(doc, strings.TrimSpace(ln[2:]))
				continue
			case strings.HasPrefix(ln, "func VH_"):
				name := ln[5:]
				name = name[:strings.IndexByte(name, '(')]
				cur = &harnessInfo{name: name, budget: 20 * time.Second, steps: 5_000_000, rep: 1, file: f, samples: 12}
				var text []string
				for _, d := range doc {
					if !strings.HasPrefix(d, "vh:") {
						text = append(text, strings.TrimPrefix(d, name+": "))
						continue
					}
					for _, kv := range strings.Fields(d[3:]) {
						k, val, _ := strings.Cut(kv, "=")
						var err error
						switch k {
						case "budget":
							cur.budget, err = time.ParseDuration(val)
						case "tbudget":
							cur.tbudget, err = time.ParseDuration(val)
						case "steps":
							cur.steps, err = strconv.ParseInt(val, 10, 64)
						case "rep":
							cur.rep, err = strconv.Atoi(val)
						case "samples":
							cur.samples, err = strconv.Atoi(val)
						case "thorough":
							cur.thoroughOnly = true
						default:
							err = fmt.Errorf("unknown directive %s", k)
						}
						if err != nil {
							return nil, fmt.Errorf("%s: %s: %w", f, name, err)
						}
					}
				}
				cur.doc = strings.Join(text, " ")
				r[name] = cur
			case strings.HasPrefix(ln, "}"):
				cur = nil
			}
			if cur != nil {
				for _, m := range reachRE.FindAllStringSubmatch(ln, -1) {
					cur.labels = append(cur.labels, m[1])
				}
			}
			doc = nil
		}
	}
	return r, nil
}

// known is an entry of the known-findings file.
type known struct {
	prop, harness string
	re            *regexp.Regexp
	text          string
}

// readKnown reads the listed findings: lines
//
//	finding: property=ID harness=NAME match=REGEXP :: what fails
//
// where REGEXP is matched against the message and inputs of a violation.
// Lines starting with "fixed:" are records and suppress nothing.
func readKnown(verif string) []known {
	b, err := os.ReadFile(verif + "/known-findings.txt")
	if err != nil {
		return nil
	}
	var r []known
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) match=(.*?) :: (.*)$`)
	for _, ln := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(ln); m != nil {
			r = append(r, known{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return r
}

// replayFile is a violation written down for replay.
type replayFile struct {
	Property string
	Harness  string
	Pkg      string
	Msg      string
	Kind     string // native build: "", "sched" or "race"
	Inputs   map[string]uint64
	Order    []string
	Text     string
	Sched    []schedStep
	Native   string
	Observed []string
	Thorough bool
	Reps     int
	Command  string
}

type harnessResult struct {
	info        *harnessInfo
	x           *Explorer
	confirmed   []*replayFile
	unconfirmed []string
	mismatch    []string
	validated   int
	diverged    int
	cutRuns     int // real runs for paths cut short
	missing     []string
	err         string
}

func inputText(order []string, in map[string]uint64) string {
	var sb strings.Builder
	for i := 0; i < len(order); i++ {
		n := order[i]
		v := in[n]
		if strings.HasSuffix(n, "[0]") {
			base := strings.TrimSuffix(n, "[0]")
			var bs []byte
			j := i
			for ; j < len(order) && order[j] == fmt.Sprintf("%s[%d]", base, j-i); j++ {
				bs = append(bs, byte(in[order[j]]))
			}
			if l, ok := in[base+".len"]; ok && int(l) <= len(bs) {
				bs = bs[:l]
			}
			fmt.Fprintf(&sb, "%s=%q ", base, bs)
			i = j - 1
			continue
		}
		fmt.Fprintf(&sb, "%s=%d ", n, int64(v))
	}
	return strings.TrimSpace(sb.String())
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	workers := fs.Int("j", 0, "")
	only := fs.String("only", "", "harness regexp (development)")
	scale := fs.Float64("scale", 1, "budget factor")
	fs.Parse(args)
	id := fs.Arg(0)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *workers == 0 {
		out, _ := exec.Command("nproc").Output()
		*workers, _ = strconv.Atoi(strings.TrimSpace(string(out)))
		if *workers < 1 {
			*workers = 2
		}
		if *workers > 8 {
			*workers = 8
		}
	}
	os.Exit(runCheck(*repo, *verif, id, tier, seed, *workers, *only, *scale))
}

func runCheck(repo, verif, id, tier string, seed, workers int, only string, scale float64) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	ev := &evidence{id: id, tier: tier, seed: seed, verif: verif, t0: t0, workers: workers}
	inconclusive := func(err error) int {
		fmt.Printf("INCONCLUSIVE property=%s: %v\n", id, err)
		ev.inconclusive = err.Error()
		ev.write(nil, nil)
		return 0
	}
	if err := readRedirects(verif + "/harness/vm"); err != nil {
		return inconclusive(err)
	}
	pkgs, err := harnessPkgs(verif, id)
	if err != nil || len(pkgs) == 0 {
		return inconclusive(fmt.Errorf("no harness for %s (%v)", id, err))
	}
	l, err := Load(repo, verif, pkgs, id)
	defer l.removeGen()
	if err != nil {
		return inconclusive(err)
	}
	infos, err := harnessInfos(l.files)
	if err != nil {
		return inconclusive(err)
	}
	var names []string
	for h := range l.harness {
		if infos[h] == nil || !strings.HasPrefix(h, "VH_"+id+"_") && !strings.HasPrefix(h, "VH_"+id+"x") {
			continue
		}
		if infos[h].thoroughOnly && !thorough {
			continue
		}
		if only != "" && !regexp.MustCompile(only).MatchString(h) {
			continue
		}
		names = append(names, h)
	}
	sort.Strings(names)
	nat, err := NewNative(repo, verif, l)
	if err != nil {
		return inconclusive(err)
	}
	defer nat.Close()
	go nat.Build("")
	ms, err := l.Workers(workers, pkgs)
	if err != nil {
		return inconclusive(err)
	}
	l.p.resetUsed()
	known := readKnown(verif)
	var results []*harnessResult
	for _, h := range names {
		in := infos[h]
		b := in.budget
		if thorough {
			b = in.tbudget
			if b == 0 {
				b = in.budget * 6
				if b < 60*time.Second {
					b = 60 * time.Second
				}
			}
		}
		b = time.Duration(float64(b) * scale)
		opts := &HarnessOpts{Name: h, Pkg: l.harness[h], StepLimit: in.steps, Budget: b, Thorough: thorough, AfterCand: 3 * time.Second}
		for _, k := range known {
			if k.prop == id && k.harness == h {
				opts.AfterCand = 0
			}
		}
		x := NewExplorer(opts)
		x.rnd ^= uint64(seed) * 0x9e3779b97f4a7c15
		x.Explore(ms, l.p.fun(l.p.pkgs[opts.Pkg].Func(h)))
		r := &harnessResult{info: in, x: x}
		results = append(results, r)
		for _, lb := range in.labels {
			if x.st.Reached[lb] == 0 {
				r.missing = append(r.missing, lb)
			}
		}
		r.replay(nat, id, thorough, workers)
		r.print()
	}
	for _, m := range ms {
		m.sol.Close()
	}
	// Report.
	code := 0
	n := 0
	var lines []string
	seen := map[string]bool{}
	for _, r := range results {
		for _, c := range r.confirmed {
			text := c.Harness + ": " + c.Msg + " [" + c.Text + "]"
			listed := false
			for _, k := range known {
				if k.prop == id && k.harness == c.Harness && k.re.MatchString(text) {
					listed = true
					if !seen[k.text] {
						seen[k.text] = true
						lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.text))
					}
					break
				}
			}
			if listed {
				continue
			}
			dir := filepath.Join(verif, "evidence", "replay")
			os.MkdirAll(dir, 0755)
			f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, n))
			n++
			c.Command = "bash /verif/check.sh replay " + f
			b, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(f, append(b, '\n'), 0644)
			fmt.Printf("violation of %s: %s\n  native: %s\n", id, text, c.Native)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, f))
			code = 1
		}
	}
	ev.violations = n
	ev.write(l, results)
	for _, ln := range lines {
		fmt.Println(ln)
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", id, tier, time.Since(t0).Seconds())
	}
	return code
}

// print summarizes a harness exploration.
func (r *harnessResult) print() {
	st := &r.x.st
	fmt.Printf("%s: %d paths (%d complete, %d assumed away, %d merged, %d unexplored), %d queries in %.1fs, %.1fs; %d paths replayed natively\n",
		r.info.name, st.Paths, st.Done, st.Assumed, st.Pruned, st.Leftover, st.Queries, st.SolverTime.Seconds(), st.Wall.Seconds(), r.validated)
	for _, k := range sortedKeys(st.Unsup) {
		fmt.Printf("  UNSUPPORTED %d: %s\n", st.Unsup[k], k)
	}
	for _, k := range sortedKeys(st.Limits) {
		fmt.Printf("  LIMIT %d: %s\n", st.Limits[k], k)
	}
	for _, k := range r.missing {
		fmt.Printf("  UNREACHED %s\n", k)
	}
	for _, k := range r.mismatch {
		fmt.Printf("  MISMATCH %s\n", k)
	}
	for _, k := range r.unconfirmed {
		fmt.Printf("  UNCONFIRMED %s\n", k)
	}
	if r.cutRuns > 0 {
		fmt.Printf("  %d runs of the real code where the encoding ended\n", r.cutRuns)
	}
	if r.diverged > 0 {
		fmt.Printf("  %d schedules could not be followed natively\n", r.diverged)
	}
	if r.err != "" {
		fmt.Printf("  NATIVE REPLAY: %s\n", r.err)
	}
}

const runTimeout = 20 * time.Second

// replay runs the candidates, and some of the explored paths, against the real code.
func (r *harnessResult) replay(nat *Native, id string, thorough bool, workers int) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, workers)
	fail := func(err error) {
		mu.Lock()
		if r.err == "" {
			r.err = err.Error()
		}
		mu.Unlock()
	}
	// Candidates, at most three confirmed per harness.
	tEnd := time.Now().Add(90 * time.Second)
	msgs := map[string]bool{}
	for _, k := range r.x.corder {
		c := r.x.cands[k]
		if msgs[c.Msg] || len(r.confirmed) >= 3 || time.Now().After(tEnd) {
			continue
		}
		f := &replayFile{Property: id, Harness: c.Harness, Pkg: c.Pkg, Msg: c.Msg, Inputs: c.Inputs, Order: c.Order, Text: inputText(c.Order, c.Inputs), Sched: c.Sched, Observed: c.Obs, Thorough: thorough}
		o := f.confirm(nat, r.info.rep)
		if o == nil || !o.Bad() {
			s := "native run: "
			if o != nil {
				s += o.String() + " " + o.Diverged
			}
			if f.Native != "" {
				s = f.Native
			}
			r.unconfirmed = append(r.unconfirmed, fmt.Sprintf("%s [%s] %s", c.Msg, f.Text, s))
			continue
		}
		f.Native = o.String()
		msgs[c.Msg] = true
		r.confirmed = append(r.confirmed, f)
	}
	conc := false
	samples := r.x.st.Samples
	if len(samples) > r.info.samples {
		samples = samples[:r.info.samples]
	}
	for _, s := range samples {
		if len(s.Sched) > 0 {
			conc = true
		}
	}
	kind := ""
	if conc {
		kind = "sched"
	}
	if len(samples) > 0 {
		if _, err := nat.Build(kind); err != nil {
			fail(err)
			samples = nil
		}
	}
	for _, s := range samples {
		s := s
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			o, err := nat.Run(kind, r.info.name, s.Inputs, s.Sched, thorough, runTimeout)
			if err != nil {
				fail(err)
				return
			}
			txt := inputText(s.Order, s.Inputs)
			switch {
			case o.Diverged != "":
				mu.Lock()
				r.diverged++
				mu.Unlock()
				return
			case o.Bad():
				// The real code violates the property where the encoding does not.
				o2, err := nat.Run(kind, r.info.name, s.Inputs, s.Sched, thorough, runTimeout)
				mu.Lock()
				defer mu.Unlock()
				if err == nil && len(r.confirmed) < 3 && len(o.Failed) > 0 && len(o2.Failed) > 0 {
					r.confirmed = append(r.confirmed, &replayFile{Property: id, Harness: r.info.name, Pkg: r.x.opts.Pkg, Msg: o.Failed[0], Kind: kind, Inputs: s.Inputs, Order: s.Order, Text: txt, Sched: s.Sched, Native: o.String(), Observed: o.Obs, Thorough: thorough, Reps: 1})
				}
				r.mismatch = append(r.mismatch, fmt.Sprintf("%s: native: %s", txt, trunc(o.String(), 500)))
				return
			case o.Assume:
				mu.Lock()
				r.mismatch = append(r.mismatch, fmt.Sprintf("%s: native: assumption fails", txt))
				mu.Unlock()
				return
			}
			a, b := strings.Join(s.Obs, "\n"), strings.Join(o.Obs, "\n")
			mu.Lock()
			defer mu.Unlock()
			if a != b || len(o.Missing) > 0 {
				r.mismatch = append(r.mismatch, fmt.Sprintf("%s: engine %s, native %s (missing %v)", txt, trunc(a, 600), trunc(b, 600), o.Missing))
				return
			}
			r.validated++
		}()
	}
	wg.Wait()
	r.replayCuts(nat, id, thorough, workers)
}

// replayCuts runs the real code where the encoding ended early: on inputs that
// lead there, with two sets of values for the inputs that come after.
// The unchanged tree has no such paths.
func (r *harnessResult) replayCuts(nat *Native, id string, thorough bool, workers int) {
	if os.Getenv("GOSYM_CUTS") != "" {
		// A test of the harnesses: as if nothing could be encoded.
		for i := 0; i < maxCuts; i++ {
			r.x.st.Cuts = append(r.x.st.Cuts, PathSample{Inputs: map[string]uint64{}})
		}
	}
	if len(r.x.st.Cuts) == 0 || len(r.confirmed) > 0 {
		return
	}
	if _, err := nat.Build(""); err != nil {
		r.err = err.Error()
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, workers)
	tEnd := time.Now().Add(60 * time.Second)
	for i, s := range r.x.st.Cuts {
		i, s := i, s
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			for j := 0; j < 2; j++ {
				mu.Lock()
				stop := len(r.confirmed) > 0 || time.Now().After(tEnd)
				mu.Unlock()
				if stop {
					return
				}
				o, err := nat.RunFilled("", r.info.name, s.Inputs, uint64(2*i+j+1), nil, thorough, runTimeout)
				if err != nil {
					return
				}
				mu.Lock()
				r.cutRuns++
				mu.Unlock()
				if o.Assume || len(o.Failed) == 0 && o.Panic == "" {
					continue
				}
				f := &replayFile{Property: id, Harness: r.info.name, Pkg: r.x.opts.Pkg, Msg: o.String(), Inputs: map[string]uint64{}, Order: append([]string{}, s.Order...), Observed: o.Obs, Thorough: thorough, Reps: 1}
				if len(o.Failed) > 0 {
					f.Msg = o.Failed[0]
				}
				for k, v := range s.Inputs {
					f.Inputs[k] = v
				}
				for _, k := range sortedKeys(o.Filled) {
					f.Inputs[k] = o.Filled[k]
					f.Order = append(f.Order, k)
				}
				f.Text = inputText(f.Order, f.Inputs)
				if o = f.confirm(nat, 1); o == nil || len(o.Failed) == 0 && o.Panic == "" {
					continue
				}
				f.Native = o.String()
				mu.Lock()
				if len(r.confirmed) == 0 {
					r.confirmed = append(r.confirmed, f)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

// confirm replays a violation natively in the ways that may reproduce it.
func (f *replayFile) confirm(nat *Native, rep int) *Outcome {
	type attempt struct {
		kind string
		n    int
	}
	var as []attempt
	switch {
	case strings.HasPrefix(f.Msg, "data race"):
		as = []attempt{{"race", 20}}
	case len(f.Sched) > 0:
		as = []attempt{{"sched", 1}, {"", 20}}
	default:
		as = []attempt{{"", rep}}
		if rep == 1 {
			as[0].n = 2
		}
	}
	var last *Outcome
	for _, a := range as {
		to := runTimeout
		if a.kind == "" && len(f.Sched) > 0 {
			to = 5 * time.Second
		}
		for i := 0; i < a.n; i++ {
			o, err := nat.Run(a.kind, f.Harness, f.Inputs, f.Sched, f.Thorough, to, "GORACE=halt_on_error=0 exitcode=0")
			if err != nil {
				f.Native = err.Error()
				break
			}
			if o.Bad() && !(a.kind == "sched" && o.Diverged != "" && o.Hang) {
				f.Kind, f.Reps = a.kind, a.n
				return o
			}
			if o.Assume && a.kind == "" {
				last = o
				break
			}
			last = o
		}
	}
	return last
}

// cmdReplay reruns a recorded violation against the real code.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	readRedirects(*verif + "/harness/vm")
	pkgs, _ := harnessPkgs(*verif, f.Property)
	l, err := Load(*repo, *verif, pkgs, f.Property)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	nat, err := NewNative(*repo, *verif, l)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer nat.Close()
	fmt.Println("harness", f.Harness, "inputs", f.Text)
	o := f.confirm(nat, max(f.Reps, 1))
	if o == nil {
		fmt.Println("could not be run:", f.Native)
		os.Exit(2)
	}
	fmt.Println(o)
	for _, s := range o.Obs {
		fmt.Println("observed", s)
	}
	fmt.Println(o.Text)
	if o.Bad() {
		nat.Close()
		os.Exit(1)
	}
}

// evidence collects what a run covered.
type evidence struct {
	id, tier, verif string
	seed, workers   int
	t0              time.Time
	violations      int
	inconclusive    string
}

func (e *evidence) write(l *Loaded, rs []*harnessResult) {
	var states, trans, validated, queries int64
	var solver time.Duration
	var samples []any
	var hs []any
	exhaustive := len(rs) > 0
	var asserts, smt, paths int64
	for _, r := range rs {
		st := &r.x.st
		states += st.Nodes + st.States + st.Paths
		trans += st.Edges
		validated += int64(r.validated)
		queries += int64(st.Queries)
		solver += st.SolverTime
		asserts += st.Asserts
		smt += st.AssertsSMT
		paths += st.Paths
		if st.Leftover > 0 || len(st.Unsup) > 0 || len(st.Limits) > 0 {
			exhaustive = false
		}
		for i, s := range st.Samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.info.name, "inputs": inputText(s.Order, s.Inputs), "observed": s.Obs, "schedule_steps": len(s.Sched)})
		}
		h := map[string]any{
			"harness": r.info.name, "bounds": r.info.doc, "paths": st.Paths, "paths_complete": st.Done,
			"paths_outside_assumptions": st.Assumed, "paths_merged": st.Pruned, "paths_unexplored_at_budget": st.Leftover,
			"assertions_checked": st.Asserts, "assertions_needing_solver": st.AssertsSMT,
			"queries": st.Queries, "queries_answered_from_cache": st.CacheHits, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnkN,
			"solver_s": round(st.SolverTime), "wall_s": round(st.Wall), "interpreted_steps": st.Steps,
			"symbolic_inputs_max": st.SymInputs, "reached": st.Reached, "replayed_natively": r.validated,
			"violations_confirmed": len(r.confirmed),
		}
		if len(st.Unsup) > 0 {
			h["paths_cut_unsupported"] = st.Unsup
			h["native_runs_of_cut_paths"] = r.cutRuns
		}
		if len(st.Limits) > 0 {
			h["paths_cut_limits"] = st.Limits
		}
		if len(r.missing) > 0 {
			h["labels_not_reached"] = r.missing
		}
		if len(r.mismatch) > 0 {
			h["replay_mismatches"] = r.mismatch
		}
		if len(r.unconfirmed) > 0 {
			h["solver_counterexamples_not_reproduced"] = r.unconfirmed
		}
		if r.diverged > 0 {
			h["schedules_not_followed_natively"] = r.diverged
		}
		if r.err != "" {
			h["native_replay_problem"] = r.err
		}
		hs = append(hs, h)
	}
	var fns, models, libs []string
	if l != nil {
		lib := map[string]int{}
		for _, f := range l.p.usedFuncs() {
			switch {
			case f.inRepo:
				fns = append(fns, f.name)
			case strings.HasPrefix(f.redirect, vmPath):
				models = append(models, f.name+" -> "+strings.TrimPrefix(f.redirect, vmPath+"."))
			case f.redirect == "" && f.intr == nil:
				lib[f.pkg]++
			}
		}
		for _, k := range sortedKeys(lib) {
			libs = append(libs, fmt.Sprintf("%s (%d functions)", k, lib[k]))
		}
	}
	sort.Strings(fns)
	sort.Strings(models)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated,
		"samples": samples, "exhaustive": exhaustive,
		"rule":      "states: decision points of the symbolic execution tree plus its leaves; transitions: feasible branch outcomes taken there. Each path stands for all input values satisfying its path condition; branch feasibility and assertions are decided by the SMT solver.",
		"harnesses": hs, "functions_encoded": fns, "library_code_encoded": libs, "environment_models": models,
		"paths": paths, "assertions_checked": asserts, "assertions_needing_solver": smt, "solver_queries": queries, "solver_s": round(solver),
		"solver": "z3 (z3-new -in), QF_BV", "workers": e.workers,
	}
	if samples == nil {
		cov["samples"] = []any{}
	}
	if e.inconclusive != "" {
		cov["inconclusive"] = e.inconclusive
	}
	out := map[string]any{
		"property": e.id, "tier": e.tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"Bounds are those in the harness descriptions; inputs, sizes, histories and schedules outside them are not covered.",
			"The operating system, external programs, SQLite and cryptographic hashing are replaced by the listed models (hash functions are collision-free); sampled paths and every counterexample are replayed against the natively compiled code.",
			"The SSA interpreter of /verif/engine and the SMT solver are trusted.",
		},
		"wall_s": round(time.Since(e.t0)), "violations": e.violations,
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(e.verif+"/evidence", 0755)
	os.WriteFile(e.verif+"/evidence/"+e.id+".json", append(b, '\n'), 0644)
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }
