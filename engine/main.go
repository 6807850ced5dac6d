package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(300)
		debug.SetMemoryLimit(14 << 30)
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// cmdRun explores harnesses by name, for development.
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	pkgs := fs.String("pkgs", ".", "")
	budget := fs.Duration("budget", 60*time.Second, "")
	workers := fs.Int("j", 8, "")
	steps := fs.Int64("steps", 5_000_000, "")
	thorough := fs.Bool("thorough", false, "")
	id := fs.String("id", "", "")
	maxp := fs.Int64("paths", 0, "")
	fs.Parse(args)
	if f := os.Getenv("GOSYM_CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	if err := readRedirects(*verif + "/harness/vm"); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	pl := strings.Split(*pkgs, ",")
	l, err := Load(*repo, *verif, pl, *id)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded in", time.Since(t0).Round(time.Millisecond))
	t0 = time.Now()
	ms, err := l.Workers(*workers, pl)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("initialized in", time.Since(t0).Round(time.Millisecond), "steps", ms[0].steps)
	for _, h := range fs.Args() {
		path, ok := l.harness[h]
		if !ok {
			fmt.Println("no harness", h)
			continue
		}
		x := NewExplorer(&HarnessOpts{Name: h, Pkg: path, StepLimit: *steps, Budget: *budget, Thorough: *thorough, MaxPaths: *maxp})
		x.Explore(ms, l.p.fun(l.p.pkgs[path].Func(h)))
		x.report()
	}
	l.p.profile()
	for _, m := range ms {
		m.sol.Close()
	}
}

func (x *Explorer) report() {
	st := &x.st
	fmt.Printf("%s: paths %d done %d assumed %d pruned %d leftover %d  states %d  asserts %d (smt %d)  queries %d (sat %d unsat %d unk %d) solver %v wall %v steps %d maxdec %d\n",
		x.opts.Name, st.Paths, st.Done, st.Assumed, st.Pruned, st.Leftover, st.States, st.Asserts, st.AssertsSMT, st.Queries, st.SatN, st.UnsatN, st.UnkN, st.SolverTime.Round(time.Millisecond), st.Wall.Round(time.Millisecond), st.Steps, st.MaxDec)
	for _, k := range sortedKeys(st.Unsup) {
		fmt.Printf("  UNSUPPORTED %d: %s\n", st.Unsup[k], k)
	}
	for _, k := range sortedKeys(st.Limits) {
		fmt.Printf("  LIMIT %d: %s\n", st.Limits[k], k)
	}
	for _, k := range sortedKeys(st.Reached) {
		fmt.Printf("  reached %s: %d\n", k, st.Reached[k])
	}
	for _, k := range x.corder {
		c := x.cands[k]
		fmt.Printf("  CANDIDATE %s\n", c.Msg)
		for _, n := range c.Order {
			v := c.Inputs[n]
			if v >= 33 && v < 127 && strings.HasSuffix(n, "]") {
				fmt.Printf("     %s=%d %q", n, v, rune(v))
			} else {
				fmt.Printf("     %s=%d", n, int64(v))
			}
		}
		fmt.Println()
		if len(c.Sched) > 0 {
			var ss []string
			for _, s := range c.Sched {
				ss = append(ss, s.G+":"+s.What)
			}
			fmt.Println("     schedule", strings.Join(ss, " "))
		}
		for _, o := range c.Obs {
			fmt.Println("     observed", o)
		}
	}
	if os.Getenv("GOSYM_SAMPLES") != "" {
		for _, s := range st.Samples {
			b, _ := json.Marshal(s)
			fmt.Println("  sample", string(b))
		}
	}
}

// Workers makes n initialized machines.
func (l *Loaded) Workers(n int, pkgs []string) ([]*Machine, error) {
	var paths []string
	paths = append(paths, ndPath, vmPath)
	for _, p := range pkgs {
		if p == "." {
			paths = append(paths, repoPath)
		} else {
			paths = append(paths, repoPath+"/"+p)
		}
	}
	ms := make([]*Machine, n)
	errs := make([]error, n)
	mk := func(i int) {
		var err error
		ms[i], err = l.NewMachine([]string{"z3-new", "-in"})
		if err == nil {
			err = ms[i].Init(paths)
		}
		errs[i] = err
	}
	// The first initialization compiles the functions and numbers the globals.
	mk(0)
	if errs[0] != nil {
		return nil, errs[0]
	}
	var wg sync.WaitGroup
	for i := 1; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); mk(i) }()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return ms, nil
}

var _ = sort.Strings
