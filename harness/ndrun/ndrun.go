// Package ndrun is the main program of native replays.
package ndrun

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"

	"github.com/bobg/fab/zzverif/nd"
)

type outcome struct {
	Failed, Obs, Missing, Reached []string
	Panic                         string
	Assume                        bool
	Diverged                      string
	Filled                        map[string]uint64
}

// Main runs the harness named in $ZZDIR/request, or acts as a scripted program.
func Main(harnesses map[string]func()) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	if dir := filepath.Dir(exe); filepath.Base(dir) == "bin" {
		wd, _ := os.Getwd()
		p := &nd.Proc{In: os.Stdin, Out: os.Stdout, Err: os.Stderr}
		p.Name = filepath.Base(exe)
		p.Args = os.Args[1:]
		p.Dir = wd
		p.Env = os.Environ()
		p.Log = func(in nd.Invocation) { nd.AppendLog(filepath.Dir(dir), in) }
		code := p.Act()
		if code < 0 {
			self, _ := os.FindProcess(os.Getpid())
			self.Kill()
			select {}
		}
		os.Exit(code)
	}
	d := os.Getenv("ZZDIR")
	os.Unsetenv("ZZDIR")
	b, err := os.ReadFile(d + "/request")
	if err != nil {
		panic(err)
	}
	var req struct {
		Harness  string
		Inputs   map[string]uint64
		Thorough bool
		Fill     uint64
		Sched    []nd.Step
	}
	if err := json.Unmarshal(b, &req); err != nil {
		panic(err)
	}
	h := harnesses[req.Harness]
	if h == nil {
		panic("no harness " + req.Harness)
	}
	nd.Dir = d
	nd.Reset(nd.Assignment{Inputs: req.Inputs, Thorough: req.Thorough, Fill: req.Fill})
	if nd.SchedStart != nil {
		nd.SchedStart(req.Sched)
	}
	var o outcome
	write := func() {
		o.Failed, o.Obs, o.Missing = nd.Failed, nd.Obs, nd.Missing
		o.Filled = nd.Filled
		for l := range nd.Reached {
			o.Reached = append(o.Reached, l)
		}
		sort.Strings(o.Reached)
		if nd.SchedDiverged != nil {
			o.Diverged = nd.SchedDiverged()
		}
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(d+"/outcome.tmp", b, 0644); err != nil {
			panic(err)
		}
		if err := os.Rename(d+"/outcome.tmp", d+"/outcome"); err != nil {
			panic(err)
		}
	}
	nd.Deadlock = func(msg string) { o.Panic = msg; write() }
	nd.Fatal = nd.Deadlock
	nd.GoroutinePanic = func(r any) {
		switch r := r.(type) {
		case nd.AssumeFailed:
			o.Assume = true
		case nd.AssertFailed:
		default:
			o.Panic = fmt.Sprint(r)
			debug.PrintStack()
		}
		write()
	}
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case nd.AssumeFailed:
				o.Assume = true
			case nd.AssertFailed:
			default:
				o.Panic = fmt.Sprint(r)
				debug.PrintStack()
			}
		}()
		h()
	}()
	write()
}
