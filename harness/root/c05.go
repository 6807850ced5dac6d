package fab

import (
	"context"
	"os"

	"github.com/bobg/fab/zzverif/nd"
)

type vhDisposable struct {
	count *int
	pad   [3]int
}

func (d *vhDisposable) Run(context.Context, *Controller) error { *d.count++; return nil }
func (*vhDisposable) Desc() string                             { return "disposable" }

//go:noinline
func vhRunDisposable(con *Controller, kind int, runs *int) error {
	d := &vhDisposable{count: runs}
	var t Target = d
	switch kind {
	case 1:
		t = All(d)
	case 2:
		t = Seq(d)
	case 3:
		t = ArgTarget(d, "x")
	case 4:
		t = F(func(context.Context, *Controller) error { *runs++; return nil })
	}
	return con.Run(context.Background(), t)
}

// VH_C05_reuse: three (thorough: four) targets of any of five kinds, each created, run and dropped in turn with a garbage collection in between
// after which new objects may get any address freed before.
// vh: budget=20s tbudget=60s
func VH_C05_reuse() {
	con := NewController("")
	n := nd.Tier(3, 4)
	for i := 0; i < n; i++ {
		kind := nd.Choice("kind", 5)
		for r := nd.Reps(1, 200); r > 0; r-- {
			runs := 0
			err := vhRunDisposable(con, kind, &runs)
			nd.Assert(err == nil, "the run succeeds")
			nd.Assert(runs == 1, "a new target is executed")
			nd.GC()
		}
	}
	nd.Reach("end")
}

// VH_C05_same: two targets, requested four times in any order with collections in between: each runs once.
// vh: budget=10s
func VH_C05_same() {
	con := NewController("")
	a, b := 0, 0
	ta, tb := &vhDisposable{count: &a}, &vhDisposable{count: &b}
	usedA, usedB := false, false
	for i := 0; i < 4; i++ {
		t := ta
		if nd.Bool("second") {
			t = tb
			usedB = true
		} else {
			usedA = true
		}
		nd.Assert(con.Run(context.Background(), t) == nil, "the run succeeds")
		nd.GC()
		nd.Assert(a == vhB2i(usedA) && b == vhB2i(usedB), "only a target that has run before is skipped")
	}
	nd.Reach("end")
}

// VH_C05_kinds: distinct targets that look alike - equal contents, zero size, or made by the same call twice - each run.
// vh: budget=10s
func VH_C05_kinds() {
	con := NewController("")
	n := 0
	f := func(context.Context, *Controller) error { n++; return nil }
	var x, y Target
	kind := nd.Choice("kind", 9)
	var file string
	switch kind {
	case 5, 6, 7, 8:
		file = nd.TempDir() + "/f"
		cmd := func() Target {
			if kind == 8 {
				c := Shellf("append:%s:x", file)
				c.Env = []string{"A=b"}
				return c
			}
			return &Command{Cmd: nd.BinDir() + "/vprog", Args: []string{"append:" + file + ":x"}}
		}
		x, y = cmd(), cmd()
		if kind == 6 {
			x, y = All(x), Seq(y)
		}
		if kind == 7 {
			x, y = Files(x, nil, []string{file}), Files(y, nil, []string{file})
		}
		if kind == 8 {
			os.Setenv("SHELL", nd.BinDir()+"/sh")
		}
	case 0:
		x, y = F(f), F(f)
	case 1:
		l := F(f)
		x, y = All(l, F(f)), All(l)
	case 2:
		x, y = &vhDisposable{count: &n}, &vhDisposable{count: &n}
	case 3:
		x, y = Seq(F(f)), Seq(F(f))
	case 4:
		vhZeroRuns = 0
		x, y = &vhZero1{}, &vhZero2{}
	}
	err := con.Run(context.Background(), Seq(x, y))
	nd.Assert(err == nil, "the run succeeds")
	if file != "" {
		b, err := os.ReadFile(file)
		nd.Assert(err == nil && string(b) == "xx", "distinct targets both run, though they do the same")
		n = 2
	}
	nd.Assert(n+vhZeroRuns == 2, "distinct targets both run")
	vhZeroRuns = 0
	nd.Reach("end")
}

var vhZeroRuns int

type vhZero1 struct{}

func (*vhZero1) Run(context.Context, *Controller) error { vhZeroRuns++; return nil }
func (*vhZero1) Desc() string                           { return "zero1" }

type vhZero2 struct{}

func (*vhZero2) Run(context.Context, *Controller) error { vhZeroRuns++; return nil }
func (*vhZero2) Desc() string                           { return "zero2" }
