package fab

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/bobg/fab/zzverif/nd"
)

// vhUnreadable makes path something whose contents cannot be read, though it is not absent.
func vhUnreadable(path string, how int) {
	os.RemoveAll(path)
	switch how {
	case 0:
		os.Symlink(path, path)
	case 1:
		os.Mkdir(path, 0755)
		os.Symlink(path+"/loop", path+"/loop")
	case 2:
		os.Mkdir(path, 0755)
		os.WriteFile(path+"/f", nil, 0644)
		os.Mkdir(path+"/s", 0755)
		os.Symlink("../s/loop", path+"/s/loop")
	}
}

// VH_C08_faults: a run of a rule whose prerequisite, database lookup, subtarget or database addition may fail, or whose input or output cannot be read at first or after the subtarget,
// in any combination, with or without force and dry-run; then a run without faults in a new process, with the files as before or after the first run; the subtarget may write any two bytes to its output and input.
// vh: budget=40s samples=30
func VH_C08_faults() {
	base := nd.TempDir()
	a, p, o := base+"/a", base+"/p", base+"/o"
	os.WriteFile(a, []byte("a0"), 0644)
	os.WriteFile(p, []byte("p0"), 0644)
	os.WriteFile(o, []byte("o0"), 0644)

	var (
		prereqErr, hasErr, subErr, addErr = &vhErr{"prereq"}, &vhErr{"has"}, &vhErr{"sub"}, &vhErr{"add"}
		runs                              int
		db                                = &vhFaultDB{}
	)
	const (
		none = iota
		prereq
		badBefore
		has
		subtarget
		badAfter
		add
	)
	first := nd.Choice("first", 7)
	second := nd.Choice("second", 7)
	nd.Assume(first == none && second == none || first < second)
	fault := func(n int) bool { return first == n || second == n }
	force, dry := nd.Bool("force"), nd.Bool("dry")
	how, victim := 0, a
	if fault(badBefore) || fault(badAfter) {
		how = nd.Choice("how", 3)
		if nd.Bool("output") {
			victim = o
		}
	}
	good, _ := os.ReadFile(victim)
	if fault(badBefore) {
		vhUnreadable(victim, how)
	}
	if fault(has) {
		db.hasErr = hasErr
	}
	if fault(add) {
		db.addErr = addErr
	}
	outcome := 0 // of the subtarget: 0 nothing, 1 writes the output, 2 writes the input too
	rule := func(faults bool) Target {
		var preruns int
		Files(&vhSub{Def: "pre", Runs: &preruns, Do: func(context.Context) error {
			if faults && fault(prereq) {
				return prereqErr
			}
			return os.WriteFile(p, []byte("p1"), 0644)
		}}, nil, []string{p})
		return Files(&vhSub{Def: "x", Runs: &runs, Do: func(context.Context) error {
			if !faults {
				return nil
			}
			if fault(badAfter) {
				vhUnreadable(victim, how)
			} else if !fault(badBefore) {
				if outcome >= 1 {
					os.WriteFile(o, []byte(nd.StrN("out", 2, "")), 0644)
				}
				if outcome == 2 {
					os.WriteFile(a, []byte(nd.StrN("in", 2, "")), 0644)
				}
			}
			if fault(subtarget) {
				return subErr
			}
			return nil
		}}, []string{a, p}, []string{o})
	}
	if !fault(badBefore) && !fault(badAfter) {
		outcome = nd.Choice("outcome", 3)
	}
	ctx := WithDryRun(WithForce(WithHashDB(context.Background(), db), force), dry)
	before := vhState{}
	if !fault(badBefore) {
		before = vhState{vhSnapshot([]string{a, p}), vhSnapshot([]string{o})}
	}
	err := NewController(base).Run(ctx, rule(true))

	consulted := !force && !dry
	ran, want := true, error(nil)
	failed := true
	switch {
	case fault(prereq):
		ran, want = false, prereqErr
	case consulted && fault(badBefore):
		ran = false
	case consulted && fault(has):
		// The prerequisite has looked in the database too.
		ran, want = false, hasErr
	case fault(subtarget):
		want = subErr
	case dry:
		failed = false
	case fault(badAfter), fault(badBefore):
		// also covers an addition that would fail
	case fault(add):
		want = addErr
	default:
		failed = false
	}
	// The prerequisite fails first when the database does.
	if !fault(prereq) && !dry && fault(add) && (force || !fault(has)) {
		ran, failed, want = false, true, addErr
	}
	if consulted && fault(has) {
		ran, failed, want = false, true, hasErr
	}
	nd.Assert((err != nil) == failed, "a failure is an error and nothing else is")
	nd.Assert(want == nil || errors.Is(err, want), "the error is that of what failed")
	nd.Assert(runs == vhB2i(ran), "the subtarget is not run after a failure and otherwise is")
	if dry {
		nd.Assert(db.hasN == 0 && db.addN == 0, "the database is not used in a dry run")
	}

	// Repair everything and look at what has been recorded.
	recorded := !failed && !dry
	if fault(badBefore) || fault(badAfter) {
		os.RemoveAll(victim)
		os.WriteFile(victim, good, 0644)
	}
	after := vhState{vhSnapshot([]string{a, p}), vhSnapshot([]string{o})}
	db.hasErr, db.addErr = nil, nil
	again := func() bool {
		runs = 0
		err := NewController(base).Run(WithHashDB(context.Background(), db), rule(false))
		nd.Assert(err == nil, "a run without faults succeeds")
		return runs == 1
	}
	if !fault(badBefore) && nd.Bool("undo") {
		for _, f := range append(before.in, before.out...) {
			os.WriteFile(f.path, []byte(f.text), 0644)
		}
		// The prerequisite, which writes p, is run again if p was not what it had been then.
		os.WriteFile(p, []byte("p1"), 0644)
		now := vhState{vhSnapshot([]string{a, p}), vhSnapshot([]string{o})}
		nd.Assert(again() == !(recorded && now.in_([]vhState{after})), "the state before a run is not recorded")
		nd.Reach("undo")
	} else {
		os.WriteFile(p, []byte("p1"), 0644)
		now := vhState{vhSnapshot([]string{a, p}), vhSnapshot([]string{o})}
		nd.Assert(again() == !(recorded && now.in_([]vhState{after})), "the rule is up to date iff the run succeeded")
		if recorded {
			nd.Reach("recorded")
		} else {
			nd.Reach("failed")
		}
	}
	nd.Reach("end")
}

// vhNoJSON cannot be encoded in JSON.
type vhNoJSON struct {
	Fn   func()
	runs *int
}

func (n *vhNoJSON) Run(context.Context, *Controller) error { *n.runs++; return nil }
func (n *vhNoJSON) Desc() string                           { return "nojson" }

// VH_C08_unmarshalable: a rule with a subtarget that cannot be encoded, directly or nested, is never up to date, and is run or reported as an error.
// vh: budget=10s
func VH_C08_unmarshalable() {
	runs := 0
	f := &vhNoJSON{Fn: func() {}, runs: &runs}
	mk := func() Target {
		switch nd.Choice("nested", 4) {
		case 0:
			return f
		case 1:
			return All(f)
		case 2:
			return Seq(&vhNop{}, f)
		}
		return ArgTarget(f)
	}
	db := &vhDB{}
	for i := 0; i < 2; i++ {
		before := runs
		err := NewController("").Run(WithHashDB(context.Background(), db), Files(mk(), nil, nil))
		nd.Assert(err != nil || runs == before+1, "a rule that cannot be recorded is not skipped")
	}
	nd.Reach("end")
}

// VH_C08_causes: a rule, with or without input and output files, whose prerequisite, database lookup, subtarget or database addition fails with an error that is, or wraps, context.Canceled, context.DeadlineExceeded, os.ErrNotExist, io.EOF, errors.ErrUnsupported or that of a Command,
// with or without force and verbose, with a context that is live, canceled before, or canceled by what fails, or by the subtarget that succeeds; then a run without faults in a new process.
// vh: budget=60s tbudget=200s
func VH_C08_causes() {
	base := nd.TempDir()
	a, p, o := base+"/a", base+"/p", base+"/o"
	for _, f := range []string{a, p, o} {
		os.WriteFile(f, []byte(f), 0644)
	}
	os.Stdout, _ = os.Create(base + "/stdout")
	var cause error
	switch nd.Choice("cause", 7) {
	case 0:
		cause = context.Canceled
	case 1:
		cause = context.DeadlineExceeded
	case 2:
		cause = os.ErrNotExist
	case 3:
		cause = io.EOF
	case 4:
		cause = errors.ErrUnsupported
	case 5:
		cause = (&Command{Cmd: nd.BinDir() + "/vprog", Args: []string{"out:x", "exit:1"}}).Run(context.Background(), NewController(base))
		nd.Assert(cause != nil, "a Command that fails is an error")
	case 6:
		cause = &os.PathError{Op: "open", Path: o, Err: os.ErrExist}
	}
	if nd.Bool("wrapped") {
		cause = &vhWrap{cause}
	}
	const (
		prereq = iota
		has
		subtarget
		add
		none
	)
	where := nd.Choice("where", 5)
	when := nd.Choice("when", 3) // the context is canceled
	ins, outs := []string{a}, []string{o}
	if nd.Bool("noin") {
		ins = nil
	}
	if nd.Bool("noout") {
		outs = nil
	}
	if where == prereq {
		ins = append(ins, p)
	}
	db := &vhFaultDB{}
	runs := 0
	cancel := func() {}
	rule := func(faults bool) Target {
		if where == prereq {
			var preruns int
			Files(&vhSub{Def: "pre", Runs: &preruns, Do: func(context.Context) error {
				if faults {
					cancel()
					return cause
				}
				return nil
			}}, nil, []string{p})
		}
		return Files(&vhSub{Def: "x", Runs: &runs, Do: func(context.Context) error {
			if faults {
				if where == none || where == subtarget {
					cancel()
				}
				if where == subtarget {
					return cause
				}
			}
			return nil
		}}, ins, outs)
	}
	switch where {
	case has:
		db.hasErr = cause
	case add:
		db.addErr = cause
	}
	force := nd.Bool("force")
	ctx, stop := context.WithCancel(WithVerbose(WithForce(WithHashDB(context.Background(), db), force), nd.Bool("verbose")))
	defer stop()
	switch when {
	case 1:
		stop()
	case 2:
		cancel = stop
	}
	err := NewController(base).Run(ctx, rule(true))
	if where == none || where == has && force {
		if when == 0 {
			nd.Assert(err == nil && runs == 1, "a run without failures succeeds")
		}
	} else {
		nd.Assert(err != nil, "a failure is reported")
		if when == 0 {
			var ce CommandErr
			nd.Assert(errors.Is(err, cause) || errors.As(err, &ce) && string(ce.Output) == "x", "the error is that of what failed")
			nd.Assert(runs == vhB2i(where >= subtarget), "the subtarget is not run after a failure and otherwise is")
		}
	}
	// A rule is recorded if and only if its run succeeded.
	db.hasErr, db.addErr = nil, nil
	recorded := err == nil
	runs = 0
	err = NewController(base).Run(WithHashDB(context.Background(), db), rule(false))
	nd.Assert(err == nil && runs == vhB2i(!recorded), "the rule is up to date iff the run succeeded")
	nd.Reach("end")
}

type vhWrap struct{ err error }

func (e *vhWrap) Error() string { return "wrapped: " + e.err.Error() }
func (e *vhWrap) Unwrap() error { return e.err }

// VH_C08_undo: a rule with any of three lists of input and of output files is run, and the subtarget replaces the contents of any of two of its files (or removes or makes them); then, in a new process, the files are as before or after the run, and any one of them may be replaced.
// The rule is up to date iff its files are as after the run.
// vh: budget=40s
func VH_C08_undo() {
	base := nd.TempDir()
	os.Mkdir(base+"/d", 0755)
	files := []string{base + "/a", base + "/d/x", base + "/o"}
	lists := [][]string{nil, {base + "/a"}, {base + "/a", base + "/d"}}
	ins := lists[nd.Choice("in", 3)]
	outs := [][]string{nil, {base + "/o"}, {base + "/o", base + "/a"}}[nd.Choice("out", 3)]
	for _, f := range files {
		os.WriteFile(f, []byte("0"), 0644)
	}
	change := func(f string) {
		switch nd.Choice("how", 3) {
		case 1:
			os.WriteFile(f, []byte(nd.StrN("text", 1, "")), 0644)
		case 2:
			os.Remove(f)
		}
	}
	db := &vhDB{}
	runs := 0
	run := func(effect func()) error {
		runs = 0
		return NewController(base).Run(WithHashDB(context.Background(), db), Files(&vhSub{Def: "x", Runs: &runs, Do: func(context.Context) error {
			effect()
			return nil
		}}, ins, outs))
	}
	state := func() vhState { return vhState{vhSnapshot(ins), vhSnapshot(outs)} }
	err := run(func() {
		for i := 0; i < 2; i++ {
			change(files[nd.Choice("file", 3)])
		}
	})
	nd.Assert(err == nil && runs == 1, "a new rule is run")
	after := state()
	if nd.Bool("undo") {
		for _, f := range files {
			os.WriteFile(f, []byte("0"), 0644)
		}
	}
	change(files[nd.Choice("file", 3)])
	now := state()
	err = run(func() {})
	nd.Assert(err == nil && runs == 1-vhB2i(now.in_([]vhState{after})), "the rule is up to date iff its files are as after the run")
	nd.Reach("end")
}
