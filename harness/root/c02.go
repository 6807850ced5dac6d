package fab

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"github.com/bobg/fab/zzverif/nd"
)

// vhFailing makes n registered leaves, each of which may fail.
func vhFailing(con *Controller, n int) []*vhLeaf {
	var ls []*vhLeaf
	for i := 0; i < n; i++ {
		l := vhNewLeaf(i)
		l.fail = nd.Bool("fail")
		ls = append(ls, l)
		vhRegister(con, "l"+string(rune('0'+i)), l)
	}
	return ls
}

// VH_C02_direct: a request for three of two to three leaves (repetitions included), each direct or by name, each leaf
// failing or not; then a second request for any of them; every schedule with at most two preemptions.
// vh: budget=20s tbudget=200s
func VH_C02_direct() {
	con := NewController("")
	ctx := context.Background()
	ls := vhFailing(con, nd.Tier(2, 3))
	var req []Target
	used := make([]bool, len(ls))
	for i := 0; i < 3; i++ {
		k := nd.Int("target", 0, len(ls)-1)
		used[k] = true
		req = append(req, vhVia(con, nd.Bool("ref"), "l"+string(rune('0'+k)), ls[k]))
	}
	nd.Explore(nd.Tier(2, 3), false)
	err := con.Run(ctx, req...)
	nd.StopExplore()
	anyFail := false
	for i, l := range ls {
		if !used[i] {
			continue
		}
		nd.Assert(l.done, "a request returns only after every requested target has finished")
		if l.fail {
			anyFail = true
			nd.Assert(errors.Is(err, l.err), "the error contains the failure of each target that failed")
		} else {
			nd.Assert(!errors.Is(err, l.err), "the error contains only failures that happened")
		}
	}
	nd.Assert((err != nil) == anyFail, "a request fails iff one of its targets failed")
	k := nd.Int("again", 0, len(ls)-1)
	if used[k] {
		runs := ls[k].runs
		err = con.Run(ctx, ls[k])
		nd.Assert(ls[k].runs == runs, "a later request uses the outcome of the first run")
		nd.Assert((err != nil) == ls[k].fail && errors.Is(err, ls[k].err) == ls[k].fail, "a later request gets the same outcome")
	}
	nd.Reach("end")
}

// VH_C02_nested: two targets, each requesting a shared leaf from inside its own run and possibly one of its own,
// combined by All or requested directly, together with the shared leaf; leaves may fail; the outer targets
// pass on the outcome; every schedule with at most one preemption (thorough: two).
// vh: budget=90s tbudget=240s
func VH_C02_nested() {
	con := NewController("")
	ctx := context.Background()
	ls := vhFailing(con, 3)
	got := make([]error, 2)
	returned := make([]bool, 2)
	mk := func(i int, ts ...Target) Target {
		return F(func(ctx context.Context, con *Controller) error {
			got[i] = con.Run(ctx, ts...)
			returned[i] = true
			for _, t := range ts {
				if l, ok := t.(*vhLeaf); ok {
					nd.Assert(l.done, "an inner request returns only after its targets have finished")
				}
			}
			return got[i]
		})
	}
	a := mk(0, ls[0])
	b := mk(1, vhVia(con, nd.Bool("ref"), "l0", ls[0]), ls[1])
	var req []Target
	switch nd.Int("shape", 0, 2) {
	case 0:
		req = []Target{a, b}
	case 1:
		req = []Target{All(a, ls[2]), b}
	case 2:
		req = []Target{ls[0], b, a}
	}
	nd.Explore(nd.Tier(1, 2), false)
	err := con.Run(ctx, req...)
	nd.StopExplore()
	nd.Assert(returned[0] && returned[1], "a request returns only after every requested target has finished")
	nd.Assert((got[0] != nil) == ls[0].fail && errors.Is(got[0], ls[0].err) == ls[0].fail, "every requester of a target gets its outcome")
	nd.Assert((got[1] != nil) == (ls[0].fail || ls[1].fail), "every requester of a target gets its outcome, second requester")
	nd.Assert(errors.Is(got[1], ls[0].err) == ls[0].fail && errors.Is(got[1], ls[1].err) == ls[1].fail, "an inner request reports each failure")
	fail2 := ls[2].runs > 0 && ls[2].fail
	nd.Assert((err != nil) == (ls[0].fail || ls[1].fail || fail2), "the outer request fails iff something it ran failed")
	nd.Assert(ls[0].runs == 1 && ls[1].runs == 1, "shared targets run once")
	nd.Assert(errors.Is(err, ls[0].err) == ls[0].fail && errors.Is(err, ls[1].err) == ls[1].fail && errors.Is(err, ls[2].err) == fail2, "failures of nested targets are part of the error")
	nd.Reach("end")
}

// VH_C02_racy: two (thorough: or three) concurrent requesters of one or two leaves without names, each failing or not; every schedule with at
// most two preemptions, where goroutines can be preempted after releasing a lock or a waiter as well
// (which makes a difference only to code with data races).
// vh: budget=20s tbudget=200s
func VH_C02_racy() {
	con := NewController("")
	ctx := context.Background()
	// Without names, so that their errors look the same.
	ls := []*vhLeaf{vhNewLeaf(0), vhNewLeaf(1)}
	for _, l := range ls {
		l.fail = nd.Bool("fail")
	}
	n := 2
	if nd.Tier(0, 1) == 1 {
		n += vhB2i(nd.Bool("third"))
	}
	got := make([]error, n)
	var wg sync.WaitGroup
	nd.Explore(2, false)
	nd.Fine()
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i == 0 {
				got[i] = con.Run(ctx, ls[0], ls[1])
			} else {
				got[i] = con.Run(ctx, ls[0])
			}
			nd.Assert(ls[0].done, "a request returns only after every requested target has finished")
		}()
	}
	wg.Wait()
	nd.StopExplore()
	for i, err := range got {
		nd.Assert(errors.Is(err, ls[0].err) == ls[0].fail, "every requester gets the outcome of the target")
		nd.Assert(errors.Is(err, ls[1].err) == (i == 0 && ls[1].fail), "every requester gets the outcome of the other target")
		nd.Assert((err != nil) == (ls[0].fail || i == 0 && ls[1].fail), "a request fails iff one of its targets failed")
	}
	nd.Assert(ls[0].runs == 1 && ls[1].runs == 1, "shared targets run once")
	nd.Reach("end")
}

// VH_C02_badtarget: a request mixing leaves with a non-pointer target or a reference to an unknown name
// in any of three places: the others run and finish, and the request fails.
// vh: budget=15s
func VH_C02_badtarget() {
	con := NewController("")
	ctx := context.Background()
	ls := vhFailing(con, 2)
	bad := Target(vhValueTarget{})
	if nd.Bool("unknownName") {
		bad = vhNamed(con, "nosuch")
	}
	req := []Target{ls[0], ls[1]}
	at := nd.Int("place", 0, 2)
	req = append(req[:at:at], append([]Target{bad}, req[at:]...)...)
	nd.Explore(1, false)
	err := con.Run(ctx, req...)
	nd.StopExplore()
	nd.Assert(err != nil, "a target that cannot be run is an error")
	for _, l := range ls {
		nd.Assert(l.done && l.runs == 1, "the other targets are run and awaited")
		nd.Assert(errors.Is(err, l.err) == l.fail, "their failures are reported as well")
	}
	nd.Reach("end")
}

type vhValueTarget struct{}

func (vhValueTarget) Run(context.Context, *Controller) error { return nil }
func (vhValueTarget) Desc() string                           { return "value" }

// VH_C02_kinds: a target that fails with an error of its own or one that wraps a well-known one (canceled, deadline exceeded,
// not existing, end of file, an unknown target, an exit status error), requested directly, by name, through All, Seq, Deps (as target or as prerequisite),
// Files, ArgTarget or a function target, alone or with another target that succeeds or fails: the request fails, and its error contains the failure;
// so does a second request.
// vh: budget=20s
func VH_C02_kinds() {
	con := NewController(nd.TempDir())
	ctx := context.Background()
	l := vhNewLeaf(0)
	l.fail = true
	well := vhWellKnown()
	if nd.Bool("bare") {
		l.err = well
	} else {
		l.err = fmt.Errorf("failure of the target: %w", well)
	}
	vhRegister(con, "l0", l)
	o := vhNewLeaf(1)
	ok := vhNewLeaf(2)
	otherFails := nd.Bool("otherfails")
	o.fail = otherFails
	before := false // o may not be run
	var t Target
	switch nd.Choice("through", 9) {
	case 0:
		t = l
	case 1:
		t = vhVia(con, true, "l0", l)
	case 2:
		t = All(ok, l)
	case 3:
		t = Seq(ok, l, ok)
	case 4:
		t = Deps(l, ok)
	case 5:
		t = Deps(ok, l)
	case 6:
		t = Files(l, nil, []string{nd.TempDir() + "/out"})
	case 7:
		t = ArgTarget(l, "x")
	case 8:
		t = F(func(ctx context.Context, con *Controller) error { return con.Run(ctx, ok, l) })
	}
	req := []Target{t}
	switch nd.Choice("with", 3) {
	case 1:
		req = []Target{t, o}
	case 2:
		req = []Target{o, t}
	default:
		before = true
	}
	for i := 0; i < 2; i++ {
		err := con.Run(ctx, req...)
		nd.Assert(l.runs == 1, "the target is run once")
		nd.Assert(err != nil, "the request fails, whatever the error of the target is")
		nd.Assert(errors.Is(err, l.err) && errors.Is(err, well), "the error contains the failure, whatever it is")
		if !before {
			nd.Assert(o.runs == 1 && o.done, "the other target is run")
			nd.Assert(errors.Is(err, o.err) == otherFails, "the error contains the other failure")
		}
	}
	nd.Reach("end")
}
