package fab

import (
	"bytes"
	"context"
	"os"

	"github.com/bobg/fab/zzverif/nd"
)

// VH_C03_deadlock: three composites (All, Seq, Deps) over two leaves and the composites before them, each reference
// direct or by name, two of the five targets requested together; every schedule with at most one preemption (thorough: two).
// The request must end, without a panic.
// vh: budget=100s tbudget=300s samples=24
func VH_C03_deadlock() {
	con := NewController("")
	ctx := context.Background()
	names := []string{"l0", "l1", "c0", "c1", "c2"}
	l0, l1 := vhNewLeaf(0), vhNewLeaf(1)
	nodes := []Target{l0, l1}
	vhRegister(con, "l0", l0)
	vhRegister(con, "l1", l1)
	n := nd.Tier(2, 3)
	for i := 0; i < n; i++ {
		// The newer child first: the other composites are reached through it.
		a := len(nodes) - 1
		b := nd.Choice("child", len(nodes))
		t := vhComposite(nd.Choice("kind", 3), vhVia(con, nd.Bool("ref"), names[a], nodes[a]), vhNamed(con, names[b]))
		nodes = append(nodes, t)
		vhRegister(con, names[len(nodes)-1], t)
	}
	other := nd.Choice("other", len(nodes))
	nd.Explore(nd.Tier(1, 2), false)
	err := con.Run(ctx, nodes[len(nodes)-1], nodes[other])
	nd.StopExplore()
	nd.Assert(err == nil, "the request succeeds")
	nd.Assert(l1.runs == 1, "the innermost target has run")
	nd.Reach("end")
}

// VH_C03_race: two leaves and a shared one that meanwhile look up, register, describe and list targets, write indented
// output, copy through an indenting writer or nest further requests (any operation in each), in verbose mode; every schedule
// with at most one preemption, checked for data races between all memory accesses.
// vh: budget=25s tbudget=300s samples=8
func VH_C03_race() {
	con := NewController("")
	shared := vhNewLeaf(2)
	vhRegister(con, "shared", shared)
	op := func(kind int) func(ctx context.Context, con *Controller) {
		return func(ctx context.Context, con *Controller) {
			switch kind {
			case 0:
				vhRegister(con, "new", vhNewLeaf(3))
			case 1:
				con.RegistryTarget("shared")
				con.RegistryNames()
			case 2:
				con.Describe(shared)
			case 3:
				con.Indentf("x %d", 1)
			case 4:
				con.IndentingCopier(&bytes.Buffer{}, "")
				con.ListTargets(&bytes.Buffer{})
			case 5:
				con.Run(ctx, shared, vhNamed(con, "shared"))
			case 6:
				RegisterYAMLTarget("VhRace", nil)
				RegisterYAMLStringList("VhRace", nil)
			case 7:
				con.YAMLTarget(vhScalar("shared"), "")
				con.YAMLTarget(vhSeq("!All", vhScalar("shared")), "")
				con.YAMLStringList(vhSeq("!VhNone"), "")
			}
		}
	}
	null, err := os.Create(nd.TempDir() + "/out")
	nd.Assert(err == nil, "harness: output file")
	os.Stdout = null
	a, b := vhNewLeaf(0), vhNewLeaf(1)
	ka := nd.Choice("opA", 8)
	kb := nd.Choice("opB", 8)
	nd.Assume(ka <= kb)
	a.during = op(ka)
	b.during = op(kb)
	ctx := context.Background()
	nd.Explore(1, true)
	err = con.Run(ctx, a, b)
	nd.StopExplore()
	nd.Assert(err == nil, "the request succeeds")
	nd.Reach("end")
}

// VH_C03_outcome: two requesters of one leaf, which may fail, checked for data races on the recorded outcome
// with every schedule with at most two preemptions.
// vh: budget=15s tbudget=60s samples=8
func VH_C03_outcome() {
	con := NewController("")
	l := vhNewLeaf(0)
	l.fail = nd.Bool("fail")
	vhRegister(con, "l", l)
	ref := vhNamed(con, "l")
	ctx := context.Background()
	nd.Explore(2, true)
	err := con.Run(ctx, All(ref), All(ref), l)
	nd.StopExplore()
	nd.Assert((err != nil) == l.fail, "the outcome is passed on")
	nd.Reach("end")
}
