package fab

import (
	"context"

	"github.com/bobg/fab/zzverif/nd"
)

// VH_C01_dag: every graph of three composites (All, Seq, Deps, ArgTarget) over two leaves, each composite having
// two children among the nodes before it, each reference direct or by name; two nodes requested in one call
// and one of them again; one schedule.
// vh: budget=40s tbudget=200s
func VH_C01_dag() {
	con := NewController("")
	ctx := context.Background()
	names := []string{"l0", "l1", "c0", "c1", "c2"}
	leaves := []*vhLeaf{vhNewLeaf(0), vhNewLeaf(1)}
	nodes := []Target{leaves[0], leaves[1]}
	uses := [][2]bool{{true, false}, {false, true}}
	vhRegister(con, "l0", leaves[0])
	vhRegister(con, "l1", leaves[1])
	n := nd.Tier(2, 3)
	for i := 0; i < n; i++ {
		a := nd.Choice("childA", len(nodes))
		b := nd.Choice("childB", len(nodes))
		ta := vhVia(con, nd.Bool("refA"), names[a], nodes[a])
		tb := vhVia(con, nd.Bool("refB"), names[b], nodes[b])
		t := vhComposite(nd.Choice("kind", 4), ta, tb)
		nodes = append(nodes, t)
		uses = append(uses, [2]bool{uses[a][0] || uses[b][0], uses[a][1] || uses[b][1]})
		vhRegister(con, names[len(nodes)-1], t)
	}
	last := len(nodes) - 1
	other := nd.Choice("other", len(nodes))
	req := []Target{vhVia(con, nd.Bool("refTop"), names[last], nodes[last]), vhVia(con, nd.Bool("refOther"), names[other], nodes[other])}
	nd.Assert(con.Run(ctx, req...) == nil, "the run succeeds")
	for i, l := range leaves {
		want := 0
		if uses[last][i] || uses[other][i] {
			want = 1
		}
		nd.Assert(l.runs == want, "each requested target runs exactly once, others not at all")
	}
	nd.Assert(con.Run(ctx, vhNamed(con, names[last]), leaves[0], nodes[other]) == nil, "the second run succeeds")
	for i, l := range leaves {
		want := 0
		if i == 0 || uses[last][i] || uses[other][i] {
			want = 1
		}
		nd.Assert(l.runs == want, "requesting targets again does not run them again")
	}
	nd.Reach("end")
}

// VH_C01_failures: the graphs of VH_C01_dag with leaves that may fail and a context that may be canceled already,
// two nodes requested in one call, then all nodes requested one after the other; what a graph executes is computed
// by a model in which Seq and Deps stop at the first failure.
// vh: budget=60s tbudget=200s
func VH_C01_failures() {
	con := NewController("")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	leaves := []*vhLeaf{vhNewLeaf(0), vhNewLeaf(1), vhNewLeaf(2)}
	nodes := []Target{leaves[0], leaves[1], leaves[2]}
	type node struct{ kind, a, b int }
	model := make([]node, len(leaves))
	for i, l := range leaves {
		l.fail = nd.Bool("fail")
		model[i].kind = -1
		vhRegister(con, []string{"l0", "l1", "l2"}[i], l)
	}
	n := nd.Tier(2, 3)
	for i := 0; i < n; i++ {
		nm := node{kind: nd.Choice("kind", 4), a: nd.Choice("childA", len(nodes)), b: nd.Choice("childB", len(nodes))}
		t := vhComposite(nm.kind, nodes[nm.a], nodes[nm.b])
		nodes = append(nodes, t)
		model = append(model, nm)
	}

	done := make([]bool, len(nodes)) // executed so far
	ok := make([]bool, len(nodes))   // with success
	var exec func(i int) bool
	exec = func(i int) bool {
		if done[i] {
			return ok[i]
		}
		m := model[i]
		switch m.kind {
		case -1:
			ok[i] = !leaves[i].fail
		case 1:
			ok[i] = exec(m.a) && exec(m.b)
		case 2:
			ok[i] = exec(m.b) && exec(m.a)
		default:
			x, y := exec(m.a), exec(m.b)
			ok[i] = x && y
		}
		done[i] = true
		return ok[i]
	}
	check := func(err error, want bool) {
		nd.Assert((err == nil) == want, "the run fails exactly if something requested in it failed")
		for i, l := range leaves {
			runs := 0
			if done[i] {
				runs = 1
			}
			nd.Assert(l.runs == runs, "each requested target runs exactly once, failing or not")
		}
	}

	if nd.Bool("canceled") {
		cancel()
	}
	last := len(nodes) - 1
	other := nd.Choice("other", len(nodes))
	err := con.Run(ctx, nodes[last], nodes[other])
	x, y := exec(last), exec(other)
	check(err, x && y)
	for i := range nodes {
		check(con.Run(ctx, nodes[i]), exec(i))
	}
	nd.Reach("end")
}

// VH_C01_sched: a base target below two composites (All, Seq, Deps or ArgTarget) requested together, directly or
// through another All or Seq, the base also requested by itself, by one of the two composites directly and by the other by name (thorough: by either in either way); every schedule with at
// most one preemption (two in the thorough tier; states reached twice are explored once).
// vh: budget=150s tbudget=300s
func VH_C01_sched() {
	con := NewController("")
	ctx := context.Background()
	base := vhNewLeaf(0)
	side := vhNewLeaf(1)
	vhRegister(con, "base", base)
	vhRegister(con, "side", side)
	k1 := nd.Choice("kind1", 4)
	k2 := nd.Choice("kind2", 4)
	r1 := nd.Bool("ref1")
	r2 := !r1
	if nd.Tier(0, 1) == 1 {
		r2 = nd.Bool("ref2")
	}
	m1 := vhComposite(k1, vhVia(con, r1, "base", base))
	m2 := vhComposite(k2, vhVia(con, r2, "base", base), side)
	vhRegister(con, "m1", m1)
	vhRegister(con, "m2", m2)
	var req []Target
	switch nd.Choice("shape", 4) {
	case 0:
		req = []Target{m1, m2}
	case 1:
		req = []Target{All(m1, vhNamed(con, "m2")), base}
	case 2:
		req = []Target{Seq(vhNamed(con, "m1"), m2), vhNamed(con, "base")}
	case 3:
		req = []Target{vhNamed(con, "m2"), vhNamed(con, "m2"), m1}
	}
	nd.Explore(nd.Tier(1, 2), false)
	err := con.Run(ctx, req...)
	nd.StopExplore()
	nd.Assert(err == nil, "the run succeeds")
	nd.Assert(base.runs == 1, "the shared base runs exactly once")
	nd.Assert(side.runs == 1, "every requested target runs exactly once")
	nd.Reach("end")
}
