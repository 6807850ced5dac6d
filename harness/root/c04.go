package fab

import (
	"context"
	"errors"
	"fmt"

	"github.com/bobg/fab/zzverif/nd"
)

// vhSpan is the order of events of leaves.
type vhLog struct {
	n          int
	start, end [64]int
}

func (g *vhLog) leaf(id int, fail bool) *vhLoggedLeaf {
	return &vhLoggedLeaf{id: id, fail: fail, log: g, err: &vhErr{"leaf " + string(rune('0'+id)) + " fails"}}
}

type vhLoggedLeaf struct {
	id   int
	fail bool
	log  *vhLog
	err  error
	runs int

	during func()
}

func (l *vhLoggedLeaf) Run(context.Context, *Controller) error {
	l.runs++
	l.log.n++
	l.log.start[l.id] = l.log.n
	if l.during != nil {
		l.during()
	}
	nd.Yield("leaf")
	l.log.n++
	l.log.end[l.id] = l.log.n
	if l.fail {
		return l.err
	}
	return nil
}

func (l *vhLoggedLeaf) Desc() string { return "leaf" }

// vhTree is a target made of leaves, with its specification.
type vhTree struct {
	kind   int // -1: leaf
	leaf   *vhLoggedLeaf
	kids   []*vhTree // in order; for Deps the dependencies, then the main target
	target Target
}

func vhMakeTree(g *vhLog, depth, next *int, width int) *vhTree {
	kind := -1
	if *depth > 0 {
		kind = nd.Choice("kind", 4) - 1
	}
	if kind < 0 {
		l := g.leaf(*next, nd.Bool("fail"))
		*next++
		return &vhTree{kind: -1, leaf: l, target: l}
	}
	t := &vhTree{kind: kind}
	d := *depth - 1
	for i := 0; i < width; i++ {
		t.kids = append(t.kids, vhMakeTree(g, &d, next, width))
	}
	var ts []Target
	for _, k := range t.kids {
		ts = append(ts, k.target)
	}
	switch kind {
	case 0:
		t.target = All(ts...)
	case 1:
		t.target = Seq(ts...)
	case 2:
		t.target = Deps(ts[len(ts)-1], ts[:len(ts)-1]...)
	}
	return t
}

func (t *vhTree) leaves() []*vhLoggedLeaf {
	if t.kind < 0 {
		return []*vhLoggedLeaf{t.leaf}
	}
	var r []*vhLoggedLeaf
	for _, k := range t.kids {
		r = append(r, k.leaves()...)
	}
	return r
}

// check asserts the specification for a tree that was run; it returns whether the tree fails.
func (t *vhTree) check() bool {
	if t.kind < 0 {
		nd.Assert(t.leaf.runs == 1, "a leaf that is due runs once")
		return t.leaf.fail
	}
	failed := false
	switch t.kind {
	case 0:
		for _, k := range t.kids {
			if k.check() {
				failed = true
			}
		}
	case 1:
		for i, k := range t.kids {
			if failed {
				k.notRun("Seq starts nothing after a failure")
				continue
			}
			if i > 0 {
				vhBefore(t.kids[i-1], k, "Seq runs its elements one after another")
			}
			failed = k.check()
		}
	case 2:
		last := len(t.kids) - 1
		for _, k := range t.kids[:last] {
			if k.check() {
				failed = true
			}
		}
		if failed {
			t.kids[last].notRun("Deps does not start its main target after a failed dependency")
		} else {
			for _, k := range t.kids[:last] {
				vhBefore(k, t.kids[last], "Deps starts its main target after its dependencies")
			}
			failed = t.kids[last].check()
		}
	}
	return failed
}

func (t *vhTree) notRun(msg string) {
	for _, l := range t.leaves() {
		nd.Assert(l.runs == 0, msg)
	}
}

func vhBefore(a, b *vhTree, msg string) {
	for _, x := range a.leaves() {
		for _, y := range b.leaves() {
			if x.runs > 0 && y.runs > 0 {
				nd.Assert(x.log.end[x.id] < y.log.start[y.id], msg)
			}
		}
	}
}

// VH_C04_tree: every tree of All, Seq and Deps of depth two with two children per node (thorough: All, Seq or
// Deps of three elements above leaves as well), every pattern of failing leaves, every schedule with at most one preemption.
// vh: budget=60s tbudget=400s samples=24
func VH_C04_tree() {
	con := NewController("")
	g := &vhLog{}
	depth, next := 2, 0
	t := vhMakeTree(g, &depth, &next, 2)
	vhCheckTree(con, g, t, nd.Tier(1, 2))
}

// VH_C04_wide: All, Seq and Deps of three leaves, every pattern of failing leaves, every schedule with at most
// two preemptions.
// vh: budget=20s tbudget=100s
func VH_C04_wide() {
	con := NewController("")
	g := &vhLog{}
	depth, next := 1, 0
	t := vhMakeTree(g, &depth, &next, 3)
	vhCheckTree(con, g, t, 2)
}

func vhCheckTree(con *Controller, g *vhLog, t *vhTree, preempt int) {
	vhCheckTreeIn(context.Background(), con, g, t, preempt)
}

func vhCheckTreeIn(ctx context.Context, con *Controller, g *vhLog, t *vhTree, preempt int) {
	nd.Explore(preempt, false)
	err := con.Run(ctx, t.target)
	nd.StopExplore()
	failed := t.check()
	nd.Assert((err != nil) == failed, "a composite fails exactly when a target it ran failed")
	for _, l := range t.leaves() {
		nd.Assert(errors.Is(err, l.err) == (l.runs > 0 && l.fail), "the error contains exactly the failures that happened")
	}
	nd.Reach("end")
}

// VH_C04_long: All, Seq and Deps of 1 to 20 (thorough: 40) leaves, of which any one or two fail, in one schedule;
// directly or inside another All.
// vh: budget=20s tbudget=100s
func VH_C04_long() {
	con := NewController("")
	g := &vhLog{}
	max := nd.Tier(20, 40)
	n := nd.Int("n", 1, max)
	f1, f2 := nd.Int("fail1", -1, max-1), nd.Int("fail2", -1, max-1)
	t := &vhTree{kind: nd.Choice("kind", 3)}
	var ts []Target
	for i := 0; i < n; i++ {
		l := g.leaf(i, i == f1 || i == f2)
		t.kids = append(t.kids, &vhTree{kind: -1, leaf: l, target: l})
		ts = append(ts, l)
	}
	switch t.kind {
	case 0:
		t.target = All(ts...)
	case 1:
		t.target = Seq(ts...)
	case 2:
		t.target = Deps(ts[n-1], ts[:n-1]...)
	}
	if nd.Bool("nested") {
		t = &vhTree{kind: 0, kids: []*vhTree{t}, target: All(t.target)}
	}
	err := con.Run(context.Background(), t.target)
	failed := t.check()
	nd.Assert((err != nil) == failed, "a composite fails exactly when a target it ran failed")
	for _, l := range t.leaves() {
		if l.fail {
			nd.Assert(errors.Is(err, l.err) == (l.runs > 0), "the error contains exactly the failures that happened")
		}
	}
	nd.Reach("end")
}

// VH_C04_cancel: All, Seq and Deps of three leaves, one of which cancels the context while it runs (which
// is not a failure of any target), every pattern of failing leaves, every schedule with at most one preemption.
// vh: budget=20s tbudget=100s
func VH_C04_cancel() {
	con := NewController("")
	g := &vhLog{}
	depth, next := 1, 0
	t := vhMakeTree(g, &depth, &next, 3)
	ctx, cancel := context.WithCancel(context.Background())
	ls := t.leaves()
	ls[nd.Int("cancels", 0, len(ls)-1)].during = cancel
	vhCheckTreeIn(ctx, con, g, t, 1)
}

// VH_C04_kinds: All, Seq and Deps of two or three leaves, or of one leaf and such a composite, in any pattern of failing leaves, the first of which fails
// with an error that is or wraps one of fifteen: an ordinary one and well-known ones (canceled, not existing, end of file, ...); every schedule without preemptions.
// vh: budget=30s tbudget=100s
func VH_C04_kinds() {
	con := NewController("")
	g := &vhLog{}
	depth, next := 1, 0
	t := vhMakeTree(g, &depth, &next, 2+vhB2i(nd.Bool("three")))
	if nd.Bool("nested") {
		in := t
		l := g.leaf(next, nd.Bool("fail"))
		t = &vhTree{kind: nd.Choice("outer", 3), kids: []*vhTree{in, {kind: -1, leaf: l, target: l}}}
		switch t.kind {
		case 0:
			t.target = All(in.target, l)
		case 1:
			t.target = Seq(in.target, l)
		case 2:
			t.target = Deps(l, in.target)
		}
	}
	for _, l := range t.leaves() {
		if l.fail {
			l.err = vhWellKnown()
			if nd.Bool("wrapped") {
				l.err = fmt.Errorf("failure of %d: %w", l.id, l.err)
			}
			break
		}
	}
	vhCheckTree(con, g, t, 0)
}

// VH_C04_empty: composites without elements, and Deps without dependencies.
// vh: budget=5s
func VH_C04_empty() {
	con := NewController("")
	g := &vhLog{}
	l := g.leaf(0, nd.Bool("fail"))
	var t Target
	hasLeaf := false
	switch nd.Int("kind", 0, 4) {
	case 0:
		t = All()
	case 1:
		t = Seq()
	case 2:
		t, hasLeaf = Deps(l), true
	case 3:
		t, hasLeaf = Seq(All(), l), true
	case 4:
		t, hasLeaf = All(Seq(), Seq(l)), true
	}
	err := con.Run(context.Background(), t)
	if hasLeaf {
		nd.Assert(l.runs == 1 && (err != nil) == l.fail, "the leaf runs and decides the outcome")
	} else {
		nd.Assert(err == nil, "an empty composite succeeds")
	}
	nd.Reach("end")
}
