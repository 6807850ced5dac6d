package fab

import (
	"context"

	"github.com/bobg/fab/zzverif/nd"
)

type vhSettings struct {
	dry, force, verbose bool
	db                  *vhDB
	args                []string
}

func vhCheckSettings(ctx context.Context, s vhSettings) {
	nd.Assert(GetDryRun(ctx) == s.dry, "the dry-run setting is read back")
	nd.Assert(GetForce(ctx) == s.force, "the force setting is read back")
	nd.Assert(GetVerbose(ctx) == s.verbose, "the verbose setting is read back")
	db := GetHashDB(ctx)
	if s.db == nil {
		nd.Assert(db == nil, "there is no hash database by default")
	} else {
		nd.Assert(db == HashDB(s.db), "the hash database is read back")
	}
	args := GetArgs(ctx)
	nd.Assert(len(args) == len(s.args), "the arguments are read back")
	for i := range args {
		nd.Assert(args[i] == s.args[i], "the arguments are read back in order")
	}
}

// VH_C26_settings: any sequence of four (thorough: five) settings with any values, each applied to any context made before;
// all contexts are read back after each.
// vh: budget=20s
func VH_C26_settings() {
	ctxs := []context.Context{context.Background()}
	model := []vhSettings{{}}
	vhCheckSettings(ctxs[0], model[0])
	dbs := []*vhDB{{}, {}}
	n := nd.Tier(4, 5)
	for i := 0; i < n; i++ {
		from := nd.Choice("from", i+1)
		ctx, s := ctxs[from], model[from]
		switch nd.Choice("setting", 5) {
		case 0:
			s.dry = nd.Bool("dry")
			ctx = WithDryRun(ctx, s.dry)
		case 1:
			s.force = nd.Bool("force")
			ctx = WithForce(ctx, s.force)
		case 2:
			s.verbose = nd.Bool("verbose")
			ctx = WithVerbose(ctx, s.verbose)
		case 3:
			s.db = dbs[i%2]
			ctx = WithHashDB(ctx, s.db)
		case 4:
			s.args = nil
			for k := i % 3; k > 0; k-- {
				s.args = append(s.args, nd.StrN("arg", 1, ""))
			}
			ctx = WithArgs(ctx, s.args...)
		}
		ctxs, model = append(ctxs, ctx), append(model, s)
		for j := range ctxs {
			vhCheckSettings(ctxs[j], model[j])
		}
	}
	nd.Reach("end")
}

// vhArgs is a leaf that records the settings it runs with.
type vhArgs struct {
	runs int
	ctx  context.Context
	want vhSettings
}

func (a *vhArgs) Run(ctx context.Context, con *Controller) error {
	a.runs++
	a.ctx = ctx
	return nil
}
func (*vhArgs) Desc() string { return "args" }

// vhArgTree builds a target tree of the given height and appends its leaves to leaves.
func vhArgTree(height int, s vhSettings, leaves *[]*vhArgs) Target {
	kinds := 7
	if height == 0 {
		kinds = 1
	}
	switch nd.Choice("kind", kinds) {
	case 1:
		return All(vhArgTree(height-1, s, leaves), vhArgTree(0, s, leaves))
	case 2:
		return Seq(vhArgTree(0, s, leaves), vhArgTree(height-1, s, leaves), vhArgTree(0, s, leaves))
	case 3:
		return Deps(vhArgTree(height-1, s, leaves), vhArgTree(0, s, leaves))
	case 4, 5:
		s.args = nil
		if nd.Bool("hasargs") {
			s.args = []string{nd.StrN("arg", 1, ""), nd.StrN("arg", 2, "")}
		}
		return ArgTarget(vhArgTree(height-1, s, leaves), s.args...)
	case 6:
		inner := vhArgTree(height-1, s, leaves)
		return F(func(ctx context.Context, con *Controller) error { return con.Run(ctx, inner) })
	}
	l := &vhArgs{want: s}
	*leaves = append(*leaves, l)
	return l
}

// VH_C26_argtarget: any tree of ArgTarget, All, Seq, Deps and F of height four (thorough: five) with any arguments and
// settings, run next to a sibling; each leaf sees the arguments of its nearest ArgTarget and all other settings.
// vh: budget=20s
func VH_C26_argtarget() {
	con := NewController("")
	var s vhSettings
	s.dry, s.force = nd.Bool("dry"), nd.Bool("force")
	s.db = &vhDB{}
	s.args = []string{"outer"}
	ctx := WithArgs(WithHashDB(WithForce(WithDryRun(context.Background(), s.dry), s.force), s.db), s.args...)
	var leaves []*vhArgs
	t := vhArgTree(nd.Tier(4, 5), s, &leaves)
	sib := vhArgTree(0, s, &leaves)
	nd.Assert(con.Run(ctx, t, sib) == nil, "the run succeeds")
	for _, l := range leaves {
		nd.Assert(l.runs == 1, "every leaf runs once")
		vhCheckSettings(l.ctx, l.want)
	}
	vhCheckSettings(ctx, s)
	nd.Reach("end")
}

// VH_C26_verbose: the verbose setting also reaches every target below an ArgTarget.
// vh: budget=5s
func VH_C26_verbose() {
	con := NewController("")
	s := vhSettings{verbose: nd.Bool("verbose")}
	var leaves []*vhArgs
	in := s
	in.args = []string{nd.StrN("arg", 1, "")}
	l1 := vhArgTree(0, in, &leaves)
	l2 := vhArgTree(0, s, &leaves)
	err := con.Run(WithVerbose(context.Background(), s.verbose), Seq(ArgTarget(All(l1), in.args...), l2))
	nd.Assert(err == nil, "the run succeeds")
	for _, l := range leaves {
		vhCheckSettings(l.ctx, l.want)
	}
	nd.Reach("end")
}
