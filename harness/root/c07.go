package fab

import (
	"context"
	"errors"
	"os"
	"strings"

	"github.com/bobg/fab/zzverif/nd"
)

// vhAskDB learns what it is asked for and answers yes, or answers whether it was asked for that before; in the latter case, if not, asking fails.
type vhAskDB struct {
	vhDB
	learning bool
}

var vhWouldRun = &vhErr{"not up to date"}

func (d *vhAskDB) Has(ctx context.Context, h []byte) (bool, error) {
	if d.learning {
		return true, d.Add(ctx, h)
	}
	if has, _ := d.vhDB.Has(ctx, h); has {
		return true, nil
	}
	return false, vhWouldRun
}

// vhSkipped tells whether a rule with the second subtarget is up to date if it was with the first.
func vhSkipped(t1, t2 Target) bool {
	db := &vhAskDB{learning: true}
	ctx := WithHashDB(context.Background(), db)
	err := NewController("").Run(ctx, Files(t1, nil, nil))
	nd.Assert(err == nil, "a rule that is up to date succeeds")
	db.learning = false
	err = NewController("").Run(ctx, Files(t2, nil, nil))
	nd.Assert(err == nil || errors.Is(err, vhWouldRun), "the database is asked")
	return err == nil
}

// vhSub2 is encoded in JSON like vhSub.
type vhSub2 struct{ Def string }

func (*vhSub2) Run(context.Context, *Controller) error { return nil }
func (*vhSub2) Desc() string                           { return "sub2" }

// vhShape is the description of a target.
type vhShape struct {
	kind string
	strs []string
	subs []*vhShape
}

func (s *vhShape) same(t *vhShape) bool {
	if s.kind != t.kind || len(s.strs) != len(t.strs) || len(s.subs) != len(t.subs) {
		return false
	}
	for i := range s.strs {
		if s.strs[i] != t.strs[i] {
			return false
		}
	}
	for i := range s.subs {
		if !s.subs[i].same(t.subs[i]) {
			return false
		}
	}
	return true
}

// norm is a shape that does the same thing without Alls and Seqs of one target.
func (s *vhShape) norm() *vhShape {
	r := &vhShape{kind: s.kind, strs: s.strs}
	for _, k := range s.subs {
		r.subs = append(r.subs, k.norm())
	}
	if (r.kind == "all" || r.kind == "seq") && len(r.subs) == 1 {
		return r.subs[0]
	}
	return r
}

func (s *vhShape) build() Target {
	var subs []Target
	for _, k := range s.subs {
		subs = append(subs, k.build())
	}
	switch s.kind {
	case "all":
		return All(subs...)
	case "seq":
		return Seq(subs...)
	case "arg":
		return ArgTarget(subs[0], s.strs...)
	case "files":
		return Files(subs[0], s.strs[:1], s.strs[1:])
	case "clean":
		return &Clean{Files: s.strs}
	case "autoclean":
		return &Clean{Files: s.strs, Autoclean: true}
	case "shell":
		return &Command{Shell: s.strs[0]}
	case "cmd":
		return &Command{Cmd: s.strs[0], Args: s.strs[1:]}
	case "sub":
		return &vhSub{Def: s.strs[0]}
	}
	return &vhSub2{s.strs[0]}
}

func vhAnyShape() *vhShape {
	str := func() string { return nd.StrN("s", 1, "ab\", [") }
	leaf := func(kind string) *vhShape { return &vhShape{kind: kind, strs: []string{str()}} }
	op := func(kind string, subs ...*vhShape) *vhShape { return &vhShape{kind: kind, subs: subs} }
	switch nd.Choice("shape", 22) {
	case 0:
		return leaf("shell")
	case 1:
		return op("all", leaf("shell"))
	case 2:
		return op("seq", leaf("shell"))
	case 3:
		return op("all", leaf("shell"), leaf("shell"))
	case 4:
		return op("seq", leaf("shell"), leaf("shell"))
	case 5:
		return op("seq", op("all", leaf("shell"), leaf("sub")), leaf("shell"))
	case 6:
		return op("all", op("seq", leaf("shell"), leaf("sub")), leaf("shell"))
	case 7:
		return op("all", leaf("sub"))
	case 8:
		return op("all", leaf("sub2"))
	case 9:
		return op("seq", leaf("sub2"), leaf("shell"))
	case 10:
		return op("seq", leaf("sub"), leaf("shell"))
	case 11:
		return &vhShape{"arg", []string{str()}, []*vhShape{leaf("sub")}}
	case 12:
		return &vhShape{"arg", []string{str(), str()}, []*vhShape{leaf("sub")}}
	case 13:
		return &vhShape{"arg", []string{str()}, []*vhShape{op("seq", leaf("sub"), leaf("shell"))}}
	case 14:
		return &vhShape{"arg", []string{str()}, []*vhShape{leaf("sub2")}}
	case 15:
		return &vhShape{"files", []string{"in" + str(), "out" + str()}, []*vhShape{leaf("sub")}}
	case 16:
		return &vhShape{"files", []string{"in", "out"}, []*vhShape{op("seq", leaf("sub"), leaf("sub2"))}}
	case 17:
		return leaf("clean")
	case 18:
		return leaf("autoclean")
	case 19:
		return &vhShape{"cmd", []string{"a", str()}, nil}
	case 20:
		return &vhShape{"cmd", []string{"a", str(), str()}, nil}
	}
	return op("seq", leaf("clean"), leaf("autoclean"))
}

// VH_C07_shapes: two subtargets of 22 shapes each, made of All, Seq, Deps, ArgTarget, Files, Clean, Command and two user types that look alike in JSON, with any one-byte strings (of 6).
// vh: budget=40s
func VH_C07_shapes() {
	a := vhAnyShape()
	b := vhAnyShape()
	skipped := vhSkipped(a.build(), b.build())
	if a.same(b) {
		nd.Assert(skipped, "a rule with an equal subtarget remains up to date")
		nd.Reach("same")
	} else if !a.norm().same(b.norm()) {
		nd.Assert(!skipped, "a rule is out of date when its subtarget has changed")
		nd.Reach("different")
	}
	nd.Reach("end")
}

// VH_C07_command: two Commands with any two of the fields Shell, Cmd, Args, StdoutFile, StderrFile, StdinFile, Dir and Env set and any one-byte strings (of 6) in one of them
// (for Args and Env, up to two of up to two (thorough: three) bytes).
// vh: budget=60s
func VH_C07_command() {
	n := nd.Tier(2, 3)
	list := func(max int) []string {
		var l []string
		for k := nd.Choice("len", max+1); k > 0; k-- {
			l = append(l, nd.Str("s", n, "a\","))
		}
		return l
	}
	one := func() string { return nd.Str("s", 1, "ab\", \\") }
	field := nd.Choice("field", 8)
	other := (field + 1 + nd.Choice("other", 7)) % 8
	if field == 2 || field == 7 {
		nd.Assume(other == nd.Tier(1, other))
	}
	gen := func() *Command {
		c := &Command{Cmd: "x"}
		for i := 0; i < 2; i++ {
			s := "k"
			f := other
			if i == 1 {
				f = field
				if f != 2 && f != 7 {
					s = one()
				}
			}
			switch f {
			case 0:
				c.Cmd = ""
				c.Shell = s
			case 1:
				c.Cmd = "x" + s
			case 2:
				c.Args = []string{s}
				if i == 1 {
					c.Args = list(2)
				}
			case 3:
				c.StdoutFile = s
			case 4:
				c.StderrFile = s
			case 5:
				c.StdinFile = s
			case 6:
				c.Dir = s
			case 7:
				c.Env = []string{s}
				if i == 1 {
					c.Env = list(2)
				}
			}
		}
		return c
	}
	a, b := gen(), gen()
	eq := func(x, y []string) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	same := a.Shell == b.Shell && a.Cmd == b.Cmd && eq(a.Args, b.Args) && a.StdoutFile == b.StdoutFile && a.StderrFile == b.StderrFile &&
		a.StdinFile == b.StdinFile && a.Dir == b.Dir && eq(a.Env, b.Env)
	skipped := vhSkipped(a, b)
	nd.Assert(skipped == same, "a rule remains up to date iff no field of its Command has changed")
	nd.Reach("end")
}

// VH_C07_fields: two Commands that have any one-byte string in one field each, chosen separately: they differ unless it is the same field.
// vh: budget=20s
func VH_C07_fields() {
	s := nd.StrN("s", 1, "ab")
	gen := func() (int, *Command) {
		f := nd.Choice("field", 6)
		c := &Command{Cmd: "x"}
		switch f {
		case 0:
			c.Args = []string{s}
		case 1:
			c.StdoutFile = s
		case 2:
			c.StderrFile = s
		case 3:
			c.StdinFile = s
		case 4:
			c.Dir = s
		case 5:
			c.Env = []string{s}
		}
		return f, c
	}
	f, a := gen()
	g, b := gen()
	nd.Assert(vhSkipped(a, b) == (f == g), "a rule is out of date when something else is set")
	nd.Reach("end")
}

// VH_C07_yaml: a project with two YAML files whose rule R has a subtarget given directly, by name, by name in another file, or nested in Seq, All, Deps, ArgTarget or Files,
// is run by a process, one of the commands' arguments in it may get any value of 9, and it is run by a new process: R is run again iff what its subtarget does has changed.
// vh: budget=40s
func VH_C07_yaml() {
	base := nd.TempDir()
	vprog := nd.BinDir() + "/vprog"
	os.MkdirAll(base+"/d", 0755)
	targets := []string{
		"T", "!All [T, U]", "!Seq [U, T]", "!Deps [T, U]", "!ArgTarget [T, x]", "!Seq [Z, U]", "d/T", "!All [d/T, U]", "!Seq [d/V, d/W]", "Z",
		"!Files {Target: T, In: [i], Out: [o2]}", "!Command {Cmd: VPROG, Args: [1]}", "!Seq [!Command {Cmd: VPROG, Args: [1]}, !All [Y]]", "Q",
	}
	// which targets each of these depends on
	uses := []string{"T", "TU", "TU", "TU", "T", "TU", "d", "dU", "vT", "T", "T", "1", "1U", "TU"}
	which := nd.Choice("target", len(targets))
	text := map[string]string{"T": "1", "U": "2", "d": "3", "v": "4", "1": "5", "X": "6"}
	doc := func() {
		root := "R: !Files\n  Target: " + strings.Replace(targets[which], "[1]", "["+text["1"]+"]", 1) + "\n  In: [i]\n  Out: [o]\n" +
			"T: !Command {Cmd: VPROG, Args: [" + text["T"] + "]}\n" +
			"U: !Command {Cmd: VPROG, Args: [" + text["U"] + "]}\n" +
			"X: !Command {Cmd: VPROG, Args: [" + text["X"] + "]}\n" +
			"Z: T\nY: !All [U]\nQ: !Seq [Y, Z]\n"
		sub := "_dir: d\nT: !Command {Cmd: VPROG, Args: [" + text["d"] + "]}\nV: !Command {Cmd: VPROG, Args: [" + text["v"] + "]}\nW: !Seq [../T, T]\n"
		os.WriteFile(base+"/fab.yaml", []byte(strings.ReplaceAll(root, "VPROG", vprog)), 0644)
		os.WriteFile(base+"/d/fab.yaml", []byte(strings.ReplaceAll(sub, "VPROG", vprog)), 0644)
	}
	db := &vhDB{}
	run := func() int {
		con := NewController(base)
		err := con.ReadYAMLFile("")
		nd.Assert(err == nil, "the project is read")
		targets, err := con.ParseArgs([]string{"R"})
		nd.Assert(err == nil, "the rule is found")
		n := len(nd.Invocations())
		err = con.Run(WithHashDB(context.Background(), db), targets...)
		if err != nil {
			panic(err)
		}
		nd.Assert(err == nil, "the run succeeds")
		return len(nd.Invocations()) - n
	}
	doc()
	nd.Assert(run() > 0, "a new rule is run")
	change := []string{"", "T", "U", "d", "v", "1", "X"}[nd.Choice("change", 7)]
	changed := false
	if change != "" {
		old := text[change]
		text[change] = nd.StrN("text", 1, "123456xyz")
		changed = text[change] != old
	}
	doc()
	again := run() > 0
	nd.Assert(again == (changed && strings.Contains(uses[which], change)), "the rule is run again iff what it would do has changed")
	nd.Assert(run() == 0, "the rule is then up to date")
	nd.Reach("end")
}

// VH_C07_split: two lists, the arguments or environment of a Command, the arguments of an ArgTarget or the files of a Clean: "a", "b" and one string with any zero to two (thorough: three) ASCII bytes between a and b,
// or also with such bytes before a or after b; or one list is the other with any string of up to two such bytes added at the start, in the middle or the end: they differ.
// vh: budget=40s tbudget=300s
func VH_C07_split() {
	kind := nd.Choice("kind", 4)
	build := func(l ...string) Target {
		switch kind {
		case 0:
			return &Command{Cmd: "x", Args: l}
		case 1:
			return &Command{Cmd: "x", Env: l}
		case 2:
			return ArgTarget(&vhSub{Def: "x"}, l...)
		}
		return &Clean{Files: l}
	}
	ascii := make([]byte, 128)
	for i := range ascii {
		ascii[i] = byte(i)
	}
	sep := nd.Str("sep", nd.Tier(2, 3), string(ascii))
	a, b := []string{"a", "b"}, []string{"a" + sep + "b"}
	switch nd.Choice("where", 6) {
	case 1:
		a, b = []string{"a" + sep, "b"}, []string{"a", sep + "b"}
		nd.Assume(sep != "")
	case 2:
		b = []string{sep, "a", "b"}
	case 3:
		b = []string{"a", sep, "b"}
	case 4:
		b = []string{"a", "b", sep}
	case 5:
		a, b = nil, []string{sep}
	}
	nd.Assert(!vhSkipped(build(a...), build(b...)), "a rule is out of date when a list has changed")
	nd.Assert(vhSkipped(build(b...), build(b...)), "a rule remains up to date when its lists are as before")
	nd.Reach("end")
}
