package fab

import (
	"bytes"
	"context"
	"io"
	"os"
	"strings"

	"github.com/bobg/fab/zzverif/nd"
)

// VH_C10_trees: a target tree of Commands, Cleans, Files and functions under All, Seq, Deps, ArgTarget and references by name is run in dry-run mode, verbose or not, forced or not.
// The file names in it are any one-byte names of "aobd", which exist as files or a directory or not.
// vh: budget=40s samples=30
func VH_C10_trees() {
	base := nd.TempDir()
	vprog := nd.BinDir() + "/vprog"
	os.Setenv("SHELL", nd.BinDir()+"/sh")
	os.WriteFile(base+"/a", []byte("a"), 0644)
	os.WriteFile(base+"/b", []byte("b"), 0600)
	os.MkdirAll(base+"/d/e", 0755)
	file := func() string { return base + "/" + nd.StrN("file", 1, "aobd") }
	out := func() string {
		if nd.Bool("append") {
			return ">>" + file()
		}
		return file()
	}
	calls, subs := 0, 0
	var sink bytes.Buffer
	leaf := func() Target {
		switch nd.Choice("leaf", 13) {
		case 0:
			return &Command{Cmd: vprog, Args: []string{"out:x", "write:" + base + "/n:x"}, StdoutFile: out()}
		case 1:
			return &Command{Shell: "out:x err:y rm:" + base + "/a", StdoutFile: file(), StderrFile: out()}
		case 2:
			return &Command{Shell: "fail", Stdout: &sink, Stderr: &sink, StdinFile: file()}
		case 3:
			return &Command{Cmd: "nonexistent", StderrFile: out(), Dir: file()}
		case 4:
			fn := func(context.Context, *Controller) io.Writer { return &sink }
			return &Command{Cmd: vprog, Args: []string{"out:x"}, StdoutFn: fn, StderrFn: fn}
		case 5:
			return &Clean{Files: []string{file(), file()}}
		case 6:
			Files(&vhNop{}, nil, []string{file()}, Autoclean(true))
			return &Clean{Autoclean: true}
		case 7:
			return Files(&Command{Shell: "out:x", StdoutFile: file()}, []string{base + "/a"}, []string{base + "/o"})
		case 8:
			return Files(&Clean{Files: []string{file()}}, []string{file()}, nil)
		case 9:
			// a chain of rules
			Files(&Command{Shell: "out:x", StdoutFile: base + "/q1"}, nil, []string{base + "/q1"})
			return Files(Files(&Command{Shell: "in", StdinFile: base + "/q1", StdoutFile: file()}, []string{base + "/q1"}, []string{base + "/q2"}), []string{base + "/q1"}, []string{base + "/q3"})
		case 10:
			calls++
			return F(func(ctx context.Context, con *Controller) error {
				nd.Assert(GetDryRun(ctx), "a function can tell that it is a dry run")
				subs++
				return nil
			})
		case 11:
			return &Command{Cmd: vprog, Env: []string{"X=1"}, Dir: base + "/missing"}
		}
		calls++
		return Files(&vhNop{}, []string{file()}, []string{file()}, Autoclean(true))
	}
	con := NewController(base)
	a := leaf()
	var t Target
	switch nd.Choice("op", 6) {
	case 0:
		t = a
	case 1:
		t = All(a, &Command{Shell: "fail", StdoutFile: base + "/z"})
	case 2:
		t = Seq(a, Shellf("write:%s/z:z", base), &Clean{Files: []string{base + "/b"}})
	case 3:
		t = Deps(a, Shellf("rm:%s/a", base))
	case 4:
		t = ArgTarget(a, "x")
	case 5:
		vhRegister(con, "T", a)
		t = Seq(All(vhNamed(con, "T")), ArgTarget(vhNamed(con, "T"), "-n"))
	}
	before := vhTree(base)
	db := &vhFaultDB{}
	ctx := WithHashDB(context.Background(), db)
	ctx = WithForce(WithVerbose(WithDryRun(ctx, true), nd.Bool("verbose")), nd.Bool("force"))
	err := con.Run(ctx, t)
	nd.Assert(err == nil, "a dry run succeeds")
	nd.Assert(len(nd.Invocations()) == 0, "no process is started")
	nd.Assert(db.hasN == 0 && db.addN == 0, "the database is not used")
	nd.Assert(vhSameFiles(before, vhTree(base)), "no file is changed")
	nd.Assert(sink.Len() == 0, "nothing is written")
	if calls > 0 && subs > 0 {
		nd.Reach("function")
	}
	nd.Reach("end")
}

// VH_C10_yaml: targets read from YAML are run in dry-run mode.
// vh: budget=20s
func VH_C10_yaml() {
	base := nd.TempDir()
	os.Setenv("SHELL", nd.BinDir()+"/sh")
	docs := []string{
		"T: !Command {Shell: 'out:x', Stdout: f}\n", "T: !Command {Shell: ['out:x', 'fail'], Stdout: '>>a', Stderr: e}\n", "T: !Command {Cmd: vprog, Args: [x], Stdin: missing, Stdout: $indent, Stderr: $verbose}\n",
		"T: !Clean [a, b]\n", "T: !Clean {Files: [d], Autoclean: true}\nU: !Files {Target: T, In: [], Out: [a], Autoclean: true}\n", "T: !Files {Target: U, In: [a], Out: [b]}\nU: !Seq [V, V]\nV: !Command {Shell: 'rm:a'}\n",
		"T: !Deps {Pre: [U, V], Post: V}\nU: !Command {Shell: 'write:z:z'}\nV: !ArgTarget [W, -x]\nW: !All [U]\n",
	}
	os.WriteFile(base+"/a", []byte("a"), 0644)
	os.Mkdir(base+"/d", 0755)
	con := NewController(base)
	err := con.ReadYAML(strings.NewReader(docs[nd.Choice("doc", len(docs))]), "")
	nd.Assert(err == nil, "the document is read")
	targets, err := con.ParseArgs([]string{"T"})
	nd.Assert(err == nil, "the target is found")
	before := vhTree(base)
	db := &vhFaultDB{}
	ctx := WithForce(WithVerbose(WithDryRun(WithHashDB(context.Background(), db), true), nd.Bool("verbose")), nd.Bool("force"))
	err = con.Run(ctx, targets...)
	nd.Assert(err == nil, "a dry run succeeds")
	nd.Assert(len(nd.Invocations()) == 0 && db.hasN == 0 && db.addN == 0, "no process is started and the database is not used")
	nd.Assert(vhSameFiles(before, vhTree(base)), "no file is changed")
	nd.Reach("end")
}
