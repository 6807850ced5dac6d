package fab

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"os/exec"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab/zzverif/nd"
)

// vhEnvIs checks the environment of a process: the last of the listed settings of each variable counts, and all others are as in this process.
func vhEnvIs(in nd.Invocation, listed []string) {
	want := map[string]string{}
	for _, l := range [][]string{os.Environ(), listed} {
		for _, kv := range l {
			if k, v, ok := strings.Cut(kv, "="); ok && k != "" {
				want[k] = v
			}
		}
	}
	for k, v := range want {
		if k == "PWD" || strings.HasPrefix(k, "ZZ") {
			continue
		}
		got, ok := in.Getenv(k)
		nd.Assert(ok && got == v, "the process has the environment of fab and the listed variables")
	}
	for _, kv := range in.Env {
		k, _, _ := strings.Cut(kv, "=")
		if k == "PWD" || k == "" || strings.HasPrefix(k, "ZZ") {
			continue
		}
		_, ok := want[k]
		nd.Assert(ok, "the process has no other variables")
	}
}

// vhSameStrs compares string lists.
func vhSameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// VH_C12_process: a Command with any Args (up to two, of up to two of the bytes of "a-$' \n"), any two settings of variables out of five (or none), and a directory (none, absolute, relative, with a dollar sign in its name, missing, or a file);
// the program is given by absolute path, relative path or name, or it is missing or not executable; it reads its standard input, which is any two bytes from a reader or a file, nothing, or a missing file; it exits with any of four codes. The target is run twice, in two controllers.
// vh: budget=60s tbudget=300s
func VH_C12_process() {
	base := nd.TempDir()
	nd.Assert(os.MkdirAll(base+"/d", 0755) == nil && os.MkdirAll(base+"/$ONE", 0755) == nil && os.Chdir(base) == nil, "harness: directory")
	os.Setenv("PATH", nd.BinDir())
	os.Setenv("ZERO", "0")
	os.Setenv("ONE", "1")
	os.WriteFile(base+"/plain", []byte("x"), 0644)
	os.Symlink(nd.BinDir(), base+"/bin")
	os.Symlink(nd.BinDir(), base+"/d/bin")
	os.Symlink(nd.BinDir(), base+"/$ONE/bin")
	c := &Command{}
	starts := true
	code := nd.Choice("code", 4)
	exit := "exit:" + string(rune('0'+code))
	switch nd.Choice("cmd", 5) {
	case 0:
		c.Cmd = nd.BinDir() + "/vprog"
	case 1:
		c.Cmd = "vprog"
	case 2:
		c.Cmd = "bin/vprog"
	case 3:
		c.Cmd = "vmissing"
		starts = false
	case 4:
		c.Cmd = base + "/plain"
		starts = false
	}
	var extra []string
	for i, n := 0, nd.Choice("nargs", 3); i < n; i++ {
		extra = append(extra, nd.Str("arg", 2, "a-$' \n"))
	}
	if code != 0 || nd.Choice("args", 2) == 1 {
		c.Args = append(append([]string{"in", "out:!"}, extra...), exit)
	} else if len(extra) > 0 {
		c.Args = extra
	}
	if nd.Choice("env", 2) == 1 {
		vals := []string{"ONE=x", "ONE=", "TWO=2", "ZERO=a=b", "TWO= "}
		c.Env = []string{vals[nd.Choice("var", 5)], vals[nd.Choice("var", 5)]}
	}
	dir := base
	switch nd.Choice("dir", 6) {
	case 5:
		c.Dir, dir = "$ONE", base+"/$ONE"
	case 1:
		c.Dir, dir = base+"/d", base+"/d"
	case 2:
		c.Dir, dir = "d", base+"/d"
	case 3:
		c.Dir, starts = "missing", false
	case 4:
		c.Dir, starts = base+"/plain", false
	}
	input, rd := "", 0
	if len(c.Args) > 0 && c.Args[0] == "in" {
		rd = nd.Choice("stdin", 4)
	}
	switch rd {
	case 1:
		input = nd.StrN("input", 2, "\x00a\n\xff")
		c.Stdin = strings.NewReader(input)
	case 2:
		input = nd.StrN("input", 2, "\x00a\n\xff")
		os.WriteFile(base+"/in", []byte(input), 0644)
		c.StdinFile = base + "/in"
	case 3:
		c.StdinFile, starts = base+"/none", false
	}
	want := append([]string(nil), c.Args...)
	wantEnv := append([]string(nil), c.Env...)
	before := *c
	for round := 1; round <= 2; round++ {
		if rd == 1 {
			c.Stdin = strings.NewReader(input)
			before.Stdin = c.Stdin
		}
		err := NewController(base).Run(context.Background(), c)
		invs := nd.Invocations()
		if !starts {
			nd.Assert(err != nil, "a process that cannot be started is an error")
			nd.Assert(len(invs) == 0, "no process is started")
		} else {
			nd.Assert(len(invs) == round, "one process is started")
			in := invs[round-1]
			nd.Assert(in.Name == "vprog", "it runs the named program")
			nd.Assert(vhSameStrs(in.Args, want), "it has exactly the arguments")
			nd.Assert(in.Dir == dir, "it runs in the directory")
			vhEnvIs(in, wantEnv)
			if len(want) > 0 && want[0] == "in" {
				nd.Assert(in.Stdin == input, "it has the standard input")
				nd.Assert((err == nil) == (code == 0), "it succeeds iff the process does")
			} else {
				nd.Assert(err == nil, "it succeeds iff the process does")
			}
		}
		if err != nil && starts {
			var ee *exec.ExitError
			nd.Assert(errors.As(err, &ee) && ee.ExitCode() == code, "the error unwraps to that of the process")
			var ce CommandErr
			nd.Assert(errors.As(err, &ce) && string(ce.Output) == input+"!", "the error carries the output")
			nd.Assert(strings.Contains(err.Error(), input+"!"), "the error text has the output")
		}
		nd.Assert(vhSameStrs(c.Args, want) && vhSameStrs(c.Env, wantEnv) && c.Cmd == before.Cmd && c.Shell == "" && c.Dir == before.Dir && c.Stdin == before.Stdin && c.StdinFile == before.StdinFile, "the target is unchanged")
	}
	nd.Reach("end")
}

// VH_C12_exit: a program that writes nothing, a byte, or 90 thousand bytes, and ends with any exit code up to 79 or from 209 on, or is killed by a signal; for a Command with Cmd or Shell, run directly or by a controller, verbose or not.
// vh: budget=30s
func VH_C12_exit() {
	base := nd.TempDir()
	os.Setenv("SHELL", nd.BinDir()+"/sh")
	code, end := -1, "kill"
	if !nd.Bool("killed") {
		b := nd.Byte("code")
		nd.Assume(b != 0)
		nd.Assume(b != ' ' && b != '\n' && b != '\t' && b != '\v' && b != '\f' && b != '\r' && b < 0x80) // one word
		code, end = int(b-'0'), "exit:"+string([]byte{b})
	}
	out, act := "", "out:"
	switch nd.Choice("output", 3) {
	case 1:
		out, act = "x", "out:x"
	case 2:
		out, act = nd.Big(90), "big:"+string([]byte{'0' + 90})
	}
	c := &Command{Cmd: nd.BinDir() + "/vprog", Args: []string{act, end}}
	if nd.Bool("shell") {
		c = &Command{Shell: act + " " + end}
	}
	verbose := nd.Bool("verbose")
	stdout, err := os.Create(base + "/out")
	nd.Assert(err == nil, "harness: output file")
	os.Stdout = stdout
	ctx := WithVerbose(context.Background(), verbose)
	con := NewController(base)
	if nd.Bool("controller") {
		err = con.Run(ctx, c)
	} else {
		err = c.Run(ctx, con)
	}
	nd.Assert((err == nil) == (code == 0), "it succeeds iff the process does")
	if err != nil {
		var ee *exec.ExitError
		nd.Assert(errors.As(err, &ee) && ee.ExitCode() == code, "the error unwraps to that of the process")
		var ce CommandErr
		is := errors.As(err, &ce)
		if !verbose && out != "" {
			nd.Assert(is && string(ce.Output) == out, "the error carries the output")
			nd.Assert(strings.Contains(ce.Error(), out), "the error text has the output")
		} else {
			nd.Assert(!is || len(ce.Output) == 0, "output that was not captured is not in the error")
		}
	}
	nd.Reach("end")
}

// VH_C12_shell: a Command with any shell string of up to four bytes of "a -c'$\n", and Args that must not matter; SHELL names one of two programs by path or name, is empty, or is not set (then /bin/sh is used).
// vh: budget=20s
func VH_C12_shell() {
	base := nd.TempDir()
	os.Setenv("PATH", nd.BinDir())
	name := "sh"
	def := false
	switch nd.Choice("shell", 5) {
	case 0:
		os.Setenv("SHELL", nd.BinDir()+"/sh")
	case 1:
		name = "vprog"
		os.Setenv("SHELL", nd.BinDir()+"/vprog")
	case 2:
		name = "vprog"
		os.Setenv("SHELL", "vprog")
	case 3:
		def = true
		os.Setenv("SHELL", "")
	case 4:
		def = true
		os.Unsetenv("SHELL")
	}
	c := &Command{Shell: nd.Str("string", 4, "a -c'$\n")}
	if nd.Bool("args") {
		c.Args = []string{"x", "y"}
	}
	if def && !nd.Symbolic() {
		// Natively that is a real shell.
		c.Shell = "echo $0 $1"
		var buf bytes.Buffer
		c.Stdout = &buf
		err := NewController(base).Run(context.Background(), c)
		nd.Assert(err == nil && strings.TrimSpace(buf.String()) == "/bin/sh", "one process is started")
		nd.Reach("end")
		return
	}
	err := NewController(base).Run(context.Background(), c)
	nd.Assert(err == nil, "it succeeds iff the process does")
	invs := nd.Invocations()
	nd.Assert(len(invs) == 1, "one process is started")
	nd.Assert(invs[0].Name == name, "it is the user's shell")
	nd.Assert(vhSameStrs(invs[0].Args, []string{"-c", c.Shell}), "the shell gets -c and the string")
	nd.Reach("end")
}

// VH_C12_result: a program that writes any up to two bytes to standard output and to standard error and exits with code 0 or 1, for a Command with each of the streams unset or a writer, verbose or not, run directly or by a controller or below a Seq; or the context is cancelled before.
// vh: budget=30s
func VH_C12_result() {
	base := nd.TempDir()
	so, se := nd.Str("out", 2, "a\n\xff"), nd.Str("err", 2, "b\n")
	code := nd.Choice("code", 2)
	c := &Command{Cmd: nd.BinDir() + "/vprog", Args: []string{"out:" + so, "err:" + se, "out:z", "exit:" + string(rune('0'+code))}}
	captured := ""
	var w1, w2 bytes.Buffer
	setOut, setErr := nd.Bool("stdout"), nd.Bool("stderr")
	if setOut {
		c.Stdout = &w1
	} else {
		captured = so
	}
	if setErr {
		c.Stderr = &w2
	} else {
		captured += se
	}
	if !setOut {
		captured += "z"
	}
	verbose := nd.Bool("verbose")
	ctx, cancel := context.WithCancel(WithVerbose(context.Background(), verbose))
	defer cancel()
	cancelled := nd.Bool("cancelled")
	if cancelled {
		cancel()
	}
	devnull, err := os.Create(base + "/out")
	nd.Assert(err == nil, "harness: output file")
	os.Stdout, os.Stderr = devnull, devnull
	con := NewController(base)
	after := &vhNop{}
	seq := false
	switch nd.Choice("how", 3) {
	case 0:
		err = c.Run(ctx, con)
	case 1:
		err = con.Run(ctx, c)
	case 2:
		seq = true
		err = con.Run(ctx, Seq(c, after))
	}
	invs := nd.Invocations()
	if cancelled {
		nd.Assert(err != nil && len(invs) == 0, "nothing is started once the context is cancelled")
		nd.Assert(errors.Is(err, context.Canceled), "the error is that of the context")
		nd.Reach("cancelled")
		return
	}
	nd.Assert(len(invs) == 1, "one process is started")
	nd.Assert((err == nil) == (code == 0), "it succeeds iff the process does")
	nd.Assert(!seq || (after.runs == 1) == (code == 0), "a Seq goes on iff the process succeeds")
	if err != nil {
		var ee *exec.ExitError
		nd.Assert(errors.As(err, &ee) && ee.ExitCode() == code, "the error unwraps to that of the process")
		var ce CommandErr
		is := errors.As(err, &ce)
		if !verbose && captured != "" {
			if !setOut && !setErr {
				nd.Assert(is && string(ce.Output) == so+se+"z", "the error carries the output in order")
			} else {
				nd.Assert(is && string(ce.Output) == captured, "the error carries the output")
			}
			nd.Assert(ce.Err != nil && ce.Unwrap() == ce.Err && strings.Contains(err.Error(), ce.Err.Error()), "the error has the error of the process")
			nd.Assert(strings.Contains(err.Error(), captured), "the error text has the output")
		} else {
			nd.Assert(!is || len(ce.Output) == 0, "output that was not captured is not in the error")
		}
	}
	if setOut {
		nd.Assert(w1.String() == so+"z", "the writer gets the output")
	}
	if setErr {
		nd.Assert(w2.String() == se, "the writer gets the error output")
	}
	nd.Reach("end")
}

// VH_C12_yaml: a Command in YAML in any of three directories, with Shell or with Cmd and up to two Args (literally or from a list function), Env, Dir (none, relative, or absolute) and Stdin (none, relative or absolute file, or $stdin), is run.
// vh: budget=30s
func VH_C12_yaml() {
	base := nd.TempDir()
	for _, d := range []string{"p/q", "p/q/d", "p/d", "d"} {
		os.MkdirAll(base+"/"+d, 0755)
		os.WriteFile(base+"/"+d+"/in", []byte("in "+d), 0644)
	}
	os.Setenv("SHELL", nd.BinDir()+"/sh")
	ydir := []string{"", "p", "p/q"}[nd.Choice("dir", 3)]
	in := base
	if ydir != "" {
		in = base + "/" + ydir
	}
	node := vhMap("!Command")
	add := func(k string, v *yaml.Node) { node.Content = append(node.Content, vhScalar(k), v) }
	var name string
	var args []string
	if nd.Bool("shell") {
		s := nd.Str("string", 2, "a $")
		add("Shell", vhScalar("in "+s))
		name, args = "sh", []string{"-c", "in " + s}
	} else {
		add("Cmd", vhScalar(nd.BinDir()+"/vprog"))
		name, args = "vprog", []string{"in"}
		list := vhSeq("", vhScalar("in"))
		for i, n := 0, nd.Choice("nargs", 3); i < n; i++ {
			a := nd.Str("arg", 1, "a $!")
			args = append(args, a)
			list.Content = append(list.Content, vhScalar(a))
		}
		if nd.Bool("function") {
			RegisterYAMLStringList("ZZlist", func(con *Controller, n *yaml.Node, dir string) ([]string, error) {
				nd.Assert(dir == ydir, "the list function gets the directory")
				return append([]string{}, args...), nil
			})
			add("Args", vhSeq("!ZZlist"))
		} else {
			add("Args", list)
		}
	}
	var env []string
	if nd.Bool("env") {
		env = []string{"ZERO=" + nd.Str("value", 1, "a= "), "SHELL=q"}
		add("Env", vhSeq("", vhScalar(env[0]), vhScalar(env[1])))
	}
	dir := in
	switch nd.Choice("cd", 4) {
	case 1:
		add("Dir", vhScalar("d"))
		dir = in + "/d"
	case 2:
		add("Dir", vhScalar(base+"/p"))
		dir = base + "/p"
	case 3:
		add("Dir", vhScalar("./d/.."))
	}
	input := ""
	switch nd.Choice("stdin", 4) {
	case 1:
		add("Stdin", vhScalar("d/in"))
		input = "in d"
		if ydir != "" {
			input = "in " + ydir + "/d"
		}
	case 2:
		add("Stdin", vhScalar(base+"/p/d/in"))
		input = "in p/d"
	case 3:
		add("Stdin", vhScalar("$stdin"))
		input = "fab's input"
		os.WriteFile(base+"/stdin", []byte(input), 0644)
		f, err := os.Open(base + "/stdin")
		nd.Assert(err == nil, "harness: input")
		os.Stdin = f
	}
	before := vhTree(base)
	con := NewController(base)
	t, err := con.YAMLTarget(node, ydir)
	nd.Assert(err == nil, "the Command is decoded")
	err = con.Run(context.Background(), t)
	nd.Assert(err == nil, "it succeeds iff the process does")
	invs := nd.Invocations()
	nd.Assert(len(invs) == 1, "one process is started")
	nd.Assert(invs[0].Name == name && vhSameStrs(invs[0].Args, args), "the program and arguments are as written")
	nd.Assert(invs[0].Dir == dir, "it runs in the directory")
	nd.Assert(invs[0].Stdin == input, "it has the standard input")
	vhEnvIs(invs[0], env)
	nd.Assert(vhSameFiles(vhTree(base), before), "no file is changed")
	nd.Reach("end")
}

// VH_C12_fault: one or both of the output streams of a program that writes any up to two bytes to each go to writers of which any may fail; the program exits with code 0 or 1.
// vh: budget=20s
func VH_C12_fault() {
	base := nd.TempDir()
	code := nd.Choice("code", 2)
	so, se := nd.Str("out", 2, "a"), nd.Str("err", 2, "b")
	c := &Command{Cmd: nd.BinDir() + "/vprog", Args: []string{"out:" + so, "err:" + se, "exit:" + string(rune('0'+code))}}
	f1, f2 := nd.Bool("fail"), nd.Bool("fail")
	w1, w2 := &vhFailWriter{fail: f1}, &vhFailWriter{fail: f2}
	c.Stdout = w1
	fails := f1 && so != ""
	if nd.Bool("stderr") {
		fails = fails || f2 && se != ""
		c.StderrFn = func(context.Context, *Controller) io.Writer { return w2 }
	}
	err := NewController(base).Run(context.Background(), c)
	if code == 0 {
		nd.Assert((err != nil) == fails, "output that cannot be delivered is an error, and nothing else is")
		nd.Assert(err == nil || errors.Is(err, errVhWrite), "the error is that of the writer")
	} else {
		nd.Assert(err != nil, "it succeeds iff the process does")
	}
	nd.Reach("end")
}

var errVhWrite = errors.New("writer")

type vhFailWriter struct {
	fail bool
	buf  bytes.Buffer
}

func (w *vhFailWriter) Write(b []byte) (int, error) {
	if w.fail {
		return 0, errVhWrite
	}
	return w.buf.Write(b)
}
