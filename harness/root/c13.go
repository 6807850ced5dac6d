package fab

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"strings"

	"github.com/bobg/fab/zzverif/nd"
)

// vhCloser is a writer that is closed.
type vhCloser struct {
	buf    bytes.Buffer
	closed int
	err    error
}

func (w *vhCloser) Write(b []byte) (int, error) {
	nd.Assert(w.closed == 0, "nothing is written to a closed writer")
	return w.buf.Write(b)
}
func (w *vhCloser) Close() error { w.closed++; return w.err }

// vhStdFiles makes files take the standard output and error, and returns functions that tell what they got.
func vhStdFiles(base string) (so, se func() string) {
	var fs [2]func() string
	for i, n := range []string{"stdout", "stderr"} {
		p := base + "/" + n
		f, err := os.Create(p)
		nd.Assert(err == nil, "harness: output file")
		if i == 0 {
			os.Stdout = f
		} else {
			os.Stderr = f
		}
		fs[i] = func() string {
			b, err := os.ReadFile(p)
			nd.Assert(err == nil, "harness: output file")
			return string(b)
		}
	}
	return fs[0], fs[1]
}

// vhIndented is what a copier with the given indentation makes of text without carriage returns.
func vhIndented(text, indent string) string {
	r, bol := "", true
	for i := 0; i < len(text); i++ {
		if bol && text[i] != '\n' {
			r += indent
		}
		bol = text[i] == '\n'
		r += text[i : i+1]
	}
	return r
}

// vhRead is a file's contents, or "absent".
func vhRead(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		nd.Assert(errors.Is(err, os.ErrNotExist), "harness: reading file")
		return "absent"
	}
	return string(b)
}

// VH_C13_routes: a program that writes up to three pieces of any one byte of "x\n\xff" to standard output, standard error, and standard output, and exits with code 0 or 1, has each stream unset, or go to a writer, to a file (new or not) to be overwritten or appended to, or to a writer made by a function (or nil, or one with a Close method that may fail);
// both may also be the same writer, the same file spelled alike or not, or writers made by functions; verbose or not, at depth 0 or 1. The target is run twice (in the thorough tier, three times), and nothing else is changed.
// vh: budget=60s tbudget=300s
func VH_C13_routes() {
	base := nd.TempDir()
	os.MkdirAll(base+"/d", 0755)
	os.WriteFile(base+"/other", []byte("other"), 0644)
	nd.Assert(os.Chdir(base+"/d") == nil, "harness: directory")
	stdout, stderr := vhStdFiles(base)
	exists := nd.Bool("exists")
	files := map[string]string{base + "/o": "absent", base + "/d/e": "absent"}
	if exists {
		for f := range files {
			os.WriteFile(f, []byte("old\n"), 0644)
			files[f] = "old\n"
		}
	}
	before := vhTree(base)
	o1, e1, o2 := nd.Str("out", 1, "x\n\xff"), nd.StrN("err", 1, "y\n"), nd.Str("out", 1, "z\n")
	code := nd.Choice("code", 2)
	c := &Command{Cmd: nd.BinDir() + "/vprog", Args: []string{"out:" + o1, "err:" + e1, "out:" + o2, "exit:" + string(rune('0'+code))}}
	depth := nd.Choice("depth", 2)
	verbose := nd.Bool("verbose")
	ctx := WithVerbose(context.Background(), verbose)

	// where each stream goes
	const (
		unset = iota
		writer
		overwrite
		appnd
		fn
		fnNil
		fnClose
		same
	)
	so := nd.Choice("stdout", same)
	se := nd.Choice("stderr", same+1)
	var w1, w2 bytes.Buffer
	var cl1, cl2 *vhCloser
	closeErr := &vhErr{"closing"}
	newCloser := func(w *bytes.Buffer) *vhCloser {
		cl := &vhCloser{}
		if nd.Bool("closeerr") {
			cl.err = closeErr
		}
		return cl
	}
	calls := 0
	mk := func(w io.Writer) func(context.Context, *Controller) io.Writer {
		return func(c context.Context, con *Controller) io.Writer {
			nd.Assert(con != nil && c != nil && GetVerbose(c) == verbose, "the function gets context and controller")
			calls++
			return w
		}
	}
	wantCalls := 0
	conflict := false
	switch so {
	case writer:
		c.Stdout = &w1
	case overwrite:
		c.StdoutFile = base + "/o"
	case appnd:
		c.StdoutFile = []string{">>" + base + "/o", ">> " + base + "/o", ">>../o"}[nd.Choice("sp", 3)]
	case fn:
		c.StdoutFn = mk(&w1)
		wantCalls++
	case fnNil:
		c.StdoutFn = mk(nil)
		wantCalls++
	case fnClose:
		cl1 = newCloser(&w1)
		c.StdoutFn = mk(cl1)
		wantCalls++
	}
	switch se {
	case writer:
		c.Stderr = &w2
	case overwrite:
		c.StderrFile = "e" // relative to the working directory
		c.Dir = base
	case appnd:
		c.StderrFile = []string{">>" + base + "/d/e", ">>./e"}[nd.Choice("sp", 2)]
	case fn:
		c.StderrFn = mk(&w2)
		wantCalls++
	case fnNil:
		c.StderrFn = mk(nil)
		wantCalls++
	case fnClose:
		cl2 = newCloser(&w2)
		c.StderrFn = mk(cl2)
		wantCalls++
	case same:
		switch so {
		case unset, fnNil, fnClose:
			nd.Assume(false)
		case writer:
			c.Stderr = c.Stdout
		case fn:
			c.StderrFn = c.StdoutFn
			wantCalls++
		default:
			spell := []string{base + "/o", base + "//d/../o", "../o", "../d/.././o"}[nd.Choice("spell", 4)]
			if nd.Bool("append") {
				conflict = so == overwrite
				spell = ">>" + spell
			} else {
				conflict = so == appnd
			}
			c.StderrFile = spell
		}
	}
	outs, errs := "", "" // so far
	wantW1, wantW2 := "", ""
	for round, n := 0, nd.Tier(2, 3); round < n; round++ {
		if cl1 != nil {
			cl1.closed = 0
		}
		if cl2 != nil {
			cl2.closed = 0
		}
		calls = 0
		var err error
		con := NewController(base)
		vhAtDepth(con, depth, func() { err = c.Run(ctx, con) })
		if conflict {
			nd.Assert(err != nil && len(nd.Invocations()) == 0, "conflicting settings are an error")
			nd.Assert(vhSameFiles(vhTree(base), before), "no other file is changed")
			continue
		}
		// expectations
		captured := ""
		vout, verr := "", ""
		put := func(s int, text string, file string, w *string, v *string) {
			switch s {
			case unset, fnNil:
				if verbose {
					*v += text
				} else {
					captured += text
				}
			case overwrite:
				files[file] = text
			case appnd:
				if files[file] == "absent" {
					files[file] = ""
				}
				files[file] += text
			default:
				*w += text
			}
		}
		if se == same {
			put(so, o1+e1+o2, base+"/o", &wantW1, &vout)
		} else if (so == unset || so == fnNil) && (se == unset || se == fnNil) && !verbose {
			captured = o1 + e1 + o2
		} else {
			put(so, o1+o2, base+"/o", &wantW1, &vout)
			put(se, e1, base+"/d/e", &wantW2, &verr)
		}
		// results
		closeFails := cl1 != nil && cl1.err != nil || cl2 != nil && cl2.err != nil
		nd.Assert((err != nil) == (code != 0 || closeFails), "it succeeds iff the process does and the writers can be closed")
		if code == 0 && closeFails {
			nd.Assert(errors.Is(err, closeErr), "an error from Close is reported")
		}
		var ce CommandErr
		is := errors.As(err, &ce)
		if code != 0 {
			nd.Assert(is == (captured != "") && string(ce.Output) == captured, "the error has the captured output")
		}
		for f, text := range files {
			nd.Assert(vhRead(f) == text, "the file has the output")
		}
		nd.Assert(calls == wantCalls, "each function is called once")
		if cl1 != nil {
			nd.Assert(cl1.closed == 1 && cl1.buf.String() == wantW1, "the writer gets the output and is closed")
		} else {
			nd.Assert(w1.String() == wantW1, "the writer gets the output")
		}
		if cl2 != nil {
			nd.Assert(cl2.closed == 1 && cl2.buf.String() == wantW2, "the writer gets the error output and is closed")
		} else {
			nd.Assert(w2.String() == wantW2, "the writer gets the error output")
		}
		indent := strings.Repeat("  ", depth) + "    "
		got := strings.TrimPrefix(stdout(), outs)
		outs += got
		if !verbose {
			nd.Assert(got == "", "nothing goes to fab's output unless verbose")
		} else {
			want := vhIndented(vout, indent)
			nd.Assert(strings.HasSuffix(got, want), "fab's output gets the output, indented")
			head := got[:len(got)-len(want)]
			nd.Assert(strings.HasSuffix(head, "\n") && strings.HasPrefix(head, strings.Repeat("  ", depth)), "the command is announced before")
		}
		got = strings.TrimPrefix(stderr(), errs)
		errs += got
		nd.Assert(got == vhIndented(verr, indent), "fab's error output gets the error output, indented")
		nd.Assert(vhRead(base+"/other") == "other", "no other file is changed")
		ents, _ := os.ReadDir(base)
		nfiles := 4 // stdout, stderr, other, d
		if files[base+"/o"] != "absent" {
			nfiles++
		}
		nd.Assert(len(ents) == nfiles, "no other file is made")
		ents, _ = os.ReadDir(base + "/d")
		nd.Assert(len(ents) == vhB2i(files[base+"/d/e"] != "absent"), "no other file is made")
	}
	nd.Reach("end")
}

// VH_C13_yaml: a YAML Command in any of three directories, with one Shell string or a list of up to three (three, in the quick tier, only with a file for Stdout and the same, another, or none for Stderr), each writing one line to standard output and one to standard error,
// with Stdout and Stderr each unset, a special string, or a file (of two, relative or absolute, spelled in two ways, with or without a >> prefix) that exists or not; the last command may fail; verbose or not.
// vh: budget=60s tbudget=300s
func VH_C13_yaml() {
	base := nd.TempDir()
	os.Setenv("SHELL", nd.BinDir()+"/sh")
	ydir := []string{"", "p", "p/q"}[nd.Choice("dir", 3)]
	in := base
	if ydir != "" {
		in = base + "/" + ydir
	}
	os.MkdirAll(base+"/p/q", 0755)
	os.MkdirAll(base+"/std", 0755)
	stdout, stderr := vhStdFiles(base + "/std")
	exists := nd.Bool("exists")
	files := map[string]string{}
	for _, f := range []string{"/o", "/p/o", "/p/q/o", "/e", "/p/e", "/p/q/e"} {
		files[base+f] = "absent"
		if exists {
			os.WriteFile(base+f, []byte("old"), 0644)
			files[base+f] = "old"
		}
	}
	ncmd := 1 + nd.Choice("ncmd", 3)
	list := ncmd > 1 || nd.Bool("list")
	var lines [3][2]string
	fail := nd.Bool("fail")
	seq := vhSeq("")
	for i := 0; i < ncmd; i++ {
		lines[i] = [2]string{"o" + nd.StrN("text", 1, "AB"), "e" + nd.StrN("text", 1, "CD")}
		exit := ""
		if i == ncmd-1 && fail {
			exit = " exit:1"
		}
		seq.Content = append(seq.Content, vhScalar("out:"+lines[i][0]+" err:"+lines[i][1]+exit))
	}
	node := vhMap("!Command", vhScalar("Shell"))
	if list {
		node.Content = append(node.Content, seq)
	} else {
		node.Content = append(node.Content, seq.Content[0])
	}
	opts := []string{"", "$stdout", "$stderr", "$discard", "$indent", "$verbose", "o", "./o", ">>o", ">> o", base + "/p/o", ">>" + base + "/p/o", "e"}
	file := func(s string) string {
		s = strings.TrimLeft(s, "> ")
		if strings.HasPrefix(s, "/") {
			return s
		}
		return in + "/" + strings.TrimPrefix(s, "./")
	}
	so, se := opts[nd.Choice("stdout", len(opts))], opts[nd.Choice("stderr", len(opts))]
	if ncmd == 3 && nd.Tier(0, 1) == 0 {
		// the same kinds of file as with two commands
		nd.Assume(so != "" && so[0] != '$' && (se == "" || se == so || se == "e"))
	}
	if so != "" || nd.Bool("explicit") {
		node.Content = append(node.Content, vhScalar("Stdout"), vhScalar(so))
	}
	if se != "" {
		node.Content = append(node.Content, vhScalar("Stderr"), vhScalar(se))
	}
	isFile := func(s string) bool { return s != "" && s[0] != '$' }
	app := func(s string) bool { return s[0] == '>' }
	conflict := isFile(so) && isFile(se) && file(so) == file(se) && app(so) != app(se)
	verbose := nd.Bool("verbose")
	con := NewController(base)
	t, err := con.YAMLTarget(node, ydir)
	nd.Assert(err == nil, "the Command is decoded")
	err = con.Run(WithVerbose(context.Background(), verbose), t)
	if conflict {
		nd.Assert(err != nil && len(nd.Invocations()) == 0, "conflicting settings are an error")
		for f, text := range files {
			nd.Assert(vhRead(f) == text, "no other file is changed")
		}
		nd.Reach("conflict")
		return
	}
	nd.Assert((err != nil) == fail, "the Command succeeds iff the process does")
	if fail {
		captured := ""
		for s, to := range []string{so, se} {
			if (to == "" || to == "$verbose") && !verbose {
				captured += lines[ncmd-1][s]
			}
		}
		var ce CommandErr
		is := errors.As(err, &ce)
		nd.Assert(is == (captured != "") && string(ce.Output) == captured, "the error has the captured output")
	}
	nd.Assert(len(nd.Invocations()) == ncmd, "each Shell string is run once")
	wantOut, wantErr := "", ""
	indent := "  " + "    "
	if list {
		indent = "    " + "    "
	}
	for i := 0; i < ncmd; i++ {
		for s, to := range []string{so, se} {
			text := lines[i][s]
			std := &wantOut
			if s == 1 {
				std = &wantErr
			}
			switch {
			case to == "$stdout":
				wantOut += text
			case to == "$stderr":
				wantErr += text
			case to == "$discard":
			case to == "$indent":
				*std += indent + text
			case to == "" || to == "$verbose":
				if verbose {
					*std += indent + text
				}
			default:
				f := file(to)
				both := s == 1 && isFile(so) && file(so) == f
				if i == 0 && !app(to) && !both {
					files[f] = ""
				}
				if files[f] == "absent" {
					files[f] = ""
				}
				files[f] += text
			}
		}
	}
	for f, text := range files {
		nd.Assert(vhRead(f) == text, "each file has its output and no other file is changed")
	}
	// Fab's own messages are lines of their own.
	got := ""
	for _, ln := range strings.SplitAfter(stdout(), "\n") {
		if verbose && strings.HasSuffix(ln, "\n") {
			// a message, perhaps after output that does not end its line
			i := strings.Index(ln, "  Running ")
			if i < 0 {
				i = strings.Index(ln, "Running ")
			}
			if i > 0 {
				ln = strings.TrimRight(ln[:i], " ")
			} else if i == 0 {
				ln = ""
			}
		}
		got += ln
	}
	direct := func(s string) bool { return s == "$stdout" || s == "$stderr" }
	copied := func(s string) bool { return s == "$indent" || verbose && (s == "" || s == "$verbose") }
	if so == "$stderr" && copied(se) || copied(so) && direct(se) {
		// The streams meet in one place, in no particular order.
		for _, letters := range []string{"oAB", "eCD"} {
			nd.Assert(vhOnly(got, letters) == vhOnly(wantOut, letters), "fab's output is as expected")
			nd.Assert(vhOnly(stderr(), letters) == vhOnly(wantErr, letters), "fab's error output is as expected")
		}
		nd.Reach("mixed")
		return
	}
	nd.Assert(vhNoIndentEnd(got) == vhNoIndentEnd(wantOut), "fab's output is as expected")
	nd.Assert(stderr() == wantErr, "fab's error output is as expected")
	nd.Reach("end")
}

func vhNoIndentEnd(s string) string { return strings.TrimRight(s, " ") }

// vhOnly is s without all but the given letters.
func vhOnly(s, letters string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(letters, s[i]) >= 0 {
			r += s[i : i+1]
		}
	}
	return r
}
