package fab

import (
	"context"
	"strings"
	"sync"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab/zzverif/nd"
)

// vhLog records in order what leaves ran and with which arguments.
type vhLog struct {
	mu     sync.Mutex
	events []string
}

type vhLeaf struct {
	name string
	log  *vhLog
	pad  int
}

func (l *vhLeaf) Run(ctx context.Context, con *Controller) error {
	l.log.mu.Lock()
	l.log.events = append(l.log.events, l.name+"("+strings.Join(GetArgs(ctx), ",")+")")
	l.log.mu.Unlock()
	return nil
}
func (*vhLeaf) Desc() string { return "leaf" }

// vhSpec is what a node should mean: a tree of sets of leaves, or nil for an error.
type vhSpec struct {
	kind string // "leaf", "all", "seq"
	name string
	args []string
	sub  []*vhSpec
}

func vhSetArgs(s *vhSpec, args []string) {
	if s.kind == "leaf" {
		if s.args == nil {
			s.args = args
		}
		return
	}
	for _, k := range s.sub {
		vhSetArgs(k, args)
	}
}

// vhMatch checks that events can be produced by s and returns the rest; seen are leaves that ran before.
func (s *vhSpec) match(events []string, seen map[string]bool) ([]string, bool) {
	switch s.kind {
	case "leaf":
		if seen[s.name] {
			return events, true
		}
		seen[s.name] = true
		if len(events) == 0 || events[0] != s.name+"("+strings.Join(s.args, ",")+")" {
			return nil, false
		}
		return events[1:], true
	case "all":
		if len(s.sub) > 1 {
			// The elements run in any order.
			m := map[string]int{}
			s.leaves(m)
			n := 0
			for name := range m {
				if !seen[name] {
					n++
				}
			}
			if n > len(events) {
				return nil, false
			}
			for _, e := range events[:n] {
				name := e[:strings.IndexByte(e, '(')]
				if m[name] == 0 || seen[name] {
					return nil, false
				}
				seen[name] = true
			}
			return events[n:], true
		}
		fallthrough
	case "seq":
		for _, k := range s.sub {
			var ok bool
			events, ok = k.match(events, seen)
			if !ok {
				return nil, false
			}
		}
		return events, true
	}
	return events, true
}

func (s *vhSpec) leaves(m map[string]int) {
	if s.kind == "leaf" {
		m[s.name]++
	}
	for _, k := range s.sub {
		k.leaves(m)
	}
}

type vhGen struct {
	log   *vhLog
	names []string
	next  int
}

// child makes a child of a node; those other than the main one are a name or an untyped mapping.
func (g *vhGen) child(height int, main bool) (*yaml.Node, *vhSpec) {
	if main {
		return g.node(height - 1)
	}
	if nd.Bool("untyped") {
		return vhMap(""), nil
	}
	s := g.names[g.next%len(g.names)]
	g.next++
	return vhScalar(s), &vhSpec{kind: "leaf", name: s}
}

// node makes any target node of the given height and returns what it means, nil for an error.
func (g *vhGen) node(height int) (*yaml.Node, *vhSpec) {
	n := 4
	if height > 0 {
		n = 10
	}
	switch nd.Choice("node", n) {
	case 0: // a name
		s := g.names[g.next%len(g.names)]
		g.next++
		nd0 := vhScalar(s)
		if g.next%2 == 0 {
			nd0.Tag = ""
		}
		return nd0, &vhSpec{kind: "leaf", name: s}
	case 1: // wrong kind without a tag
		k := yaml.Kind(nd.Int("kind", 0, 7)) // not scalar
		return &yaml.Node{Kind: k, Content: []*yaml.Node{vhScalar("A"), vhScalar("B")}}, nil
	case 2: // unknown tag
		tag := nd.Str("tag", 3, "AlSeq!.")
		nd.Assume(tag != "All" && tag != "Seq")
		return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!" + tag, Content: []*yaml.Node{vhScalar("A")}}, nil
	case 3: // known tag, wrong kind
		tag := []string{"!All", "!Seq", "!ArgTarget", "!Deps", "!Files", "!Command", "!Clean"}[nd.Choice("tag", 7)]
		k := yaml.Kind(nd.Int("kind", 5, 31)) // neither sequence nor mapping
		return &yaml.Node{Kind: k, Tag: tag, Value: "A", Content: []*yaml.Node{vhScalar("A")}}, nil
	case 4, 5: // All, Seq
		spec := &vhSpec{kind: "seq"}
		tag := "!Seq"
		if nd.Bool("all") {
			spec.kind, tag = "all", "!All"
		}
		ok := true
		node := vhSeq(tag)
		for k := nd.Choice("children", 3); k > 0; k-- {
			c, cs := g.child(height, len(spec.sub) == 0)
			node.Content = append(node.Content, c)
			spec.sub = append(spec.sub, cs)
			ok = ok && cs != nil
		}
		if !ok {
			return node, nil
		}
		return node, spec
	case 6: // Deps as a sequence
		node := vhSeq("!Deps")
		all := &vhSpec{kind: "all"}
		spec := &vhSpec{kind: "seq", sub: []*vhSpec{all}}
		ok := false
		for i, k := 0, nd.Choice("children", 3); i < k; i++ {
			c, cs := g.child(height, i == g.next%2)
			node.Content = append(node.Content, c)
			if i == 0 {
				ok = true
				spec.sub = append(spec.sub, cs)
			} else {
				all.sub = append(all.sub, cs)
			}
			ok = ok && cs != nil
		}
		if !ok {
			return node, nil
		}
		return node, spec
	case 7: // Deps as a mapping
		node := vhMap("!Deps")
		all := &vhSpec{kind: "all"}
		spec := &vhSpec{kind: "seq", sub: []*vhSpec{all}}
		ok := false
		post := func() {
			if nd.Bool("post") {
				c, cs := g.node(height - 1)
				node.Content = append(node.Content, vhScalar("Post"), c)
				spec.sub = append(spec.sub, cs)
				ok = cs != nil
			}
		}
		first := nd.Bool("postfirst")
		if first {
			post()
		}
		if nd.Bool("pre") {
			pre := vhSeq("!!seq")
			node.Content = append(node.Content, vhScalar("Pre"), pre)
			for k := nd.Choice("children", 2); k >= 0; k-- {
				c, cs := g.child(height, false)
				pre.Content = append(pre.Content, c)
				all.sub = append(all.sub, cs)
			}
		}
		if !first {
			post()
		}
		for _, s := range all.sub {
			ok = ok && s != nil
		}
		if !ok {
			return node, nil
		}
		return node, spec
	case 8: // ArgTarget
		node := vhSeq("!ArgTarget")
		if nd.Bool("empty") {
			return node, nil
		}
		c, cs := g.node(height - 1)
		node.Content = append(node.Content, c)
		args := []string{}
		for k := nd.Choice("args", 3); k > 0; k-- {
			a := nd.Str("arg", 1, "-x ")
			args = append(args, a)
			node.Content = append(node.Content, vhScalar(a))
		}
		bad := nd.Choice("bad", 3)
		if bad == 1 {
			node.Content = append(node.Content, vhSeq("!!seq"))
		}
		if bad == 2 {
			node.Content = append(node.Content, vhSeq("!Unknown"))
		}
		if cs == nil || bad > 0 {
			return node, nil
		}
		vhSetArgs(cs, args)
		return node, cs
	}
	// Deps with Pre that is not a sequence
	return vhMap("!Deps", vhScalar("Pre"), vhMap("!!map", vhScalar("A"), vhScalar("B")), vhScalar("Post"), vhScalar("A")), nil
}

// VH_C17_nodes: any node tree of height two (thorough: three) of names, the composite target tags in both notations with zero to two children (one of them composite), wrong kinds, unknown tags
// and missing parts, as a target; what it decodes to is run.
// vh: budget=30s tbudget=240s
func VH_C17_nodes() {
	con := NewController("")
	log := &vhLog{}
	g := &vhGen{log: log, names: []string{"A", "B", "C", "D"}}
	for _, n := range g.names {
		con.RegisterTarget(n, "", &vhLeaf{name: n, log: log})
	}
	node, spec := g.node(nd.Tier(2, 3))
	t, err := con.YAMLTarget(node, "")
	nd.Assert((err != nil) == (spec == nil), "an error iff the node does not describe a target")
	if spec == nil {
		nd.Assert(t == nil, "no target along with an error")
		nd.Reach("error")
		return
	}
	nd.Assert(con.Run(context.Background(), t) == nil, "the target runs")
	want := map[string]int{}
	spec.leaves(want)
	nd.Assert(len(log.events) == len(want), "exactly the elements written run")
	got := map[string]bool{}
	for _, e := range log.events {
		name := e[:strings.IndexByte(e, '(')]
		nd.Assert(want[name] > 0 && !got[name], "exactly the elements written run")
		got[name] = true
	}
	rest, ok := spec.match(log.events, map[string]bool{})
	nd.Assert(ok && len(rest) == 0, "the elements run in the order and with the arguments written")
	nd.Reach("end")
}

// VH_C17_lists: any string list of up to three nodes, each a scalar of one arbitrary byte, a nested list function of up to two scalars, an
// unknown function or a node of a wrong kind, as a list or through a list function, or a list node of a wrong kind.
// vh: budget=15s
func VH_C17_lists() {
	RegisterYAMLStringList("VHList", func(con *Controller, node *yaml.Node, dir string) ([]string, error) {
		return con.YAMLStringListFromNodes(node.Content, dir)
	})
	con := NewController("")
	ok := true
	var want []string
	scalar := func() *yaml.Node {
		s := nd.StrN("str", 1, "")
		want = append(want, s)
		return vhScalar(s)
	}
	var nodes []*yaml.Node
	for n := nd.Choice("nodes", 4); n > 0; n-- {
		switch nd.Choice("node", 4) {
		case 0:
			nodes = append(nodes, scalar())
		case 1:
			l := vhSeq("!VHList")
			for k := nd.Choice("nested", 3); k > 0; k-- {
				l.Content = append(l.Content, scalar())
			}
			nodes = append(nodes, l)
		case 2:
			ok = false
			nodes = append(nodes, vhSeq("!Nope", vhScalar("x")))
		case 3:
			ok = false
			nodes = append(nodes, &yaml.Node{Kind: yaml.Kind(nd.Int("kind", 0, 7)), Content: []*yaml.Node{vhScalar("x"), vhScalar("y")}})
		}
	}
	var got []string
	var err error
	switch nd.Choice("form", 4) {
	case 0:
		got, err = con.YAMLStringList(vhSeq("", nodes...), "")
	case 1:
		got, err = con.YAMLStringList(vhSeq("!VHList", nodes...), "")
	case 2:
		got, err = con.YAMLStringListFromNodes(nodes, "")
	case 3:
		ok = false
		got, err = con.YAMLStringList(&yaml.Node{Kind: yaml.Kind(nd.Int("kind", 3, 31)), Content: nodes}, "")
	}
	nd.Assert((err == nil) == ok, "an error iff the node is not a list of strings")
	if err != nil {
		nd.Assert(got == nil, "no strings along with an error")
		return
	}
	nd.Assert(len(got) == len(want), "the list has exactly the elements written")
	for i := range want {
		nd.Assert(got[i] == want[i], "the elements are those written, in order")
	}
	nd.Reach("end")
}

// VH_C17_command: Command mappings with any subset of the fields, in either order, values of any one byte, and at most one field of a wrong kind.
// vh: budget=20s
func VH_C17_command() {
	con := NewController("/top")
	node := vhMap("!Command")
	var want Command
	want.Dir = "/top/d"
	bad := false
	rev := nd.Bool("reverse")
	put := func(k string, v *yaml.Node) {
		c := []*yaml.Node{vhScalar(k), v}
		if rev {
			node.Content = append(c, node.Content...)
		} else {
			node.Content = append(node.Content, c...)
		}
	}
	wrong := nd.Choice("wrong", 8)
	field := func(i int, name string) (string, bool) {
		if wrong == i {
			bad = true
			put(name, vhMap("!!map", vhScalar("x"), vhScalar("y")))
			return "", false
		}
		if !nd.Bool("has" + name) {
			return "", false
		}
		s := nd.StrN(name, 1, "ab/$")
		if i < 6 {
			put(name, vhScalar(s))
		} else {
			put(name, vhSeq("!!seq", vhScalar(s), vhScalar("2")))
		}
		return s, true
	}
	shell := false
	if s, ok := field(1, "Cmd"); ok {
		want.Cmd = s
	} else if wrong == 2 {
		bad = true
		put("Shell", vhMap("!!map", vhScalar("x"), vhScalar("y")))
	} else {
		shell = true
		want.Shell = nd.StrN("Shell", 1, "")
		put("Shell", vhScalar(want.Shell))
	}
	if s, ok := field(3, "Dir"); ok {
		want.Dir = vhJoin("/top", "d", s)
	}
	if s, ok := field(4, "Stdout"); ok {
		want.StdoutFile = vhJoin("/top", "d", s)
	}
	if s, ok := field(5, "Stderr"); ok {
		want.StderrFile = vhJoin("/top", "d", s)
	}
	if s, ok := field(6, "Args"); ok {
		want.Args = []string{s, "2"}
	}
	if s, ok := field(7, "Env"); ok {
		want.Env = []string{s, "2"}
	}
	t, err := con.YAMLTarget(node, "d")
	nd.Assert((err != nil) == bad, "an error iff a field has a wrong kind")
	if err != nil {
		nd.Assert(t == nil, "no target along with an error")
		nd.Reach("error")
		return
	}
	c, ok := t.(*Command)
	nd.Assert(ok, "the target is a Command")
	nd.Assert(c.Shell == want.Shell && c.Cmd == want.Cmd, "the command is as written")
	nd.Assert(c.Dir == want.Dir, "the directory is as written")
	nd.Assert(c.StdoutFile == want.StdoutFile && c.StderrFile == want.StderrFile, "the output files are as written")
	nd.Assert(c.Stdout == nil && c.Stderr == nil && c.Stdin == nil && c.StdinFile == "" && c.StdoutFn == nil && c.StderrFn == nil, "nothing else is set")
	nd.Assert(len(c.Args) == len(want.Args) && len(c.Env) == len(want.Env), "the lists are as written")
	for i := range want.Args {
		nd.Assert(c.Args[i] == want.Args[i], "the arguments are as written")
	}
	for i := range want.Env {
		nd.Assert(c.Env[i] == want.Env[i], "the environment is as written")
	}
	if shell {
		nd.Reach("shell")
	}
	nd.Reach("end")
}

// VH_C17_clean: Clean sequences and mappings with any subset of the fields, up to two files of any one byte, any boolean, or a wrong kind.
// vh: budget=10s
func VH_C17_clean() {
	con := NewController("/top")
	var want Clean
	bad := false
	var files []*yaml.Node
	for n := nd.Choice("files", 3); n > 0; n-- {
		s := nd.StrN("file", 1, "ab./")
		want.Files = append(want.Files, vhJoin("/top", "d", s))
		files = append(files, vhScalar(s))
	}
	wrong := nd.Choice("wrong", 4)
	if wrong == 3 {
		bad = true
		files = append(files, vhMap("", vhScalar("x"), vhScalar("y")))
	}
	var node *yaml.Node
	if nd.Bool("sequence") {
		node = vhSeq("!Clean", files...)
	} else {
		node = vhMap("!Clean")
		switch wrong {
		case 1:
			bad = true
			node.Content = append(node.Content, vhScalar("Autoclean"), vhScalar("maybe"))
		case 2:
			bad = true
			node.Content = append(node.Content, vhScalar("Files"), vhScalar("x"))
		}
		if wrong != 1 && nd.Bool("hasautoclean") {
			v := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!bool", Value: "false"}
			if nd.Bool("autoclean") {
				v.Value = "true"
				want.Autoclean = true
			}
			node.Content = append(node.Content, vhScalar("Autoclean"), v)
		}
		if wrong != 2 {
			node.Content = append(node.Content, vhScalar("Files"), vhSeq("!!seq", files...))
		}
	}
	t, err := con.YAMLTarget(node, "d")
	nd.Assert((err != nil) == bad, "an error iff a field has a wrong kind")
	if err != nil {
		nd.Assert(t == nil, "no target along with an error")
		nd.Reach("error")
		return
	}
	c := t.(*Clean)
	nd.Assert(c.Autoclean == want.Autoclean && len(c.Files) == len(want.Files), "the target is as written")
	for i := range want.Files {
		nd.Assert(c.Files[i] == want.Files[i], "the files are as written, in order")
	}
	nd.Reach("end")
}

// VH_C17_document: documents of up to two entries, with a comment above, beside, both or none, values of seven kinds (two of them wrong), in three
// directories, and the directory declaration present, wrong or missing, at the start or the end.
// vh: budget=30s
func VH_C17_document() {
	con := NewController("")
	dir := []string{"", "d", "d/e"}[nd.Choice("dir", 3)]
	text := ""
	bad := false
	decl := ""
	switch nd.Choice("decl", 3) {
	case 0:
		if dir != "" {
			decl = "_dir: " + dir + "\n"
		}
	case 1:
		decl = "_dir: wrong\n"
		bad = true
	case 2:
		bad = dir != ""
	}
	last := nd.Bool("decllast")
	if !last {
		text += decl
	}
	names := []string{"Foo", "bar-2"}
	n := nd.Choice("entries", 3)
	docs := map[string]string{}
	for i := 0; i < n; i++ {
		comment := nd.Choice("comment", 4)
		if comment&1 != 0 {
			text += "# Above " + names[i] + ".\n"
			docs[names[i]] = "Above " + names[i] + "."
		}
		text += names[i] + ":"
		kind := 0
		if comment&2 != 0 {
			if docs[names[i]] == "" {
				docs[names[i]] = "Beside it."
			}
			text += " # Beside it.\n "
		} else {
			kind = nd.Choice("kind", 7)
		}
		if _, ok := docs[names[i]]; !ok {
			docs[names[i]] = ""
		}
		switch kind {
		case 0:
			text += " !Clean\n    - x\n"
		case 1:
			text += " !All [Foo, bar-2]\n"
		case 2:
			text += " Other\n"
		case 3:
			text += " !Command\n  Shell: true\n"
		case 4:
			text += " !Files\n  In: [a]\n  Out: [b]\n  Target: Other\n"
		case 5:
			text += " !Nope x\n"
			bad = true
		case 6:
			text += " [x]\n"
			bad = true
		}
	}
	if last {
		text += decl
	}
	if text == "" {
		text = "{}\n"
	}
	err := con.ReadYAML(strings.NewReader(text), dir)
	nd.Assert((err != nil) == bad, "an error iff the document is malformed")
	if err != nil {
		nd.Reach("error")
		return
	}
	got := con.RegistryNames()
	nd.Assert(len(got) == n, "exactly the names of the document are registered")
	for i := 0; i < n; i++ {
		q := names[i]
		if dir != "" {
			q = dir + "/" + q
		}
		t, doc := con.RegistryTarget(q)
		nd.Assert(t != nil, "each name is registered below its directory")
		nd.Observe("doc", doc)
		nd.Assert(doc == docs[names[i]], "each name has its comment")
	}
	nd.Reach("end")
}

// VH_C17_kinds: documents whose top level is not a mapping, whose names contain slashes or are not scalars, and any text of three (thorough: four)
// bytes of nine YAML characters: an error or a registration, never a crash.
// vh: budget=25s tbudget=200s
func VH_C17_kinds() {
	con := NewController("")
	fixed := []string{"", "- a\n", "a\n", "a/b: c\n", "? [a]\n: b\n", "_dir: [a]\n", "_dir:\n", "a: &x\n", "a: *x\n", "a: &x !All [*x]\n", "a: {b: c\n",
		"a: !Files\n", "a: !Files {In: {a: b}}\n", "a: !Files {Target: !All [b], In: [c]}\n", "a: !Command\n", "a: !Command {Shell: {a: b}}\n", "a: !Deps {Post: b, Pre: [{c: d}]}\n",
		"a: !ArgTarget []\n", "a: !Clean {Files: a}\n", "a: !Deps {}\n", "<<: [a]\n", "a: !!binary x\n", "a: !!int x\n", "---\n--- a\n", "a: !\n", "a: !<tag:yaml.org,2002:str> b\n"}
	k := nd.Choice("text", len(fixed)+1)
	text := ""
	if k < len(fixed) {
		text = fixed[k]
	} else {
		text = "a: " + nd.StrN("bytes", nd.Tier(3, 4), "a:-!&*{[ \\n") + "\n"
	}
	err := con.ReadYAML(strings.NewReader(text), "")
	if err == nil {
		nd.Assert(k == len(fixed) || k == 6 || k == 7 || k == 13 || k >= 20, "malformed YAML is rejected")
	}
	nd.Reach("end")
}
