package fab

import (
	"os"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab/zzverif/nd"
)

// VH_C15_join: any three path segments of up to three bytes of "a", "b", ".", "/" below six top directories;
// the result is also made relative to the top directory.
// vh: budget=25s tbudget=200s
func VH_C15_join() {
	tops := []string{"", "/", "/a", "/a/b", "a", "../b"}
	top := tops[nd.Choice("top", len(tops))]
	con := NewController(top)
	n := nd.Int("segments", 1, 3)
	var elts []string
	for i := 0; i < n; i++ {
		max := nd.Tier(3, 4)
		if i == 1 {
			max = 2
		}
		if i == 2 {
			max = nd.Tier(1, 2)
		}
		elts = append(elts, nd.Str("seg", max, "a./"))
	}
	got := con.JoinPath(elts...)
	want := vhJoin(top, elts...)
	nd.Observe("got", got)
	nd.Assert(got == want, "JoinPath is the cleaned join from the last absolute segment on, or below the top directory")
	if strings.HasPrefix(top, "/") {
		rel, err := con.RelPath(got)
		nd.Assert(err == nil, "a joined path can be made relative to the top directory")
		nd.Assert(!strings.HasPrefix(rel, "/"), "a relative path is not absolute")
		nd.Assert(con.JoinPath(rel) == got, "the relative path leads back to the same file")
	}
	nd.Reach("end")
}

// vhFileNodes makes list elements, some of them nested in the list function !VHList up to the given depth, and appends the names to want.
func vhFileNodes(n, depth int, want *[]string) []*yaml.Node {
	var nodes []*yaml.Node
	for i := 0; i < n; i++ {
		if depth > 0 && nd.Bool("nested") {
			*want = append(*want, "list/first")
			nodes = append(nodes, vhSeq("!VHList", vhFileNodes(2, depth-1, want)...))
			*want = append(*want, "/last")
			continue
		}
		s := "../x"
		if len(*want) == 0 {
			s = nd.Str("name", nd.Tier(2, 3), "a/.")
		} else if nd.Bool("absolute") {
			s = "/y"
		}
		*want = append(*want, s)
		nodes = append(nodes, vhScalar(s))
	}
	return nodes
}

func vhListFn(con *Controller, node *yaml.Node, dir string) ([]string, error) {
	strs, err := con.YAMLStringListFromNodes(node.Content, dir)
	if err != nil {
		return nil, err
	}
	return append(append([]string{"list/first"}, strs...), "/last"), nil
}

// VH_C15_lists: any list of two file names, the first of up to two (thorough: three) bytes of "a", ".", "/", the others relative or absolute,
// either of them possibly a nested list function of two names, in five directories: as a sequence, as a list function and as a Clean target.
// vh: budget=25s tbudget=200s
func VH_C15_lists() {
	RegisterYAMLStringList("VHList", vhListFn)
	top := "/top"
	con := NewController(top)
	dirs := []string{"", "d", "d/e", "../d", "/abs"}
	dir := dirs[nd.Choice("dir", len(dirs))]
	var names []string
	nodes := vhFileNodes(2, 1, &names)
	var got []string
	var err error
	switch nd.Choice("form", 4) {
	case 0:
		got, err = con.YAMLFileList(vhSeq("!!seq", nodes...), dir)
	case 1:
		got, err = con.YAMLFileListFromNodes(nodes, dir)
	case 2:
		names = append(append([]string{"list/first"}, names...), "/last")
		got, err = con.YAMLFileList(vhSeq("!VHList", nodes...), dir)
	case 3:
		var t Target
		t, err = con.YAMLTarget(vhSeq("!Clean", nodes...), dir)
		if err == nil {
			got = t.(*Clean).Files
		}
	}
	nd.Assert(err == nil, "a list of file names is decoded")
	nd.Assert(len(got) == len(names), "there is one file for each name")
	for i, n := range names {
		nd.Assert(got[i] == vhJoin(top, dir, n), "each name is resolved against the directory of the YAML file, in order")
	}
	nd.Reach("end")
}

// VH_C15_glob: any subset of six files in a directory two below the top, one or two patterns out of five in one or two Glob nodes, followed by a plain name:
// the files found are those of the patterns, in their order (a file may be repeated or not), resolved against that directory.
// vh: budget=20s
func VH_C15_glob() {
	top := nd.TempDir()
	con := NewController(top)
	dir := "d/e"
	os.MkdirAll(top+"/d/e/sub", 0755)
	names := []string{".h.x", "a.x", "b.x", "b.y", "sub/c.x", "z"}
	var present []string
	for _, n := range names {
		if nd.Bool("present") {
			os.WriteFile(top+"/"+dir+"/"+n, nil, 0644)
			present = append(present, n)
		}
	}
	pats := []string{"*.x", "b.*", "sub/*", "[az]*", "nothing"}
	match := func(p int, n string) bool {
		switch p {
		case 0:
			return strings.HasSuffix(n, ".x") && !strings.Contains(n, "/")
		case 1:
			return strings.HasPrefix(n, "b.")
		case 2:
			return strings.HasPrefix(n, "sub/")
		case 3:
			return n == "a.x" || n == "z"
		}
		return false
	}
	var want []string
	list := vhSeq("!!seq", vhSeq("!Glob"))
	for i, n := 0, 1+nd.Choice("patterns", 2); i < n; i++ {
		p := nd.Choice("pattern", len(pats))
		for _, n := range present {
			if match(p, n) {
				want = append(want, n)
			}
		}
		if i > 0 && nd.Bool("node") {
			list.Content = append(list.Content, vhSeq("!Glob"))
		}
		g := list.Content[len(list.Content)-1]
		g.Content = append(g.Content, vhScalar(pats[p]))
	}
	want = append(want, "plain")
	list.Content = append(list.Content, vhScalar("plain"))
	got, err := con.YAMLFileList(list, dir)
	nd.Assert(err == nil, "the list is decoded")
	once := func(l []string) []string {
		var r []string
		for i, s := range l {
			dup := false
			for _, t := range l[:i] {
				dup = dup || s == t
			}
			if !dup {
				r = append(r, s)
			}
		}
		return r
	}
	got, want = once(got), once(want)
	nd.Assert(len(got) == len(want), "the files are those of the patterns")
	for i, n := range want {
		nd.Assert(got[i] == top+"/"+dir+"/"+n, "each file found is resolved against the directory of the YAML file, in order")
	}
	nd.Reach("end")
}
