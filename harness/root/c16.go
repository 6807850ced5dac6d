package fab

import (
	"context"
	"os"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab/zzverif/nd"
)

// vhYLeaf is the target with the YAML tag !ZZleaf.
type vhYLeaf struct {
	dir  string
	runs int
}

func (l *vhYLeaf) Run(context.Context, *Controller) error { l.runs++; return nil }
func (l *vhYLeaf) Desc() string                           { return "leaf " + l.dir }

// vhYLeaves registers the tag !ZZleaf, and another, and collects its targets by directory.
func vhYLeaves() map[string][]*vhYLeaf {
	m := map[string][]*vhYLeaf{}
	RegisterYAMLTarget("ZZleaf", func(con *Controller, node *yaml.Node, dir string) (Target, error) {
		l := &vhYLeaf{dir: dir}
		m[dir] = append(m[dir], l)
		return l, nil
	})
	// !ZZall is like !All.
	n := map[string]int{}
	RegisterYAMLTarget("ZZall", func(con *Controller, node *yaml.Node, dir string) (Target, error) {
		n[dir]++
		nd.Assert(n[dir] < 4, "a file is not read again and again")
		all := *node
		all.Tag = "!All"
		return con.YAMLTarget(&all, dir)
	})
	return m
}

// vhUp leads from a directory to the top.
var vhUp = map[string]string{"": ".", "a": "..", "a/b": "../.."}

// vhYRef refers to a target in directory to from directory from.
func vhYRef(from, to, name string, spell int) string {
	down := to
	if down != "" {
		down += "/"
	}
	switch spell {
	case 0: // the shortest
		if from == "" {
			return down + name
		}
		if to == from {
			return "./" + name
		}
		if from == "a" && to == "a/b" {
			return "b/" + name
		}
		if from == "a/b" && to == "a" {
			return "../" + name
		}
	case 2:
		return vhUp[from] + "/a/b/../../" + down + name
	case 3:
		return ".//" + vhUp[from] + "/./" + down + "/" + name
	}
	return vhUp[from] + "/" + down + name
}

// VH_C16_files: three YAML files, in the top directory, below it and below that, each with a leaf target and an All target of one reference (two in the top one), in either order; a reference names any of the leaves, the All targets, or a target that does not exist there (but, mostly, in the top directory), in any of these directories or in one without a YAML file, spelled in one of four ways;
// the controller's top directory is absolute or relative (in the quick tier this and the order mostly depend on the spelling). The top file is read and its All target is run.
// vh: budget=60s tbudget=400s steps=3000000
func VH_C16_files() {
	base := nd.TempDir()
	top := base
	dirs := []string{"", "a", "a/b", "c"}
	spell := nd.Choice("spell", 4)
	relative := spell % 2
	if nd.Tier(0, 1) == 1 {
		relative = nd.Choice("relative", 2)
	}
	if relative == 1 {
		nd.Assert(os.Chdir(base) == nil, "harness: directory")
		top = "."
	}
	leafFirst := spell == 1
	if spell == 0 || nd.Tier(0, 1) == 1 {
		leafFirst = nd.Choice("order", 2) == 1
	}
	os.MkdirAll(base+"/a/b", 0755)
	os.MkdirAll(base+"/c", 0755)
	leaves := vhYLeaves()
	type ref struct {
		dir, name int // name: 0 leaf, 1 All, 2 missing, 3 not missing
	}
	// There is a target in the top directory of the name that others do not have.
	decoy := &vhNop{}
	decoyed := spell < 3
	var refs [3][]ref
	// Draw a reference only once it is known to matter.
	var drawn [3]bool
	var draw func(i int)
	nreach := 0
	draw = func(i int) {
		if drawn[i] {
			return
		}
		drawn[i] = true
		nreach++
		n := 1
		if i == 0 || nd.Tier(0, 1) == 1 {
			n = 2
		}
		for k := 0; k < n; k++ {
			r := ref{nd.Choice("dir", 4), 0}
			if r.dir == 3 || nd.Choice("missing", 2) == 1 {
				r.name = 2
				if decoyed && r.dir == 0 {
					r.name = 3
				}
			} else {
				r.name = nd.Choice("name", 2)
			}
			refs[i] = append(refs[i], r)
		}
		for _, r := range refs[i] {
			if r.dir < 3 {
				draw(r.dir)
			}
		}
	}
	draw(0)
	missing := false // in a file that is read
	names := []string{"L", "T", "M", "M"}
	for i := 0; i < 3; i++ {
		text := ""
		if dirs[i] != "" {
			text += "_dir: " + dirs[i] + "\n"
		}
		t := "T: !ZZall\n"
		for _, r := range refs[i] {
			if r.name == 2 {
				missing = true
			}
			t += "  - " + vhYRef(dirs[i], dirs[r.dir], names[r.name], spell) + "\n"
		}
		if len(refs[i]) == 0 {
			t = ""
		}
		l := "L: !ZZleaf x\n"
		if leafFirst {
			text += l + t
		} else {
			text += t + l
		}
		f := base + "/" + dirs[i] + "/fab.yaml"
		if i == 1 {
			f = base + "/a/fab.yml"
		}
		nd.Assert(os.WriteFile(f, []byte(text), 0644) == nil, "harness: YAML file")
	}
	con := NewController(top)
	if decoyed {
		_, err := con.RegisterTarget("M", "", decoy)
		nd.Assert(err == nil, "the target is registered")
	}
	err := con.ReadYAMLFile("")
	if err != nil {
		nd.Assert(missing, "references to targets that exist are resolved")
		nd.Reach("error")
		return
	}
	for i := 0; i < 3; i++ {
		nd.Assert(len(leaves[dirs[i]]) <= 1, "there is one target of each name")
		if drawn[i] && i > 0 {
			nd.Assert(len(leaves[dirs[i]]) == 1, "a file that is referred to is read")
		}
	}
	// what running T of the top file reaches
	var reach [3][2]bool
	cyclic, broken, wantDecoy := false, false, false
	var visit func(i int, path [3]bool)
	visit = func(i int, path [3]bool) {
		if path[i] {
			cyclic = true
			return
		}
		path[i] = true
		reach[i][1] = true
		for _, r := range refs[i] {
			switch r.name {
			case 0:
				reach[r.dir][0] = true
			case 1:
				visit(r.dir, path)
			case 2:
				broken = true
			case 3:
				wantDecoy = true
			}
		}
	}
	visit(0, [3]bool{})
	nd.Assume(!cyclic)
	t, _ := con.RegistryTarget("T")
	nd.Assert(t != nil, "the target is registered")
	err = con.Run(context.Background(), t)
	nd.Assert((err != nil) == broken, "the run fails iff it needs a target that does not exist")
	nd.Assert(decoy.runs == vhB2i(wantDecoy), "exactly the targets referred to are run, once")
	for i := 0; i < 3; i++ {
		runs := 0
		for _, l := range leaves[dirs[i]] {
			runs += l.runs
		}
		nd.Assert(runs == vhB2i(reach[i][0]), "exactly the targets referred to are run, once")
		if drawn[i] {
			n := dirs[i] + "/L"
			if i == 0 {
				n = "L"
			}
			t, _ := con.RegistryTarget(n)
			nd.Assert(t == Target(leaves[dirs[i]][0]), "the name refers to that target")
			// and again, by the name of the target
			nd.Assert(con.Run(context.Background(), vhNamed(con, "./"+n)) == nil && leaves[dirs[i]][0].runs == 1, "running it again does nothing")
		}
	}
	nd.Reach("end")
}

// VH_C16_spelling: a reference in any of three directories to a target L in a directory given by any path of up to four (thorough: five) bytes of "ab./": it is the target of that name in the directory the path leads to, if there is one.
// vh: budget=40s tbudget=300s
func VH_C16_spelling() {
	base := nd.TempDir()
	top := base + "/t"
	os.MkdirAll(top+"/a/b", 0755)
	leaves := vhYLeaves()
	for _, d := range []string{"", "a", "a/b"} {
		text := "L: !ZZleaf x\n"
		if d != "" {
			text = "_dir: " + d + "\n" + text
		}
		os.WriteFile(top+"/"+d+"/fab.yaml", []byte(text), 0644)
	}
	con := NewController(top)
	nd.Assert(con.ReadYAMLFile("") == nil, "reading succeeds")
	from := []string{"", "a", "a/b"}[nd.Choice("from", 3)]
	path := nd.Str("path", nd.Tier(4, 5), "ab./")
	nd.Assume(path == "" || path[0] != '/')
	name := path + "/L"
	if path == "" {
		name = "./L"
	}
	to := vhJoin(top, from, name)
	var want *vhYLeaf
	t, err := con.YAMLTarget(vhScalar(name), from)
	if err == nil {
		err = con.Run(context.Background(), t, vhNamed(con, "L"))
	} else {
		nd.Assert(con.Run(context.Background(), vhNamed(con, "L")) == nil, "the run succeeds")
	}
	known := true
	switch to {
	case top + "/L":
		want = leaves[""][0]
	case top + "/a/L":
		nd.Assert(len(leaves["a"]) == 1, "the file is read once")
		want = leaves["a"][0]
	case top + "/a/b/L":
		nd.Assert(len(leaves["a/b"]) == 1, "the file is read once")
		want = leaves["a/b"][0]
	default:
		known = false
	}
	if !known {
		nd.Assert(err != nil, "a reference to nothing is an error")
	} else {
		nd.Assert(err == nil && want.runs == 1, "the target in that directory is run")
	}
	for d, ls := range leaves {
		nd.Assert(len(ls) == 1, "each file is read at most once")
		nd.Assert(ls[0].runs == vhB2i(ls[0] == want || d == ""), "no other target is run")
	}
	nd.Reach("end")
}

// VH_C16_decls: a file that is referred to has a directory declaration of any two bytes of "ab./" or none, or is not there, or is not YAML, or is a directory, or has another mistake: the reference is an error unless all is well.
// vh: budget=20s
func VH_C16_decls() {
	base := nd.TempDir()
	os.MkdirAll(base+"/a", 0755)
	leaves := vhYLeaves()
	good := false
	f := base + "/a/" + []string{"fab.yaml", "fab.yml"}[nd.Choice("name", 2)]
	switch nd.Choice("what", 7) {
	case 0:
		d := nd.Str("dir", 2, "ab./")
		good = d == "a"
		os.WriteFile(f, []byte("_dir: \""+nd.Concrete(d)+"\"\nL: !ZZleaf x\n"), 0644)
	case 1:
		os.WriteFile(f, []byte("L: !ZZleaf x\n"), 0644)
	case 2:
	case 3:
		os.WriteFile(f, []byte("{"), 0644)
	case 4:
		os.Mkdir(f, 0755)
	case 5:
		os.WriteFile(f, []byte("L: !ZZleaf x\n_dir: a\nX: !Nope\n"), 0644)
	case 6:
		good = true
		os.WriteFile(f, []byte("L: !ZZleaf x\n_dir: a\n"), 0644)
	}
	os.WriteFile(base+"/fab.yaml", []byte("T: a/L\n"), 0644)
	con := NewController(base)
	err := con.ReadYAMLFile("")
	nd.Assert((err == nil) == good, "an error iff the file cannot be used")
	if good {
		err = con.Run(context.Background(), vhNamed(con, "T"))
		nd.Assert(err == nil && len(leaves["a"]) == 1 && leaves["a"][0].runs == 1, "the target in that directory is run")
	}
	nd.Reach("end")
}
