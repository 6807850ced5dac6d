package fab

import (
	"context"
	"errors"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab/zzverif/nd"
)

// vhLitter fills base with files (a, b, d/x, d/y), directories (d, e) and a symbolic link (l, to a), and lists their paths.
func vhLitter(base string) []string {
	os.MkdirAll(base+"/d", 0755)
	os.MkdirAll(base+"/e", 0755)
	for _, n := range []string{"a", "b", "d/x", "d/y"} {
		os.WriteFile(base+"/"+n, []byte(n), 0644)
	}
	os.Symlink(base+"/a", base+"/l")
	return []string{"a", "b", "d/x", "d/y", "d", "e", "l"}
}

// vhGone reports whether nothing has that name.
func vhGone(path string) bool {
	_, err := os.Lstat(path)
	return errors.Is(err, fs.ErrNotExist)
}

// vhCheckClean checks the state of the files of vhLitter in base after cleaning those listed (relative to base).
func vhCheckClean(base string, listed []string, err error) {
	all := vhLitterNames
	in := func(n string) bool {
		for _, l := range listed {
			if l == n {
				return true
			}
		}
		return false
	}
	// a directory with something in it that is not listed, or a name below a file
	fails, below := false, false
	for _, l := range listed {
		if l == "d" && !(in("d/x") && in("d/y")) {
			fails = true
		}
		for _, f := range []string{"a", "b", "d/x", "d/y", "l"} {
			if strings.HasPrefix(l, f+"/") {
				if in(f) || f == "l" && in("a") {
					below = true // then it depends on the order
				} else {
					fails = true
				}
			}
		}
	}
	if fails {
		nd.Assert(err != nil, "a failure to remove is reported")
	} else if !below {
		nd.Assert(err == nil, "no error unless something cannot be removed")
	}
	for _, n := range all {
		gone := vhGone(base + "/" + n)
		if !in(n) {
			nd.Assert(!gone, "no other file is removed")
		} else if err == nil {
			nd.Assert(gone, "a listed file is removed")
		}
	}
	for _, n := range []string{"a", "b", "d/x", "d/y"} {
		if !vhGone(base + "/" + n) {
			b, err := os.ReadFile(base + "/" + n)
			nd.Assert(err == nil && string(b) == n, "files that remain are unchanged")
		}
	}
}

var vhLitterNames = []string{"a", "b", "d/x", "d/y", "d", "e", "l"}

// VH_C11_files: a Clean of up to two (thorough: three) files with names of up to 3 bytes of "adexyl/" (clean relative to a directory that has files, directories, and a symbolic link), and one more that is fixed,
// with two files registered for autocleaning and one that is not, and autocleaning on or off; run twice, with the list in a larger array.
// vh: budget=60s tbudget=400s
func VH_C11_files() {
	base := nd.TempDir()
	vhLitter(base)
	n := nd.Tier(2, 3)
	back := make([]string, n+3)
	var rel []string
	for i := 0; i < n; i++ {
		s := nd.Str("file", 3, "adexyl/")
		nd.Assume(s != "" && s[0] != '/' && filepath.Clean(s) == s)
		rel = append(rel, s)
		back[i] = base + "/" + s
	}
	if nd.Bool("both") {
		rel = append(rel, "d/y")
		back[n] = base + "/d/y"
	} else {
		rel = append(rel, "missing")
		back[n] = base + "/missing"
	}
	back[n+1], back[n+2] = base+"/b", base+"/d/y"
	Files(&vhNop{}, nil, []string{base + "/e", base + "/zz"}, Autoclean(true))
	Files(&vhNop{}, nil, []string{base + "/l"}, Autoclean(false))
	Files(&vhNop{}, nil, []string{base + "/d/x"})
	c := &Clean{Files: back[:n+1], Autoclean: nd.Bool("autoclean")}
	before := append([]string(nil), back...)
	auto := c.Autoclean
	ctx := WithVerbose(context.Background(), nd.Bool("verbose"))
	err := NewController(base).Run(ctx, c)
	listed := rel
	if auto {
		listed = append(append([]string{}, rel...), "e", "zz")
	}
	vhCheckClean(base, listed, err)
	same := func() bool {
		if len(c.Files) != n+1 || &c.Files[0] != &back[0] || c.Autoclean != auto {
			return false
		}
		for i, s := range back {
			if s != before[i] {
				return false
			}
		}
		return true
	}
	nd.Assert(same(), "neither the list nor the array it is in is altered")
	if err == nil {
		vhRemake(base)
		err = NewController(base).Run(ctx, c)
		vhCheckClean(base, listed, err)
		nd.Assert(err == nil && same(), "the second run does the same")
	}
	nd.Reach("end")
}

// vhRemake makes the files of vhLitter that are missing.
func vhRemake(base string) {
	for _, n := range vhLitterNames {
		if !vhGone(base + "/" + n) {
			continue
		}
		switch n {
		case "d", "e":
			os.Mkdir(base+"/"+n, 0755)
		case "l":
			os.Symlink(base+"/a", base+"/l")
		default:
			os.MkdirAll(filepath.Dir(base+"/"+n), 0755)
			os.WriteFile(base+"/"+n, []byte(n), 0644)
		}
	}
}

// VH_C11_history: a sequence of four (thorough: six) steps, each of which registers a file for autocleaning or not, runs a Clean with or without autocleaning and with one of two lists, or makes the missing files again.
// vh: budget=40s tbudget=300s
func VH_C11_history() {
	base := nd.TempDir()
	vhLitter(base)
	lists := [][]string{nil, {base + "/b"}}
	rels := [][]string{nil, {"b"}}
	var reg []string // registered so far
	names := []string{"a", "d/x", "e"}
	ran := 0
	for i, n := 0, nd.Tier(4, 6); i < n; i++ {
		switch op := nd.Choice("op", 4); op {
		case 0, 1:
			f := names[nd.Choice("file", len(names))]
			if op == 0 {
				reg = append(reg, f)
			}
			Files(&vhNop{}, []string{base + "/l"}, []string{base + "/" + f}, Autoclean(op == 0))
		case 2:
			k := nd.Choice("list", 2)
			c := &Clean{Files: lists[k], Autoclean: nd.Choice("autoclean", 2) == 1}
			err := NewController(base).Run(context.Background(), c)
			listed := rels[k]
			if c.Autoclean {
				listed = append(append([]string{}, listed...), reg...)
			}
			nd.Assert(err == nil, "cleaning succeeds")
			for _, f := range vhLitterNames {
				want := true
				for _, l := range listed {
					want = want && l != f
				}
				if !want {
					nd.Assert(vhGone(base+"/"+f), "a listed file is removed")
				} else {
					nd.Assert(!vhGone(base+"/"+f), "no other file is removed")
				}
			}
			nd.Assert(len(c.Files) == len(rels[k]), "the list is not altered")
			ran++
			vhRemake(base)
		case 3:
			// as a program would that makes the files
			err := NewController(base).Run(context.Background(), Files(F(func(context.Context, *Controller) error { return nil }), nil, []string{base + "/d/y"}))
			nd.Assert(err == nil, "the rule succeeds")
		}
	}
	nd.Reach("end")
}

// VH_C11_shared: two Clean targets that share a list of files, and a function that registers a file for autocleaning, run at the same time under any schedule with at most one preemption.
// vh: budget=60s
func VH_C11_shared() {
	base := nd.TempDir()
	vhLitter(base)
	shared := []string{base + "/e", base + "/d/x", base + "/a"}
	c1 := &Clean{Files: shared}
	c2 := &Clean{Files: shared, Autoclean: true}
	f := F(func(context.Context, *Controller) error {
		Files(&vhNop{}, nil, []string{base + "/b"}, Autoclean(true))
		return nil
	})
	nd.Explore(1, true)
	err := NewController(base).Run(context.Background(), All(c1, c2, f))
	nd.StopExplore()
	nd.Assert(err == nil, "cleaning succeeds")
	for _, n := range []string{"a", "d/x", "e"} {
		nd.Assert(vhGone(base+"/"+n), "a listed file is removed")
	}
	for _, n := range []string{"d", "d/y", "l"} {
		nd.Assert(!vhGone(base+"/"+n), "no other file is removed")
	}
	nd.Assert(shared[0] == base+"/e" && shared[1] == base+"/d/x" && shared[2] == base+"/a", "the list is not altered")
	nd.Reach("end")
}

// VH_C11_yaml: a YAML document in any of three directories with a Clean in each of its notations, with and without autocleaning, and a Files rule whose output is registered for autocleaning or not; the Clean lists any one-byte name of "abm" and one of "xy" in a directory below.
// vh: budget=20s
func VH_C11_yaml() {
	base := nd.TempDir()
	dir := []string{"", "p", "p/q"}[nd.Choice("dir", 3)]
	in := filepath.Join(base, dir)
	for _, d := range []string{base, base + "/p", base + "/p/q"} {
		os.MkdirAll(d, 0755)
		vhLitter(d)
	}
	f1, f2 := nd.StrN("file", 1, "abm"), "d/"+nd.StrN("file", 1, "xy")
	list := vhSeq("", vhScalar(f1), vhScalar(f2))
	auto := false
	var clean *yaml.Node
	if nd.Bool("mapping") {
		auto = nd.Bool("autoclean")
		clean = vhMap("!Clean", vhScalar("Files"), list)
		if auto {
			clean.Content = append(clean.Content, vhScalar("Autoclean"), &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!bool", Value: "true"})
		}
	} else {
		clean = list
		clean.Tag = "!Clean"
	}
	rule := vhMap("!Files", vhScalar("Out"), vhSeq("", vhScalar("e")), vhScalar("Target"), vhMap("!Command", vhScalar("Shell"), vhScalar("x")))
	reg := nd.Bool("registered")
	if reg {
		rule.Content = append(rule.Content, vhScalar("Autoclean"), &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!bool", Value: "true"})
	}
	con := NewController(base)
	_, err := con.YAMLTarget(rule, dir)
	nd.Assert(err == nil, "the rule is decoded")
	t, err := con.YAMLTarget(clean, dir)
	nd.Assert(err == nil, "the Clean is decoded")
	err = con.Run(context.Background(), t)
	nd.Assert(err == nil, "cleaning succeeds")
	for _, d := range []string{base, base + "/p", base + "/p/q"} {
		for _, n := range vhLitterNames {
			gone := vhGone(d + "/" + n)
			if d == in && (n == f1 || n == f2 || auto && reg && n == "e") {
				nd.Assert(gone, "a listed file is removed")
			} else {
				nd.Assert(!gone, "no other file is removed")
			}
		}
	}
	nd.Reach("end")
}
