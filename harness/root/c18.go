package fab

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/bobg/fab/zzverif/nd"
)

// vhTop is what TopDir should return; "" means an error. Components above base have neither _fab nor YAML files.
// decls maps directories that have a YAML file to their declaration ("none" for a file without one).
func vhTop(dir string, fab map[string]bool, decls map[string]string) string {
	for dir != "/" {
		if fab[dir] {
			return dir
		}
		if decl, ok := decls[dir]; ok {
			if decl == "none" {
				return dir
			}
			if decl != "" && strings.HasSuffix(dir, "/"+decl) && len(dir) > len(decl)+1 {
				return strings.TrimSuffix(dir, "/"+decl)
			}
			return ""
		}
		dir = filepath.Dir(dir)
	}
	return ""
}

// vhMakeDecl writes a YAML file that declares decl.
func vhMakeDecl(dir, file, decl string) {
	text := "# a comment\nFoo: !Clean\n  - x\n"
	if decl != "none" {
		text = "_dir: " + decl + "\n" + text
	}
	os.WriteFile(dir+"/"+file, []byte(text), 0644)
}

// VH_C18_tree: a project of depth three; each level has a _fab directory, a _fab file or none, and a YAML file with any of
// seven (for the innermost fifteen) declarations or none; searched from each level, by absolute or relative path.
// vh: budget=30s tbudget=240s
func VH_C18_tree() {
	base := nd.TempDir()
	dirs := []string{base + "/p", base + "/p/q", base + "/p/q/2024"}
	os.MkdirAll(dirs[2], 0755)
	fab := map[string]bool{}
	decls := map[string]string{}
	start := nd.Choice("start", 3)
	for i := start; i >= 0; i-- {
		d := dirs[i]
		switch nd.Choice("fab", 3) {
		case 1:
			os.Mkdir(d+"/_fab", 0755)
			fab[d] = true
		case 2:
			os.WriteFile(d+"/_fab", nil, 0644)
		}
		var opts []string
		switch i {
		case 0:
			opts = []string{"", "none", "p", "q", "/p"}
		case 1:
			opts = []string{"", "none", "q", "p/q", "x/q", "q/p", "../p/q"}
		case 2:
			opts = []string{"", "none", "2024", "q/2024", "p/q/2024", "x/2024", "2024/q", "/q/2024", "q", "p/2024", "2025", "../q/2024", "q/20240", "q/024", "true"}
		}
		k := nd.Choice("decl", len(opts))
		if decl := opts[k]; decl != "" {
			file := "fab.yaml"
			if (k+i)%2 == 0 {
				file = "fab.yml"
			}
			vhMakeDecl(d, file, decl)
			decls[d] = decl
		}
		if fab[d] {
			break
		}
	}
	dir := dirs[start]
	if nd.Bool("relative") {
		os.Chdir(dir)
		dir = "."
	}
	got, err := TopDir(dir)
	want := vhTop(dirs[start], fab, decls)
	nd.Assert((err != nil) == (want == ""), "an error iff there is no top directory or a wrong declaration")
	if err == nil {
		nd.Assert(got == want, "the top directory is that of the nearest _fab directory or declaration")
	}
	nd.Reach("end")
}

// VH_C18_decl: a YAML file in a directory of depth four below the scratch directory with any clean relative declaration of
// up to four components out of three names, and the whole path.
// vh: budget=20s
func VH_C18_decl() {
	base := nd.TempDir()
	comps := []string{"ab", "b", "ab", "b"}
	dir := base + "/ab/b/ab/b"
	os.MkdirAll(dir, 0755)
	n := nd.Int("components", 0, 5)
	if n == 0 {
		vhMakeDecl(dir, "fab.yaml", []string{"''", "", "none"}[nd.Choice("empty", 3)])
		got, err := TopDir(dir)
		nd.Assert(err == nil && got == dir, "a YAML file without declaration is in the top directory")
		return
	}
	decl := ""
	if n == 5 {
		decl = strings.TrimPrefix(dir, "/") // nothing above the top: this is the root
		if nd.Bool("toolong") {
			decl = "z/" + decl
			vhMakeDecl(dir, "fab.yaml", decl)
			_, err := TopDir(dir)
			nd.Assert(err != nil, "a declaration with nothing above it is an error")
			nd.Reach("toolong")
			return
		}
		vhMakeDecl(dir, "fab.yaml", decl)
		got, err := TopDir(dir)
		nd.Assert(err != nil || got == "/", "a declaration reaching up to the root")
		return
	}
	ok := true
	for i := 0; i < n; i++ {
		c := []string{"ab", "b", "a"}[nd.Choice("comp", 3)]
		ok = ok && c == comps[4-n+i]
		decl = filepath.Join(decl, c)
	}
	vhMakeDecl(dir, "fab.yaml", decl)
	got, err := TopDir(dir)
	nd.Assert((err == nil) == ok, "a declaration that does not match the location is an error")
	if ok {
		nd.Assert(got+"/"+decl == dir, "the top directory is what the declaration is relative to")
	}
	nd.Reach("end")
}

// VH_C18_broken: unreadable situations: a YAML file that is a directory or not YAML, a _fab that cannot be examined (a symlink loop),
// or a start below something that is not a directory; the search ends with an error, or finds a top directory further up only where nothing is there.
// vh: budget=10s
func VH_C18_broken() {
	base := nd.TempDir()
	dir := base + "/p/q"
	os.MkdirAll(dir, 0755)
	os.Mkdir(base+"/p/_fab", 0755)
	start := dir
	switch nd.Choice("fault", 5) {
	case 0:
		os.WriteFile(dir+"/fab.yaml", []byte("a: [unclosed\n"), 0644)
	case 1:
		os.Symlink("_fab", dir+"/_fab")
	case 2:
		os.Mkdir(dir+"/fab.yaml", 0755)
	case 3:
		os.WriteFile(dir+"/fab.yaml", []byte("- a\n- b\n"), 0644)
	case 4:
		os.WriteFile(dir+"/fab.yaml", []byte("_dir: [q]\n"), 0644)
	}
	_, err := TopDir(start)
	nd.Assert(err != nil, "a fault is reported")
	nd.Reach("end")
}
