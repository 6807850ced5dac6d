package fab

import (
	"context"
	"os"
	"strings"
	"time"

	"github.com/bobg/fab/zzverif/nd"
)

// vhSetFiles gives each file any one-byte contents, or removes it if it may.
func vhSetFiles(base string, names []string, remove string) {
	for _, n := range names {
		if !strings.Contains(remove, n) || nd.Bool("present") {
			os.WriteFile(base+"/"+n, []byte(nd.StrN("text", 1, "")), 0644)
		} else {
			os.Remove(base + "/" + n)
		}
	}
}

// VH_C06_history: three (thorough: four) runs of a rule with an input file, an input directory with a subdirectory with a file, and an output file,
// each by a new process; before the second run, any one file gets any one-byte contents or is removed, and before the third, the output (thorough: the output or the input) file gets any one-byte contents; the subtarget may fail or write any contents to the output;
// in the second, force may be on.
// vh: budget=60s tbudget=400s samples=20
func VH_C06_history() {
	base := nd.TempDir()
	os.MkdirAll(base+"/d/s", 0755)
	in, out := []string{base + "/a", base + "/d"}, []string{base + "/o"}
	db := &vhDB{}
	var recorded []vhState
	n := nd.Tier(3, 4)
	for i := 0; i < n; i++ {
		effect := 0
		switch i {
		case 0:
			vhSetFiles(base, []string{"a", "d/s/y", "o"}, "")
		case 1:
			vhSetFiles(base, []string{"a", "d/s/y", "o"}[nd.Choice("file", 3):][:1], "a d/s/y o")
		case 2:
			vhSetFiles(base, []string{"o", "a", "d/s/y"}[nd.Choice("file", n-2):][:1], "")
		case 3:
			vhSetFiles(base, []string{"a", "o"}, "")
		}
		failure := &vhErr{"subtarget"}
		runs := 0
		sub := &vhSub{Def: "x", Runs: &runs, Do: func(context.Context) error {
			if i < n-1 {
				effect = nd.Choice("effect", 3)
			}
			switch effect {
			case 1:
				return failure
			case 2:
				os.WriteFile(base+"/o", []byte(nd.StrN("out", 1, "")), 0644)
			}
			return nil
		}}
		force := i == 1 && nd.Bool("force")
		before := vhState{vhSnapshot(in), vhSnapshot(out)}
		con := NewController(base)
		ctx := WithForce(WithHashDB(context.Background(), db), force)
		err := con.Run(ctx, Files(sub, in, out))
		current := before.in_(recorded)
		if current && !force {
			nd.Assert(err == nil && runs == 0, "a rule whose files are as recorded is skipped")
			nd.Reach("skipped")
			continue
		}
		nd.Assert(runs == 1, "a rule whose files are not as recorded, or that is forced, is run")
		nd.Assert((err != nil) == (effect == 1), "the outcome is that of the subtarget")
		if err == nil {
			recorded = append(recorded, vhState{vhSnapshot(in), vhSnapshot(out)})
		}
	}
	nd.Reach("end")
}

// VH_C06_lists: a rule is run and then run again with its lists of files in another order, with duplicates, its files rewritten with the same contents and
// other timestamps, or its files or directories listed differently so that other files are looked at: it is skipped iff the same files are in each list.
// vh: budget=20s
func VH_C06_lists() {
	base := nd.TempDir()
	os.MkdirAll(base+"/d/s", 0755)
	for _, n := range []string{"a", "b", "d/x", "d/s/y", "o", "p"} {
		os.WriteFile(base+"/"+n, []byte("same"), 0644)
	}
	lists := [][]string{
		{"a", "b"}, {"b", "a"}, {"a", "b", "a"}, {"a"}, {"a", "d"}, {"d", "a"}, {"a", "d/x"}, {"d/s", "a", "d/x"}, {"a", "d/x", "d/s/y"}, {"d", "d/s", "a"}, {"b", "d"}, {}, {"nothing"}, {"nothing", "a"},
	}
	outs := [][]string{{"o", "p"}, {"p", "o", "o"}, {"p"}}
	abs := func(l []string) []string {
		var r []string
		for _, n := range l {
			r = append(r, base+"/"+n)
		}
		return r
	}
	db := &vhDB{}
	run := func(in, out []string) int {
		runs := 0
		err := NewController(base).Run(WithHashDB(context.Background(), db), Files(&vhSub{Def: "x", Runs: &runs}, in, out))
		nd.Assert(err == nil, "the run succeeds")
		return runs
	}
	in1, out1 := abs(lists[nd.Choice("in", len(lists))]), abs(outs[nd.Choice("out", len(outs))])
	nd.Assert(run(in1, out1) == 1, "a new rule is run")
	in2, out2 := abs(lists[nd.Choice("in", len(lists))]), abs(outs[nd.Choice("out", len(outs))])
	if nd.Bool("touch") {
		os.WriteFile(base+"/d/x", []byte("other"), 0644)
		os.Remove(base + "/a")
		os.WriteFile(base+"/a", []byte("same"), 0600)
		os.WriteFile(base+"/d/x", []byte("same"), 0644)
		os.Chtimes(base+"/b", time.Unix(1, 0), time.Unix(2, 0))
	}
	same := vhSameFiles(vhSnapshot(in1), vhSnapshot(in2)) && vhSameFiles(vhSnapshot(out1), vhSnapshot(out2))
	nd.Assert(run(in2, out2) == 1-vhB2i(same), "a rule is skipped iff its lists contain the same files")
	nd.Reach("end")
}

// VH_C06_names: an input directory with two files, one of any two-byte name that is renamed by changing its first byte, or whose contents are changed to any byte, or that is removed or appears, or the contents are exchanged.
// vh: budget=20s
func VH_C06_names() {
	base := nd.TempDir()
	os.Mkdir(base+"/d", 0755)
	name := func(last string) string {
		s := nd.StrN("name", 2-len(last), "") + last
		nd.Assume(s[0] != '/' && s[0] != 0 && s[1] != '/' && s[1] != 0 && s != "..")
		return base + "/d/" + s
	}
	a, b := name(""), base+"/d/bb"
	nd.Assume(a != b)
	change := nd.Choice("change", 5)
	if change != 4 {
		os.WriteFile(a, []byte("1"), 0644)
	}
	os.WriteFile(b, []byte("2"), 0644)
	db := &vhDB{}
	in, out := []string{base + "/d"}, []string{base + "/o"}
	run := func() int {
		runs := 0
		err := NewController(base).Run(WithHashDB(context.Background(), db), Files(&vhSub{Def: "x", Runs: &runs}, in, out))
		nd.Assert(err == nil, "the run succeeds")
		return runs
	}
	before := vhSnapshot(in)
	nd.Assert(run() == 1, "a new rule is run")
	switch change {
	case 0:
		os.WriteFile(a, []byte("2"), 0644)
		os.WriteFile(b, []byte("1"), 0644)
	case 1:
		c := name(a[len(a)-1:])
		nd.Assume(c != b)
		os.Rename(a, c)
	case 2:
		os.WriteFile(a, []byte(nd.StrN("text", 1, "")), 0644)
	case 3:
		os.Remove(a)
	case 4:
		os.WriteFile(a, []byte("1"), 0644)
	}
	same := vhSameFiles(before, vhSnapshot(in))
	nd.Assert(run() == 1-vhB2i(same), "a rule is run again iff a name has changed")
	nd.Reach("end")
}

// VH_C06_texts: two runs with the input and the output file having any contents of up to two bytes each time.
// vh: budget=20s
func VH_C06_texts() {
	base := nd.TempDir()
	db := &vhDB{}
	in, out := []string{base + "/i"}, []string{base + "/o"}
	var texts [4]string
	for i := range texts {
		texts[i] = nd.Str("text", nd.Tier(2, 3), "")
	}
	want := 1
	for i := 0; i < 2; i++ {
		os.WriteFile(in[0], []byte(texts[2*i]), 0644)
		os.WriteFile(out[0], []byte(texts[2*i+1]), 0644)
		runs := 0
		err := NewController(base).Run(WithHashDB(context.Background(), db), Files(&vhSub{Def: "x", Runs: &runs}, in, out))
		nd.Assert(err == nil, "the run succeeds")
		nd.Assert(runs == want, "a rule is run again iff a byte has changed")
		want = 1 - vhB2i(texts[2] == texts[0] && texts[3] == texts[1])
	}
	nd.Reach("end")
}

// VH_C06_large: the input or the output file, or a file in an input directory, has 100 bytes to 200 kB (thorough: 2 MB) and one of its bytes, at the start, in the middle, around powers of two or at the end, is replaced by any byte, or a byte is appended or cut off.
// vh: budget=40s tbudget=200s
func VH_C06_large() {
	base := nd.TempDir()
	os.Mkdir(base+"/d", 0755)
	in, out := []string{base + "/d"}, []string{base + "/o"}
	size := []int{100, 5000, 66000, 200000, 2000000}[nd.Choice("size", nd.Tier(4, 5))]
	text := []byte(strings.Repeat("text", size/4))
	victim := base + []string{"/d/x", "/o"}[nd.Choice("victim", 2)]
	os.WriteFile(victim, text, 0644)
	db := &vhDB{}
	run := func() int {
		runs := 0
		err := NewController(base).Run(WithHashDB(context.Background(), db), Files(&vhSub{Def: "x", Runs: &runs}, in, out))
		nd.Assert(err == nil, "the run succeeds")
		return runs
	}
	nd.Assert(run() == 1, "a new rule is run")
	nd.Assert(run() == 0, "a rule whose files are as recorded is skipped")
	pos, same := 0, false
	switch nd.Choice("change", 9) {
	case 0:
	case 1:
		pos = size / 2
	case 2:
		pos = 512
	case 3:
		pos = 4096
	case 4:
		pos = 32768
	case 5:
		pos = 65536
	case 6:
		pos = size - 1
	case 7:
		text = append(text, 't')
	case 8:
		text = text[:size-1]
	}
	nd.Assume(pos < size)
	if len(text) == size {
		c := nd.Byte("byte")
		same = c == text[pos]
		text[pos] = c
	}
	os.WriteFile(victim, text, 0644)
	nd.Assert(run() == 1-vhB2i(same), "a rule is run again iff a byte has changed")
	nd.Reach("end")
}
