package fab

import (
	"context"
	"errors"
	"os"
	"strings"

	"github.com/bobg/fab/zzverif/nd"
)

// vhSpell is a file in base, spelled in one of several ways.
func vhSpell(base, name string, how int) string {
	switch how {
	case 1:
		return base + "/./" + name
	case 2:
		return base + "//" + name + "/"
	case 3:
		return base + "/zz/../" + name
	}
	return base + "/" + name
}

// vhChainRule describes one of the rules of VH_C09_chain.
type vhChainRule struct {
	ins, outs []int // indexes of vhChainFiles
	target    Target
	runs      int
	started   bool
	done      bool
}

var vhChainFiles = []string{"a", "d/x", "d/y", "e/f/z", "dd/x", "b"}

// what may be listed as an output: the files and some directories
var vhChainOuts = []string{"a", "d/x", "d", "e", "e/f", "b"}

func vhProduces(out, file string) bool { return out == file || strings.HasPrefix(file, out+"/") }

// VH_C09_chain: three (thorough: four) rules, of which each but the first has an input of six files and each but the last an output out of six files and directories, spelled in one of four ways;
// the last one is run, and any one of them may fail.
// vh: budget=40s tbudget=300s
func VH_C09_chain() {
	base := nd.TempDir()
	n := nd.Tier(2, 3)
	var (
		outs, ins [4]string
		rules     [4]*vhChainRule
		fail      = nd.Choice("fail", n+1)
		failure   = &vhErr{"producer"}
	)
	for i := 0; i < n; i++ {
		outs[i] = vhChainOuts[nd.Choice("out", len(vhChainOuts))]
		for j := 0; j < i; j++ {
			// Only one rule produces any file.
			nd.Assume(!vhProduces(outs[i], outs[j]) && !vhProduces(outs[j], outs[i]))
		}
	}
	for i := 1; i <= n; i++ {
		ins[i] = vhChainFiles[nd.Choice("in", len(vhChainFiles))]
	}
	outs[n] = "out"
	// needs[i] is the rule that produces the input of rule i, or -1
	var needs [4]int
	for i := 0; i <= n; i++ {
		needs[i] = -1
		for j := 0; j < n; j++ {
			if ins[i] != "" && j != i && vhProduces(outs[j], ins[i]) {
				needs[i] = j
			}
		}
	}
	// no cycles
	for i := 0; i <= n; i++ {
		k := 0
		for j := needs[i]; j >= 0; j = needs[j] {
			k++
			nd.Assume(k <= n)
		}
	}
	spellOut := nd.Choice("spell", 4)
	spellIn := spellOut ^ nd.Tier(3, nd.Choice("spellin", 4))
	for i := 0; i <= n; i++ {
		i := i
		r := &vhChainRule{}
		rules[i] = r
		sub := F(func(context.Context, *Controller) error {
			r.started = true
			r.runs++
			if j := needs[i]; j >= 0 {
				nd.Assert(rules[j].done, "the producer of an input has finished before")
			}
			if i == fail {
				return failure
			}
			r.done = true
			return nil
		})
		var in []string
		if ins[i] != "" {
			in = []string{base + "/other", vhSpell(base, ins[i], spellIn)}
		}
		r.target = Files(sub, in, []string{vhSpell(base, outs[i], spellOut)})
	}
	con := NewController(base)
	err := con.Run(context.Background(), rules[n].target)
	needed, fails := map[int]bool{n: true}, fail == n
	for j := needs[n]; j >= 0; j = needs[j] {
		needed[j] = true
		fails = fails || j == fail
	}
	nd.Assert((err != nil) == fails, "the run fails iff a needed rule fails")
	nd.Assert(err == nil || errors.Is(err, failure), "the error is that of the failing rule")
	blocked := false // by a failing producer
	order := []int{n}
	for j := needs[n]; j >= 0; j = needs[j] {
		order = append([]int{j}, order...)
	}
	for _, j := range order {
		nd.Assert(rules[j].runs == vhB2i(!blocked), "a rule is run once iff its producers have succeeded")
		if j == fail {
			blocked = true
		}
	}
	for i, r := range rules[:n+1] {
		nd.Assert(needed[i] || r.runs == 0, "a rule that produces none of the inputs is not run")
	}
	nd.Reach("end")
}

// VH_C09_hash: a rule whose input, or a file in its input directory, is written by another rule with any one-byte contents is run in three processes:
// it looks at the files the other one has left.
// vh: budget=30s
func VH_C09_hash() {
	base := nd.TempDir()
	os.Mkdir(base+"/d", 0755)
	out, in := base+"/d/x", base+"/d/x"
	if nd.Bool("dir") {
		out = base + "/d"
	}
	db := &vhDB{}
	src := base + "/src"
	recorded := ""
	for i := 0; i < 3; i++ {
		text := nd.StrN("src", 1, "")
		os.WriteFile(src, []byte(text), 0644)
		var r1, r2 int
		seen := ""
		Files(&vhSub{Def: "1", Runs: &r1, Do: func(context.Context) error {
			b, _ := os.ReadFile(src)
			return os.WriteFile(base+"/d/x", b, 0644)
		}}, []string{src}, []string{out})
		t2 := Files(&vhSub{Def: "2", Runs: &r2, Do: func(context.Context) error {
			b, _ := os.ReadFile(in)
			seen = string(b)
			return nil
		}}, []string{in}, nil)
		err := NewController(base).Run(WithHashDB(context.Background(), db), t2)
		nd.Assert(err == nil, "the run succeeds")
		if r2 > 0 {
			nd.Assert(seen == text, "the subtarget sees what the producer has written")
		}
		nd.Assert((r2 == 0) == (strings.Contains(recorded, text)), "a rule is skipped iff its producer has left what is recorded")
		recorded += text
	}
	nd.Reach("end")
}

// VH_C09_self: a rule whose own output, or a directory or file in it, is among its inputs is run once, alone or with others, without waiting for itself.
// vh: budget=20s
func VH_C09_self() {
	base := nd.TempDir()
	names := []string{"a", "d", "d/x", "e"}
	runs, pre := 0, 0
	in := []string{base + "/" + names[nd.Choice("in", 4)], base + "/" + names[nd.Choice("in", 4)]}
	out := []string{base + "/" + names[nd.Choice("out", 4)]}
	if nd.Bool("before") {
		Files(F(func(context.Context, *Controller) error { pre++; return nil }), nil, []string{base + "/e"})
	}
	t := Files(F(func(context.Context, *Controller) error { runs++; return nil }), in, out)
	err := NewController(base).Run(context.Background(), t)
	nd.Assert(err == nil && runs == 1, "the rule is run once")
	want := 0
	if out[0] != base+"/e" && (in[0] == base+"/e" || in[1] == base+"/e") {
		want = 1
	}
	nd.Assert(pre <= want, "no other rule is run")
	nd.Reach("end")
}

// VH_C09_order: two rules that share a producer are run concurrently under any scheduling with up to one (thorough: two) preemptions: the producer is run once and has finished before either.
// vh: budget=30s tbudget=200s
func VH_C09_order() {
	base := nd.TempDir()
	runs, done, n := 0, false, 0
	Files(F(func(context.Context, *Controller) error {
		runs++
		nd.Yield("producing")
		done = true
		return nil
	}), nil, []string{base + "/d"})
	use := func(f string) Target {
		return Files(F(func(context.Context, *Controller) error {
			nd.Assert(done, "the producer has finished before")
			return nil
		}), []string{base + "/" + f}, []string{base + "/out-" + strings.ReplaceAll(f, "/", "-")})
	}
	nd.Explore(nd.Tier(1, 2), true)
	a, b := use("d/x"), use("d/s/y")
	_ = n
	err := NewController(base).Run(context.Background(), a, b)
	nd.StopExplore()
	nd.Assert(err == nil && runs == 1, "the producer is run once")
	nd.Reach("end")
}

// VH_C09_names: a rule has any output name of up to three (thorough: four) bytes and another any input name of up to four (thorough: five) bytes of "a/.", relative or in some directory:
// the first is run before the second iff it is the same file, or a directory above it, according to the names.
// vh: budget=30s tbudget=200s
func VH_C09_names() {
	out := nd.Str("out", nd.Tier(3, 4), "a/.")
	in := nd.Str("in", nd.Tier(4, 5), "a/.")
	if nd.Bool("relative") {
		nd.Assume(out != "" && in != "" && out[0] != '/' && in[0] != '/')
		nd.Assume(!strings.HasPrefix(vhClean(out), ".."))
	} else {
		base := nd.TempDir() + "/x/"
		out, in = base+out, base+in
	}
	pre := 0
	Files(F(func(context.Context, *Controller) error { pre++; return nil }), nil, []string{out})
	ran := false
	t := Files(F(func(context.Context, *Controller) error { ran = true; return nil }), []string{in}, nil)
	err := NewController("").Run(context.Background(), t)
	nd.Assert(err == nil && ran, "the run succeeds")
	o, i := vhClean(out), vhClean(in)
	below := strings.HasPrefix(i, o+"/") || o == "." && i != ".." && !strings.HasPrefix(i, "../")
	nd.Assert(pre == vhB2i(o == i || below), "the rule for an output is run iff the input is it or lies below it")
	nd.Reach("end")
}

// VH_C09_many: a rule with any two or three inputs of six files, in any order; two or three producers, of which each has one output of six files and directories and the last has two, in any order of definition; any one of them may fail:
// exactly the producers of the inputs have been run, once, before the rule.
// vh: budget=40s tbudget=300s
func VH_C09_many() {
	base := nd.TempDir()
	n := nd.Tier(2, 3)
	outs := [][]string{nil, nil, nil}[:n]
	done, runs := make([]bool, n), make([]int, n)
	fail := nd.Choice("fail", n+2) // n is the rule itself
	failure := &vhErr{"producer"}
	var all []string
	for i := range outs {
		outs[i] = []string{vhChainOuts[nd.Choice("out", len(vhChainOuts))]}
		if i == n-1 {
			outs[i] = append(outs[i], vhChainOuts[nd.Choice("out", len(vhChainOuts))])
		}
		for _, o := range outs[i] {
			for _, p := range all {
				nd.Assume(!vhProduces(o, p) && !vhProduces(p, o))
			}
			all = append(all, o)
		}
	}
	var ins []string
	needed := make([]bool, n)
	for k := 2 + nd.Choice("ins", 2); k > 0; k-- {
		in := vhChainFiles[nd.Choice("in", len(vhChainFiles))]
		ins = append(ins, base+"/"+in)
		for i := range outs {
			for _, o := range outs[i] {
				if vhProduces(o, in) {
					needed[i] = true
				}
			}
		}
	}
	for i := range outs {
		i := i
		var abs []string
		for _, o := range outs[i] {
			abs = append(abs, base+"/"+o)
		}
		Files(F(func(context.Context, *Controller) error {
			runs[i]++
			if i == fail {
				return failure
			}
			done[i] = true
			return nil
		}), nil, abs)
	}
	ran := 0
	rule := Files(F(func(context.Context, *Controller) error {
		ran++
		for i := range needed {
			nd.Assert(!needed[i] || done[i], "the producers of the inputs have finished before")
		}
		if fail == n {
			return failure
		}
		return nil
	}), ins, []string{base + "/out"})
	err := NewController(base).Run(context.Background(), rule)
	blocked := fail < n && needed[fail]
	nd.Assert((err != nil) == (blocked || fail == n), "the run fails iff a needed rule fails")
	nd.Assert(err == nil || errors.Is(err, failure), "the error is that of the failing rule")
	nd.Assert(ran == vhB2i(!blocked), "the rule is run once iff the producers have succeeded")
	for i := range needed {
		nd.Assert(runs[i] == vhB2i(needed[i]), "exactly the producers of the inputs are run, once")
	}
	nd.Reach("end")
}
