package fab

import (
	"context"
	"strings"

	"github.com/bobg/fab/zzverif/nd"
)

// VH_C19_args: any list of up to four arguments, each any string of up to two bytes of "a", "b", "-" and "/",
// against any subset of eight registered names; the result is then run.
// vh: budget=20s tbudget=200s
func VH_C19_args() {
	con := NewController("")
	names := []string{"a", "b", "ab", "-", "-a", "a/b", "a-", ""}
	reg := map[string]*vhNop{}
	for _, n := range names {
		if n == "a" || nd.Bool("registered") {
			t := &vhNop{name: n}
			reg[n] = t
			con.RegisterTarget(n, "", t)
		}
	}
	n := nd.Int("nargs", 0, nd.Tier(3, 4))
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, nd.Str("arg", 2, "ab-/"))
	}
	before := append([]string(nil), args...)
	targets, err := con.ParseArgs(args)
	nd.Assert(len(args) == len(before), "the arguments are left alone")
	for i := range args {
		nd.Assert(args[i] == before[i], "the arguments are left alone")
	}
	for _, t := range reg {
		nd.Assert(t.runs == 0, "parsing runs nothing")
	}
	if len(args) > 1 && len(args[1]) > 0 && args[1][0] == '-' {
		nd.Reach("argtarget")
		t, ok := reg[args[0]]
		if !ok {
			nd.Assert(err != nil && targets == nil, "an unknown target is an error")
			nd.Assert(strings.Contains(err.Error(), args[0]), "the error names the unknown target")
			return
		}
		nd.Assert(err == nil && len(targets) == 1, "one target is returned")
		nd.Assert(con.Run(context.Background(), targets...) == nil, "the target runs")
		nd.Assert(t.runs == 1, "the named target is the one that runs")
		nd.Assert(len(t.args) == len(args)-1, "all remaining arguments are passed")
		for i, a := range args[1:] {
			nd.Assert(t.args[i] == a, "arguments are passed unchanged")
		}
		for _, o := range reg {
			nd.Assert(o == t || o.runs == 0, "no other target runs")
		}
		nd.Reach("end")
		return
	}
	var want []*vhNop
	var unknown []string
	for _, a := range args {
		if t, ok := reg[a]; ok {
			want = append(want, t)
		} else {
			unknown = append(unknown, a)
		}
	}
	if len(unknown) > 0 {
		nd.Assert(err != nil && targets == nil, "an unknown target is an error")
		// The names are the last words of the message, in any order and with any separators.
		msg := err.Error()
		for _, u := range unknown {
			nd.Assert(strings.Contains(msg, u), "the error names every unknown target")
		}
		nd.Reach("unknown")
		return
	}
	nd.Assert(err == nil, "known targets are no error")
	nd.Assert(len(targets) == len(want), "one target per argument")
	for i, w := range want {
		nd.Assert(targets[i] == Target(w), "the targets are those named, in order")
	}
	nd.Reach("end")
}

// VH_C19_words: every unknown target is named in the error: three arguments of which any are unknown.
// vh: budget=5s
func VH_C19_words() {
	con := NewController("")
	words := []string{"apple", "berry", "cedar"}
	var known [3]bool
	for i, w := range words {
		if nd.Bool("known") {
			known[i] = true
			con.RegisterTarget(w, "", &vhNop{name: w})
		}
	}
	order := nd.Choice("rot", 3)
	args := []string{words[order], words[(order+1)%3], words[(order+2)%3]}
	targets, err := con.ParseArgs(args)
	all := known[0] && known[1] && known[2]
	nd.Assert((err == nil) == all, "an error iff some name is unknown")
	if err != nil {
		nd.Assert(targets == nil, "no targets along with an error")
		for i, w := range words {
			nd.Assert(strings.Contains(err.Error(), w) == !known[i], "the error names exactly the unknown targets")
		}
	}
	nd.Reach("end")
}
