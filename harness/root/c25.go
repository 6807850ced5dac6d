package fab

import (
	"bytes"
	"context"
	"sort"
	"strings"
	"sync"

	"github.com/bobg/fab/zzverif/nd"
)

// vhOuter holds another target at its own address.
type vhOuter struct {
	inner vhInner
}
type vhInner struct{ n int }

func (*vhOuter) Run(context.Context, *Controller) error { return nil }
func (*vhOuter) Desc() string                           { return "outer" }
func (*vhInner) Run(context.Context, *Controller) error { return nil }
func (*vhInner) Desc() string                           { return "inner" }

type vhVal struct{ names []string }

func (vhVal) Run(context.Context, *Controller) error { return nil }
func (vhVal) Desc() string                           { return "value" }

type vhReg struct {
	t   Target
	doc string
}

// vhCheckRegistry compares the registry with the expected contents.
func vhCheckRegistry(con *Controller, model map[string]vhReg, targets []Target, ever map[Target]map[string]bool, nameOf func(string) string) {
	names := con.RegistryNames()
	var want []string
	for n := range model {
		want = append(want, n)
	}
	sort.Strings(want)
	nd.Assert(len(names) == len(want), "each registered name is listed once")
	for i := range want {
		nd.Assert(names[i] == want[i], "the names are listed sorted")
	}
	for n, r := range model {
		t, doc := con.RegistryTarget(n)
		nd.Assert(t == r.t && doc == r.doc, "looking up a name returns what was last registered under it")
	}
	for _, t := range targets {
		d := con.Describe(t)
		registered, ok := false, false
		for n, r := range model {
			if r.t == t {
				registered = true
				ok = ok || d == n
			}
		}
		if registered {
			nd.Assert(ok, "a registered target is described by its name")
		} else if len(ever[t]) == 0 {
			nd.Assert(strings.Contains(d, t.Desc()), "an unregistered target is described by its type description")
			for n := range model {
				if len(n) > 2 {
					nd.Assert(!strings.Contains(d, n), "an unregistered target is not described by a name")
				}
			}
		}
	}
}

// VH_C25_history: any sequence of four (thorough: five) registrations of five targets, some sharing an address and one not a pointer,
// under three names with any one-byte documentation, the registry being compared with a model after each.
// vh: budget=25s tbudget=200s
func VH_C25_history() {
	con := NewController("")
	o := &vhOuter{}
	targets := []Target{o, &o.inner, &vhNop{name: "n"}, &vhVal{}}
	names := []string{"zeta", "alpha", "sub/dir/target"}
	model := map[string]vhReg{}
	ever := map[Target]map[string]bool{}
	n := nd.Tier(4, 5)
	vhCheckRegistry(con, model, targets, ever, nil)
	for i := 0; i < n; i++ {
		k := nd.Choice("target", len(targets)+1)
		name := names[nd.Choice("name", len(names))]
		doc := nd.StrN("doc", 1, "")
		if k == len(targets) {
			v := vhVal{names: names}
			t, err := con.RegisterTarget(name, doc, v)
			nd.Assert(err != nil && t == nil, "a target that is not a pointer is refused")
			nd.Assert(strings.Contains(con.Describe(v), "value"), "a value target is described by its type description")
		} else {
			t, err := con.RegisterTarget(name, doc, targets[k])
			nd.Assert(err == nil && t == targets[k], "RegisterTarget returns its target")
			model[name] = vhReg{targets[k], doc}
			if ever[targets[k]] == nil {
				ever[targets[k]] = map[string]bool{}
			}
			ever[targets[k]][name] = true
		}
		vhCheckRegistry(con, model, targets, ever, nil)
	}
	t, doc := con.RegistryTarget("unknown")
	nd.Assert(t == nil && doc == "", "a name that was not registered is not found")
	nd.Reach("end")
}

// VH_C25_names: two registrations under names of up to two arbitrary bytes with documentation of up to two bytes.
// vh: budget=15s
func VH_C25_names() {
	con := NewController("")
	targets := []Target{&vhNop{name: "1"}, &vhNop{name: "2"}}
	model := map[string]vhReg{}
	for _, t := range targets {
		name := nd.Str("name", 2, "")
		doc := nd.Str("doc", 1, "")
		_, err := con.RegisterTarget(name, doc, t)
		nd.Assert(err == nil, "any name can be registered")
		model[name] = vhReg{t, doc}
	}
	vhCheckRegistry(con, model, nil, nil, nil)
	nd.Assert(model[con.Describe(targets[1])].t == targets[1], "a registered target is described by its name")
	nd.Reach("end")
}

// VH_C25_list: the listing of up to four targets with documentation of zero, one or two lines, registered in any order.
// vh: budget=10s
func VH_C25_list() {
	con := NewController("")
	names := []string{"All", "Build", "Clean", "sub/x"}
	docs := []string{"", "One line.", "Two\nlines."}
	rot := nd.Choice("rot", 4)
	var want [4][]string
	for i := range names {
		j := (i + rot) % 4
		if !nd.Bool("registered") {
			continue
		}
		d := docs[nd.Choice("doc", 3)]
		con.RegisterTarget(names[j], d, &vhNop{})
		want[j] = []string{names[j]}
		if d != "" {
			want[j] = append(want[j], strings.Split(d, "\n")...)
		}
	}
	var buf bytes.Buffer
	con.ListTargets(&buf)
	var lines []string
	for _, l := range strings.Split(buf.String(), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			lines = append(lines, l)
		}
	}
	nd.Observe("list", buf.String())
	k := 0
	for _, w := range want {
		for _, l := range w {
			nd.Assert(k < len(lines) && lines[k] == l, "the listing shows each name followed by its documentation")
			k++
		}
	}
	nd.Assert(k == len(lines), "the listing shows nothing else")
	nd.Reach("end")
}

// VH_C25_concurrent: three goroutines registering, looking up, listing and describing at once, with up to two preemptions.
// vh: budget=20s
func VH_C25_concurrent() {
	con := NewController("")
	a, b := &vhNop{name: "a"}, &vhNop{name: "b"}
	con.RegisterTarget("a", "doc a", a)
	var wg sync.WaitGroup
	var aok, names bool
	nd.Explore(2, true)
	wg.Add(3)
	go func() {
		defer wg.Done()
		con.RegisterTarget("b", "doc b", b)
	}()
	go func() {
		defer wg.Done()
		t, doc := con.RegistryTarget("a")
		aok = t == Target(a) && doc == "doc a" && con.Describe(a) == "a"
	}()
	go func() {
		defer wg.Done()
		n := con.RegistryNames()
		names = len(n) >= 1 && n[0] == "a"
		con.Describe(b)
	}()
	wg.Wait()
	nd.StopExplore()
	nd.Assert(aok && names, "what was registered before is found")
	t, doc := con.RegistryTarget("b")
	nd.Assert(t == Target(b) && doc == "doc b", "what was registered is found")
	nd.Reach("end")
}
