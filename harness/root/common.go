package fab

import (
	"context"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab/zzverif/nd"
)

type vhErr struct{ s string }

func (e *vhErr) Error() string { return e.s }

// vhAtDepth calls f in a target that is nested n deep in con.
func vhAtDepth(con *Controller, n int, f func()) {
	if n == 0 {
		f()
		return
	}
	t := F(func(ctx context.Context, con *Controller) error {
		vhAtDepth(con, n-1, f)
		return nil
	})
	err := con.Run(context.Background(), t)
	nd.Assert(err == nil, "nested run succeeds")
}

func vhB2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// vhNop is a target that records being run.
type vhNop struct {
	name string
	runs int
	args []string
	dry  bool
}

func (n *vhNop) Run(ctx context.Context, con *Controller) error {
	n.runs++
	n.args = GetArgs(ctx)
	n.dry = GetDryRun(ctx)
	return nil
}
func (n *vhNop) Desc() string { return "nop " + n.name }

func vhScalar(s string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s} }
func vhSeq(tag string, c ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.SequenceNode, Tag: tag, Content: c}
}
func vhMap(tag string, c ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.MappingNode, Tag: tag, Content: c}
}

// vhDB is a hash database.
type vhDB struct{ has [][]byte }

func (d *vhDB) Has(_ context.Context, h []byte) (bool, error) {
	for _, x := range d.has {
		if string(x) == string(h) {
			return true, nil
		}
	}
	return false, nil
}
func (d *vhDB) Add(_ context.Context, h []byte) error { d.has = append(d.has, h); return nil }

// vhNamed names a registered target the way a YAML file does.
func vhNamed(con *Controller, name string) Target {
	t, err := con.YAMLTarget(&yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: name}, "")
	nd.Assert(err == nil, "a plain name is a target reference")
	return t
}

func vhRegister(con *Controller, name string, t Target) {
	_, err := con.RegisterTarget(name, "", t)
	nd.Assert(err == nil, "registration succeeds")
}
