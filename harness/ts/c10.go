package ts

import (
	"context"
	"os"

	"golang.org/x/tools/go/packages"

	"github.com/bobg/fab"
	"github.com/bobg/fab/zzverif/nd"
	"github.com/bobg/fab/zzverif/vm"
)

type vhNoDB struct{ calls int }

func (d *vhNoDB) Has(context.Context, []byte) (bool, error) { d.calls++; return false, nil }
func (d *vhNoDB) Add(context.Context, []byte) error         { d.calls++; return nil }

// VH_C10_decls: a target that generates TypeScript declarations to any one-byte file name of "ab", directly, in YAML or nested, is run in dry-run mode.
// vh: budget=10s
func VH_C10_decls() {
	base := nd.TempDir()
	os.WriteFile(base+"/a", []byte("old"), 0644)
	os.WriteFile(base+"/x.go", []byte("package x\ntype T struct{}\n"), 0644)
	vm.PackagesHook = func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
		return []*packages.Package{{Name: "x", PkgPath: "m/x", GoFiles: []string{base + "/x.go"}, Module: &packages.Module{Path: "m"}}}, nil
	}
	out := base + "/" + nd.StrN("out", 1, "ab")
	t, err := Decls(base, "T", "/p", out, fab.Autoclean(nd.Bool("autoclean")))
	nd.Assert(err == nil, "the target is made")
	if nd.Bool("nested") {
		t2, err := Decls(base, "T", "/q", out)
		nd.Assert(err == nil, "the target is made")
		t = fab.Files(fab.Seq(t, t2), []string{out}, nil)
	}
	db := &vhNoDB{}
	ctx := fab.WithForce(fab.WithVerbose(fab.WithDryRun(fab.WithHashDB(context.Background(), db), true), nd.Bool("verbose")), nd.Bool("force"))
	err = fab.NewController(base).Run(ctx, t)
	nd.Assert(err == nil, "a dry run succeeds")
	nd.Assert(db.calls == 0, "the database is not used")
	ents, _ := os.ReadDir(base)
	nd.Assert(len(ents) == 2, "no file is created or removed")
	b, err := os.ReadFile(base + "/a")
	nd.Assert(err == nil && string(b) == "old", "no file is changed")
	nd.Reach("end")
}
