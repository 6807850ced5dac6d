// Program gen makes a driver for a directory of rules with the code under test.
// Arguments: the repository, the directory, the driver, and the PATH for making the driver.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/packages"

	"github.com/bobg/fab"
)

func main() {
	repo, dir, out, path := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	names, _ := filepath.Glob(dir + "/*.go")
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir:     repo,
		Overlay: map[string][]byte{},
	}
	for _, n := range names {
		b, err := os.ReadFile(n)
		check(err)
		cfg.Overlay[repo+"/zzverif/rules/"+filepath.Base(n)] = b
	}
	pkgs, err := packages.Load(cfg, "./zzverif/rules")
	check(err)
	if len(pkgs) != 1 {
		check(fmt.Errorf("%d packages", len(pkgs)))
	}
	pkg := pkgs[0]
	pkg.GoFiles, pkg.CompiledGoFiles = names, names
	os.Setenv("PATH", path)
	check(fab.CompilePackage(context.Background(), pkg, out))
}

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
