package vm

import (
	"io"
	"runtime/debug"

	"golang.org/x/tools/go/packages"
)

var (
	// PackagesHook answers packages.Load if set.
	PackagesHook func(cfg *packages.Config, patterns ...string) ([]*packages.Package, error)

	// BuildInfo answers debug.ReadBuildInfo if HaveBuildInfo.
	BuildInfo     *debug.BuildInfo
	HaveBuildInfo bool
)

// TSHook answers tsdecls.Write; it fails without.
var TSHook func(w io.Writer, dir, typename, prefix string) error

// NativeTSWrite is used in native replays.
var NativeTSWrite = TSWrite

//model: github.com/bobg/tsdecls.Write
func TSWrite(w io.Writer, dir, typename, prefix string) error {
	if TSHook == nil {
		return vmErr("no declarations")
	}
	return TSHook(w, dir, typename, prefix)
}

//model: golang.org/x/tools/go/packages.Load
func PackagesLoad(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	return PackagesHook(cfg, patterns...)
}

// NativePackagesLoad is used in native replays.
func NativePackagesLoad(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if PackagesHook != nil {
		return PackagesHook(cfg, patterns...)
	}
	return packages.Load(cfg, patterns...)
}

//model: runtime/debug.ReadBuildInfo
func ReadBuildInfo() (*debug.BuildInfo, bool) {
	if BuildInfo == nil {
		return nil, false
	}
	return BuildInfo, true
}

// NativeReadBuildInfo is used in native replays.
func NativeReadBuildInfo() (*debug.BuildInfo, bool) {
	if HaveBuildInfo {
		return ReadBuildInfo()
	}
	return debug.ReadBuildInfo()
}
