package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// mainsPkg is the harness package that calls main programs.
const mainsPkg = "zzverif/mains"

// generateMains makes packages of main programs, for harnesses to call:
//
//	zzverif/zzfab    cmd/fab
//	zzverif/zzdrv    the driver that CompilePackage makes for zzverif/zzrules
//
// The programs are as in the repository or as generated by its code, except
// for the names of the packages and of the main functions, and os.Exit.
func generateMains(repo, verif string, files map[string]string) (string, error) {
	dir, err := os.MkdirTemp("", "gosym-gen-")
	if err != nil {
		return "", err
	}
	rules := verif + "/harness/zzrules/rules.go"
	files[repo+"/zzverif/zzrules/rules.go"] = rules
	main := func(name, glob string) error {
		srcs, _ := filepath.Glob(glob)
		n := 0
		for _, src := range srcs {
			if strings.HasSuffix(src, "_test.go") {
				continue
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return err
			}
			s := string(b)
			s = regexp.MustCompile(`(?m)^package main\b`).ReplaceAllString(s, "package "+name)
			s = regexp.MustCompile(`(?m)^func main\(\)`).ReplaceAllString(s, "func Main()")
			s = regexp.MustCompile(`\bos\.Exit\b`).ReplaceAllString(s, "zzExit")
			s = strings.ReplaceAll(s, `"x/pkg/rules"`, `"`+repoPath+`/zzverif/zzrules"`)
			if regexp.MustCompile(`(?m)^(import|\t)\s*"os"$`).MatchString(s) {
				s += "\nvar _ = os.Getpid\n"
			}
			f := filepath.Join(dir, name+"__"+filepath.Base(src))
			if err := os.WriteFile(f, []byte(s), 0644); err != nil {
				return err
			}
			files[repo+"/zzverif/"+name+"/"+filepath.Base(src)] = f
			n++
		}
		if n == 0 {
			return fmt.Errorf("no files %s", glob)
		}
		f := filepath.Join(dir, name+"__zz_exit.go")
		files[repo+"/zzverif/"+name+"/zz_exit.go"] = f
		return os.WriteFile(f, []byte("package "+name+"\n\nimport \""+repoPath+"/zzverif/nd\"\n\nvar zzExit = nd.Exit\n"), 0644)
	}
	if err := main("zzfab", repo+"/cmd/fab/*.go"); err != nil {
		return dir, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{repo + "/zzverif/gen/main.go": verif + "/harness/zzgen/main.go"}})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0644); err != nil {
		return dir, err
	}
	for _, e := range goEnv() {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", dir+"/gen", "./zzverif/gen")
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "CGO_ENABLED=1", "GOFLAGS=")
	if out, err := cmd.CombinedOutput(); err != nil {
		return dir, fmt.Errorf("building the driver generator: %v\n%s", err, out)
	}
	for _, d := range []string{"rules", "bin", "out", "tmp"} {
		if err := os.Mkdir(dir+"/"+d, 0755); err != nil {
			return dir, err
		}
	}
	b, err := os.ReadFile(rules)
	if err != nil {
		return dir, err
	}
	b = []byte(strings.Replace(string(b), "package zzrules", "package rules", 1))
	if err := os.WriteFile(dir+"/rules/rules.go", b, 0644); err != nil {
		return dir, err
	}
	// The stand-in for the compiler keeps the driver's source.
	sh := "#!/bin/sh\nout=x\ncase \"$1\" in\n" +
		"mod) [ \"$2\" != init ] || printf 'module x\\n\\ngo 1.20\\n' > go.mod ;;\n" +
		"build) shift; while [ $# -gt 0 ]; do case \"$1\" in -C) cd \"$2\"; shift ;; -o) out=$2; shift ;; esac; shift; done; cp ./*.go " + dir + "/out && : > \"$out\" ;;\n" +
		"esac\n"
	if err := os.WriteFile(dir+"/bin/go", []byte(sh), 0755); err != nil {
		return dir, err
	}
	cmd = exec.Command(dir+"/gen", repo, dir+"/rules", dir+"/fab.bin", dir+"/bin:/usr/bin:/bin")
	cmd.Dir = dir
	cmd.Env = append(goEnv(), "CGO_ENABLED=0", "GOFLAGS=", "TMPDIR="+dir+"/tmp")
	if out, err := cmd.CombinedOutput(); err != nil {
		return dir, fmt.Errorf("generating a driver: %v\n%s", err, out)
	}
	return dir, main("zzdrv", dir+"/out/*.go")
}

func (l *Loaded) removeGen() {
	if l != nil && strings.Contains(l.genDir, "gosym-gen-") {
		os.RemoveAll(l.genDir)
	}
}
