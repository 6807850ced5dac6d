From 48268179abcd4e51c2aa8d14df1821fad9be2448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 01/30] fix: run a target once even when it is referred to by
 name in several places

---
 runner.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/runner.go b/runner.go
index 941228c..f59c07f 100644
--- a/runner.go
+++ b/runner.go
@@ -63,21 +63,24 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		wg      sync.WaitGroup
 	)
 	for i, target := range targets {
-		addr, err := targetAddr(target)
-		if err != nil {
-			errs[i] = err
-			continue
-		}
-
 		i, target := i, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
-			// Short-circuit here to avoid some confusing extra output in verbose mode.
-			target, err = d.resolve(con)
+			// Short-circuit here to avoid some confusing extra output in verbose mode,
+			// and so that the outcome is recorded for the target itself,
+			// not for this reference to it.
+			resolved, err := d.resolve(con)
 			if err != nil {
 				errs[i] = err
 				continue
 			}
+			target = resolved
+		}
+
+		addr, err := targetAddr(target)
+		if err != nil {
+			errs[i] = err
+			continue
 		}
 
 		wg.Add(1)
-- 
2.43.0


From 77802d6a52b3fa10a16b2a51e0f0acc90576ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 02/30] fix: never mistake a new target for a discarded one at
 the same address

---
 controller.go | 7 +++++--
 runner.go     | 7 +++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/controller.go b/controller.go
index 23f35f6..cdd7e66 100644
--- a/controller.go
+++ b/controller.go
@@ -23,7 +23,10 @@ type Controller struct {
 	depth int
 
 	// Records targets that have run or are running.
-	ran map[uintptr]*outcome
+	// Keeping the targets themselves as the keys
+	// (and not merely their addresses)
+	// prevents their memory from being reused for other targets.
+	ran map[Target]*outcome
 
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
@@ -38,7 +41,7 @@ type Controller struct {
 func NewController(topdir string) *Controller {
 	return &Controller{
 		topdir:        topdir,
-		ran:           make(map[uintptr]*outcome),
+		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
 		targetsByAddr: make(map[uintptr]targetRegistryTuple),
 	}
diff --git a/runner.go b/runner.go
index f59c07f..ed9ab6b 100644
--- a/runner.go
+++ b/runner.go
@@ -77,8 +77,7 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			target = resolved
 		}
 
-		addr, err := targetAddr(target)
-		if err != nil {
+		if _, err := targetAddr(target); err != nil {
 			errs[i] = err
 			continue
 		}
@@ -88,10 +87,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[addr]
+			o, ok := con.ran[target]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[addr] = o
+				con.ran[target] = o
 			}
 			con.mu.Unlock()
 
-- 
2.43.0


From b598509d8426be39e10fbc9183dfc3873eb6ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 03/30] fix: do not panic on an empty second command-line
 argument

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index cdd7e66..ff2b4a4 100644
--- a/controller.go
+++ b/controller.go
@@ -88,7 +88,7 @@ func (con *Controller) ParseArgs(args []string) ([]Target, error) {
 		unknown []string
 	)
 
-	if len(args) > 1 && args[1][0] == '-' {
+	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
 		// Just one target, and remaining args are arguments for that target.
 		if target, _ := con.RegistryTarget(args[0]); target != nil {
 			targets = append(targets, ArgTarget(target, args[1:]...))
-- 
2.43.0


From 225a27c115327d9c7754ed52c95785fca6672f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 04/30] fix: describe a target only by a name that refers to it

Targets sharing an address (a struct and its first field) were taken for
one another, and a target kept a name after another one had taken it over.
---
 controller.go |  5 +++--
 register.go   | 29 +++++++++++++++++++----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/controller.go b/controller.go
index ff2b4a4..a125398 100644
--- a/controller.go
+++ b/controller.go
@@ -31,7 +31,8 @@ type Controller struct {
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
-	targetsByAddr map[uintptr]targetRegistryTuple
+	// Values are all the names under which a target has been registered, oldest first.
+	namesByTarget map[Target][]string
 }
 
 // NewController creates a new [Controller]
@@ -43,7 +44,7 @@ func NewController(topdir string) *Controller {
 		topdir:        topdir,
 		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
-		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		namesByTarget: make(map[Target][]string),
 	}
 }
 
diff --git a/register.go b/register.go
index 7180e62..cedc5c3 100644
--- a/register.go
+++ b/register.go
@@ -10,8 +10,7 @@ import (
 
 // RegisterTarget places a target in the registry with a given name and doc string.
 func (con *Controller) RegisterTarget(name, doc string, target Target) (Target, error) {
-	addr, err := targetAddr(target)
-	if err != nil {
+	if _, err := targetAddr(target); err != nil {
 		return nil, err
 	}
 
@@ -19,7 +18,7 @@ func (con *Controller) RegisterTarget(name, doc string, target Target) (Target,
 
 	con.mu.Lock()
 	con.targetsByName[name] = tuple
-	con.targetsByAddr[addr] = tuple
+	con.namesByTarget[target] = append(con.namesByTarget[target], name)
 	con.mu.Unlock()
 
 	return target, nil
@@ -63,15 +62,25 @@ func (con *Controller) RegistryTarget(name string) (Target, string) {
 // otherwise it's "unnamed X"
 // where X is the result of calling the target's Desc method.
 func (con *Controller) Describe(target Target) string {
-	addr, err := targetAddr(target)
-	if err == nil { // sic
-		con.mu.Lock()
-		tuple, ok := con.targetsByAddr[addr]
-		con.mu.Unlock()
-		if ok {
-			return tuple.name
+	if _, err := targetAddr(target); err == nil { // sic
+		if name, ok := con.registeredName(target); ok {
+			return name
 		}
 	}
 
 	return "unnamed " + target.Desc()
 }
+
+// Returns the name most recently given to the target that still refers to it.
+func (con *Controller) registeredName(target Target) (string, bool) {
+	con.mu.Lock()
+	defer con.mu.Unlock()
+
+	names := con.namesByTarget[target]
+	for i := len(names) - 1; i >= 0; i-- {
+		if con.targetsByName[names[i]].target == target {
+			return names[i], true
+		}
+	}
+	return "", false
+}
-- 
2.43.0


From ae4422b3fab837b5a3d3f9d1a2a8b94b36d711c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 05/30] fix: take the _dir declaration as written when looking
 for the top directory

A declaration such as 2024 is not a YAML string, and was ignored.
---
 top.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/top.go b/top.go
index 2708605..53642e0 100644
--- a/top.go
+++ b/top.go
@@ -63,13 +63,25 @@ func topDirHelper(dir string) (string, error) {
 	defer rc.Close()
 
 	dec := yaml.NewDecoder(rc)
-	var m map[string]any
+	var m struct {
+		Dir yaml.Node `yaml:"_dir"`
+	}
 	if err = dec.Decode(&m); err != nil {
 		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
 	}
 
-	decl, ok := m["_dir"].(string)
-	if !ok {
+	switch m.Dir.Kind {
+	case 0: // no _dir declaration
+		return dir, nil
+	case yaml.ScalarNode:
+		// ok
+	default:
+		return "", errors.Wrapf(BadYAMLNodeKindError{Got: m.Dir.Kind, Want: yaml.ScalarNode}, "in _dir decl in %s", dir)
+	}
+
+	// Use the value as written, even if it looks like something other than a string (e.g. 2024).
+	decl := m.Dir.Value
+	if decl == "" {
 		return dir, nil
 	}
 
-- 
2.43.0


From 269d3bd495f3fd76a311a85b44fb36f08275e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 06/30] fix: tell types from different packages and unnamed
 types apart when looking for targets

A method whose parameter type only looked like the one needed (a type of
the same name in another package, an unnamed type, or one that embeds a
field instead of naming it) made a type count as a target.
---
 types.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index 5a41ffd..c63b211 100644
--- a/types.go
+++ b/types.go
@@ -117,6 +117,33 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 	}
 	ch.seen.Add(pair)
 
+	switch t := t.(type) {
+	case *types.Named:
+		var pkgPath string
+		if pkg := t.Obj().Pkg(); pkg != nil {
+			pkgPath = pkg.Path()
+		}
+		if t.Obj().Name() != r.Name() || pkgPath != r.PkgPath() {
+			return fmt.Errorf("names %s and %s do not match", t, r)
+		}
+		return ch.checkUnderlyingTypesMatch(t.Underlying(), r)
+
+	case *types.Basic:
+		if p := r.PkgPath(); p != "" && p != "unsafe" {
+			return fmt.Errorf("predeclared type %s and defined type %s do not match", t, r)
+		}
+
+	default:
+		if r.Name() != "" {
+			return fmt.Errorf("unnamed type %s and named type %s do not match", t, r)
+		}
+	}
+
+	return ch.checkUnderlyingTypesMatch(t, r)
+}
+
+// This is checkTypesMatch without regard to the names (if any) of the types themselves.
+func (ch *typeChecker) checkUnderlyingTypesMatch(t types.Type, r reflect.Type) (err error) {
 	switch t := t.(type) {
 	case *types.Array:
 		if r.Kind() != reflect.Array {
@@ -261,12 +288,6 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 		}
 		return ch.checkTypesMatch(t.Elem(), r.Elem())
 
-	case *types.Named:
-		if t.Obj().Name() != r.Name() {
-			return fmt.Errorf("names %s and %s do not match", t.Obj().Name(), r.Name())
-		}
-		return ch.checkTypesMatch(t.Underlying(), r)
-
 	case *types.Pointer:
 		if r.Kind() != reflect.Ptr {
 			return fmt.Errorf("kinds Pointer and %v do not match", r.Kind())
@@ -294,6 +315,9 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 			if v.Name() != f.Name {
 				return fmt.Errorf("field name %s != %s", v.Name(), f.Name)
 			}
+			if v.Embedded() != f.Anonymous {
+				return fmt.Errorf("field %s is embedded in only one of the types", v.Name())
+			}
 			if t.Tag(i) != string(f.Tag) {
 				return fmt.Errorf("struct field tag mismatch in field %d", i)
 			}
-- 
2.43.0


From 34e889d298aaeb8356b6c77923788c80b48d8f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 07/30] fix: accept names of input and output files that are
 not valid UTF-8

---
 files.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index aa9fc57..f6ecdf7 100644
--- a/files.go
+++ b/files.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"unicode/utf8"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/maps"
@@ -259,7 +260,13 @@ func fileHashes(items []string) ([]string, error) {
 
 	result := make([]string, 0, 2*len(keys))
 	for _, key := range keys {
-		result = append(result, key, hashes[key])
+		name := key
+		if !utf8.ValidString(name) {
+			// Not representable in JSON.
+			// The leading NUL byte distinguishes this from all other filenames.
+			name = "\x00" + hex.EncodeToString([]byte(name))
+		}
+		result = append(result, name, hashes[key])
 	}
 
 	return result, nil
-- 
2.43.0


From fc597eda1a077b69be20a3619204988aa8f48b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 08/30] fix: include the targets of a Seq in its JSON encoding

---
 seq.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq.go b/seq.go
index ef84027..7fc8f4a 100644
--- a/seq.go
+++ b/seq.go
@@ -20,18 +20,18 @@ import (
 // The elements in the sequence are targets themselves,
 // or target names.
 func Seq(targets ...Target) Target {
-	return &seq{targets: targets}
+	return &seq{Targets: targets}
 }
 
 type seq struct {
-	targets []Target
+	Targets []Target `json:"Seq"` // distinct from the JSON encoding of all
 }
 
 var _ Target = &seq{}
 
 // Run implements Target.Run.
 func (s *seq) Run(ctx context.Context, con *Controller) error {
-	for _, t := range s.targets {
+	for _, t := range s.Targets {
 		if err := con.Run(ctx, t); err != nil {
 			return err
 		}
-- 
2.43.0


From 264836dbe72cc2c1d65d954d6e48db344d4d4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 09/30] fix: rerun a Files subtarget when a target it names, or
 the type of one it contains, changes

---
 files.go | 76 ++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/files.go b/files.go
index f6ecdf7..9506d6e 100644
--- a/files.go
+++ b/files.go
@@ -4,11 +4,11 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
-	"reflect"
 	"sort"
 	"unicode/utf8"
 
@@ -174,17 +174,18 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
 	}
-	tt := reflect.TypeOf(ft.Target)
+	def, err := con.definition(ft.Target)
+	if err != nil {
+		return nil, errors.Wrapf(err, "in definition of %s", con.Describe(ft))
+	}
 	s := struct {
-		Target     Target   `json:"target"`
-		TargetType string   `json:"target_type"`
-		In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
-		Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
+		Target any      `json:"target"`
+		In     []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
+		Out    []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
 	}{
-		Target:     ft.Target,
-		TargetType: tt.String(),
-		In:         inHashes,
-		Out:        outHashes,
+		Target: def,
+		In:     inHashes,
+		Out:    outHashes,
 	}
 	j, err := json.Marshal(s)
 	if err != nil {
@@ -195,6 +196,61 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	return sum[:], nil
 }
 
+// Definition produces a JSON-encodable value describing what the given target does.
+// It includes the types of targets,
+// and the definitions of those mentioned by name,
+// neither of which are in their JSON encodings.
+// The names are those of the targets being described.
+func (con *Controller) definition(target Target, names ...string) (any, error) {
+	result := struct {
+		Type    string   `json:"type"`
+		Target  Target   `json:"target,omitempty"`
+		Targets []any    `json:"targets,omitempty"`
+		Args    []string `json:"args,omitempty"`
+		In      []string `json:"in,omitempty"`
+		Out     []string `json:"out,omitempty"`
+	}{
+		Type: fmt.Sprintf("%T", target),
+	}
+
+	var targets []Target
+
+	switch t := target.(type) {
+	case *deferredResolutionTarget:
+		for _, name := range names {
+			if name == t.Name {
+				return nil, fmt.Errorf("target %s is defined in terms of itself", name)
+			}
+		}
+		resolved, err := t.resolve(con)
+		if err != nil {
+			return nil, err
+		}
+		return con.definition(resolved, append(names[:len(names):len(names)], t.Name)...)
+
+	case *all:
+		targets = t.Targets
+	case *seq:
+		targets = t.Targets
+	case *argTarget:
+		targets, result.Args = []Target{t.Target}, t.Args
+	case *files:
+		targets, result.In, result.Out = []Target{t.Target}, t.In, t.Out
+	default:
+		result.Target = target
+	}
+
+	for _, t := range targets {
+		def, err := con.definition(t, names...)
+		if err != nil {
+			return nil, err
+		}
+		result.Targets = append(result.Targets, def)
+	}
+
+	return result, nil
+}
+
 func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
-- 
2.43.0


From 0370576bf7040db3812b3507d2722471bcc97b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 10/30] fix: report errors from stat in Files instead of
 crashing

---
 files.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/files.go b/files.go
index 9506d6e..08f4985 100644
--- a/files.go
+++ b/files.go
@@ -351,6 +351,10 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		return nil
 	}
 
+	if err != nil {
+		return errors.Wrapf(err, "getting info about %s", item)
+	}
+
 	if info.IsDir() {
 		entries, err := os.ReadDir(item)
 		if err != nil {
-- 
2.43.0


From 94a85c624a1c2f706f092cafb457d79cbb90b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 11/30] fix: do not treat a Files target as its own
 prerequisite

---
 files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/files.go b/files.go
index 08f4985..0553a15 100644
--- a/files.go
+++ b/files.go
@@ -255,7 +255,7 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
 	for _, in := range ft.In {
-		if target := findInFilesRegistry(in); target != nil {
+		if target := findInFilesRegistry(in); target != nil && target != ft {
 			prereqs = append(prereqs, target)
 		}
 	}
-- 
2.43.0


From 306622be1514cb23142ca4d7efa06e34746cabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 12/30] fix: recognize inputs of a Files target among the
 outputs of others however they are spelled

---
 files.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/files.go b/files.go
index 0553a15..bbe08f7 100644
--- a/files.go
+++ b/files.go
@@ -105,7 +105,7 @@ func Files(target Target, in, out []string, opts ...FilesOpt) Target {
 	}
 
 	for _, o := range out {
-		filesRegistry.add(o, result)
+		filesRegistry.add(filepath.Clean(o), result)
 	}
 
 	return result
@@ -267,14 +267,14 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 }
 
 func findInFilesRegistry(name string) Target {
+	name = filepath.Clean(name)
 	for {
 		if target, ok := filesRegistry.lookup(name); ok {
 			return target
 		}
 
 		dir := filepath.Dir(name)
-		switch dir {
-		case "", ".", "/", name:
+		if dir == name || filepath.Base(name) == ".." {
 			return nil
 		}
 		name = dir
-- 
2.43.0


From 08bbe094fa8b0dd559a2542bc7c97ae935ba975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 13/30] fix: read the standard input of a YAML Command from the
 file it names

---
 command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 238cd26..402ccd0 100644
--- a/command.go
+++ b/command.go
@@ -446,8 +446,15 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		Env:   env,
 	}
 
-	if c.Stdin == "$stdin" {
+	switch c.Stdin {
+	case "$stdin":
 		result.Stdin = os.Stdin
+
+	case "":
+		// do nothing
+
+	default:
+		result.StdinFile = con.JoinPath(dir, c.Stdin)
 	}
 
 	switch c.Stdout {
-- 
2.43.0


From 61d1688e1e7f5be6b7f1d02daa6bff21c1c08987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 14/30] fix: append to an output file of a YAML Command that
 has a >> prefix

---
 command.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index 402ccd0..5689d01 100644
--- a/command.go
+++ b/command.go
@@ -477,10 +477,7 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StdoutFile = con.JoinPath(dir, c.Stdout)
-		if forceAppend && !strings.HasPrefix(result.StdoutFile, ">>") {
-			result.StdoutFile = ">>" + result.StdoutFile
-		}
+		result.StdoutFile = outputFile(con, dir, c.Stdout, forceAppend)
 	}
 
 	switch c.Stderr {
@@ -503,15 +500,26 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StderrFile = con.JoinPath(dir, c.Stderr)
-		if forceAppend && !strings.HasPrefix(result.StderrFile, ">>") {
-			result.StderrFile = ">>" + result.StderrFile
-		}
+		result.StderrFile = outputFile(con, dir, c.Stderr, forceAppend)
 	}
 
 	return result
 }
 
+// The result is the given name joined to dir,
+// with a >> prefix if the name has one or forceAppend is true.
+func outputFile(con *Controller, dir, name string, forceAppend bool) string {
+	if strings.HasPrefix(name, ">>") {
+		name = strings.TrimLeft(name, "> ")
+		forceAppend = true
+	}
+	name = con.JoinPath(dir, name)
+	if forceAppend {
+		name = ">>" + name
+	}
+	return name
+}
+
 func deferredIndent(w io.Writer) func(context.Context, *Controller) io.Writer {
 	return func(_ context.Context, con *Controller) io.Writer {
 		return con.IndentingCopier(w, "    ")
-- 
2.43.0


From 1d2dda0b58f656eb2849f5ef041310d72821a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 15/30] fix: do not alter the list of files of a Clean target
 when running it

---
 clean.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clean.go b/clean.go
index 1cc3cfb..6a078e4 100644
--- a/clean.go
+++ b/clean.go
@@ -36,7 +36,7 @@ type Clean struct {
 
 // Run implements Target.Run.
 func (c *Clean) Run(ctx context.Context, con *Controller) error {
-	files := c.Files
+	files := append([]string(nil), c.Files...)
 	if c.Autoclean {
 		autocleanMu.Lock()
 		autocleanFiles := autocleanRegistry.Slice()
-- 
2.43.0


From 5aed03da1fb605e1c40467817e6da1c2d99dc2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 16/30] fix: clean the files in a directory before the
 directory

---
 clean.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clean.go b/clean.go
index 6a078e4..b3316b1 100644
--- a/clean.go
+++ b/clean.go
@@ -58,7 +58,8 @@ func (c *Clean) Run(ctx context.Context, con *Controller) error {
 	if GetVerbose(ctx) {
 		con.Indentf("  removing %v", files)
 	}
-	for _, f := range files {
+	for i := len(files) - 1; i >= 0; i-- { // reverse order, for removing files before the directories containing them
+		f := files[i]
 		err := os.Remove(f)
 		if errors.Is(err, fs.ErrNotExist) {
 			continue
-- 
2.43.0


From edd5c19e2e9a940d2fea8ddc4b3d01ab3af2957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 17/30] fix: combine a Command's output streams in one file
 when its name is spelled in two ways

---
 command.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/command.go b/command.go
index 5689d01..9e1a5c9 100644
--- a/command.go
+++ b/command.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strings"
 
 	"github.com/bobg/errors"
@@ -225,6 +226,13 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 		stderrFile = strings.TrimLeft(stderrFile, "> ")
 	}
 
+	if stdoutFile != "" {
+		stdoutFile = filepath.Clean(stdoutFile)
+	}
+	if stderrFile != "" {
+		stderrFile = filepath.Clean(stderrFile)
+	}
+
 	if stdoutFile == stderrFile && stdoutAppend != stderrAppend {
 		return fmt.Errorf("stdout and stderr name the same file but disagree about append vs. overwrite")
 	}
-- 
2.43.0


From 5c1ecd1cef7c35838e7382f4b39c6e36b9689f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 18/30] fix: resolve mutual references between YAML files

---
 controller.go |  4 ++++
 yaml.go       | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/controller.go b/controller.go
index a125398..6de2ff8 100644
--- a/controller.go
+++ b/controller.go
@@ -28,6 +28,9 @@ type Controller struct {
 	// prevents their memory from being reused for other targets.
 	ran map[Target]*outcome
 
+	// Counts the YAML documents being read for each directory (relative to topdir).
+	reading map[string]int
+
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
@@ -43,6 +46,7 @@ func NewController(topdir string) *Controller {
 	return &Controller{
 		topdir:        topdir,
 		ran:           make(map[Target]*outcome),
+		reading:       make(map[string]int),
 		targetsByName: make(map[string]targetRegistryTuple),
 		namesByTarget: make(map[Target][]string),
 	}
diff --git a/yaml.go b/yaml.go
index 7a1e82a..a225610 100644
--- a/yaml.go
+++ b/yaml.go
@@ -72,6 +72,11 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 				return found, nil
 			}
 
+			if con.isReading(tdir) {
+				// The target might be defined later in a file that is already being read.
+				return &deferredResolutionTarget{Name: qname}, nil
+			}
+
 			if err := con.ReadYAMLFile(tdir); err != nil {
 				return nil, errors.Wrapf(err, "resolving target %s", qname)
 			}
@@ -153,6 +158,9 @@ func (dt *deferredResolutionTarget) Desc() string {
 //	Test: !Command
 //	  - go test ./...
 func (con *Controller) ReadYAML(r io.Reader, dir string) error {
+	con.setReading(dir, 1)
+	defer con.setReading(dir, -1)
+
 	var (
 		dec = yaml.NewDecoder(r)
 		doc yaml.Node
@@ -236,6 +244,19 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 	return nil
 }
 
+func (con *Controller) setReading(dir string, delta int) {
+	con.mu.Lock()
+	con.reading[filepath.Clean(dir)] += delta
+	con.mu.Unlock()
+}
+
+// Tells whether a YAML document for the given directory is being read.
+func (con *Controller) isReading(dir string) bool {
+	con.mu.Lock()
+	defer con.mu.Unlock()
+	return con.reading[filepath.Clean(dir)] > 0
+}
+
 // ReadYAMLFile calls ReadYAML
 // on the file `fab.yaml` in the given directory
 // or, if that doesn't exist,
-- 
2.43.0


From 78d1121f64f87f9682a6bf190efe6921d62035b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 19/30] fix: keep the fab version and hash of the driver in
 step with the driver

---
 main.go | 62 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/main.go b/main.go
index 6149965..960b2c1 100644
--- a/main.go
+++ b/main.go
@@ -227,9 +227,8 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		}
 	}
 
-	var buildInfo *debug.BuildInfo
 	if !compile && !skipVersionCheck {
-		compile, buildInfo, err = m.checkVersion(versionfile)
+		compile, err = m.checkVersion(versionfile)
 		if err != nil {
 			return "", errors.Wrap(err, "checking Fab version")
 		}
@@ -275,41 +274,32 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return driver, nil
 	}
 
+	// If the following is interrupted,
+	// the driver must not be mistaken for an up-to-date one.
+	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return "", errors.Wrapf(err, "removing %s", hashfile)
+	}
+
 	if err = CompilePackage(ctx, pkg, driver); err != nil {
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
+	if err = writeVersion(versionfile); err != nil {
+		return "", err
+	}
 	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
 		return "", errors.Wrapf(err, "writing %s", hashfile)
 	}
-	if buildInfo != nil {
-		v, err := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
-		if err != nil {
-			return "", errors.Wrapf(err, "opening %s for writing", versionfile)
-		}
-		defer func() {
-			closeErr := v.Close()
-			if err == nil {
-				err = errors.Wrapf(closeErr, "closing %s", versionfile)
-			}
-		}()
-		enc := json.NewEncoder(v)
-		enc.SetIndent("", "  ")
-		if err = enc.Encode(buildInfo); err != nil {
-			return "", errors.Wrap(err, "encoding build info")
-		}
-	}
-
 	return driver, nil
 }
 
-func (m *Main) checkVersion(versionfile string) (bool, *debug.BuildInfo, error) {
+func (m *Main) checkVersion(versionfile string) (bool, error) {
 	newInfo, ok := debug.ReadBuildInfo()
 	if !ok {
 		if m.Verbose {
 			fmt.Println("Could not read build info of running Fab process, will recompile driver")
 		}
 		_ = os.Remove(versionfile)
-		return true, nil, nil
+		return true, nil
 	}
 
 	f, err := os.Open(versionfile)
@@ -317,10 +307,10 @@ func (m *Main) checkVersion(versionfile string) (bool, *debug.BuildInfo, error)
 		if m.Verbose {
 			fmt.Printf("No %s file, compiling driver\n", fabVersionBasename)
 		}
-		return true, newInfo, nil
+		return true, nil
 	}
 	if err != nil {
-		return false, nil, errors.Wrapf(err, "opening %s", versionfile)
+		return false, errors.Wrapf(err, "opening %s", versionfile)
 	}
 	defer f.Close()
 
@@ -333,17 +323,35 @@ func (m *Main) checkVersion(versionfile string) (bool, *debug.BuildInfo, error)
 		if m.Verbose {
 			fmt.Printf("Error decoding %s, will recompile driver: %s\n", versionfile, err)
 		}
-		return true, newInfo, nil
+		return true, nil
 	}
 
 	if !reflect.DeepEqual(*newInfo, oldInfo) {
 		if m.Verbose {
 			fmt.Println("Fab build info changed, will recompile driver")
 		}
-		return true, newInfo, nil
+		return true, nil
 	}
 
-	return false, nil, nil
+	return false, nil
+}
+
+// Records the version of the running Fab process as the one that compiled the driver.
+func writeVersion(versionfile string) error {
+	info, ok := debug.ReadBuildInfo()
+	if !ok {
+		err := os.Remove(versionfile)
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		return errors.Wrapf(err, "removing %s", versionfile)
+	}
+	j, err := json.MarshalIndent(info, "", "  ")
+	if err != nil {
+		return errors.Wrap(err, "encoding build info")
+	}
+	err = os.WriteFile(versionfile, j, 0644)
+	return errors.Wrapf(err, "writing %s", versionfile)
 }
 
 func addFileToHash(dh *dirHasher, filename string) error {
-- 
2.43.0


From 2723be7fb2363f886c6ae0e7bfc9e3bd04c0d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 20/30] fix: run the driver with absolute directories

---
 main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/main.go b/main.go
index 960b2c1..57f1898 100644
--- a/main.go
+++ b/main.go
@@ -75,6 +75,18 @@ func (m *Main) Run(ctx context.Context) error {
 		}
 	}
 
+	// The driver runs in a different directory.
+	for _, dir := range []*string{&m.Topdir, &m.Fabdir} {
+		if *dir == "" {
+			continue
+		}
+		abs, err := filepath.Abs(*dir)
+		if err != nil {
+			return errors.Wrapf(err, "making %s absolute", *dir)
+		}
+		*dir = abs
+	}
+
 	driver, err := m.getDriver(ctx, false)
 	if errors.Is(err, errNoDriver) {
 		return m.driverless(ctx)
-- 
2.43.0


From 0a462b2a1811026a01896b6e6c66616b27ba60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 21/30] fix: do not let the driver parse target arguments as
 its own options

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 57f1898..1100ba2 100644
--- a/main.go
+++ b/main.go
@@ -108,6 +108,9 @@ func (m *Main) Run(ctx context.Context) error {
 	if m.DryRun {
 		args = append(args, "-n")
 	}
+	if len(m.Args) > 0 && strings.HasPrefix(m.Args[0], "-") {
+		args = append(args, "--") // keep the driver from parsing m.Args as options
+	}
 	args = append(args, m.Args...)
 
 	cmd := exec.CommandContext(ctx, driver, args...)
-- 
2.43.0


From 2609c5053d3aa51d9c04e356d6a3ef41534aad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 22/30] fix: report Go packages outside any module as an error
 instead of crashing

---
 golang/go.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golang/go.go b/golang/go.go
index ea769e2..d07c054 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"fmt"
 	"path/filepath"
 	"sort"
 
@@ -120,6 +121,9 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 
 	files := set.New[string]()
 	for _, pkg := range pkgs {
+		if pkg.Module == nil {
+			return nil, fmt.Errorf("package %s is not in a module", pkg.PkgPath)
+		}
 		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
 			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
 		}
-- 
2.43.0


From 5a0b36c79fba131b86b7a5e8fcdab749b330e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 23/30] fix: do not look for a protocol-buffer file in later
 include directories once it is found

---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 856d0cc..c88bb37 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -131,7 +131,7 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 		full := filepath.Join(inc, imp)
 
 		if result.Has(full) {
-			continue
+			return nil
 		}
 
 		f, err := os.Open(full)
-- 
2.43.0


From 5cb97785891fa822f20d62e8e3540e002b87e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 24/30] fix: interpret the include directories of proto.Deps
 relative to the YAML file

---
 proto/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index c88bb37..e364556 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -151,13 +151,17 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 
 func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
 	var pd struct {
-		File     string   `yaml:"File"`
-		Includes []string `yaml:"Includes"`
+		File     string    `yaml:"File"`
+		Includes yaml.Node `yaml:"Includes"`
 	}
 	if err := node.Decode(&pd); err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), pd.Includes)
+	includes, err := con.YAMLFileList(&pd.Includes, dir)
+	if err != nil {
+		return nil, errors.Wrap(err, "parsing proto.Deps include list")
+	}
+	return Deps(con.JoinPath(dir, pd.File), includes)
 }
 
 func init() {
-- 
2.43.0


From 4932be66044b5909b46a24824850786fbdee68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 25/30] fix: find all protocol-buffer imports and only those

---
 proto/proto.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index e364556..db2da85 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"bufio"
 	"io"
 	"io/fs"
 	"os"
@@ -110,20 +109,24 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`^import(\s+public)?\s*"([^"]+)"`)
+// Matches comments, import statements, and (other) string literals.
+var importRegex = regexp.MustCompile(`//.*|/\*(?s:.*?)\*/|\bimport(?:\s+(?:public|weak|option)\b)?\s*(?:"([^"\n]+)"|'([^'\n]+)')|"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*'`)
 
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
-	sc := bufio.NewScanner(r)
-	for sc.Scan() {
-		m := importRegex.FindStringSubmatch(sc.Text())
-		if len(m) == 0 {
+	contents, err := io.ReadAll(r)
+	if err != nil {
+		return errors.Wrap(err, "reading file")
+	}
+	for _, m := range importRegex.FindAllSubmatch(contents, -1) {
+		imp := string(m[1]) + string(m[2])
+		if imp == "" {
 			continue
 		}
-		if err := protodepsImport(m[2], includes, result); err != nil {
+		if err := protodepsImport(imp, includes, result); err != nil {
 			return err
 		}
 	}
-	return sc.Err()
+	return nil
 }
 
 func protodepsImport(imp string, includes []string, result set.Of[string]) error {
-- 
2.43.0


From ecb32b664f4f1dd63af9e4c1d71706cf62196920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 26/30] fix: list a protocol-buffer file that is imported by
 one of its imports only once

---
 proto/proto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index db2da85..4fe3741 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -37,7 +37,7 @@ import (
 //   - Autoclean: a boolean indicating whether the files listed in Outputs should be added to the "autoclean registry."
 //     See [fab.Autoclean] for more about this feature.
 func Proto(inputs, outputs, includes, otherOpts []string, filesOpts ...fab.FilesOpt) (fab.Target, error) {
-	alldeps := set.New[string](inputs...)
+	alldeps := set.New[string]()
 	for _, inp := range inputs {
 		d, err := Deps(inp, includes)
 		if err != nil {
@@ -102,7 +102,7 @@ func Deps(filename string, includes []string) ([]string, error) {
 	}
 	defer f.Close()
 
-	result := set.New[string](filename)
+	result := set.New[string](filepath.Clean(filename))
 	err = protodeps(f, includes, result)
 	slice := result.Slice()
 	sort.Strings(slice)
-- 
2.43.0


From 8bc3bdfcd1ba1587335a3df882e1f75c7bab90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 27/30] fix: combine a Command's output streams in one file
 also when only one name is absolute

---
 command.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 9e1a5c9..78d12ab 100644
--- a/command.go
+++ b/command.go
@@ -227,10 +227,14 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 	}
 
 	if stdoutFile != "" {
-		stdoutFile = filepath.Clean(stdoutFile)
+		if stdoutFile, err = filepath.Abs(stdoutFile); err != nil {
+			return errors.Wrapf(err, "making %s absolute", c.StdoutFile)
+		}
 	}
 	if stderrFile != "" {
-		stderrFile = filepath.Clean(stderrFile)
+		if stderrFile, err = filepath.Abs(stderrFile); err != nil {
+			return errors.Wrapf(err, "making %s absolute", c.StderrFile)
+		}
 	}
 
 	if stdoutFile == stderrFile && stdoutAppend != stderrAppend {
-- 
2.43.0


From d86d8a0d553c8ca5f7ae20f5bf8d0fa5f7bae546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 28/30] fix: compile a driver also when a variable has a
 declared type of the package, or a type is a target

---
 compile.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index fb540d1..30cf7e2 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"go/doc"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 	"os"
 	"os/exec"
@@ -123,22 +124,26 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		if !ast.IsExported(ident) {
 			continue
 		}
-		obj := scope.Lookup(ident)
-		if obj == nil {
+		obj, ok := scope.Lookup(ident).(*types.Var) // as opposed to a type, for example
+		if !ok {
 			continue
 		}
 		if err := checkImplementsTarget(obj.Type()); err != nil {
 			continue
 		}
-		targets[ident] = &targetPair{Name: ident}
+		targets[ident] = &targetPair{Name: ident, Doc: `""`}
 	}
 
 	var (
 		dpkg   = doc.New(astpkg, pkgdir, 0)
 		parser = dpkg.Parser()
 		pr     = dpkg.Printer()
+		vars   = dpkg.Vars
 	)
-	for _, v := range dpkg.Vars {
+	for _, typ := range dpkg.Types {
+		vars = append(vars, typ.Vars...) // variables declared with a type from this package
+	}
+	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
 				dstr := string(pr.Text(parser.Parse(v.Doc)))
-- 
2.43.0


From 35d0023705ebdc7c2d9573de1f22674a028334ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 29/30] fix: register a target with its own doc comment when it
 is declared in a group

---
 compile.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/compile.go b/compile.go
index 30cf7e2..1aba139 100644
--- a/compile.go
+++ b/compile.go
@@ -144,11 +144,21 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		vars = append(vars, typ.Vars...) // variables declared with a type from this package
 	}
 	for _, v := range vars {
-		for _, name := range v.Names {
-			if tp, ok := targets[name]; ok {
-				dstr := string(pr.Text(parser.Parse(v.Doc)))
-				dstr = strings.TrimRight(dstr, "\r\n")
-				tp.Doc = strconv.Quote(dstr)
+		for _, spec := range v.Decl.Specs {
+			vspec, ok := spec.(*ast.ValueSpec)
+			if !ok {
+				continue
+			}
+			docstr := v.Doc
+			if vspec.Doc != nil { // in a parenthesized group
+				docstr = vspec.Doc.Text()
+			}
+			for _, ident := range vspec.Names {
+				if tp, ok := targets[ident.Name]; ok {
+					dstr := string(pr.Text(parser.Parse(docstr)))
+					dstr = strings.TrimRight(dstr, "\r\n")
+					tp.Doc = strconv.Quote(dstr)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 763ebc97b622208855d6d0e917d1cf8e31e9557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 30/30] fix: compile a driver also when the rules have an
 external test or files that are not built

---
 compile.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/compile.go b/compile.go
index 1aba139..0d2add0 100644
--- a/compile.go
+++ b/compile.go
@@ -95,21 +95,16 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		fset   = token.NewFileSet()
 		pkgdir = filepath.Dir(pkg.GoFiles[0])
 	)
-	astpkgs, err := parser.ParseDir(fset, pkgdir, nil, parser.ParseComments)
-	if err != nil {
-		return errors.Wrapf(err, "parsing %s", pkgdir)
-	}
-	if len(astpkgs) != 1 {
-		return fmt.Errorf(
-			"parsed %d packages in %s, want 1 %v",
-			len(astpkgs),
-			pkgdir,
-			maps.Keys(astpkgs),
-		)
-	}
-	astpkg, ok := astpkgs[pkg.Name]
-	if !ok {
-		return fmt.Errorf("package %s not found in %s", pkg.Name, pkgdir)
+	astpkg := &ast.Package{Name: pkg.Name, Files: make(map[string]*ast.File)}
+	for _, filename := range pkg.GoFiles { // not tests, nor files excluded by build constraints
+		f, err := parser.ParseFile(fset, filename, nil, parser.ParseComments)
+		if err != nil {
+			return errors.Wrapf(err, "parsing %s", filename)
+		}
+		if f.Name.Name != pkg.Name {
+			return fmt.Errorf("package %s, not %s, in %s", f.Name.Name, pkg.Name, filename)
+		}
+		astpkg.Files[filename] = f
 	}
 
 	type targetPair struct {
-- 
2.43.0

