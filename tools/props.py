#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every requested target runs exactly once per controller",
  "In one controller, every target that is requested - directly, through a composite target such as All, Seq, Deps or ArgTarget, or by name from a YAML file - has its action executed exactly once. This holds however often, from however many places and however concurrently it is requested (a diamond dependency never runs its base twice), unless a Seq stopped before reaching it.",
  ["schedules","programs","inputs"],"every acyclic target graph, every way of naming a target, every interleaving of the goroutines that request it",
  "The tests request one target 1000 times in one call and never combine name references, diamonds and interleavings; which goroutine claims a target first is decided by the scheduler.",
  ["runner.go","controller.go","gate.go","yaml.go","all.go","seq.go","deps.go","argtarg.go"],
  [("claim-then-run under the controller lock","runner.go: Controller.Run"),("deferred name resolution","yaml.go: deferredResolutionTarget")],
  [("ran","outcome per target already launched","controller.go")],["execution counts of target actions"])
p("C02","Running waits for everything and reports every failure, once and for all",
  "A request to run targets returns only after every requested target has finished. It reports an error if and only if at least one of them failed, and that error contains the failure of each one that failed. All requesters of a target, concurrent or later, get the outcome of its single execution.",
  ["schedules","programs","inputs"],"every acyclic graph, every subset of failing targets, every interleaving",
  "Tests check one failing Seq element sequentially; no test has a waiter receive a failure produced by another goroutine, nor several failures at once.",
  ["runner.go","gate.go","controller.go"],
  [("WaitGroup over launched goroutines, errors joined","runner.go: Controller.Run"),("outcome gate","gate.go")],
  [("outcome.err","cached result of a run","runner.go")],["return value of Controller.Run"])
p("C03","Running an acyclic graph never deadlocks, races or panics",
  "For every acyclic target graph and every interleaving, a run request terminates, and the runtime's own bookkeeping is free of data races and panics. A waiter for a target that another goroutine is running is always woken when that target finishes.",
  ["schedules","programs"],"every acyclic graph and every interleaving of the requesting goroutines",
  "A lost wake-up or an unsynchronised access needs one particular interleaving; the tests take whatever the Go scheduler gives them.",
  ["runner.go","gate.go","controller.go","register.go","registry.go","yaml.go"],
  [("controller mutex","controller.go"),("condition-variable gate with re-checked predicate","gate.go"),("WaitGroup","runner.go")],
  [("gate.open","whether the outcome is available","gate.go")],["termination of Controller.Run","absence of conflicting unordered accesses"])
p("C04","Composite targets order, stop and fan out as documented",
  "Seq runs its elements one after another in order and stops at the first failure, starting none of the later ones; Deps starts its main target only after all its dependencies have finished successfully; All runs every one of its elements even when some of them fail. Each composite fails exactly when a target it ran failed.",
  ["programs","schedules","inputs"],"every small tree of Seq, All and Deps over targets, every failure pattern, every interleaving",
  "Tests use one fixed Seq of two and one Deps of three with a single failure pattern.",
  ["seq.go","all.go","deps.go","runner.go"],
  [("sequential loop with early return","seq.go: seq.Run"),("Deps as Seq(All(deps), target)","deps.go: Deps")],
  (),["order of target actions"])
p("C05","A target is never mistaken for another one that ran before",
  "A target that has not run in a controller is always executed when requested, even when targets that ran earlier have since been discarded and their memory reclaimed. Only a target that is the same object as one already run is skipped.",
  ["histories","programs"],"every history of creating, running and dropping targets, with any address reuse the garbage collector may produce",
  "Address reuse depends on the garbage collector; the baseline has to run its tests with the collector off to hide it.",
  ["runner.go","register.go","controller.go"],
  [("identity by address, object kept alive while remembered","runner.go: Controller.Run, register.go: targetAddr")],
  [("ran","outcome per target address","controller.go")],["execution counts of target actions"])
p("C06","A Files target is skipped exactly when its recorded file state is current",
  "With a hash database and without force, a Files target skips its subtarget if and only if the present contents (or absence) of all its input and output files, directories included recursively, equal a state recorded after an earlier successful run of that rule; otherwise the subtarget runs. Order, duplicates and timestamps do not matter, while a change to any byte, name or existence of a listed file does, and force always runs the subtarget.",
  ["histories","inputs"],"every history of edits, removals, restorations and runs over the listed files, every file content within the bound",
  "The tests follow a single history over one input and one output.",
  ["files.go","hash.go"],
  [("hash of subtarget and sorted (name, content hash) lists","files.go: computeHash, fileHashes"),("lookup before, record after","files.go: files.Run")],
  [("hash database","states known to be up to date","hash.go")],["whether the subtarget ran"])
p("C07","Changing what a Files rule would run invalidates it; re-reading it does not",
  "The up-to-date decision of a Files target takes into account the whole definition of its subtarget, including everything nested inside Seq, All, Deps, ArgTarget or named in YAML: changing any command, argument or option that affects what would be executed makes the rule out of date. Conversely an unchanged definition, constructed or read again in a later process, keeps an up-to-date rule up to date.",
  ["programs","histories"],"every pair of subtarget definitions within the bound and every way of referring to them",
  "No test changes the subtarget of a Files rule, nests one, or names one from YAML and runs it in a second process.",
  ["files.go","seq.go","all.go","argtarg.go","command.go","yaml.go"],
  [("canonical JSON of the subtarget plus its type","files.go: computeHash"),("JSON-encodable target fields","command.go, all.go, seq.go, argtarg.go")],
  (),["whether the subtarget ran"])
p("C08","Only a successful run marks files up to date, and faults are reported",
  "A Files target records its state as up to date only after its prerequisites and subtarget ran without error outside dry-run mode, and what it records is the state after the run. A failure of the subtarget, of a prerequisite, of the database or of reading a file is returned as an error, never as success and never as a crash, and records nothing.",
  ["fault_sequences","histories","inputs"],"every placement of a failure in prerequisite, subtarget, database lookup, database insertion and file access",
  "Tests never make the database, the subtarget of a Files rule or a file access fail.",
  ["files.go"],[("error returns before the record step","files.go: files.Run"),("error handling of stat, readdir and open","files.go: fileHashesItemHelper, hashFile")],
  [("hash database","recorded states","hash.go")],["returned error","database insertions"])
p("C09","File chaining runs the producers of a rule's inputs first",
  "When an input of a Files target is listed as an output of another Files target, or lies below a listed output directory, that other target has finished successfully before the first one examines its files or runs its subtarget. Files targets that do not produce one of its inputs are not run, and a target is not treated as its own prerequisite.",
  ["programs","inputs","schedules"],"every set of rules over the path names within the bound, every chain of rules",
  "Tests use one two-rule chain and three registry probes.",
  ["files.go","registry.go"],[("output-file registry with ancestor lookup","files.go: findInFilesRegistry"),("prerequisites run before hashing","files.go: runPrereqs")],
  [("filesRegistry","rule producing each output path","files.go")],["order of target actions"])
p("C10","Dry-run mode changes nothing",
  "In dry-run mode no built-in target creates, truncates, modifies or removes any file, starts any subprocess, or reads or writes the hash database, whatever its settings and however targets are nested, and file-producing rules and commands still report success. User-supplied functions are still invoked.",
  ["configurations","programs"],"every combination of built-in target types, output settings, force and verbose flags",
  "No test runs anything in dry-run mode.",
  ["command.go","clean.go","files.go","ts/tsdecls.go","context.go"],[("dry-run checks before side effects","command.go: Command.Run, clean.go: Clean.Run, files.go: files.Run")],
  (),["file system, process starts and database calls"])
p("C11","Clean removes exactly the files it should",
  "Running a Clean target removes every listed file and, when autoclean is on, every output file registered for autocleaning, and removes nothing else. Files that are already missing are ignored, any other failure to remove is reported as an error, and running it alters neither its own configuration nor lists shared with other targets.",
  ["inputs","configurations","histories"],"every listing, duplicates and missing files included, with any set of autoclean registrations",
  "Tests clean one existing and one missing file, and one autoclean output.",
  ["clean.go","files.go"],[("removal loop ignoring missing files","clean.go: Clean.Run"),("autoclean registry","files.go: Autoclean")],
  [("autocleanRegistry","outputs registered for cleaning","clean.go")],["file system after the run"])
p("C12","Command runs precisely the command described and reports how it ended",
  "A Command target starts one process: the named program with exactly its arguments, or the user's shell with -c and the shell string, in the given directory, with the process environment plus the listed variables and with the configured standard input. It succeeds if and only if the process succeeded, and when output was captured rather than routed elsewhere the error carries that output and still unwraps to the process error.",
  ["inputs","configurations","fault_sequences"],"every combination of command fields, outputs and exit status within the bound",
  "Tests only run cat, with output redirections, and check that a failure is an exit error.",
  ["command.go"],[("construction of the subprocess","command.go: Command.Run"),("CommandErr","command.go")],(),["argv, directory, environment and stdin of the process","returned error"])
p("C13","Command output goes where the rule says, whole and unmixed",
  "A Command's standard output and standard error each go, completely and in order, to the configured destination: a writer, a deferred writer, a file that is overwritten or (with a >> prefix) appended to, one file shared by both streams, an indented copy in verbose mode, or the captured error text otherwise. Nothing is written to any other file, a list of shell commands sharing an output file accumulates into it, and the YAML form selects the same destinations as the Go form with files relative to the YAML file's directory.",
  ["configurations","inputs"],"every combination of stdout and stderr settings, existing file content and output bytes within the bound",
  "Tests cover overwrite and append of one stream at a time and never read YAML output settings through to a file.",
  ["command.go","runner.go","yaml.go"],[("stream routing","command.go: Command.Run"),("YAML stream settings","command.go: commandYAML.toTarget")],(),["bytes in each destination"])
p("C14","The indenting copier transforms a byte stream independent of chunking",
  "Whatever bytes are written and however they are split into writes, the indenting copier outputs the stream with CR LF and bare CR turned into LF and with each non-empty line preceded exactly once by the indentation and prefix, dropping only a CR at the very end. Each write reports having consumed all its bytes and leaves everything it can decide already delivered; when the underlying writer fails, the failure is reported.",
  ["inputs","histories"],"every byte sequence and every way of splitting it into writes within the bound",
  "One golden file is written in a single call.",
  ["runner.go"],[("line state machine","runner.go: indentingCopier.Write")],[("bol, sawcr","line state between writes","runner.go")],["bytes received by the underlying writer"])
p("C15","Path joining honours absolute segments and the top directory",
  "Joining path segments yields the cleaned join of everything from the last absolute segment on, or the join below the project's top directory if no segment is absolute. File names in YAML, whether listed plainly, produced by a registered list function or nested, are resolved this way against the directory of their YAML file, keeping their order, and a joined path made relative to the top directory leads back to the same file.",
  ["inputs"],"every sequence of path strings within the bound",
  "Tests try five fixed joins.",
  ["controller.go","yaml.go"],[("JoinPath","controller.go"),("YAMLFileList","yaml.go")],(),["resolved paths"])
p("C16","Cross-directory YAML references reach one instance of the right target",
  "A reference from one YAML file to a target in another directory resolves to the target with that name defined in that directory's file, whatever mixture of relative prefixes is used and also when the files refer to one another mutually. Reading terminates, all references to one target denote the same single target, and unresolvable names are reported as errors.",
  ["programs","inputs"],"every arrangement of target references among a few YAML files within the bound",
  "The fixture has one reference down and one reference up, and no mutual references.",
  ["yaml.go","controller.go"],[("on-demand reading of other directories' YAML","yaml.go: YAMLTarget, ReadYAMLFile"),("deferred resolution","yaml.go: deferredResolutionTarget")],
  [("targetsByName","registered targets","controller.go")],["execution of target actions, returned errors"])
p("C17","YAML is decoded faithfully and malformed YAML is rejected, never a crash",
  "For every YAML node tree, decoding it as a target or string list either returns an error or a target with exactly the elements, order, options and names written in the YAML; in particular both notations of Deps mean the same, and untagged, unknown-tag or wrong-kind nodes are errors. No node tree makes decoding panic, and registering a document adds exactly its target names prefixed by its directory, with their comments.",
  ["inputs"],"every YAML node tree within the bounded size, including invalid kinds, tags and missing children",
  "Tests decode one good document and some forty fixed bad ones.",
  ["yaml.go","all.go","seq.go","deps.go","argtarg.go","clean.go","files.go","command.go"],[("decoders and registries","yaml.go and the *Decoder functions")],(),["decoded targets, errors, registered names"])
p("C18","The top directory is found correctly from anywhere inside a project",
  "From any directory inside a project, the search returns the nearest enclosing directory that contains a _fab subdirectory or the directory that the nearest enclosing YAML file's directory declaration is relative to. A declaration that does not match the actual location, is absolute, or has nothing above it is an error, and when nothing is found up to the root the search terminates with an error.",
  ["inputs","configurations"],"every placement of _fab directories and YAML files with arbitrary directory declarations on a bounded directory chain",
  "Nine fixed cases.",
  ["top.go"],[("upward search","top.go: TopDir"),("matching declaration against path","top.go: topDirHelper")],(),["returned directory or error"])
p("C19","Command-line arguments select exactly the named targets",
  "For every list of command-line arguments, either all names are known and exactly those targets are returned in order, or an error naming every unknown one is returned and nothing is run. If the second argument starts with a hyphen the first names the only target and all remaining arguments are passed to it unchanged; no argument list makes parsing panic.",
  ["inputs"],"every argument list within the bounded length, empty strings included",
  "Two fixed argument lists.",
  ["controller.go","argtarg.go"],[("ParseArgs","controller.go")],(),["returned targets, errors and delivered arguments"])
p("C20","A cached driver is reused only if it matches the code and the fab version",
  "Whenever a cached driver is used without recompiling, it was built from the present contents of the project's rule files by the same version of fab, whatever sequence of edits, reverts, version changes, forced rebuilds, failed compilations and crashes came before. An unchanged project is not recompiled once a compilation has completed normally, and a failing compilation is reported.",
  ["histories","crash_points","fault_sequences"],"every sequence of a few edits, reverts, fab version switches, forced runs, compile failures and crashes at any step of the cache update",
  "Tests compile once, reuse once and recompile once, and never crash, revert or change version.",
  ["main.go","dirhash.go","compile.go"],[("hash, version and binary files in the driver directory","main.go: getDriver, checkVersion"),("directory hash","dirhash.go")],
  [("hash, fab-version.json, fab.bin","cached driver and what it was built from","main.go")],["whether compilation is invoked; which binary would run"])
p("C21","The persistent hash store remembers for at least the keep time",
  "After adding a hash the store reports it as present until it has gone unrefreshed for longer than the configured keep time; adding refreshes it, and so does looking it up when update-on-access is on. Adding never evicts an entry within its keep time, without a keep time nothing is ever evicted, an addition evicts all entries older than the keep time, a hash never added is never reported present, and closing and reopening preserves the entries.",
  ["histories","inputs"],"every sequence of a few additions, lookups and clock advances with arbitrary times, keep durations and hashes",
  "One fixed history with two clock advances.",
  ["sqlite/db.go","sqlite/schema.sql"],[("SQL statements and eviction cutoff","sqlite/db.go: Has, Add")],[("hashes table","hash and last access time","sqlite/schema.sql")],["results of Has"])
p("C22","Go dependency lists are complete and confined to the module",
  "The dependency list of a Go package contains every Go, other and embedded file of every package loaded for it and of every package it imports directly or indirectly within the same module, sorted and without duplicates, and no file of any package outside the module. Packages that fail to load are reported as an error. A Go binary target compiles the package in its directory, with the given flags, into the output file, and does so again exactly when a listed file has changed or the compilation failed.",
  ["programs","histories"],"every import graph of a few packages with any module assignment and file lists; every change of one file between two builds",
  "The tests compute the list for this repository only.",
  ["golang/go.go"],[("recursive walk over imports","golang/go.go: gopkgAdd")],(),["returned file list"])
p("C23","Protocol-buffer dependency lists are exactly the import closure",
  "The dependency list of a protocol-buffer file is the file itself plus everything it imports directly or indirectly, each import resolved to the first include directory that contains it, sorted and without duplicates, also for cyclic and diamond imports. Imports found in no include directory are left out, other access failures are errors, and the compiler is invoked with the includes, options and inputs in the given order, again exactly when a listed file has changed or the compilation failed.",
  ["programs","inputs"],"every import graph over a few files, any placement of files among the include directories",
  "One fixed set of five files.",
  ["proto/proto.go"],[("recursive import scan","proto/proto.go: protodeps, protodepsImport")],(),["returned file list"])
p("C24","Exported Go identifiers are recognised as targets iff their type is a target",
  "The check deciding whether a Go type implements the target interface accepts it exactly when both methods are present with matching parameter and result types, judging corresponding types equal only if they agree in every component: kind, length, direction, element, key, field, tag, method, variadicity and name. It terminates on recursive types.",
  ["inputs","programs"],"every pair of type structures within the bounded depth, every method set",
  "The tests check two types.",
  ["types.go"],[("structural comparison of static and reflected types","types.go: checkTypesMatch, checkSignaturesMatch")],[("seen","pairs under comparison","types.go")],["accepted or rejected"])
p("C25","The target registry keeps names, docs and targets consistent",
  "After any sequence of registrations, looking up a name returns the target and documentation last registered under it, names are listed sorted without duplicates, a registered target is described by its name and an unregistered one by its type description, and a non-pointer target is refused without changing the registry. The target listing shows each name followed by its documentation.",
  ["histories","inputs"],"every sequence of a few registrations over arbitrary names and targets",
  "Tests register two distinct names.",
  ["register.go","controller.go"],[("name and address maps","register.go: RegisterTarget")],[("targetsByName, targetsByAddr","registry","controller.go")],["registry lookups and listing"])
p("C26","Settings and arguments reach the targets they are meant for, unchanged",
  "Each setting attached to a context (dry run, force, verbose, hash database, arguments) is read back exactly as last set, is independent of the other settings, and has its documented default when never set. An argument target makes exactly its arguments, in order, visible to its subtarget and everything that runs, and does not leak them to its siblings.",
  ["inputs","programs"],"every combination and order of settings, every argument list within the bound",
  "Tests set each value once.",
  ["context.go","argtarg.go"],[("context keys","context.go")],(),["values read back inside target actions"])
p("C27","The fab command forwards its mode flags and outcome to the build",
  "Whatever combination of verbose, list, force and dry-run flags and target arguments is given, the build that is started - the compiled driver with its command-line, or the driverless build in the same process - sees exactly those flags, the same top directory and cache directory, and the same arguments in order. Listing runs nothing, unknown targets run nothing, and a failing build makes the command fail.",
  ["configurations","inputs"],"every combination of flags, arguments, presence of rule code and outcome",
  "Tests use one flag combination with and one without a driver.",
  ["main.go"],[("flag forwarding","main.go: Main.Run, driverless")],(),["driver command line; context seen by targets; returned error"])
p("C28","The generated driver registers exactly the package's target variables",
  "For every rule package, whatever mix of variables, constants, types and functions it declares and in how many files, and whatever tests and unbuilt files lie beside it, the generated driver is well-formed and registers exactly the exported package-level variables whose types are targets, each once, under its own name and with its own doc comment (the declaration's, or that of its line in a group). Other files than the package's Go files do not become part of it, and no temporary files are left behind.",
  ["programs","inputs"],"every Go rule package that embeds no files, every combination of declarations, every doc comment",
  "One fixture package with one documented variable.",
  ["compile.go","driver.go.tmpl"],[("driver template and target discovery","compile.go: CompilePackage")],(),["output of fab -list","source of the generated driver"])
p("C29","A TypeScript target generates what is asked and stays in step with its package",
  "Running a ts.Decls target that succeeds leaves in its output file the declarations for the package, type and prefix it was given, wherever YAML or the program names them from; it generates them again whenever the package's files, the output, the type or the prefix changed and not otherwise, a generation that fails is reported and not remembered as done, and the output is cleaned only if autoclean was asked for.",
  ["inputs","histories"],"every package, type, prefix, output file, history of changes and failures",
  "One fixture type, generated once.",
  ["ts/tsdecls.go"],[("generation and dependencies","ts/tsdecls.go: Decls, declsType.Run, declsDecoder")],(),["content of the generated file","reported errors"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
