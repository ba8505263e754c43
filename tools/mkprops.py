#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}})

INP = "gyp/pylib/gyp/input.py"
prop("G01", "Targets come out once, dependencies first; cycles and dangling links are errors",
 """Whenever a set of build files loads, the targets handed to the generator are exactly the declared targets (or, when
 root targets are named, exactly those roots and everything they depend on), each exactly once and after every target it
 depends on, and every relative, wildcard or toolset-qualified reference is resolved to exactly the targets it names.
 A reference to a target that does not exist, a cycle among targets, a cycle among build files (unless that check is
 switched off), a wildcard on the own file, or two equally named targets in one directory always ends in an error.""",
 ["inputs", "configurations"],
 "for every set of build files, dependency graph, wildcard/toolset qualification, and root-target selection",
 "Tests run FindCycles on a few hand-made graphs; they never load build files, never sort, never resolve wildcards or prune.",
 [INP, "gyp/pylib/gyp/common.py"],
 [("worklist topological sort and cycle report", INP + ": BuildDependencyList/FlattenToList"),
  ("wildcard expansion, qualification", INP + ": QualifyDependencies/ExpandWildcardDependencies"),
  ("root pruning", INP + ": PruneUnwantedTargets")],
 ["target list and target dicts a generator plug-in receives; exit status of gyp"])
prop("G02", "Published settings reach exactly the targets they are published to",
 """Settings a target publishes to all dependents reach every target that depends on it at any depth; settings published to
 direct dependents reach exactly its direct dependents and those connected through a chain of targets that re-export them;
 link settings reach exactly the publisher, when it is linked itself, and the linked targets it is linked into.
 Each publisher's settings are merged into a receiver once, in the order of its dependency walk, with relative paths rebased to the
 receiver's directory, and reach no other target.""",
 ["inputs"], "for every dependency graph, assignment of target types and placement of published settings across directories",
 "No test in the stable suite loads a graph with dependent settings.",
 [INP], [("DoDependentSettings and the three dependency walks", INP)],
 ["per-target defines/include_dirs/libraries a generator plug-in receives"])
prop("G03", "Linked targets list exactly what they link; static libraries stay unlinked",
 """For generators that link (and so ask for it), every linkable target's final dependency list contains, once each, its declared dependencies and
 everything it links against: each static library, shared library and source-less grouping target reachable without passing
 through an already linked target or a grouping target that forbids traversal, in a valid link order with dependents before what they need when
 the generator wants sorting. A static library keeps only non-library dependencies it declared and hard dependencies
 (including hard dependencies re-exported to it), and the declared list remains available unchanged.""",
 ["inputs"], "for every graph, target-type assignment, hard-dependency/export/traverse flags and generator preference",
 "No stable test computes a link closure.",
 [INP], [("AdjustStaticLibraryDependencies, DependenciesToLinkAgainst", INP)],
 ["dependency lists a generator plug-in receives"])
prop("G04", "Merging settings: append, prepend, replace, set-if-absent, rebase, never alias",
 """Merging one settings block into another concatenates lists, replaces scalars and merges dictionaries recursively,
 honouring the append, prepend ('+'), replace ('=') and set-if-absent ('?') list policies and rebasing relative paths in
 path-valued sections from the source file's directory to the receiving file's directory; short flags (starting with '-') may
 repeat while other list items that merge as single values keep one occurrence. Merging incompatible kinds or conflicting list policies is an error, and the
 source block is never changed by the merge, so merging it into several receivers gives each the same contribution.""",
 ["inputs"], "for all pairs of nested blocks, all list policies, all directory layouts",
 "Only MSVS setting tables and path helpers are tested; the merge has no stable test.",
 [INP], [("MergeDicts/MergeLists/MakePathRelative", INP)],
 ["final target dicts as seen by a generator plug-in"])
prop("G05", "Variables and conditions evaluate in phase, in scope, in order",
 """Every variable reference and condition in a block is evaluated in its own phase (early before dependency
 processing, late after settings have been propagated, latest after configurations and filters) with the innermost visible definition:
 automatic variables from the block's own scalar settings, then the block's variables section, then those of enclosing
 blocks and the command line, with '%' giving only a default. Conditions merge exactly the first true branch, list
 references splice in list context and join shell-quoted in string context, and an undefined variable (without a
 trailing '%'), a malformed condition or a failing command is an error instead of a silent substitution.""",
 ["inputs", "configurations"], "for all nestings of blocks, references, conditions, phases and command-line definitions",
 "No stable test covers expansion or conditions.",
 [INP], [("ExpandVariables, ProcessConditionsInDict, LoadAutomaticVariablesFromDict, LoadVariablesFromVariablesDict, ProcessVariablesAndConditionsInDict", INP)],
 ["final target dicts as seen by a generator plug-in"])
prop("G06", "List filters remove exactly what they name, last matching rule wins",
 """An exclusion list removes every occurrence of each named item, and a pattern list then includes or excludes items by
 regular expression in the order given so that the last matching pattern decides, at every nesting level and for every list;
 surviving items keep their order and multiplicity.
 Removed items remain available in the companion excluded-items list and nowhere else, the filter lists disappear, and a filter list of a wrong kind is an error.""",
 ["inputs"], "for all lists, exclusion lists and pattern lists at any depth",
 "No stable test runs the filters.",
 [INP], [("ProcessListFiltersInDict", INP)], ["final target dicts as seen by a generator plug-in"])
prop("G07", "Each configuration is the target's settings plus its inherited and own settings",
 """Every concrete configuration of a target consists of the target-level settings that may vary per configuration, merged with
 the settings of the configurations it inherits from (recursively, in order) and then its own; target-only settings never enter a configuration and
 configuration-varying ones do not remain at target level. Abstract configurations never reach a generator, a target without configurations gets one default
 configuration, the default configuration is the one named or else the alphabetically first concrete one, and a key that is not allowed inside a configuration is an error.""",
 ["inputs", "configurations"], "for all inheritance structures and placements of settings",
 "No stable test sets up configurations.",
 [INP], [("SetUpConfigurations, MergeConfigWithInheritance", INP)], ["final target dicts as seen by a generator plug-in"])
prop("G08", "Parallel loading equals sequential loading under every completion order",
 """Loading build files with worker processes yields exactly the result of loading them one after the other, whatever the order in which
 workers finish and however many there are: every reachable build file is loaded exactly once and none is lost.
 If any build file fails to load, the parallel load fails too instead of succeeding, hanging, or passing a partial result on.""",
 ["schedules", "fault_sequences", "inputs"], "for every dependency graph among build files, every completion order of workers, and every set of failing files",
 "No test loads in parallel; the completion order is chosen by the operating system, not the test.",
 [INP], [("LoadTargetBuildFilesParallel/ParallelState", INP)],
 ["tasks handed to the worker pool, result or failure of the load"])
prop("G09", "Deterministic outputs; unchanged files untouched, changed ones replaced whole",
 """Generating twice from the same inputs produces byte-identical files, independent of the hash seed of the process, of
 whether build files are loaded in parallel, and of the time. A file written by the write-if-changed writer keeps its modification time when its content would not change and is otherwise
 replaced in one step: whatever write, compare or rename step fails or is interrupted, the file on disk is the complete old or the complete new content.""",
 ["inputs", "crash_points", "fault_sequences", "configurations"],
 "for every project, hash seed, and every fault or kill between two file system calls of an output write",
 "Tests write to a temp dir once, without faults, in one process.",
 ["gyp/pylib/gyp/common.py", "gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py", INP],
 [("WriteOnDiff", "gyp/pylib/gyp/common.py"), ("sorted iteration in generators", "gyp/pylib/gyp/generator")],
 ["output tree after each run", "output file content after each injected fault"])
prop("G10", "Includes and target defaults are merged with paths seen from the including file",
 """Each include named in a block, forced on the command line, or nested in another include is found relative to the file that
 names it and merged into the naming block in order, later ones and the block's own contents following the merge policies, with paths rebased; target
 defaults act as a base each target of that file, and only that file, is merged onto. The list of contributing files reported for a build
 file contains that file first and every file included directly or indirectly exactly once, and each target listing several toolsets is built once per toolset.""",
 ["inputs", "configurations"], "for every include graph over directories, forced includes, target defaults and toolset lists",
 "No stable test loads an include.",
 [INP, "gyp/pylib/gyp/__init__.py"], [("LoadOneBuildFile, LoadBuildFileIncludesIntoDict, ProcessToolsetsInDict, LoadTargetBuildFile", INP)],
 ["final target dicts and included-file lists as seen by a generator plug-in"])
prop("G11", "Compilers and linkers receive exactly the declared settings, unaltered",
 """In a build run from the generated makefiles or ninja files every source is compiled exactly once for its target with exactly the
 declared defines, include directories and flags of the selected configuration (as single, unaltered arguments, whatever characters a define contains), and actions,
 rules and copies run with exactly the declared arguments (in which the build tool's own variable syntax keeps its meaning) and files.
 Every linked target is linked from exactly the objects of its sources and the libraries it declares or depends on, and an executable finds the
 shared libraries it is linked with when it runs. A build makes the targets of the files named and what they depend on; asked for one target by
 its name, that and what it depends on and nothing else; a make build that names no configuration builds the default one.""",
 ["inputs", "programs", "configurations"], "for all projects, special characters in values, configurations and target types",
 "Tests compare a few product names; no test builds generated files.",
 ["gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py", "gyp/pylib/gyp/ninja_syntax.py", "gyp/pylib/gyp/common.py"],
 [("EscapeCppDefine, EscapeShellArgument, EscapeMakeVariableExpansion, QuoteSpaces", "gyp/pylib/gyp/generator/make.py"),
  ("QuoteShellArgument, Define", "gyp/pylib/gyp/generator/ninja.py")],
 ["argument vectors received by recording stand-ins for compiler, linker and action programs"])
prop("G12", "A rebuild redoes exactly what a change affects, in dependency order",
 """Under every history of source, header, action-input and build-file edits and every parallel schedule, the next build from the
 generated makefiles or ninja files reruns exactly the steps whose recorded inputs or command changed, directly or through a rebuilt input or dependency, each once and never before a step it
 depends on; a build with no change runs nothing. The products are then the same as those of a build from scratch.""",
 ["histories", "schedules", "programs"], "for all projects, edit histories and job counts",
 "No test runs a build; incremental behaviour only shows over several builds.",
 ["gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py"],
 [("do_cmd/command_changed, dep files, order-only prerequisites", "gyp/pylib/gyp/generator/make.py"), ("stamps and order-only inputs", "gyp/pylib/gyp/generator/ninja.py")],
 ["log of steps run by recording stand-ins in each build"])
prop("G13", "Change analysis reports exactly the affected targets",
 """Given a list of changed files, the change analysis reports a supplied test target if and only if it, or a target it depends on at any
 depth, uses a changed file as a source or as an action or rule input, or is defined by a changed build file or one of its includes; the
 reported compile targets are the affected targets among, or needed by, the supplied ones that a build must be asked for so that every affected supplied target gets rebuilt.
 Unknown supplied names are reported as invalid, 'all' stands for the roots of the given files, and a changed forced include reports everything as affected.""",
 ["inputs"], "for all dependency graphs, target types, file lists and supplied target sets",
 "No stable test runs the analyzer.",
 ["gyp/pylib/gyp/generator/analyzer.py"], [("TargetCalculator", "gyp/pylib/gyp/generator/analyzer.py")], ["JSON result of the analysis"])
prop("G14", "Malformed build files are refused and well-formed ones are accepted",
 """A load ends in an error if a build file cannot be read as one dictionary of strings, integers, lists and dictionaries, if a target
 lacks its name or type, has an unknown type, is declared twice, or keeps a key that only a target (not a configuration) may have inside a configuration; if a
 rule or action lacks its name, two rules of a target share a name or an extension, an action lacks its inputs list or has an empty first word of its
 command, a run_as entry is not a dictionary with a command list, or a standalone library is not a static one. With --check, repeated keys and values
 of any other kind are refused too. Everything else is accepted, --check or not, with the same result; numbers reach generators as text, and each rule is given exactly the sources of its extension, in order.""",
 ["inputs", "configurations"], "for every set of build files, well-formed or with any of these mistakes in any place, with --check or without",
 "No stable test loads a build file.",
 [INP], [("CheckNode, CheckedEval, LoadOneBuildFile, ValidateTargetType, ValidateRulesInTarget, ValidateRunAsInTarget, ValidateActionsInTarget, VerifyNoGYPFileCircularDependencies", INP)],
 ["exit status of the loader, final target dicts and rule_sources as seen by a generator plug-in"])
prop("G15", "Options come from fixed sources in order, and regenerated makefiles repeat a run",
 """What a generator is handed (variables, generator flags, output directory, configuration directory, forced includes, depth and top
 directory, root targets, build files, formats) follows from the command line, the GYP_* environment variables and the configuration
 directory: variables and flags of the environment count unless the command line gives them again, the last value given wins, numbers are read as numbers; for the other
 settings the command line wins over the environment and the environment over the default; --ignore-environment shuts the environment out; missing settings that are needed are an error.
 When a build file changes, a generated makefile runs gyp again from the top directory with a command line that amounts to the same
 run, argument by argument, whatever characters they contain and whatever the environment has become.""",
 ["inputs", "configurations", "histories"], "for every command line, GYP_* environment, home and configuration directory, working directory, and environment at regeneration time",
 "No stable test runs gyp's main; regeneration needs a real make run.",
 ["gyp/pylib/gyp/__init__.py", "gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/common.py"],
 [("gyp_main, NameValueListToDict, RegenerateFlags, RegenerateAppendFlag", "gyp/pylib/gyp/__init__.py"), ("WriteAutoRegenerationRule", "gyp/pylib/gyp/generator/make.py")],
 ["what a generator plug-in is handed", "argument vector of the program a generated makefile runs after a build file was touched"])

prop("G16", "Each step runs the compiler, linker, archiver and flags named for it",
 """Every compilation, link, archive and symbol listing of a make or ninja build is run by the program that was named for its kind and toolset, wrappers first:
 of the generator's environment, make's own environment or command line (make only), make_global_settings and the default, the first that names
 one; within the environment, what is named for the toolset before the general name. Host steps use the host's programs when the host toolset
 is separate (as any *_host or *_target setting or GYP_CROSSCOMPILE asks for); ninja's host compilers are otherwise the target's. What holds C++,
 itself or through a static library, is linked by the C++ program (make: everything). Flags of the environment reach the steps of their
 language and toolset, and only these: make takes them when it builds and puts them behind the project's, ninja's generator takes them
 when it generates and puts them before the project's language or link flags.""",
 ["configurations", "inputs"], "for every assignment of tools, wrappers and flags in the two environments and make_global_settings, with and without a separate host toolset",
 "No stable test builds anything or looks at a tool setting.",
 ["gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py", "gyp/pylib/gyp/common.py"],
 [("make_global_settings and SHARED_HEADER's CC/CXX/LINK/AR/*FLAGS", "gyp/pylib/gyp/generator/make.py"), ("GenerateOutputForConfig, WriteSourcesForArch, WriteLinkForArch, CommandWithWrapper", "gyp/pylib/gyp/generator/ninja.py"),
  ("GetEnvironFallback, CrossCompileRequested", "gyp/pylib/gyp/common.py")],
 ["program names and argument vectors of recording stand-in tools"])

L = "lib/"
prop("N01", "A header install is complete and verified, or absent",
 """An install leaves a usable version marker in the version's cache directory only if every header file it needed from the archive was written
 and every downloaded file's checksum matched the release's checksum list; this is for installs that do not overlap another one of the same version. After any other outcome (refused or broken download, wrong status, corrupt archive,
 checksum mismatch or absence, failed write, killed process) the install reports failure where it can, and no later
 conditional install takes what remains for an installed version.""",
 ["fault_sequences", "crash_points", "inputs"], "for every archive, server behaviour and every fault or kill at any step of the install",
 "JS tests mock a single download; no test kills or faults the install, and none belongs to the stable suite.",
 [L + "install.js", L + "download.js"],
 [("rollback, ShaSum, eaccesFallback", L + "install.js")],
 ["cache directory after each run, result reported to the caller, requests seen by a local server"])
prop("N02", "Cache histories: install, list, remove and clean change only what they name",
 """Over any history of install, conditional install, list, remove and clean, a version is usable in the cache exactly when its last operation was an install that succeeded
 (an install that fails leaves that version absent or unusable); list shows what is in the cache; a conditional install downloads only when the version is missing or was installed with an older layout, and a plain one always does.
 Removing or cleaning deletes exactly the named version's directory, or the build directory, is harmless when it is absent, and never
 touches anything outside it, whatever name is given.""",
 ["histories", "inputs"], "for all operation histories over several versions and names",
 "Each test exercises one operation on a fresh directory.",
 [L + "install.js", L + "list.js", L + "remove.js", L + "clean.js"], [("remove/list/clean/install", L)],
 ["cache directory and results after each step"])
prop("N03", "Queued commands run in order, once, and stop at the first failure",
 """The commands named on the command line run one after the other, each exactly once with the arguments that follow it up to the next
 command name; commands queued by a running command run, in the order they were queued, after those already waiting; and the first failure (an error, an uncaught exception,
 or a command that never ends although nothing is left to do) stops everything with a non-zero exit status and no later command.
 Each named option reaches the commands with its value from the command line or, where npm's environment configuration (npm_config_*) sets it too, from there;
 only the documented names, aliases and shorthands are commands or abbreviations, and these act exactly as what they abbreviate.""",
 ["inputs", "histories", "configurations"], "for all argument vectors and environments, all failing positions",
 "Tests parse two or three argument vectors and never run the queue.",
 ["bin/node-gyp.js", L + "node-gyp.js", L + "rebuild.js"], [("parseArgv, todo queue", L + "node-gyp.js"), ("run loop", "bin/node-gyp.js")],
 ["commands and arguments seen by recording stand-ins, process exit status"])
prop("N04", "Every version and runtime resolves to the right download locations",
 """For every requested version, the download locations, checksum-list location, import-library locations and cache directory name are those of the requested
 release: official builds use their distribution site's layout, a distribution override from the options, environment or runtime release data is
 used with the documented precedence, and invalid or unsupported versions are rejected.
 All locations of one request agree on version and base location, and differ only by file and architecture.""",
 ["inputs", "configurations"], "for all versions, runtime release records, option and environment settings",
 "Tests check a fixed table of versions.",
 [L + "process-release.js"], [("processRelease", L + "process-release.js")], ["resolved release record"])
prop("N05", "The generated configuration reflects runtime, headers and every option",
 """The configuration written by configure starts from the configuration of the selected node headers (forced, matching the installed headers, or the running
 binary's own, by fixed precedence), sets target architecture, headers location, build type and toolchain from the options, and passes every other given
 option on as a variable with its exact value. Reading the written file back yields exactly that data whatever characters values contain, and the build
 generator is invoked with this file, the default include files and the fixed output settings in the documented order.""",
 ["inputs", "configurations"], "for all option sets, header configurations and value contents",
 "Tests check a handful of fixed configurations.",
 [L + "create-config-gypi.js", L + "configure.js", L + "build.js"],
 [("createConfigGypi, getBaseConfigGypi, parseConfigGypi", L + "create-config-gypi.js"), ("runGyp", L + "configure.js")],
 ["written configuration file, recorded generator invocation"])
prop("N06", "The first acceptable Python in the documented order is used",
 """The Python used is the first candidate in the documented order (explicit option, environment, program search path names, then
 platform-specific places) that can be run and reports a supported version; candidates are tried one at a time and never after one is accepted.
 A candidate that is missing, fails to run, or reports an unsupported or unreadable version is skipped, except that an unacceptable explicit choice
 is followed only by the documented ones, and when none is acceptable configure fails.""",
 ["inputs", "configurations", "fault_sequences"], "for all assignments of behaviours to candidates on each platform",
 "Tests mock a few sequences.",
 [L + "find-python.js"], [("PythonFinder", L + "find-python.js")], ["sequence of programs executed and the choice reported"])
prop("N07", "The newest usable Visual Studio that meets the request is selected",
 """Among the Visual Studio installations reported (by the active developer prompt for its own installation, by the VSSetup PowerShell module, by the
helper program, in that order; then the registry's entries for 2015 and 2013) the one selected is supported for the Node.js version asked for (2017 below
22, 2015 below 19, 2013 below 9; newer ones always), contains the compiler toolset for the architecture, MSBuild and (2017 and later) a Windows SDK, and
agrees with a requested year or path and with the active developer prompt's directory; within one source it is of the newest release year, and 2017 is
used only when no source has a usable newer one. No incomplete, unknown or mismatching installation is ever selected, and when none qualifies configure fails.
The version, year, path, toolset, newest SDK and build-tool path reported all belong to the selected installation.""",
 ["inputs", "configurations"], "for all lists of installations, requests and environments",
 "Tests use recorded outputs of a few machines.",
 [L + "find-visualstudio.js"], [("VisualStudioFinder", L + "find-visualstudio.js")], ["selected installation record"])
prop("N08", "Build runs the configured tool once as requested and reports its outcome",
 """Building without a configuration is an error; otherwise the configured build tool is run exactly once in the module directory with the build
 type, verbosity and job count that follow from options, environment and the recorded configuration, plus the user's extra arguments in order; what it prints reaches the user.
 The build succeeds if and only if the tool exits with success, a temporary Python link used during the build exists while it runs and is gone
 afterwards in every case, and a build type given explicitly wins over the recorded one.""",
 ["inputs", "configurations", "fault_sequences"], "for all options, environments and tool outcomes (exit codes, signals, missing tool)",
 "Tests build once with default settings.",
 [L + "build.js"], [("doBuild/onExit", L + "build.js")], ["arguments and environment recorded by a stand-in tool, result reported"])

prop("N09", "Any history of commands ends in what a fresh rebuild would make",
"""After any sequence of configure, build, clean and rebuild mixed with edits of sources, headers, the build file, the settings files it includes and the
 module's common.gypi, also when a configure failed or was killed half way, a build that succeeds leaves the product that a fresh rebuild of the current
 files with the last recorded configuration (build type, options as variables, generator arguments) would make, recompiles nothing when nothing changed,
 and leaves the other build type's product alone. A build with no configuration, with a build file that cannot be loaded or with a source that does not
 compile fails and leaves earlier products as they were; clean leaves no build directory.""",
["histories", "crash_points", "inputs"], "for all histories of commands and edits, including a configure killed before it finishes",
"Tests run configure and build once on a fresh directory.",
[L + "configure.js", L + "build.js", L + "clean.js", L + "rebuild.js", L + "create-config-gypi.js", "gyp/pylib/gyp/generator/make.py"],
[("WriteAutoRegenerationRule", "gyp/pylib/gyp/generator/make.py"), ("configure", L + "configure.js"), ("clean", L + "clean.js")],
["products, compilations and results of each command after each step of a history"])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
