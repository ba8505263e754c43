"""Writes the "fixed:" lines of known-findings.json from the table below (the hashes are looked up in /repo by subject)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("G13", "ask for changed static libraries that nothing links in any order", "analyzer: of two changed static libraries, one depending on the other, only one was among the compile targets, depending on the order of the targets"),
 ("G02", "take exported settings from targets that are not wanted themselves", "with root targets named, a wanted target that exports a target it filters out of its dependencies stopped the load with a KeyError"),
 ("G01", "find targets named by digits with toolset wildcards", "a dependency on x.gyp:7#* was dropped when the target is named 7"),
 ("G04", "follow settings that name a path made of digits", "include_dirs: ['2024'] of a dependency in another directory stopped the load with a TypeError"),
 ("G14", "accept names made of digits", "a target named '7', a dependency on it, inherit_from: ['1'], a rule of extension '7' or a source '8' beside a rule stopped the load with an internal error"),
 ("G14", "accept negative integers with --check", "--check refused any file with a negative integer in it"),
 ("N09", "put makefiles in place only when they are complete", "a configure killed or failed in the generator left a truncated Makefile, with which every later build succeeded without building anything"),
 ("G01", "do not treat dependency filter patterns as target references", "dependencies! / dependencies/ entries were qualified as targets, so patterns named files and stopped the load"),
 ("G04", "keep prepended items in front when one of them is repeated", "'list+' with a repeated item put the items behind it in another order"),
 ("G06", "apply list filter patterns to integer items", "a list with an integer in it crashed the filter"),
 ("G06", "accept list filter patterns that look like integers", "'list/': [['exclude', 1]] crashed"),
 ("G05", "treat a command expansion that a signal ended as failed", "<!(cmd) of a command killed by a signal expanded to its partial output"),
 ("G05", "expand a referenced list variable without changing the variable", "expanding a reference to a list variable changed the variable for everyone after"),
 ("G08", "let DEPTH in the late phases be that of the target's own build file", "target_conditions saw the DEPTH of whichever file was loaded last, so sequential and parallel loads differed"),
 ("G08", "report a build file whose python module exits as failed in parallel loads", "a parallel load with a pymod exiting hung or ended with an empty result"),
 ("G12", "do not rebuild objects whose command line contains a number sign", "make: a define with # rebuilt everything on every build"),
 ("G11", "keep backslashes in front of a number sign in makefile defines", "make: defines with \\# lost backslashes"),
 ("G11", "quote backslashes in ninja shell arguments", "ninja: an argument with a backslash reached the program changed"),
 ("G11", "keep number signs in the arguments of make actions and rules", "make: an action argument with # was cut"),
 ("G12", "make every ninja rule of a target wait for the target's dependencies", "ninja: the second rule of a target did not wait for the target's dependencies"),
 ("G11", "keep repeated spaces where a long ninja line is wrapped", "ninja: wrapping a long line lost one of two spaces in an argument"),
 ("G12", "rerun a make rule whose command changed", "make: a rule with changed arguments was not run again"),
 ("G09", "write makefiles that do not depend on the hash seed", "make output depended on PYTHONHASHSEED"),
 ("G09", "list targets in an order that does not depend on the hash seed", "the order of targets depended on PYTHONHASHSEED"),
 ("G09", "write CMake files that do not depend on the hash seed", "cmake output depended on PYTHONHASHSEED"),
 ("G09", "leave unchanged XML project files alone and encode them always", "msvs: unchanged project files were rewritten; non-ASCII ones failed"),
 ("G09", "order Visual Studio configurations independently of the hash seed", "msvs output depended on PYTHONHASHSEED"),
 ("G09", "escape defines with backslashes before quotes for MSBuild", "msvs: a define with \\\" crashed generation on a repeated run"),
 ("G13", "analyzer: a source above the top directory is not a file in it", "analyzer: ../src/a.c of a file above the top matched src/a.c"),
 ("N02", "remove only deletes directories right below the dev dir", "node-gyp remove ../x deleted directories outside the cache"),
 ("N02", "install the requested version in the EACCES fallback", "with an unwritable cache the running version was installed instead of the requested one"),
 ("N02", "look for the import library under the name it is installed with", "a conditional install downloaded again since it looked for another library name"),
 ("N01", "mark a version as installed only when it is complete and verified", "a crash or failed check left a version marked as installed"),
 ("N01", "remove the installed marker before the files of a version", "an interrupted remove left a marked version with files missing"),
 ("N01", "a full install on Windows starts without import libraries", "an import library of an earlier failed install was taken as the new one"),
 ("N03", "command names are own names of the command table", "node-gyp toString ran Object.prototype.toString as a command"),
 ("N04", "take only the directory of a .lib file for its architecture", "a .lib file in a directory merely ending in an architecture's name was taken for it"),
 ("N05", "allow ARM64 assembly from Visual Studio 2017 version 15.9 on", "versionMinor was compared as text"),
 ("N05", "pass every unknown option on as a variable, whatever its name", "options named like members of Object.prototype were dropped"),
 ("N05", "read quotes and number signs in the strings of config.gypi", "config.gypi with ' or # in a string could not be read"),
 ("N06", "a Python candidate that fails to run is not used", "an executable printing a version and then failing was selected"),
 ("N08", "a build that removes its helper directory has not failed", "build failed after a successful build that had removed node_gyp_bins"),
 ("N08", "a build tool that cannot be started fails the build like any other", "a missing make ended node-gyp with an unhandled error"),
 ("N08", "pass make its targets as they are on Windows too", "with make on Windows targets were passed as /t: options"),
 ("G12", "place the outputs of actions and rules in the source tree there", "make below another directory: outputs in the source tree were looked for below it, so the command ran on every build and compiling the output failed"),
 ("G11", "find the listed object files of a target in the source tree", "make: a .o in a target's sources was looked for in the directory make runs in"),
 ("G12", "run commands with several outputs after the dependencies of their target", "make -j: an action or rule with several outputs ran before the target's dependencies were made"),
 ("G12", "link a target of object files after its dependencies are built", "make -j: a target with only object files was linked before its dependencies were made"),
 ("G05", "evaluate an array command that has a space after its parenthesis", "<!( [...]) with a space ran the text of the array in a shell"),
 ("G05", "do not mix up the cached results of shell and python module commands", "<!(pymod_do_main x) took the result of an earlier <!(x) of equal text, and the other way round"),
 ("G14", "let --check accept integers in build files", "--check refused any file with an integer in it (and, on newer Python, crashes in ast.Str)"),
 ("G15", "quote the regeneration command of makefiles for make", "a variable with $ or # was changed when a makefile regenerated itself; an include with $ in its name stopped make"),
 ("G11", "give what links a shared library with another extension an rpath in makefiles", "make: an executable linked with a shared library of another extension (.node) did not find it at run time"),
 ("G16", "let make_global_settings name the archiver of makefiles", "make: AR of make_global_settings was ignored"),
]
log = dict(l.split(" ", 1)[::-1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines())
p = os.path.join(V, "known-findings.json")
known = [x for x in json.load(open(p)) if isinstance(x, dict)]
known += [f"fixed: property={g} {log['fix: ' + s]} {what}" for g, s, what in FIXED]
left = [s for s in log if s.startswith("fix: ") and s[5:] not in {x[1] for x in FIXED}]
assert not left, left
json.dump(known, open(p, "w"), indent=1)
open(p, "a").write("\n")
print(len(known), "entries")
