#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification, TLC; conformance of recorded runs (trace validation)"
CHECKS = {
    "G01": ("gypcheck.py", T, "every recorded run of the real loader is judged against specs/gyp (target set, order, links, errors); all graphs on 3 targets and 3 files are enumerated, larger worlds sampled"),
    "G02": ("gypcheck.py", T, "whole target blocks after settings publication are compared with the specification's on sampled graphs"),
    "G03": ("gypcheck.py", T, "final link lists are compared with the specification's link closure on sampled graphs"),
    "G04": ("gypcheck.py", T, "whole target blocks compared with the specification's merge on sampled nested blocks through every merge site"),
    "G05": ("gypcheck.py", T, "whole target blocks compared with the specification's character-level expansion and condition evaluation on sampled blocks"),
    "G06": ("gypcheck.py", T, "filtered lists compared with the specification's on sampled lists, patterns and nestings"),
    "G07": ("gypcheck.py", T, "configurations compared with the specification's on sampled inheritance graphs"),
    "G08": ("gypcheck.py", "TLA+ specification of the parallel load checked by TLC; completion orders driven into the real code and event traces validated", "the loading protocol is model-checked; the real ParallelState is driven through completion orders (all of them on small graphs) and its event traces and results are judged against the specification"),
    "G09": ("outcheck.py", "TLA+ model of the write-if-changed protocol checked by TLC; recorded system calls, faults, kills and repeated generations validated against it", "the writer is model-checked with failing calls, crashes and concurrent writers; the real writer runs with every system call failed or killed in turn; repeated generations of sampled projects by eight generators are compared"),
    "G11": ("buildcheck.py", T, "real makefiles and ninja files are generated for sampled projects and built with recording stand-in tools; every compile, link, action, rule and copy step is judged against the steps specs/build derives from the specification's own load of the project"),
    "G12": ("buildcheck.py", "TLA+ model of incremental building checked exhaustively by TLC; recorded edit and build histories validated against it", "the model is exhaustive on small step graphs; real edit/build/stop histories of generated makefiles and ninja files on sampled projects are judged against it and against builds from scratch"),
    "G10": ("gypcheck.py", T, "composed blocks and lists of contributing files compared with the specification's on sampled include graphs"),
    "G13": ("analyzecheck.py", T, "answers of the real analyzer on sampled projects and questions (all 3-target graphs enumerated) are judged against the affected-target relation of specs/analyze"),
    "G14": ("gypcheck.py", T, "well-formed worlds and worlds with one or two mistakes of 27 kinds in any place, with and without --check: verdict and result compared with the specification's"),
    "G15": ("gypcheck.py", "TLA+ specification of the front end: every short command line and environment model-checked with TLC; recorded runs and regenerations judged by it", "the specification of options, environment and regeneration is model-checked on every command line of a small vocabulary; the real gyp runs with sampled command lines, environments and directories, generated makefiles are made to regenerate, and both are judged by specs/front"),
    "G16": ("toolcheck.py", "TLA+ specification of tool selection: every way to name one tool model-checked with TLC; recorded builds judged by it", "the rules are model-checked on every combination of places for one tool; a project with both toolsets is generated and built under sampled environments and make_global_settings with recording tools, each run judged by specs/tools"),
    "N01": ("cachecheck.py", "TLA+ model of the install protocol with crashes checked by TLC; real installs failed or killed at every system call judged against it", "the protocol is model-checked with a failure or crash before every step; the real node-gyp runs against a loopback distribution with system calls failed or the process killed, and what it leaves is judged by specs/cache"),
    "N02": ("cachecheck.py", T, "recorded histories of cache commands of the real node-gyp, under good and bad releases and hostile names, judged by specs/cache"),
    "N03": ("clicheck.py", "TLA+ model of the command queue checked exhaustively by TLC; recorded command lines run by the real program judged by the specification", "bin/node-gyp.js runs with its command modules replaced by recorders; options, queue, arguments, working directory, outcome and messages are compared with specs/cli"),
    "N04": ("relcheck.py", T, "lib/process-release.js and lib/install.js (both platforms' branches, against a recording stand-in site) are compared with specs/release on sampled requests; agreement of all locations is model-checked on every request of a small world"),
    "N05": ("configcheck.py", T, "the real configure runs with stand-ins for installing, finding programs and spawning; the file it writes (read by build and by gyp's own reader) and the generator's arguments are compared with specs/config on sampled options, headers, configurations and platforms"),
    "N06": ("pythoncheck.py", "TLA+ model of the search checked exhaustively by TLC; recorded searches (made-up answers and real programs) judged by the specification", "every behaviour of every candidate is model-checked; sampled searches of the real finder are compared run by run"),
    "N07": ("vscheck.py", "TLA+ model of the choice checked exhaustively by TLC; recorded choices of the real finder judged by the specification", "every machine with up to two installations is model-checked; the real finder answers sampled machines (helper program, module and registry played by stand-ins) and each choice is compared with specs/vs", ),
    "N08": ("makecheck.py", "TLA+ model of one build checked exhaustively by TLC; recorded builds with stand-in tools judged by the specification", "every failing step and every behaviour of the tool is model-checked; the real build step calls recording stand-in tools on sampled options, configurations and outcomes, compared with specs/make"),
    "N09": ("flowcheck.py", "TLA+ model of make's incremental mechanism checked exhaustively by TLC against the specification of histories; recorded histories of the real commands judged step by step", "every history of up to 7 (thorough 8) steps is model-checked, with controls; the real node-gyp, gyp and make run sampled histories with readable stand-in compilers, each step compared with specs/flow"),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 checks/{CHECKS[p][0]} {p}", "thorough_cmd": f"python3 checks/{CHECKS[p][0]} {p} --thorough",
                 "technique": CHECKS[p][1], "level": "model_checking", "level_note": CHECKS[p][2]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS],
     "notes": "One TLA+ specification tree (specs/), judged by TLC; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
