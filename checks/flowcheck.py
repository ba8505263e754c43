"""N09: histories of commands and edits with the real node-gyp, gyp and make, judged by specs/flow."""
import os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check, pmap, VERIF, REPO, CheckError
import jslib

COMMON = {"target_defaults": {"default_configuration": "Release", "configurations": {"Debug": {"defines": ["F_DBG"]}, "Release": {"defines": ["F_REL"]}}}}

# loaded by the generator's Python: kills it as it starts (0) or before it opens or renames the n-th file it writes
DEADLY = """
import os, sys
home = os.environ.get("HOME", "")
if os.path.exists(home + "/dead") and b"gyp_main" in open("/proc/self/cmdline", "rb").read():
    left = [int(open(home + "/dead").read())]
    def die():
        os.close(os.open(home + "/killed", os.O_CREAT | os.O_WRONLY))
        os.kill(os.getpid(), 9)
    def hook(event, args):
        if event == "os.rename" or event == "open" and isinstance(args[0], str) and isinstance(args[1], str) and "w" in args[1]:
            left[0] -= 1
            if left[0] == 0:
                die()
    if left[0] == 0:
        die()
    sys.addaudithook(hook)
"""


def write(d, name, text):
    p = os.path.join(d, name)
    with open(p + ".new", "w") as f:
        f.write(text)
    os.rename(p + ".new", p)


def texts(T):
    lib = {"target_name": "core", "type": "static_library", "sources": ["l.c"], "direct_dependent_settings": {"defines": ["F_LIB"]}}
    addon = {"target_name": "addon", "sources": ["a.c"] + (["b.c"] if T["useB"] else []), "variables": {"foo%": "off", "tag%": "none"},
             "defines": ["F_V%d" % T["v"], "F_T=<(tag)"], "conditions": [["foo=='on'", {"defines": ["F_FOO"]}]]}
    if T["useLib"]:
        addon["dependencies"] = ["core"]
    if T["useQ"]:
        addon["actions"] = [{"action_name": "q", "inputs": ["q.in"], "outputs": ["<(INTERMEDIATE_DIR)/q.c"], "action": ["cp", "q.in", "<@(_outputs)"], "process_outputs_as_sources": 1}]
    if T["useR"]:
        addon["copies"] = [{"destination": "<(PRODUCT_DIR)/res", "files": ["r.txt"]}]
    inc = '#include "h.h"\n' if T["useH"] else ""
    common = dict(COMMON, target_defaults=dict(COMMON["target_defaults"], defines=["F_N%d" % T["n"]]))
    out = {"../nodedir/include/node/common.gypi": repr(common) + "\n", "binding.gyp": repr({"includes": ["mod.gypi"], "targets": [addon] + ([lib] if T["useLib"] else [])}) + ("\n'" if T["broken"] else "\n"),
           "mod.gypi": repr({"target_defaults": {"defines": ["F_G%d" % T["g"]]}}) + "\n",
           "q.in": "// v%d\n" % T["q"], "r.txt": "%d" % T["r"], "a.c": "// v%d\n" % T["a"] + inc + ("error\n" if T["bad"] else ""),
           "b.c": "// v%d\n" % T["b"], "l.c": "// v%d\n" % T["l"] + inc}
    if T["useH"]:
        out["h.h"] = "// v%d\n" % T["h"]
    if T["common"]:
        out["common.gypi"] = repr({"target_defaults": {"defines": ["F_C%d" % T["common"]]}}) + "\n"
    return out


def history(r):
    T = {"a": 1, "b": 1, "l": 1, "h": 1, "bad": False, "v": 1, "useB": r.random() < 0.5, "useLib": r.random() < 0.5, "broken": False, "g": 1, "common": int(r.random() < 0.3), "n": 1, "useH": r.random() < 0.8, "q": 1, "useQ": r.random() < 0.5, "r": 1, "useR": r.random() < 0.5}
    steps, top = [], 1
    for n in range(r.randint(6, 12)):
        T = dict(T)
        if n and r.random() < 0.6:
            for _ in range(r.choice([1, 1, 1, 2])):
                k = r.choice(["a", "b", "l", "h", "v", "g", "useB", "useLib", "common", "common", "bad", "broken", "n", "useH", "q", "useQ", "r", "useR"])
                if k.startswith("use"):
                    T[k] = not T[k]
                elif k in ("bad", "broken"):
                    T[k] = r.random() < 0.6
                elif k == "common":
                    T[k] = 0 if T[k] and r.random() < 0.5 else top + 1
                else:
                    T[k] = top + 1
                top += 1
        if T["bad"] and r.random() < 0.7:
            T["bad"] = False
        if T["broken"] and r.random() < 0.6:
            T["broken"] = False
        k = r.random()
        cmds = ["configure", "build"] if n == 0 and k < 0.85 else r.choice(
            [["build"]] * 9 + [["configure"]] * 4 + [["configure", "build"]] * 2 + [["clean"], ["rebuild"], ["rebuild"], ["clean", "configure"], ["clean", "configure", "build"], ["build", "configure"], ["build", "clean"]])
        o = {"type": r.choice(["", "", "", "Debug", "Release"]), "foo": "", "tag": "", "dtag": "", "target": "", "die": False, "late": False}
        s = {"dieat": -1}
        if "configure" in cmds or "rebuild" in cmds:
            o["foo"] = r.choice(["", "on", "off"])
            o["tag"] = r.choice(["", "", "x", "y z" if r.random() < 0.0 else "q-r"])
        if cmds[0] != "build" and r.random() < 0.3 or cmds == ["build"] and r.random() < 0.15:
            s["dieat"] = r.choice([0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8])
        if cmds[-1] in ("configure", "rebuild"):        # what follows -- goes to the last command
            o["dtag"] = r.choice(["", "", "d1", "d2"])
        if cmds == ["build"]:
            o["target"] = r.choice(["", "", "", "", "core", "addon"])
        steps.append({**s, "tree": T, "cmds": cmds, "opts": o, "env": r.random() < 0.3, "wipe": r.choice([""] * 12 + ["Release", "Release", "Debug"]) if n else "", "how": r.randint(0, 9), "jobs": r.choice(["", "", "3"])})
    return steps


def words(s, nodedir):
    """-> (the command line, what npm puts in the environment)"""
    o, env = s["opts"], {}
    line = list(s["cmds"])
    if o["target"]:
        line.append(o["target"])
    opts = []
    if o["type"]:
        opts.append({"Debug": ["--debug", "-d", "--debug=true"], "Release": ["--release", "--no-debug", "--release"]}[o["type"]][s["how"] % 3])
    for k in ("foo", "tag"):
        if o[k]:
            if s["env"]:
                env["npm_config_" + k] = o[k]
            else:
                opts.append("--%s=%s" % (k, o[k]))
    if s["jobs"]:
        opts.append("--jobs=" + s["jobs"])
    if "configure" in s["cmds"] or "rebuild" in s["cmds"]:
        opts.append("--nodedir=" + nodedir)
        if s["how"] % 2:
            opts.append("--python=python3")
    line = opts + line if s["how"] > 4 else line + opts
    if o["dtag"]:
        line += ["--", "-Dtag=" + o["dtag"]]
    return line, env


def product(d, t):
    p = os.path.join(d, "build", t, "addon.node")
    units = []
    if os.path.exists(p):
        with open(p, errors="replace") as f:
            for l in f.read().splitlines():
                w = l.split(" ", 4)
                units.append({"src": w[1], "v": w[2], "h": w[3], "D": [x for x in w[4].split(",") if x]} if len(w) == 5 and w[0] == "U" else {"src": l, "v": "", "h": "", "D": []})
    p2 = os.path.join(d, "build", t, "res", "r.txt")
    res = 0
    if os.path.exists(p2):
        with open(p2) as f:
            res = int(f.read() or 0)
    return {"type": t, "res": res, "has": os.path.exists(p), "units": units}


def n09(c):
    big = 8 if c.thorough else 7
    ok = "INIT InitF\nNEXT Next\nCONSTANTS Max = %d TrackConfig = %s TrackBuildFile = %s CommandsKnown = %s WholeFiles = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    c.model("flow", "FlowModel", ok % (big, "TRUE", "TRUE", "TRUE", "TRUE", "Outcome Products Fresh"), "make's mechanism gives what the specification of histories gives")
    c.model("flow", "FlowModel", ok % (6, "FALSE", "TRUE", "TRUE", "TRUE", "Products"), "control: the makefile does not depend on the configuration", expect_error="Products")
    c.model("flow", "FlowModel", ok % (6, "TRUE", "FALSE", "TRUE", "TRUE", "Products"), "control: the makefile does not depend on the build file", expect_error="Products")
    c.model("flow", "FlowModel", ok % (6, "TRUE", "TRUE", "FALSE", "TRUE", "Products"), "control: a changed command does not rebuild", expect_error="Products")
    c.model("flow", "FlowModel", ok % (6, "TRUE", "TRUE", "TRUE", "FALSE", "Outcome"), "control: a killed generator leaves a torn makefile", expect_error="Outcome")
    bind = os.path.join(c.scratch, "bin")
    os.makedirs(bind)
    p = subprocess.run(["gcc", "-O1", "-w", "-o", bind + "/cc", os.path.join(VERIF, "harness", "flowtool.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("stand-in does not compile\n" + p.stdout)
    for n in ("gcc", "g++", "c++", "ar"):
        os.link(bind + "/cc", bind + "/" + n)
    os.makedirs(c.scratch + "/site")
    with open(c.scratch + "/site/sitecustomize.py", "w") as f:
        f.write(DEADLY)
    hist = [history(c.rng) for _ in range(c.pick(220, 1500))]

    def run(n):
        steps = hist[n]
        home = jslib.user_dir(os.path.join(c.scratch, "h%d" % n))
        d = jslib.user_dir(os.path.join(home, "mod"))
        nodedir = os.path.join(home, "nodedir")
        os.makedirs(nodedir + "/include/node")
        have, out = {}, []
        for s in steps:
            new = texts(s["tree"])
            time.sleep(0.02)
            for f in have:
                if f not in new:
                    os.unlink(os.path.join(d, f))
            for f, t in new.items():
                if have.get(f) != t:
                    write(d, f, t)
            have = new
            if s["wipe"] and os.path.exists(os.path.join(d, "build", s["wipe"], "addon.node")):
                os.unlink(os.path.join(d, "build", s["wipe"], "addon.node"))
            time.sleep(0.02)
            line, env = words(s, nodedir)
            log = os.path.join(home, "log")
            if os.path.exists(log):
                os.unlink(log)
            e = jslib.node_env(home, VLOG=log, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=c.scratch + "/site", **env)
            e["PATH"] = bind + ":" + e["PATH"]
            opts = dict(s["opts"])
            if s["dieat"] >= 0:
                write(home, "dead", str(s["dieat"]))
            rc, so, se = jslib.run_node([os.path.join(REPO, "bin/node-gyp.js")] + line, d, e, timeout=90)
            if s["dieat"] >= 0:
                os.unlink(home + "/dead")
                opts["die"] = os.path.exists(home + "/killed")
                if opts["die"]:
                    os.unlink(home + "/killed")
            compiled = 0
            if os.path.exists(log):
                with open(log) as f:
                    compiled = len(f.readlines())
            out.append({"tree": s["tree"], "wipe": s["wipe"], "cmds": s["cmds"], "opts": opts, "ok": "hang" if rc == "hang" else "ok" if rc == 0 else "failed", "dir": os.path.isdir(d + "/build"),
                        "links": os.path.exists(d + "/build/node_gyp_bins"), "out": [product(d, t) for t in ("Release", "Debug")], "compiled": compiled, "line": line, "tail": (so + se)[-700:] if rc else ""})
        shutil.rmtree(home, ignore_errors=True)
        return out
    res = pmap(run, range(len(hist)))
    for steps in res:
        for s in steps:
            c.count(" ".join(s["cmds"]) + " " + s["ok"] + (" killed" if s["opts"]["die"] else ""))
    c.sample([dict(line=s["line"], ok=s["ok"], out=s["out"]) for s in res[0]])
    recs = [{"steps": [{k: v for k, v in s.items() if k not in ("tail", "line")} for s in steps]} for steps in res]
    for n, cl in sorted(c.judge("flow", "FlowTrace", recs).items()):
        c.violation("history", {"steps": res[n], "why": cl}, cl, key=cl[0][:60])


if __name__ == "__main__":
    run_check(n09, "N09")
