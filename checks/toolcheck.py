"""G16: which compilers, linkers and archivers a build runs, judged by specs/tools."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import VERIF, REPO, CheckError, run_check, pmap
import buildlib

TOOLS = ("CC", "CXX", "LINK", "AR", "NM", "READELF")
FLAGS = ["CPPFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS"]
CROSS = ("GYP_CROSSCOMPILE", "AR_host", "CC_host", "CXX_host", "AR_target", "CC_target", "CXX_target")
BOTH = ["host", "target"]
TARGETS = [
    {"target_name": "st", "type": "static_library", "toolsets": BOTH, "sources": ["a.c", "b.cc", "s.S"]},
    {"target_name": "sh", "type": "shared_library", "toolsets": BOTH, "sources": ["l.cc"]},
    {"target_name": "so", "type": "shared_library", "toolsets": BOTH, "sources": ["k.c"]},
    {"target_name": "et", "type": "executable", "sources": ["m.cpp"], "dependencies": ["st", "sh"]},
    {"target_name": "ec", "type": "executable", "sources": ["c.c"]},
    {"target_name": "ex", "type": "executable", "sources": ["d.c"], "dependencies": ["st"]},      # C, but linked with C++
    {"target_name": "mo", "type": "loadable_module", "sources": ["n.cxx"], "product_extension": "node"},
    {"target_name": "eh", "type": "executable", "toolsets": ["host"], "sources": ["h.cc"], "dependencies": ["st#host"]},
    {"target_name": "ei", "type": "executable", "toolsets": ["host"], "sources": ["i.c"]},
]
OUT = {"st": "libst.a", "sh": "libsh.so", "so": "libso.so", "mo": "libmo.node"}


def steps():
    r = []
    for t in TARGETS:
        on = t.get("toolsets", ["target"])
        n = OUT.get(t["target_name"], t["target_name"])
        for s in t["sources"]:
            c = s.endswith((".c", ".S"))
            r.append({"n": s, "kind": "CC" if c else "CXX", "cpp": not c, "on": on, "own": ["-Qown"], "lang": ["-Qc"] if c else ["-Qx"]})
        cpp = t["target_name"] in ("ex",) or not any(s.endswith(".c") for s in t["sources"])
        r.append({"n": n, "kind": "AR" if t["type"] == "static_library" else "LINK", "cpp": cpp, "on": on, "own": [], "lang": ["-Wl,-Qlink"]})
        if t["type"] in ("shared_library", "loadable_module"):
            r += [{"n": n, "kind": k, "cpp": False, "on": on, "own": [], "lang": []} for k in ("NM", "READELF")]
    return r


STEPS = steps()


def case(r, i):
    """settings: name -> words; every choice among those of one compiler comes up, the others vary along"""
    gen, cross = ("make", "ninja")[i % 2], r.random() < 0.6
    g, b, m = {}, {}, {}
    p = r.choice([0.15, 0.35, 0.5, 0.7])
    for t in TOOLS:
        for k in (t, t + "_target", t + "_host"):
            if r.random() < p and not (k in CROSS and not cross):
                g[k] = (["g.wrapper"] if r.random() < 0.2 else []) + ["g-" + k]
        if r.random() < p and t in ("CC", "CXX", "LINK", "AR"):
            b[t] = (["b.wrapper"] if r.random() < 0.2 else []) + ["b-" + t]
        for k in (t, t + ".host"):
            if r.random() < p:
                m[k] = ["m-" + k]
            if t in ("CC", "CXX", "LINK") and r.random() < p / 2:
                m[k + "_wrapper"] = ["m-" + k + "_wrapper"]
        if t in ("CC", "CXX", "LINK") and r.random() < 0.1:
            g[t + "_wrapper"] = ["g-" + t + "_wrapper"]
    for k in ("LD", "LDXX", "LD.host", "LDXX.host"):
        if r.random() < p / 2:
            m[k] = ["m-" + k]
    if cross and r.random() < 0.3:
        g["GYP_CROSSCOMPILE"] = ["1"]
    for e, n in ((g, "g"), (b, "b")):
        for k in FLAGS + [x + "_host" for x in FLAGS]:
            if r.random() < p:
                e[k] = [f"-Q{n}{k}{j}" for j in range(r.choice([1, 1, 2]))]
    if r.random() < 0.4 and "GYP_CROSSCOMPILE" not in g:         # the same environment throughout, as in node-gyp rebuild
        b = dict(g)
    return {"gen": gen, "g": g, "b": b, "m": m, "style": "plain" if r.random() < 0.7 else "node", "rel": r.random() < 0.5, "bymake": gen == "make" and r.random() < 0.15}


def make_bin(c):
    d = os.path.join(c.scratch, "tools")
    os.makedirs(d)
    exe = os.path.join(d, "stand")
    p = subprocess.run(["gcc", "-O1", "-w", "-o", exe, os.path.join(VERIF, "harness", "toolstand.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("stand-in does not compile\n" + p.stdout)
    names = ["cc", "gcc", "g++", "c++", "ar", "nm", "readelf", "g.wrapper", "b.wrapper"]
    for t in TOOLS:
        names += [f"{x}-{t}{s}{w}" for x in "gbm" for s in ("", "_target", "_host", ".host") for w in ("", "_wrapper")]
    names += ["m-LD", "m-LDXX", "m-LD.host", "m-LDXX.host"]
    for n in names:
        os.link(exe, os.path.join(d, n))
    return d


def play(c, w, bind, base, n):
    d = os.path.join(base, str(n))
    os.makedirs(d)
    os.symlink(bind, os.path.join(d, "tools"))
    for t in TARGETS:
        for s in t["sources"]:
            open(os.path.join(d, s), "w").close()
    where = "tools" if w["rel"] and w["style"] == "plain" else bind
    order = sorted(w["m"])
    body = {"make_global_settings": [[k, " ".join(os.path.join(where, x) for x in w["m"][k])] for k in order],
            "target_defaults": {"cflags": ["-Qown"], "cflags_c": ["-Qc"], "cflags_cc": ["-Qx"], "ldflags": ["-Wl,-Qlink"]}, "targets": TARGETS}
    with open(os.path.join(d, "t.gyp"), "w") as f:
        f.write(repr(body))
    text = lambda k, v: " ".join(v) if "FLAGS" in k or k == "GYP_CROSSCOMPILE" else " ".join(os.path.join(bind, x) for x in v)  # noqa: E731
    clean = {k: v for k, v in os.environ.items() if not k.startswith(TOOLS) and not k.startswith("GYP_") and not k.lower().endswith("_wrapper") and "FLAGS" not in k and k not in ("LD", "BUILDTYPE", "V")}
    clean.update(PATH=bind + ":" + clean.get("PATH", ""), HOME=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    ge = dict(clean, **{k: text(k, v) for k, v in w["g"].items()})
    p = subprocess.run([sys.executable, os.path.join(REPO, "gyp", "gyp_main.py")] + buildlib.gyp_argv(w["gen"], w["style"], ["t.gyp"]), cwd=d, env=ge, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log = os.path.join(base, f"{n}.log")
    rc, out = 0, p.stdout
    if p.returncode == 0:
        be, args = dict(clean, VLOG=log), []
        for k, v in w["b"].items():
            if w["bymake"] and k in ("CC", "CXX", "LINK"):
                args.append(f"{k}={text(k, v)}")
            else:
                be[k] = text(k, v)
        q = subprocess.run(buildlib.build_cmd(w["gen"], w["style"], "Default", 2) + args, cwd=d, env=be, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        rc, out = q.returncode, q.stdout
    ran = [event(x) for x in open(log)] if os.path.exists(log) else []
    shutil.rmtree(d, ignore_errors=True)
    w["out"] = out[-1500:]
    lst = lambda e: [{"k": k, "v": v} for k, v in sorted(e.items())]  # noqa: E731
    return {"gen": w["gen"], "g": lst(w["g"]), "b": lst(w["b"]), "m": lst(w["m"]), "steps": STEPS, "rcgyp": p.returncode, "rc": rc, "ran": ran}


def event(line):
    x = [buildlib.unhex(a) for a in line.split()]
    words, a = x[0].split(" "), x[1:]
    base = os.path.basename
    host = lambda l: "host" if any("obj.host" in y or "lib/host/" in y for y in l) else "target"  # noqa: E731
    flags = [y for y in a if y.startswith(("-Q", "-Wl,-Q"))]
    if "-c" in a:
        src = [y for y in a if y.endswith((".c", ".cc", ".cpp", ".cxx", ".S")) and not y.startswith("-")][0]
        return {"n": base(src), "kind": "CC" if src.endswith((".c", ".S")) else "CXX", "ts": host(a), "words": words, "flags": flags}
    if "-o" in a:
        return {"n": base(a[a.index("-o") + 1]), "kind": "LINK", "ts": host(a), "words": words, "flags": flags}
    if a and a[0].startswith(("crs", "rcs")):
        return {"n": base(a[1]), "kind": "AR", "ts": host(a), "words": words, "flags": flags}
    return {"n": base(a[-1]) if a else "", "kind": "READELF" if a[:1] == ["-d"] else "NM", "ts": host(a), "words": words, "flags": flags}


def g16(c):
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Tool = "%s"\n'
    good = "".join(f"INVARIANT {x}\n" for x in ("One", "EnvWins", "Particular", "NinjaFixed")) + "PROPERTY Local\n"
    for t in ("CC", "CXX", "AR"):
        c.model("tools", "ToolModel", cfg % t + good, f"every way to name {t} in the environments and the project")
    c.model("tools", "ToolModel", cfg % "CC" + "INVARIANT NeverHost\n", "control: the host's compiler may be another", expect_error="NeverHost is violated")
    bind = make_bin(c)
    base = tempfile.mkdtemp(prefix="t-", dir=c.scratch)
    cases = [case(c.rng, i) for i in range(c.pick(700, 6000))]
    recs = pmap(lambda x: play(c, x[1], bind, base, x[0]), list(enumerate(cases)))
    for w in cases:
        c.count(w["gen"])
        c.count("cross", int(any(k in w["g"] for k in CROSS)))
    c.count("runs", sum(len(x["ran"]) for x in recs))
    for i, cl in sorted(c.judge("tools", "ToolTrace", recs).items()):
        c.violation(f"tools {i} {cases[i]['gen']}", dict(cases[i], ran=recs[i]["ran"]), cl, key=cl[0])
    c.sample({k: recs[0][k] for k in ("gen", "g", "b", "m")} | {"ran": recs[0]["ran"][:3]})


if __name__ == "__main__":
    run_check(g16, "G16")
