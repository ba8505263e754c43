"""Runs of gyp's front end: command lines, environments and configuration directories (G15)."""
import json, os, shutil, subprocess, tempfile
from vlib import VERIF, pmap
from gyplib import run_gyp_jobs

REC = """#!/usr/bin/python3
import json, os, sys
with open(%r, "a") as f:
    f.write(json.dumps({"argv": sys.argv[1:], "cwd": os.getcwd()}) + "\\n")
"""
VALUES = ["1", "0", "-3", "007", "+5", "1_0", " 7", "7 ", "", "a", "a b", "x=y", "a\"b", "it's", "$HOME", "$(V)", "a#b", "a;b", "*", "\\", "a\\b", "`id`", "&", "~", "a,b", "100%", "(x)", "{}", "!"]
NAMES = ["va", "vb", "vc", "v-d"]


def shq(r, s):
    """One argument in shell syntax, in one of its spellings."""
    x = r.random()
    if s and x < 0.4 and not set(s) & set(" \t\"'\\"):
        return s
    if x < 0.7 and "'" not in s:
        return "'" + s + "'"
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def pairs(r, n):
    return [r.choice(NAMES) + ("=" + r.choice(VALUES) if r.random() < 0.93 else "") for _ in range(r.randint(0, n))]


def case(r):
    """argv, environment and files of one run; paths are relative to the place @T@."""
    regen = r.random() < 0.5
    cwd = "@T@/top" if regen else r.choice(["@T@/top", "@T@/src/proj", "@T@/src/a/src/proj", "@T@/top/sub"])
    argv, env = [], {}

    def opt(short, long, v, glue=True):
        forms = ([[short + v], [short, v]] if short and v else []) + ([[long + "=" + v], [long, v]] if long else [])
        argv.append(r.choice(forms))
    for p in pairs(r, 3):
        opt("-D", None, p)
    for p in pairs(r, 2):
        opt("-G", None, "g" + p)
    if r.random() < 0.4:
        env["GYP_DEFINES"] = r.choice([" ", "  "]).join(shq(r, p) for p in pairs(r, 4)) + ("'" if r.random() < 0.04 else "")
    if r.random() < 0.3:
        env["GYP_GENERATOR_FLAGS"] = " ".join(shq(r, "g" + p) for p in pairs(r, 3))
    if r.random() < 0.4:
        opt(None, "--generator-output", r.choice(["out", "o/p", "./out", "build/../out"]))
    if r.random() < 0.25:
        env["GYP_GENERATOR_OUTPUT"] = r.choice(["envout", "e/o"])
    if r.random() < 0.25:
        opt(None, "--config-dir", r.choice(["cfg", "@T@/cfg2", "nosuch", "emptycfg", "~/alt", "~/.gyp"]))
    if r.random() < 0.25:
        env["GYP_CONFIG_DIR"] = r.choice(["cfg", "@T@/cfg2", "nosuch", "@T@/emptycfg", "~/alt", "~/alt"])
    for _ in range(r.choice([0, 0, 1, 2])):
        opt("-I", "--include", r.choice(["i1.gypi", "./i1.gypi", "@T@/i2.gypi", "i3$x.gypi", "i 4.gypi", "inc/i5.gypi"]))
    if regen or r.random() < 0.5:
        opt(None, "--depth", "." if regen else r.choice([".", "..", "@T@/top"]))
    if r.random() < 0.3:
        opt(None, "--toplevel-dir", "." if regen else r.choice([".", "..", "@T@"]))
    if r.random() < 0.2:
        opt("-S", "--suffix", r.choice([".x", "_s"]))
    if r.random() < 0.2:
        argv.append(["--check"])
    if r.random() < 0.3:
        argv.append(["--no-parallel"])
    if r.random() < 0.25:
        argv.append(["--ignore-environment"])
    if r.random() < 0.1:
        argv.append(["--no-circular-check"]) if not regen else None
    if r.random() < 0.1:
        opt("-d", "--debug", "nosuchmode")
    if r.random() < 0.75:
        for f in r.sample(["p.gyp", "q.gyp", "./p.gyp"] if r.random() < 0.3 else ["p.gyp", "q.gyp"], r.randint(1, 2)):
            argv.append([f])
    both = not any(a[0] in ("p.gyp", "q.gyp", "./p.gyp") for a in argv)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        opt("-R", "--root-target", r.choice([t for g, ts in (("p.gyp", ["t0", "t1"]), ("q.gyp", ["t2", "t3"])) if both or any(a[0][-5:] == g for a in argv) for t in ts]))
    fm = ["-f", "--format"]
    noenv = ["--ignore-environment"] in argv
    if regen or noenv or r.random() < 0.7:
        opt(fm[0], fm[1], "plug/fa.py")
        if not regen and r.random() < 0.2:
            opt(fm[0], fm[1], r.choice(["plug/fb.py", "plug/fa.py"]))
    else:
        env["GYP_GENERATORS"] = r.choice(["plug/fa.py", "plug/fa.py,plug/fb.py", "plug/fb.py plug/fa.py", "plug/fb.py"])
    if r.random() < 0.2:
        env.setdefault("GYP_GENERATORS", "plug/fb.py")
    r.shuffle(argv)
    return {"argv": [t for a in argv for t in a], "env": env, "cwd": cwd, "regen": regen, "gypname": r.choice(["abs", "abs", "up", "here", "dot"]), "touch": r.random(), "home": r.choice(["@T@/h1", "@T@/h1", "@T@/h2", "@T@/h3", "@T@/nohome"]),
            "later": r.choice([{}, {"GYP_DEFINES": "va=9 vq=1", "GYP_GENERATOR_FLAGS": "gva=9"}, {"GYP_GENERATOR_OUTPUT": "elsewhere", "GYP_CONFIG_DIR": "emptycfg"}])}


def layout(t):
    gyp = "{'targets': [{'target_name': 't0', 'type': 'none'}, {'target_name': 't1', 'type': 'none', 'dependencies': ['t0']}]}\n"
    dirs = ["cfg2", "emptycfg", "h1/.gyp", "h2", "h3/.gyp", "h1/alt", "h2/alt"]
    for c in ("top", "src/proj", "src/a/src/proj", "top/sub"):
        dirs += [c, c + "/cfg", c + "/emptycfg", c + "/inc", c + "/plug"]
    for d in dirs:
        os.makedirs(os.path.join(t, d), exist_ok=True)
    for c in ("top", "src/proj", "src/a/src/proj", "top/sub"):
        for g in ("p.gyp", "q.gyp"):
            put(t, f"{c}/{g}", gyp.replace("t0", "t0").replace("t1", "t1") if g == "p.gyp" else gyp.replace("t0", "t2").replace("t1", "t3"))
        for g in ("i1.gypi", "i3$x.gypi", "i 4.gypi", "inc/i5.gypi", "cfg/include.gypi"):
            put(t, f"{c}/{g}", "{}\n")
        for g in ("fa.py", "fb.py"):
            shutil.copy(os.path.join(VERIF, "harness", "frontgen.py"), os.path.join(t, c, "plug", g))
    for g in ("i2.gypi", "cfg2/include.gypi", "h1/.gyp/include.gypi", "h2/alt/include.gypi"):
        put(t, g, "{}\n")
    return dirs


def put(t, p, s):
    with open(os.path.join(t, p), "w") as f:
        f.write(s)


def run(chk, cases):
    base = tempfile.mkdtemp(prefix="front", dir=chk.scratch)
    assert "-" not in base.replace(chk.scratch, "")
    # the place must have no '-' and no 'src' in it: a format with '-' names a flavour
    place = tempfile.mkdtemp(prefix="vfront_", dir="/tmp")
    try:
        return run_in(chk, cases, place)
    finally:
        shutil.rmtree(place, ignore_errors=True)
        shutil.rmtree(base, ignore_errors=True)


def run_in(chk, cases, place):
    jobs, tops = [], []
    for n, c in enumerate(cases):
        t = os.path.join(place, str(n))
        dirs = layout(t)
        sub = lambda s: s.replace("@T@", t)
        c["t"] = t
        out = os.path.join(t, "rec")
        os.mkdir(out)
        env = dict({k: sub(v) for k, v in c["env"].items()}, FRONT_OUT=out)
        jobs.append({"dir": sub(c["cwd"]), "argv": [sub(a) for a in c["argv"]], "log": os.path.join(t, "log1"), "home": sub(c["home"]), "env": env, "timeout": 60})
        c["dirs"] = dirs
    rcs = run_gyp_jobs(chk, jobs)
    again, who = [], []
    for n, c in enumerate(cases):
        t = c["t"]
        gens = []
        for f in sorted(os.listdir(os.path.join(t, "rec"))):
            with open(os.path.join(t, "rec", f)) as h:
                gens += [json.loads(x) for x in h.read().splitlines()]
        c["obs"] = {"ok": rcs[n] == 0, "gens": gens, "rc": rcs[n]}
        c["rg"] = {"tried": False, "ran": False, "argv": [], "cwd": "", "env": [], "touched": ""}
        if c["regen"] and rcs[n] == 0:
            j = jobs[n]
            rec = os.path.join(t, "recorder.py")
            for x in ("recorder.py", "top/rec.py"):
                put(t, x, REC % os.path.join(t, "ran.json"))
                os.chmod(os.path.join(t, x), 0o755)
            rec = {"abs": rec, "up": "../recorder.py", "here": "rec.py", "dot": "./rec.py"}[c["gypname"]]
            argv = []
            for a in j["argv"]:
                argv.append(a.replace("plug/fa.py", "make"))
            again.append(dict(j, argv=argv, argv0=rec, log=os.path.join(t, "log2")))
            who.append(n)
    rcs2 = run_gyp_jobs(chk, again)

    def regen(k):
        n, c = who[k], cases[who[k]]
        t = c["t"]
        c["rg"]["tried"] = True
        c["rg"]["rc"] = rcs2[k]
        cwd = c["cwd"].replace("@T@", t)
        mks = []
        for d, _, fs in os.walk(cwd):
            mks += [os.path.join(d, f) for f in fs if f.startswith("Makefile")]
        if len(mks) != 1:
            c["rg"]["makefiles"] = mks
            return
        # one file becomes newer than the makefile: one that the run had read, or one that it had not
        g = c["obs"]["gens"][0]
        read = sorted(set(g["files"]) | {x for l in g["incs"] for x in l})
        cand = read if c["touch"] < 0.8 else [x for x in ("p.gyp", "q.gyp", "i1.gypi", "inc/i5.gypi", "cfg/include.gypi", os.path.join(t, "i2.gypi"), os.path.join(t, "cfg2/include.gypi")) if x not in read]
        touched = cand[int(c["touch"] * 1000) % len(cand)] if cand else "p.gyp"
        future = os.path.getmtime(mks[0]) + 5
        os.utime(os.path.join(cwd, touched), (future, future))
        c["rg"]["touched"] = touched
        env = {k2: v for k2, v in os.environ.items() if not k2.startswith("GYP_") and not k2.startswith("MAKE")}
        env.update(c["later"], HOME=c["home"].replace("@T@", t))
        d, m = os.path.split(mks[0])
        p = subprocess.run(["make", "-f", m, m], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        c["rg"]["log"] = p.stdout[-600:]
        if os.path.exists(os.path.join(t, "ran.json")):
            with open(os.path.join(t, "ran.json")) as h:
                x = json.loads(h.read().splitlines()[0])
            c["rg"].update(ran=True, argv=x["argv"], cwd=x["cwd"], env=[{"k": a, "v": b} for a, b in c["later"].items()])
    pmap(regen, list(range(len(who))))
    return [record(c) for c in cases]


def record(c):
    t = c["t"]

    def back(x):
        if isinstance(x, str):
            return x.replace(t, "/T")
        if isinstance(x, list):
            return [back(y) for y in x]
        if isinstance(x, dict):
            return {k: back(v) for k, v in x.items()}
        return x
    cwd = c["cwd"].replace("@T@", "/T")
    has = ["/T/cfg2", "/T/h1/.gyp", "/T/h2/alt", "cfg"]
    return back({"argv": [a.replace("@T@", t) for a in c["argv"]], "env": [{"k": k, "v": v.replace("@T@", t)} for k, v in c["env"].items()],
                 "home": c["home"].replace("@T@", t), "dirs": ["/T/" + d for d in c["dirs"]] + ["cfg", "emptycfg"], "hasinc": has, "gyps": ["p.gyp", "q.gyp"], "holds": [["t0", "t1"], ["t2", "t3"]],
                 "cwd": cwd, "obs": c["obs"], "regen": c["rg"]})
