"""Checks of what generated makefiles and ninja files do (G09, G11, G12): recorded builds judged by specs/build."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import CheckError, run_check, pmap, node, digest
import gyplib, gen_build, buildlib, hist

BOTH = ("make", "ninja")


def generate(c, jobs, bind, hashseed="0"):
    """jobs: dicts with P, gen, style; adds dir and rcgyp"""
    base = tempfile.mkdtemp(prefix="b-", dir=c.scratch)
    gj = []
    for i, j in enumerate(jobs):
        j["base"] = os.path.join(base, str(i))
        j["dir"] = os.path.join(j["base"], "w")
        os.makedirs(j["dir"])
        buildlib.write_project(j["P"], j["dir"])
        gj.append({"dir": j["dir"], "argv": buildlib.gyp_argv(j["gen"], j["style"], j["P"].roots, extra=j.get("argv", ())),
                   "log": os.path.join(j["base"], "gyp.log"), "home": j["base"], "env": buildlib.gyp_env(bind, link=j.get("link", True))})
    for multi in (False, True):
        ix = [i for i, j in enumerate(jobs) if bool(j.get("multi")) == multi]
        for i, rc in zip(ix, gyplib.run_gyp_jobs(c, [gj[i] for i in ix], hashseed=hashseed, env={"GYP_CROSSCOMPILE": "1"} if multi else None)):
            jobs[i]["rcgyp"] = rc if isinstance(rc, int) else 99
    return base


def world_record(P, multi=False):
    w = gyplib.World(P.files, P.roots, multi=multi, adjust=True)
    rec = w.record({"order": []})
    rec["vars"] = node(buildlib.TOKENS)
    del rec["obs"]
    return rec


def build_once(c, j, bind):
    log = os.path.join(j["base"], "build.log")
    rc, out = (0, "") if j["rcgyp"] else buildlib.run_build(j["dir"], j["gen"], j["style"], j["cfg"], bind, log, jobs=j.get("jobs", 4), jit=j.get("jit", ""), args=[j["want"]] if j.get("want") else [], bare=j.get("bare", False))
    j["rc"], j["out"] = rc, out[-1500:]
    cn = buildlib.Canon(j["dir"], j["gen"], j["style"], j["cfg"])
    rec = world_record(j["P"], j.get("multi", False))
    rec.update(cfg=j["cfg"], ask=j.get("want", ""), bare=j.get("bare", False), multi=j.get("multi", False), gen=j["gen"], rc=rc, rcgyp=j["rcgyp"],
               ev=[cn.event(x) for x in buildlib.read_log(log) if x["role"] != "ln"], tree=buildlib.tree(cn, j["dir"], None))
    return rec


def g11(c):
    r = c.rng
    bind = buildlib.make_bin(c)
    jobs = []
    for i in range(c.pick(500, 4000)):
        multi = r.random() < 0.3
        gens = BOTH if r.random() < 0.8 else ("ninja",)
        P = gen_build.build_project(r, multi=True, cross=multi, reldirs=len(gens) == 1)       # make: known finding
        gen_build.copy_dirs(r, P)
        cfg = r.choice(P.configs)
        for gen in gens:
            bare = gen == "make" and r.random() < 0.3
            want = r.choice(P.named or [""]) if r.random() < 0.15 else ""
            jobs.append({"P": P, "gen": gen, "style": r.choice(["plain", "node"]), "cfg": P.default if bare else cfg, "multi": multi, "bare": bare, "want": want, "link": r.random() < 0.5, "tag": f"p{i}-{gen}"})
    for gen in BOTH:
        P = gen_build.Project()
        P.files = {"t.gyp": {"targets": [{"target_name": "top", "type": "none", "dependencies": ["a/s.gyp:ex"]}]},
                   "a/s.gyp": {"targets": [{"target_name": "ex", "type": "executable", "sources": ["m.c"], "library_dirs": ["lib"]}]}}
        P.extra, P.roots, P.configs, P.dirs = {"a/m.c": "// m\n"}, ["t.gyp"], ["Default"], ["", "a"]
        jobs.append({"P": P, "gen": gen, "style": "plain", "cfg": "Default", "multi": False, "bare": False, "want": "", "tag": "relative-library-dirs-" + gen})
    generate(c, jobs, bind)
    recs = pmap(lambda j: build_once(c, j, bind), jobs)
    c.count("builds", len(recs))
    c.count("cross", sum(1 for j in jobs if j["multi"]))
    c.count("runs", sum(len(x["ev"]) for x in recs))
    bad = c.judge("build", "BuildTrace", recs)
    for i, cl in sorted(bad.items()):
        j = jobs[i]
        c.violation("build " + j["tag"], {"files": j["P"].files, "extra": j["P"].extra, "gen": j["gen"], "style": j["style"], "cfg": j["cfg"], "multi": j["multi"], "bare": j["bare"], "want": j["want"], "out": j["out"], "ev": recs[i]["ev"]}, cl, key=j["tag"] + ":" + cl[0])
    c.sample({"files": jobs[0]["P"].files, "ev": recs[0]["ev"][:4]})


def order(c, r, bind):
    """parallel builds from scratch, with steps of random length: nothing starts before what it depends on"""
    jobs = []
    for i in range(c.pick(150, 1500)):
        P = gen_build.build_project(r, odd=False, multi=True)
        cfg = r.choice(P.configs)
        for gen in BOTH:
            jobs.append({"P": P, "gen": gen, "style": r.choice(["plain", "node"]), "cfg": cfg, "tag": f"o{i}-{gen}", "jobs": r.choice([3, 8, 16]), "jit": str(r.randint(1, 999))})
    generate(c, jobs, bind)
    recs = pmap(lambda j: build_once(c, j, bind), jobs)
    c.count("parallel-builds", len(recs))
    bad = c.judge("build", "OrderTrace", recs)
    for i, cl in sorted(bad.items()):
        j = jobs[i]
        c.violation("order " + j["tag"], {"files": j["P"].files, "extra": j["P"].extra, "gen": j["gen"], "style": j["style"], "cfg": j["cfg"], "jobs": j["jobs"], "jit": j["jit"], "out": j["out"], "ev": recs[i]["ev"]}, cl, key=j["tag"] + ":" + cl[0])


def g12(c):
    import random
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Sources = {\"a\", \"b\"}\n Steps = {%s}\n MaxEdits = %d\n MaxBuilds = %d\n SloppyOrder = %s\n NoCommand = %s\n" \
          + "".join(f"INVARIANT {x}\n" for x in ("Complete", "DoesOwed", "DoesAllowed", "OnceEach", "InOrder"))
    for steps, e, b in [("1, 2", 2, 2), ("1, 2, 3", 1, 2)] + ([("1, 2, 3", 2, 2), ("1, 2", 3, 3)] if c.thorough else []):
        c.model("build", "IncModel", cfg % (steps, e, b, "FALSE", "FALSE"), f"every graph on steps {steps} and 2 sources, {e} edits, {b} builds, any schedule and stops: a builder by time and command does what is owed and only what is allowed")
    c.model("build", "IncModel", cfg % ("1, 2", 2, 2, "TRUE", "FALSE"), "control: a builder that starts steps early", expect_error="is violated")
    c.model("build", "IncModel", cfg % ("1, 2", 2, 2, "FALSE", "TRUE"), "control: a builder that ignores commands", expect_error="is violated")
    r = c.rng
    bind = buildlib.make_bin(c)
    base = tempfile.mkdtemp(prefix="h-", dir=c.scratch)
    plays = []
    for i in range(c.pick(160, 1600)):
        P = gen_build.build_project(r, odd=r.random() < 0.4)
        gen = BOTH[i % 2]
        plays.append((random.Random(r.random()), P, gen, r.choice(["plain", "node"]), r.choice(P.configs), gen == "make" and r.random() < 0.4, bind, os.path.join(base, str(i)), c.pick(6, 10)))
    hs = pmap(hist.play, plays)
    for h in hs:
        if h.h is None:
            raise CheckError("history could not be played: " + h.story[-1])
        shutil.rmtree(h.base, ignore_errors=True)
    recs = [{"h": h.h} for h in hs]
    c.count("histories", len(recs))
    c.count("builds", sum(len(h.h) for h in hs))
    c.count("steps-redone", sum(len(b["ran"]) for h in hs for b in h.h[1:]))
    bad = c.judge("build", "BuildHistory", recs, per_shard_min=4)
    for i, cl in sorted(bad.items()):
        h = hs[i]
        c.violation(f"history {i} {h.gen}", {"gen": h.gen, "style": h.style, "cfg": h.cfg, "regen": h.regen, "files": h.P.files, "story": h.story, "h": h.h}, cl, key=f"{h.gen}:{cl[0]}")
    c.sample({"story": hs[0].story})
    order(c, r, bind)
    # short histories about one thing each
    fixed = [(n, gen, style) for n in hist.fixed_histories() for gen in BOTH for style in ("plain", "node")]
    hs = pmap(hist.play_fixed, [(n, gen, style, bind, os.path.join(base, f"{n}-{gen}-{style}")) for n, gen, style in fixed])
    bad = c.judge("build", "BuildHistory", [{"h": h.h} for h in hs], per_shard_min=4)
    for i, cl in sorted(bad.items()):
        n, gen, style = fixed[i]
        for x in cl:
            c.violation(f"history {n} {gen} {style}", {"files": hs[i].P.files, "story": hs[i].story, "h": hs[i].h}, [x], key=f"fixed {n} {gen}: {x}")
    c.count("fixed-histories", len(fixed))


if __name__ == "__main__":
    p = sys.argv[1]
    run_check(globals()[p.lower()], p)
