"""Checks of the gyp loading properties (G01-G07, G10): real runs judged by specs/gyp/GypTrace.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check
import frontlib, gyplib, gen_forms, gen_graph, gen_values, parlib


def judge_worlds(c, worlds, view, label):
    worlds = list(worlds)
    obs = gyplib.run_worlds(c, worlds)
    recs = [w.record(o) for w, o in zip(worlds, obs)]
    c.count(label, len(recs))
    c.count(label + "_loaded", sum(1 for o in obs if o["ok"]))
    for r, o in zip(recs, obs):
        if o["ok"] and len(o["order"]) > 2:
            c.sample({"files": worlds[recs.index(r)].files, "order": o["order"]}, 2)
            break
    bad = c.judge("gyp", "GypTrace", recs, extra_env={"VERIF_VIEW": view})
    for i, cl in sorted(bad.items()):
        w = worlds[i]
        c.violation(f"{label} {w.tag}", {"files": w.files, "argv": w.argv("OUT"), "extra": w.extra, "obs": {k: obs[i][k] for k in ("ok", "order", "err", "hang")}},
                    cl, key=f"{label}:{w.tag}:{cl[0]}")
    return recs, bad


def g01(c):
    r = c.rng
    judge_worlds(c, gen_graph.all_small_graphs(3), "graph", "graphs3")
    for circ in (True, False):
        judge_worlds(c, gen_graph.all_file_graphs(3, circ), "graph", "filegraphs3")
    judge_worlds(c, [gen_graph.graph_world(r) for _ in range(c.pick(700, 6000))], "graph", "random")


def g02(c):
    r = c.rng
    judge_worlds(c, [gen_graph.settings_world(r) for _ in range(c.pick(700, 6000))], "full", "settings")


def g03(c):
    r = c.rng
    judge_worlds(c, [gen_graph.settings_world(r, adjust=True) for _ in range(c.pick(900, 8000))], "links", "links")


def g04(c):
    judge_worlds(c, [gen_values.merge_world(c.rng) for _ in range(c.pick(900, 8000))], "full", "merge")


def g05(c):
    judge_worlds(c, [gen_values.values_world(c.rng) for _ in range(c.pick(1200, 10000))], "full", "values")


def g06(c):
    judge_worlds(c, [gen_values.filter_world(c.rng) for _ in range(c.pick(1200, 10000))], "full", "filters")


def g07(c):
    judge_worlds(c, [gen_values.config_world(c.rng) for _ in range(c.pick(900, 8000))], "full", "configs")


def g10(c):
    judge_worlds(c, [gen_values.include_world(c.rng) for _ in range(c.pick(900, 8000))], "full", "includes")


def g14(c):
    judge_worlds(c, [gen_forms.forms_world(c.rng) for _ in range(c.pick(1500, 15000))], "full", "forms")


def g15(c):
    c.model("front", "FrontModel", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n" % c.pick(3, 4) + "".join(
        "INVARIANT " + x + "\n" for x in ("SameWhateverLater", "RegenSettles", "TypedWins", "EnvFillsIn", "Isolated", "OneValueEach", "OutputPrecedence")),
        "every command line of %d words from a vocabulary in five environments" % c.pick(3, 4))
    cases = [frontlib.case(c.rng) for _ in range(c.pick(900, 9000))]
    recs = frontlib.run(c, cases)
    c.count("runs", len(recs))
    c.count("accepted", sum(x["obs"]["ok"] for x in recs))
    c.count("regenerated", sum(x["regen"]["ran"] for x in recs))
    bad = c.judge("front", "FrontTrace", recs)
    for i, cl in sorted(bad.items()):
        c.violation("front end", recs[i], cl, key="front:" + cl[0])
    c.sample(recs[0])


def g08(c):
    import itertools
    r = c.rng
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT File = {%s}\nINVARIANT OnceEach\nINVARIANT OnlyNeeded\nINVARIANT Complete\nINVARIANT Honest\nINVARIANT NothingLost\nPROPERTY Ends\n"
    c.model("gyp", "ParLoad", cfg % "1, 2, 3", "every file graph, failing subset, root set and completion order on 3 files")
    jobs = []
    kinds = ["missing", "undefined", "syntax", "exit", "command"]
    pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
    for bits in range(64):
        edges = [p for k, p in enumerate(pairs) if bits >> k & 1]
        for bad in ([()] + ([(r.randrange(3),)] if not c.thorough else [(0,), (1,), (2,), (0, 2)])):
            roots = [0] if len(edges) > 2 and r.random() < 0.6 else ([0, 1, 2] if r.random() < 0.5 else [0, r.choice([1, 2])])
            jobs.append((parlib.file_world(3, edges, set(bad), roots, [r.choice(kinds) for _ in range(3)]), {"explore": 12, "workers": r.choice([1, 2, 3])}))
    for _ in range(c.pick(40, 300)):
        n = r.choice([4, 5, 6])
        edges = [(a, b) for a in range(n) for b in range(n) if a != b and r.random() < 0.35]
        bad = {r.randrange(n)} if r.random() < 0.35 else set()
        jobs.append((parlib.file_world(n, edges, bad, sorted(r.sample(range(n), r.randint(1, 2))), [r.choice(kinds) for _ in range(n)]),
                     {"explore": c.pick(10, 40), "workers": r.choice([1, 2, 4])}))
    for _ in range(c.pick(200, 2000)):
        g = r.choice([gen_values.include_world, gen_values.include_world, gen_graph.graph_world, gen_values.values_world])
        w = g(r)
        w.parallel = True
        jobs.append((w, {"choices": [r.randint(0, 4) for _ in range(8)], "workers": r.choice([1, 2, 3])}))
    for _ in range(c.pick(24, 200)):        # the real worker pool
        w = gen_values.include_world(r) if r.random() < 0.5 else parlib.file_world(4, [(0, 1), (0, 2), (1, 3), (2, 3)], {r.randrange(4)} if r.random() < 0.5 else set(), [0], [r.choice(kinds) for _ in range(4)])
        w.parallel = True
        jobs.append((w, {"fake": False}))
    res = parlib.run(c, jobs)
    seqw = [gyplib.World(**{**{k: getattr(w, k) for k in ("files", "roots", "dvars", "incl", "cmds", "multi", "adjust", "circ", "want", "extra")}}) for w, _ in jobs]
    seq = gyplib.run_worlds(c, seqw)
    recs, who = [], []
    for k, ((w, o), rs) in enumerate(zip(jobs, res)):
        for x, ob in rs:
            rec = w.record(ob)
            rec["ev"] = x["events"]
            rec["seqorder"] = seq[k]["order"] if seq[k]["ok"] else ob["order"]
            recs.append(rec)
            who.append((w, o, x, ob))
            c.count("real-pool" if not o.get("fake", True) else "schedules")
            c.count("failing" if not ob["ok"] else "loaded")
    bad = c.judge("gyp", "ParTrace", recs)
    for i, cl in sorted(bad.items()):
        w, o, x, ob = who[i]
        c.violation("parallel load " + w.tag, {"files": w.files, "extra": w.extra, "roots": w.roots, "choices": x["choices"], "workers": o.get("workers"),
                    "events": x["events"], "rc": x["rc"], "err": ob["err"]}, cl, key=w.tag + ":" + cl[0])
    c.sample({"tag": who[5][0].tag, "events": who[5][2]["events"]})


if __name__ == "__main__":
    p = sys.argv[1]
    run_check(globals()[p.lower()], p)
