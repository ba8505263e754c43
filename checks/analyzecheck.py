"""G13: the change analysis, judged by specs/analyze/AnalyzeTrace.tla."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check, node
import gyplib, gen_analyze


def run(c, worlds):
    base = tempfile.mkdtemp(prefix="an-", dir=c.scratch)
    jobs = []
    for i, w in enumerate(worlds):
        d = os.path.join(base, str(i), "w")
        os.makedirs(d)
        w.write(d)
        q = os.path.join(base, str(i), "question.json")
        if w.cfile != "missing":
            text = {"nojson": "{files", "nodict": "[1]"}.get(w.cfile) or json.dumps({"files": w.cf, "test_targets": w.tt, "additional_compile_targets": w.ac})
            with open(q, "w") as f:
                f.write(text)
        jobs.append({"dir": d, "argv": w.argv(os.path.join(base, str(i), "answer.json")), "log": os.path.join(base, str(i), "log"),
                     "home": os.path.join(base, str(i)), "timeout": 30})
    rcs = gyplib.run_gyp_jobs(c, jobs, hashseed=str(c.rng.randrange(1000)))
    recs = []
    for i, (w, rc) in enumerate(zip(worlds, rcs)):
        res = {"error": False, "status": "", "tt": [], "ct": [], "inv": []}
        out = os.path.join(base, str(i), "answer.json")
        ok = rc == 0 and os.path.exists(out)
        if ok:
            with open(out) as f:
                a = json.load(f)
            res = {"error": "error" in a, "status": str(a.get("status", "")), "tt": a.get("test_targets", []), "ct": a.get("compile_targets", []),
                   "inv": a.get("invalid_targets", [])}
        r = w.record({"order": []})
        r.pop("obs")
        r.update(obs={"ok": ok, "hang": rc in ("hang", "skipped")}, cfile=w.cfile, cf=w.cf, tt=w.tt, ac=w.ac, res=res)
        recs.append(r)
    shutil.rmtree(base, ignore_errors=True)
    return recs


def g13(c):
    worlds = list(gen_analyze.small_worlds()) + [gen_analyze.analyze_world(c.rng) for _ in range(c.pick(1500, 12000))]
    recs = run(c, worlds)
    for r in recs:
        c.count("answers")
        c.count("answer:" + ("error" if r["res"]["error"] else r["res"]["status"] if r["obs"]["ok"] else "refused world"))
    c.sample({"files": worlds[-1].files, "changed": worlds[-1].cf, "asked": [worlds[-1].tt, worlds[-1].ac], "answer": recs[-1]["res"]})
    for i, cl in sorted(c.judge("analyze", "AnalyzeTrace", recs).items()):
        w = worlds[i]
        c.violation("analysis " + w.tag, {"files": w.files, "roots": w.roots, "incl": w.incl, "changed": w.cf, "tt": w.tt, "ac": w.ac,
                    "res": recs[i]["res"]}, cl, key=w.tag + ":" + cl[0])


if __name__ == "__main__":
    run_check(g13, "G13")
