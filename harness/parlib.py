"""Parallel loads under chosen completion orders (G08)."""
import json, os, shutil, subprocess, sys, tempfile
from vlib import VERIF, REPO, NPROC, CheckError, pmap
from gyplib import World, run_worlds, observe
import gen_graph, gen_values

DIRS = ["", "d/", "d/e/", "f/"]


def file_world(n, edges, bad, roots, kinds):
    names = [DIRS[i % 4] + f"f{i}.gyp" for i in range(n)]
    files, extra = {}, {}
    for i in range(n):
        deps = [gen_graph.rel(names[b], names[i]) + f":t{b}" for a, b in edges if a == i]
        t = {"target_name": f"t{i}", "type": "none", "defines": [f"D{i}", ">(DEPTH)", "<(DEPTH)"]}
        if deps:
            t["dependencies"] = deps
        files[names[i]] = {"targets": [t]}
        if i in bad:
            k = kinds[i]
            if k == "missing":
                del files[names[i]]
            elif k == "undefined":
                files[names[i]]["variables"] = {"x": "<(nosuch)"}
            elif k == "syntax":
                files[names[i]] = "not a dictionary"
                extra[names[i]] = "{ 'targets': ["
            elif k == "exit":
                files[names[i]]["variables"] = {"x": "<!pymod_do_main(quitter)"}
                extra[os.path.join(os.path.dirname(names[i]), "quitter.py")] = "import sys\ndef DoMain(a):\n    sys.exit(0)\n"
            elif k == "command":
                files[names[i]]["variables"] = {"x": "<!(exit 3)"}
    return World(files, [names[i] for i in roots], circ=False, extra=extra, parallel=True, tag=f"par{n}:{edges}:{sorted(bad)}:{roots}")


def run(chk, jobs):
    """jobs: (world, dict(explore|choices, workers, fake)) -> list of lists of (events, branch, observation)."""
    base = tempfile.mkdtemp(prefix="par-", dir=chk.scratch)
    js = []
    for i, (w, o) in enumerate(jobs):
        d = os.path.join(base, str(i), "w")
        os.makedirs(d)
        w.write(d)
        j = {"dir": d, "argv": w.argv("@OUT@"), "log": os.path.join(base, str(i), "log"), "home": os.path.join(base, str(i)),
             "out": os.path.join(base, str(i), "out"), "workers": 2, "fake": True, "choices": [], "explore": 0, "timeout": 12}
        j.update(o)
        if not j["explore"]:
            j["argv"] = w.argv(j["out"])
        js.append(j)
    parts = [list(range(i, len(js), NPROC)) for i in range(NPROC)]

    def one(part):
        if not part:
            return []
        a = tempfile.mktemp(prefix="pj-", dir=chk.scratch)
        with open(a, "w") as f:
            json.dump([js[i] for i in part], f)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "parworker.py"), a, a + ".out"], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(a + ".out"):
            raise CheckError("parallel worker failed:\n" + p.stdout[-3000:])
        with open(a + ".out") as f:
            return json.load(f)
    res = [None] * len(js)
    for part, rs in zip(parts, pmap(one, parts)):
        for i, x in zip(part, rs):
            xs = x if isinstance(x, list) else [dict(x, out=js[i]["out"], choices=js[i]["choices"])]
            res[i] = [(y, observe(y["rc"], y["out"], js[i]["log"], jobs[i][0], js[i]["dir"])) for y in xs]
    shutil.rmtree(base, ignore_errors=True)
    return res
