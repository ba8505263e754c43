"""Writing gyp worlds to disk, running gyp on them, and turning the result into trace records."""
import json, os, subprocess, sys, tempfile, shutil
from vlib import VERIF, REPO, NPROC, CheckError, node, pmap
VGEN = os.path.join(VERIF, "harness", "vgen.py")
DEFAULT_VARS = {
    "OS": "linux", "CONFIGURATION_NAME": "$(BUILDTYPE)", "STATIC_LIB_PREFIX": "lib", "STATIC_LIB_SUFFIX": ".a",
    "SHARED_LIB_PREFIX": "lib", "SHARED_LIB_SUFFIX": ".so", "EXECUTABLE_PREFIX": "", "EXECUTABLE_SUFFIX": "",
    "INTERMEDIATE_DIR": "$(obj)", "PRODUCT_DIR": "$(out)",
}


def run_gyp_jobs(chk, jobs, workers=NPROC, hashseed="0", env=None):
    """jobs: list of dicts for gypworker; returns exit codes (or 'hang')."""
    if not jobs:
        return []
    workers = max(1, min(workers, len(jobs)))
    parts = [list(range(i, len(jobs), workers)) for i in range(workers)]

    def one(part):
        a = tempfile.mktemp(prefix="jobs-", dir=chk.scratch)
        b = a + ".out"
        with open(a, "w") as f:
            json.dump([jobs[i] for i in part], f)
        e = dict(os.environ, **(env or {}))
        envv = dict(e, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "gypworker.py"), a, b],
                           env=envv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(b):
            return None, p.stdout
        with open(b) as f:
            r = json.load(f)
        os.unlink(a)
        os.unlink(b)
        return r, ""
    res = [None] * len(jobs)
    for part, (r, out) in zip(parts, pmap(one, parts, workers)):
        if r is None:
            raise CheckError("gyp worker could not start:\n" + out[-2000:])
        for i, x in zip(part, r):
            res[i] = x
    return res


class World:
    """One gyp run: files (path -> python value), command line, and what is known about the outside."""
    def __init__(self, files, roots, dvars=None, incl=(), cmds=(), multi=False, adjust=False, sorted_=False,
                 circ=True, want=(), parallel=False, check=False, tag="", extra=None):
        self.files, self.roots, self.dvars, self.incl, self.cmds = files, list(roots), dict(dvars or {}), list(incl), list(cmds)
        self.multi, self.adjust, self.sorted, self.circ, self.want = multi, adjust, sorted_, circ, list(want)
        self.parallel, self.check, self.tag = parallel, check, tag
        self.extra = extra or {}
        self.dup = {}                           # file -> a key that its text gives twice (the first one does not count)
        self.flists, self.flout = [], False     # file lists: [directory, name]; whether they go to an output directory

    def write(self, d):
        for p, x in self.files.items():
            f = os.path.join(d, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h:
                text = repr(x)
                if p in self.dup:
                    k = repr(self.dup[p])
                    assert "{" + k + ": " in text
                    text = text.replace("{" + k + ": ", "{" + k + ": 'shadowed', " + k + ": ", 1)
                h.write("# generated\n" + text + "\n")
        for p, text in self.extra.items():
            f = os.path.join(d, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h:
                h.write(text)
        for c in self.cmds:
            f = os.path.join(d, c["d"], c["file"])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h:
                h.write(c["script"])

    def argv(self, out):
        a = ["-f", VGEN, "--depth=.", "--toplevel-dir=.", "--ignore-environment",
             "-G", "vgen_out=" + out, "-G", f"vgen_multi={int(self.multi)}", "-G", f"vgen_adjust={int(self.adjust)}",
             "-G", f"vgen_sorted={int(self.sorted)}"]
        if self.flout:
            a += ["-G", "vgen_flout=1"]
        if not self.parallel:
            a.append("--no-parallel")
        if not self.circ:
            a.append("--no-circular-check")
        if self.check:
            a.append("--check")
        for i in self.incl:
            a += ["-I", i]
        for k, v in self.dvars.items():
            a.append(f"-D{k}={v}")
        for w in self.want:
            a += ["-R", w]
        return a + self.roots

    def spec_vars(self):
        v = dict(DEFAULT_VARS)
        for k, x in self.dvars.items():
            try:
                v[k] = int(x)
            except ValueError:
                v[k] = x
        return v

    def record(self, obs):
        return {"files": [{"p": p, "n": node(x), "dup": p in self.dup} for p, x in self.files.items()],
                "roots": self.roots, "incl": self.incl, "vars": node(self.spec_vars()),
                "cmds": [{"k": c.get("k", "sh"), "c": c["c"], "d": c["d"], "out": c["out"], "code": c["code"], "mod": c.get("mod", "")} for c in self.cmds],
                "multi": self.multi, "adjust": self.adjust, "sorted": self.sorted, "circ": self.circ,
                "want": self.want, "check": self.check, "order": obs["order"], "obs": obs, "tag": self.tag}


MARKS = dict(zip("<>^()[]{}\"'\\+,: $`=!/", "lgcoepqrstuvwxyzabdfh"))


def filelist_subst(w, d):
    """Where a file list is used, its name and contents are put (GypExpand: FileList)."""
    subs = []
    for fd, name in w.flists:
        f = os.path.normpath(os.path.join(d, "outq" if w.flout else "", fd, name))
        use = os.path.relpath(f, os.path.join(d, fd))
        try:
            with open(f) as h:
                items = h.read().split("\n")
        except OSError:
            continue
        tail = items.pop()                     # every item ends in a newline
        subs.append((use, name + ":" + ",".join("".join("+" + MARKS[c] if c in MARKS else c for c in x) for x in items) + ":" + tail))
    subs.sort(key=lambda x: -len(x[0]))

    def walk(x):
        if isinstance(x, str):
            for a, b in subs:
                if a in x:
                    return x.replace(a, b)
            return x
        if isinstance(x, list):
            return [walk(y) for y in x]
        if isinstance(x, dict):
            return {k: walk(y) for k, y in x.items()}
        return x
    return walk


def observe(rc, out, log, w=None, d=None):
    o = {"ok": rc == 0 and os.path.exists(out), "hang": rc in ("hang", "skipped"), "order": [], "T": node({}), "inc": [], "err": "", "ftargets": []}
    if o["ok"]:
        with open(out) as f:
            r = json.load(f)
        o["order"] = r["order"]
        o["T"] = node(filelist_subst(w, d)(r["targets"]) if w is not None and w.flists else r["targets"])
        o["inc"] = [{"p": p, "l": l} for p, l in r["files"]]
        o["ftargets"] = [{"p": p, "l": l} for p, l in r["file_targets"]]
        o["extra"] = r["extra_dicts"]
    else:
        o["extra"] = []
        try:
            with open(log, errors="replace") as f:
                o["err"] = "".join(ch if 32 <= ord(ch) < 127 else " " for ch in f.read()[-400:])
        except OSError:
            pass
    return o


def ran_times(f):
    try:
        with open(f) as h:
            return h.read().count("r")
    except OSError:
        return 0


def run_worlds(chk, worlds, keep=False):
    """Runs gyp on every world; returns the observations in trace form."""
    base = tempfile.mkdtemp(prefix="worlds-", dir=chk.scratch)
    jobs = []
    for i, w in enumerate(worlds):
        d = os.path.join(base, str(i), "w")
        os.makedirs(d)
        w.write(d)
        jobs.append({"dir": d, "argv": w.argv(os.path.join(base, str(i), "vgen.json")), "log": os.path.join(base, str(i), "gyp.log"),
                     "home": os.path.join(base, str(i)), "timeout": 30})
    rcs = run_gyp_jobs(chk, jobs)
    obs = []
    for i, (w, rc) in enumerate(zip(worlds, rcs)):
        o = observe(rc, os.path.join(base, str(i), "vgen.json"), os.path.join(base, str(i), "gyp.log"), w, jobs[i]["dir"])
        o["ran"] = [{"c": c["c"], "n": ran_times(os.path.join(jobs[i]["dir"], c["d"], c["file"] + ".ran"))} for c in w.cmds if c.get("k", "sh") == "sh"]
        o["dir"] = jobs[i]["dir"]
        obs.append(o)
    if not keep:
        shutil.rmtree(base, ignore_errors=True)
    return obs
