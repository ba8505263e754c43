"""Worlds and questions for the change analysis (G13)."""
import os
from gyplib import World

ANALYZER_VARS = {**{k: "!!!" for k in ("INTERMEDIATE_DIR", "SHARED_INTERMEDIATE_DIR", "PRODUCT_DIR", "LIB_DIR", "SHARED_LIB_DIR")},
                 **{k: "" for k in ("RULE_INPUT_PATH", "RULE_INPUT_ROOT", "RULE_INPUT_NAME", "RULE_INPUT_DIRNAME", "RULE_INPUT_EXT",
                                    "EXECUTABLE_PREFIX", "EXECUTABLE_SUFFIX", "STATIC_LIB_PREFIX", "STATIC_LIB_SUFFIX", "SHARED_LIB_PREFIX",
                                    "SHARED_LIB_SUFFIX", "CONFIGURATION_NAME")}, "OS": "linux"}
TYPES = ["static_library", "executable", "shared_library", "loadable_module", "none"]
DIRS = ["", "lib/", "lib/in/", "app/"]


class AnalyzeWorld(World):
    def spec_vars(self):
        v = dict(ANALYZER_VARS)
        v.update(self.dvars)
        return v

    def argv(self, out):
        a = ["-f", "analyzer", "--depth=.", "--toplevel-dir=.", "--ignore-environment", "--no-parallel", "-G", "analyzer_output_path=" + out]
        if self.cfile != "noflag":
            a += ["-G", "config_path=" + os.path.join(os.path.dirname(out), "question.json")]
        for i in self.incl:
            a += ["-I", i]
        return a + self.roots

    def record(self, obs):
        r = World.record(self, obs)
        r["incl"] = [os.path.normpath(i) for i in self.incl]
        return r


def upto(path, fromdir):
    return os.path.relpath(path, fromdir or ".")


def small_worlds():
    """Every acyclic graph on three targets of one file, with every single changed target and two ways of asking."""
    pairs = [(0, 1), (0, 2), (1, 2)]
    for bits in range(8):
        for kinds in range(3 ** 3):
            ks = [["executable", "static_library", "none"][kinds // 3 ** i % 3] for i in range(3)]
            ts = []
            for i in range(3):
                t = {"target_name": f"t{i}", "type": ks[i], "sources": [f"s{i}.c"]}
                d = [f"t{b}" for k, (a, b) in enumerate(pairs) if a == i and bits >> k & 1]
                if d:
                    t["dependencies"] = d
                ts.append(t)
            for changed in range(3):
                w = AnalyzeWorld({"a.gyp": {"targets": ts}}, ["a.gyp"], tag=f"small:{bits}:{kinds}:{changed}")
                w.cfile, w.cf = "good", [f"s{changed}.c"]
                sel = (bits * 27 + kinds + changed) % 4
                w.tt, w.ac = [(["t0"], ["t1"]), (["all"], []), ([], ["all", "t2"]), (["t0", "t2"], ["all"])][sel]
                yield w


def analyze_world(r):
    nf = r.randint(1, 4)
    fnames = [r.choice(DIRS) + f"{'pqrs'[i]}.gyp" for i in range(nf)]
    files, pool, tl = {}, [], []
    inc = ["top.gypi", "lib/l.gypi", "app/x.gypi"]
    for p in inc:
        files[p] = {"variables": {"from_" + p[0]: "1"}}
    if r.random() < 0.5:
        files["lib/l.gypi"]["includes"] = ["../app/x.gypi"]
    for i, f in enumerate(fnames):
        d = os.path.dirname(f)
        ts = []

        def some_source(k):
            x = r.random()
            if x < 0.5:
                p = f"{f[-5]}{k}.c"
                pool.append(os.path.normpath(os.path.join(d, p)))
                return p
            if x < 0.7:
                p = r.choice(DIRS) + r.choice(["shared.c", "other.c"])
                pool.append(p)
                return upto(p, d)
            if x < 0.78:
                p = r.choice(["<(INTERMEDIATE_DIR)/gen.c", "<(PRODUCT_DIR)/../gen.c", "$(obj)/x.c", "../../../outside.c"])
                return p
            if x < 0.9:
                up = r.choice(["../top.c", "../lib/../shared.c", "sub/../up.c", "sub//dd.c", "./dot.c", "../x/y.c", "../../far.c"])
                p = os.path.normpath(os.path.join(d, up))
                pool.append(p[3:] if p.startswith("../") else p)
                if p.startswith("../../"):
                    pool.append(p[6:])
                return up
            pool.append(os.path.normpath(os.path.join(d, "gone.c")))
            return "gone.c"
        for k in range(r.randint(1, 4)):
            t = {"target_name": f"{'pqrs'[i]}{k}", "type": r.choice(TYPES)}
            if r.random() < 0.8:
                t["sources"] = [some_source(k) for _ in range(r.randint(1, 3))]
                if r.random() < 0.2:
                    t["sources!"] = [r.choice(t["sources"])]
            if r.random() < 0.3:
                t["actions"] = [{"action_name": f"a{n}", "inputs": [some_source(7) for _ in range(r.randint(0, 2))], "outputs": ["o"], "action": ["x"]} for n in range(r.choice([1, 1, 2, 3]))]
            if r.random() < 0.25:
                t["rules"] = [{"rule_name": "r" + e, "extension": e, "inputs": [some_source(8) for _ in range(r.randint(0, 2))], "outputs": ["o"], "action": ["x"]} for e in ("idl", "in", "tpl")[:r.choice([1, 1, 2, 3])]]
                if r.random() < 0.3:
                    del r.choice(t["rules"])["inputs"]
            if r.random() < 0.2:
                t["conditions"] = [[r.choice(["OS=='linux'", "OS=='win'"]), {"sources": [some_source(9)]}]]
            if r.random() < 0.1:
                t["suppress_wildcard"] = 1
            ts.append(t)
            tl.append((i, t))
        files[f] = {"targets": ts}
        if r.random() < 0.4:
            files[f]["includes"] = [upto(r.choice(inc), d)]
        if r.random() < 0.15:
            files[f]["target_defaults"] = {"includes": [upto(r.choice(inc), d)]}
    rank = list(range(len(tl)))
    r.shuffle(rank)
    dens = r.choice([0.15, 0.3, 0.5])
    for a, (i, t) in enumerate(tl):
        ds = []
        for b, (j, u) in enumerate(tl):
            if (j > i or (j == i and rank[b] < rank[a])) and r.random() < dens:
                ds.append(u["target_name"] if i == j else upto(fnames[j], os.path.dirname(fnames[i])) + ":" + u["target_name"])
        if r.random() < 0.08 and i + 1 < nf:
            ds.append(upto(fnames[-1], os.path.dirname(fnames[i])) + ":*")
        if ds:
            t["dependencies"] = ds
    roots = sorted(r.sample(fnames, r.randint(1, nf)))
    incl = r.choice([[], [], [], ["top.gypi"], ["./lib/l.gypi"]])
    w = AnalyzeWorld(files, roots, incl=incl, tag="analyze")
    w.cfile = "good" if r.random() < 0.94 else r.choice(["missing", "nojson", "nodict", "noflag", "empty"])
    names = [t["target_name"] for _, t in tl]
    cand = sorted(set(pool)) + ["nowhere.c", "lib/nowhere.c"]
    w.cf = [] if w.cfile == "empty" else r.sample(cand, min(len(cand), r.randint(1, 3)))
    if w.cf and r.random() < 0.25:
        w.cf.append(r.choice(fnames + inc + fnames))
    def pick(hi):
        l = r.sample(names, min(len(names), r.randint(0, hi)))
        if r.random() < 0.3:
            l.append("all")
        if r.random() < 0.15:
            l.append(r.choice(["nosuch", "nosuch2", names[0] + "x"]))
        r.shuffle(l)
        return l
    w.tt, w.ac = pick(4), pick(3)
    if r.random() < 0.1:
        w.tt = names
    return w
