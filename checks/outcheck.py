"""Checks of the files generators write (G09): generations and recorded writers judged by specs/out."""
import copy, hashlib, os, random, shutil, stat, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import CheckError, run_check, pmap, REPO, VERIF
import gen_build, buildlib

GENS = ["make", "ninja", "msvs", "cmake", "compile_commands_json", "gypd", "dump_dependency_json", "xcode"]
CAREFUL = (".sln", ".vcxproj", ".vcxproj.filters", ".props", ".targets", ".xml", ".rules", ".vcproj", ".user", ".mk-list")


def shim(c):
    so = os.path.join(c.scratch, "fsshim.so")
    p = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "harness", "fsshim.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("shim does not compile\n" + p.stdout)
    return so


def clean_env(home, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GYP_", "FS_")) and k not in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "AR", "LINK", "PYTHONPATH", "LD_PRELOAD")}
    e.update(PYTHONDONTWRITEBYTECODE="1", HOME=home, GYP_MSVS_VERSION="2015", GYP_MSVS_OVERRIDE_PATH=os.path.join(home, "vs"), ProgramFiles="C:\\\\PF", **{"ProgramFiles(x86)": "C:\\\\PF86"})
    e.update(kw)
    return e


def files_of(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            s = os.lstat(p)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = (hashlib.sha1(h.read()).hexdigest()[:12], s.st_mtime_ns, s.st_ino)
    return out


class Gen:
    def __init__(self, so, base, P, gen, cross):
        self.so, self.P, self.gen, self.cross = so, P, gen, cross
        self.home = base
        self.d = os.path.join(base, "w")
        os.makedirs(self.d)
        os.makedirs(os.path.join(base, "vs", "VC"), exist_ok=True)
        self.runs = []

    def fresh(self):
        shutil.rmtree(self.d)
        os.makedirs(self.d)
        buildlib.write_project(self.P, self.d)

    def run(self, how, seed, parallel=False, shift=0, again=False):
        if not again:
            self.fresh()
        own = set(self.P.files) | set(self.P.extra)
        if again:
            for p in files_of(self.d):
                os.utime(os.path.join(self.d, p), ns=(10 ** 18, 10 ** 18))
        before = files_of(self.d)
        env = clean_env(self.home, PYTHONHASHSEED=str(seed))
        if self.cross:
            env["GYP_CROSSCOMPILE"] = "1"
        if shift:
            env.update(LD_PRELOAD=self.so, FS_SHIFT=str(shift))
        argv = ["-f", self.gen, "--depth=.", "--toplevel-dir=.", "--ignore-environment", "-Gconfig=" + self.P.configs[0], "-Gmsvs_version=2015"] + ([] if parallel else ["--no-parallel"]) + self.P.roots
        p = subprocess.run([sys.executable, os.path.join(REPO, "gyp", "gyp_main.py")] + argv, cwd=self.d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        after = files_of(self.d)
        self.out = p.stdout[-400:]
        self.runs.append({"how": how, "rc": p.returncode, "files": [{"p": q, "h": after[q][0]} for q in sorted(after) if q not in own],
                          "touched": [q for q in sorted(after) if again and q in before and before[q][1:] != after[q][1:]],
                          "changed": [q for q in sorted(after) if again and q in before and before[q][0] != after[q][0]]})

    def record(self):
        names = sorted({f["p"] for x in self.runs for f in x["files"]})
        r, self.runs = self.runs, []
        return {"runs": r, "careful": [p for p in names if p.endswith(CAREFUL)]}


def generations(so, base, P, gen, cross, r):
    """two records: repeated generation, and regeneration after an edit"""
    g = Gen(so, base, P, gen, cross)
    seeds = r.sample(range(1, 1000), 4)
    g.run("first", seeds[0])
    rc, out = g.runs[0]["rc"], g.out
    g.run("another hash seed, parallel, later", seeds[1], parallel=True, shift=40000000)
    g.run("another hash seed", seeds[2])
    g.run("again over the files", seeds[3], again=True)
    one = g.record()
    P2 = copy.deepcopy(P)
    f = r.choice(sorted(P2.files))
    t = r.choice(P2.files[f]["targets"])
    if r.random() < 0.5 or t["type"] == "none":
        t.setdefault("defines", []).append("EDITED=1")
    else:
        t["sources"] = list(t.get("sources", []))[:-1] or t.get("sources", [])
    # in place first: the files of the unedited project are there
    g.P = P2
    for p in P2.files:
        with open(os.path.join(g.d, p), "w") as h:
            h.write("# edited\n" + repr(P2.files[p]) + "\n")
    g.run("over the files of the unedited project", seeds[1], again=True)
    stale = {x["p"] for x in one["runs"][0]["files"]}
    inplace = g.runs.pop()
    g.run("first", seeds[2])
    keep = {x["p"] for x in g.runs[0]["files"]}
    inplace["files"] = [x for x in inplace["files"] if x["p"] in keep or x["p"] not in stale]     # names only the unedited project has stay
    g.runs.append(inplace)
    two = g.record()
    shutil.rmtree(base, ignore_errors=True)
    return one, two, rc, out


def enrich(P, r):
    """much of everything a generator could put into an unordered collection (these projects are generated, never built)"""
    def some(base, n, ext=""):
        return [f"{base}{k}{ext}" for k in r.sample(range(100), r.randint(2, n))]
    for i, f in enumerate(P.roots):
        ts = P.files[f]["targets"]
        names = []
        for k in range(r.randint(0, 5)):
            ts.append({"target_name": f"zz_empty{i}{k}", "type": "none"})
            names.append(f"zz_empty{i}{k}")
        exts = r.sample([".c", ".cc", ".cpp", ".cxx", ".S", ".s", ".h", ".txt", ".in", ".tmpl", ".m", ".asm", ".def", ".rc", ".idl"], r.randint(3, 9))
        t = {"target_name": f"zz_rich{i}", "type": r.choice(["executable", "static_library", "shared_library", "loadable_module", "none"]), "dependencies": r.sample(names, len(names)),
             "sources": [f"zz/{r.choice('abc')}/s{k}{e}" for k, e in enumerate(exts)],
             "actions": [{"action_name": f"act{k}", "inputs": some("in/", 4), "outputs": [f"<(SHARED_INTERMEDIATE_DIR)/{r.choice('xyzuvw')}{m}/o{i}{k}{m}.h" for m in range(r.randint(1, 6))], "action": ["gen", "<@(_outputs)"],
                          **({"process_outputs_as_sources": 1} if r.random() < 0.3 else {}), **({"message": "making"} if r.random() < 0.3 else {})} for k in range(r.randint(0, 3))],
             "rules": [{"rule_name": f"rule{k}", "extension": x, "inputs": some("tool", 4), "outputs": [f"<(INTERMEDIATE_DIR)/{r.choice('pqrs')}{m}/<(RULE_INPUT_ROOT).o{m}" for m in range(r.randint(1, 5))], "action": ["conv", "<(RULE_INPUT_PATH)", "<(RULE_INPUT_DIRNAME)"]}
                       for k, x in enumerate(r.sample(["in", "tmpl"], r.randint(0, 2)))],
             "copies": [{"destination": f"<(PRODUCT_DIR)/d{k}", "files": some("data/", 5, ".dat")} for k in range(r.randint(0, 3))],
             "libraries": ["-l" + x for x in some("lib", 5)], "library_dirs": some("ld", 4), "include_dirs": some("inc/", 6), "defines": some("DEF", 6), "cflags": some("-fx", 5), "cflags_cc": some("-fc", 3), "ldflags": some("-Wl,", 4),
             "product_name": f"rich{i}", "msvs_disabled_warnings": [r.randint(4000, 4999) for _ in range(r.randint(0, 4))],
             "msvs_settings": {"VCCLCompilerTool": {"AdditionalOptions": some("/x", 4), "Optimization": "2"}, "VCLinkerTool": {"AdditionalDependencies": some("d", 4, ".lib"), "IgnoreDefaultLibraryNames": some("n", 3, ".lib")}},
             "xcode_settings": {"OTHER_CFLAGS": some("-fo", 3), "GCC_PREPROCESSOR_DEFINITIONS": some("XD", 3)}}
        if r.random() < 0.3:
            t["dependencies_excluded_by_wildcard"] = 1
        if t["type"] == "none":
            t["sources"] = []
        ts.append(t)
        for k in range(r.randint(0, 3)):
            ts.append({"target_name": f"zz_use{i}{k}", "type": r.choice(["executable", "none", "static_library"]), "sources": [f"zz/u{i}{k}.c"], "dependencies": r.sample(names + [f"zz_rich{i}"], r.randint(1, len(names) + 1))})


# --------------------------------------------------------------- the writer
DRIVER = """
import sys
sys.path.insert(0, %r)
import gyp.common
f = gyp.common.WriteOnDiff(sys.argv[1])
for x in sys.argv[2:]:
    f.write(x)
f.close()
""" % os.path.join(REPO, "gyp", "pylib")


def hexs(s):
    return (s if isinstance(s, bytes) else s.encode()).hex() if s is not None else "(absent)"


class Writer:
    """one way to have a file written: kind, argument list; old content; new content (a list of pieces)"""
    def __init__(self, so, base, kind, old, new):
        self.so, self.base, self.kind, self.old, self.new = so, base, kind, old, new
        self.n = 0

    def run(self, **fs):
        self.n += 1
        d = os.path.join(self.base, f"{self.n}")
        r = os.path.join(d, "r")
        os.makedirs(r)
        log = os.path.join(d, "log")
        t = os.path.join(r, "t.lst")
        if self.old is not None:
            with open(t, "w") as h:
                h.write(self.old)
            os.utime(t, ns=(1_600_000_000_000_000_000,) * 2)
        st = os.stat(t) if self.old is not None else None
        env = clean_env(d, PYTHONHASHSEED="0", LD_PRELOAD=self.so, FS_ROOT=r, FS_LOG=log, FS_MATCH="t.lst", **{"FS_" + k: str(v) for k, v in fs.items()})
        if self.kind == "api":
            argv = [sys.executable, "-c", DRIVER, t] + self.new
        else:
            with open(os.path.join(r, "w.gyp"), "w") as h:
                h.write(repr({"targets": [{"target_name": "t", "type": "none", "variables": {"names": [x.rstrip("\n") for x in self.new]}, "sources": ["<|(t.lst <@(names))"]}]}))
            argv = [sys.executable, os.path.join(REPO, "gyp", "gyp_main.py"), "-f", "gypd", "--depth=.", "--no-parallel", "w.gyp"]
        p = subprocess.run(argv, cwd=r, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            with open(t, "rb") as h:
                final = h.read()
            s2 = os.stat(t)
            kept = st is not None and (s2.st_mtime_ns, s2.st_ino) == (st.st_mtime_ns, st.st_ino)
        except OSError:
            final, kept = None, False
        ev, calls, fault = [], 0, bool(fs)
        writing = 0
        for line in open(log).read().splitlines() if os.path.exists(log) else []:
            if line == "KILL":
                continue
            if line == "ABSENT":
                ev[-1]["op"] = "failed"
                continue
            op, how, a, b, x = line.split()
            calls += 1
            ev.append({"op": op if how != "fail" or op == "write" else "failed", "a": a, "b": b, "d": x[1:]})
        shutil.rmtree(d)
        return {"old": hexs(self.old), "new": hexs("".join(self.new)), "t": "t.lst", "ev": ev, "fault": fault, "final": hexs(final), "kept": kept,
                "end": "ok" if p.returncode == 0 else "killed" if p.returncode == 137 else "error"}, calls, p.stdout[-300:]


def explore(args):
    so, base, kind, old, new, thorough = args
    w = Writer(so, base, kind, old, new)
    recs = []
    r0, n, out = w.run()
    recs.append((r0, {"plain": 1}, out))
    ops = r0["ev"]
    for k in range(1, n + 1):
        op = ops[k - 1]["op"]
        r, _, out = w.run(KILL_AT=k)
        recs.append((r, {"KILL_AT": k}, out))
        for e in ((28, 5, 13, 1) if thorough else (28, 13)):
            r, _, out = w.run(FAIL_AT=k, ERRNO=e)
            recs.append((r, {"FAIL_AT": k, "ERRNO": e}, out))
        if op == "write":
            for fs in ({"KILL_AT": k, "HALF": 1}, {"FAIL_AT": k, "ERRNO": 28, "HALF": 1}):
                r, _, out = w.run(**fs)
                recs.append((r, fs, out))
    r, _, out = w.run(COARSE=10 ** 12)
    r["fault"] = False
    recs.append((r, {"coarse times": 1}, out))
    return recs


def g09(c):
    r = c.rng
    so = shim(c)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Writers = {%s}\n Contents = {\"\", \"abcd\", \"abce\", \"xyz\"}\n InPlace = %s\n CopyOver = %s\n RemoveFirst = %s\nINVARIANT Whole\nINVARIANT Truthful\nINVARIANT Untouched\nINVARIANT Tidy\n"
    c.model("out", "WriteFile", cfg % ("1", "FALSE", "FALSE", "FALSE"), "one writer, every failing call, death between any two calls")
    c.model("out", "WriteFile", cfg % ("1, 2", "FALSE", "FALSE", "FALSE"), "two writers of the same file at once")
    if c.thorough:
        c.model("out", "WriteFile", cfg % ("1, 2, 3", "FALSE", "FALSE", "FALSE"), "three writers of the same file at once")
    for flags in (("TRUE", "FALSE", "FALSE"), ("FALSE", "TRUE", "FALSE"), ("FALSE", "FALSE", "TRUE")):
        c.model("out", "WriteFile", cfg % (("1",) + flags), "control: a writer that is not careful", expect_error="is violated")

    base = tempfile.mkdtemp(prefix="o-", dir=c.scratch)
    olds = [None, "", "one\ntwo\n", "one\ntwx\n", "one\n", "one\ntwo\nthree\n", "x" * 9000 + "\n"]
    news = [["one\n", "two\n"], ["one\ntwo\n"], ["x" * 9000 + "\n"], [], ["\u00e9\u20ac\n", "one\n"], ["y" * 9000 + "\n"]]
    jobs = []
    for old in olds:
        for new in news:
            jobs.append((so, os.path.join(base, f"a{len(jobs)}"), "api", old, new, c.thorough))
    for old in (None, "one\ntwo\n", "one\ntwx\n", "old\n") if not c.thorough else olds[:-1]:
        for new in ([["one\n", "two\n"]] if not c.thorough else [["one\n", "two\n"], ["one\n"]]):
            jobs.append((so, os.path.join(base, f"g{len(jobs)}"), "gyp", old, new, c.thorough))
    if not c.thorough:
        big = [j for j in jobs if len("".join(j[4])) > 100 or j[3] and len(j[3]) > 100]
        jobs = [j for j in jobs if j not in big] + r.sample(big, 4)
    res = pmap(explore, jobs)
    recs, info = [], []
    for j, rs in zip(jobs, res):
        for rec, fs, out in rs:
            recs.append(rec)
            info.append({"kind": j[2], "old": j[3], "new": j[4], "fault": fs, "out": out})
    if not any(x["end"] == "killed" for x in recs) or not any(x["ev"] for x in recs):
        raise CheckError("no write was seen")
    c.count("writer-runs", len(recs))
    c.count("killed", sum(x["end"] == "killed" for x in recs))
    bad = c.judge("out", "WriteTrace", recs)
    for i, cl in sorted(bad.items()):
        c.violation(f"write {info[i]['kind']} {info[i]['fault']}", dict(info[i], rec=recs[i]), cl, key=f"write {info[i]['kind']}: {cl[0]}")
    c.sample({"writer": recs[0]})

    jobs = []
    for i in range(c.pick(48, 300)):
        P = gen_build.build_project(r, odd=r.random() < 0.5, multi=True, cross=i % 4 == 3)
        for t in [t for b in P.files.values() for t in b["targets"]]:
            if t.get("libraries"):
                t["libraries"] = list(dict.fromkeys(t["libraries"]))      # the xcode generator does not take one twice
        if i % 2 == 0:
            enrich(P, r)
        for gen in GENS if i % 4 != 3 else ["make", "ninja"]:
            jobs.append((so, os.path.join(base, f"p{i}-{gen}"), P, gen, i % 4 == 3, random.Random(r.random())))
    res = pmap(lambda a: generations(*a), jobs)
    recs = [x for a in res for x in a[:2]]
    c.count("generations", sum(len(x["runs"]) for x in recs))
    for gen in GENS:
        ok = [a[2] for a, j in zip(res, jobs) if j[3] == gen]
        c.count("succeeded-" + gen, sum(rc == 0 for rc in ok))
        if gen != "xcode" and not any(rc == 0 for rc in ok):
            raise CheckError(f"{gen} never generates: " + [a[3] for a, j in zip(res, jobs) if j[3] == gen][0])
    bad = c.judge("out", "GenTrace", recs)
    for i, cl in sorted(bad.items()):
        j = jobs[i // 2]
        c.violation(f"generation {j[3]}", {"files": j[2].files, "roots": j[2].roots, "rec": recs[i]}, cl, key=f"gen {j[3]}: {cl[0]}")


if __name__ == "__main__":
    p = sys.argv[1]
    run_check(globals()[p.lower()], p)
