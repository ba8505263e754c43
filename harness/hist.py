"""Histories of edits and builds (G12)."""
import copy, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from vlib import REPO, digest
import buildlib, gyplib


class History:
    def __init__(self, r, P, gen, style, cfg, regen, bind, base):
        self.r, self.P, self.gen, self.style, self.cfg, self.regen, self.bind, self.base = r, P, gen, style, cfg, regen, bind, base
        self.d = os.path.join(base, "w")
        self.n = 0
        self.version = {}
        self.h, self.story = [], []
        os.makedirs(self.d)

    # ------------------------------------------------------------ plumbing
    def gyp(self):
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=self.base)
        for k in list(e):
            if k.startswith("GYP_") or k in ("CC", "CXX", "CFLAGS", "LDFLAGS", "AR", "LD", "MAKEFLAGS", "V"):
                del e[k]
        e.update(buildlib.gyp_env(self.bind))
        p = subprocess.run([sys.executable, os.path.join(REPO, "gyp", "gyp_main.py")] + buildlib.gyp_argv(self.gen, self.style, self.P.roots, regen=self.regen),
                           cwd=self.d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout

    def put(self, path, text):
        f = os.path.join(self.d, path)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        t = f + ".new~"
        with open(t, "w") as h:
            h.write(text)
        os.replace(t, f)
        self.version[path] = self.version.get(path, 0) + 1     # written again is changed, though the text be the same

    def put_gyp(self, path):
        self.put(path, "# generated\n" + repr(self.P.files[path]) + "\n")

    def generated(self):
        """names in the project directory that generation and building made"""
        return [x for x in os.listdir(self.d) if x in ("Makefile", "out", "build") or x.endswith(".mk") or x == "gyp-mac-tool"] + \
               [os.path.join(d, x) for d in self.P.dirs if d for x in os.listdir(os.path.join(self.d, d)) if x.endswith(".mk")] + \
               [x for x in sorted({os.path.join(d, "made") for d in self.P.dirs} | {"made", "b/made"}) if os.path.isdir(os.path.join(self.d, x))]

    def scratch_build(self):
        keep = os.path.join(self.base, "keep")
        names = self.generated()
        for x in names:
            os.makedirs(os.path.dirname(os.path.join(keep, x)), exist_ok=True)
            os.rename(os.path.join(self.d, x), os.path.join(keep, x))
        rc, out = self.gyp()
        runs, outs = [], []
        if rc == 0:
            rc, runs, outs, out = self.build(4, "")
        for x in self.generated():
            f = os.path.join(self.d, x)
            shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
        for x in names:
            os.rename(os.path.join(keep, x), os.path.join(self.d, x))
        return rc, runs, outs, out

    def step(self, x, cn):
        a, o = x["args"], ""
        role = x["role"]
        if role in ("tool", "tool2"):
            o = a[a.index("--out") + 1]
        elif role.endswith("ar"):
            o = a[1]
        elif role == "ln":
            o = a[-1]
        else:
            o = a[a.index("-o") + 1]
        p = lambda q: cn.path(q, x["cwd"])
        k = role if role in ("tool", "tool2", "ln") else "ar" if role.endswith("ar") else "cc" if "-c" in a else "link"
        return {"o": p(o), "k": k, "cmd": digest([role, p("."), a]), "r": [p(q) for q in x["reads"]], "w": [p(q) for q in x["writes"]] if x["rc"] == 0 else [], "s": x["s"], "e": x["e"] or 10 ** 6, "rc": x["rc"]}

    def build(self, jobs, jit, stop=None):
        log = os.path.join(self.base, "build.log")
        args = ()
        rc, out = buildlib.run_build(self.d, self.gen, self.style, self.cfg, self.bind, log, jobs=jobs, jit=jit, stop=stop, tools=self.regen)
        cn = buildlib.Canon(self.d, self.gen, self.style, self.cfg)
        runs = []
        for x in buildlib.read_log(log):
            runs.append(self.step(x, cn))
            runs[-1]["h"] = [self.content(os.path.join(x["cwd"], q)) for q in x["writes"]] if x["rc"] == 0 else []
        outs = [x for x in buildlib.tree(cn, self.d, None) if x["p"].startswith("$") or "made/" in x["p"]]
        return rc, runs, outs, out

    def content(self, p):
        try:
            with open(p, "rb") as f:
                return hashlib.sha1(f.read()).hexdigest()[:10]
        except OSError:
            return "none"

    def add_deps(self, full):
        """to each link: what the targets it declares to depend on make (besides objects)"""
        by = {x["name"]: x for x in self.P.info}
        declared = {t["target_name"]: [x.split(":")[1].split("#")[0] for x in t.get("dependencies", [])] for _, t in self.targets()}
        blocks = {t["target_name"]: t for _, t in self.targets()}
        files = {t["target_name"]: f for f, t in self.targets()}
        made = {n: set() for n in by}
        for n, t in blocks.items():
            d = os.path.dirname(files[n])

            def place(o, src=""):
                o = o.replace("<(RULE_INPUT_ROOT)", os.path.splitext(os.path.basename(src))[0]).replace("<(RULE_INPUT_DIRNAME)", os.path.dirname(src))
                return os.path.normpath(o.replace("<(PRODUCT_DIR)", "$(PD)").replace("<(SHARED_INTERMEDIATE_DIR)", "$(SID)")) if o.startswith("<(") else os.path.normpath(os.path.join(d, o))
            outs = {place(o) for a in t.get("actions", []) for o in a["outputs"]}
            for ru in t.get("rules", []):
                outs |= {place(o, q) for q in t.get("sources", []) if q.endswith("." + ru["extension"].lstrip(".")) for o in ru["outputs"]}
            dests = [place(cp["destination"]) + "/" for cp in t.get("copies", [])]
            for x in full:
                if t["type"] != "none" and os.path.basename(x["o"]) == by[n]["out"] and x["k"] in ("link", "ar", "ln") or x["o"] in outs or any(x["o"].startswith(q) for q in dests) or f"$(ID:{n}:" in x["o"] and x["k"].startswith("tool"):
                    made[n].add(x["o"])
        for x in full:
            x["deps"] = []
            if x.pop("k") in ("link", "ar", "ln"):
                todo, seen = [d for n in by if by[n]["out"] == os.path.basename(x["o"]) for d in declared[n]], set()
                while todo:
                    d = todo.pop()
                    if d not in seen:
                        seen.add(d)
                        todo += declared[d]
                        x["deps"] += sorted(made[d])

    def sources(self):
        return [{"p": p, "h": str(self.version.get(p, 0))} for p in self.P.extra]

    def record(self, kind):
        r = self.r
        self.n += 1
        time.sleep(0.012)
        rc, runs, outs, out = self.build(r.choice([1, 2, 4, 8]), r.choice(["", str(r.randint(1, 999))]), stop=r.uniform(0.01, 0.12) if kind == "stopped" else None)
        time.sleep(0.012)
        frc, full, fouts, fout = self.scratch_build()
        self.add_deps(full)
        for x in full:
            x.pop("s"), x.pop("e"), x.pop("rc"), x.pop("h")
        self.h.append({"kind": kind, "src": self.sources(), "full": full, "fullok": frc == 0, "ran": runs, "rc": rc,
                       "outs": outs if kind == "build" and rc == 0 else [], "scratch": fouts if kind == "build" and rc == 0 and frc == 0 else []})
        self.story.append({"kind": kind, "ran": [x["o"] for x in runs], "rc": rc, "out": out[-500:] if rc else "", "scratch-out": fout[-300:] if frc else ""})

    # --------------------------------------------------------------- edits
    def targets(self):
        return [(f, t) for f, b in self.P.files.items() for t in b["targets"]]

    def edit(self):
        """one edit; returns its description"""
        r, P = self.r, self.P
        linked = [(f, t) for f, t in self.targets() if t["type"] != "none"]
        kind = r.choice(["text"] * 5 + ["include"] * 3 + ["gyp"] * 5 + ["header-gone", "none", "none"])
        if kind == "text":
            names = sorted(p for p in P.extra)
            for p in r.sample(names, min(len(names), r.choice([1, 1, 1, 2, 3]))):
                P.extra[p] += f"// edit {self.n}.{r.randint(0, 99)}\n"
                self.put(p, P.extra[p])
            return "text"
        if kind in ("include", "header-gone"):
            srcs = sorted(p for p in P.extra if os.path.splitext(p)[1] in (".c", ".cc", ".cpp", ".cxx", ".s", ".S"))
            if not srcs:
                return self.edit()
            if kind == "include":
                p = r.choice(srcs)
                d = [x for x in sorted(P.dirs, key=len, reverse=True) if not x or p.startswith(x + "/")][0]
                mine = [f'#include "h{P.dirs.index(d)}_{k}.h"\n' for k in range(2) if os.path.join(d, "inc", f"h{P.dirs.index(d)}_{k}.h") in P.extra]
                if not mine:
                    return self.edit()
                x = r.choice(mine)
                t = P.extra[p]
                P.extra[p] = t.replace(x, "") if x in t else x + t
                if P.extra[p] == t:
                    return self.edit()
                self.put(p, P.extra[p])
                return f"include {p}"
            text = repr(P.files)
            hs = sorted(p for p in P.extra if p.endswith("_1.h") and os.path.basename(p) not in text)
            if not hs:
                return self.edit()
            hp = r.choice(hs)
            line = f'#include "{os.path.basename(hp)}"\n'
            for p in list(P.extra):
                if line in P.extra[p]:
                    P.extra[p] = P.extra[p].replace(line, "")
                    self.put(p, P.extra[p])
            del P.extra[hp]
            os.unlink(os.path.join(self.d, hp))
            return "gone " + hp
        if kind == "gyp":
            if not linked:
                return self.edit()
            f, t = r.choice(linked)
            what = r.choice(["defines", "cflags", "ldflags", "args", "sources-", "sources+", "config", "libraries", "undef", "copies", "deps"])
            if what in ("defines", "cflags", "ldflags", "libraries"):
                pre = {"defines": "E", "cflags": "-e", "ldflags": "-Wl,-e", "libraries": "-le"}[what]
                t.setdefault(what, []).append(f"{pre}{self.n}")
            elif what == "undef" and t.get("defines"):
                t["defines"].pop(r.randrange(len(t["defines"])))
            elif what == "config" and t.get("configurations"):
                c = t["configurations"].get(self.cfg)
                if c is None:
                    return self.edit()
                c.setdefault("defines", []).append(f"EC{self.n}")
            elif what == "args":
                cmds = [x for _, u in self.targets() for x in u.get("actions", []) + u.get("rules", [])]
                own = [(g, u) for g, u in self.targets() if u.get("actions") or u.get("rules")]
                if not own:
                    return self.edit()
                f, u = r.choice(own)
                r.choice(u.get("actions", []) + u.get("rules", []))["action"].append(f"arg{self.n}")
            elif what == "sources-":
                cs = [s for s in t.get("sources", []) if os.path.splitext(s)[1] not in (".h", ".in", ".tpl", ".y")]
                if len(cs) < 2 or (self.gen == "make" and t["type"] == "static_library"):     # known finding, see g12
                    return self.edit()
                t["sources"].remove(r.choice(cs))
            elif what == "sources+":
                p = f"src/new{self.n}{r.choice(['.c', '.cc'])}"
                full = os.path.join(os.path.dirname(f), p)
                P.extra[full] = f"// source {full}\n"
                self.put(full, P.extra[full])
                t.setdefault("sources", []).append(p)
            elif what == "deps" and len(t.get("dependencies", [])) > 1 and not any("SHARED_INTERMEDIATE" in x for x in t.get("include_dirs", [])) and not t.get("actions"):
                t["dependencies"].pop()
            else:
                return self.edit()
            self.put_gyp(f)
            if not self.regen:
                rc, out = self.gyp()
                if rc:
                    raise RuntimeError("gyp fails: " + out[-800:])
            return f"gyp {what} {t['target_name']}"
        return "none"

    def run(self, steps):
        buildlib.write_project(self.P, self.d)
        rc, out = self.gyp()
        if rc:
            raise RuntimeError("gyp fails: " + out[-800:])
        self.story.append("start")
        self.record("build")
        for _ in range(steps):
            k = self.r.random()
            if k < 0.08:            # a source that cannot be compiled, then the repair
                srcs = sorted(p for p in self.P.extra if os.path.splitext(p)[1] in (".c", ".cc", ".cpp", ".cxx"))
                if srcs:
                    p = self.r.choice(srcs)
                    t = self.P.extra[p]
                    self.P.extra[p] = t + '#include "absent.h"\n'
                    self.put(p, self.P.extra[p])
                    self.story.append("broken " + p)
                    if self.r.random() < 0.5:
                        self.story.append(self.edit())
                    self.record("build")
                    self.P.extra[p] = self.P.extra[p].replace('#include "absent.h"\n', "") + f"// repaired {self.n}\n"
                    self.put(p, self.P.extra[p])
                    self.story.append("repaired")
                    self.record("build")
                    continue
            for _ in range(self.r.choice([1, 1, 2])):
                self.story.append(self.edit())
            if k > 0.88 and not self.regen:      # a stop within generation is not part of the property
                self.record("stopped")
                if self.r.random() < 0.5:
                    self.story.append(self.edit())
            self.record("build")
        return self


    def script(self, edits):
        """a given sequence of edits (functions of this history), each followed by a build"""
        buildlib.write_project(self.P, self.d)
        rc, out = self.gyp()
        if rc:
            raise RuntimeError("gyp fails: " + out[-800:])
        self.record("build")
        for e in edits:
            e(self)
            self.record("build")

    def regyp(self, change):
        for f in self.P.files:
            change(self.P.files[f]["targets"])
            self.put_gyp(f)
        rc, out = self.gyp()
        if rc:
            raise RuntimeError("gyp fails: " + out[-800:])


def fixed_histories():
    """name -> (targets, sources, edits, generators): short histories about one thing each"""
    import gen_build
    def proj(targets, extra):
        P = gen_build.Project()
        P.files, P.roots, P.configs, P.dirs = {"w.gyp": {"targets": targets}}, ["w.gyp"], ["Default"], [""]
        P.extra = extra
        P.info = [{"name": t["target_name"], "d": "", "ty": t["type"], "out": {"static_library": "lib%s.a"}.get(t["type"], "%s") % t["target_name"]} for t in targets]
        return P
    two = lambda: {"a.c": "//a\n", "b.c": "//b\n", "d.txt": "d\n", "r.in": "r\n"}
    noop = lambda h: None
    lib = lambda: proj([{"target_name": "lib", "type": "static_library", "sources": ["a.c", "b.c"]}, {"target_name": "exe", "type": "executable", "sources": ["a.c"], "dependencies": [":lib"]}], two())
    multi = lambda: proj([{"target_name": "act", "type": "none", "actions": [{"action_name": "a", "inputs": ["d.txt"], "outputs": ["<(PRODUCT_DIR)/o1.txt", "<(PRODUCT_DIR)/o2.txt"],
                          "action": ["tool", "--in", "d.txt", "--out", "<(PRODUCT_DIR)/o1.txt", "--out", "<(PRODUCT_DIR)/o2.txt"]}]}], two())
    rule = lambda n: proj([{"target_name": "ru", "type": "none", "sources": ["r.in"], "rules": [{"rule_name": "r", "extension": "in", "outputs": [f"<(PRODUCT_DIR)/o{k}.txt" for k in range(n)],
                          "action": ["tool", "--in", "<(RULE_INPUT_PATH)"] + sum([["--out", f"<(PRODUCT_DIR)/o{k}.txt"] for k in range(n)], [])}]}], two())
    arg = lambda h: h.regyp(lambda ts: ts[0]["rules"][0]["action"].append("more"))
    touch = lambda p: (lambda h: h.put(p, h.P.extra[p]))
    return {"library-source-removed": (lib, [lambda h: h.regyp(lambda ts: ts[0]["sources"].remove("b.c")), noop]),
            "library-source-added": (lambda: lib_one(proj, two), [lambda h: h.regyp(lambda ts: ts[0]["sources"].append("b.c")), noop]),
            "two-outputs-action": (multi, [noop, touch("d.txt"), noop]),
            "two-outputs-rule": (lambda: rule(2), [noop, touch("r.in"), noop, arg, noop]),
            "one-output-rule": (lambda: rule(1), [noop, touch("r.in"), noop, arg, noop])}


def lib_one(proj, two):
    return proj([{"target_name": "lib", "type": "static_library", "sources": ["a.c"]}, {"target_name": "exe", "type": "executable", "sources": ["a.c"], "dependencies": [":lib"]}], two())


def play_fixed(args):
    name, gen, style, bind, base = args
    import random
    mk, edits = fixed_histories()[name]
    h = History(random.Random(1), mk(), gen, style, "Default", False, bind, base)
    h.script(edits)
    return h


def play(args):
    h = History(*args[:-1])
    try:
        h.run(args[-1])
    except RuntimeError as e:
        h.story.append(str(e))
        h.h = None
    return h
