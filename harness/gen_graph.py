"""Worlds about the target graph: G01 (order, links), G02 (published settings), G03 (link closure)."""
import itertools, os
from gyplib import World

TYPES = ["static_library", "executable", "shared_library", "loadable_module", "none"]


def all_small_graphs(n):
    """Every directed graph (self loops included) on n targets of one file."""
    names = [f"t{i}" for i in range(n)]
    pairs = [(a, b) for a in range(n) for b in range(n)]
    for bits in range(1 << len(pairs)):
        ts = []
        for i in range(n):
            deps = [names[b] for k, (a, b) in enumerate(pairs) if a == i and bits >> k & 1]
            t = {"target_name": names[i], "type": "none"}
            if deps:
                t["dependencies"] = deps
            ts.append(t)
        yield World({"a.gyp": {"targets": ts}}, ["a.gyp"], tag=f"graph{n}:{bits}")


def all_file_graphs(n, circ):
    """Every graph among n build files, one target each (so file graph = target graph, no self loops)."""
    dirs = ["", "d/", "d/e/", "f/"]
    names = [dirs[i % 4] + f"f{i}.gyp" for i in range(n)]
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    for bits in range(1 << len(pairs)):
        files = {}
        for i in range(n):
            deps = [os.path.relpath(names[b], os.path.dirname(names[i]) or ".") + f":t{b}"
                    for k, (a, b) in enumerate(pairs) if a == i and bits >> k & 1]
            t = {"target_name": f"t{i}", "type": "none"}
            if deps:
                t["dependencies"] = deps
            files[names[i]] = {"targets": [t]}
        yield World(files, list(names), circ=circ, tag=f"files{n}:{bits}:{circ}")


DIRS = ["", "a/", "a/b/", "c/", "a/b/d/"]


def rel(ref_file, from_file):
    return os.path.relpath(ref_file, os.path.dirname(from_file) or ".")


def graph_world(r, faulty=True):
    """A random multi-file world with every kind of reference."""
    nf = r.randint(1, 5)
    fnames = []
    for i in range(nf):
        fnames.append(r.choice(DIRS) + f"{'pqrst'[i]}.gyp")
    multi = r.random() < 0.45
    toolsets = ["target", "host"] if multi else ["target"]
    acyclic_files = r.random() < 0.8
    targets = []     # (file index, name)
    files = {}
    for i, f in enumerate(fnames):
        nt = r.randint(1, 4)
        names = [f"{'pqrst'[i]}{k}" for k in range(nt)]
        if r.random() < 0.18:
            names[r.randrange(nt)] = f"{i}{nt}" if r.random() < 0.5 else f"{i + 1}{nt}"   # digits only
        if nf > 1 and r.random() < 0.04 and faulty:
            names[0] = "same"
        ts = []
        for n in names:
            t = {"target_name": n, "type": r.choice(["none", "static_library", "executable"])}
            if multi and r.random() < 0.6:
                t["toolsets"] = r.choice([["host", "target"], ["target"], ["host"], ["target", "host"]])
            if r.random() < 0.12:
                t["suppress_wildcard"] = r.choice([1, 0])
            if r.random() < 0.1:
                t.setdefault("variables", {})["link_dependency"] = r.choice([1, 0])
            ts.append(t)
            targets.append((i, n, t))
        files[f] = {"targets": ts}
    order = list(range(len(targets)))
    r.shuffle(order)
    rank = {k: order[k] for k in range(len(targets))}
    cyc = faulty and r.random() < 0.08
    for k, (i, n, t) in enumerate(targets):
        deps = []
        for m, (j, n2, t2) in enumerate(targets):
            if r.random() > 0.35:
                continue
            if j == i:
                okc = rank[m] < rank[k]
            else:
                okc = (j > i) if acyclic_files else rank[m] < rank[k]
            if not okc and not (cyc and r.random() < 0.3):
                continue
            ref = n2 if (j == i and r.random() < 0.6) else rel(fnames[j], fnames[i]) + ":" + n2
            x = r.random()
            ts1, ts2 = t.get("toolsets", ["target"]), t2.get("toolsets", ["target"])
            if multi:
                if not set(ts1) <= set(ts2) or x < 0.35:
                    ref += "#" + (r.choice(ts2) if r.random() < 0.97 else r.choice(toolsets))
            elif x < 0.1:
                ref += "#" + r.choice(["host", "target"])     # ignored without toolset support
            deps.append(ref)
        if deps and r.random() < 0.25:
            deps.append(r.choice(deps))                         # repeated reference
        # wildcards on other files
        for j in range(len(fnames)):
            if j != i and ((j > i) if acyclic_files else r.random() < 0.2) and r.random() < 0.18:
                w = rel(fnames[j], fnames[i]) + ":*"
                if multi and r.random() < 0.5:
                    w += "#" + r.choice(["*", "host", "target"])
                deps.insert(r.randint(0, len(deps)), w)
        if multi and acyclic_files and r.random() < 0.25:
            js = [j for j in range(len(fnames)) if j > i]
            if js:
                j = r.choice(js)
                deps.append(rel(fnames[j], fnames[i]) + ":" + r.choice(files[fnames[j]]["targets"])["target_name"] + "#*")
        if faulty and r.random() < 0.015:
            deps.append(r.choice(["nosuch", rel(fnames[0], fnames[i]) + ":nosuch", fnames[i].split("/")[-1] + ":*"]))
        if faulty and r.random() < 0.01:
            deps.append("missing.gyp:x")
        if r.random() < 0.06:
            deps.append(n)
            if r.random() < 0.85:
                t.setdefault("variables", {})["prune_self_dependency"] = 1
        if deps or r.random() < 0.1:
            t["dependencies"] = deps
        if deps and r.random() < 0.3:
            t["export_dependent_settings"] = [d for d in deps if r.random() < 0.6]
        if deps and r.random() < 0.12:
            t["dependencies!"] = [r.choice(deps)]
        if deps and r.random() < 0.08:
            t["dependencies/"] = [[r.choice(["exclude", "include"]), r.choice(["p0", "q", r"r1#target$", "nothing", "^a/"])] for _ in range(r.randint(1, 2))]
        if faulty and r.random() < 0.01:
            t["export_dependent_settings"] = [r.choice(targets)[1]]
    roots = [f for f in fnames if r.random() < 0.7] or [fnames[0]]
    r.shuffle(roots)
    if r.random() < 0.1:
        roots = [("./" + x) if r.random() < 0.5 else x for x in roots]
    want = []
    if r.random() < 0.3:
        want = [r.choice(targets)[1] for _ in range(r.randint(1, 2))]
        if faulty and r.random() < 0.05:
            want.append("unknown")
    return World(files, roots, multi=multi, circ=r.random() < 0.7, want=want, adjust=False, tag="graph")


# ---------------------------------------------------------------- G02 / G03
def settings_world(r, adjust=False):
    nf = r.randint(1, 4)
    fnames = [r.choice(DIRS) + f"{'pqrs'[i]}.gyp" for i in range(nf)]
    n = r.randint(2, 9)
    owner = sorted(r.randrange(nf) for _ in range(n))
    dens = r.choice([0.25, 0.4, 0.6])
    ts = []
    style = r.random()
    for k in range(n):
        ty = r.choice(TYPES + ["static_library"] * 3 + (["none"] * 2 if style < 0.3 else []))
        if ty == "executable" and r.random() < 0.25:
            ty = r.choice(["mac_kernel_extension", "windows_driver"])
        t = {"target_name": f"t{k}", "type": ty}
        if r.random() < 0.5:
            t["sources"] = [f"s{k}.c"]
        # a target may only depend on later ones; files stay acyclic because owners are sorted
        deps = [m for m in range(k + 1, n) if r.random() < dens]
        r.shuffle(deps)
        refs = [f"t{m}" if owner[m] == owner[k] else rel(fnames[owner[m]], fnames[owner[k]]) + f":t{m}" for m in deps]
        if refs:
            t["dependencies"] = refs
            if r.random() < 0.5:
                t["export_dependent_settings"] = [x for x in refs if r.random() < 0.6]
                if r.random() < 0.15:
                    t["export_dependent_settings"] *= 2
        if ty == "none" and r.random() < 0.35:
            t["dependencies_traverse"] = r.choice([0, 1, 0])
        if ty == "static_library" and r.random() < 0.3:
            t["hard_dependency"] = r.choice([1, 1, 0])
        if ty in ("executable", "shared_library") and r.random() < 0.2:
            t["allow_sharedlib_linksettings_propagation"] = r.choice([0, 1])
        if not adjust or r.random() < 0.3:
            for sec in ("all_dependent_settings", "direct_dependent_settings", "link_settings"):
                if r.random() < 0.55:
                    s = {}
                    c = {"all_dependent_settings": "A", "direct_dependent_settings": "D", "link_settings": "L"}[sec]
                    if r.random() < 0.8:
                        s["defines"] = [f"{c}{k}"] + (["COMMON"] if r.random() < 0.3 else [])
                    if r.random() < 0.35:
                        s["include_dirs"] = [r.choice(["inc", ".", "../x", "/abs", "<!(echo)" if 0 else "sub/inc"])]
                    if r.random() < 0.25:
                        s["defines+"] = [f"P{c}{k}"]
                        if r.random() < 0.5:
                            s.pop("defines", None)
                    if r.random() < 0.15 and "defines" not in s and "defines+" not in s:
                        s["defines="] = [f"R{c}{k}"]
                    if r.random() < 0.15 and not any(x.startswith("defines") for x in s):
                        s["defines?"] = [f"Q{c}{k}"]
                    if sec == "link_settings" and r.random() < 0.6:
                        s["libraries"] = [f"-l{k}", r.choice(["libz.a", "-lm", "$(LIB)/x.a", "../y.a"])]
                    if r.random() < 0.2:
                        s["cflags"] = ["-Wall", f"-f{c}{k}"]
                    if r.random() < 0.2:
                        s["note"] = f"{c}{k}"
                    if r.random() < 0.2:
                        s["nested"] = {"list": [f"{c}{k}"], "my_dir": "x"}
                    if sec == "direct_dependent_settings" and r.random() < 0.12:
                        s["link_settings"] = {"libraries": [f"-lvia{k}"]}
                    if sec == "all_dependent_settings" and r.random() < 0.08:
                        s["direct_dependent_settings"] = {"defines": [f"VIA{k}"]}
                    t[sec] = s
        if r.random() < 0.3:
            t["defines"] = [f"OWN{k}"]
        ts.append(t)
    files = {}
    for k, t in enumerate(ts):
        files.setdefault(fnames[owner[k]], {"targets": []})["targets"].append(t)
    for f in files:
        r.shuffle(files[f]["targets"])
    return World(files, [fnames[owner[0]]] + [f for f in files], adjust=adjust, sorted_=r.random() < 0.5,
                 circ=True, tag="settings")
