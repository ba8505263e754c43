"""Histories for N01 and N02."""
from cachelib import ARCS, VERSIONS, ARCHS, good_plan, bad_plan, LAYOUT

ERRS = [5, 28, 30]
OLD = {"include/node/node.h": "old", "include/node/gone.h": "old"}


def vargs(r, v):
    x = r.random()
    return [v] if x < 0.5 else ["v" + v] if x < 0.7 else ["--target=" + v] if x < 0.9 else ["--target=v" + v]


def install(r, v, win, plan=None, ensure=None, **kw):
    p = plan or (good_plan(r.choice([1, 1, 2]), r.choice([1, 2])) if r.random() < 0.6 else bad_plan(r, win))
    p["sform"] = r.choice(["plain", "dot", "crlf", "others"])
    if p["status"] == 200 and p["deliver"] == "full" and r.random() < 0.12:
        p["deliver"] = "redirect"
    s = {"op": "install", "v": v, "dir": VERSIONS[v][0], "plan": p, "ensure": r.random() < 0.5 if ensure is None else ensure, "args": vargs(r, v),
         "slash": r.choice(["", "", "/", "//"])}
    if win:
        s["arch"] = r.choice(list(ARCHS))
    s.update(kw)
    return s


def start_cache(r):
    st = {}
    for v in VERSIONS:
        if r.random() < 0.15:
            st[VERSIONS[v][0]] = dict(OLD, **r.choice([{"installVersion": f"{LAYOUT - 1}\n"}, {}, {"installVersion": ""}, {"installVersion": "junk"}, {"installVersion": "9"}]))
    if r.random() < 0.2:
        st["current"] = dict(OLD)
    return st


def history(r, win=False, n=None):
    vs = r.sample(list(VERSIONS), 2)
    steps = []
    if r.random() < 0.3:        # a version that is there, then marked as of some layout
        v = r.choice(vs)
        steps.append(install(r, v, win, plan=good_plan(1, 1), ensure=False))
        steps.append({"op": "world", "what": "marker", "dir": VERSIONS[v][0], "text": r.choice([f"{LAYOUT - 1}\n", f"{LAYOUT + 1}\n", f"{LAYOUT + 1}\n", f"{LAYOUT}", "99", "100\n", f" {LAYOUT}", "1e1", "", "x9", "junk", f"{LAYOUT} of it"])})
        steps.append(install(r, v, win, ensure=True))
    for _ in range(n or r.randint(3, 6)):
        x = r.random()
        v = r.choice(vs)
        d = VERSIONS[v][0]
        if x < 0.5:
            local = r.random() < 0.12
            s = install(r, v, win)
            if local:
                s["plan"]["local"] = True
            if r.random() < 0.12 and not win:
                s["deny"] = r.choice(["create", "search"])
                s["denied"] = True
            steps.append(s)
        elif x < 0.62:
            steps.append({"op": "list", "args": []})
        elif x < 0.8:
            y = r.random()
            if y < 0.7 or d != v:
                steps.append({"op": "remove", "dir": d, "args": [d] if d != v else vargs(r, v)})
            else:
                steps.append({"op": "remove", "dir": "", "args": [r.choice(["..", ".", "../outside", "../outside/20.1.0", v + "/include", "nothing/..",
                              v + "/../" + VERSIONS[vs[0]][0], "../mod", "./" + v, "../cache/" + v])]})
                if r.random() < 0.3:
                    steps[-1]["args"] = ["--target=" + steps[-1]["args"][0]]
        elif x < 0.88:
            steps.append({"op": "world", "what": "build", "dir": "", "text": r.choice(["dir", "dir", "link", "file", "none"])})
            steps.append({"op": "clean", "args": []})
        else:
            steps.append({"op": "world", "what": r.choice(["marker", "marker", "nomarker"]), "dir": d, "text": r.choice([f"{LAYOUT - 1}\n", f"{LAYOUT + 1}\n", "", "x9", f" {LAYOUT}", "0"])})
    H = {"win": win, "start": start_cache(r), "steps": steps, "tag": "history" + ("-win" if win else ""), "devdir": r.choice(["abs", "abs", "rel", "home"]), "nocache": r.random() < 0.1}
    if H["nocache"]:
        H["start"] = {}
    return H


def fault_history(r, win=False):
    """One command interrupted or hit by a failing system call, then a conditional install and a listing."""
    v = r.choice(list(VERSIONS))
    d = VERSIONS[v][0]
    steps = []
    before = r.choice(["none", "good", "good", "good2", "old", "partial"])
    start = {}
    if before in ("good", "good2"):
        steps.append(install(r, v, win, plan=good_plan(1 if before == "good" else 2), ensure=False))
    elif before == "old":
        start[d] = dict(OLD, installVersion=f"{LAYOUT - 1}\n")
    elif before == "partial":
        start[d] = dict(OLD)
    kind = r.choice(["kill", "kill", "kill", "half", "fail", "fail"])
    at = r.randint(1, 75 if win else 55)
    fs = {"kill": {"FS_KILL_AT": at}, "half": {"FS_KILL_AT": at, "FS_HALF": 1}, "fail": {"FS_FAIL_AT": at, "FS_ERRNO": r.choice(ERRS)}}[kind]
    if win and r.random() < 0.4:
        fs["match"] = "tmp"
    if r.random() < 0.8:
        s = install(r, v, win, plan=None if r.random() < 0.35 else good_plan(r.choice([1, 2])), ensure=r.random() < 0.3, fs=fs)
        if before.startswith("good") and s["ensure"]:
            s["ensure"] = False
    else:
        s = {"op": "remove", "dir": d, "args": [d], "fs": dict(fs)}
        for k in ("FS_KILL_AT", "FS_FAIL_AT"):
            if k in fs:
                s["fs"][k] = r.randint(1, 16)
    steps.append(s)
    steps.append(install(r, v, win, plan=good_plan(1), ensure=True))
    if r.random() < 0.3:
        steps.append({"op": "list", "args": []})
    return {"win": win, "start": start, "steps": steps, "tag": f"fault-{kind}" + ("-win" if win else ""), "devdir": "abs"}


def broken_releases(r):
    """Every archive that cannot be used, published as it is or supplied as a file, on either platform, over nothing or over an older copy."""
    out = []
    for arc in sorted(ARCS):
        if arc < 3:
            continue
        for local in (False, True):
            for win in (False, True):
                v = r.choice(list(VERSIONS))
                p = good_plan(arc, 1)
                p["local"] = local
                start = {VERSIONS[v][0]: dict(OLD, installVersion=f"{LAYOUT - 1}\n")} if r.random() < 0.5 else {}
                steps = [install(r, v, win, plan=p, ensure=bool(start)), install(r, v, win, plan=good_plan(1), ensure=True)]
                out.append({"win": win, "start": start, "steps": steps, "tag": "broken release" + ("-win" if win else ""), "devdir": "abs"})
    return out
