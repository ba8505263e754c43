"""Worlds about the form of the input (G14): well-formed files, and files with one or two things wrong."""
from gyplib import World

TYPES = ["none", "executable", "static_library", "shared_library", "loadable_module"]
EXTS = ["c", "cc", "idl", "in", "x.y", "h", "7"]
DIRS = ["", "a/", "a/b/"]


def action(r, n):
    a = {"action_name": f"act{n}" if r.random() < 0.9 else str(n), "inputs": [r.choice(["i.txt", "../j"]) for _ in range(r.randint(0, 2))], "outputs": [f"o{n}"], "action": ["cp", "i", "o"]}
    if r.random() < 0.15:
        a["action"] = []
    if r.random() < 0.1:
        del a["action"]
    if r.random() < 0.3:
        a["message"] = "Making"
    return a


def target(r, name, others):
    t = {"target_name": name, "type": r.choice(TYPES)}
    if r.random() < 0.8:
        t["sources"] = [r.choice(["a", "b", "d/c", "e.f", ".hid", "x.y", "12"]) + r.choice(["", "."] + ["." + e for e in EXTS] * 3) for _ in range(r.randint(0, 6))]
    if r.random() < 0.6:
        t["rules"] = [{"rule_name": f"r{i}" if r.random() < 0.9 else str(i), "extension": r.choice(["", "."]) + e, "inputs": [], "outputs": ["<(INTERMEDIATE_DIR)/g.o"], "action": ["gen"]}
                      for i, e in enumerate(r.sample(EXTS, r.randint(1, 3)))]
    if r.random() < 0.6:
        t["actions"] = [action(r, i) for i in range(r.randint(1, 2))]
    if r.random() < 0.3:
        t["run_as"] = {"action": ["prog", "arg"], **({"working_directory": "wd"} if r.random() < 0.5 else {}), **({"environment": {"A": "b"}} if r.random() < 0.5 else {})}
        if r.random() < 0.2:
            t["run_as"] = {}
    if r.random() < 0.25:
        t["standalone_static_library"] = 1 if t["type"] == "static_library" else 0
    if others and r.random() < 0.5:
        t["dependencies"] = [":" + r.choice(others)]
    if r.random() < 0.3:
        t["defines"] = ["A", "B=1"]
    if r.random() < 0.3:
        # what is a number and what only looks like one
        t["defines"] = t.get("defines", []) + [r.choice([0, 7, -3, "0", "00", "-0", "007", "+1", "1_0", " 1", "-12", "-", "1 ", "-01", "10", "1.0", "0x1"]) for _ in range(r.randint(1, 3))]
    return t


def spoil(r, w, f):
    """One thing that is wrong with file f of world w."""
    b = w.files[f]
    ts = b.get("targets", [])
    t = r.choice(ts)
    k = r.randrange(27)
    rules, acts = t.setdefault("rules", []), t.setdefault("actions", [])
    rule = {"rule_name": "rz", "extension": "z", "outputs": ["o"], "action": ["g"]}
    if k == 0:
        t["type"] = r.choice(["exe", "", "Executable", "bundle", "static-library", 1])
    elif k == 1:
        t.pop("type", None)
    elif k == 2:
        t.pop("target_name", None)
    elif k == 3:
        ts.append({"target_name": t.get("target_name", "t0"), "type": "none"})
    elif k == 4:
        t["standalone_static_library"] = 1
        t["type"] = r.choice(TYPES)
    elif k == 5:
        rules += [dict(rule, extension="q"), dict(rule, **r.choice([{}, {"rule_name": "ry"}, {"extension": "w"}]))]
        rules.append(dict(r.choice(rules)))
    elif k == 6:
        rules += [rule, dict(rule, rule_name="ry", extension=r.choice([".z", "z", ".zz", "Z"]))]
    elif k == 7:
        rules.append(dict(rule, rule_sources=["a.z"]))
    elif k == 8:
        rules.append({x: y for x, y in rule.items() if x != r.choice(["rule_name", "extension"])})
    elif k == 9:
        acts.append({x: y for x, y in action(r, 9).items() if x != "action_name"})
    elif k == 10:
        acts.append(dict(action(r, 9), action_name=""))
    elif k == 11:
        acts.append({x: y for x, y in action(r, 9).items() if x != "inputs"})
    elif k == 12:
        acts.append(dict(action(r, 9), action=[r.choice(["", "ok"]), "x"]))
    elif k == 13:
        t["run_as"] = r.choice(["prog", ["prog"], {"action": "prog"}, {"action": []}, {"environment": {"A": "b"}}, {"action": ["a"], "working_directory": ["x"]},
                                {"action": ["a"], "environment": ["A=b"]}, {"action": ["a"], "environment": "A=b"}, {"action": ["a"], "working_directory": ""}])
    elif k == 14:
        b["included_files"] = []
    elif k == 15:
        b["target_defaults"] = {"defines": ["D"]}
        del b["targets"]
    elif k == 16:
        w.files[f] = r.choice([[b], "text", 3])
    elif k == 17:
        x = r.choice([None, 1.5, ("a",)])
        where = r.randrange(5)
        if where == 0:
            t["odd"] = x
        elif where == 1:
            t["odd"] = ["a", x]
        elif where == 2:
            t["odd"] = {"in": {"ner": x}}
        elif where == 3:
            t["variables"] = {"v": x}
        else:
            t["conditions"] = [[r.choice(["OS==\"linux\"", "OS==\"beos\""]), {"odd": x}]]
    elif k == 18:
        w.dup[f] = r.choice(["target_name", "targets", "action_name"])
        if "{" + repr(w.dup[f]) + ": " not in repr(w.files[f]):
            del w.dup[f]
        elif w.dup[f] == "targets" and list(b)[0] != "targets":
            del w.dup[f]
    elif k == 19:
        t["dependencies"] = [r.choice([":nosuch", "nofile.gyp:t0", "nofile.gyp:*", ":"])]
    elif k == 20:
        t["conditions"] = r.choice([[["OS"]], [["OS==", {}]], ["x"], [[]], [["OS==\"linux\"", {"defines": ["L"]}, {"x": "1"}, {"y": "1"}]], [["nosuch==1", {}]], {"a": {}}])
    elif k == 21:
        w.extra[f] = r.choice(["{", "{'targets': [}", "", "{'a': b}", "{'targets': open('/dev/null')}", "import os", "{'targets': ['a' 'b'", "{} {}"])
        w.files[f] = "text"
    elif k == 22:
        b["includes"] = ["nosuch.gypi"]
    elif k == 23:
        t["sources/"] = r.choice([[["exclude", "c$"]], [["remove", "c$"]], "c$", [["include", "x"]]])
    elif k == 24:
        t["sources!"] = r.choice(["a.c", ["a.c"], {"a": "b"}])
    elif k == 25:
        t["default_configuration"] = r.choice(["Default", "NoSuch"])
        t["configurations"] = {"Default": {"defines": ["X"]}, "Base": {"abstract": 1}, "C": {"inherit_from": [r.choice(["Base", "Nope"])]}}
    elif k == 26:
        t["configurations"] = {"Default": {r.choice(["sources", "defines", "type", "cflags", "rules", "target_name"]): ["x"]}}


def forms_world(r):
    files = {}
    names = [r.choice(DIRS) + "p.gyp"] + ([r.choice(DIRS) + "q.gyp"] if r.random() < 0.3 else [])
    for f in names:
        seen, ts = [], []
        for i in range(r.randint(1, 3)):
            name = f"{f[-5]}{i}" if r.random() < 0.8 else f"{i + 4}"
            ts.append(target(r, name, seen))
            seen.append(name)
        files[f] = {"targets": ts}
        if r.random() < 0.3:
            files[f]["target_defaults"] = {"defines": ["DD"], **({"rules": [{"rule_name": "rd", "extension": "idl", "outputs": ["o"], "action": ["g"]}]} if r.random() < 0.4 else {})}
    w = World(files, names, check=r.random() < 0.5, tag="forms")
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        f = r.choice(names)
        if isinstance(w.files[f], dict) and isinstance(w.files[f].get("targets"), list):
            spoil(r, w, f)
    w.dup = {f: k for f, k in w.dup.items() if "{" + repr(k) + ": " in repr(w.files[f])}
    return w
