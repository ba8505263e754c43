"""Worlds about block contents: G04 merging, G05 variables and conditions, G06 filters, G07 configurations, G10 includes."""
import os
from gyplib import World
from gen_graph import rel

DIRS = ["", "a/", "a/b/", "c/", "a/b/d/"]
PATHS = ["x.c", "../x.c", "sub/y.c", "./z.c", "a/../w.c", "/abs/q.c", "$(V)/p.c", "-Idir", "dir/", "../up/", ".", "..", "'q r.c'",
         "^(nothere", "x y.c", "http://h/a", "a//b.c", "'-lq.c'", "\"-x/../y.c\"", "\"/abs/../r.c\"", "'$(V)/s.c", "\"u.c", "-l/../v"]
PATHS = [p for p in PATHS if not p.startswith("^")] + ["x.c", "y.c", "2024", 7, "-8", "07"]
VALS = ["A", "B", "C", "A=1", "D", "-f", "-g", "-f", "", "x.c", 0, 1, 2, "07", "-0", "00"]
PATHKEYS = ["sources", "include_dirs", "my_dir_list", "libraries", "extra_files", "the_path_list", "inputs"]
LISTKEYS = ["defines", "cflags", "ldflags", "nums"] + PATHKEYS
SCALARPATHS = ["out_dir", "conf_file", "main_path"]


def block(r, depth, policies=True, bad=0.0, conflict=0.0):
    b = {}
    for k in r.sample(LISTKEYS, r.randint(0, 3)):
        ext = r.choice(["", "", "", "+", "=", "?"]) if policies else ""
        pool = PATHS if k in PATHKEYS else VALS
        b[k + ext] = [r.choice(pool) for _ in range(r.randint(0, 4))]
        if r.random() < 0.06:
            b[k + ext].append({"include_dirs": [r.choice(PATHS)], "name": "n"})
        if r.random() < 0.05:
            b[k + ext].append(["x.c", {"my_dir": "sub"}])
        if r.random() < conflict:
            b[k + r.choice([e for e in ("", "+", "=", "?") if e != ext])] = ["zz"]
        if r.random() < bad:
            b[k + ext] = r.choice(["str", {"a": 1}, 5])
    for k in r.sample(SCALARPATHS, r.randint(0, 1)):
        b[k] = r.choice(PATHS)
    for k in r.sample(["note", "level", "name2"], r.randint(0, 2)):
        b[k] = r.choice(["n1", "n2", 3, "4", 0, "0", "", 1])
    if depth > 0 and r.random() < 0.6:
        for k in r.sample(["settings", "my_block", "extra"], r.randint(1, 2)):
            b[k] = block(r, depth - 1, policies, bad, conflict)
            if r.random() < bad:
                b[k] = r.choice(["str", ["l"], 7])
    return b


def scrub(x):
    """Filters ('!' and '/') are not this generator's business; an empty policy key cannot occur."""
    return x


def merge_world(r):
    """Target blocks composed through every merge site: includes, target defaults, conditions, dependent settings."""
    nf = r.randint(1, 3)
    fnames = [r.choice(DIRS) + f"{'pqr'[i]}.gyp" for i in range(nf)]
    bad = 0.012 if r.random() < 0.2 else 0.0
    conflict = 0.02 if r.random() < 0.2 else 0.0
    files = {}
    incs = [r.choice(DIRS) + f"{'uvw'[i]}.gypi" for i in range(r.randint(0, 3))]
    for i, f in enumerate(incs):
        files[f] = {"target_defaults": block(r, 2, True, bad, conflict)} if r.random() < 0.4 else block(r, 2, True, bad, conflict)
    tops = [f for f in incs if "target_defaults" in files[f]]
    locs = [f for f in incs if "target_defaults" not in files[f]]
    n = 0
    owners = []
    for i, f in enumerate(fnames):
        ts = []
        for _ in range(r.randint(1, 2)):
            t = {"target_name": f"t{n}", "type": r.choice(["none", "executable", "static_library"])}
            t.update(block(r, 2, True, bad, conflict))
            if locs and r.random() < 0.5:
                t["includes"] = [rel(x, f) for x in r.sample(locs, r.randint(1, len(locs)))]
            if r.random() < 0.3 and locs:
                t["settings2"] = {"includes": [rel(r.choice(locs), f)], **block(r, 1)}
            if r.random() < 0.5:
                t["conditions"] = [["1==1", block(r, 2, True, bad, conflict)]] + (
                    [["OS==\"none\"", block(r, 1), block(r, 2, True, bad, conflict)]] if r.random() < 0.5 else [])
            if r.random() < 0.3:
                t["target_conditions"] = [["_type==\"none\"", block(r, 2), block(r, 2)]]
            for sec in ("all_dependent_settings", "direct_dependent_settings"):
                if r.random() < 0.5:
                    t[sec] = block(r, 2, True, bad, conflict)
            ts.append(t)
            owners.append((i, n, t))
            n += 1
        files[f] = {"targets": ts}
        if r.random() < 0.6:
            files[f]["target_defaults"] = block(r, 2, True, bad, conflict)
        if tops and r.random() < 0.6:
            files[f]["includes"] = [rel(x, f) for x in r.sample(tops, r.randint(1, len(tops)))]
    for i, k, t in owners:      # every target may receive from any later one
        deps = [(j, m) for j, m, _ in owners if m > k and r.random() < 0.6]
        if deps:
            t["dependencies"] = [f"t{m}" if j == i else rel(fnames[j], fnames[i]) + f":t{m}" for j, m in deps]
    # a target-level 'type' or 'target_name' can only come from the target itself here
    return World(files, fnames[:1] + [f for f in fnames[1:]], tag="merge")


# ------------------------------------------------------------------- G05
STRV = ["s1", "s2", "s3"]
LSTV = ["l1", "l2"]
INTV = ["i1"]
WORDS = ["a", "b", "x y", "c\"d e\"", "it", "k=v", "$(X)", "a;b", "", "-f", "7", "007", "-0", "-7", "+7", "back\\s", "p&q", "tick`t"]


def ref(r, names, sym, depth=0):
    n = r.choice(names)
    if depth == 0 and r.random() < 0.06 and "s3" in names:
        return f"{sym}({n[0]}{sym}(i1))" if "i1" in names and n[0] in "sl" else f"{sym}({n})"
    return f"{sym}({n})" if r.random() < 0.92 else f"{sym}( {n} )"


def text(r, names, syms, p_ref=0.6):
    parts = []
    for _ in range(r.randint(1, 3)):
        if names and r.random() < p_ref:
            sym = r.choice(syms)
            parts.append(ref(r, names, sym) if r.random() < 0.985 else f"{sym}@({r.choice(names)})")
        else:
            parts.append(r.choice(WORDS[:6] + ["-", "/", "lib", ".c", ":", "<", ">x", "^"]))
    return "".join(parts)


def item(r, names, syms):
    if names and r.random() < 0.3:
        return f"{r.choice(syms)}@({r.choice(names)})"
    return text(r, names, syms) if r.random() < 0.75 else r.choice(WORDS + [3])


ALLV = ["i1", "l1", "s1", "l2", "s2", "s3"]   # rank order: a definition refers to lower ones only


def variables(r, syms, pct=0.25, nest=True, sure=False):
    v = {}
    for k, n in enumerate(ALLV):
        if not sure and r.random() < 0.45:
            continue
        low = [m for m in ALLV[:k]]
        key = n + ("%" if r.random() < pct else "")
        if n in LSTV:
            v[key] = [item(r, low, syms) if r.random() < 0.4 else r.choice(WORDS + (['q\"r', "it's"] if r.random() < 0.1 else [])) for _ in range(r.randint(0, 3))]
        elif n in INTV:
            v[key] = r.choice([1, 2, "3", "1"])
        else:
            v[key] = text(r, low, syms) if r.random() < 0.45 else r.choice(WORDS)
        if nest and r.random() < 0.12:
            v.setdefault("variables", {})[n + r.choice(["", "%"])] = ["in"] if n in LSTV else "in"
    return v


def cond_expr(r, sym):
    def atom():
        x = r.random()
        if x < 0.22:
            return f"{r.choice(['s1', 's2', 's3'])}{r.choice(['==', '!='])}{r.choice(['\"a\"', chr(39) + 'b' + chr(39), '\"x y\"', '\"\"', '\"-f\"'])}"
        if x < 0.4:
            return f"i1{r.choice(['==', '!='])}{r.choice(['1', '2', '3', '\"1\"'])}"
        if x < 0.55:
            return f"\"{r.choice(['a', 'b', '-f', 'k=v'])}\" in {r.choice(['l1', 'l2'])}"
        if x < 0.63:
            return f"\"{r.choice(['a', 'b'])}\" in {r.choice(['s1', 's2'])}"
        if x < 0.75:
            return r.choice(["OS==\"linux\"", "OS!=\"linux\"", "OS==\"win\""])
        if x < 0.85:
            return f"{r.choice(['s1', 'l1', 'i1', 'l2'])}"
        if x < 0.93:
            return r.choice(["1==1", "1==0", "1", "0"])
        return f"\"{sym}(i1)\"==\"{r.choice(['1', '2', '3'])}\""
    e = atom()
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        e += r.choice([" and ", " or "]) + ("not " if r.random() < 0.2 else "") + atom()
    return ("not " if r.random() < 0.08 and " and " not in e and " or " not in e else "") + e


def vblock(r, names, syms, depth, late):
    b = {}
    if r.random() < 0.5:
        b["note" + r.choice("12")] = text(r, names, syms)
    if r.random() < 0.6:
        b[r.choice(["defines", "cflags", "opts"])] = [item(r, names, syms) for _ in range(r.randint(1, 3))]
    if r.random() < 0.25:
        b["objs"] = [{"k": text(r, names, syms), "l": [item(r, names, syms)]}, [item(r, names, syms)]]
    if r.random() < 0.2:
        b["echo_note"] = r.choice(syms) + "(_own)"
        b["own"] = text(r, names, syms[:1]) if r.random() < 0.5 else "ownval"
    if r.random() < 0.12:
        b["own_list"] = [r.choice(WORDS[:4]), r.choice(syms) + "(s1)"]
        b["args"] = [r.choice(syms) + "@(_own_list)"]
    if depth and r.random() < 0.55:
        n = vblock(r, names, syms, depth - 1, late)
        if r.random() < 0.6:
            n["variables"] = variables(r, syms)
        b["nested" + r.choice("12")] = n
    if depth and r.random() < 0.35:
        b[r.choice(["conditions", "conditions", "target_conditions"])] = conds(r, names, syms, depth - 1, late)
    return b


def conds(r, names, syms, depth, late):
    cs = []
    for _ in range(r.randint(1, 2)):
        c = [cond_expr(r, syms[0]), vblock(r, names, syms, depth, late)]
        x = r.random()
        if x < 0.35:
            c.append(vblock(r, names, syms, depth, late))
        elif x < 0.6:
            for _ in range(r.randint(1, 2)):
                c += [cond_expr(r, syms[0]), vblock(r, names, syms, depth, late)]
            if r.random() < 0.5:
                c.append(vblock(r, names, syms, depth, late))
        cs.append(c)
    return cs


ARGV = ["p", "q r", "it's", 'd"q', "b\\s", "", "u-v", "k=v", "7"]
RAWV = ["p", "q r", "$HOME", "a;b", "*", "`id`", "&", "#x", "~", "", "7"]


def outside(r, t, d, cmds, extra):
    """Commands in all their forms: shell text, argument lists, Python modules; with references inside them."""
    n = sum(c.get("k") == "args" for c in cmds)
    mod = next((c["mod"] for c in cmds if c.get("k") == "args" and c["d"] == d), None)
    if mod is None:
        mod = f"argsmod{n}"
        cmds.append({"k": "args", "c": "./args.sh", "d": d, "file": "args.sh", "mod": mod, "out": "", "code": 0,
                     "script": "for a in \"$@\"; do printf '[%s]' \"$a\"; done\necho\n"})
        extra[os.path.join(d, mod + ".py")] = ("import os\ndef DoMain(args):\n    return (''.join('[%s]' % a for a in args) + '\\n ') "
                                               f"if os.path.exists('{mod}.py') else 'elsewhere'\n")
    v = t.setdefault("variables", {})
    v["av"], v["avl"] = r.choice(["p", "q", "u-v"]), [r.choice(ARGV if r.random() < 0.2 else ARGV[:2] + ARGV[4:]) for _ in range(r.randint(0, 3))]
    v["rv"] = r.choice([x for x in RAWV if "`" not in x])
    sym = r.choice(["<", "<", ">"])
    for k in range(r.randint(1, 3)):
        at, sp = r.choice(["", "", "@"]), r.choice(["", "", " "])
        x = r.random()
        if x < 0.3:
            body = f"{sp}sh ./args.sh " + " ".join(r.choice([f"{sym}@(avl)", f"{sym}(av)", "lit", "'s t'", f'"{sym}(av) w"', f"{sym}(avl)"]) for _ in range(r.randint(0, 3)))
            word = ""
        elif x < 0.6:
            body, word = mod + " " + " ".join(r.choice([f"{sym}(avl)", f"{sym}(av)", "lit", "'s t'"]) for _ in range(r.randint(0, 3))), "pymod_do_main"
        elif x < 0.9:
            q = r.choice(["'", '"'])
            args = ["sh", "./args.sh"] + [r.choice([f"{sym}(av)", f"{sym}(rv)", f"x {sym}(rv)"] + RAWV) for _ in range(r.randint(0, 3))]
            body, word = sp + "[" + r.choice([", ", ","]).join(q + a + q for a in args) + "]", ""
        elif x < 0.985:
            # one text, two kinds of command
            if not any(c["c"] == "echo hi" and c["d"] == d for c in cmds):
                cmds.append({"k": "sh", "c": "echo hi", "d": d, "file": "unused.txt", "script": "", "out": "hi\n", "code": 0})
                cmds.append({"k": "mod", "c": "echo hi", "d": d, "file": "echo.py", "script": "def DoMain(args):\n    return 'module ' + args[0]\n", "out": "module hi", "code": 0})
            body, word = "echo hi", r.choice(["", "pymod_do_main"])
            t[f"out_both{k}"] = f"{sym}!{'' if word else 'pymod_do_main'}(echo hi)"
        else:
            body, word = r.choice([("echo hi", "nosuchword"), ("nomodule x", "pymod_do_main"), ("['no-such-program']", ""), ("[sh]", "")])
        s = f"{sym}!{at}{word}({body})"
        if at or r.random() < 0.3:
            t[f"out_l{k}"] = ["b", s, "e"]
        else:
            t[f"out_s{k}"] = r.choice(["", "", "pre "]) + s


def file_lists(r, t, d, flists, syms):
    sym = r.choice(syms)
    v = t.setdefault("variables", {})
    v["fl"] = [r.choice(["x.c", "y.c", "z.h", "s p", "+", "v,w", f"{sym}(s2)" if r.random() < 0.2 else "n:o"]) for _ in range(r.randint(0, 4))]
    if r.random() < 0.5:
        v["fl!"] = [r.choice(["x.c", "y.c", "none"])]
    if r.random() < 0.4:
        v["fl/"] = [[r.choice(["exclude", "include"]), r.choice(["c$", "^x", "h"])] for _ in range(r.randint(1, 2))]
    for k in range(r.randint(1, 2)):
        name = f"flist{len(flists)}.txt"
        if r.random() < 0.02:
            name = "/abs/" + name
        else:
            flists.append([d, name])
        s = f"{sym}|(" + " ".join([name] + [r.choice([f"{sym}(fl)", f"{sym}@(fl)", f"{sym}(s1)", "lit", "", f"{sym}(_defines)" if "defines" in t else "-f"]) for _ in range(r.randint(0, 3))]) + ")"
        x = r.random()
        if x < 0.4:
            t[f"fl{k}"] = ["-f", s]
        elif x < 0.8:
            t[f"fl{k}"] = r.choice(["", "@"]) + s
        else:
            v[f"flv{k}"] = s
            t[f"fl{k}"] = f"{sym}(flv{k})"
    # (whether a sibling list is seen before or after its expansion is not specified)
    if "defines" in t and r.random() < 0.3 and all(isinstance(x, str) and not set(x) & set("<>^") for x in t["defines"]):
        t["defines!"] = [r.choice(t["defines"] + ["none"])]


def values_world(r):
    """One or two files whose blocks are full of references and conditions, in every phase."""
    files, cmds, extra, flists = {}, [], {}, []
    fnames = [r.choice(DIRS) + "p.gyp"] + ([r.choice(DIRS) + "q.gyp"] if r.random() < 0.3 else [])
    undef = r.random() < 0.06
    for fi, f in enumerate(fnames):
        early, late = ["<"], ["<", ">", ">", "^"]
        names = list(ALLV)
        td = {"variables": variables(r, early, sure=True, nest=False, pct=0.0)}
        ts = []
        for k in range(r.randint(1, 2)):
            syms = r.choice([["<"], ["<", "<", ">"], ["<", ">", "^"]])
            t = {"target_name": f"{'pq'[fi]}{k}", "type": "none"}
            if r.random() < 0.7:
                t["variables"] = variables(r, ["<"] if r.random() < 0.7 else ["<", ">"])
            t.update(vblock(r, names, syms, 2, True))
            if r.random() < 0.15:
                t["target_name_copy"] = "<(_target_name)" if r.random() < 0.5 else ">(_target_name)-x"
            if undef and r.random() < 0.5:
                t["oops"] = r.choice(["<(nosuch)", ">(nosuch)", "^(nosuch)", "<(nosuch!)", ">@(nosuch/)"])
            if r.random() < 0.04:
                t["conditions"] = [[r.choice(["1==1", "s1=="]), {}, {}, {}] if r.random() < 0.5 else r.choice([["nosuch==1", {}], ["1==1"], "1==1", ["1=1", {"a": "b"}]])]
            if r.random() < 0.2:
                d = os.path.dirname(f)
                c = len(cmds)
                out, code = r.choice([("v1\n", 0), ("a b \"c d\"\n\n", 0), ("  x", 0), ("", 0), ("no", 3), ("7\n", 0), ("dead", 137)] if r.random() < 0.3
                                     else [("v1\n", 0), ("a b \"c d\"\n\n", 0), ("x", 0), ("7\n", 0)])
                body = f"echo r >> \"$0.ran\"\nprintf '%s' '{out}'\n" + ("kill -9 $$\n" if code == 137 else f"exit {code}\n")
                cmds.append({"c": f"sh ./cmd{c}.sh", "d": d, "file": f"cmd{c}.sh", "script": body, "out": out, "code": code})
                sym = r.choice(["<", "<", ">"])
                t["from_cmd"] = f"{sym}!(sh ./cmd{c}.sh)"
                t["from_cmd_list"] = [f"{sym}!@(sh ./cmd{c}.sh)", "end"]
            if r.random() < 0.25:
                outside(r, t, os.path.dirname(f), cmds, extra)
            if r.random() < 0.2:
                file_lists(r, t, os.path.dirname(f), flists, syms)
            ts.append(t)
        files[f] = {"targets": ts, "target_defaults": td}
        if r.random() < 0.5:
            td.update(vblock(r, names, ["<"], 1, False))
        if r.random() < 0.6:
            files[f]["variables"] = variables(r, ["<"], pct=0.4)
        if r.random() < 0.3:
            files[f]["conditions"] = [[cond_expr_file(r), {"target_defaults": {"defines": ["FROMCOND"]}},
                                       {"target_defaults": {"defines": ["ELSE"]}}]]
    dv = {"i1": r.choice([1, 2]), "s1": r.choice(["a", "b", "cl x"]), "s2": r.choice(["a", "clv"]), "s3": "z", "l1": "la", "l2": "lb c"}
    if undef and r.random() < 0.3:
        dv.pop(r.choice(list(dv)))
    w = World(files, fnames, dvars=dv, cmds=cmds, tag="values", extra=extra)
    w.flists, w.flout = flists, r.random() < 0.5
    return w


def cond_expr_file(r):
    return r.choice(["OS==\"linux\"", "OS==\"mac\"", "i1==1", "s1==\"a\" or i1==2", "not s3"])


# ------------------------------------------------------------------- G06
FITEMS = ["a.c", "b.c", "a_win.cc", "b_win.cc", "a_mac.cc", "win/x.c", "x.c", "-f", "A", "x+y", "a.b.c", 1, 2, "10"]
PATS = [r"_win\.cc$", r"\.c$", "^a", "^win/", "x", ".*", "a.c", r"x\+y", "^$", "z", "1", "b.*c$", "", r"_mac\.cc$"]


def flt_lists(r, key, bad):
    b = {}
    if r.random() < 0.93:
        b[key] = [r.choice(FITEMS) for _ in range(r.randint(0, 6))]
    if r.random() < 0.6:
        b[key + "!"] = [r.choice(FITEMS) for _ in range(r.randint(0, 3))]
    if r.random() < 0.65:
        b[key + "/"] = [[r.choice(["exclude", "exclude", "include"]), r.choice(PATS)] for _ in range(r.randint(1, 4))]
    if r.random() < bad:
        x = r.random()
        if x < 0.25:
            b[key + "!"] = "a.c"
        elif x < 0.5:
            b[key] = r.choice(["scalar", {"d": 1}])
        elif x < 0.75:
            b[key + "/"] = [["remove", "x"]]
        else:
            b[key + "_excluded"] = ["old"]
    ks = list(b)
    r.shuffle(ks)
    return {k: b[k] for k in ks}


def flt_block(r, depth, bad):
    b = {}
    for k in r.sample(["defines", "names", "opts", "cflags"], r.randint(1, 3)):
        b.update(flt_lists(r, k, bad))
    if depth and r.random() < 0.7:
        b["nested"] = flt_block(r, depth - 1, bad)
    if depth and r.random() < 0.4:
        b["objs"] = [flt_block(r, depth - 1, bad), [flt_block(r, 0, bad), "x"], "y"]
    return b


def filter_world(r):
    bad = 0.04 if r.random() < 0.2 else 0.0
    t = {"target_name": "t0", "type": "none"}
    t.update(flt_block(r, 2, bad))
    if r.random() < 0.8:
        t.update(flt_lists(r, "sources", bad))
    if r.random() < 0.4:
        t.update(flt_lists(r, "libraries", bad))
    if r.random() < 0.4:
        t["configurations"] = {"D": flt_block(r, 1, bad), "R": flt_block(r, 1, bad)}
    if r.random() < 0.35:
        t["conditions"] = [["1==1", flt_block(r, 1, 0)]]
    files = {"p.gyp": {"targets": [t]}}
    if r.random() < 0.35:
        files["p.gyp"]["target_defaults"] = flt_block(r, 1, 0)
        if r.random() < 0.5:
            files["p.gyp"]["target_defaults"]["sources/"] = [["exclude", r"_win\.cc$"]]
    if r.random() < 0.35:
        u = {"target_name": "u0", "type": "none", "direct_dependent_settings": flt_block(r, 1, 0)}
        files["p.gyp"]["targets"].append(u)
        t["dependencies"] = ["u0"]
    return World(files, ["p.gyp"], tag="filters")


# ------------------------------------------------------------------- G07
def config_world(r):
    names = r.sample(["Debug", "Release", "debug", "A_1", "Base", "B-2", "x64", "86", "07"], r.randint(1, 5))
    bad = r.random() < 0.15

    def cblock(top=False):
        b = block(r, 1)
        for k in ("sources", "libraries"):
            for e in ("", "+", "=", "?"):
                b.pop(k + e, None)
        if r.random() < 0.3:
            b["msvs_settings"] = {"VCLinkerTool": {"k": [r.choice(VALS)]}}
        return b
    cfgs = {}
    for i, n in enumerate(names):
        b = cblock()
        if r.random() < 0.6 and len(names) > 1:
            ps = [m for m in (names if r.random() < 0.1 else names[i + 1:]) if r.random() < 0.6]
            r.shuffle(ps)
            if ps:
                b["inherit_from"] = ps
        if r.random() < 0.3:
            b["abstract"] = r.choice([1, 1, 0, "1"])
        if bad and r.random() < 0.2:
            b[r.choice(["sources", "type", "libraries", "dependencies", "target_name", "all_dependent_settings", "actions"])] = r.choice([["x"], "x"])
        if bad and r.random() < 0.15:
            b["inherit_from"] = ["NoSuch"]
        cfgs[n] = b
    order = list(cfgs)
    r.shuffle(order)
    cfgs = {k: cfgs[k] for k in order}
    t = {"target_name": "t0", "type": r.choice(["none", "executable", "static_library"])}
    t.update(block(r, 2))
    if r.random() < 0.85:
        t["configurations"] = cfgs
    if r.random() < 0.3:
        t["default_configuration"] = r.choice(names + (["NoSuch"] if bad else []))
    if r.random() < 0.4:
        t["actions"] = [{"action_name": "a", "inputs": ["i"], "outputs": ["o"], "action": ["x"]}]
    if r.random() < 0.3:
        t["product_name"] = "prod"
        t["product_dir"] = "out"
    if r.random() < 0.3:
        t["suppress_wildcard"] = 1
    if r.random() < 0.3:
        t["mac_bundle"] = 1
        t["xcode_settings"] = {"A": "B"}
    if r.random() < 0.2:
        t["variables"] = {"v": "1"}
    for k in ("sources", "libraries", "defines"):
        if r.random() < 0.25 and not any(k + e in t for e in ("", "+", "=", "?")):
            t[k] = ["x.c"] if k == "sources" else ["v"]
        if r.random() < 0.2:
            t[k + r.choice(["!", "+", "?", "="])] = ["v"]
    files = {"a/p.gyp": {"targets": [t]}}
    if r.random() < 0.4:
        files["a/p.gyp"]["target_defaults"] = {"configurations": {n: cblock() for n in r.sample(names, r.randint(1, len(names)))},
                                               **({"default_configuration": names[0]} if r.random() < 0.4 else {})}
    if r.random() < 0.3:
        files["q.gyp"] = {"targets": [{"target_name": "u", "type": "none", "all_dependent_settings": {"defines": ["PUB"], "my_dir": "x"}}]}
        t["dependencies"] = ["../q.gyp:u"]
    blocks = [t] + list(cfgs.values()) + list(files["a/p.gyp"].get("target_defaults", {}).get("configurations", {}).values())
    for k in ("sources", "libraries", "defines", "cflags", "include_dirs"):
        # patterns, on lists of plain items only (the text of a dictionary is nobody's contract)
        if r.random() < 0.2 and all(isinstance(x, str) for b in blocks for e in ("", "+", "?", "=") if isinstance(b.get(k + e), list) for x in b[k + e]):
            b = t if k in ("sources", "libraries") else r.choice(blocks)
            b[k + "/"] = [[r.choice(["exclude", "include"]), r.choice(["x", "v", "^."])] for _ in range(r.randint(1, 2))]
    return World(files, ["a/p.gyp"], tag="configs")


# ------------------------------------------------------------------- G10
def include_world(r):
    nf = r.randint(1, 3)
    fnames = [r.choice(DIRS) + f"{'pqr'[i]}.gyp" for i in range(nf)]
    ni = r.randint(1, 5)
    incs = [r.choice(DIRS) + f"i{i}.gypi" for i in range(ni)]
    files = {}
    multi = r.random() < 0.5
    bad = r.random() < 0.07
    kinds = [r.choice(["top", "local"]) for _ in range(ni)]

    def local():
        b = {}
        if r.random() < 0.7:
            b["defines" + r.choice(["", "", "", "+", "+", "?" if r.random() < 0.3 else "", "=" if r.random() < 0.3 else "+"])] = [r.choice("ABCDE") + r.choice(["", "1"]) for _ in range(r.randint(1, 2))]
        if r.random() < 0.7:
            b["include_dirs"] = [r.choice(["inc", "../i2", ".", "/abs", "sub/x/", "$(V)/z"]) for _ in range(r.randint(1, 2))]
        if r.random() < 0.4:
            b["sources" + r.choice(["", "+"])] = [r.choice(["s.c", "../t.c", "d/u.c"])]
        if r.random() < 0.3:
            b["note"] = r.choice(["n1", "n2"])
        return b

    for i in reversed(range(ni)):
        nested = [rel(incs[j], incs[i]) for j in range(i + 1, ni) if kinds[j] == kinds[i] and r.random() < 0.5]
        locs = [rel(incs[j], incs[i]) for j in range(i + 1, ni) if kinds[j] == "local" and r.random() < 0.3]
        b = local() if kinds[i] == "local" else {"target_defaults": {**local(), **({"includes": locs} if locs else {})}}
        if kinds[i] == "top" and r.random() < 0.4:
            b["variables"] = {"v%": f"from{i}"}
        if nested:
            b["includes"] = nested
        if bad and r.random() < 0.3:
            b["includes"] = b.get("includes", []) + ["nothere.gypi"]
        if r.random() < 0.05:
            b["skip_includes"] = r.choice([1, 0])
        files[incs[i]] = b
    names = []
    for i, f in enumerate(fnames):
        ts = []
        for k in range(r.randint(1, 3)):
            t = {"target_name": f"{'pqr'[i]}{k}", "type": "none", **local()}
            ls = [rel(incs[j], f) for j in range(ni) if kinds[j] == "local" and r.random() < 0.4]
            if ls:
                r.shuffle(ls)
                t["includes"] = ls + ([r.choice(ls)] if r.random() < 0.1 else [])
            if multi and r.random() < 0.6:
                t["toolsets"] = r.choice([["host", "target"], ["host"], ["target"], ["target", "host"], []])
            if r.random() < 0.15:
                t["conditions"] = [["_toolset==\"host\"" if multi and 0 else "1==1", local()]]
            if r.random() < 0.15:
                t["target_conditions"] = [["_toolset==\"host\"", {"defines": ["HOSTONLY"]}, {"defines": ["TARGETONLY"]}]]
            ts.append(t)
        b = {"targets": ts}
        if r.random() < 0.6:
            b["target_defaults"] = local()
        tl = [rel(incs[j], f) for j in range(ni) if kinds[j] == "top" and r.random() < 0.5]
        if tl:
            b["includes"] = tl
        if r.random() < 0.2:
            b["conditions"] = [["1==1", {"targets": [{"target_name": f"{'pqr'[i]}c", "type": "none",
                                **({"toolsets": ["host", "target"]} if multi and r.random() < 0.5 else {}), **local()}]}]]
        if r.random() < 0.3:
            b["variables"] = {"v": "own", "w": "<(v)" if 0 else "x"}
        for t in ts:
            if r.random() < 0.25:
                t["at_depth"] = r.choice("<>^") + "(DEPTH)/x"
            if r.random() < 0.15:
                t["some_list"] = [r.choice("<>") + "(DEPTH)/y", "z"]
        files[f] = b
    for i, f in enumerate(fnames[:-1]):
        if r.random() < 0.6:
            files[f]["targets"][0].setdefault("dependencies", []).append(rel(fnames[i + 1], f) + ":*" + ("#*" if multi else ""))
    incl = [incs[j] for j in range(ni) if kinds[j] == "top" and r.random() < 0.25]
    roots = fnames[:1] + [f for f in fnames[1:] if r.random() < 0.6]
    return World(files, roots, incl=incl, multi=multi, tag="includes")
