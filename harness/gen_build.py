"""Projects that can be built: gyp files plus the sources, headers and data they name (G09, G11, G12)."""
import os
from gyplib import World

ODD = ["A=1", "NDEBUG", "Q=\"q s\"", "S='x y'", "D=$HOME", "H=a#b", "B=a\\b", "P=(x)", "M=a;b", "C=%x", "W=*", "N=a&b|c", "L=<x>", "T=`x`", "X=~", "K=a,b",
       "R={}", "E=!", "U=^", "G=a  b", "I=:", "Z=$(NOPE)", "Y=$$", "V=\\", "O=", "F=\\\"", "J=\"\\\"s\\\"\"", "AA=a\\#b", "AB=[x]", "AC=?", "AD=a=b", "AE='", "AF=\"",
       "AG=$x", "AH=@f", "AI=-v", "AJ=a\\\\", "AK=#", "AL= l", "AM=\\$", "AN=a/b", "AO=${root}", "AP=$in", "AQ=a:b", "AR=%d%%"]
FUZZ = " \"'#$&()*,-./:;<=>?@[]^_`{|}~!%+\\\\\\$$  ab1"


def fuzz_define(r):
    import re
    while True:
        v = "".join(r.choice(FUZZ) for _ in range(r.choice([1, 2, 3, 5, 8, 30])))
        if not re.search(r"[<>^][!|@]*\(", v):
            return f"{r.choice('ABCDE')}{r.randint(0, 99)}={v}"


def fuzz_word(r):
    import re
    while True:
        v = "".join(r.choice(FUZZ.replace("$", "")) for _ in range(r.choice([1, 2, 3, 5, 12])))
        if not re.search(r"[<>^][!|@]*\(", v):
            return v


PLAIN = ["A=1", "NDEBUG", "B=2", "V=\"1.2\"", "C=x_y", "D"]
LITS = ["lit", "two words", "a;b", "x&y", "(p)", "q\"r", "s't", "*", "a|b", "-flag", "--name=v", "<in", ">out", "a\\b", "~", "`x`", "!", "a,b", "[z]", "{y}", "%s", "=", "", "", "a#b", "x\\", " lead", "--in2", "''", '""', "a\tb", "&&", "\\\""]
EXTS = [".c", ".cc", ".cpp", ".cxx", ".c", ".cc", ".S", ".s"]


class Project:
    """files: gyp files (python values); extra: other files (path -> text)"""
    def __init__(self):
        self.files, self.extra = {}, {}


def relto(p, d):
    return os.path.relpath(p, d or ".")


def build_project(r, odd=True, simple=False, multi=False, cross=False, reldirs=False):
    P = Project()
    dirs = ["", "a", "b/c"][: r.choice([1, 2, 2, 3])] if not simple else ["", "a"]
    r.shuffle(dirs)
    root = dirs[-1]
    gyp = {d: os.path.join(d, f"{'xyz'[i]}.gyp") for i, d in enumerate(dirs)}
    blocks = {d: [] for d in dirs}
    nt = r.randint(2, 6) if not simple else r.randint(2, 4)
    info = []
    defs = lambda k: [f"T{len(info)}_" + x if r.random() < 0.3 else x for x in r.sample(ODD if odd else PLAIN, r.randint(0, k))] + ([fuzz_define(r) for _ in range(r.randint(0, 2))] if odd else [])
    hdrs = {}
    for d in dirs:
        for n in range(2):
            p = os.path.join(d, "inc", f"h{dirs.index(d)}_{n}.h")
            nested = f'#include "h{dirs.index(d)}_0.h"\n' if n == 1 and r.random() < 0.6 else ""
            P.extra[p] = nested + f"// header {p}\n"
            hdrs.setdefault(d, []).append(os.path.basename(p))
        P.extra[os.path.join(d, "data", f"d{dirs.index(d)}.txt")] = f"data {d}\n"
        P.extra[os.path.join(d, "data", f"in{dirs.index(d)}.in")] = f"rule input {d}\n"
    configs = r.choice([["Default"], ["Debug", "Release"], ["Debug", "Release"]])
    for i in range(nt):
        d = r.choice(dirs) if i < nt - 1 else root
        ty = r.choice(["static_library"] * 4 + ["executable"] * 3 + ["shared_library"] * 2 + ["none"] * 3 + ["loadable_module"])
        if i == nt - 1 and r.random() < 0.7:
            ty = r.choice(["executable", "shared_library", "loadable_module"])
        name = r.choice(["t", "lib", "mod-", "u_", "v."]) + str(i)
        t = {"target_name": name, "type": ty}
        me = {"d": d, "name": name, "ty": ty, "gen": [], "ix": i}
        deps = [x for x in info if dirs.index(x["d"]) <= dirs.index(d) and r.random() < (0.55 if len(info) < 4 else 0.4)]
        if deps:
            t["dependencies"] = [(relto(gyp[x["d"]], d) if x["d"] != d else "") + ":" + x["name"] for x in deps]
            if r.random() < 0.3:
                r.shuffle(t["dependencies"])
        sub = r.choice(["", "src/", "src/deep/"])
        linked = ty != "none"
        srcs, extra_inc = [], []
        incl = [f"#include \"{h}\"\n" for h in hdrs[d] if r.random() < 0.5]
        t["include_dirs"] = r.choice([["inc"], ["inc"], ["./inc/"], ["inc", "src"], ["../inc", "inc"] if d else ["inc", "data"]])
        gens = [g for x in deps if x["ty"] == "none" for g in x["gen"]]
        if gens and linked:
            t["include_dirs"] = t["include_dirs"] + ["<(SHARED_INTERMEDIATE_DIR)"]
            incl += [f"#include \"{g}\"\n" for g in gens if r.random() < 0.7]
        if linked:
            only_objects = r.random() < 0.12
            if only_objects or r.random() < 0.12:
                for n in range(r.choice([1, 1, 2])):
                    p = f"{r.choice([sub, 'pre/'])}obj{i}_{n}.o"
                    srcs.append(p)
                    P.extra[os.path.join(d, p)] = f"object {p}\n"
            for n in range(0 if only_objects else r.randint(1, 3)):
                e = r.choice(EXTS)
                p = f"{sub}s{i}_{n}{e}"
                srcs.append(p)
                mine = [x for x in incl if r.random() < 0.6]
                P.extra[os.path.join(d, p)] = "".join(mine) + f"// source {p}\n"
            if r.random() < 0.4:
                srcs.append(f"inc/{hdrs[d][0]}")
            if r.random() < 0.3 and not only_objects:
                x = r.choice([y for y in srcs if not y.endswith((".h", ".o"))])      # also compiled by another target of this directory
                me["shared"] = x
            for x in info:
                if x["d"] == d and x.get("shared") and r.random() < 0.5 and x["shared"] not in srcs and not any(os.path.splitext(z)[0] == os.path.splitext(x["shared"])[0] for z in srcs):
                    srcs.append(x["shared"])
                    t["include_dirs"] = t["include_dirs"] + [z for z in blocks_inc(blocks, x) if z not in t["include_dirs"]]
                    dn = [y for y in x["deps"]]
                    t.setdefault("dependencies", [])
                    for y in dn:
                        ref = (relto(gyp[y["d"]], d) if y["d"] != d else "") + ":" + y["name"]
                        if ref not in t["dependencies"]:
                            t["dependencies"].append(ref)
        me["deps"] = deps
        if linked:
            t["defines"] = defs(4)
            fl = lambda p, k: [f"-{p}{x}" for x in r.sample(["fa", "fb=1", "Wc", "O2", "m64", "std=x"], r.randint(0, k))]
            if r.random() < 0.7:
                t["cflags"] = fl("", 3)
            if r.random() < 0.5:
                t["cflags_c"] = fl("c", 2)
            if r.random() < 0.5:
                t["cflags_cc"] = fl("x", 2)
            if r.random() < 0.4:
                t["ldflags"] = r.sample(["-Wl,-z,now", "-pthread", "-Wl,--as-needed", "-rdynamic"], r.randint(1, 3))
            if r.random() < 0.25:
                t["library_dirs"] = r.sample(["/opt/none/lib", "/opt/none/../l2", "/opt/w-ld"] + (["lib", "./src/", "../up", "<(PRODUCT_DIR)/lib"] if reldirs else []), r.choice([1, 1, 2]))
            if r.random() < 0.4:
                t["libraries"] = r.sample(["-lm", "-ldl", "-lz", "-lm"], r.randint(1, 3))
        acts = []
        if r.random() < (0.8 if ty == "none" else 0.35):
            for k in range(r.choice([1, 1, 2])):
                lits = r.sample(LITS if odd else ["lit", "two words", "-f"], r.randint(0, 3)) + r.sample(["<(CONFIGURATION_NAME)", "--c=<(CONFIGURATION_NAME)", "<(SHARED_LIB_PREFIX)x<(SHARED_LIB_SUFFIX)", "<(STATIC_LIB_PREFIX)<(STATIC_LIB_SUFFIX)", "p<(EXECUTABLE_SUFFIX)", "<(OS)"], r.choice([0, 0, 1, 2])) + ([fuzz_word(r)] if odd and r.random() < 0.4 else [])
                kind = r.choice(["hdr", "src", "txt", "two" if multi else "txt", "obj" if r.random() < 0.5 else "src"]) if linked else r.choice(["hdr", "hdr", "txt", "two" if multi else "hdr"])
                ins = r.sample([f"data/d{dirs.index(d)}.txt", f"inc/{hdrs[d][0]}", f"inc/{hdrs[d][1]}"], r.randint(1, 2))
                prod = [x for x in deps if x["ty"] == "executable" and r.random() < 0.5]
                made = r.choice(["made/", "made/sub/", "../made/" if d else "./made/"]) if r.random() < 0.35 else ""     # in the source tree
                if kind == "hdr":
                    h = f"g{i}_{k}.h"
                    outs = [("<(SHARED_INTERMEDIATE_DIR)/" if ty == "none" or not made else made) + h]
                    if ty == "none":
                        me["gen"].append(h)
                    else:
                        own = [x for x in srcs if f"s{i}_" in x and x != me.get("shared") and not x.endswith((".h", ".o"))]
                        for x in own:
                            if r.random() < 0.7:
                                q = os.path.join(d, x)
                                P.extra[q] = f'#include "{h}"\n' + P.extra[q]
                        if own:
                            t["include_dirs"] = t["include_dirs"] + [x for x in [os.path.dirname(outs[0])] if x not in t["include_dirs"]]
                elif kind == "src":
                    outs = [f"{made or '<(INTERMEDIATE_DIR)/'}gs{i}_{k}{r.choice(['.cc', '.c'])}"]
                elif kind == "obj":
                    outs = [f"{made or '<(INTERMEDIATE_DIR)/'}go{i}_{k}.o"]
                elif kind == "two":
                    outs = [f"<(SHARED_INTERMEDIATE_DIR)/w{i}_{k}.h", f"{made or '<(PRODUCT_DIR)/'}w{i}_{k}.txt"]
                    if ty == "none":
                        me["gen"].append(f"w{i}_{k}.h")
                else:
                    outs = [f"{made or '<(PRODUCT_DIR)/'}{r.choice(['', 'res/'])}o{i}_{k}.txt"]
                a = {"action_name": f"act{i}_{k}", "inputs": ins + (["<(PRODUCT_DIR)/" + x["exe"] for x in prod]), "outputs": outs,
                     "action": ["tool"] + lits + sum([["--in", x] for x in ins + ["<(PRODUCT_DIR)/" + x["exe"] for x in prod]], []) + sum([["--out", x] for x in outs], [])}
                if kind in ("src", "obj"):
                    a["process_outputs_as_sources"] = 1
                if r.random() < 0.2:
                    a["message"] = "making"
                acts.append(a)
        if acts:
            t["actions"] = acts
        if r.random() < (0.35 if linked else 0.2):
            t["rules"] = []
            for ext in r.sample(["in", "tpl", "y"], r.choice([1, 1, 2, 3])):
                more = [f"data/in{dirs.index(d)}.in"] if ext == "in" else []
                for k in range(r.choice([0, 1, 2, 2, 3]) if more else r.choice([1, 2])):
                    q = f"src/{'r' if ext == 'in' else ext}{i}_{k}.{ext}"
                    P.extra[os.path.join(d, q)] = f"rule input {i} {k}\n"
                    more.append(q)
                srcs += more
                out = r.choice(["<(INTERMEDIATE_DIR)/"] * 3 + [f"made/u{i}", f"made/u{i}/<(RULE_INPUT_DIRNAME)/"]) + "<(RULE_INPUT_ROOT)" + r.choice([".cc", ".c"])
                outs = [out] + ([f"<(INTERMEDIATE_DIR)/{r.choice(['', 'deep/'])}<(RULE_INPUT_ROOT)_{i}.txt"] if multi and r.random() < 0.3 else [])
                ru = {"rule_name": f"rule{i}{ext if ext != 'in' else ''}", "extension": r.choice([ext, "." + ext]), "outputs": outs,
                      "action": ["tool2", "--in", "<(RULE_INPUT_PATH)"] + sum([["--out", x] for x in outs], []) + r.sample(["<(CONFIGURATION_NAME)", "<(RULE_INPUT_NAME)", "<(RULE_INPUT_EXT)", "<(RULE_INPUT_ROOT)", "<(RULE_INPUT_DIRNAME)", "lit", "two w"], r.randint(0, 3))}
                if linked and r.random() < 0.85:
                    ru["process_outputs_as_sources"] = 1
                if r.random() < 0.4:
                    ru["inputs"] = r.sample([f"data/d{dirs.index(d)}.txt", f"inc/{hdrs[d][0]}", f"inc/{hdrs[d][1]}"], r.choice([1, 1, 2, 3]))
                    ru["action"] += sum([["--in", x] for x in ru["inputs"]], [])
                t["rules"].append(ru)
        if r.random() < 0.25:
            t["copies"] = [{"destination": r.choice(["<(PRODUCT_DIR)/"] * 3 + ["made/"]) + r.choice([f"cp{i}", f"res{i}/deep", f"cp{i}/x"]) + (f"/n{k}" if k else ""), "files": r.sample([f"data/d{dirs.index(d)}.txt", f"inc/{hdrs[d][0]}"], r.randint(1, 2))} for k in range(r.choice([1, 1, 2, 3]))]
        if srcs:
            r.shuffle(srcs)
            t["sources"] = srcs
        if linked and r.random() < 0.2:
            t["product_name"] = r.choice([f"prod{i}"] * 3 + [f"libp{i}", f"lib.p{i}", f"p{i}.x"])
            if r.random() < 0.5:
                t["product_extension"] = "node"
            elif r.random() < 0.3:
                t["product_prefix"] = "pre"
        lib = ty in ("static_library", "shared_library", "loadable_module")
        me["out"] = t.get("product_prefix", "lib" if lib else "") + t.get("product_name", name[3:] if lib and name.startswith("lib") else name) + \
            ("." + t["product_extension"] if "product_extension" in t else {"static_library": ".a", "shared_library": ".so", "loadable_module": ".so"}.get(ty, ""))
        me["exe"] = t.get("product_prefix", "") + t.get("product_name", name) + ("." + t["product_extension"] if "product_extension" in t else "")
        if ty == "static_library" and r.random() < 0.2 and "toolsets" not in t and not cross:
            t["standalone_static_library"] = 1
        for sect in ("direct_dependent_settings", "all_dependent_settings", "link_settings"):
            if ty != "none" and r.random() < 0.25:
                if sect == "link_settings":
                    t[sect] = {"libraries": [f"-ll{i}"]}
                else:
                    t[sect] = {"defines": [f"{sect[:3].upper()}{i}"], "include_dirs": ["inc"]}
        if cross:
            tss = r.choice([["target"], ["target"], ["host"], ["host", "target"], ["host", "target"]])
            if ty in ("executable", "loadable_module") or t.get("copies") or "made/" in repr(t) or any("INTERMEDIATE_DIR)/gs" not in o and "INTERMEDIATE_DIR)/go" not in o for a in acts for o in a["outputs"]):
                tss = tss[:1]        # its outputs have one place
            me["ts"] = tss
            if tss != ["target"]:
                t["toolsets"] = tss
            if linked and len(tss) > 1:
                t["conditions"] = [["_toolset==\"host\"", {"defines": ["ON_HOST"]}, {"defines": ["ON_TARGET"]}]]
            for n, ref in enumerate(t.get("dependencies", [])):
                x = [y for y in info if y["name"] == ref.split(":")[1]][0]
                for ts in tss:
                    if ts not in x["ts"] or r.random() < 0.25:
                        t["dependencies"][n] = ref + "#" + r.choice(x["ts"])
        if len(configs) > 1:
            t["configurations"] = {c: ({"defines": [f"CFG_{c}"] + defs(1), "cflags": [f"-O{c}"]} if linked else {}) for c in configs}
        elif linked and r.random() < 0.3:
            t["configurations"] = {"Default": {"defines": defs(2)}}
        blocks[d].append(t)
        info.append(me)
    P.default = sorted(configs)[0]
    if r.random() < 0.5:
        P.default = r.choice(configs)
        for d in dirs:
            for t in blocks[d]:
                t["default_configuration"] = P.default
    for d in dirs:
        if not blocks[d]:
            continue
        P.files[gyp[d]] = {"targets": blocks[d]}
        if r.random() < 0.3:
            P.files[gyp[d]]["target_defaults"] = {"defines": [f"TD{dirs.index(d)}"]}
        r.shuffle(P.files[gyp[d]]["targets"])
    P.roots = [gyp[root]]
    P.configs = configs
    P.dirs = dirs
    P.info = info
    todo, seen = [x for x in info if x["d"] == root], []
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.append(x)
            todo += x["deps"]
    P.named = sorted(x["name"] for x in seen if "target" in x.get("ts", ["target"]))       # can be built by name
    return P


def copy_dirs(r, P):
    """Lets some copies take whole directories, named with or without a trailing slash."""
    for f in sorted(P.files):
        d = f.rpartition("/")[0]
        for t in P.files[f]["targets"]:
            for c in t.get("copies", []):
                if r.random() < 0.4:
                    for n in r.sample(["tree", "tree.d/deep", "t-3"], r.choice([1, 1, 2])):
                        for k in range(r.randint(1, 3)):
                            P.extra[(d + "/" if d else "") + "data/" + n + r.choice(["/x%d.txt", "/s/y%d.c", "/x%d"]) % k] = "// in %s %d\n" % (n, k)
                        c["files"].insert(r.randint(0, len(c["files"])), r.choice(["data/", "./data/", "data//"]) + n + r.choice(["", "/", "//", "/."]))


def blocks_inc(blocks, x):
    for t in blocks[x["d"]]:
        if t["target_name"] == x["name"]:
            return t.get("include_dirs", [])
    return []
