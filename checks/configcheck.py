"""N05: configure, judged by specs/config."""
import ast, base64, json, os, pprint, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check, REPO, VERIF, NPROC, CheckError, pmap
import jslib
from gypiread import node, esc

TEXTS = ["", "x", "a b", "it's", 'say "hi"', "#1", "a # b", "c:\\dir\\new", "tab\there", "two\nlines", "caf\u00e9", "\u4e2d\u6587", "\U0001f600", "\u2028", "<(x)", "'", '"', "\\", "\\\\", "# '", "'#\"", "a'b\"c#d\\e",
         "true", "1", "-1", "0x1", "{}", "[1]", "\x01\x7f", "%s", "$HOME", "'\\''", "/opt/o'brien/node", "/opt/c#/node", 'say "x" "', "a'\n  'b", "\\n", "\\x41", "\\u0041", "x" * 140, "word " * 40]
SAFE = ["x", "a b", "1", "Release"]


def text(r):
    if r.random() < 0.5:
        return r.choice(TEXTS)
    return "".join(r.choice("ab'\"#\\ \n{}[]:,\u00e9") for _ in range(r.randint(0, 8)))


def value(r, bools=True):
    x = r.random()
    if x < 0.6:
        return text(r)
    if x < 0.75:
        return r.randint(-3, 200)
    if x < 0.85 and bools:
        return r.random() < 0.5
    if x < 0.95:
        return [text(r) for _ in range(r.randint(0, 3))]
    return {"k" + text(r)[:3]: text(r)}


def config(r, bools):
    d = {}
    if r.random() < 0.9:
        d["target_defaults"] = {k: v for k, v in [("cflags", ["-O9", text(r)]), ("defines", ["X"]), ("include_dirs", []), ("libraries", ["-lz"]),
                                ("default_configuration", r.choice(["Debug", "Release", ""])), ("msbuild_toolset", "v999"), ("other", value(r, bools)),
                                ("configurations", {"Release": {"x": value(r, bools)}})] if r.random() < 0.6}
    if r.random() < 0.9:
        d["variables"] = {k: v for k, v in [("target_arch", "mips"), ("nodedir", "/elsewhere"), ("python", "/usr/bin/py"), ("standalone_static_library", r.choice([0, 1])), ("clang", r.choice([0, 1, 2])),
                          ("msbuild_path", "old"), ("v8_x", value(r, bools)), ("asan", 0), ("foo", value(r, bools)), ("foo_bar", value(r, bools)), ("icu_path", text(r)), ("node_shared", r.choice([True, False]) if bools else 0)] if r.random() < 0.6}
    if r.random() < 0.2:
        d["conditions_"] = value(r, bools)
    return d


def lit(x, r, depth=0):
    """A gypi rendering of x with single-quoted literals, some of them split over lines, and comments."""
    nl = lambda: r.choice(["", "", "\n" + "  " * depth, " # it's a \"comment\"\n", "\n# another {\n"])  # noqa: E731
    if isinstance(x, str):
        def q(s):
            body = s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t")
            body = "".join(c if c.isprintable() else ("\\x%02x" % ord(c) if ord(c) < 256 else "\\u%04x" % ord(c)) for c in body)
            if "'" in body and '"' not in body and r.random() < 0.5:
                return '"' + body + '"'
            return "'" + body.replace("'", "\\'") + "'"
        if len(x) > 1 and r.random() < 0.25:
            k = r.randint(1, len(x) - 1)
            return q(x[:k]) + r.choice(["\n", "\n    "]) + q(x[k:])
        return q(x)
    if isinstance(x, list):
        return "[" + nl() + ("," + nl()).join(lit(v, r, depth + 1) for v in x) + nl() + "]"
    if isinstance(x, dict):
        return "{" + nl() + ("," + nl()).join(lit(k, r) + r.choice([":", ": "]) + lit(v, r, depth + 1) for k, v in x.items()) + nl() + "}"
    return str(x)


def headers(r):
    k = r.choice(["ok"] * 8 + ["none", "broken"])
    if k == "none":
        return {"kind": k, "text": "", "data": {}}
    style = r.choice(["json", "pprint", "lit", "lit", "repr"])
    d = config(r, style == "json")
    if style == "json":
        t = "# Do not edit. Generated by the configure script.\n" + json.dumps(d, ensure_ascii=r.random() < 0.5, indent=r.choice([None, 2]))
    elif style == "pprint":
        t = "# Do not edit. Generated by the configure script.\n" + pprint.pformat(d, indent=2, width=128) + "\n"
    elif style == "repr":
        t = "# x\n" + repr(d)
    else:
        t = "# Do not edit. 'quoted\n" + lit(d, r) + "\n"
    if style != "json":
        assert ast.literal_eval(t) == d, t
    if k == "broken":
        t = r.choice(["", "{", "[1", "{'a': }", "{'variables': {'x': 1}", "nonsense", "{'a': 'b}"])
    return {"kind": k, "text": t, "data": d}


def case(r):
    plat = r.choice(["linux"] * 6 + ["win32"] * 3 + ["darwin", "aix", "os400", "os390"])
    own = r.choice(["v22.22.2", "v20.1.0", "v14.2.0", "v2.5.0"])
    o = {}
    if r.random() < 0.4:
        o["nodedir"] = r.choice(["@D@/nd", "~/nd", "@D@/n~d"])
    for n, p, vs in [("dist-url", 0.2, ["https://m.example/d"]), ("disturl", 0.15, ["https://m.example/e/"]), ("force-process-config", 0.25, [True, False, "true", ""]),
                     ("debug", 0.4, [True, False]), ("arch", 0.35, ["x64", "arm64", "ia32", ""]), ("thin", 0.2, ["true", "", "yes"]), ("python", 0.2, ["/py"]),
                     ("tarball", 0.15, ["/t.tar.gz"]), ("target", 0.3, ["20.1.0", "v18.2.0", "2.5.0", "", own]), ("jobs", 0.1, ["4"]), ("make", 0.1, ["gmake"]),
                     ("node_engine", 0.1, ["chakracore", ""]), ("devdir", 0.1, ["/dd"]), ("ensure", 0.1, [True])]:
        if r.random() < p:
            o[n] = r.choice(vs)
    if r.random() < 0.03 and "nodedir" not in o:
        o["target"] = r.choice(["20", "junk"])
    for _ in range(r.choice([0, 1, 2, 3])):
        o[r.choice(["foo", "foo-bar", "foo_bar", "target_arch", "openssl-fips", "shared-libxml2", "constructor", "toString", "v8-enable-x", "a-b_c-", "valueOf", "FOO", "msbuild-path"])] = \
            r.choice([text(r), text(r), r.random() < 0.5, [text(r), "z"]])
    keys = list(o)
    r.shuffle(keys)
    o = {k: o[k] for k in keys}
    words = []
    for _ in range(r.choice([0, 0, 1, 2])):
        words += r.choice([["-f", "ninja"], ["--format", "make-linux"], ["--format=make"], ["-f", "make"], ["-Dx=1"], ["--format=ninja"], ["-f"], ["extra"], ["--suffix=.z"], ["20.1.0"], ["-f", "msvs"]])
    running = dict(config(r, True))
    running.setdefault("variables", {})
    prefixV = r.choice([own[1:], "20.1.0", "18.2.0", "9.9.9"])
    prefixH = ""
    if r.random() < 0.35:
        running.setdefault("variables", {}).update(use_prefix_to_find_headers=r.choice([True, True, 1, False]), node_prefix="@D@/prefix")
        if r.random() < 0.8:
            a, b, e = prefixV.split(".")
            prefixH = f"#define NODE_MAJOR_VERSION {a}\n#define NODE_MINOR_VERSION {b}\n#define NODE_PATCH_VERSION {e}\n"
            if r.random() < 0.1:
                prefixH = prefixH.replace("MINOR", "MIDDLE")
            if r.random() < 0.4:     # what only looks like the version
                prefixH = "/* versions */\n// #define NODE_MAJOR_VERSION 77\n// #define NODE_MINOR_VERSION 78\n //#define NODE_PATCH_VERSION 79\n" + prefixH
    year = r.choice([(2013, 12, 0), (2015, 14, 0), (2017, 15, 3), (2017, 15, 8), (2017, 15, 9), (2017, 15, 10), (2019, 16, 0), (2022, 17, 4)])
    root = "@D@/root"
    names = ["out/Release/lib.target/libnode.x", "lib/libnode.x", "out/Debug/obj.target/libnode.x"] if plat == "os390" else ["include/node/node.exp", "out/Release/node.exp", "out/Debug/node.exp", "node.exp"]
    zos = ["include/node/zoslib/zos-base.h", "include/zoslib/zos-base.h", "zoslib/include/zos-base.h", "install/include/node/zoslib/zos-base.h"]
    files = [n for n in names if r.random() < 0.5] + ([z for z in zos if r.random() < 0.4] if plat == "os390" else [])
    return {"platform": plat, "arch": r.choice(["x64", "x64", "arm64", "ia32"]), "version": own, "opts": o, "words": words, "running": running, "headers": headers(r),
            "rel": {"has": r.random() < 0.8, "name": r.choice(["node", "corp"]), "headersUrl": r.choice(["", f"https://h.example/{own}/h.tar.gz"]), "libUrl": ""},
            "prefixH": prefixH, "prefixVersion": prefixV if prefixH and "MIDDLE" not in prefixH else "none", "incCommon": r.random() < 0.7,
            "hasConfig": r.random() < 0.2, "hasCommon": r.random() < 0.2, "buildIsFile": r.random() < 0.03, "pythonOk": r.random() < 0.96, "installOk": r.random() < 0.9,
            "vsOk": r.random() < 0.9, "vs": {"year": year[0], "major": year[1], "minor": year[2], "toolset": "v14x", "sdk": r.choice(["10.0.1.0", "8.1", ""]), "msBuild": "C:\\VS\\MSBuild.exe", "path": "C:\\VS"},
            "exit": r.choice(["0"] * 8 + ["1", "2", "SIGTERM"]), "pythonPath": r.choice(["", "", "/some/lib"]), "nodeRoot": root, "rootFiles": files,
            "zosEnv": r.choice(["", "", "@D@/zi"]), "zosEnvHas": r.random() < 0.6, "devDir": "@D@/dev", "layouts": ["@D@/nd", "@D@/n~d", "@D@/home/nd", "@D@/prefix"],
            "script": r.choice(["/x/node/deps/npm/node_modules/node-gyp/lib", "/u/lib/node_modules/npm/node_modules/node-gyp/lib", "/u/node_modules/npm/node_modules/node-gyp/lib", "/x/y/z/node-gyp/lib", "/lib", "/a/deps/b/node_modules/c/lib"]),
            "exe": r.choice(["/u/bin/node", "/x/out/Release/node", "/x/out/Debug/node", "/x/Release/node", "/node", "/weird/node"])}


def ename(k):
    return esc(k)


def n05(c):
    cases = [case(c.rng) for _ in range(c.pick(2400, 24000))]
    res = jslib.batch("cfgworker.js", [dict(w, opts={"t": "d", "k": [], "l": [], "s": ""}, optsRaw=w["opts"], running=rawnode(w["running"]), headers=w["headers"]) for w in cases], c.scratch,
                      env={"SystemRoot": "C:\\Windows"})
    texts = [i for i, x in enumerate(res) if x["o"]["wrote"]]
    parts = [texts[i::NPROC] for i in range(NPROC)]

    def read(part):
        p = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "gypiread.py")], text=True, capture_output=True,
                           input=json.dumps([base64.b64encode(res[i]["o"]["text"].encode("latin1")).decode() for i in part]),
                           env=dict(os.environ, VERIF_REPO=REPO, VERIF_TMP=c.scratch, PYTHONDONTWRITEBYTECODE="1"))
        if p.returncode:
            raise CheckError("gypiread: " + p.stderr[-1500:])
        return json.loads(p.stdout)
    py = {}
    for part, out in zip(parts, pmap(read, parts)):
        py.update(zip(part, out))
    recs = []
    empty = node({})
    for i, (w, x) in enumerate(zip(cases, res)):
        o, d = x["o"], x["o"]["dir"]
        js = empty
        if o["wrote"]:
            raw = o["text"].encode("latin1").decode("utf-8", "replace")
            try:
                js = node(json.loads(raw.split("\n", 1)[1] if raw.startswith("#") else raw))
            except ValueError as e:
                js = {"t": "unreadable", "s": esc(str(e)), "k": [], "l": []}
        sub = lambda v: json.loads(json.dumps(v).replace("@D@", d))  # noqa: E731
        r = {k: sub(w[k]) for k in ("platform", "arch", "version", "words", "rel", "prefixVersion", "incCommon", "hasConfig", "hasCommon", "buildIsFile", "pythonOk", "installOk", "vsOk", "exit",
                                    "pythonPath", "nodeRoot", "rootFiles", "zosEnv", "zosEnvHas", "devDir", "script", "exe")}
        r.update(opts=node(sub(w["opts"])), running=node(sub(w["running"])), headers={"kind": w["headers"]["kind"], "data": node(sub(w["headers"]["data"]))},
                 vs=dict(w["vs"], msBuild=esc(w["vs"]["msBuild"])), home=d + "/home", cwd=d + "/w", repo=os.path.realpath(REPO), js=js, py=py.get(i, empty),
                 buildReads=esc(o["buildReads"]), pythonAsked=o["pythonAsked"], installs=o["installs"], spawned=o["spawned"], wrote=o["wrote"], ok=o["ok"], why=esc(o["why"]), root=o["root"])
        recs.append(r)
        c.count("generated" if o["spawned"] else "refused")
    c.sample({"opts": cases[0]["opts"], "words": cases[0]["words"], "spawned": recs[0]["spawned"]})
    for i, cl in sorted(c.judge("config", "ConfigTrace", recs).items()):
        c.violation("configure", {"case": cases[i], "seen": res[i]["o"]}, cl, key=cl[0])


def rawnode(x):
    """Value node with unescaped text, for the worker."""
    if isinstance(x, bool):
        return {"t": "b", "s": "true" if x else "false", "k": [], "l": []}
    if isinstance(x, int):
        return {"t": "i", "s": str(x), "k": [], "l": []}
    if isinstance(x, str):
        return {"t": "s", "s": x, "k": [], "l": []}
    if isinstance(x, list):
        return {"t": "l", "s": "", "k": [], "l": [rawnode(v) for v in x]}
    return {"t": "d", "s": "", "k": list(x), "l": [rawnode(v) for v in x.values()]}


if __name__ == "__main__":
    run_check(n05, "N05")
