"""Histories of header-cache commands run with the real node-gyp: scenario generation, execution, recording (N01, N02)."""
import gzip
import hashlib, os, re, shutil, tempfile
from vlib import VERIF, REPO, CheckError, pmap
import jslib

LAYOUT = 11
VERSIONS = {   # version -> (cache directory, tarball)
    "20.1.0": ("20.1.0", "node-v20.1.0-headers.tar.gz"), "18.0.0": ("18.0.0", "node-v18.0.0-headers.tar.gz"),
    "0.10.48": ("0.10.48", "node-v0.10.48-headers.tar.gz"), "0.10.20": ("0.10.20", "node-v0.10.20.tar.gz"),
    "1.5.0": ("iojs-1.5.0", "iojs-v1.5.0.tar.gz"), "4.0.0": ("4.0.0", "node-v4.0.0-headers.tar.gz"),
}
ARCHS = {"x64": "x64", "ia32": "x86", "arm64": "arm64"}


def libname(v, arch):
    n = "iojs" if VERSIONS[v][0].startswith("iojs") else "node"
    if v.startswith("0."):
        return ("" if arch == "ia32" else ARCHS[arch] + "/") + n + ".lib"
    return f"win-{ARCHS[arch]}/{n}.lib"


def make_archives():
    """id -> (bytes, {header path: text}, readable)"""
    base = {"include/node/node.h": "n", "include/node/v8.h": "v", "include/node/common.gypi": "{}", "include/node/deep/x.h": "x",
            "include/node/config.gypi": "#c", "README.md": "no", "bin/node": "no", "include/node/Makefile": "no", "include/node/u/y.hpp": "no"}
    out = {}
    for i, tag in ((1, "A"), (2, "B")):
        fs = {p: t + tag + "\n" * (1 if p != "include/node/v8.h" else 3000) for p, t in base.items()}
        if i == 2:
            fs["include/node/only2.h"] = "2\n"
        out[i] = (jslib.archive("node-x", fs), {p: t for p, t in fs.items() if p.endswith((".h", ".gypi"))}, True)
    out[3] = (b"<html>not an archive</html>" * 40, {}, False)
    out[4] = (jslib.archive("node-x", {"README.md": "no", "lib/x.txt": "no"}), {}, True)          # no header in it
    a = out[1][0]
    out[5] = (a[:len(a) * 2 // 3], out[1][1], False)                                         # cut short, as published
    b = bytearray(a)
    b[len(b) // 2] ^= 0xFF
    out[6] = (bytes(b), out[1][1], False)                                                      # damaged, as published
    out[7] = (jslib.archive("node-x", {p: "E" for p in ("include/node/node.h",)}, evil="../../../escaped.h"), {"include/node/node.h": "E"}, False)
    out[8] = (b"", {}, False)
    # one entry that cannot be read, before others that can
    small = {"include/node/node.h": "n", "include/node/v8.h": "v", "include/node/uv.h": "u", "/include/node/z.h": "z", "include/node/common.gypi": "{}"}
    for i, (spot, evil) in {9: (1, False), 10: (0, False), 11: (4, False), 12: (2, True)}.items():
        fs = dict(small)
        if evil:
            fs = {"include/node/node.h": "n", "../../../escaped.h": "e", "include/node/uv.h": "u", "/include/node/z.h": "z"}
        b = bytearray(gzip.decompress(jslib.archive("node-x", fs)))
        if not evil:
            b[1024 * spot + 150] ^= 1
        out[i] = (gzip.compress(bytes(b), mtime=0), {p.lstrip("/"): t for p, t in fs.items()}, False)
    return out


ARCS = make_archives()


def good_plan(arc=1, lib=1):
    return {"local": False, "status": 200, "deliver": "full", "arc": arc, "listed": arc, "sstatus": 200, "sdeliver": "full", "sform": "plain",
            "lstatus": 200, "ldeliver": "full", "lib": lib, "llisted": lib}


def bad_plan(r, win):
    p = good_plan(r.choice([1, 2]), r.choice([1, 2]))
    n = 1 if r.random() < 0.85 else 2
    for _ in range(n):
        x = r.choice(["status", "deliver", "deliver", "archive", "archive", "mismatch", "unlisted", "sstatus", "sdeliver"] + (["lstatus", "ldeliver", "lmis", "lmis", "lunl"] if win else []))
        if x == "status":
            p["status"] = r.choice([404, 500, 206, 204, 403])
        elif x == "deliver":
            p["deliver"] = r.choice(["cut", "reset"])
        elif x == "archive":
            p["arc"] = r.choice([3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12])
            p["listed"] = r.choice([p["arc"], p["arc"], 1])
        elif x == "mismatch":
            p["listed"] = 3 - p["arc"] if p["arc"] < 3 else 2
        elif x == "unlisted":
            p["listed"] = 0
        elif x == "sstatus":
            p["sstatus"] = r.choice([404, 500, 204, 403])
        elif x == "sdeliver":
            p["sdeliver"] = r.choice(["cut", "reset"])
        elif x == "lstatus":
            p["lstatus"] = r.choice([404, 500])
        elif x == "ldeliver":
            p["ldeliver"] = r.choice(["cut", "reset"])
        elif x == "lmis":
            p["llisted"] = 3 - p["lib"]
        elif x == "lunl":
            p["llisted"] = 0
    return p


def served(v, p, arch):
    """The plan as the distribution serves it for version v."""
    tar = VERSIONS[v][1]
    out = {}
    base = f"v{v}/"
    body = ARCS[p["arc"]][0]
    if p["deliver"] == "redirect":
        out[base + tar] = (302, f"moved/{tar}".encode(), "redirect")
        out["moved/" + tar] = (p["status"], body, "full")
    else:
        out[base + tar] = (p["status"], body, p["deliver"])
    lines = []
    f = p["sform"]
    if f == "others":
        lines.append("0" * 64 + "  node-v0.0.0.tar.gz")
    if p["listed"]:
        lines.append(jslib.sha(ARCS[p["listed"]][0]) + ("  ./" if f == "dot" else "  ") + tar)
    lines.append("1" * 64 + "  zz/other.lib")
    for a in ARCHS:
        if p["llisted"]:
            lines.append(jslib.sha(b"lib%d" % p["llisted"]) + "  " + libname(v, a))
        out[base + libname(v, a)] = (p["lstatus"], b"lib%d" % p["lib"], p["ldeliver"])
    text = ("\r\n" if f == "crlf" else "\n").join(lines) + "\n"
    out[base + "SHASUMS256.txt"] = (p["sstatus"], text.encode(), p["sdeliver"])
    return out


def classify(v, path):
    base = f"v{v}/"
    if path == base + VERSIONS[v][1]:
        return "tar"
    if path == base + "SHASUMS256.txt":
        return "sums"
    for a in ARCHS:
        if path == base + libname(v, a):
            return "lib:" + a
    return "moved" if path == "moved/" + VERSIONS[v][1] else "other:" + path


def js_int(text):
    m = re.match(r"\s*([+-]?\d+)", text)
    return max(-2**31, min(2**31 - 1, int(m.group(1)))) if m else 0


def entry(name, path):
    e = {"n": name, "dir": os.path.isdir(path), "marker": 0, "files": []}
    if not e["dir"]:
        return e
    for d, _, fs in os.walk(path):
        for f in fs:
            q = os.path.join(d, f)
            rel = os.path.relpath(q, path)
            try:
                with open(q, "rb") as h:
                    data = h.read()
            except OSError:
                data = b"?"
            if rel == "installVersion":
                e["marker"] = js_int(data.decode("ascii", "replace"))
            elif f.endswith(".lib"):
                e["files"].append([rel, data.decode("ascii", "replace")])
            else:
                e["files"].append([rel, hashlib.sha1(data).hexdigest()[:10]])
    e["files"].sort()
    return e


def tree(path, skip=()):
    out = []
    for d, ds, fs in os.walk(path):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for x in ds + fs:
            q = os.path.join(d, x)
            rel = os.path.relpath(q, path)
            if os.path.islink(q):
                out.append(rel + " -> " + os.readlink(q))
            elif os.path.isdir(q):
                out.append(rel + "/")
            else:
                with open(q, "rb") as h:
                    out.append(rel + " " + hashlib.sha1(h.read()).hexdigest()[:10])
    return sorted(out)


def arc_records():
    return [{"readable": ARCS[i][2], "files": [[p, hashlib.sha1(t.encode()).hexdigest()[:10]] for p, t in sorted(ARCS[i][1].items())]} for i in sorted(ARCS)]


def build_shim(c):
    import subprocess
    so = os.path.join(c.scratch, "fsshim.so")
    p = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "harness", "fsshim.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("shim does not build: " + p.stdout[-800:])
    os.chmod(so, 0o755)
    return so


class Runner:
    def __init__(self, c):
        self.c, self.dist, self.shim, self.n = c, jslib.Dist(), build_shim(c), 0

    def run(self, H):
        """H: dict(win, archs, start, steps) -> trace record"""
        base = tempfile.mkdtemp(prefix="h-", dir=self.c.scratch)
        dirs = {k: os.path.join(base, k) for k in ("cache", "tmp", "home", "mod", "outside")}
        for d in dirs.values():
            os.makedirs(d)
        for p, t in (("outside/keep.h", "k"), ("outside/20.1.0/keep.h", "k"), ("mod/binding.gyp", "{}"), ("mod/src/a.cc", "x"), ("mod/builder/b.txt", "x")):
            os.makedirs(os.path.dirname(os.path.join(base, p)), exist_ok=True)
            with open(os.path.join(base, p), "w") as f:
                f.write(t)
        for name, spec in H["start"].items():
            p = os.path.join(dirs["cache"], name)
            if spec == "file":
                with open(p, "w") as f:
                    f.write("x")
                continue
            os.makedirs(os.path.join(p, "include/node"))
            for q, t in spec.items():
                with open(os.path.join(p, q), "w") as f:
                    f.write(t)
        if H.get("nocache"):
            shutil.rmtree(dirs["cache"])
        os.chmod(base, 0o755)
        jslib.give(base)
        try:
            return self._steps(H, base, dirs)
        finally:
            for x in ("cache", "tmp", "mod"):
                if os.path.isdir(dirs[x]):
                    os.chmod(dirs[x], 0o755)
            if not H.get("keep"):
                shutil.rmtree(base, ignore_errors=True)

    def look(self, dirs):
        l = []
        for pre, d in (("", dirs["cache"]), ("tmp:", os.path.join(dirs["tmp"], ".node-gyp"))):
            if os.path.isdir(d):
                for n in sorted(os.listdir(d)):
                    l.append(entry(pre + n, os.path.join(d, n)))
        return l

    def _steps(self, H, base, dirs):
        start = self.look(dirs)
        steps = []
        for s in H["steps"]:
            t = {"op": s["op"], "v": s.get("v", ""), "dir": s.get("dir", ""), "ensure": bool(s.get("ensure")), "arch": s.get("arch", "x64"), "plan": s.get("plan") or good_plan(),
                 "rc": 0, "died": False, "fault": False, "hang": False, "reqs": [], "out": [], "outside": False, "modbefore": [], "modafter": [], "modkeep": [], "err": ""}
            if s["op"] == "world":
                p = os.path.join(dirs["cache"], s["dir"])
                if s["what"] == "marker" and os.path.isdir(p) and (js_int(s["text"]) < LAYOUT or entry("", p)["marker"] >= LAYOUT):
                    with open(os.path.join(p, "installVersion"), "w") as f:
                        f.write(s["text"])
                elif s["what"] == "nomarker" and os.path.exists(os.path.join(p, "installVersion")):
                    os.unlink(os.path.join(p, "installVersion"))
                elif s["what"] == "build":
                    b = os.path.join(dirs["mod"], "build")
                    if os.path.islink(b) or os.path.isfile(b):
                        os.unlink(b)
                    shutil.rmtree(b, ignore_errors=True)
                    if s["text"] == "dir":
                        os.makedirs(os.path.join(b, "Release/obj"))
                        for q in ("Makefile", "Release/a.node"):
                            with open(os.path.join(b, q), "w") as f:
                                f.write("x")
                        os.symlink(dirs["outside"], os.path.join(b, "link"))
                    elif s["text"] == "link":
                        os.symlink(dirs["outside"], b)
                    elif s["text"] == "file":
                        with open(b, "w") as f:
                            f.write("x")
                jslib.give(base)
            else:
                self.command(H, s, t, base, dirs)
            t["after"] = self.look(dirs)
            steps.append(t)
        names = {e["n"] for e in start} | {e["n"] for t in steps for e in t["after"]} | {t["dir"] for t in steps}
        vn = {d: v for v, (d, _) in VERSIONS.items()}
        return {"layout": LAYOUT, "arcs": arc_records(), "win": H["win"], "archs": list(ARCHS), "start": start, "steps": steps, "tag": H["tag"],
                "managed": sorted(n for n in names if n.replace("tmp:", "") in vn), "vname": {n: vn.get(n.replace("tmp:", ""), "") for n in names | {""}},
                "short": {n: n for n in names | {""}}, "inmain": {n: not n.startswith("tmp:") for n in names | {""}}}

    def command(self, H, s, t, base, dirs):
        self.n += 1
        tok = f"t{id(t)}x{self.n}"
        v = s.get("v", "")
        url = self.dist.add(tok, served(v, t["plan"], t["arch"]) if s["op"] == "install" else {})
        dd = {"rel": os.path.relpath(dirs["cache"], dirs["mod"]), "home": "~/../cache"}.get(H.get("devdir"), dirs["cache"])
        cwd = dirs[s.get("cwd", "mod")]
        jslib.user_dir(cwd)
        if s.get("cwd") and H.get("devdir") == "rel":
            dd = os.path.relpath(dirs["cache"], cwd)
        args = [os.path.join(REPO, "bin/node-gyp.js"), s["op"]] + s.get("args", []) + ["--devdir=" + dd, "--dist-url=" + url + s.get("slash", "")]
        if s.get("ensure"):
            args.append("--ensure")
        if s.get("arch") and H["win"]:
            args.append("--arch=" + s["arch"])
        if t["plan"]["local"] and s["op"] == "install":
            tp = os.path.join(base, "local.tar.gz")
            with open(tp, "wb") as f:
                f.write(ARCS[t["plan"]["arc"]][0])
            os.chmod(tp, 0o644)
            args.append("--tarball=" + tp)
        env = jslib.node_env(dirs["home"], TMPDIR=dirs["tmp"])
        log = os.path.join(base, "fs.log")
        if s.get("fs"):
            env.update({"LD_PRELOAD": self.shim, "FS_ROOT": base, "FS_MATCH": s["fs"].get("match", "cache"), "FS_LOG": log, "FS_DIRS": "1"})
            env.update({k: str(x) for k, x in s["fs"].items() if k.startswith("FS_")})
        if H["win"]:
            args = ["-r", os.path.join(VERIF, "harness", "winshim.js")] + args
        out_before = (tree(dirs["outside"]), None if s["op"] == "clean" else tree(dirs["mod"]))
        if s["op"] == "clean":
            t["modbefore"] = tree(dirs["mod"])
            t["modkeep"] = [x for x in t["modbefore"] if not re.match(r"build(/| |$)", x)]
        deny = s.get("deny")
        if deny:
            jslib.user_dir(dirs["cache"])
            if deny == "create" and os.path.exists(os.path.join(dirs["cache"], t["dir"])):
                deny = None
        if deny:
            t["dir"] = "tmp:" + t["dir"]          # the documented fallback
            os.chmod(dirs["cache"], {"create": 0o555, "search": 0o600}[s["deny"]])
        if os.path.exists(log):
            os.unlink(log)
        rc, out, err = jslib.run_node(args, cwd, env, timeout=40)
        if deny:
            os.chmod(dirs["cache"], 0o755)
        if s.get("fs") and os.path.exists(log):
            with open(log, errors="replace") as f:
                text = f.read()
            t["fault"] = bool(re.search(r"^\w+ (fail|half) |^KILL", text, re.M))
            s["calls"] = len(re.findall(r"^\w+ (?:ok|fail|half) ", text, re.M))
        t["hang"] = rc == "hang"
        t["rc"] = rc if isinstance(rc, int) else 1
        t["died"] = rc == 137 or t["hang"]
        t["err"] = "".join(ch if 32 <= ord(ch) < 127 else " " for ch in err[-300:])
        t["reqs"] = [classify(v, q["p"]) if v else "other" for q in self.dist.seen(tok)] if s["op"] == "install" else []
        if s["op"] == "list":
            t["out"] = [x for x in out.split("\n") if x.strip() and not x.startswith("No node development files")]
        if s["op"] == "clean":
            t["modafter"] = tree(dirs["mod"])
        t["outside"] = out_before != (tree(dirs["outside"]), None if s["op"] == "clean" else tree(dirs["mod"]))
