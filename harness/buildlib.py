"""Generating, building with recording stand-ins, and turning what they saw into trace records."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile
from vlib import VERIF, REPO, NPROC, CheckError, pmap
import gyplib

TOKENS = {"OS": "linux", "CONFIGURATION_NAME": "$(CFG)", "STATIC_LIB_PREFIX": "lib", "STATIC_LIB_SUFFIX": ".a",
          "SHARED_LIB_PREFIX": "lib", "SHARED_LIB_SUFFIX": ".so", "EXECUTABLE_PREFIX": "", "EXECUTABLE_SUFFIX": "",
          "INTERMEDIATE_DIR": "$(ID)", "SHARED_INTERMEDIATE_DIR": "$(SID)", "PRODUCT_DIR": "$(PD)",
          "RULE_INPUT_ROOT": "$(RROOT)", "RULE_INPUT_DIRNAME": "$(RDIR)", "RULE_INPUT_PATH": "$(RPATH)",
          "RULE_INPUT_EXT": "$(REXT)", "RULE_INPUT_NAME": "$(RNAME)"}


def make_bin(chk):
    d = os.path.join(chk.scratch, "bin")
    if not os.path.isdir(d):
        os.makedirs(d)
        p = subprocess.run(["gcc", "-O1", "-w", "-o", os.path.join(d, "cc"), os.path.join(VERIF, "harness", "standin.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("stand-in does not compile\n" + p.stdout)
        for n in ("cxx", "ar", "hcc", "hcxx", "har", "tool", "tool2", "nm", "readelf", "ln"):
            os.link(os.path.join(d, "cc"), os.path.join(d, n))
    return d


def gyp_env(bind, extra=None, link=True):
    e = {"CC": f"{bind}/cc", "CXX": f"{bind}/cxx", "LINK": f"{bind}/cxx", "AR": f"{bind}/ar",
         "CC_host": f"{bind}/hcc", "CXX_host": f"{bind}/hcxx", "LINK_host": f"{bind}/hcxx", "AR_host": f"{bind}/har"}
    if not link:
        del e["LINK"], e["LINK_host"]
    e.update(extra or {})
    return e


def write_project(P, d):
    w = gyplib.World(P.files, P.roots, extra=P.extra)
    w.write(d)


def gyp_argv(gen, style, roots, regen=False, extra=()):
    a = ["-f", gen, "--depth=.", "--toplevel-dir=.", "--ignore-environment", "--no-parallel"]
    if not regen:
        a += ["-Gauto_regeneration=0"]
    if style == "node":
        a += ["--generator-output", "build", "-Goutput_dir=."]
    return a + list(extra) + list(roots)


def out_dir(gen, style, cfg):
    return {"plain": f"out/{cfg}", "node": f"build/{cfg}"}[style]


def build_cmd(gen, style, cfg, jobs, bare=False):
    """bare: the configuration is left to the default"""
    if gen == "ninja":
        return ["ninja", "-C", out_dir(gen, style, cfg), f"-j{jobs}"]
    return ["make"] + (["-C", "build"] if style == "node" else []) + ([] if bare else [f"BUILDTYPE={cfg}"]) + [f"-j{jobs}"]


def run_build(d, gen, style, cfg, bind, log, jobs=4, jit="", timeout=60, args=(), stop=None, tools=False, bare=False):
    e = {k: v for k, v in os.environ.items() if k not in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "AR", "LINK", "MAKEFLAGS", "MFLAGS", "BUILDTYPE", "V")}
    e.update(VLOG=log, PATH=bind + ":" + e.get("PATH", ""), VJIT=str(jit), HOME=d)
    if tools:                   # for generation as part of the build
        e.update(gyp_env(bind), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    if os.path.exists(log):
        os.unlink(log)
    if stop is not None:        # interrupted, as by ctrl-C
        p = subprocess.Popen(build_cmd(gen, style, cfg, jobs), cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(stop)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGINT)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        return p.returncode, ""
    try:
        p = subprocess.run(build_cmd(gen, style, cfg, jobs, bare) + list(args), cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 99, "timeout " + str(x.stdout)[-500:]


def unhex(s):
    return "" if s == "-" else bytes.fromhex(s).decode("latin-1")


def read_log(log):
    """-> list of runs in start order, each with its start and end position"""
    runs, by = [], {}
    if not os.path.exists(log):
        return runs
    with open(log) as f:
        for n, line in enumerate(f, 1):
            w = line.split()
            if w[0] == "S":
                x = {"role": w[2], "cwd": unhex(w[3]), "args": [unhex(a) for a in w[4:]], "s": n, "e": 0, "rc": -1, "reads": [], "writes": []}
                runs.append(x)
                by[w[1]] = x
            else:
                x = by[w[1]]
                x["e"], x["rc"] = n, int(w[2])
                x["reads"] = [unhex(a[2:]) for a in w[3:] if a[0] == "r"]
                x["writes"] = [unhex(a[2:]) for a in w[3:] if a[0] == "w"]
    return runs


class Canon:
    """Paths independent of the generator: relative to the project, with $(PD), $(SID), $(ID:target) for output places."""
    def __init__(self, root, gen, style, cfg):
        self.root, self.gen, self.out = os.path.realpath(root), gen, out_dir(gen, style, cfg)

    def path(self, p, cwd):
        a = os.path.normpath(os.path.join(cwd, p))
        if a == self.root:
            return "."
        up = os.path.dirname(self.root)
        if a.startswith(up + "/") and not a.startswith(self.root + "/"):
            return ".." + a[len(up):]
        if not a.startswith(self.root + "/"):
            return a
        q = a[len(self.root) + 1:]
        if q == self.out:
            return "$(PD)"
        if q.startswith(self.out + "/"):
            s = q[len(self.out) + 1:]
            if self.gen == "make":
                m = re.match(r"obj\.(target|host)/([^/]+)/geni(/.*)?$", s)
                if m:
                    return f"$(ID:{m.group(2)}:{m.group(1)})" + (m.group(3) or "")
                m = re.match(r"obj/gen(/.*)?$", s)
            else:
                m = re.match(r"obj(\.host)?/(?:.*/)?([^/]+)\.gen(/.*)?$", s)
                if m:
                    return f"$(ID:{m.group(2)}:{'host' if m.group(1) else 'target'})" + (m.group(3) or "")
                m = re.match(r"gen(/.*)?$", s)
            if m:
                return "$(SID)" + (m.group(1) or "")
            return "$(PD)/" + s
        return q

    def event(self, x):
        cwd, args = x["cwd"], x["args"]
        host = x["role"].startswith("h")
        if host:
            x = dict(x, role=x["role"][1:])
        ev = {"k": x["role"], "drv": x["role"], "cwd": self.path(".", cwd), "args": [], "D": [], "I": [], "flags": [], "libs": [], "rpath": [], "L": [], "src": "", "out": "", "ins": [], "ts": "target", "s": x["s"], "e": x["e"], "rc": x["rc"]}
        if x["role"] in ("tool", "tool2"):
            ev["args"] = [{"r": a, "p": self.path(a, cwd)} for a in args]
            return ev
        if x["role"] == "ar":
            ev["k"] = "ar"
            ev["flags"] = args[:1]
            ev["out"] = self.path(args[1], cwd) if len(args) > 1 else ""
            ev["ins"] = [self.path(a, cwd) for a in args[2:]]
        else:
            comp = "-c" in args
            ev["k"] = x["role"] if comp else "link"
            i = 0
            while i < len(args):
                a = args[i]
                if a == "-o":
                    i += 1
                    ev["out"] = self.path(args[i], cwd)
                elif a == "-MF":
                    i += 1
                elif a.startswith("-D") and comp:
                    ev["D"].append(a[2:])
                elif a.startswith("-I") and comp:
                    ev["I"].append(self.path(a[2:], cwd))
                elif a in ("-c", "-MMD"):
                    pass
                elif a.startswith("-L") and not comp:
                    ev["L"].append(self.path(a[2:], cwd))
                elif a.startswith("-Wl,-rpath=") and not comp:      # relative to where the product lies
                    o = os.path.join(cwd, args[args.index("-o") + 1])
                    ev["rpath"].append(self.path(a[11:].replace("$ORIGIN", os.path.dirname(o)), "/"))
                elif a.startswith("-l") and not comp:
                    ev["libs"].append(a)
                elif a.startswith("-") or not a:
                    ev["flags"].append(a)
                elif comp:
                    if ev["src"]:
                        ev["flags"].append(a)
                    else:
                        ev["src"] = self.path(a, cwd)
                else:
                    ev["ins"].append(self.path(a, cwd))
                i += 1
        if host:
            ev["ts"] = "host"
        return ev


def tree(canon, root, outd):
    """content digests of everything under the product directory and of the sources"""
    r = []
    for base, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".deps", "home"))
        for f in sorted(fs):
            p = os.path.join(base, f)
            c = canon.path(p, "/")
            if os.path.isfile(p) and not p.endswith((".d", ".ninja", ".mk", ".stamp", "Makefile", ".ninja_deps", ".ninja_log", ".TOC", ".gyp")):
                with open(p, "rb") as h:
                    r.append({"p": c, "h": hashlib.sha1(h.read()).hexdigest()[:12]})
    return r
