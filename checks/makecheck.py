"""N08: running the build tool, judged by specs/make."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check
import jslib


def case(r):
    win = r.random() < 0.3
    plat = "win32" if win else r.choice(["linux", "linux", "darwin", "freebsd", "openbsd", "aix", "os400", "netbsd"])
    own = "gmake" if plat in ("aix", "os400", "freebsd", "openbsd", "netbsd") else "make"
    words, env = [], []
    def opt(name, values, p):
        if r.random() < p:
            v = r.choice(values)
            k = r.random()
            if k < 0.4:
                words.append(["--" + name, v])
            elif k < 0.7:
                words.append(["--%s=%s" % (name, v)])
            else:
                env.append([name.replace("-", "_"), v])
    tools_used = ["ninja2", "./mk/make", "@D@/abs/make", "gmake", "make", "sub/mk"]
    opt("make", tools_used, 0.25)
    opt("jobs", ["1", "4", "16", "max", "MAX", "Max", "0", "x", "4x", " 3", "007", "3.7", "-2", "all", "+5"], 0.35)
    if r.random() < 0.08:
        words.append(["-j", r.choice(["2", "max"])])
    if win or r.random() < 0.1:
        opt("solution", ["my.sln", "build/other.sln", "sub/my project.sln"], 0.3)
    k = r.random()
    if k < 0.35:
        words.append(r.choice([["--debug"], ["-d"], ["--no-debug"], ["--release"], ["--debug", "false"], ["--debug=true"], ["--no-debug", "true"]]))
    elif k < 0.45:
        env.append(["debug", r.choice(["true", ""])])
    if r.random() < 0.35:
        words.append(r.choice([["--verbose"], ["--silly"], ["--loglevel=verbose"], ["--loglevel", "warn"], ["--silent"], ["--loglevel=silly"], ["--loglevel=bogus"], ["--loglevel=info"], ["--loglevel=error"]]))
    for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
        words.append([r.choice(["all", "addon", "clean_me", "CC=gcc -g", "x=y", "name with blank", "a'b", "deep/target", "configure2", "-", "VERBOSE=1"])])
    r.shuffle(words)
    words = sum(words, [])
    if r.random() < 0.15:
        words += ["--"] + r.sample(["-k", "--trace", "all", "-C", "--jobs"], r.randint(0, 3))
    tools = []
    for t in [own] + [x for x in tools_used if x != own]:
        if r.random() < (0.93 if t == own else 0.75):
            kind = r.choice(["ok"] * 9 + ["broken", "noexec", "dir"])
            tools.append({"name": t, "kind": kind})
    conf = {"kind": r.choice(["ok"] * 14 + ["absent", "damaged"]), "type": r.choice(["Release", "Debug", "Release", "", "Profile"]),
            "arch": r.choice(["x64", "arm64", "ia32", "arm", "X64", "ARM64", "x86", "loong64"]), "python": r.choice(["/usr/bin/python3", "/opt/py thon/bin/python3.11", "/no/such/python"]),
            "msbuild": r.choice(["C:\\VS\\MSBuild.exe"] * 5 + [""])}
    does = {"code": r.choice([0, 0, 0, 1, 2, 77, 255]), "signal": r.choice([""] * 8 + ["KILL", "TERM"]), "act": r.choice(["none"] * 5 + ["rm-link", "rm-dir", "fill", "swap"]), "starts": r.random() < 0.9 if win else True}
    if does["signal"]:
        does["code"] = 0
    sln = r.choice(["binding.sln", "my addon.sln", ""]) if win else r.choice(["", "", "", "x.sln"])
    mk = r.random() < 0.7
    return {"platform": plat, "words": words, "env": env, "makeEnv": r.choice(["", "", "", r.choice(tools_used)]), "jobsEnv": r.choice(["", "", "", "2", "max", "no", "8"]),
            "levelEnv": r.choice(["", "", "", "verbose", "warn", "silly"]), "conf": conf, "sln": sln, "makefile": mk, "makefileName": r.choice(["Makefile", "x.target.mk"]), "tools": tools,
            "does": does, "before": r.choice(["", "", "", "stale", "file", "other", "empty"]), "morePath": r.choice(["", "", ":/nowhere", ":@D@/x y"])}


def n08(c):
    ok = "INIT InitM\nNEXT Next\nCONSTANTS ForceClean = %s WatchStart = %s\nINVARIANTS Once SeesLink OkIff Gone\n"
    c.model("make", "MakeModel", ok % ("TRUE", "TRUE"), "one build, every step failing, any tool")
    c.model("make", "MakeModel", ok % ("FALSE", "TRUE"), "control: a clean-up that insists on the directory", expect_error="OkIff")
    c.model("make", "MakeModel", ok % ("TRUE", "FALSE"), "control: nobody notices that the tool cannot start", expect_error="Gone")
    cases = [case(c.rng) for _ in range(c.pick(4000, 30000))]
    res = jslib.batch("makeworker.js", cases, c.scratch)
    recs = []
    for w, o in zip(cases, res):
        q = {k: w[k] for k in ("platform", "words", "env", "makeEnv", "jobsEnv", "levelEnv", "conf", "sln", "makefile", "tools", "does")}
        q.update(o)
        recs.append(q)
        c.count(("windows" if w["platform"] == "win32" else "posix") + (" ok" if o["ok"] else " failed") + (" run" if o["calls"] else ""))
    c.sample({"words": cases[0]["words"], "does": cases[0]["does"], "result": res[0]})
    for i, cl in sorted(c.judge("make", "MakeTrace", recs).items()):
        c.violation("build", dict(cases[i], seen=res[i]), cl, key=cl[0])


if __name__ == "__main__":
    run_check(n08, "N08")
