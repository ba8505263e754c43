"""N03: the command line, judged by specs/cli."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check, pmap, node, VERIF, REPO
import jslib

CMDS = ["build", "clean", "configure", "rebuild", "install", "list", "remove", "ls", "rm"]
ODD = ["constructor", "toString", "__proto__", "hasOwnProperty", "valueOf", "", "-", "Build", "lists"]
TEXT = ["arch", "cafile", "make", "msvs-version", "solution", "proxy", "noproxy", "devdir", "nodedir", "python", "dist-url", "tarball", "jobs", "thin"]
BOOL = ["debug", "ensure", "force-process-config"]
VALS = ["x", "20.1.0", "a b", "", "a=b", "http://h:1/x", "~/c", "build", "/abs/dir", " padded "]


def case(r):
    argv = []
    for _ in range(r.choice([0, 0, 0, 1])):
        argv.append(r.choice(["word", "20.1.0"] + ODD))
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        argv.append(r.choice(CMDS + ["rebuild"]))
        for _ in range(r.choice([0, 0, 1, 2])):
            argv.append(r.choice(["20.1.0", "word", "v18.0.0", "other"] + (ODD if r.random() < 0.4 else [])))
    unknown = set()
    for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
        x = r.random()
        at = r.randint(0, len(argv))
        if x < 0.4:
            n, v = r.choice(TEXT), r.choice(VALS)
            o = [f"--{n}={v}"] if r.random() < 0.6 else ["--" + n, v]
            if r.random() < 0.1:
                o = ["--" + n]
        elif x < 0.6:
            n = r.choice(BOOL)
            o = [r.choice(["--", "-"]) + r.choice(["", "no-"]) + n] + (["true"] if r.random() < 0.1 else ["false"] if r.random() < 0.1 else [])
        elif x < 0.8:
            o = r.choice([["-C", "sub"], ["-C", "nosuch"], ["--directory=sub"], ["-j", "4"], ["-j", "max"], ["-j=3"], ["--release"], ["-d"], ["--silly"], ["--verbose"], ["-silent"], ["--debug"], ["--release", "false"], ["-C", "file.txt"], ["-C", "."]])
        else:
            n = r.choice(["target", "disturl", "foo", "openssl_fips", "no-strip"])
            if n in unknown:
                continue
            unknown.add(n)
            o = [f"--{n}=" + r.choice(VALS[:7])] if n != "no-strip" else ["--no-strip"]
            if r.random() < 0.2 and n == "foo":
                o = ["--foo"]
        argv[at:at] = o
    if r.random() < 0.06:
        argv.insert(r.randint(0, len(argv)), "--")
    env = []
    for _ in range(r.choice([0, 0, 1, 2])):
        n = r.choice(["devdir", "python", "force_process_config", "dist_url", "jobs", "target", "debug", "", "loglevel", "some_other_thing", "ensure", "directory"])
        if n not in [e[0] for e in env]:
            env.append([n, r.choice(["", "x", "~/envdir", "true", "4", "silent"]) if n != "directory" else r.choice(["sub", "nosuch"])])
    plans = []
    for _ in range(r.choice([0, 0, 1, 2])):
        n = r.choice(["build", "clean", "configure", "install", "list", "remove"])
        how = r.choice(["ok", "ok", "ok", "throw", "late", "never", "crash"])
        plans.append({"name": n, "k": r.choice([1, 1, 2]), "how": how,
                      "push": [{"name": r.choice(["remove", "clean", "build", "rebuild"]), "args": r.choice([[], ["p"]])} for _ in range(r.choice([0, 0, 1, 2]))] if how == "ok" else [],
                      "result": r.choice([None, [], ["a", "b"], "text"]) if n != "list" else r.choice([[], ["20.1.0"]]), "after": r.choice([0, 3])})
    return {"argv": argv, "env": env, "plans": list({(p["name"], p["k"]): p for p in plans}.values())}


def n03(c):
    c.model("cli", "CliModel", "SPECIFICATION Spec\nCONSTANT MaxNamed = %d\nMaxPush = %d\nINVARIANT Once\nINVARIANT InOrder\nINVARIANT NamedFirst\nINVARIANT AllRun\nPROPERTY Ends\nPROPERTY StopsAtFailure\n"
            % (c.pick(4, 6), c.pick(4, 6)), "every queue of commands that succeed, fail or queue others")
    cases = [case(c.rng) for _ in range(c.pick(700, 8000))]

    def one(w):
        d = tempfile.mkdtemp(prefix="cli-", dir=c.scratch)
        os.chmod(d, 0o755)
        for x in ("home", "w/sub"):
            os.makedirs(os.path.join(d, x))
        with open(os.path.join(d, "w/file.txt"), "w") as f:
            f.write("x")
        with open(os.path.join(d, "plans.json"), "w") as f:
            json.dump(w["plans"], f)
        jslib.give(d)
        env = jslib.node_env(os.path.join(d, "home"), CLI_PLANS=os.path.join(d, "plans.json"), CLI_OUT=os.path.join(d, "calls"))
        env.update({"npm_config_" + k: v for k, v in w["env"]})
        rc, out, err = jslib.run_node(["-r", os.path.join(VERIF, "harness", "clishim.js"), os.path.join(REPO, "bin/node-gyp.js")] + w["argv"], os.path.join(d, "w"), env, timeout=30)
        calls = []
        if os.path.exists(os.path.join(d, "calls")):
            with open(os.path.join(d, "calls")) as f:
                for l in f:
                    k = json.loads(l)
                    k["opts"] = node(k["opts"])
                    calls.append(k)
        rec = dict(w, calls=calls, rc=rc if isinstance(rc, int) else 99, hang=rc == "hang", home=os.path.join(d, "home"), cwd=os.path.join(d, "w"), dirs=["sub", "."])
        rec["plans"] = [{k: p[k] for k in ("name", "k", "how", "push")} for p in w["plans"]]
        shutil.rmtree(d, ignore_errors=True)
        return rec, err
    res = pmap(one, cases)
    recs = [a for a, _ in res]
    for r in recs:
        c.count("runs failing" if r["rc"] else "runs")
        c.count("commands", len(r["calls"]))
    c.sample({k: recs[0][k] for k in ("argv", "env", "rc")})
    for i, cl in sorted(c.judge("cli", "CliTrace", recs).items()):
        c.violation("command line", dict(cases[i], calls=recs[i]["calls"], rc=recs[i]["rc"], err=res[i][1][-400:]), cl, key=cl[0])


if __name__ == "__main__":
    run_check(n03, "N03")
