"""N06: finding a Python, judged by specs/python."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check
import jslib

VERS = ["3.11.2", "3.6.0", "3.6.15", "3.5.9", "2.7.18", "3.10.0", "4.0.0", "10.1.0", "3.12.0\n", " 3.9.1 ", "3.9", "3", "", "3.8.0rc1", "3.8.0-rc.1", "3.7.0+", "3.7.0+x", "Python 3.9.1", "3.9.1\n3.9.1",
        "v3.9.1", "0.3.9", "3.06.1", "1.9.9", "garbage", "3.6.0.1", "30.0.0", "3.50.1"]
GOODV = ["3.11.2", "3.6.0", "3.12.0\n", "3.10.4"]
BADV = ["3.5.9", "2.7.18", "", "garbage"]


def answer(r, outs, real, p_ok):
    x = r.random()
    if x < p_ok:
        return {"ok": True, "out": r.choice(outs), "how": "ok", "err": r.choice(["", "", "", "warning"]), "slow": r.random() < 0.3}
    how = r.choice(["missing", "missing", "fails", "fails", "signal", "noexec"] if real else ["missing", "fails", "fails", "throw"])
    return {"ok": False, "out": "" if how in ("missing", "throw", "noexec") else r.choice(outs), "how": how, "err": "", "slow": r.random() < 0.3}


def case(r):
    real = r.random() < 0.25
    win = not real and r.random() < 0.45
    paths = ["/p/a", "/p/b", "/p/c", "/p/d e"] if not win else ["C:\\py\\a.exe", "C:\\py b\\b.exe", "C:\\py\\c.exe"]
    w = {"mode": "real" if real else "fake", "win": win, "force": r.choice([""] * 7 + ["/f/py" if real else "fpy"]), "config": r.choice(["", "/c/py" if real else "cpy", "python3"]),
         "env": r.choice(["", "", "/e/py" if real else "epy", "python"]), "places": r.sample(paths + ["C:\\x\\1.exe", "C:\\x\\2.exe"], r.randint(0, 3)) if win else []}
    names = {w["force"], w["config"], w["env"], "python3", "python"} | ({"py.exe"} if win else set())
    names.discard("")
    outs = lambda: r.choice([[r.choice(paths)], [r.choice(paths)], [r.choice(paths)], [" " + r.choice(paths) + "\n"], ["not a path"], [""], ["\n"]])  # noqa: E731
    w["asks"] = [{"name": n, "answer": answer(r, outs(), real, 0.8)} for n in sorted(names)]
    bias = r.random()
    w["versions"] = [{"name": n, "answer": answer(r, r.choice([VERS, GOODV, GOODV] if bias < 0.6 else [BADV, VERS]), real, 0.85)} for n in paths + [p for p in w["places"] if p not in paths]]
    if real and r.random() < 0.3:
        # a command that names its own program
        n = r.choice(["/e/py", "/c/py"])
        for a in w["asks"]:
            if a["name"] == n and a["answer"]["ok"]:
                a["answer"]["out"] = n
                w["versions"].append({"name": n, "answer": answer(r, VERS, real, 0.9)})
    pick = lambda *v: r.choice(["", *v])  # noqa: E731
    w["penv"] = {"SystemDrive": pick("D:"), "USERNAME": pick("ann"), "USER": pick("bob"), "LOCALAPPDATA": pick("C:\\Users\\ann\\AppData\\Local"), "ProgramW6432": pick("C:\\PF64"),
                 "ProgramFiles": pick("C:\\PF"), "ProgramFilesX86": pick("C:\\PF86"), "osUser": pick("carl")}
    w["slowAll"] = r.random() < 0.05
    return w


def n06(c):
    c.model("python", "PythonModel", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Platform = "%s"\nINVARIANT First_\nINVARIANT Whole\nINVARIANT Sound\nPROPERTY Ends\n' % "posix",
            "every behaviour of every candidate")
    if c.tier == "thorough":
        c.model("python", "PythonModel", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Platform = "win"\nINVARIANT First_\nINVARIANT Whole\nINVARIANT Sound\n', "every behaviour of every candidate on Windows")
    c.model("python", "PythonModel", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Platform = "posix"\nINVARIANT NeverNone\n', "control: a search can fail", expect_error="NeverNone")
    cases = [case(c.rng) for _ in range(c.pick(8000, 60000))]
    res = jslib.batch("pyfind.js", cases, c.scratch, env={"PYTHON": None})
    recs = []
    for w, o in zip(cases, res):
        strip = lambda t: [{"name": x["name"], "answer": {"ok": x["answer"]["ok"], "out": x["answer"]["out"]}} for x in t]  # noqa: E731
        recs.append({"win": w["win"], "force": w["force"], "config": w["config"], "env": w["env"], "places": w["places"], "asks": strip(w["asks"]), "versions": strip(w["versions"]),
                     "penv": w["penv"], "ran": o["ran"], "real": w["mode"] == "real", "scripts": o.get("scripts", []), "found": o["found"], "path": o["path"], "atonce": o["atonce"], "places_": o["places_"]})
        c.count(w["mode"] + (" found" if o["found"] else " none"))
    c.sample({k: recs[0][k] for k in ("force", "config", "env", "asks", "ran", "path")})
    for i, cl in sorted(c.judge("python", "PythonTrace", recs).items()):
        c.violation("search for a Python", dict(cases[i], seen=res[i]), cl, key=cl[0])


if __name__ == "__main__":
    run_check(n06, "N06")
