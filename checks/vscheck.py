"""N07: choosing a Visual Studio, judged by specs/vs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check
import jslib

X64, ARM, EXP, MSB = ("Microsoft.VisualStudio.Component.VC.Tools.x86.x64", "Microsoft.VisualStudio.Component.VC.Tools.ARM64", "Microsoft.VisualStudio.WDExpress", "Microsoft.VisualStudio.VC.MSBuild.Base")
S = "Microsoft.VisualStudio.Component.Windows"
SDKS = [S + "10SDK.19041", S + "10SDK.18362.Desktop", S + "10SDK.9600", S + "11SDK.22621", S + "11SDK.22000.Desktop", S + "10SDK.17763.UWP", S + "10SDK.IpOverUsb", S + "81SDK", S + "10SDK.10240", S + "11SDK.26100.UWP", S + "10SDK.0"]
VERS = ["15.0.26228.4", "15.9.28307.665", "16.0.1", "16.11.33423.256", "17.0.31912.275", "17.4.33213.308", "14.0.1", "18.0.1.2", "17.10.1", "16.1", "015.9.1", "1.6.0"]
PATHS = ["C:\\VS2017\\BuildTools", "C:\\Program Files (x86)\\Microsoft Visual Studio\\2019\\Community", "D:\\VS", "C:\\Program Files\\Microsoft Visual Studio\\2022\\Enterprise", "C:\\VS2017\\Other", "E:\\"]


def install(r, module):
    p = []
    whole = r.random() < 0.5
    if whole or r.random() < 0.85:
        p.append(X64)
    if r.random() < 0.3:
        p.append(ARM)
    if r.random() < 0.1:
        p.append(EXP)
    if whole or r.random() < 0.75:
        p.append(MSB)
    p += r.sample(SDKS, r.choice([1, 1, 2, 3] if whole else [0, 1, 1, 2, 3]))
    p += r.sample(["Microsoft.VisualStudio.Product.Community", "Microsoft.VisualStudio.Component.VC.Tools.x86.x64.extra", "x"], r.randint(0, 2))
    r.shuffle(p)
    v = r.choice(VERS[:11] if not module else [x for x in VERS if x[0] != "0" and x.count(".") == 3])
    if not module and r.random() < 0.06:
        v = r.choice(["", "17", "x17.1", "17.x", "17.1beta", "17."])
    path = r.choice(PATHS)
    return {"path": path + ("\\" if not module and r.random() < 0.1 and not path.endswith("\\") else ""), "version": v, "packages": p}


def case(r):
    same = [install(r, True) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
    mod = {"ok": True, "list": same if r.random() < 0.6 else [install(r, True) for _ in range(r.choice([0, 1, 2, 3]))]}
    if r.random() < 0.5:
        mod = {"ok": False, "list": [], "how": r.choice(["", "", "error", "null", "empty", "text"])}
    scr = {"ok": True, "list": same if r.random() < 0.4 else [install(r, False) for _ in range(r.choice([0, 1, 2, 3, 4, 5]))]}
    if r.random() < 0.15:
        scr = {"ok": False, "list": [], "how": r.choice(["error", "object", "text"])}
    files = [p.rstrip("\\") + "\\MSBuild\\Current\\Bin\\" + a + "MSBuild.exe" for p in PATHS for a in ("", "arm64\\") if r.random() < (0.7 if a == "" else 0.4)]
    reg = []
    for v in ("14.0", "12.0"):
        for k in ("HKLM\\Software\\Microsoft\\VisualStudio\\SxS\\VC7", "HKLM\\Software\\Wow6432Node\\Microsoft\\VisualStudio\\SxS\\VC7"):
            if r.random() < 0.4:
                reg.append({"key": k, "value": v, "text": r.choice(["C:\\Program Files (x86)\\Microsoft Visual Studio %s\\VC\\" % v, "D:\\VS\\VC", "C:\\Old VS\\VC\\"])})
        if r.random() < 0.7:
            reg.append({"key": "HKLM\\Software\\Microsoft\\MSBuild\\ToolsVersions\\" + v, "value": "MSBuildToolsPath", "text": r.choice(["C:\\MSB\\%s\\Bin\\" % v, "C:\\MSB"]), "value32": True})
    def spell(p):
        p = p if r.random() < 0.6 else p.upper() if r.random() < 0.5 else p.lower()
        if r.random() < 0.2:
            p = p.replace("\\", "/")
        return p + r.choice(["", "", "\\", "/"]) if not p.endswith(("\\", "/")) else p
    def near(p):
        """a place beside, above or below one where an installation may be"""
        q = r.choice([p[:-1], p[:r.randint(3, len(p))], p + "2", p.rstrip("\\") + "\\VC", p.rstrip("\\").rpartition("\\")[0] + "\\", p + " Preview"])
        return q if q[1:3] == ":\\" else p
    msvs = r.choice(["", "", "", near(r.choice(PATHS)), r.choice(["2013", "2015", "2017", "2019", "2022", "2026"]), spell(r.choice(PATHS)), r.choice(["auto", "15.0", "20190", "D:\\VS\\sub\\..", "D:\\VS\\sub"])])
    vc = r.choice(["", "", "", (spell(r.choice(PATHS)) if r.random() < 0.85 else near(r.choice(PATHS))).rstrip("\\/") + r.choice(["\\VC\\", "\\VC", "/VC/"])])
    if vc and r.random() < 0.15:
        vc = "C:\\Program Files (x86)\\Microsoft Visual Studio 14.0\\VC\\"
    return {"node": r.choice(["8", "9", "18", "19", "20", "21", "22", "24"]), "arch": r.choice(["x64", "x64", "arm64", "ia32"]), "msvs": msvs, "vcDir": vc,
            "vcVer": r.choice(["", r.choice(VERS[:9])]) if vc else "", "sdkEnv": r.choice(["", "10.0.19041.0\\", "10.0.22621.0", "10.0", "10.0.x.0", "8.1.1"]) if vc else "",
            "script": scr, "module": mod, "reg": reg, "files": files}


def n07(c):
    c.model("vs", "VSModel", "INIT Init\nNEXT Next\nCONSTANT Max = 2\nCONSTANT Vers = {%s}\nINVARIANT Newest\nINVARIANT Whole\n" % c.pick('"15.9.1", "17.4.0", "18.0.1"', '"15.9.1", "16.11.2", "17.4.0", "18.0.1"'), "every machine with up to two installations")
    c.model("vs", "VSModel", 'INIT Init\nNEXT Next\nCONSTANT Max = 2\nCONSTANT Vers = {"15.9.1", "17.4.0"}\nINVARIANT First_\n', "control: the newest one need not be usable", expect_error="First_")
    cases = [case(c.rng) for _ in range(c.pick(6000, 60000))]
    res = jslib.batch("vsworker.js", cases, c.scratch)
    recs = []
    for w, o in zip(cases, res):
        q = {k: w[k] for k in ("node", "arch", "msvs", "vcDir", "vcVer", "sdkEnv", "files")}
        q["script"] = {"ok": w["script"]["ok"], "list": w["script"]["list"]}
        q["module"] = {"ok": w["module"]["ok"], "list": w["module"]["list"]}
        q["reg"] = [{k: x[k] for k in ("key", "value", "text")} for x in w["reg"]]
        q["res"] = {k: o[k] for k in ("found", "version", "major", "minor", "year", "path", "msBuild", "toolset", "sdk")}
        recs.append(q)
        c.count("found %d" % o["year"] if o["found"] else "none")
        if not o["found"] and not o["why"].startswith("Could not find any Visual Studio"):
            c.count("failed otherwise: " + o["why"][:60])
    c.sample({"request": [cases[0][k] for k in ("node", "arch", "msvs", "vcDir")], "script": cases[0]["script"], "result": res[0]})
    for i, cl in sorted(c.judge("vs", "VSTrace", recs).items()):
        c.violation("Visual Studio", dict(cases[i], seen=res[i]), cl, key=cl[0])


if __name__ == "__main__":
    run_check(n07, "N07")
