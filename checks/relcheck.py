"""N04: which release a request resolves to and where its files are, judged by specs/release."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check
import jslib

MAJORS = ["0.7.9", "0.8.0", "0.8.20", "0.10.41", "0.10.42", "0.10.48", "0.11.14", "0.12.9", "0.12.10", "0.12.18", "1.0.0", "1.8.4", "2.5.0", "3.0.0", "3.3.1", "4.0.0",
          "4.1.23", "6.17.1", "10.24.1", "12.8.0", "18.19.0", "20.11.1", "22.14.0", "100.0.7", "0.9.10", "0.100.2"]
PRE = ["", "", "", "", "", "-rc.4", "-pre", "-nightly20240101ab", "-0", "-pre.1", "-prex", "-alpha-1.x", "-01", "-a..b", "+build.5", "-rc.1+b", "+", "-"]
JUNK = ["", "20", "20.1", "v", "vv1.2.3", "1.2.3.4", "01.2.3", "1.02.3", "node", "latest", "=1.2.3", "v 1.2.3", " 4.1.2 ", "1.2.x", "-1.2.3", "1.2.3_4", "^4.0.0", "V4.1.2"]
URLS = ["https://m.example/d", "https://m.example/d/", "http://m.example:8080", "http://m.example:8080//", "https://m.example/win-x64/a", "https://u:p@m.example/a/b//",
        "https://m.example/v1.2.3/x", "https://m.example/node/win-x86/", "http://127.0.0.1/win-arm64", "https://m.example/download.release/iojs.lib"]


def version(r):
    if r.random() < 0.25:
        v = ".".join(str(r.choice([0, 1, 2, 3, 4, 8, 10, 12, 17, 30])) for _ in range(3))
    else:
        v = r.choice(MAJORS)
    return r.choice(["", "", "v"]) + v + r.choice(PRE)


def case(r):
    own = "v" + r.choice([v for v in MAJORS]) + r.choice(["", "", "", "-rc.4", "-nightly20240101ab"])
    word = r.choice(["", "", "", version(r), version(r), r.choice(JUNK), own, own[1:]])
    rel = {"has": r.random() < 0.75, "name": r.choice(["node", "node", "io.js", "corp", "my-node"]), "headersUrl": "", "libUrl": ""}
    if rel["has"]:
        site = r.choice(["https://nodejs.org/download/release", "https://c.example/builds/win-x64", "http://c.example:81/a"]) + "/" + own + "/"
        if r.random() < 0.8:
            rel["headersUrl"] = site + r.choice(["node-headers.tar.gz", "node-%s-headers.tar.gz" % own, "sub/win-x64/h.tar.gz", "h.tgz"])
        if r.random() < 0.5:
            arch = r.choice(["x86", "x64"] + (["ia32"] if own.startswith("v3.") else ["arm64"]))
            rel["libUrl"] = r.choice([site, site, "https://other.example/l/"]) + r.choice([f"win-{arch}/", f"win-{arch}/", f"win-{arch}/more/", ""]) + r.choice(["node.lib", "iojs.lib", "corp.lib"])
    return {"word": word, "target": r.choice(["", "", "", version(r), r.choice(JUNK)]), "distUrl": r.choice(["", "", "", r.choice(URLS)]),
            "disturl": r.choice(["", "", "", r.choice(URLS)]), "mirror": r.choice(["", "", r.choice(URLS)]), "version": own, "rel": rel,
            "win": r.random() < 0.6, "arch": r.choice(["ia32", "x64", "arm64"])}


def n04(c):
    c.model("release", "ReleaseModel", "INIT Init\nNEXT Next\nCONSTANT Big = %s\nINVARIANT Good\nINVARIANT Apart\n" % c.pick("FALSE", "TRUE"),
            "every request of a small world: locations agree, directories name releases")
    c.model("release", "ReleaseModel", "INIT Init\nNEXT Next\nCONSTANT Big = FALSE\nINVARIANT AlwaysOfficial\n", "control: some request leaves the official site", expect_error="AlwaysOfficial")
    cases = [case(c.rng) for _ in range(c.pick(6000, 60000))]
    res = jslib.batch("relworker.js", cases, c.scratch)
    recs = [dict(w, **o) for w, o in zip(cases, res)]
    for r in recs:
        c.count("refused" if not r["inst"]["ok"] else "installed")
    c.sample({k: recs[0][k] for k in ("word", "target", "distUrl", "version", "rel", "res")})
    for i, cl in sorted(c.judge("release", "ReleaseTrace", recs).items()):
        c.violation("release", recs[i], cl, key=cl[0])


if __name__ == "__main__":
    run_check(n04, "N04")
