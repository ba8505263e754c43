"""N01, N02: the header cache, judged by specs/cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from vlib import run_check, pmap
import cachelib, gen_cache


def judge(c, hs):
    run = cachelib.Runner(c)
    recs = pmap(run.run, hs)
    run.dist.close()
    for r in recs:
        for s in r["steps"]:
            c.count(s["op"] + (":died" if s["died"] else ":fault" if s["fault"] else ""))
            if s["op"] == "install":
                c.count("install ok" if s["rc"] == 0 else "install failed")
    c.sample({"steps": [{k: s[k] for k in ("op", "v", "ensure", "rc", "reqs")} for s in recs[0]["steps"]]})
    for i, cl in sorted(c.judge("cache", "CacheTrace", recs).items()):
        c.violation(recs[i]["tag"], {"history": hs[i], "observed": recs[i]["steps"]}, cl, key=recs[i]["tag"] + ":" + cl[0])


def n01(c):
    r = c.rng
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Sound\nPROPERTY Settled\nCONSTANT Hdr = {h1, h2%s}\nArcs = {"a1", "a2"}\nMaxOps = %d\nVariant = "%s"\n'
    c.model("cache", "Install", cfg % (", h3" if c.thorough else "", c.pick(3, 4), "code"), "install, conditional install and remove with a failure or crash before every step")
    for v in ("early", "keep", "lax"):
        c.model("cache", "Install", cfg % ("", 2, v), f"control: the {v} protocol is not sound", expect_error="Invariant Sound is violated")
    judge(c, [gen_cache.fault_history(r, win=r.random() < 0.35) for _ in range(c.pick(420, 4000))]
             + gen_cache.broken_releases(r)
             + [gen_cache.history(r, win=r.random() < 0.5, n=3) for _ in range(c.pick(60, 1000))])


def n02(c):
    r = c.rng
    judge(c, [gen_cache.history(r, win=r.random() < 0.2) for _ in range(c.pick(300, 4000))])


if __name__ == "__main__":
    p = sys.argv[1]
    run_check(globals()[p.lower()], p)
