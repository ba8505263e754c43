"""Runs gyp (from VERIF_REPO, default /repo) on many cases, one forked child per case.
usage: gypworker.py JOBS.json OUT.json ; JOBS = list of {dir, argv, env, timeout, pre}"""
import json, os, signal, sys, time, traceback
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "gyp", "pylib"))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import gyp  # noqa: E402
import gyp.input, gyp.generator.make, gyp.generator.ninja, gyp.generator.analyzer  # noqa: E402,F401  (imported once, before forking)


def child(job):
    os.setpgid(0, 0)
    os.chdir(job["dir"])
    fd = os.open(job.get("log", "gyp.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.environ["HOME"] = job.get("home", job["dir"])
    for k in list(os.environ):
        if (k.startswith("GYP_") and k != "GYP_CROSSCOMPILE") or k in ("CC", "CXX", "CFLAGS", "LDFLAGS", "AR", "LD"):
            del os.environ[k]
    os.environ.update(job.get("env", {}))
    if "argv0" in job:
        sys.argv = [job["argv0"]]
    rc = 70
    try:
        rc = gyp.main(job["argv"])
        rc = 0 if rc is None else rc
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        traceback.print_exc()
        rc = 71
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc & 0xFF)


def run(job):
    pid = os.fork()
    if pid == 0:
        try:
            child(job)
        finally:
            os._exit(72)
    end = time.time() + job.get("timeout", 30)
    nap = 0.002
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        if time.time() > end:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "hang"
        time.sleep(nap)
        nap = min(0.02, nap * 1.3)


jobs = json.load(open(sys.argv[1]))
res, hangs = [], 0
for j in jobs:                      # a tree that hangs again and again is not given the whole time budget
    r = run(j) if hangs < 3 else "skipped"
    hangs += r == "hang"
    res.append(r)
json.dump(res, open(sys.argv[2], "w"))
