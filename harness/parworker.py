"""Runs gyp with a worker pool whose completion order is chosen from outside.
usage: parworker.py JOBS.json OUT.json ; JOBS = list of {dir, argv, log, home, workers, choices, timeout}
For every job the result has: rc, events (what the loader asked of the pool and when results were delivered) and
branch (how many jobs were outstanding at each delivery, i.e. the choices there were)."""
import json, os, pickle, signal, struct, sys, threading, time, traceback
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "gyp", "pylib"))
import gyp, gyp.input  # noqa: E402
import multiprocessing, multiprocessing.pool  # noqa: E402


def send(fd, x):
    b = pickle.dumps(x)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    return pickle.loads(rd(struct.unpack("<I", rd(4))[0]))


class Worker:
    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                while True:
                    try:
                        f, args, kw = recv(a)
                    except EOFError:
                        os._exit(0)
                    try:
                        r = (True, f(*args, **kw))
                    except Exception as e:      # as multiprocessing does
                        r = (False, e)
                    try:
                        send(d, r)
                    except Exception as e:
                        send(d, (False, RuntimeError(repr(e))))
            finally:
                os._exit(1)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c


class Pool:
    """Stands in for multiprocessing.Pool: results are delivered one at a time, in the order the driver chooses."""
    log = None

    def __init__(self, processes=None, *a, **k):
        self.n = CFG["workers"]
        self.workers = [Worker() for _ in range(self.n)]
        self.jobs, self.lock, self.closed, self.joining = [], threading.RLock(), False, threading.Event()
        self.seq = self.delivered = 0
        self.touched = time.time()
        self.idle = threading.Event()
        EVENTS.append(["pool", ""])
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.done = threading.Event()
        self.thread.start()

    def name(self, args, kw):
        for x in list(args) + list(kw.values()):
            if isinstance(x, str) and x.endswith(".gyp"):
                return x
        return "?"

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        with self.lock:
            if self.closed:
                raise ValueError("Pool not running")
            n = self.name(args, kwds or {})
            EVENTS.append(["submit", n])
            self.jobs.append((self.seq, func, tuple(args), kwds or {}, callback, error_callback, n))
            self.seq += 1
            self.touched = time.time()

    def close(self):
        self.closed = True
        EVENTS.append(["close", ""])

    def terminate(self):
        self.closed = True
        EVENTS.append(["terminate", ""])
        with self.lock:
            self.jobs = []

    def join(self):
        self.joining.set()
        self.done.wait()
        EVENTS.append(["join", ""])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def quiet(self):
        """the loader waits for a result (or for the pool), or has not asked for anything for a while"""
        return WAITING.get("n", 0) > 0 or self.joining.is_set() or time.time() - self.touched > 0.15

    def run(self):
        k = 0
        while True:
            while not self.quiet():
                time.sleep(0.0005)
            with self.lock:
                todo = list(self.jobs)
                if not todo:
                    if self.joining.is_set():
                        self.done.set()
                        return
                else:
                    i = CFG["choices"][k] if k < len(CFG["choices"]) else 0
                    i = min(i, len(todo) - 1)
                    BRANCH.append(len(todo))
                    k += 1
                    job = todo[i]
                    self.jobs.remove(job)
            if not todo:
                time.sleep(0.001)
                continue
            w = self.workers[self.delivered % self.n]
            self.delivered += 1
            seq, func, args, kw, cb, ecb, n = job
            try:
                send(w.w, (func, args, kw))
                ok, r = recv(w.r)
            except (EOFError, OSError):
                EVENTS.append(["lost", n])       # a worker that died: multiprocessing never delivers its job
                CFG["lost"] = True
                self.workers[(self.delivered - 1) % self.n] = Worker()
                continue
            EVENTS.append(["result", n] if (ok and r) else ["failed", n])
            before = WAITING.get("total", 0)
            try:
                if ok and cb:
                    cb(r)
                elif not ok and ecb:
                    ecb(r)
            except BaseException:
                traceback.print_exc()
                EVENTS.append(["callback-raised", n])
            # the loader is given the chance to act on this result before the next one is delivered
            end = time.time() + 0.05
            if WAITING.get("n", 0) > 0:
                while WAITING.get("total", 0) == before and not self.joining.is_set() and time.time() < end and WAITING.get("n", 0) > 0:
                    time.sleep(0.0003)
            self.touched = time.time()


RealCondition = threading.Condition
WAITING = {}
EVENTS, BRANCH, CFG = [], [], {}


class Condition(RealCondition):
    def wait(self, timeout=None):
        WAITING["total"] = WAITING.get("total", 0) + 1
        WAITING["n"] = WAITING.get("n", 0) + 1
        try:
            return RealCondition.wait(self, timeout)
        finally:
            WAITING["n"] -= 1


def child(job, out):
    os.setpgid(0, 0)
    os.chdir(job["dir"])
    fd = os.open(job["log"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.environ["HOME"] = job["home"]
    CFG.update(job)

    class FakeThreading:
        def __getattr__(self, k):
            return Condition if k == "Condition" else getattr(threading, k)

    class FakeMP:
        def __getattr__(self, k):
            return Pool if k == "Pool" else getattr(multiprocessing, k)
    if job.get("fake", True):
        gyp.input.threading = FakeThreading()
        gyp.input.multiprocessing = FakeMP()
    rc = 70
    try:
        rc = gyp.main(job["argv"])
        rc = 0 if rc is None else rc
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        traceback.print_exc()
        rc = 71
    sys.stdout.flush()
    sys.stderr.flush()
    send(out, {"rc": rc, "events": EVENTS, "branch": BRANCH})
    os._exit(0)


def run(job):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            child(job, w)
        finally:
            os._exit(72)
    os.close(w)
    os.set_blocking(r, False)
    end = time.time() + job.get("timeout", 20)
    buf = b""
    while True:
        try:
            x = os.read(r, 1 << 16)
            if not x:
                break
            buf += x
        except BlockingIOError:
            if time.time() > end:
                break
            time.sleep(0.002)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass
    os.close(r)
    if len(buf) >= 4:
        try:
            return pickle.loads(buf[4:])
        except Exception:
            pass
    return {"rc": "hang" if time.time() > end else 72, "events": [], "branch": []}


if __name__ == "__main__":
    jobs = json.load(open(sys.argv[1]))
    res, hangs = [], 0
    for j in jobs:
        # explore: depth-first over every completion order, up to "limit" runs
        if j.get("explore"):
            rs, stack = [], [[]]
            while stack and len(rs) < j["explore"] and hangs < 3:
                ch = stack.pop()
                out = j["out"] + f".{len(rs)}"
                jj = dict(j, choices=ch, argv=[a.replace("@OUT@", out) for a in j["argv"]])
                x = run(jj)
                x["out"], x["choices"] = out, ch
                hangs += x["rc"] == "hang"
                for k in range(len(x["branch"]) - 1, len(ch) - 1, -1):
                    for alt in range(1, x["branch"][k]):
                        stack.append(ch + [0] * (k - len(ch)) + [alt])
                rs.append(x)
            res.append(rs)
        else:
            x = run(j) if hangs < 3 else {"rc": "skipped", "events": [], "branch": []}
            hangs += x["rc"] == "hang"
            res.append(x)
    json.dump(res, open(sys.argv[2], "w"))
