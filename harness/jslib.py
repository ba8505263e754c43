"""Running node-gyp's JavaScript from the repository: as an unprivileged user, against a loopback distribution server."""
import hashlib, http.server, io, json, os, shutil, subprocess, tarfile, threading, gzip, time
from vlib import VERIF, REPO, NPROC, CheckError

NODE = shutil.which("node") or "node"
NPM = os.path.realpath(shutil.which("npm") or "/usr/bin/npm")
NODE_PATH = os.path.join(os.path.dirname(os.path.dirname(NPM)), "node_modules")
UID = GID = 65534


def node_env(home, **kw):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": home, "NODE_PATH": NODE_PATH, "LANG": "C.UTF-8", "NO_COLOR": "1",
         "UV_THREADPOOL_SIZE": "1", "VERIF_REPO": REPO}
    e.update({k: v for k, v in kw.items() if v is not None})
    return e


def demote():
    os.setgroups([])
    os.setgid(GID)
    os.setuid(UID)


def run_node(args, cwd, env, timeout=60, as_user=True, stdin=None):
    """-> (rc or 'hang', stdout, stderr); the child is an unprivileged user with its own session."""
    try:
        p = subprocess.Popen([NODE] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             errors="replace", start_new_session=True, **({"preexec_fn": demote} if as_user and os.getuid() == 0 else {}))
    except OSError as x:
        raise CheckError(f"node could not be started: {x}") from x
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return "hang", "", ""


def give(path):
    """The unprivileged user owns everything below path."""
    if os.getuid() == 0:
        for d, ds, fs in os.walk(path):
            os.chown(d, UID, GID)
            for f in fs:
                os.chown(os.path.join(d, f), UID, GID, follow_symlinks=False)


def user_dir(path):
    os.makedirs(path, exist_ok=True)
    if os.getuid() == 0:
        os.chown(path, UID, GID)
    return path


def batch(script, cases, scratch, chunk=None, env=None, timeout=600, preload=()):
    """Runs harness/<script> over many cases in a few node processes; one JSON result per case."""
    import tempfile
    from vlib import pmap
    n = max(1, min(NPROC, len(cases) // (chunk or 50) or 1))
    parts = [list(range(i, len(cases), n)) for i in range(n)]

    def one(part):
        d = tempfile.mkdtemp(prefix="js-", dir=scratch)
        user_dir(d)
        with open(os.path.join(d, "cases.json"), "w") as f:
            json.dump([cases[i] for i in part], f)
        pre = []
        for x in preload:
            pre += ["-r", x]
        rc, out, err = run_node(pre + [os.path.join(VERIF, "harness", script), os.path.join(d, "cases.json"), os.path.join(d, "out.json")], d,
                                node_env(d, **(env or {})), timeout=timeout)
        try:
            with open(os.path.join(d, "out.json")) as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
        shutil.rmtree(d, ignore_errors=True)
        if res is None or len(res) != len(part):
            raise CheckError(f"{script}: rc={rc}\n" + (out + err)[-2500:])
        return res
    out = [None] * len(cases)
    for part, res in zip(parts, pmap(one, parts)):
        for i, r in zip(part, res):
            out[i] = r
    return out


# ----------------------------------------------------------------- distribution server
def archive(top, files, evil=None):
    """A .tar.gz with files {path: text} below the directory top."""
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=0) as g, tarfile.open(fileobj=g, mode="w") as t:
        for p, text in files.items():
            i = tarfile.TarInfo(top + "/" + p)
            data = text.encode()
            i.size, i.mode, i.mtime = len(data), 0o644, 1
            t.addfile(i, io.BytesIO(data))
        if evil:
            i = tarfile.TarInfo(top + "/" + evil)
            i.size, i.mode = 3, 0o644
            t.addfile(i, io.BytesIO(b"bad"))
    return b.getvalue()


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Dist:
    """plans: token -> {path below the token: (status, body, mode)}; mode: full | cut | reset | redirect"""
    def __init__(self):
        self.plans, self.log, self.lock = {}, {}, threading.Lock()
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_GET(self):
                parts = self.path.lstrip("/").split("/", 1)
                tok, rest = parts[0], parts[1] if len(parts) > 1 else ""
                with outer.lock:
                    outer.log.setdefault(tok, []).append({"p": rest, "agent": self.headers.get("User-Agent", "")})
                    plan = outer.plans.get(tok, {}).get(rest)
                status, body, mode = plan or (404, b"nothing here", "full")
                self.close_connection = True
                if mode == "reset":
                    self.connection.close()
                    return
                if mode == "redirect":
                    self.send_response(302)
                    self.send_header("Location", f"http://127.0.0.1:{outer.port}/{tok}/" + body.decode())
                    self.send_header("Content-Length", "0")
                    self.send_header("Connection", "close")
                    self.end_headers()
                    return
                self.send_response(status)
                self.send_header("Content-Length", str(len(body)))
                self.send_header("Connection", "close")
                self.end_headers()
                try:
                    self.wfile.write(body[:len(body) // 2] if mode == "cut" else body)
                    self.wfile.flush()
                except OSError:
                    pass

            def log_message(self, *a):
                pass

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(self, *a):
                pass
        self.srv = S(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def add(self, tok, plan):
        with self.lock:
            self.plans[tok] = plan
            self.log[tok] = []
        return f"http://127.0.0.1:{self.port}/{tok}"

    def seen(self, tok):
        with self.lock:
            return list(self.log.get(tok, []))

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()
