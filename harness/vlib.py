"""Common machinery of the checks: running TLC, judging traces, evidence, verdicts."""
import json, os, re, random, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")
NPROC = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself could not do its work (never a verdict about the code)."""


class Check:
    def __init__(self, prop, level="model_checking", technique=""):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.level = level
        self.rng = random.Random(f"{prop}:{self.seed}:{self.tier}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        os.chmod(self.scratch, 0o755)
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.notes, self.counts = [], [], {}, {}
        self.violations, self.known_hit = [], {}
        self.known = [k for k in load_known() if k["property"] == prop and k.get("status") == "known"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        n = thorough if self.thorough else quick
        scale = os.environ.get("VERIF_SCALE")
        return max(1, int(n * float(scale))) if scale and isinstance(n, int) else n      # smaller runs while a check is worked on

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # ------------------------------------------------------------------ TLC
    def tlc(self, moddir, module, cfg, env=None, workers=1, heap="2g", args=(), timeout=800):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        libs = os.pathsep.join([moddir, SPECS] + [os.path.join(SPECS, x) for x in sorted(os.listdir(SPECS))
                                                 if os.path.isdir(os.path.join(SPECS, x))])
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss256m", f"-Xmx{heap}",
               "-Dfile.encoding=UTF-8", f"-Djava.io.tmpdir={d}", f"-DTLA-Library={libs}", "-cp", JAR, "tlc2.TLC",
               "-config", cfgp, "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE",
               "-workers", str(workers), *args, os.path.join(moddir, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise CheckError(f"TLC timed out on {module}") from x
        finally:
            shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def tlc_stats(out):
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            pass
        if not m:
            m2 = None
            for m2 in re.finditer(r"Progress: (\d+) states checked, (\d+) traces", out):
                pass
            if m2:
                return int(m2.group(1)), int(m2.group(1))
            return 0, 0
        return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))

    def model(self, group, module, cfg, what, workers=NPROC, heap="6g", env=None, args=(), expect_error=None, timeout=800):
        """Exhaustive model checking of the specification itself."""
        if os.environ.get("VERIF_SCALE"):
            return ""
        rc, out = self.tlc(os.path.join(SPECS, group), module, cfg, workers=workers, heap=heap, env=env, args=args, timeout=max(timeout, 4000) if self.thorough else timeout)
        if expect_error:
            if expect_error not in out:
                raise CheckError(f"specification {module}: expected TLC to report '{expect_error}'\n" + out[-3000:])
        elif "No error has been found" not in out and not ("-simulate" in args and rc == 0):
            raise CheckError(f"specification {module} ({what}) failed in TLC:\n" + out[-4000:])
        st, tr = self.tlc_stats(out)
        self.states += st
        self.transitions += tr
        self.models.append({"module": module, "what": what, "states": st, "transitions": tr})
        return out

    def judge(self, group, module, records, consts="", shards=None, per_shard_min=20, heap="3g", timeout=800, extra_env=None):
        """Evaluate the trace specification on every record.
        Returns {record index: [failing clause, ...]} for records the specification does not allow."""
        if not records:
            return {}
        shards = shards or NPROC
        shards = max(1, min(shards, len(records) // per_shard_min or 1))
        parts = [list(range(i, len(records), shards)) for i in range(shards)]
        files = []
        for n, part in enumerate(parts):
            files.append(os.path.join(self.scratch, f"{module}-{time.time_ns()}-{n}.ndjson"))
        cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + consts

        def run(n):
            """-> ({record: clauses}, states, transitions); a record the specification cannot even be evaluated on
            (an observation of a shape it gives no meaning to) is itself a mismatch, and the rest is judged without it."""
            part, bad, st, tr, lost = list(parts[n]), {}, 0, 0, 0
            while True:
                with open(files[n], "w") as h:
                    for i in part:
                        h.write(json.dumps(records[i], ensure_ascii=True) + "\n")
                env = {"VERIF_TRACE": files[n]}
                env.update(extra_env or {})
                rc, out = self.tlc(os.path.join(SPECS, group), module, cfg, env=env, workers=1, heap=heap, timeout=timeout)
                s1, t1 = self.tlc_stats(out)
                for line in out.splitlines():
                    m = re.match(r'^"?@BAD (\d+) (.*?)"?$', line)
                    if m:
                        bad[part[int(m.group(1)) - 1]] = [c for c in m.group(2).replace('\\"', '"').split(" ;; ") if c]
                if "No error has been found" in out:
                    if s1 != len(part) + 1:
                        raise CheckError(f"{module}: judged {s1 - 1} of {len(part)} records\n" + out[-2000:])
                    return bad, st + s1, tr + t1
                at = [int(x) for x in re.findall(r"^(?:/\\ )?i = (\d+)$", out, re.M)]
                if "Error: TLC threw an unexpected exception" not in out and "Error: Evaluating" not in out and "Error:" not in out \
                        or "Parsing or semantic analysis failed" in out or not at or at[-1] >= len(part) or lost >= 3:
                    raise CheckError(f"{module}: TLC could not evaluate the trace\n" + out[-5000:])
                lost += 1
                why = re.search(r"Error: (.*(?:\n.*){0,6})", out)
                bad[part[at[-1]]] = ["outside-the-specification: " + " ".join((why.group(1) if why else "").split())[:300]]
                st, tr = st + at[-1], tr + at[-1]
                part = part[at[-1] + 1:]
                if not part:
                    return bad, st, tr

        bad = {}
        with cf.ThreadPoolExecutor(max_workers=NPROC) as ex:
            for b, st, tr in ex.map(run, range(len(parts))):
                bad.update(b)
                self.states += st
                self.transitions += tr
        for f in files:
            os.unlink(f)
        self.traces += len(records)
        return bad

    # ------------------------------------------------------------- verdicts
    def violation(self, what, case, clauses, key=None):
        """key identifies the failing input/history for the known-findings list."""
        for k in self.known:
            if key is not None and re.search(k["match"], key):
                self.known_hit[k["id"]] = self.known_hit.get(k["id"], 0) + 1
                self.known_text = getattr(self, "known_text", {})
                self.known_text[k["id"]] = k["what"]
                return
        self.violations.append({"what": what, "clauses": clauses, "case": case, "key": key})

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self):
        wall = round(time.time() - self.t0, 1)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"],
               "spec_models": self.models, "case_counts": self.counts}
        cov.update(self.notes)
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                       "coverage": cov, "wall_s": wall,
                       "violations": len(self.violations)}, f, indent=1)
        # every known finding of this property is reported on every run
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}" + ("" if k["id"] in self.known_hit else " (not exercised in this run)"))
        rc = 0
        if self.violations:
            rdir = os.path.join(ev, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print(f"  {v['what']}: " + "; ".join(str(c) for c in v["clauses"])[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        print(f"{self.prop} {self.tier} seed={self.seed}: states={self.states} transitions={self.transitions} "
              f"traces={self.traces} violations={len(self.violations)} counts={self.counts} wall={wall}s")
        self.cleanup()
        sys.stdout.flush()
        return rc

    def cleanup(self):
        subprocess.run(["chmod", "-R", "u+rwx", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f) if isinstance(x, dict)]      # the strings of the file record repaired defects


def run_check(fn, prop, **kw):
    c = Check(prop, **kw)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print(f"CHECK-ERROR {prop}: {e}")
        c.cleanup()
        rc = 2
    sys.exit(rc)


def node(x):
    """Python value -> value node of the specification."""
    if isinstance(x, bool):
        return {"t": "i", "s": str(int(x)), "k": [], "l": []}
    if isinstance(x, int):
        return {"t": "i", "s": str(x), "k": [], "l": []}
    if isinstance(x, str):
        return {"t": "s", "s": x, "k": [], "l": []}
    if isinstance(x, list):
        return {"t": "l", "s": "", "k": [], "l": [node(v) for v in x]}
    if isinstance(x, dict):
        return {"t": "d", "s": "", "k": [str(k) for k in x], "l": [node(v) for v in x.values()]}
    return {"t": "x", "s": repr(type(x)), "k": [], "l": []}


def pmap(fn, items, workers=NPROC):
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]
