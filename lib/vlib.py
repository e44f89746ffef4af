"""Shared machinery of the checks: scratch build, TLC runs, comparison and bookkeeping."""
import contextlib, hashlib, io, json, math, os, random, re, shutil, signal, subprocess, sys, threading, time
import warnings

VERIF = os.environ["VERIF_HOME"]
SCRATCH = os.environ["VERIF_SCRATCH"]
TREE = os.environ["VERIF_TREE"]
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LN2 = math.log(2.0)


class StopCheck(Exception):
    pass


class ImplTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise ImplTimeout("no answer within the per-call limit")


signal.signal(signal.SIGALRM, _alarm)


class TLCResult:
    def __init__(self):
        self.records = []
        self.states = 0       # distinct
        self.generated = 0    # transitions computed
        self.ok = False
        self.violated = None
        self.out = ""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ["VERIF_TIER"]
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ["VERIF_SEED"])
        self.rnd = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.violations = []
        self.keys = set()
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self._build = None
        self.error = None

    # ---- bookkeeping -------------------------------------------------------------------
    def _stage(self, s):
        with open(os.path.join(SCRATCH, "stage"), "w") as f:
            f.write(s)

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def sample(self, obj, cap=6):
        if len(self.samples) < cap:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    def fail(self, key, what, **detail):
        """Record a violation of the property; key identifies the failing clause."""
        if key in self.keys:
            n = sum(1 for v in self.violations if v["key"] == key)
            if n >= 3:
                return
        self.keys.add(key)
        self.violations.append({"key": key, "what": what, "detail": _plain(detail)})
        self._save(False)
        if len(self.violations) > 60:
            raise StopCheck()

    def _save(self, done):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.replayed,
               "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        tmp = os.path.join(SCRATCH, "result.json.tmp")
        with open(tmp, "w") as f:
            json.dump({"done": done, "error": self.error, "violations": self.violations,
                       "level": self.level, "coverage": cov,
                       "assumptions": self.assumptions}, f, default=str)
        os.replace(tmp, os.path.join(SCRATCH, "result.json"))

    def finish(self, err):
        self.error = err
        self._save(err is None)

    @contextlib.contextmanager
    def impl(self, key, what="", limit=180):
        """Everything that calls the code under test runs in here: an exception there is a
        violation of the property (the specification says the call succeeds)."""
        self._stage("impl:" + key + " " + what)
        old = signal.alarm(limit)
        buf = io.StringIO()
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
                warnings.simplefilter("ignore")
                yield
        except StopCheck:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1] if tb else None
            if last is not None and all("/verif/" in f.filename or "/lib/vlib" in f.filename
                                        for f in tb) and not isinstance(e, ImplTimeout) \
                    and isinstance(e, (NameError, SyntaxError)):
                raise
            self.fail(key, "%s raised %s: %s" % (what or key, type(e).__name__, str(e)[:300]),
                      trace=[("%s:%s %s" % (f.filename, f.lineno, f.name)) for f in tb[-4:]])
        finally:
            signal.alarm(0)
            self._stage("harness")

    # ---- the code under test -----------------------------------------------------------
    def start_build(self):
        """Compile the extension of the scratch tree (in the background)."""
        if self._build is None:
            self._build = {"rc": None}
            th = threading.Thread(target=self._do_build, daemon=True)
            self._build["th"] = th
            th.start()

    def _do_build(self):
        h = hashlib.sha256()
        for root, _, files in sorted(os.walk(os.path.join(TREE, "cpp"))):
            for f in sorted(files):
                h.update(f.encode())
                h.update(open(os.path.join(root, f), "rb").read())
        h.update(open(os.path.join(TREE, "setup.py"), "rb").read())
        cdir = os.path.join(VERIF, ".cache")
        cached = os.path.join(cdir, "samplers_ext-%s.so" % h.hexdigest()[:24])
        so = os.path.join(TREE, "coniii", "samplers_ext.cpython-312-x86_64-linux-gnu.so")
        if os.path.exists(cached):
            shutil.copy(cached, so)
            self._build["rc"] = 0
            return
        p = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "--force"],
                           cwd=TREE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, PYTHONPATH=TREE))
        self._build["out"] = p.stdout.decode(errors="replace")[-3000:]
        self._build["rc"] = 0 if os.path.exists(so) else 1
        if self._build["rc"] == 0:
            try:
                os.makedirs(cdir, exist_ok=True)
                shutil.copy(so, cached + ".%d" % os.getpid())
                os.replace(cached + ".%d" % os.getpid(), cached)
            except OSError:
                pass

    def load(self, ext=True):
        """Import coniii from the scratch tree, with the extension built from its cpp/."""
        if ext:
            self.start_build()
            self._build["th"].join()
            if self._build["rc"] != 0:
                raise RuntimeError("the extension does not build:\n" + self._build.get("out", ""))
        warnings.simplefilter("ignore")
        self._stage("impl:import coniii")
        import coniii, coniii.samplers
        self._stage("harness")
        assert coniii.__file__.startswith(TREE), coniii.__file__
        if ext:
            assert coniii.samplers.IMPORTED_SAMPLERS_EXT
        return coniii

    # ---- TLC ---------------------------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, spec="Spec", invariants=(), properties=(),
            cases=None, env=None, workers=None, timeout=600, simulate=None, depth=None,
            constraint=None, must_pass=True, postcondition=None, view=None, extra_args=(),
            deadlock=False):
        """Run TLC on spec/<module>.tla; records printed by the spec come back parsed."""
        n = self.extra.get("tlc_runs", 0)
        self.extra["tlc_runs"] = n + 1
        d = os.path.join(SCRATCH, "tlc%d" % n)
        os.mkdir(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        lines = ["SPECIFICATION %s" % spec]
        for i in invariants:
            lines.append("INVARIANT %s" % i)
        for p in properties:
            lines.append("PROPERTY %s" % p)
        if constraint:
            lines.append("CONSTRAINT %s" % constraint)
        if postcondition:
            lines.append("POSTCONDITION %s" % postcondition)
        if view:
            lines.append("VIEW %s" % view)
        defs = []
        for k, v in (consts or {}).items():
            if isinstance(v, (bool, int, str)) and not (isinstance(v, int) and v < 0):
                lines.append("CONSTANT %s = %s" % (k, tla(v)))
            else:       # sequences and sets are defined in a module of their own
                defs.append("c_%s == %s" % (k, tla(v)))
                lines.append("CONSTANT %s <- c_%s" % (k, k))
        root = module
        if defs:
            root = "MC_" + module
            open(os.path.join(d, root + ".tla"), "w").write(
                "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (root, module, "\n".join(defs)))
        lines.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        open(os.path.join(d, "MC.cfg"), "w").write("\n".join(lines) + "\n")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if cases is not None:
            p = os.path.join(d, "cases.ndjson")
            with open(p, "w") as f:
                for c in cases:
                    f.write(json.dumps(c) + "\n")
            e["CASES"] = p
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss16m", "-Djava.io.tmpdir=" + d,
               "-cp", JARS, "tlc2.TLC", "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers or 4)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed), "-depth",
                    str(depth or 50)]
        else:
            cmd += ["-fp", "5"]
        cmd += list(extra_args) + [root + ".tla"]
        outp = os.path.join(d, "out")
        t0 = time.time()
        r = TLCResult()
        with open(outp, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise RuntimeError("TLC timed out on %s" % module)
        text = []
        for line in open(outp, errors="replace"):
            if line.startswith('"@@'):
                r.records.append(json.loads(json.loads(line)[2:]))
            else:
                if not line.startswith(("Parsing file", "Semantic proc", "Linting", "Computed ")):
                    text.append(line)
        r.out = "".join(text)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            r.generated, r.states = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", r.out)
            if m:
                r.generated = r.states = int(m[-1])
        r.rc = rc
        r.ok = rc == 0
        m = re.search(r"Invariant (\w+) is violated|(\w+) is violated|Temporal properties were violated", r.out)
        if m:
            r.violated = m.group(1) or m.group(2) or "temporal"
        if os.environ.get("VERIF_VERBOSE"):
            print("[tlc %s: %d records, %d states, %.1fs]" % (module, len(r.records), r.states, time.time() - t0), flush=True)
        self.states += r.states
        self.transitions += r.generated
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if must_pass and not r.ok:
            raise RuntimeError("TLC failed on %s (rc %s):\n%s" % (module, rc, r.out[-3500:]))
        return r

    # ---- comparisons -------------------------------------------------------------------
    def same(self, key, what, got, want, tol=0.0, **detail):
        """got (from the code) against want (from the specification)."""
        import numpy as np
        self.count("comparisons")
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self.fail(key, what + ": result is not numeric (%s)" % e, got=repr(got)[:400],
                      want=want, **detail)
            return False
        if g.shape != w.shape:
            self.fail(key, what + ": shape %s, specification says %s" % (g.shape, w.shape),
                      got=g.tolist(), want=w.tolist(), **detail)
            return False
        if g.size == 0:
            return True
        if tol == 0.0:
            ok = np.array_equal(g, w)
        else:
            with np.errstate(all="ignore"):
                ok = bool(np.all(np.isfinite(g)) and
                          np.all(np.abs(g - w) <= tol * np.maximum(1.0, np.abs(w))))
        if not ok:
            self.fail(key, what + ": the code's result differs from the specification's",
                      got=g.tolist(), want=w.tolist(), **detail)
        return bool(ok)

    def equal(self, key, what, got, want, **detail):
        self.count("comparisons")
        if got != want:
            self.fail(key, what + ": %r, specification says %r" % (_short(got), _short(want)),
                      got=got, want=want, **detail)
            return False
        return True

    def true(self, key, what, cond, **detail):
        self.count("comparisons")
        if not cond:
            self.fail(key, what, **detail)
        return bool(cond)


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


def _plain(x, depth=0):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return _plain(x.tolist(), depth + 1)
    if isinstance(x, (list, tuple)):
        return [_plain(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if hasattr(v, "tla"):
        return v.tla()
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise TypeError(v)


def ratio(x):
    """<<num, den>> printed by TLC -> float."""
    return x[0] / x[1]
