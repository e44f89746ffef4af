"""C13: solvers by enumeration (spec/Ensemble.tla, spec/PartialFreq.tla)."""
import importlib, os
import numpy as np
from C06 import tuples, boltz

LN2 = np.log(2.)


def small(r, m, budget):
    t = [0] * m
    for _ in range(budget):
        t[r.randrange(m)] += r.choice((-1, 1))
    return [max(-2, min(2, x)) for x in t]


SHARED = {}
STAT = {"runs": 0, "unconverged": 0, "minimised": 0, "stalled": 0}


def attempt(ctx, s, k, target):
    """The solution and whether the optimizer says that it converged."""
    STAT["runs"] += 1
    try:
        out = s.solve(**k, full_output=True)
    except ValueError as err:
        if "acobian" in str(err):       # documented: the optimizer may give up
            STAT["unconverged"] += 1
            return None
        raise
    x, sol = out
    ctx.same("full_output", "solution of the optimizer", sol["x"], x)
    if np.shape(x) == np.shape(target) and np.allclose(x, target, atol=2e-5):
        return x
    if not sol["success"]:
        STAT["unconverged"] += 1
        return None
    return x


class Given:
    """A user's model: averages by a given table."""
    def __init__(self, table):
        self.table, self.multipliers, self.sample = table, np.zeros(table.shape[1]), None

    def calc_observables(self, th):
        return boltz(self.table, np.asarray(th, float))[1]


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    cases = []

    def add(kind, n, terms, dom, theta):
        cases.append({"id": len(cases), "n": n, "k": 0, "dom": dom, "terms": terms, "theta": theta, "kind": kind})
    for n in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7)):
        for rep in range(2 if q else 6):
            t = tuples(n, (1, 2))
            add("ising", n, t, "pm", small(r, len(t), n + 1))
    for rep in range(8 if q else 60):
        n = r.choice((2, 3, 4, 5, 6)) if rep > 3 else (3, 4, 3, 4)[rep]
        t = tuples(n, (1, 2))
        k = r.randint(1, len(t))
        ix = sorted(r.sample(range(len(t)), k))
        if rep < 4:
            ix = [[0], [len(t) - 1], list(range(1, len(t))), list(range(len(t) - 1))][rep]
        th = [0] * len(t)
        for i in ix:
            th[i] = r.choice((-1, 1, 0, 1))
        add("sparse", n, t, "pm", th)
        cases[-1]["ix"] = ix
    for n, orders in ((3, (1, 3)), (4, (2, 3)), (5, (1, 2, 3)))[:2 if q else 3]:
        t = tuples(n, orders)
        add("custom", n, t, "01", small(r, len(t), n + 1))
    tr = tuples(5, (1, 2, 3))
    add("triplet", 5, tr, "pm", small(r, len(tr), 5))
    for n in (3, 3) if q else (3, 3, 3, 4, 4):
        m = 3 * n + n * (n - 1) // 2
        add("potts", n, [], "k", small(r, m, n + 1))
        cases[-1]["k"] = 3
    send = [{k: v for k, v in c.items() if k not in ("ix", "kind")} for c in cases]
    res = ctx.tlc("Ensemble", cases=send, invariants=["Normalised"])
    exp = {x["id"]: x for x in res.records}
    fq = []
    for x in range(20 if q else 200):
        n = r.randint(2, 6)
        S = [[r.choice((-1, 1)) for _ in range(n)] for _ in range(r.randint(1, 40))]
        m = n * (n + 1) // 2
        ix = sorted(r.sample(range(1, m + 1), r.randint(1, m)))
        fq.append({"id": x, "sample": S, "states": [[r.choice((-1, 0, 1)) for _ in range(n)] for _ in range(8)] + [S[0], [0] * n],
                   "m": m, "ix": ix, "x": [r.randint(-9, 9) for _ in ix]})
    fx = {x["id"]: x for x in ctx.tlc("PartialFreq", cases=fq, invariants=["Marginal"]).records}
    coniii = ctx.load(ext=False)
    from coniii import solvers, models, utils
    for n in {c["n"] for c in cases if c["kind"] == "potts"}:
        potts_equations(n)
    ctx.sample({"model": send[2], "averages*Z": exp[2]["exact"]["num"], "Z": exp[2]["exact"]["z"]})
    for c in cases:
        with ctx.impl(c["kind"], "%s n=%d" % (c["kind"], c["n"]), limit=300):
            (potts if c["kind"] == "potts" else solve)(ctx, r, c, exp[c["id"]], solvers, models, utils)
    ctx.extra["solver_runs"], ctx.extra["optimizer_gave_up"] = STAT["runs"], STAT["unconverged"]
    ctx.true("convergence", "the optimizer did not converge in %d of %d runs on small models" % (STAT["unconverged"], STAT["runs"]),
             STAT["unconverged"] <= .25 * STAT["runs"])
    ctx.true("convergence", "the minimiser stalled in %d of %d restarted searches" % (STAT["stalled"], STAT["minimised"]),
             STAT["stalled"] <= max(1, .25 * STAT["minimised"]))
    with ctx.impl("logp"):
        logp(ctx, r, fq, fx, solvers, models)


def potts_equations(n):
    """Write the equations of a three-state Potts model where a user would put them (in the scratch tree)."""
    from coniii.enumerate_potts import SpecificFieldGenericCouplings
    SpecificFieldGenericCouplings(n, 3).write(os.path.join(os.environ["VERIF_TREE"], "coniii", "ising_eqn", "ising_eqn_%d_potts.py" % n))
    importlib.invalidate_caches()


def potts(ctx, r, c, e, solvers, models, utils):
    """Multipliers of a Potts model are not unique (gauge): averages must be met."""
    n = c["n"]
    x = e["exact"]
    avg = np.array(x["num"], float) / x["z"]
    table, S = np.array(e["table"], float), np.array(e["states"])
    full = np.repeat(S, x["w"], axis=0)
    obs = utils.define_potts_helper_functions(3)[1]
    m = len(avg)
    s = solvers.Enumerate(full, model=models.Potts3(np.zeros(m)), calc_observables=obs, iprint=False)
    ctx.same("constraints", "Potts: constraints of the sample", s.constraints, avg, tol=1e-10)
    free = [i for i in range(m) if i >= n]      # fields of the first value left out fix the gauge
    runs = [("Potts from a sample", s, np.arange(m))]
    runs += [("sparse Potts from a sample", solvers.SparseEnumerate(full, model=models.Potts3(np.zeros(m)), calc_observables=obs, parameter_ix=np.array(free), iprint=False), np.array(free))]
    for label, s, ix in runs:
        got = attempt(ctx, s, {}, np.full(len(ix), np.nan))
        if got is None:
            continue
        ctx.replayed += 1
        th = np.zeros(m)
        th[ix] = got
        ctx.same("averages", label + ": averages of the solved model", boltz(table, th)[1], avg, tol=2e-6, case=c["theta"])
        ctx.same("multipliers", label + ": stored multipliers", s.multipliers, got)


def solve(ctx, r, c, e, solvers, models, utils):
    n, kind = c["n"], c["kind"]
    x = e["exact"]
    avg = np.array(x["num"], float) / x["z"]
    want = np.array(c["theta"], float) * LN2
    table = np.array(e["table"], float)
    S = np.array(e["states"])
    full = np.repeat(S, x["w"], axis=0) if x["z"] <= 60000 else None
    if full is not None and len(full):
        full = full[np.random.RandomState(3).permutation(len(full))]
    kw = {"iprint": False}
    ix = np.array(c["ix"]) if kind == "sparse" else np.arange(len(want))
    runs = []
    if kind in ("ising", "sparse"):
        if n not in SHARED:
            SHARED[n] = models.Ising(n)
            SHARED.setdefault("obs", utils.define_ising_helper_functions()[1])
        if c["id"] % 4:
            kw.update(model=SHARED[n], calc_observables=SHARED["obs"])

    def mk(first):
        if kind == "sparse":
            shuffled = ix.copy()
            if c["id"] % 2:
                shuffled = np.append(shuffled, shuffled[:2])      # repeated entries count once
            np.random.RandomState(len(ix)).shuffle(shuffled)
            return solvers.SparseEnumerate(first, parameter_ix=shuffled, **kw)
        if kind == "ising":
            return solvers.Enumerate(first, **kw)
        if kind == "custom":
            co = lambda X: np.array([[np.prod(s[np.array(t) - 1]) for t in c["terms"]] for s in X], float)
            return solvers.Enumerate(first, model=Given(table), calc_observables=co, **kw)
        M = models.Triplet([np.zeros(5), np.zeros(10), np.zeros(10)])
        return solvers.Enumerate(first, model=M, calc_observables=utils.define_triplet_helper_functions()[1], **kw)
    guess = np.array([r.uniform(-.1, .1) for _ in ix])
    cons = avg[ix]
    g0, c0 = guess.copy(), cons.copy()
    if kind in ("ising", "sparse"):
        # without being told, solvers take their observables to be those of the Ising model
        extra = {"parameter_ix": ix} if kind == "sparse" else {}
        cls = solvers.SparseEnumerate if kind == "sparse" else solvers.Enumerate
        for what, first, model in (("a size", n, None), ("a size and a model", n, kw.get("model")), ("a model", None, SHARED[n]), ("a sample", S, None)):
            d = cls(first, model=model, iprint=False, **extra)
            ctx.same("defaults", "%s made from %s: observables" % (kind, what), d.calc_observables(S), table)
            other = lambda X: np.asarray(X)[:, :1] * 2.
            d = cls(first, model=model, calc_observables=other, iprint=False, **extra)
            ctx.same("defaults", "%s made from %s: observables given" % (kind, what), d.calc_observables(S), S[:, :1] * 2.)
            if first is not None:
                ctx.equal("defaults", "%s made from %s: size" % (kind, what), (d.n, d.model.n), (n, n))
                ctx.same("defaults", "%s made from %s: multipliers of the model" % (kind, what), d.model.multipliers, np.zeros(len(want)) if model is None else model.multipliers)
    if full is not None:
        f0 = full.copy()
        s = mk(full)
        if kind != "custom" or len(full) < 5000:
            ctx.same("constraints", "%s: constraints of the sample" % kind, s.constraints, avg, tol=1e-10)
        runs.append(("from a sample", s, {}))
        runs.append(("from a sample, other guess", s, {"initial_guess": guess}))
        runs.append(("given constraints override the sample's", mk(full[: max(2, len(full) // 2)]), {"constraints": cons}))
    runs.append(("given constraints", mk(n), {"constraints": cons}))
    runs.append(("given constraints, no bound", mk(n), {"constraints": cons, "max_param_value": None}))
    if "model" in kw or kind in ("custom", "triplet"):
        runs.append(("made from a model alone", mk(None), {"constraints": cons}))
    for label, s, k in runs:
        got = attempt(ctx, s, k, want[ix])
        if got is None:
            continue
        ctx.replayed += 1
        if label == "given constraints":
            ctx.same("multipliers", "the same solution without full output", s.solve(**k), got, tol=1e-9)
        what = "%s, %d spins, %s" % (kind, n, label)
        ctx.same("multipliers", what + ": multipliers", got, want[ix], tol=2e-5, ix=ix)
        ctx.same("multipliers", what + ": stored multipliers", s.multipliers, got)
        th = np.zeros(len(want))
        if np.shape(got) == np.shape(ix):
            th[ix] = got
            ctx.same("averages", what + ": averages of the solved model", boltz(table, th)[1][ix], avg[ix], tol=2e-6)
    ctx.same("inputs-changed", "initial guess handed in", guess, g0)
    ctx.same("inputs-changed", "constraints handed in", cons, c0)
    if full is not None:
        ctx.same("inputs-changed", "sample handed in", full, f0)
    # constraints that no chosen model produced exactly: averages must still be met
    if kind == "sparse" and n < 6:
        other = np.array([r.uniform(-.4, .4) for _ in range(len(want))])
        o = boltz(table, other)[1]
        s = mk(n)
        got = attempt(ctx, s, {"constraints": o[ix]}, ix * 0.)
        if got is not None:
            th = np.zeros(len(want))
            th[ix] = got
            ctx.same("averages", "sparse model fitting averages of a dense one", boltz(table, th)[1][ix], o[ix], tol=2e-6, ix=ix)
            ctx.same("fill_in", "chosen parameters filled in", s.fill_in(got), th)
    if np.abs(want).max() > .3:
        # no solution beyond the largest value allowed is reported as one
        top = float(np.abs(want).max()) * .6
        for root in (True, False):
            s = mk(n)
            more = {} if root else {"scipy_solver_kwargs": {"method": "Nelder-Mead", "options": {"maxiter": 200}}}
            try:
                got, sol = s.solve(constraints=cons, max_param_value=top, use_root=root, full_output=True, **more)
            except Exception:
                continue
            ctx.replayed += 1
            ctx.true("bound", "%s: parameters beyond the largest value allowed (%s)" % (kind, "root" if root else "minimisation"),
                     not sol["success"] or np.abs(got).max() <= top * (1 + 1e-6) + 1e-6, got=got, bound=top)
    if kind in ("ising", "sparse") and n <= 3:
        s = mk(n)
        for bound in ({}, {"max_param_value": None}, {"max_param_value": 20.}):
          # the simplex search may stall: restarted from its own answer it has to
          # come closer, never further away, and it may give up only rarely
          start, d0 = np.zeros(len(want[ix])), None
          for _ in range(8):
              th = np.zeros(len(want))
              th[ix] = start
              d0 = np.linalg.norm(boltz(table, th)[1][ix] - avg[ix])
              got = s.solve(constraints=cons, initial_guess=start, use_root=False, **bound, scipy_solver_kwargs={"method": "Nelder-Mead", "options": {"maxiter": 20000, "maxfev": 20000, "xatol": 1e-9, "fatol": 1e-11}})
              th[ix] = got
              d1 = np.linalg.norm(boltz(table, th)[1][ix] - avg[ix])
              ctx.true("averages", "%s by minimisation: further from the averages than where it started" % kind, d1 <= d0 + 1e-9, start=d0, end=d1)
              if d1 < 1e-4:
                  break
              start = np.array(got) + (0 if _ < 3 else np.array([r.uniform(-.3, .3) for _2 in range(len(want[ix]))]))
          STAT["minimised"] += 1
          if d1 >= 1e-3:
              STAT["stalled"] += 1
              continue
          ctx.same("averages", "%s by minimisation" % kind, boltz(table, th)[1][ix], avg[ix], tol=1e-3)


def logp(ctx, r, fq, fx, solvers, models):
    for c in fq:
        e = fx[c["id"]]
        n = len(c["sample"][0])
        if n not in SHARED:
            SHARED[n] = models.Ising(n)
        s = solvers.Enumerate(n, iprint=False, model=SHARED[n], calc_observables=SHARED["obs"])
        s.model.sample = np.array(c["sample"])
        X = np.array(c["states"])
        k0 = X.copy()
        ctx.replayed += 1
        got = s.logp(X)
        ctx.same("logp", "frequency of partially observed states", np.exp(got) * e["size"], e["counts"], tol=1e-9, case=c)
        ctx.same("logp", "frequency of one state", np.exp(s.logp(X[0])) * e["size"], e["counts"][:1], tol=1e-9)
        ctx.same("inputs-changed", "states handed in", X, k0)
        sp = solvers.SparseEnumerate(n, parameter_ix=np.array(c["ix"]) - 1, iprint=False, model=SHARED[n], calc_observables=SHARED["obs"])
        ctx.same("fill_in", "parameters filled in", sp.fill_in(np.array(c["x"], float)), e["filled"], case=c["ix"])
