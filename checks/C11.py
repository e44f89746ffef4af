"""C11: model objects keep everything coherent with their multipliers (spec/ModelObj.tla,
spec/Ensemble.tla)."""
from itertools import combinations
import numpy as np
from C06 import tuples
from C07 import vec
from C08 import cpus
from C13 import potts_equations

LN2 = np.log(2.)


def np_(n, model):
    p = n * (n - 1) // 2
    return {"ising": n + p, "potts": 3 * n + p, "triplet": n + p + n * (n - 1) * (n - 2) // 6}[model]


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    ctx.tlc("ModelObj", consts={"NT": 3, "MaxOps": 0, "Exhaustive": True}, invariants=["Coherent"], properties=["OnlySetChanges"])
    kinds = [("ising", n) for n in ((2, 3, 5, 9) if q else range(2, 10))] + [("triplet", 5), ("potts", 3), ("ising", 11), ("potts", 6)]
    sess = ctx.tlc("ModelObj", consts={"NT": 4, "MaxOps": 16, "Exhaustive": False}, invariants=["Coherent"],
                   simulate=6 if q else 60, depth=20).records
    # weak multipliers: exact averages; strong ones: a single state
    sets, cases = [], []
    for kind, n in kinds:
        m = np_(n, kind)
        ths = []
        for x in range(4):
            if x < 2:
                th = vec(r, m, 6 if n < 9 else 4)
                c = {"id": len(cases), "n": n, "k": 3 if kind == "potts" else 0, "dom": "k" if kind == "potts" else "pm",
                     "terms": [] if kind == "potts" else tuples(n, (1, 2, 3) if kind == "triplet" else (1, 2)), "theta": th}
                use = (kind != "potts" and n < 9) or (kind == "potts" and n == 3)
                if use:
                    cases.append(c)
                ths.append({"theta": th, "real": np.array(th, float) * LN2, "case": c["id"] if use else None})
            else:
                s = [r.choice((-1, 1)) if kind != "potts" else r.randrange(3) for _ in range(n)]
                th = np.zeros(m)
                for i in range(n):
                    if kind == "potts":
                        th[s[i] * n + i] = 60.
                    else:
                        th[i] = 60. * s[i]
                ths.append({"theta": None, "real": th, "state": s, "case": None})
        sets.append((kind, n, ths))
    ens = ctx.tlc("Ensemble", cases=cases, invariants=["Normalised"])
    ens = {x["id"]: x for x in ens.records}
    coniii = ctx.load()
    from coniii import models, samplers
    with ctx.impl("equations", "three-state Potts model of 3 spins"):
        potts_equations(3)
    ctx.sample({"session": sess[0]["tr"][:8]})
    for x, s in enumerate(sess):
        kind, n, ths = sets[x % len(sets)]
        with ctx.impl("session", "%s, %d spins" % (kind, n)), cpus(samplers, 3):
            session(ctx, r, models, kind, n, ths, ens, s["tr"], x)
    for kind, n, ths in sets:
        with ctx.impl("construction", "%s, %d spins" % (kind, n)):
            construction(ctx, r, models, kind, n, ths)
    with ctx.impl("custom"):
        custom(ctx, r, models)
    with ctx.impl("owned"):
        owned(ctx, r, samplers)
    with ctx.impl("rejection"):
        rejection(ctx, r, models, samplers)


def forms(kind, n, th):
    """All documented ways of giving the same multipliers."""
    th = np.asarray(th, float)
    if kind == "ising":
        M = np.zeros((n, n))
        M[np.triu_indices(n, 1)] = th[n:]
        M = M + M.T + np.diag(th[:n])
        return [[th[:n].copy(), th[n:].copy()], th.copy(), M, (th[:n].copy(), th[n:].copy())]
    if kind == "potts":
        return [[th[:3 * n].copy(), th[3 * n:].copy()], th.copy()]
    p = n + n * (n - 1) // 2
    return [[th[:n].copy(), th[n:p].copy(), th[p:].copy()]]


MADE = []


def make(models, kind, mult, **kw):
    """every third model is of a class of the user's own that adds nothing"""
    cls = {"ising": models.Ising, "potts": models.Potts3, "triplet": models.Triplet}[kind]
    MADE.append(kind)
    return (type("Own", (cls,), {}) if MADE.count(kind) % 3 == 0 else cls)(mult, **kw)


def flat(m):
    return np.concatenate([np.asarray(x, float).ravel() for x in m]) if isinstance(m, (list, tuple)) else np.array(m, float)


def session(ctx, r, models, kind, n, ths, ens, tr, seed):
    given = []     # everything handed over, with a copy

    def give(x):
        given.append((x, flat(x)))
        return x
    fs = forms(kind, n, ths[tr[0]["arg"] - 1]["real"])
    M = make(models, kind, give(r.choice(fs)), rng=np.random.RandomState(seed))
    ctx.replayed += 1
    hist = []
    for x in tr[1:]:
        hist.append({k: x[k] for k in ("op", "arg")})
        op, t = x["op"], ths[x["uses"] - 1]
        other = None if x["arg"] == 0 else give(ths[x["arg"] - 1]["real"].copy())
        what = "%s model of %d spins, after %s" % (kind, n, [h["op"] for h in hist])
        if op == "set":
            M.set_multipliers(other)
        elif op == "setup":
            M.setup_sampler(sample_size=4)
        elif op == "stored":
            ctx.same("stored", what + ": stored multipliers", M.multipliers, t["real"])
            ctx.equal("stored", "size", M.n, n)
        elif op in ("averages", "probabilities"):
            f = getattr(M, "calc_observables" if op == "averages" else "calc_p", None)
            if f is None:       # no equations for this model: nothing to ask
                ctx.true(op, what + ": equations there are not used", (kind, n) in (("ising", 11), ("potts", 6)), n=n)
                continue
            got = np.array([float(v) for v in (f() if other is None else f(other))])
            if t["case"] is not None:
                e = ens[t["case"]]["exact"]
                want = np.array(e["num" if op == "averages" else "w"], float) / e["z"]
            elif "state" in t:
                s = np.array(t["state"])
                if op == "averages" and kind == "potts":
                    want = np.array([s[i] == v for v in range(3) for i in range(n)] + [s[i] == s[j] for i, j in combinations(range(n), 2)], float)
                elif op == "averages":
                    want = np.array([np.prod([s[i] for i in c]) for o in ((1, 2, 3) if kind == "triplet" else (1, 2))
                                     for c in combinations(range(n), o)], float)
                elif kind == "potts":
                    want = np.zeros(3 ** n)
                    want[int("".join(map(str, s)), 3)] = 1
                else:
                    want = np.zeros(2 ** n)
                    want[int("".join("1" if v == 1 else "0" for v in s), 2)] = 1
            else:
                continue
            ctx.same(op, what, got, want, tol=1e-9, session=hist)
        else:
            if op == "parallel" and kind == "potts":
                M.sampler.nCpus = 3
            kw = {"multipliers": other} if other is not None else {}
            M.generate_sample(2 * n if kind != "potts" else 12 * n, 30 * n, parallel=op == "parallel", **kw)
            S = np.asarray(M.sample)
            ctx.equal("sample", what + ": shape", S.shape, (4, n))
            if "state" in t:
                ctx.same("sample", what + ": sampled states", S, [t["state"]] * 4, session=hist)
    for a, b in given:
        ctx.same("inputs-changed", "%s model: multipliers handed in by the user" % kind, flat(a), b, session=hist)


def construction(ctx, r, models, kind, n, ths):
    vals = (0, 1, 2) if kind == "potts" else (-1, 1)
    X = np.array([[r.choice(vals) for _ in range(n)] for _ in range(6)])
    k0 = X.copy()
    for t in (ths[:1] if ctx.quick else ths):
        ref = None
        for f in forms(kind, n, t["real"]):
            keep = flat(f)
            M = make(models, kind, f)
            ctx.equal("construction", "size", M.n, n)
            ctx.same("construction", "%s model from %s: multipliers" % (kind, type(f).__name__), M.multipliers, t["real"])
            e = M.calc_e(X, np.asarray(M.multipliers, float))
            if ref is None:
                ref = e
            ctx.same("construction", "energies", e, ref, tol=1e-12)
            ctx.same("inputs-changed", "multipliers handed in", flat(f), keep)
            ctx.same("inputs-changed", "states handed in", X, k0)
            ctx.replayed += 1
    if kind == "ising":
        M = models.Ising(n)
        ctx.same("construction", "model made from a size", M.multipliers, np.zeros(np_(n, kind)))
        ctx.equal("construction", "size", M.n, n)
        ctx.same("construction", "energies of the model made from a size", M.calc_e(X, M.multipliers), np.zeros(6))
        ctx.true("construction", "PairwiseMaxent is the Ising model", models.PairwiseMaxent is models.Ising or issubclass(models.PairwiseMaxent, models.Ising))


def custom(ctx, r, models):
    """a model of the user's own, with energies of its own: the states sampled are its ground state"""
    for n in (3, 5):
        sign = [r.choice((-1, 1)) for _ in range(n)]

        class Ring(models.Model):
            def __init__(self, multipliers, **kw):
                super().__init__(multipliers, **kw)
                self.n = n

            def calc_e(self, s, th):
                s = np.asarray(s)
                return -(s * s[:, [*range(1, n), 0]] * np.asarray(th)).sum(1) - 1000. * s[:, 0] * sign[0]
        th = np.array([400. * sign[i] * sign[(i + 1) % n] for i in range(n)])
        for size_kw in ({}, {"boost": False}):
            M = Ring(th * 0, rng=np.random.RandomState(r.randrange(2 ** 31)))
            M.setup_sampler(sample_size=3, sampler_kwargs=dict(size_kw, iprint=False, **({"boost": False} if n == 3 else {})))
            for par in (False, True):
                M.generate_sample(20 * n, 150 * n, multipliers=th, parallel=par)
                ctx.replayed += 1
                ctx.same("sample", "model of the user's own, %d spins" % n, np.asarray(M.sample), [sign] * 3)


def owned(ctx, r, samplers):
    """Everything handed to a sampler stays as it is through a run of each kind: multipliers (given on
    construction and as a replacement), initial states of any integer type, fixed spins."""
    from coniii import utils
    F = {"ising": utils.define_ising_helper_functions()[0], "potts": utils.define_potts_helper_functions(3)[0]}
    for boost in (False, True):
        for model in ("ising", "potts"):
            n = r.choice((4, 5))
            p = np_(n, model)
            th0, th1 = (np.array([r.randint(-2, 2) for _ in range(p)]) * .25 for _ in range(2))
            vals = (-1, 1) if model == "ising" else (0, 1, 2)
            kw = {"iprint": False} if model == "ising" else {}
            S = samplers.Metropolis if model == "ising" else samplers.Potts3
            with cpus(samplers, 2):
                m = S(n, th0, calc_e=F[model], boost=boost, rng=np.random.RandomState(r.randrange(1000)), **kw)
                if hasattr(m, "nCpus"):
                    m.nCpus = 2
                kept = [("multipliers given on construction", th0, th0.copy()), ("replacing multipliers", th1, th1.copy())]
                for rnd in range(2):
                    for dt in (int, np.int64, np.int32, np.int8, float):
                        runs = [("serial", 1, m.generate_sample, {"burn_in": 6}), ("parallel", 2, m.generate_sample_parallel, {"burn_in": 6})]
                        if model == "ising":
                            runs.append(("conditional", 5, m.generate_cond_sample, {"burn_in": 6, "fixed_subset": [(0, 1), (2, -1)], "parallel": False}))
                        for what, rows, f, args in runs:
                            if what == "parallel" and dt is not int:
                                continue
                            if not boost and dt is not float:
                                x = np.array([[r.choice(vals) for _ in range(n if what != "conditional" else n - 2)] for _ in range(rows)], dtype=dt)
                                args = dict(args, initial_sample=x)
                                kept.append(("initial states (%s run, %s)" % (what, x.dtype), x, x.copy()))
                            elif boost and dt is not int:
                                continue
                            fs = list(args.get("fixed_subset", []))
                            f(5, n_iters=7, **args)
                            ctx.replayed += 1
                            ctx.equal("inputs-changed", "fixed spins handed in", args.get("fixed_subset", []), fs)
                            for name, a, b in kept:
                                ctx.same("inputs-changed", "%s sampler (%s), after a %s run: %s" % (model, "C++" if boost else "Python", what, name), a, b)
                    m.update_parameters(th1)
                    ctx.same("stored", "multipliers of the sampler after a replacement", m.theta, th1)
                    for name, a, b in kept:
                        ctx.same("inputs-changed", "%s sampler, after replacing the multipliers: %s" % (model, name), a, b)


def rejection(ctx, r, models, samplers):
    """Multipliers of a wrong size."""
    def rejected(what, f):
        try:
            f()
        except Exception:
            return
        ctx.fail("rejection", what + " was accepted")
    for n in (3, 4, 6):
        p = n * (n - 1) // 2
        for d in (-1, 1):
            rejected("Ising: %d couplings for %d spins" % (p + d, n), lambda: models.Ising([np.zeros(n), np.zeros(p + d)]))
            rejected("Potts: %d couplings for %d spins" % (p + d, n), lambda: models.Potts3([np.zeros(3 * n), np.zeros(p + d)]))
            rejected("Potts: %d fields" % (3 * n + d), lambda: models.Potts3([np.zeros(3 * n + d), np.zeros(p)]))
            rejected("Ising: a vector of %d" % (n + p + d), lambda: models.Ising(np.zeros(n + p + d)))
            rejected("Potts: a vector of %d" % (3 * n + p + d), lambda: models.Potts3(np.zeros(3 * n + p + d)))
            rejected("Triplet: %d triplets" % (n * (n - 1) * (n - 2) // 6 + d),
                     lambda: models.Triplet([np.zeros(n), np.zeros(p), np.zeros(n * (n - 1) * (n - 2) // 6 + d)]))
            m = samplers.Metropolis(n, np.ones(n + p), iprint=False)
            rejected("sampler: a vector of %d" % (n + p + d), lambda: m.update_parameters(np.zeros(n + p + d)))
            ctx.same("rejection", "multipliers kept after a rejected replacement", m.theta, np.ones(n + p))
            ctx.replayed += 1
    rejected("Ising model of one spin", lambda: models.Ising(1))
