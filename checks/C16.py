"""C16: pseudo-likelihood (spec/Pseudo.tla, spec/Pseudo01.tla; spec/Ensemble.tla for complete
data)."""
from itertools import combinations
import numpy as np
from C07 import vec
from C06 import tuples

LN2 = np.log(2.)
SHARED = {}


def count(model, n, k):
    p = n * (n - 1) // 2
    return {"ising": n + p, "potts": k * n + p, "triplet": n + p + n * (n - 1) * (n - 2) // 6}[model]


def make_cases(r, q):
    out = []
    todo = [("ising", n, 0) for n in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7))] + [("potts", 2, 3), ("potts", 3, 3), ("potts", 4, 3), ("potts", 3, 2), ("potts", 3, 4), ("triplet", 3, 0), ("triplet", 4, 0)]
    for model, n, k in todo:
        for rep in range(4 if q else 20):
            alpha = range(k) if model == "potts" else (-1, 1)
            out.append({"id": len(out), "model": model, "k": k, "dom": "pm", "theta": vec(r, count(model, n, k), 3 if model == "potts" else 2),
                        "sample": [[r.choice(alpha) for _ in range(n)] for _ in range(r.choice((1, 3, 8)))]})
    return out


def make_01(r, q):
    out = []
    for n in (2, 3, 4, 5):
        for rep in range(6 if q else 25):
            j = [[0] * n for _ in range(n)]
            for a in range(n):
                for b in range(a, n):
                    j[a][b] = j[b][a] = r.randrange(-3, 4)
            ms = r.choice((0, 0, 1, 2))
            smp = [[r.choice((0, 1)) for _ in range(n)] for _ in range(r.choice((1, 4, 9)))]
            smp = [x if sum(x) >= ms else [1] * n for x in smp]
            out.append({"id": len(out), "j": j, "minsize": ms, "sample": smp})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    cases, c01 = make_cases(r, q), make_01(r, q)
    exp = {x["id"]: x for x in ctx.tlc("Pseudo", cases=cases, invariants=["Ratios", "OwnOnly", "AddUp"]).records}
    e01 = {x["id"]: x for x in ctx.tlc("Pseudo01", cases=c01, invariants=["Exponent"]).records}
    ens = []
    for model, n, k in [("ising", n, 0) for n in ((2, 3, 4) if q else (2, 3, 4, 5))] + [("potts", 2, 3), ("potts", 3, 3), ("triplet", 3, 0)]:
        for rep in range(2 if q else 5):
            ens.append({"id": len(ens), "model": model, "n": n, "k": k, "dom": "k" if model == "potts" else "pm",
                        "terms": [] if model == "potts" else tuples(n, (1, 2, 3) if model == "triplet" else (1, 2)), "theta": vec(r, count(model, n, k), 3)})
    ex = {x["id"]: x for x in ctx.tlc("Ensemble", cases=ens, invariants=["Normalised"]).records}
    coniii = ctx.load()
    from coniii import solvers, models, utils, pseudo_inverse_ising as pii
    ctx.sample({"case": cases[8], "conditionals": exp[8]["cond"]})
    for c in cases:
        with ctx.impl("objective", "%s %d spins" % (c["model"], len(c["sample"][0]))):
            objective(ctx, r, solvers, models, utils, c, exp[c["id"]])
    for c in c01:
        with ctx.impl("conditionals-01", "%d spins" % len(c["sample"][0])):
            zero_one(ctx, r, solvers, models, utils, pii, c, e01[c["id"]])
    for c in ens:
        with ctx.impl("complete-data", "%s %d spins" % (c["model"], c["n"]), limit=300):
            complete(ctx, r, solvers, models, utils, pii, c, ex[c["id"]])


def shared(models, utils, model, n, k):
    key = (model, n, k)
    if key not in SHARED:
        if model == "ising":
            SHARED[key] = (models.Ising(n), utils.define_ising_helper_functions()[1], {})
        elif model == "potts":
            g, o = utils.define_pseudo_potts_helper_functions(n, k)
            M = (models.Potts3 if n % 2 else type("Own", (models.Potts3,), {}))(np.zeros(count(model, n, 3)))
            SHARED[key] = (M, utils.define_potts_helper_functions(k)[1], {"get_multipliers_r": g, "calc_observables_r": o, "k": k})
        else:
            terms = [t for m in (1, 2, 3) for t in combinations(range(n), m)]
            own = lambda r: [i for i, t in enumerate(terms) if r in t]

            class Plain:
                pass
            SHARED[key] = (Plain(), lambda X: np.array([[np.prod(s[list(t)]) for t in terms] for s in X]),
                           {"get_multipliers_r": lambda r, th: (np.asarray(th)[own(r)], own(r)),
                            "calc_observables_r": lambda r, X: np.array([[np.prod(s[list(t)]) for t in terms if r in t] for s in X], float)})
    return SHARED[key]


def table(e, m):
    """change vectors per spin and sample: list of arrays (alternatives x parameters)"""
    return [[np.array([a["d"] for a in x], float).reshape(-1, m) for x in spin] for spin in e["alt"]]


def value(D, th, spins):
    """minus the log conditionals summed, its gradient and second derivatives"""
    f, g, H = 0., np.zeros(len(th)), np.zeros((len(th), len(th)))
    for i in spins:
        for d in D[i]:
            x = d @ th
            top = max(0., x.max())     # finite for multipliers of any size
            w = np.exp(x - top)
            z = np.exp(-top) + w.sum()
            p = w / z
            f += top + np.log(z)
            g += p @ d
            H += (d * p[:, None]).T @ d - np.outer(p @ d, p @ d)
    return f, g, H


class Probe:
    """stands in for an optimisation method: evaluates the objective where asked"""

    def __init__(self, points, answer=None):
        self.points, self.seen, self.answer = points, [], answer

    def __call__(self, fun, x0, args=(), jac=None, **k):
        from scipy.optimize import OptimizeResult
        me = len(self.seen)
        self.seen.append((np.array(x0), [(fun(np.array(p)), jac(np.array(p))) for p in self.points(me)]))
        return OptimizeResult(x=np.array(x0) if self.answer is None else np.array(self.answer(me)), fun=0., success=True, nit=1)


def objective(ctx, r, solvers, models, utils, c, e):
    ctx.replayed += 1
    model, k = c["model"], c["k"]
    X = np.array(c["sample"], r.choice((np.int64, np.int8, float)))
    n = X.shape[1]
    m = len(c["theta"])
    M, obs, kw = shared(models, utils, model, n, k)
    x0 = X.copy()
    D = table(e, m)
    own = [np.array(o) - 1 for o in e["own"]]
    thetas = [np.array(c["theta"], float) * LN2] + [np.array([r.uniform(-1.5, 1.5) for _ in range(m)]) for _ in range(2)]
    thetas.append(thetas[1] * 700)     # beyond the range of exp
    # the specification's exact conditionals at the integer multipliers
    want = -sum(np.log(p[0] / p[1]) for spin in e["cond"] for p in spin)
    ctx.same("harness", "change table against exact conditionals", value(D, thetas[0], range(n))[0], want, tol=1e-10)
    # helper functions
    if model != "triplet":
        g, o = (kw["get_multipliers_r"], kw["calc_observables_r"]) if model == "potts" else helpers(utils, n)
        for i in range(n):
            th = thetas[1]
            mult, ix = g(i, th)
            ctx.same("helpers", "%s: places of the multipliers of spin %d" % (model, i), ix, own[i])
            ctx.same("helpers", "%s: multipliers of spin %d" % (model, i), mult, th[own[i]])
            out = o(i, X)
            ctx.same("helpers", "%s: observables of spin %d" % (model, i), out[0] if model == "potts" else out, e["obs"][i], case=c)
            if model == "potts":
                for a in range(k - 1):
                    ctx.same("helpers", "observables of the alternatives of spin %d" % i, out[1][a], [x[a]["obs"] for x in e["alt"][i]], case=c)
                ctx.same("helpers", "alternatives of spin %d" % i, out[2], [[a["to"] for a in x] for x in e["alt"][i]], case=c)
    s = solvers.Pseudo(X, model=M, calc_observables=obs, iprint=False, **kw)
    guess = np.array([r.uniform(-1, 1) for _ in range(m)])
    g0 = guess.copy()
    if model == "ising":
        p = Probe(lambda i: [th[own[i]] for th in thetas])
        got = s.solve(initial_guess=guess, solver_kwargs={"method": p})
        ctx.equal("objective", "optimisations, one per spin", len(p.seen), n)
        for i, (start, vals) in enumerate(p.seen):
            ctx.same("start", "starting point of spin %d" % i, start, guess[own[i]])
            for th, (f, gr) in zip(thetas, vals):
                wf, wg, _ = value(D, th, [i])
                ctx.same("objective", "conditional likelihood of spin %d" % i, f, wf, tol=1e-10, case=c)
                ctx.same("gradient", "its gradient", gr, wg[own[i]], tol=1e-9, case=c)
        ctx.same("result", "nothing changed by an optimiser that stays", got, guess, tol=1e-12)
        # symmetrised: couplings are the mean of what the two spins found
        ans = [np.array([r.uniform(-1, 1) for _ in range(n)]) for _ in range(n)]
        got, sol = s.solve(full_output=True, solver_kwargs={"method": Probe(lambda i: [], lambda i: ans[i])})
        full = np.zeros(m)
        for i in range(n):
            for v, ix in zip(ans[i], own[i]):
                full[ix] += v if ix < n else v / 2
        ctx.same("result", "fields and averaged couplings", got, full, tol=1e-12)
        ctx.same("result", "stored multipliers", s.multipliers, got)
        ctx.equal("result", "optimiser outputs", len(sol), n)
    p = Probe(lambda i: thetas)
    got = s.solve(initial_guess=guess, solver_kwargs={"method": p}, **({"force_general": True} if model == "ising" else {}))
    ctx.same("start", "starting point", p.seen[0][0], guess)
    for th, (f, gr) in zip(thetas, p.seen[0][1]):
        wf, wg, _ = value(D, th, range(n))
        ctx.same("objective", "%s: pseudo-likelihood" % model, f, wf, tol=1e-10, case=c)
        ctx.same("gradient", "%s: gradient" % model, gr, wg, tol=1e-9, case=c)
    ctx.same("result", "result is the optimiser's", got, guess)
    if model == "potts":
        A = np.array([r.uniform(0, 1) for _ in range(m)])
        p = Probe(lambda i: thetas)
        s.solve(initial_guess=guess, cost_fcn=lambda x: (A * x ** 2).sum(), cost_fcn_jac=lambda x: 2 * A * x, solver_kwargs={"method": p})
        for th, (f, gr) in zip(thetas, p.seen[0][1]):
            wf, wg, _ = value(D, th, range(n))
            ctx.same("objective", "with a cost", f, wf + (A * th ** 2).sum(), tol=1e-10, case=c)
            ctx.same("gradient", "with a cost", gr, wg + 2 * A * th, tol=1e-9, case=c)
    ctx.same("inputs-changed", "sample", X, x0)
    ctx.same("inputs-changed", "initial guess", guess, g0)


HELP = {}


def helpers(utils, n):
    if n not in HELP:
        HELP[n] = utils.define_pseudo_ising_helper_functions(n)
    return HELP[n]


def zero_one(ctx, r, solvers, models, utils, pii, c, e):
    """the deprecated {0,1} functions and those of pseudo_inverse_ising"""
    ctx.replayed += 1
    X = np.array(c["sample"])
    n = X.shape[1]
    M, obs, kw = shared(models, utils, "ising", n, 0)
    full = 2 * X - 1
    X = X.astype(r.choice((np.int64, np.int8, np.uint8, float)))
    s = solvers.Pseudo(full, model=M, calc_observables=obs, iprint=False)
    x0 = X.copy()
    Js = [np.array(c["j"], float) * LN2 / 2]
    A = np.array([[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    Js.append((A + A.T) / 2)
    Js.append((A + A.T) * 500)
    for J in Js:
        tot = {True: 0., False: 0.}
        for i in range(n):
            v = np.array(e["v"][i], float)
            for filt in (True, False):
                w = np.array(e["free"][i], float) if filt else np.ones(len(v))
                x = v @ J[i]
                f = -(w * (np.maximum(x, 0) + np.log1p(np.exp(-abs(x))))).sum()
                z = np.exp(-abs(x))
                g = (w * np.where(x > 0, 1., z) / (1 + z)) @ v
                H = (v * (w * z / (1 + z) ** 2)[:, None]).T @ v
                tot[filt] += f
                if filt:
                    a = pii.conditionalLogLikelihood(i, X, J[i], minSize=c["minsize"]), pii.conditionalJacobian(i, X, J[i], minSize=c["minsize"]), \
                        pii.conditionalHessian(i, X, J[i], minSize=c["minsize"])
                else:
                    a = s.cond_log_likelihood(i, X, J[i]), s.cond_jac(i, X, J[i]), s.cond_hess(i, X, J[i])
                name = "pseudo_inverse_ising" if filt else "Pseudo"
                ctx.same("conditionals-01", name + ": log conditional of spin %d" % i, a[0], f, tol=1e-10, case=c)
                ctx.same("conditionals-01", name + ": its derivative (sign reversed)", a[1], g, tol=1e-10, case=c)
                ctx.same("conditionals-01", name + ": its second derivatives (sign reversed)", a[2], H, tol=1e-10, case=c)
        ctx.same("conditionals-01", "pseudo-likelihood of all spins", pii.pseudoLogLikelihood(X, J, c["minsize"]), tot[True], tol=1e-10, case=c)
        ctx.same("conditionals-01", "pseudo-likelihood of all spins (Pseudo)", s.pseudo_log_likelihood(X, J), tot[False], tol=1e-10, case=c)
    ctx.same("inputs-changed", "sample", X, x0)


def gauge(D, n):
    """directions of the parameters that change no conditional"""
    A = np.vstack([d for spin in D for d in spin])
    u, s, vt = np.linalg.svd(A)
    rank = (s > 1e-9 * s[0]).sum()
    return vt[:rank]


def complete(ctx, r, solvers, models, utils, pii, c, e):
    x = e["exact"]
    if x["z"] > 60000:
        return
    model, n, k = c["model"], c["n"], c["k"]
    X = np.repeat(np.array(e["states"]), x["w"], axis=0)
    true = np.array(c["theta"], float) * LN2
    M, obs, kw = shared(models, utils, model, n, k)
    s = solvers.Pseudo(X, model=M, calc_observables=obs, iprint=False, **kw)
    T = np.array(e["table"], float)
    # directions that matter: differences of observables
    G = np.linalg.svd(T - T[0])
    rank = (G[1] > 1e-9 * G[1][0]).sum()
    B = G[2][:rank]
    guess = np.array([r.uniform(-.2, .2) for _ in true])
    runs = [{}, {"initial_guess": guess}]
    if model == "ising":
        runs.append({"force_general": True})
    for kk in runs:
        ctx.replayed += 1
        got = s.solve(solver_kwargs={"tol": 1e-9}, **kk)
        ctx.same("complete-data", "%s: multipliers from complete data, up to the gauge" % model, B @ np.asarray(got), B @ true, tol=1e-4, case=c)
        both = s.solve(solver_kwargs={"tol": 1e-9}, full_output=True, **kk)
        ctx.same("complete-data", "%s: multipliers with full output" % model, both[0], got, tol=1e-12)
        ctx.same("complete-data", "%s: stored multipliers" % model, s.multipliers, got, tol=1e-12)
    if model == "ising":
        ctx.same("complete-data", "first form of the solver from complete data", s._solve_ising_deprecated(), true, tol=1e-3, case=c)
        Y = ((X + 1) // 2).astype(r.choice((np.int64, np.int8, np.uint8, float)))
        J = pii.pseudoInverseIsing(Y)
        h, K = -np.diag(J), [-2 * J[i, j] for i, j in combinations(range(n), 2)]
        t = np.zeros(len(true))
        t[n:] = np.array(K) / 4
        t[:n] = h / 2
        for v, (i, j) in zip(K, combinations(range(n), 2)):
            t[i] += v / 4
            t[j] += v / 4
        ctx.same("complete-data", "pseudoInverseIsing from complete data", t, true, tol=1e-3, case=c)
