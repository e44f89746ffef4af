"""C15: minimum probability flow (spec/Flow.tla; spec/Ensemble.tla for complete data)."""
from itertools import combinations
import numpy as np
from C07 import vec, npar
from C06 import tuples

LN2 = np.log(2.)
SHARED = {}


def states(n):
    return [[v >> (n - 1 - i) & 1 for i in range(n)] for v in range(2 ** n)]


def make_cases(r, q):
    out = []
    for n in (2, 3, 4) if q else (2, 3, 4, 5, 6):
        for conn in ("all", "out"):
            for flips in ("one", "two"):
                for rep in range(8 if q else 24):
                    S = states(n)
                    k = r.randrange(1, (2 ** n if conn == "all" else max(2, 2 ** n // 2)) + 1)
                    if rep % 2:
                        k = 2 ** n if conn == "all" else max(2, 2 ** n * 5 // 8)
                    pick = sorted(r.sample(S, min(k, 24)))
                    model = "ising" if rep % 4 or n < 3 else "triplet"
                    # kept small, so that all powers fit
                    th = vec(r, count(model, n), 3)
                    out.append({"model": model, "id": len(out), "states": pick, "counts": [r.randrange(1, 5) for _ in pick], "conn": conn, "flips": flips, "theta": th, "law": n <= 3})
    return out


def count(model, n):
    return n + n * (n - 1) // 2 + (n * (n - 1) * (n - 2) // 6 if model == "triplet" else 0)


def two_flips(s):
    n = len(s)
    out = []
    for i, j in combinations(range(n), 2):
        t = s.copy()
        t[i], t[j] = 1 - t[i], 1 - t[j]
        out.append(t)
    return np.array(out)


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    cases = make_cases(r, q)
    exp = {x["id"]: x for x in ctx.tlc("Flow", cases=cases, invariants=["Outside", "Stationary", "Convex"]).records}
    ens = []
    for n in ((2, 3, 4) if q else (2, 3, 4, 5)):
        for rep in range(2 if q else 5):
            ens.append({"id": len(ens), "n": n, "k": 0, "dom": "pm", "terms": tuples(n, (1, 2)), "theta": vec(r, npar("ising", n), 3)})
    ex = {x["id"]: x for x in ctx.tlc("Ensemble", cases=ens, invariants=["Normalised"]).records}
    coniii = ctx.load()
    from coniii import solvers, models, utils
    ctx.sample({"case": cases[5], "flows": exp[5]["flows"][:2], "exact": exp[5]["exact"]})
    for c in cases:
        with ctx.impl("objective", "%d spins, %s, %s flips" % (len(c["states"][0]), c["conn"], c["flips"])):
            objective(ctx, r, solvers, models, utils, c, exp[c["id"]])
    for c in cases:
        e = exp[c["id"]]
        if e["connected"] and c["model"] == "ising" and (c["id"] % (3 if q else 2) == 0):
            with ctx.impl("solve", "%d spins, %s, %s flips" % (len(c["states"][0]), c["conn"], c["flips"]), limit=300):
                solve(ctx, r, solvers, models, utils, c, e)
    for c in ens:
        with ctx.impl("complete-data", "%d spins" % c["n"], limit=300):
            complete(ctx, r, solvers, models, utils, c, ex[c["id"]])


class Triplet:
    """an energy function of the user's own"""
    def obs(self, X):
        X = np.asarray(X)
        return np.array([[np.prod(s[list(t)]) for k in (1, 2, 3) for t in combinations(range(len(s)), k)] for s in X])

    def calc_e(self, X, th):
        return -self.obs(X) @ th


def solver(solvers, models, utils, n, sample, model="ising", **kw):
    if model == "triplet":
        m = Triplet()
        if kw.get("calc_de"):
            kw["calc_de"] = lambda X, i: -m.obs(X)[:, i]
        return solvers.MPF(sample, model=m, calc_observables=m.obs, iprint=False, **kw)
    if n not in SHARED:
        SHARED[n] = models.Ising(n)
        SHARED.setdefault("obs", utils.define_ising_helper_functions()[1])
    return solvers.MPF(sample, model=SHARED[n], calc_observables=SHARED["obs"], iprint=False, **kw)


def value(e, th):
    """objective and gradient of the specification's flows at real multipliers"""
    k, g = 0., 0.
    for f in e["flows"]:
        D = np.array(f["d"], float).reshape(-1, len(th))
        w = f["count"] * np.exp(.5 * D @ th)
        k += w.sum()
        g = g + .5 * w @ D
    return k / e["size"], g / e["size"]


def objective(ctx, r, solvers, models, utils, c, e):
    ctx.replayed += 1
    n = len(c["states"][0])
    X = np.array(c["states"])
    cnt = np.array(c["counts"])
    sample = np.repeat(2 * X - 1, cnt, axis=0)
    kw = {"adj": two_flips} if c["flips"] == "two" else {}
    kw["model"] = c["model"]
    plain = solver(solvers, models, utils, n, sample, **kw)
    grad = solver(solvers, models, utils, n, sample, calc_de=utils.calc_de, **kw)
    x0 = X.copy()
    if not e["connected"]:
        try:
            plain.list_adjacent_states(X, False)
        except Exception:
            return
        ctx.fail("connectivity", "a state without neighbours outside the data was accepted", case=c)
        return
    A = plain.list_adjacent_states(X, c["conn"] == "all")
    ctx.equal("neighbours", "neighbours of the observed states", [sorted(map(list, np.asarray(a).tolist())) for a in A],
              [sorted(f["nb"]) for f in e["flows"]], case=c)
    ctx.same("inputs-changed", "states handed in", X, x0)
    A = [np.array(f["nb"]) for f in e["flows"]]
    x = e["exact"]
    for exact in (True, False):
        if exact:
            th = np.array(c["theta"], float) * 2 * LN2
            k = x["k"] / 2.0 ** x["scale"] / e["size"]
            g = np.array(x["g2"]) / 2 / 2.0 ** x["scale"] / e["size"]
        else:
            th = np.array([r.uniform(-2, 2) for _ in c["theta"]])
            k, g = value(e, th)
        t0 = th.copy()
        det = {"case": c, "theta": th.tolist()}
        ctx.same("objective", "K", plain.K(X, cnt, A, th), k, tol=1e-10, **det)
        ctx.same("objective", "log K", plain.logK(X, cnt, A, th), np.log(k), tol=1e-10, **det)
        a, b = grad.K(X, cnt, A, th)
        ctx.same("objective", "K with gradient", a, k, tol=1e-10, **det)
        ctx.same("gradient", "gradient of K", b, g, tol=1e-10, **det)
        a, b = grad.logK(X, cnt, A, th)
        ctx.same("objective", "log K with gradient", a, np.log(k), tol=1e-10, **det)
        ctx.same("gradient", "gradient of log K", b, g / k, tol=1e-10, **det)
        ctx.same("inputs-changed", "multipliers handed in", th, t0)
    # large energies
    th = np.array([r.choice((-1, 1)) * 300. for _ in c["theta"]])
    D = np.vstack([np.array(f["d"], float).reshape(-1, len(th)) for f in e["flows"]])
    W = np.concatenate([[f["count"]] * len(f["d"]) for f in e["flows"]])
    p = .5 * D @ th
    ctx.same("objective", "log K at large energies", plain.logK(X, cnt, A, th), p.max() + np.log((W * np.exp(p - p.max())).sum() / e["size"]), tol=1e-10)


def minimum(e, m):
    """minimise the specification's convex objective; None when it has no finite minimum"""
    th = np.zeros(m)
    D = np.vstack([np.array(f["d"], float).reshape(-1, m) for f in e["flows"]]) / 2
    W = np.concatenate([[f["count"]] * len(f["d"]) for f in e["flows"]]) / e["size"]
    for it in range(300):
        w = W * np.exp(D @ th)
        g = w @ D
        H = (D * w[:, None]).T @ D
        if np.linalg.cond(H) > 1e10:
            return None  # flat in some direction: the minimiser is not unique
        if np.abs(g).max() < 1e-12:
            break
        d = -np.linalg.solve(H, g)
        th = th + d * min(1, 1 / np.abs(d).max())
    return th if np.abs(g).max() < 1e-11 and np.abs(th).max() < 12 else None


def to01(th, n):
    """{-1,1} to {0,1} multipliers"""
    h, J = th[:n], th[n:]
    out = np.zeros(len(th))
    out[n:] = 4 * J
    out[:n] = 2 * h
    for v, (i, j) in zip(J, combinations(range(n), 2)):
        out[i] -= 2 * v
        out[j] -= 2 * v
    return out


def solve(ctx, r, solvers, models, utils, c, e):
    n = len(c["states"][0])
    X = np.repeat(2 * np.array(c["states"]) - 1, c["counts"], axis=0)
    X = X[np.random.RandomState(1).permutation(len(X))]
    m = len(c["theta"])
    best = minimum(e, m)
    x0 = X.copy()
    guess = np.array([r.uniform(-.3, .3) for _ in range(m)])
    g0 = guess.copy()
    ctx.count("finite_minima" if best is not None else "no_finite_minimum")
    for kw in ({}, {"uselog": False}, {"initial_guess": guess}):
        for cd in (None, utils.calc_de):
            a = {"adj": two_flips} if c["flips"] == "two" else {}
            s = solver(solvers, models, utils, n, X, calc_de=cd, **a)
            got, soln = s.solve(all_connected=c["conn"] == "all", full_output=True, parameter_limits=40,
                                solver_kwargs={"maxiter": 500, "maxfun": 100000, "ftol": 1e-15, "gtol": 1e-10}, **kw)
            ctx.replayed += 1
            t = to01(np.asarray(got), n)
            ctx.same("solve", "returned multipliers are the minimiser's in the other basis", t, soln["x"], tol=1e-9)
            ctx.same("solve", "stored multipliers", s.multipliers, got)
            k, g = value(e, t)
            want = np.log(k) if kw.get("uselog", True) else k
            ctx.same("solve", "objective reported", soln["fun"], want, tol=1e-9, case=c)
            if best is not None:
                kb, gb = value(e, best)
                ctx.true("solve", "objective at the solution %.12g, minimum %.12g" % (k, kb), k <= kb * (1 + 1e-6), case=c)
                if cd is not None:
                    ctx.same("solve", "minimiser", t, best, tol=2e-2, case=c)
            else:
                ctx.true("solve", "multipliers within the limit", np.all(np.abs(t) <= 40 + 1e-6))
    ctx.same("inputs-changed", "sample", X, x0)
    ctx.same("inputs-changed", "initial guess", guess, g0)


def complete(ctx, r, solvers, models, utils, c, e):
    x = e["exact"]
    if x["z"] > 200000:
        return
    n = c["n"]
    X = np.repeat(np.array(e["states"]), x["w"], axis=0)
    true = np.array(c["theta"], float) * LN2
    for cd in (None, utils.calc_de):
        for kw in ({}, {"uselog": False}):
            s = solver(solvers, models, utils, n, X, calc_de=cd)
            ctx.replayed += 1
            got = s.solve(solver_kwargs={"maxiter": 500, "maxfun": 100000, "ftol": 1e-15, "gtol": 1e-10}, **kw)
            ctx.same("complete-data", "multipliers from complete data", got, true, tol=1e-3, case=c)
