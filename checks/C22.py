"""C22: the regularised mean field solver (spec/MeanField.tla for the couplings,
spec/Bracket.tla for the choice of the bracket)."""
import numpy as np
from itertools import combinations
from scipy.optimize import brentq
from C19 import samples, formula


def make_lists(r, q):
    out = []
    for x in range(120 if q else 2000):
        n = r.choice((3, 4, 5, 8))
        f = r.sample(range(50), n) if x % 3 else [r.randrange(4) for _ in range(n)]
        if x % 5 == 0:
            f = f + [99] if f[-1] == min(f) else f
        out.append({"id": x, "f": f})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    lists = make_lists(r, q)
    data = []
    for n in (2, 3, 4):
        for rep in range(5 if q else 25):
            X = samples(r, n, 14 if n < 4 else 10)
            A = np.array(X)
            data.append({"id": len(data), "m": len(X), "count": (A.T @ A).tolist(), "x": X})
    res = ctx.tlc("Bracket", cases=lists, invariants=["Report", "Encloses", "Tightest"], properties=["Ends"])
    allowed = {}
    for x in res.records:
        allowed.setdefault(x["id"], set()).add((x["stage"], tuple(x["at"])))
    ef = {x["id"]: x for x in ctx.tlc("MeanField", cases=data, invariants=["Inverse", "Cauchy", "Uncoupled"]).records}
    ctx.start_build()
    ctx.load()
    from coniii import solvers, models
    ctx.sample({"values": lists[3]["f"], "allowed": sorted(allowed[3])})
    with ctx.impl("bracket"):
        s = solvers.RegularizedMeanField(np.array([[1, -1], [1, 1], [-1, 1]]), model=Scripted(lambda th: None))
        for c in lists:
            bracket(ctx, s, c, allowed[c["id"]])
    for c in data:
        with ctx.impl("solve", "%d spins" % len(c["count"]), limit=300):
            scripted(ctx, r, solvers, c, ef[c["id"]])
    for c in data[3:4] if q else data[3:12]:
        with ctx.impl("sampled", "%d spins" % len(c["count"]), limit=600):
            sampled(ctx, r, solvers, models, c, ef[c["id"]])


def bracket(ctx, s, c, allowed):
    ctx.replayed += 1
    for x in (list(range(len(c["f"]))), np.linspace(-1, 2, len(c["f"]))):
        try:
            got = s.bracket1d(x, list(c["f"]))
            got = "done", tuple(list(x).index(v) + 1 for v in got)
        except Exception as e:
            got = "boundary", None
            ctx.true("bracket", "error although the minimum is inside: %r" % e, any(a[0] == "boundary" for a in allowed), case=c)
            continue
        ctx.true("bracket", "bracket %s" % (got,), got in allowed, allowed=sorted(allowed), case=c)


class Scripted:
    """a model that hands out the samples a script wants for the multipliers it is set to"""

    def __init__(self, script, seed=0):
        self.rng = np.random.RandomState(seed)
        self.script, self.tried, self.drawn = script, [], []
        self.sampler = None

    def setup_sampler(self, *a, **k):
        pass

    def set_rng(self, rng):
        self.rng = rng

    def set_multipliers(self, th):
        self.multipliers = np.array(th)

    def generate_sample(self, *a, **k):
        th = np.array(k.get("multipliers", self.multipliers))
        self.tried.append(th)
        self.drawn.append(int(self.rng.randint(2 ** 30)))
        self.sample = self.script(th)


def pm(J):
    """multipliers of the {-1,1} basis of exp(-h x - sum_ij J x x)"""
    n = len(J)
    h = [-J[i, i] / 2 - sum(J[i, j] for j in range(n) if j != i) / 2 for i in range(n)]
    return np.array(h + [-J[i, j] / 2 for i, j in combinations(range(n), 2)])


def scripted(ctx, r, solvers, c, e):
    n, m = len(c["count"]), c["m"]
    f = np.array([c["count"][i][i] for i in range(n)]) / m
    p = f.mean()
    curve = lambda g: pm(formula(c, e, g / (p * p * (1 - p) ** 2) / m)[1])
    X = (2 * np.array(c["x"]) - 1).astype(r.choice((np.int64, np.int8, float)))
    keep = X.copy()
    # deviations of the first frequency and of the first pair as functions of the strength
    data = np.triu(np.array(c["count"], float)) / m
    sd = np.sqrt(((data * m + 1) / (m + 2)) * (1 - (data * m + 1) / (m + 2)) / m)
    top = .4
    a, b = r.uniform(.1, .2), r.uniform(.2, .3)
    k1, k2 = r.uniform(.1, .3), r.uniform(.1, .3)
    D = 20000
    ks = [i for i in range(n + n * (n - 1) // 2) if i >= n and abs(curve(0.)[i] - curve(top)[i]) > 1e-3]
    if not ks:
        return
    ctx.replayed += 1

    def strength(th):
        i = max(ks, key=lambda i: abs(curve(0.)[i] - curve(top)[i]))
        lo, hi = curve(0.)[i], curve(top)[i]
        if abs(th[i] - lo) < 1e-9:
            return 0.
        try:
            return brentq(lambda g: curve(g)[i] - th[i], 0., 3.)
        except ValueError:
            return top

    def wanted(g):
        """average co-occurrences of the sample at strength g: two terms move in opposite directions"""
        C = data.copy()
        C[0, 0] += k1 * (g - a) * (1 if f[0] < .5 else -1)
        C[0, 0] += noise[0] * np.sin(1e9 * g)
        C[1, 1] += k2 * (g - b) * (1 if f[1] < .5 else -1)
        return C

    def script(th):
        C = wanted(strength(th))
        # independent columns in the long run: every spin is up in the right fraction of the rows, in a row
        # order that spreads the pairs evenly
        rng = np.random.RandomState(5)
        Y = np.empty((D, n), int)
        for i in range(n):
            col = np.zeros(D, int)
            col[:int(round(C[i, i] * D))] = 1
            Y[:, i] = np.random.RandomState(i).permutation(col)
        seen.append(Y)
        return 2 * Y - 1

    def objective(g):
        return deviations(curve(g))

    def deviations(th):
        Y = script(np.array(th))
        Z = (Y + 1) // 2
        d = (np.triu(Z.T @ Z / D) - data) / np.where(sd > 0, sd, 1)
        return (d[np.triu_indices(n)] ** 2).sum()
    seen, noise = [], [0.]
    grid = np.linspace(0, top, 21)
    vals = [objective(g) for g in grid]
    i0 = int(np.argmin(vals))
    inside = 0 < i0 < len(grid) - 1 and sorted(vals)[1] - sorted(vals)[0] > 1e-6
    M = Scripted(script, r.randrange(1000))
    s = solvers.RegularizedMeanField(X, model=M, calc_observables=lambda x: x)
    if not inside:
        if i0 in (0, len(grid) - 1):
            try:
                s.solve(n_grid_points=21, bracket=(0, top))
            except Exception:
                return
            ctx.fail("solve", "no error although the best strength is at the end of the bracket", case=c)
        return
    for reset in (True, False):
        M.tried, M.drawn = [], []
        th = s.solve(n_grid_points=21, bracket=(0, top), reset_rng=reset)
        tried = np.array(M.tried)
        for g in grid:
            w = curve(g)
            ctx.true("solve", "strength %.3f was tried with its mean field couplings" % g, np.abs(tried - w).max(1).min() < 1e-7, nearest=tried[np.abs(tried - w).max(1).argmin()], want=w, case=c)
        if reset:
            ctx.equal("reproducible", "different random numbers for different strengths", len(set(M.drawn)), 1)
        else:
            ctx.true("reproducible", "generator not reset", len(set(M.drawn)) > 1)
        g = strength(np.array(th))
        ctx.same("solve", "multipliers are those of the strength found", th, curve(g), tol=1e-6, case=c)
        ctx.true("solve", "strength %.4f minimises the deviations" % g, objective(g) <= min(vals) + 1e-9, found=objective(g), grid=min(vals), case=c)
        best = min(deviations(t) for t in tried)
        ctx.true("solve", "multipliers are the best of those tried", deviations(th) <= best + 1e-9, found=deviations(th), best=best, case=c)
        ctx.same("solve", "stored multipliers", s.multipliers, th)
    # a rough objective, different at any two strengths: the best of those tried is returned, not the last
    rough, noise[0] = [], .004
    M.script, base = (lambda th: rough.append(deviations(th)) or base(th)), script
    M.tried = []
    try:
        th = s.solve(n_grid_points=21, bracket=(0, top))
    except Exception as x:
        if "oundary" not in str(x) and "racketing" not in str(x):
            raise
        return
    near = np.abs(np.array(M.tried) - th).max(1)
    ctx.true("solve", "the multipliers returned were tried", near.min() < 1e-10, distance=near.min(), case=c)
    ctx.true("solve", "multipliers are the best of those tried", rough[near.argmin()] <= min(rough), found=rough[near.argmin()], best=min(rough), case=c)
    ctx.same("inputs-changed", "sample", X, keep)


def sampled(ctx, r, solvers, models, c, e):
    """with the real sampler: reproducible, and on the curve"""
    n, m = len(c["count"]), c["m"]
    X = 2 * np.array(c["x"]) - 1
    out = []
    for rep in range(2):
        s = solvers.RegularizedMeanField(X, model=models.Ising(n, rng=np.random.RandomState(7)), sample_size=300)
        try:
            out.append(s.solve(n_grid_points=15, bracket=(0, 1.)))
        except Exception as x:
            if "oundary" not in str(x) and "racketing" not in str(x):
                raise
            out.append(None)
    ctx.replayed += 1
    if out[0] is None or out[1] is None:
        ctx.equal("sampled", "both runs find no inner minimum", out, [None, None])
        return
    f = np.array([c["count"][i][i] for i in range(n)]) / m
    p = f.mean()
    gs = np.linspace(0, 1.2, 2401)
    d = [np.abs(pm(formula(c, e, g / (p * p * (1 - p) ** 2) / m)[1]) - out[0]).max() for g in gs]
    ctx.true("sampled", "multipliers are mean field ones of some strength", min(d) < .02, distance=min(d), got=out[0], case=c)
