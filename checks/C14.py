"""C14: the adaptive cluster expansion (spec/Cluster.tla for the selection and the sums,
spec/Ensemble.tla for data of exactly known models)."""
from itertools import combinations
import numpy as np
from C06 import tuples
from C07 import vec, npar

LN2 = np.log(2.)


def bits(mask):
    return frozenset(i for i in range(12) if mask >> i & 1)


def make_cases(r, count, q):
    out = []
    for x in range(count):
        n = r.choice((1, 2, 3, 3, 4, 4) if q else (1, 2, 3, 4, 4, 5))
        p = n + n * (n - 1) // 2
        prs = list(combinations(range(n), 2))
        # contributions with a few strong ones, entropies from them
        strong = r.choice((.3, .6, .9))
        d = {m: (r.choice((-1, 1)) * r.randrange(4, 9) if r.random() < strong else r.randrange(-3, 4)) for m in range(1, 2 ** n)}
        for i in range(n):
            d[1 << i] = r.choice((0, 0, 5))
        ref = [r.randrange(1, 6) for _ in range(n)]
        ent = [sum(d[u] for u in range(1, m + 1) if u & m == u) + sum(ref[i] for i in range(n) if m >> i & 1) for m in range(1, 2 ** n)]
        par = []
        for m in range(1, 2 ** n):
            par.append([r.randrange(-6, 7) if m >> i & 1 else 0 for i in range(n)] + [r.randrange(-6, 7) if (m >> i & 1) and (m >> j & 1) else 0 for i, j in prs])
        extra = r.choice((0, 0, 1, 2))
        spins = sorted(r.sample(range(n + extra), n))
        out.append({"id": x, "n": n, "full": n + extra, "spins": spins, "ent": ent, "par": par, "ref": ref,
                    "refpar": [r.randrange(-5, 6) for _ in range(n)], "t": r.choice((-1, 3, 3, 3, 4, 5, 100))})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    cases = make_cases(r, 350 if q else 2000, q)
    exp = {x["id"]: x for x in ctx.tlc("Cluster", cases=cases, invariants=["Moebius", "Everything", "Thresholded", "Grown"]).records}
    ens = []
    for n in ((2, 3, 4) if q else (2, 3, 3, 4, 4, 5)):
        for rep in range(2 if q else 4):
            m = npar("ising", n)
            th = vec(r, m, 3)
            if rep == 0 and n >= 4:      # strong pairs around one spin only
                th = [0] * m
                for a, (i, j) in enumerate(combinations(range(n), 2)):
                    th[n + a] = 1 if 1 in (i, j) else 0
                th[1] = 1
            ens.append({"id": len(ens), "n": n, "k": 0, "dom": "pm", "terms": tuples(n, (1, 2)), "theta": th})
    ex = {x["id"]: x for x in ctx.tlc("Ensemble", cases=ens, invariants=["Normalised"]).records}
    coniii = ctx.load()
    from coniii import solvers, mean_field_ising as mf
    ctx.sample({"case": cases[3], "expected": {k: exp[3][k] for k in ("kept", "total", "mult")}})
    for c in cases:
        with ctx.impl("selection", "case %d" % c["id"]):
            scripted(ctx, r, solvers, c, exp[c["id"]])
    with ctx.impl("subsets"):
        subsets(ctx, solvers)
    for c in ens:
        with ctx.impl("expansion", "%d spins" % c["n"], limit=300):
            real(ctx, r, solvers, mf, c, ex[c["id"]], q)


class NoModel:
    setup_sampler = staticmethod(lambda *a, **k: None)


def scripted(ctx, r, solvers, c, e):
    ctx.replayed += 1
    n, N, spins = c["n"], c["full"], c["spins"]
    at = {s: i for i, s in enumerate(spins)}
    X = np.random.RandomState(c["id"]).choice([-1, 1], (9, N))
    s = solvers.ClusterExpansion(X, iprint=False, model=NoModel(), calc_observables=lambda Y: Y)
    prs = list(combinations(range(n), 2))

    def matrix(p):
        J = np.zeros((N, N))
        for i in range(n):
            J[spins[i], spins[i]] = p[i]
        for v, (i, j) in zip(p[n:], prs):
            J[spins[i], spins[j]] = J[spins[j], spins[i]] = v / 2
        return J
    mask = lambda cl: sum(1 << at[int(v)] for v in cl)

    def S(cluster, coocMat, *a, **k):
        m = mask(cluster)
        return float(c["ent"][m - 1]), matrix(c["par"][m - 1])

    def S0(cluster, coocMat, *a, **k):
        m = mask(cluster)
        return float(sum(c["ref"][i] for i in bits(m))), matrix([c["refpar"][i] if i in bits(m) else 0 for i in range(n)] + [0] * len(prs))
    s.S, s.Sindependent = S, S0
    k = {} if spins == list(range(N)) and r.random() < .5 else {"cluster": r.sample(spins, n)}
    order = list(k.get("cluster", ()))
    given = r.random() < .4
    ds, dj = {}, {}
    if given:
        k.update(deltaSdict=ds, deltaJdict=dj)
    out = s.solve(c["t"], iprint=False, full_output=True, **k)
    mult, ent, clusters, dS, dJ = out
    want = [sorted(tuple(sorted(spins[i] for i in bits(m))) for m in layer) for layer in e["kept"]]
    got = [sorted(tuple(sorted(int(v) for v in cl)) for cl in clusters.get(size, [])) for size in range(1, n + 1)]
    ctx.equal("selection", "clusters selected at threshold %s" % c["t"], got, want, case=c)
    ctx.same("entropy", "entropy", ent, e["total"], case=c)
    full = np.zeros(N + N * (N - 1) // 2)
    full[spins] = e["mult"][:n]
    allp = {p: N + a for a, p in enumerate(combinations(range(N), 2))}
    for v, (i, j) in zip(e["mult"][n:], prs):
        full[allp[(spins[i], spins[j])]] = v
    ctx.same("couplings", "multipliers", np.array(mult) * 4, full, tol=1e-12, case=c)
    ctx.same("couplings", "stored multipliers", s.multipliers, mult)
    want = {tuple(sorted(spins[i] for i in bits(m))): d for m, d in e["delta"]}
    got = {tuple(sorted(map(int, kk))): v for kk, v in dS.items()}
    for kk, v in got.items():
        ctx.true("contribution", "contribution of cluster %s: %s, specification says %s" % (kk, v, want.get(kk)), v == want.get(kk), case=c)
    ctx.true("contribution", "contributions of all clusters considered are reported",
             {tuple(sorted(spins[i] for i in bits(m))) for m in e["seen"]} <= set(got), case=c)
    ctx.same("repeat", "same result without full output", s.solve(c["t"], iprint=False, **k), mult)
    if "cluster" in k:
        ctx.equal("inputs-changed", "cluster handed in", k["cluster"], order)


def subsets(ctx, solvers):
    s = solvers.ClusterExpansion(np.random.RandomState(1).choice([-1, 1], (9, 3)), iprint=False)
    for lst in ([0], [3, 1], [0, 1, 2], [5, 2, 7, 1], [4, 3, 2, 1, 0]):
        for size in range(0, len(lst) + 2):
            own = list(lst)
            want = sorted(tuple(sorted(t)) for t in combinations(lst, size)) if size else []
            ctx.equal("subsets", "subsets of %s of size %d" % (lst, size), sorted(tuple(sorted(x)) for x in s.subsets(own, size)), want)
            ctx.equal("subsets", "list handed in", own, lst)


def fit(S, x):
    """maximum entropy of pairwise averages x over the states S (Newton's method): the distribution is of the
    right form and its averages match, hence it is the one of maximum entropy"""
    n = S.shape[1]
    O = np.hstack([S, np.array([S[:, i] * S[:, j] for i, j in combinations(range(n), 2)]).reshape(-1, len(S)).T])
    th = np.zeros(O.shape[1])
    for it in range(200):
        w = np.exp(O @ th - (O @ th).max())
        w /= w.sum()
        a = w @ O
        g = x - a
        if np.abs(g).max() < 1e-13:
            break
        H = (O * w[:, None]).T @ O - np.outer(a, a)
        d = np.linalg.solve(H, g)
        th += d * min(1, 1 / np.abs(d).max())
    assert np.abs(g).max() < 1e-11, g
    return -(w * np.log(w)).sum(), th


def real(ctx, r, solvers, mf, c, e, q):
    n, x = c["n"], e["exact"]
    S, w, z = np.array(e["states"]), np.array(x["w"]), x["z"]
    if z > 60000:
        return
    X = np.repeat(S, w, axis=0).astype((np.int64, np.int8, float)[c["id"] % 3])
    X0 = X.copy()
    p = w / z
    H = -(p * np.log(p)).sum()
    true = np.array(c["theta"], float) * LN2
    s = solvers.ClusterExpansion(X, iprint=False)
    # entropies of all clusters
    ent, par = {}, {}
    for size in range(1, n + 1):
        for cl in combinations(range(n), size):
            B = np.array([[2 * (v >> a & 1) - 1 for a in range(size)] for v in range(2 ** size)], float)
            sub = S[:, list(cl)].astype(float)
            av = np.hstack([sub, np.array([sub[:, i] * sub[:, j] for i, j in combinations(range(size), 2)]).reshape(-1, len(sub)).T])
            ent[cl], par[cl] = fit(B, p @ av)
    delta = {}
    for cl in ent:
        delta[cl] = ent[cl] - sum(ent[(i,)] for i in cl) - sum(delta[u] for k in range(1, len(cl)) for u in combinations(cl, k))
    for kw in ({}, {"independentRef": False, "meanFieldRef": True}):
        ctx.replayed += 1
        name = "mean field reference" if kw else "independent reference"
        mult, en, clusters, dS, dJ = s.solve(-1, iprint=False, full_output=True, **kw)
        ctx.same("complete", "multipliers without threshold, " + name, mult, true, tol=1e-5, case=c)
        ctx.same("complete", "entropy without threshold, " + name, en, H, tol=1e-7, case=c)
        ctx.equal("complete", "clusters without threshold", sorted(sum(([tuple(map(int, k)) for k in v] for v in clusters.values()), [])), sorted(ent))
        if not kw:
            for cl, d in dS.items():
                ctx.same("contribution", "contribution of cluster %s" % (cl,), d, delta[tuple(map(int, cl))], tol=1e-6, case=c)
    C = mf.cooccurrence_matrix((X + 1) / 2)
    sym = C + np.triu(C, 1).T
    for cl in ent:
        perm = list(cl)
        r.shuffle(perm)
        for mat in (C, sym):
            got, J = s.S(perm, mat)
            ctx.same("cluster-model", "entropy of cluster %s" % perm, got, ent[cl], tol=1e-7, case=c)
            ctx.same("cluster-model", "couplings of cluster %s" % perm, pm(J, n, cl), par[cl], tol=2e-5, case=c)
            out = np.ones((n, n), bool)
            out[np.ix_(cl, cl)] = False
            ctx.true("cluster-model", "nothing outside the cluster", not np.any(np.asarray(J)[out]))
            if len(cl) < 3:
                g2, J2 = s.S(perm, mat, useAnalyticResults=True)
                ctx.same("cluster-model", "analytic entropy of cluster %s" % perm, g2, ent[cl], tol=1e-10, case=c)
                ctx.same("cluster-model", "analytic couplings of cluster %s" % perm, pm(J2, n, cl), par[cl], tol=1e-9, case=c)
            g0, J0 = s.Sindependent(perm, mat)
            ctx.same("cluster-model", "independent entropy of cluster %s" % perm, g0, sum(ent[(i,)] for i in cl), tol=1e-10, case=c)
            ctx.same("cluster-model", "independent fields of cluster %s" % perm, np.diag(J0)[list(cl)], [-2 * par[(i,)][0] for i in cl], tol=1e-9, case=c)
            d, dj = s.deltaS(perm, mat, iprint=False, independentRef=True)
            ctx.same("contribution", "contribution of cluster %s" % perm, d, delta[cl], tol=1e-6, case=c)
    # thresholds between the contributions: selection and sums
    vals = sorted({abs(d) for k, d in delta.items() if len(k) > 1})
    gaps = [(a + b) / 2 for a, b in zip(vals, vals[1:]) if b - a > 1e-4]
    r.shuffle(gaps)
    for t in gaps[: 4 if q else 12]:
        kept = {(i,) for i in range(n)}
        layer = sorted(kept)
        while layer:
            size = len(layer[0])
            nxt = {tuple(sorted(set(a) | set(b))) for a in layer for b in layer if len(set(a) | set(b)) == size + 1}
            layer = sorted(v for v in nxt if abs(delta[v]) > t)
            kept |= set(layer)
        mult, en, clusters, dS, dJ = s.solve(t, iprint=False, full_output=True)
        ctx.replayed += 1
        ctx.equal("selection", "clusters at threshold %.6f" % t, sorted(sum(([tuple(map(int, k)) for k in v] for v in clusters.values()), [])), sorted(kept), case=c)
        ctx.same("entropy", "entropy at threshold %.6f" % t, en, sum(ent[(i,)] for i in range(n)) + sum(delta[k] for k in kept), tol=1e-6, case=c)
    ctx.same("inputs-changed", "sample handed in", X, X0)


def pm(J, n, cl):
    """{-1,1} multipliers of the members of a cluster from fields and half couplings of exp(-h x - 2 J x x)"""
    J = np.asarray(J)
    k = len(cl)
    h = [-J[i, i] / 2 - sum(J[i, j] for j in cl if j != i) / 2 for i in cl]
    return np.array(h + [-J[i, j] / 2 for i, j in combinations(cl, 2)])
