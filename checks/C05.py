"""C05: statistics of samples (spec/Stats.tla)."""
from itertools import combinations
import numpy as np


def cases(ctx):
    r = ctx.rnd
    out = []

    def add(x, kmax=None):
        n = len(x[0])
        out.append({"id": len(out), "n": n, "x": x, "kmax": min(n, kmax or 4),
                    "w": [r.randint(0, 9) for _ in x], "p1": [r.randint(1, 9) for _ in range(n)],
                    "p2": [r.randint(1, 9) for _ in range(n * (n - 1) // 2)]})
    # every sample of two states of two spins, in each alphabet
    for vals in ((0, 1), (-1, 1)):
        st = [[a, b] for a in vals for b in vals]
        for a in st:
            for b in st:
                add([a, b])
    for vals in ((0, 1), (-1, 1), (-1, 0, 1)):
        for n in range(1, 8):
            for m in (1, 2, 5, 12):
                for rep in range(1 if ctx.quick else 6):
                    add([[r.choice(vals) for _ in range(n)] for _ in range(m)])
        # few distinct states, many repetitions; long samples overflow small integers
        for n, m in ((2, 300), (3, 260), (4, 40), (5, 30)):
            pool = [[r.choice(vals) for _ in range(n)] for _ in range(4)]
            add([list(r.choice(pool)) for _ in range(m)], 3)
        add([[r.choice(vals) for _ in range(200)] for _ in range(3)], 1)
    add([[1] * 140, [1] * 140, [-1] * 140], 1)
    return out


def run(ctx):
    cs = cases(ctx)
    res = ctx.tlc("Stats", cases=cs, invariants=["CountsOK", "OrdersAgree"], workers=6)
    exp = {r["id"]: r for r in res.records}
    ctx.equal("harness", "cases", len(exp), len(cs))
    ctx.load(ext=False)
    from coniii import utils as u, mean_field_ising as mf, samplers
    T = 1e-12
    for c in cs:
        e = exp[c["id"]]
        a, n, M = e["acc"], c["n"], len(c["x"])
        ctx.replayed += 1
        w = np.array(c["w"], float) / 16
        p1, p2 = np.array(c["p1"]) / 8., np.array(c["p2"]) / 8.
        s1, s2, w1, w2, n1, n2 = (np.array(a[k], float) for k in ("s1", "s2", "w1", "w2", "n1", "n2"))
        w1, w2 = w1 / 16, w2 / 16
        P = list(combinations(range(n), 2))
        cols = tuple(map(list, zip(*P))) if P else ([], [])
        for dt in (np.int64, np.int8, float) if M < 100 else (np.int8, np.int16):
            X = np.array(c["x"], dtype=dt)
            if c["id"] % 3 == 0:
                X = np.asfortranarray(X)
            X0 = X.copy()
            what = "sample %d (%d x %d, %s)" % (c["id"], M, n, np.dtype(dt).name)

            def corr(key, label, m1, m2, **kw):
                with ctx.impl(key, label):
                    g1, g2 = u.pair_corr(X, **kw)
                    ctx.same(key, label + " means", g1, m1, tol=T)
                    ctx.same(key, label + " pairs", g2, m2, tol=T)
                    ctx.same(key, label + " concatenated", u.pair_corr(X, concat=True, **kw), np.concatenate((m1, m2)), tol=T)
                    g1, g2 = u.pair_corr(X, subtract_mean=True, **kw)
                    ctx.same(key, label + " means (means subtracted)", g1, m1, tol=T)
                    ctx.same(key, label + " pairs (means subtracted)", g2, np.array(m2) - m1[cols[0]] * m1[cols[1]], tol=T)
                    ctx.same(key, label + " concatenated (means subtracted)", u.pair_corr(X, concat=True, subtract_mean=True, **kw),
                             np.concatenate((m1, np.array(m2) - m1[cols[0]] * m1[cols[1]])), tol=T)
            if n < 50:
                corr("pair_corr", what, s1 / M, s2 / M)
                corr("pair_corr-weights", what + " weighted", w1, w2, weights=w.copy())
                corr("pair_corr-scalar", what + " scalar weight", s1 * .375, s2 * .375, weights=.375)
                corr("pair_corr-norm", what + " normalised per entry", s1 * p1, s2 * p2, weights=(p1.copy(), p2.copy()))
                if (n1 > 0).all() and (n2 > 0).all():
                    corr("pair_corr-empty", what + " without empties", s1 / n1, s2 / n2, exclude_empty=True)
                corr("pair_corr-laplace", what + " Laplace counts", s1 / (n1 + 2), s2 / (n2 + 4), exclude_empty=True, laplace_count=True)
                for k in range(1, c["kmax"] + 1):
                    kk, kn, kw = (np.array(a[q][k - 1], float) for q in ("k", "kn", "kw"))
                    with ctx.impl("k_corr", what + " order %d" % k):
                        ctx.same("k_corr", what + " order %d" % k, u.k_corr(X, k), kk / M, tol=T)
                        ctx.same("k_corr", what + " order %d weighted" % k, u.k_corr(X, k, weights=w.copy()), kw / 16, tol=T)
                        if (kn > 0).all():
                            ctx.same("k_corr", what + " order %d without empties" % k, u.k_corr(X, k, exclude_empty=True), kk / kn, tol=T)
            with ctx.impl("calc_overlap", what):
                if M < 100:
                    ov, ne = np.array(e["ov"], float), np.array(e["ne"], float)
                    ctx.same("calc_overlap", what, u.calc_overlap(X), ov / n, tol=T)
                    den = np.minimum(ne[:, None], ne[None, :])
                    if (den > 0).all():
                        ctx.same("calc_overlap", what + " without zeros", u.calc_overlap(X, ignore_zeros=True), ov / den, tol=T)
            probs(ctx, u, samplers, c, a, X, what, w)
            if n < 50 and (set(np.unique(X)) <= {0, 1} or n < 4):
                cooc(ctx, mf, c, e, X, what, M, n)
            ctx.same("input-changed", what, X, X0)


def probs(ctx, u, samplers, c, a, X, what, w):
    n, M = c["n"], len(c["x"])
    U, cnt = [tuple(x) for x in a["u"]], a["cnt"]
    want = dict(zip(U, cnt))
    if n > 60 and X.dtype != np.int8:
        return
    with ctx.impl("unique_rows", what):
        ix = np.asarray(u.unique_rows(X))
        rows = [tuple(int(y) for y in x) for x in X[ix]]
        ctx.equal("unique_rows", what + " distinct rows", sorted(rows), sorted(U))
        inv = np.asarray(u.unique_rows(X, return_inverse=True)).ravel()
        ctx.same("unique_rows", what + " rows rebuilt from the inverse", X[ix][inv], X)
    with ctx.impl("state_probs", what):
        for norm in (True, False):
            f, S = u.state_probs(X, normalized=norm)
            got = {tuple(int(y) for y in s): float(x) for s, x in zip(S, f)}
            ctx.equal("state_probs", what + " number of states", len(S), len(U))
            keys = sorted(want)
            ctx.equal("state_probs", what + " states", sorted(got), keys)
            if sorted(got) == keys:
                ctx.same("state_probs", what + " frequencies", [got[k] for k in keys],
                         [want[k] / (M if norm else 1) for k in keys], tol=1e-13)
        # given list of states, in a different order and with a state that does not occur
        order = list(range(len(U)))
        ctx.rnd.shuffle(order)
        L = [U[q] for q in order]
        C = [cnt[q] for q in order]
        W = [a["wcnt"][q] / 16 for q in order]
        extra = tuple(2 for _ in range(n))
        L.insert(len(L) // 2, extra)
        C.insert(len(C) // 2, 0)
        W.insert(len(W) // 2, 0)
        A = np.array(L, dtype=X.dtype)
        ctx.same("state_probs-given", what + " frequencies of given states", u.state_probs(X, allstates=A), np.array(C) / M, tol=1e-13)
        ctx.same("state_probs-given", what + " counts of given states", u.state_probs(X, allstates=A, normalized=False), C)
        ctx.same("state_probs-given", what + " weighted counts", u.state_probs(X, allstates=A, weights=w.copy(), normalized=False), W, tol=1e-13)
        if sum(W) > 0:
            ctx.same("state_probs-given", what + " weighted frequencies", u.state_probs(X, allstates=A, weights=w.copy()), np.array(W) / sum(W), tol=1e-12)
        # a list that leaves out states of the sample: counts as before, frequencies of those listed sum to one
        part = order[:max(1, len(order) // 2)]
        A = np.array([U[q] for q in part], dtype=X.dtype)
        C = np.array([cnt[q] for q in part])
        W = np.array([a["wcnt"][q] / 16 for q in part])
        ctx.same("state_probs-part", what + " counts of some states", u.state_probs(X, allstates=A, normalized=False), C)
        ctx.same("state_probs-part", what + " frequencies of some states", u.state_probs(X, allstates=A), C / C.sum(), tol=1e-13)
        ctx.same("state_probs-part", what + " weighted counts of some states", u.state_probs(X, allstates=A, weights=w.copy(), normalized=False), W, tol=1e-13)
        if W.sum() > 0:
            ctx.same("state_probs-part", what + " weighted frequencies of some states", u.state_probs(X, allstates=A, weights=w.copy()), W / W.sum(), tol=1e-12)
        if n == 1:
            f, S = u.state_probs(X[:, 0].copy())
            ctx.equal("state_probs", what + " one-dimensional data",
                      {int(np.ravel(s)[0]): round(float(x) * M, 6) for s, x in zip(S, f)}, {k[0]: float(v) for k, v in want.items()})
    with ctx.impl("check_e_logp", what):
        if c["id"] % 4 == 0:
            S, E, lp = samplers.check_e_logp(X, lambda s: s.astype(float) @ np.arange(1, n + 1.))
            keys = [tuple(int(y) for y in s) for s in S]
            ctx.equal("check_e_logp", what + " states", sorted(keys), sorted(want))
            ctx.same("check_e_logp", what + " energies", E, np.array(keys, float) @ np.arange(1, n + 1.))
            ctx.same("check_e_logp", what + " log frequencies", np.exp(lp), [want.get(k, 0) / M for k in keys], tol=1e-12)


def cooc(ctx, mf, c, e, X, what, M, n):
    C = np.array(e["cooc"], float)
    with ctx.impl("cooccurrence_matrix", what):
        ctx.same("cooccurrence_matrix", what, mf.cooccurrence_matrix(X), C / M, tol=1e-13)
        ctx.same("cooccurrence_matrix", what + " no diagonal", mf.cooccurrence_matrix(X, keep_diag=False), (C - np.diag(C.diagonal())) / M, tol=1e-13)
        if n > 1:
            up = np.concatenate([np.diagonal(C, d) for d in range(n)]) / M
            want = np.arange(n * n).reshape(n, n) / 7.
            wf = np.concatenate([np.diagonal(want, d) for d in range(n)])
            ctx.same("isingDeltaCooc", what, mf.isingDeltaCooc(X, want), up - wf, tol=1e-12)
    if n > 5 or n < 2 or M > 60 or X.dtype == np.int8:
        return
    F = np.array(e["fourth"], float) / M
    with ctx.impl("fourthOrderCoocMat", what):
        ctx.same("fourthOrderCoocMat", what, mf.fourthOrderCoocMat(X), F, tol=1e-13)
        B = F.copy()
        B[np.diag_indices(len(B))] = (F.diagonal() * M + 1) / (M + 2)
        one = np.zeros((len(F) + n * (n - 1) // 2,) * 2)

        def block(m):
            o = one.copy()
            o[:len(F), :len(F)] = m
            for i in range(len(F), len(o)):
                o[i, i] = 1
            return o
        ctx.same("coocSampleCovariance", what, mf.coocSampleCovariance(X), block(B * (1 - B)), tol=1e-12)
        ctx.same("coocSampleCovariance", what + " plain", mf.coocSampleCovariance(X, bayesianMean=False), block(F * (1 - F)), tol=1e-12)
        ctx.same("coocSampleCovariance", what + " no prior", mf.coocSampleCovariance(X, includePrior=False), B * (1 - B), tol=1e-12)
        C = np.array(e["cooc"], float) / M
        m = (C * M + 1) / (M + 2)
        ctx.same("coocMatBayesianMean", what, mf.coocMatBayesianMean(C, M), m, tol=1e-12)
        v = np.concatenate([np.diagonal(m, d) for d in range(n)])
        ctx.same("coocStdevsFlat", what, mf.coocStdevsFlat(C, M), np.sqrt(np.maximum(v * (1 - v), 0) / M), tol=1e-12)
