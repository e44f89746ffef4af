"""C19: matrix form of Ising models, homogeneous systems and mean field expressions
(spec/Matrix.tla, spec/Homog.tla, spec/MeanField.tla)."""
import numpy as np

LN2 = np.log(2.)


def make_matrices(r, q):
    out = []
    for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
        for rep in range(10 if q else 40):
            while True:
                lim = 2 if n < 4 else 1
                J = [[r.randint(-lim, lim) for _ in range(n)] for _ in range(n)]
                kind = r.choice(("sym", "sym", "upper", "any"))
                for i in range(n):
                    for j in range(i):
                        J[i][j] = J[j][i] if kind == "sym" else 0 if kind == "upper" else J[i][j]
                hext = r.choice((0, 0, 1, -1))
                X = np.array([[v >> b & 1 for b in range(n)] for v in range(2 ** n)])
                D = np.array(J)
                e = X @ (np.diag(D) - hext) + np.einsum("vi,ij,vj->v", X, D - np.diag(np.diag(D)), X)
                if np.ptp(e) <= 22:
                    break
            out.append({"id": len(out), "J": J, "hext": hext, "minsize": r.choice((0, 0, 0, 1, 2)) if n > 1 else r.choice((0, 1))})
            if out[-1]["minsize"] > n:
                out[-1]["minsize"] = 0
    return out


def make_homog(q):
    out = []
    for n in (1, 2, 3, 4, 5) if q else range(1, 8):
        for h in (0, 1, -1, 2, -3):
            for J in (1, 2):
                m = np.arange(-n, n + 1, 2)
                if np.ptp(h * m + J * m * m) <= 22:
                    out.append({"id": len(out), "n": n, "h": h, "J": J})
    return out


def samples(r, n, m):
    """samples of n spins in which no frequency is 0 or 1 and the covariances are regular"""
    while True:
        b = [r.random() * .7 + .15 for _ in range(n)]
        kind = r.choice(("free", "free", "chain"))
        X = []
        for _ in range(m):
            x = [int(r.random() < b[0])]
            for i in range(1, n):
                x.append(x[-1] if kind == "chain" and r.random() < .5 else int(r.random() < b[i]))
            X.append(x)
        A = np.array(X)
        f = A.mean(0)
        if ((f > 0) & (f < 1)).all():
            C = A.T @ A / m - np.outer(f, f)
            M = C / np.sqrt(np.outer(f * (1 - f), f * (1 - f)))
            if np.linalg.eigvalsh(M).min() > .02:
                return X


def make_mean(r, q):
    out = []
    for n in (1, 2, 3, 4):
        m = 12 if n < 4 else 10
        for rep in range(12 if q else 60):
            X = samples(r, n, m)
            if rep == 0:      # all states alike: independent, degenerate
                X = [[v >> b & 1 for b in range(n)] for v in range(2 ** n)]
            if rep == 1 and n == 3:     # three spins correlated alike: degenerate
                X = [[1, 1, 1]] * 3 + [[0, 0, 0]] * 3 + [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 1], [1, 0, 1], [1, 1, 0]]
            A = np.array(X)
            out.append({"id": len(out), "m": len(X), "count": (A.T @ A).tolist(), "x": X})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    mats, hom, mean = make_matrices(r, q), make_homog(q), make_mean(r, q)
    em = {x["id"]: x for x in ctx.tlc("Matrix", cases=mats, invariants=["SameAsIsing", "Bounded"]).records}
    eh = {x["id"]: x for x in ctx.tlc("Homog", cases=hom, invariants=["Counted", "Odd"]).records}
    ef = {x["id"]: x for x in ctx.tlc("MeanField", cases=mean, invariants=["Inverse", "Cauchy", "Uncoupled"]).records}
    ctx.load(ext=False)
    from coniii import mean_field_ising as mf
    ctx.sample({"matrix": mats[15], "expected": {k: em[15][k] for k in ("z", "cooc")}})
    ctx.sample({"mean field": mean[30]["count"], "expected": ef[mean[30]["id"]]})
    for c in mats:
        with ctx.impl("exact", "%d spins" % len(c["J"])):
            exact(ctx, r, mf, c, em[c["id"]])
    for c in hom:
        with ctx.impl("homogeneous", "N=%d h=%d J=%d" % (c["n"], c["h"], c["J"])):
            homogeneous(ctx, r, mf, c, eh[c["id"]])
    for c in mean:
        with ctx.impl("mean-field", "%d spins" % len(c["count"])):
            meanfield(ctx, r, mf, c, ef[c["id"]])
    with ctx.impl("scalar"):
        scalar(ctx, r, mf, 60 if q else 600)


def exact(ctx, r, mf, c, e):
    ctx.replayed += 1
    n = len(c["J"])
    J = np.array(c["J"]) * LN2
    keep = J.copy()
    hext, ms = c["hext"] * LN2, c["minsize"]
    ctx.same("exact", "states", np.array(mf.fightPossibilities(n, ms)).reshape(-1, n), e["states"], case=c)
    w, cooc = np.array(e["w"], float), np.array(e["cooc"], float) / e["z"]
    logw = np.array(e["logw"]) * LN2
    ctx.same("exact", "log weights", mf.unsummedLogZ(J, hext, ms), logw, tol=1e-12, case=c)
    ctx.same("exact", "weights", mf.unsummedZ(J, hext, ms) / np.exp(logw.min()), w, tol=1e-10, case=c)
    ctx.same("exact", "co-occurrences", mf.coocExpectations(J, hext, False, ms), cooc, tol=1e-12, case=c)
    ctx.same("exact", "co-occurrences above the diagonal", mf.coocExpectations(J, hext=hext, minSize=ms), np.triu(cooc), tol=1e-12, case=c)
    if hext == 0:
        ctx.same("exact", "co-occurrences without external field", mf.coocExpectations(J, minSize=ms, zeroBelowDiag=False), cooc, tol=1e-12, case=c)
        if ms == 0:
            p = w / e["z"]
            ctx.same("exact", "entropy", mf.analyticEntropy(J), -(p * np.log(p)).sum(), tol=1e-10, case=c)
    # parameters beyond the range of exp: the exact weights are those of the integers times the base
    for big in (80, 3000):
        K, lw = J * big, logw * big
        p = np.exp(lw - lw.max())
        p /= p.sum()
        S = np.array(e["states"], float).reshape(-1, n)
        ctx.same("exact", "log weights, large parameters", mf.unsummedLogZ(K, hext * big, ms), lw, tol=1e-12, case=c, times=big)
        ctx.same("exact", "co-occurrences, large parameters", mf.coocExpectations(K, hext * big, False, ms), (S * p[:, None]).T @ S, tol=1e-10, case=c, times=big)
        if hext == 0 and ms == 0:
            ctx.same("exact", "entropy, large parameters", mf.analyticEntropy(K), -(p[p > 0] * np.log(p[p > 0])).sum(), tol=1e-10, case=c, times=big)
    if hext == 0 and (J == J.T).all() and abs(np.array(c["J"])).max() <= 2:
        # the matrix is found again from its exact averages
        spread = 1 - 1e-9 > cooc.diagonal().max() and np.linalg.matrix_rank(cov_of(e, ms)) == n * (n + 1) // 2
        if spread:
            for data in (np.triu(cooc), cooc):
                got = mf.findJmatrixAnalytic_CoocMat(data, minSize=ms)
                ctx.same("inverse", "matrix from its exact averages", got, J, tol=1e-4, case=c)
            got = mf.findJmatrixAnalytic_CoocMat(np.triu(cooc), Jinit=np.zeros((n, n)), minSize=ms)
            ctx.same("inverse", "matrix from its exact averages, from zero", got, J, tol=1e-4, case=c)
            if n > 1:
                penalised(ctx, r, mf, c, cooc, ms)
            # averages that become these ones by the correction for small samples
            M = 50
            raw = (cooc * (M + 2) - 1) / M
            if ((raw.diagonal() > 0) & (raw.diagonal() < 1)).all():
                got = mf.findJmatrixAnalytic_CoocMat(np.triu(raw), bayesianMean=True, numSamples=M, minSize=ms)
                ctx.same("inverse", "matrix from corrected averages", got, J, tol=1e-4, case=c)
    ctx.same("inputs-changed", "matrix", J, keep)


def penalised(ctx, r, mf, c, cooc, ms):
    """With a prior, what is returned minimises the squared differences of the averages plus the squared
    penalties strength * v_i v_j * (2 J_ij)^2, v being the variances of the data."""
    n = len(cooc)
    f = np.diag(cooc)
    v = np.outer(f * (1 - f), f * (1 - f))
    up = np.triu_indices(n)
    strict = np.triu_indices(n, 1)

    def objective(K, lam):
        d = (mf.coocExpectations(K, 0, False, ms) - cooc)[up]
        return (d ** 2).sum() + ((lam * v * (2 * K) ** 2)[strict] ** 2).sum()
    for lam, num in ((1., 20), (8., 4)):
        got = mf.findJmatrixAnalytic_CoocMat(np.triu(cooc), priorLmbda=lam, numSamples=num, minSize=ms)
        ctx.replayed += 1
        ctx.same("inverse", "with a prior: symmetric", got, got.T, tol=1e-12)
        best = objective(got, lam / num)
        for i in range(n):
            for j in range(i, n):
                for d in (-.02, .02):
                    K = got.copy()
                    K[i, j] += d
                    K[j, i] = K[i, j]
                    ctx.true("inverse", "with a prior of strength %s: a change of entry %d,%d by %s fits better" % (lam / num, i, j, d),
                             objective(K, lam / num) >= best - 1e-9, case=c, got=got)


def cov_of(e, ms):
    S, w = np.array(e["states"], float), np.array(e["w"], float) / e["z"]
    n = S.shape[1]
    O = np.array([S[:, i] * S[:, j] for i in range(n) for j in range(i, n)]).T
    O = O - w @ O
    return (O * w[:, None]).T @ O


def homogeneous(ctx, r, mf, c, e):
    ctx.replayed += 1
    h, J, N = c["h"] * LN2, c["J"] * LN2, c["n"]
    p = np.array(e["w"], float) / e["z"]
    cnt = np.array(e["count"])
    S = -(cnt * p * np.log(p)).sum()
    x = e["m1"] / e["z"] / N
    ctx.same("homogeneous", "average spin", mf.avgxHomogeneous(h, J, N), x, tol=1e-6, case=c)
    ctx.same("homogeneous", "average of the auxiliary field", mf.avgmHomogeneous(h, J, N), x, tol=1e-6, case=c)
    ctx.same("homogeneous", "entropy", mf.SHomogeneous(h, J, N), S, tol=1e-5, case=c)
    a, b = (1 + x) / 2, (1 - x) / 2
    ind = -N * (a * np.log(a) + b * np.log(b))
    ctx.same("homogeneous", "entropy of independent spins", mf.independentEntropyHomogeneous(h, J, N), ind, tol=1e-5, case=c)
    ctx.same("homogeneous", "entropy of independent spins, second form", mf.independentEntropyHomogeneous2(h, J, N), ind, tol=1e-5, case=c)
    ctx.same("homogeneous", "multi-information", mf.multiInfoHomogeneous(h, J, N), ind - S, tol=2e-5, case=c)
    # the integral over the auxiliary field is the partition function
    from scipy.integrate import quad
    f = lambda m: np.exp(-mf.FHomogeneous(h, J, N, m) - e["low"] * LN2)
    ctx.same("homogeneous", "partition function", quad(f, -8, 8, limit=400, points=(-1, -.5, 0, .5, 1))[0] / e["z"], 1., tol=1e-5, case=c)
    # derivative by the temperature
    for m in (0., .3, -.8):
        d = 1e-4
        F = lambda T: mf.FHomogeneous(h / T, J / T, N, m)
        ctx.same("homogeneous", "derivative by the temperature at m=%s" % m, mf.dFdT(h, J, N, m), (F(1 + d) - F(1 - d)) / (2 * d), tol=1e-5, case=c)


def hat(M, g):
    """the positive matrix X with X - g X^-1 = M - g"""
    lam, U = np.linalg.eigh(M)
    x = np.array([max(np.roots([1., -(v - g), -g]).real) if g else v for v in lam])
    return U, x


def formula(c, e, g=0., indTerm=True):
    n, m = len(c["count"]), c["m"]
    f = np.array([c["count"][i][i] for i in range(n)]) / m
    C = np.array(e["cov"], float) / m ** 2
    v = np.array(e["v"], float) / m ** 2
    if g == 0:
        K = np.array(e["adj"], float) * m ** 2 / e["det"]
        logdet = np.log(e["det"] / np.prod(np.array(e["v"], float)))
        ent = .5 * logdet
    else:
        s = np.sqrt(np.outer(v, v))
        U, x = hat(C / s, g)
        K = (U / x) @ U.T / s
        ent = .5 * (np.log(x) + 1 - x).sum()
    K = K - np.diag(np.diag(K))
    h = np.array([sum(K[i, j] * (C[i, j] * (f[i] - .5) / v[i] - f[j]) for j in range(n)) for i in range(n)])
    if indTerm:
        h = h - np.log(f / (1 - f))
        ent = ent - (f * np.log(f) + (1 - f) * np.log(1 - f)).sum()
    return ent, K / 2 + np.diag(h), f


def entropy_of(J):
    n = len(J)
    X = np.array([[v >> b & 1 for b in range(n)] for v in range(2 ** n)], float)
    E = X @ np.diag(J) + np.einsum("vi,ij,vj->v", X, J - np.diag(np.diag(J)), X)
    w = np.exp(-(E - E.min()))
    p = w / w.sum()
    return -(p * np.log(p)).sum()


def meanfield(ctx, r, mf, c, e):
    ctx.replayed += 1
    n, m = len(c["count"]), c["m"]
    up = np.triu(np.array(c["count"], float)) / m
    sym = np.array(c["count"], float) / m
    for dtype in (np.int64, np.int8, np.uint8, float):
        X = np.array(c["x"], dtype)
        ctx.same("mean-field", "co-occurrences of the samples", mf.cooccurrence_matrix(X), up, tol=1e-13)
        ctx.same("mean-field", "co-occurrences of many samples", mf.cooccurrence_matrix(np.tile(X, (1 + 600 // len(X), 1))), up, tol=1e-13)
    X = np.array(c["x"])
    for ind in (True, False):
        ent, J, f = formula(c, e, indTerm=ind)
        for data in (up, sym):
            keep = data.copy()
            for reg in (True, False):
                kw = {"useRegularizedEq": reg, "indTerm": ind}
                what = "%d spins, regular equations %s, independent term %s" % (n, reg, ind)
                S, K = mf.SmeanField(list(range(n)), data, **kw)
                ctx.same("mean-field", "couplings and fields: " + what, K, J, tol=1e-8, case=c)
                ctx.same("mean-field", "entropy: " + what, S, ent, tol=1e-8, case=c)
                S, K = mf.SmeanField(list(range(n)), data, alternateEnt=True, **kw)
                ctx.same("mean-field", "entropy of the solution: " + what, S, entropy_of(J), tol=1e-8, case=c)
                ctx.same("mean-field", "couplings and fields alone: " + what, mf.JmeanField(data, **kw), J, tol=1e-8, case=c)
            for lam, num in ((.5, 4), (3., 100), (40., 10)):
                ent_g, J_g, _ = formula(c, e, lam / num, ind)
                for reg in (True, False):     # a strength asks for the regular equations by itself
                    S, K = mf.SmeanField(list(range(n)), data, lam, num, indTerm=ind, useRegularizedEq=reg)
                    ctx.same("mean-field", "regularised couplings and fields, strength %s, regular equations %s" % (lam / num, reg), K, J_g, tol=1e-8, case=c)
                    ctx.same("mean-field", "regularised entropy, strength %s, regular equations %s" % (lam / num, reg), S, ent_g, tol=1e-8, case=c)
                S, K = mf.SmeanField(list(range(n)), data, lam, num, indTerm=ind)
                ctx.same("mean-field", "regularised couplings and fields, strength %s" % (lam / num), K, J_g, tol=1e-8, case=c)
                ctx.same("mean-field", "regularised entropy, strength %s" % (lam / num), S, ent_g, tol=1e-8, case=c)
                ctx.same("mean-field", "regularised couplings and fields alone", mf.JmeanField(data, meanFieldPriorLmbda=lam, numSamples=num, indTerm=ind), J_g, tol=1e-8, case=c)
            ctx.same("inputs-changed", "co-occurrences", data, keep)
    # as a part of a larger system, in any order
    ent, J, f = formula(c, e)
    N = n + r.choice((1, 2))
    spins = r.sample(range(N), n)
    big = np.full((N, N), .25)
    big[np.diag_indices(N)] = .5
    for i in range(n):
        for j in range(n):
            big[spins[i], spins[j]] = sym[i, j]
    full = np.zeros((N, N))
    full[np.ix_(spins, spins)] = J
    for data in (big, np.triu(big)):
        S, K = mf.SmeanField(list(spins), data)
        ctx.same("cluster", "couplings and fields of cluster %s" % spins, K, full, tol=1e-8, case=c)
        ctx.same("cluster", "entropy of cluster %s" % spins, S, ent, tol=1e-8, case=c)
    # exact for independent spins
    if not np.any(np.array(e["cov"]) - np.diag(np.diag(e["cov"]))):
        ctx.same("mean-field", "independent spins: exact averages", mf.coocExpectations(J, zeroBelowDiag=False), sym, tol=1e-10, case=c)
    v = f * (1 - f)
    A = -2 * (J - np.diag(np.diag(J))) * v[:, None]      # derivative of the self-consistent equations
    ctx.same("stability", "largest eigenvalue of the mean field map", mf.meanFieldStability(J, f), max(abs(np.linalg.eigvals(A))), tol=1e-7, case=c)


def scalar(ctx, r, mf, count):
    for x in range(count):
        a = r.uniform(-700, 700) if x % 2 else r.uniform(-3, 3)
        want = np.log(np.cosh(a))
        ctx.same("scalar", "log cosh", mf.logCosh(a), want, tol=1e-12)
    for x in (0., 1e3, -1e4, 1e300):
        ctx.same("scalar", "log cosh of a large number", mf.logCosh(x), abs(x) - LN2 if x else 0., tol=1e-14)
    for x in range(count):
        # self-consistent frequency 1 / (1 + 2^k)
        k, T, ell, J = r.randint(-4, 4), r.choice((.5, 1., 2.5)), r.choice((2, 3, 10)), r.choice((0., .2, 1.5))
        f = 1 / (1 + 2. ** k)
        h = k * LN2 * T - 2 * (ell - 1) * f * J
        ctx.same("scalar", "mean field frequency", mf.m(h, J, ell, T), f, tol=1e-9, h=h, J=J, ell=ell, T=T)
    ctx.replayed += 2
