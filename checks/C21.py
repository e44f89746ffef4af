"""C21: cluster updates (spec/Bond.tla, Wolff.tla, WolffTable.tla, Components.tla)."""
import numpy as np
from scipy.stats import chi2
from stub import StubRNG

LN2 = np.log(2.)
FAR = 1e-10       # chance of a false alarm per test (random draws come from fixed seeds)


def make_cases(r, sizes, span, bspan):
    out = []
    for n, k in sizes:
        for x in range(k):
            m = n * (n - 1) // 2
            a = [r.randint(-span, span) for _ in range(m)]
            b = [r.randint(-bspan, bspan) for _ in range(n)]
            if x == 0:
                a, b = [1] * m, [0] * n
            out.append({"id": len(out), "exact": True, "n": n, "a": a, "b": b, "s": [], "levels": []})
    return out


def make_common(r, q):
    out = []
    for x in range(40 if q else 300):
        n = r.choice((2, 3, 4, 5, 6, 8, 11))
        m = n * (n - 1) // 2
        a = [r.choice((0, 0, 0, 1, -1, 2, -2, 4) if x % 2 else (-3, -1, 0, 1, 2)) for _ in range(m)]
        b = [r.choice((0, 0, 1, -1, 3, -2)) for _ in range(n)]
        out.append({"id": x, "exact": False, "n": n, "a": a, "b": b,
                    "s": [[r.choice((-1, 1)) for _ in range(n)] for _ in range(3)],
                    "levels": [2 * v + 1 for v in r.sample(range(1, 127), 4)] + [3, 253]})
    return out


def make_graphs(r, q):
    out = []

    def add(n, adj):
        m = n * (n - 1) // 2
        out.append({"id": len(out), "n": n, "adj": adj, "s": [r.choice((-1, 1)) for _ in range(n)],
                    "j": [r.choice((-2, -1, 0, 1, 3)) for _ in range(m)],
                    "p": [r.randint(0, 64) for _ in range(m)], "u": [r.randint(0, 63) for _ in range(m)]})
    for n in (2, 3, 4):
        m = n * (n - 1) // 2
        for x in range(2 ** m):
            add(n, [x >> k & 1 for k in range(m)])
    for x in range(60 if q else 600):
        n = r.randint(4, 9)
        d = r.choice((.1, .2, .4, .9))
        add(n, [int(r.random() < d) for _ in range(n * (n - 1) // 2)])
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    # the update as a state machine, every random outcome
    ctx.tlc("Wolff", cases=make_cases(r, ((2, 2), (3, 3)) if q else ((2, 6), (3, 12), (4, 4)), 1, 1),
            invariants=["HoldsSite", "Tree", "WholeOrNothing", "QueueInside"], properties=["Ends"])
    ctx.tlc("WolffTable", cases=make_cases(r, ((2, 3), (3, 5), (4, 1)) if q else ((2, 10), (3, 30), (4, 4)), 2, 2),
            invariants=["OrderFree"], workers=8, timeout=1500)
    cases = make_cases(r, ((2, 2), (3, 4), (4, 2)) if q else ((2, 6), (3, 25), (4, 12)), 2, 2)
    exact = {x["id"]: x for x in ctx.tlc("WolffTable", cases=cases, invariants=["SumsToOne", "Balance", "Aligned"], workers=8, timeout=1500).records}
    com = make_common(r, q)
    ctab = {x["id"]: x for x in ctx.tlc("WolffTable", cases=com).records}
    gr = make_graphs(r, q)
    gtab = {x["id"]: x for x in ctx.tlc("Components", cases=gr, invariants=["Partition", "NoBridge"]).records}
    ctx.load(ext=False)
    from coniii import samplers
    ctx.sample({"case": com[0], "levels": com[0]["levels"], "clusters and results from site 1": ctab[0]["steps"][0][0]})
    for c in com:
        with ctx.impl("update", "one number decides every draw, %d spins" % c["n"]):
            common(ctx, r, samplers, c, ctab[c["id"]])
    for c in cases:
        with ctx.impl("law", "%d spins" % c["n"], limit=400):
            law(ctx, r, samplers, c, exact[c["id"]])
    with ctx.impl("helpers", "components and bonds"):
        helpers(ctx, samplers, gr, gtab)


def wolff(samplers, c, r, form=None):
    J, h = np.array(c["a"]) * LN2 / 2, np.array(c["b"]) * LN2 / 2
    form = form or r.choice(("vector", "matrix", "updated"))
    if form == "updated":
        w = samplers.WolffIsing(np.zeros(J.size), np.zeros(h.size))
        w.update_parameters(J, h)
        return w
    if form == "matrix":
        from scipy.spatial.distance import squareform
        J = squareform(J)
    return samplers.WolffIsing(J, h)


def common(ctx, r, samplers, c, rec):
    w = wolff(samplers, c, r)
    n = c["n"]
    ctx.equal("construction", "system size", w.n, n)
    for x, s in enumerate(c["s"]):
        for l, u in enumerate(c["levels"]):
            want = [rec["steps"][x][i][l] for i in range(n)]
            w.rng = StubRNG(u=u / 256., seed=r.randint(0, 10 ** 6))
            for i in range(n):
                ctx.replayed += 1
                state = np.array(s, float)
                w.one_step(state, initialsite=i)
                ctx.same("update", "state after an update from site %d" % i, state, want[i][1], case=c, start=s, u=u / 256)
            # an initial site chosen at random gives one of these
            state = np.array(s, float)
            w.one_step(state)
            ctx.true("update", "an update from a random site", state.tolist() in [y[1] for y in want], got=state, allowed=want, case=c, start=s)
            # the cluster on its own
            w.one_step(np.array(s, float), initialsite=0)
            keep = np.array(s, float)
            for i in range(n):
                C = w.build_cluster(keep, i)
                ctx.equal("cluster", "cluster of site %d" % i, sorted(int(v) + 1 for v in C), sorted(want[i][0]), case=c, start=s, u=u / 256)
            ctx.same("inputs-changed", "state while a cluster is built", keep, s)
    # several updates in a row
    u = c["levels"][0]
    for x, s in enumerate(c["s"]):
        w.rng = StubRNG(u=u / 256.)
        ini = np.array([s, s], float)
        out, hist = w.generate_sample(2, 2 * n + 1, initialSample=ini, save_history=True)
        ctx.equal("history", "shape of the history", hist.shape, (2, n, 2 * n + 2))
        ctx.same("history", "history starts from the initial sample", hist[:, :, 0], [s, s])
        ctx.same("history", "history ends with the sample", hist[:, :, -1], out)
        ctx.same("history", "first update is from the first site", hist[0, :, 1], rec["steps"][x][0][0][1], case=c, start=s)


def outcomes(c, rec, s, site):
    """Distribution of the state after an update from s."""
    n = c["n"]
    out = {}
    x = int("".join("1" if v > 0 else "0" for v in s), 2)
    for i in (range(n) if site is None else [site]):
        for row in rec["rows"][x][i]:
            p, f = row["p"][0] / row["p"][1], row["f"][0] / row["f"][1]
            t = tuple(-v if k + 1 in row["c"] else v for k, v in enumerate(s))
            k = n if site is None else 1
            out[t] = out.get(t, 0) + p * f / k
            out[tuple(s)] = out.get(tuple(s), 0) + p * (1 - f) / k
    return {t: p for t, p in out.items() if p > 0}


def judge(ctx, key, what, got, dist, **detail):
    """Frequencies of outcomes against their probabilities."""
    ctx.count("comparisons")
    m = len(got)
    cnt = {}
    for s in got:
        s = tuple(int(v) for v in s)
        cnt[s] = cnt.get(s, 0) + 1
    bad = [s for s in cnt if s not in dist]
    if bad:
        ctx.fail(key, what + ": an outcome the specification excludes", got=bad[:3], counts=[cnt[b] for b in bad[:3]], **detail)
        return
    big = [t for t in dist if dist[t] * m >= 8]
    rest = m - sum(dist[t] * m for t in big)
    x2 = sum((cnt.get(t, 0) - dist[t] * m) ** 2 / (dist[t] * m) for t in big)
    k = len(big) - 1
    if rest >= 8:
        x2 += (m - sum(cnt.get(t, 0) for t in big) - rest) ** 2 / rest
        k += 1
    if k > 0 and chi2.sf(x2, k) < FAR:
        ctx.fail(key, what + ": frequencies do not follow the specified probabilities", chi2=x2, dof=k, draws=m,
                 frequencies=[[t, cnt.get(t, 0) / m, dist[t]] for t in dist], **detail)


def law(ctx, r, samplers, c, rec):
    q, n = ctx.quick, c["n"]
    m = 3000 if q else 10000
    states = [tuple(s) for s in np.array(np.meshgrid(*[[-1, 1]] * n, indexing="ij")).reshape(n, -1).T.tolist()]
    w = wolff(samplers, c, r)
    for s in r.sample(states, 2 if q else min(4, len(states))):
        for site in (None, r.randrange(n)):
            ctx.replayed += 1
            w.rng = np.random.RandomState(r.randint(0, 2 ** 31 - 1))
            got = []
            for _ in range(m):
                state = np.array(s, float)
                w.one_step(state, initialsite=site)
                got.append(state)
            judge(ctx, "law", "one update from %s" % (s,), got, outcomes(c, rec, s, site), case=c, site=site)
        w.rng = np.random.RandomState(r.randint(0, 2 ** 31 - 1))
        got = w.generate_sample(m, 1, initialSample=np.array([s] * m, float))
        judge(ctx, "law", "one update of a sample from %s" % (s,), got, outcomes(c, rec, s, None), case=c)
    # the stationary distribution
    lg = [sum(b * v for b, v in zip(c["b"], s)) for s in states]
    pr = [(i, j) for i in range(n) for j in range(i + 1, n)]
    e = np.array([x + sum(a * s[i] * s[j] for a, (i, j) in zip(c["a"], pr)) for x, s in zip(lg, states)]) * LN2 / 2
    p = np.exp(e - e.max())
    p /= p.sum()
    P = np.array([[outcomes(c, rec, s, None).get(t, 0) for t in states] for s in states])
    w.rng = np.random.RandomState(r.randint(0, 2 ** 31 - 1))
    k = 12
    start = np.array([states[r.randrange(len(states))] for _ in range(m // 2)], float)
    got = w.generate_sample(len(start), k, initialSample=start.copy())
    # start -> after k updates, exactly
    d0 = np.zeros(len(states))
    for s in start:
        d0[states.index(tuple(int(v) for v in s))] += 1. / len(start)
    dk = d0 @ np.linalg.matrix_power(P, k)
    judge(ctx, "chain", "%d updates" % k, got, {t: v for t, v in zip(states, dk) if v > 1e-14}, case=c)
    ctx.true("chain", "specification: Boltzmann distribution is stationary", np.abs(p @ P - p).max() < 1e-12)
    # fresh random starting states
    w.rng = np.random.RandomState(r.randint(0, 2 ** 31 - 1))
    got = w.generate_sample(m // 2, 0)
    ctx.equal("fresh", "shape of the sample", got.shape, (m // 2, n))
    judge(ctx, "fresh", "random starting states", got, {t: 1. / len(states) for t in states}, case=c)
    if n > 2:
        M = np.eye(len(states))
        for i in range(n + 1):
            M = M @ np.array([[outcomes(c, rec, s, i % n).get(t, 0) for t in states] for s in states])
        s = r.choice(states)
        mp = 400 if q else 2000
        w.rng = np.random.RandomState(r.randint(0, 2 ** 31 - 1))
        got = w.generate_sample_parallel(mp, n + 1, initialSample=np.array([s] * mp, float))
        ctx.equal("parallel", "shape of the sample", got.shape, (mp, n))
        judge(ctx, "parallel", "updates from every site in turn", got, {t: v for t, v in zip(states, M[states.index(s)]) if v > 1e-14}, case=c, start=s)


def helpers(ctx, samplers, gr, tab):
    from scipy.spatial.distance import squareform
    for g in gr:
        ctx.replayed += 1
        rec, n = tab[g["id"]], g["n"]
        adj = squareform(np.array(g["adj"], float)) if n > 1 else np.zeros((1, 1))
        keep = adj.copy()
        cl = samplers.iter_cluster(adj)
        got = sorted(sorted(int(v) + 1 for v in C) for C in cl)
        ctx.equal("components", "clusters of a graph", got, sorted(sorted(C) for C in rec["parts"]), case=g)
        ctx.same("inputs-changed", "adjacency matrix", adj, keep)
        L = np.diag(adj.sum(0)) - adj
        for exact in (True, False):
            cl = samplers.spec_cluster(L.copy(), exact)
            ctx.equal("components", "clusters of a graph from its Laplacian (exact: %s)" % exact, sorted(sorted(int(v) + 1 for v in C) for C in cl), sorted(sorted(C) for C in rec["parts"]), case=g)
        s = np.array(g["s"])
        ctx.same("bonds", "products of pairs", samplers.pairwise_prod(s), rec["prod"], case=g)
        ctx.same("bonds", "bonds drawn", samplers.sample_bonds(np.array(g["p"]) / 64., np.array(g["u"]) / 64., s, np.array(g["j"], float)), rec["bonds"], case=g)
