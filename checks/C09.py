"""C09: conditional sampling (spec/CondTable.tla, spec/MetroTrace.tla)."""
import numpy as np
from C07 import vec, ints, npar, code_of
from C08 import cpus
from stub import StubRNG, level_u

LN2 = np.log(2.)


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    cs = []

    def add(n, fixed, budget):
        cs.append({"id": len(cs), "n": n, "fixed": [[i + 1, r.choice((-1, 1))] for i in fixed],
                   "theta": vec(r, npar("ising", n), budget)})
    for n in (2, 3, 4):
        for m in range(1, 2 ** n - 1):
            add(n, [i for i in range(n) if m >> i & 1], 3 * n)
    for _ in range(10 if q else 120):
        n = r.choice((5, 6, 8))
        add(n, sorted(r.sample(range(n), r.randint(max(1, n - 5), n - 1))), 4 * n)
    tab = ctx.tlc("CondTable", cases=cs, invariants=["ShiftedField", "StaysFixed"])
    exp = {x["id"]: x for x in tab.records}
    ctx.equal("harness", "cases", len(exp), len(cs))
    coniii = ctx.load()
    from coniii import samplers, utils
    F = None
    with ctx.impl("helpers"):
        F = utils.define_ising_helper_functions()[0]
    traces, groups = [], []
    ctx.sample({"case": cs[4], "free sites": exp[4]["free"]})
    for c in cs:
        with ctx.impl("python", "n=%d" % c["n"]):
            python(ctx, c, exp[c["id"]], samplers, F, traces, groups)
        with ctx.impl("python", "n=%d, from a given state" % c["n"]):
            started(ctx, c, exp[c["id"]], samplers, F)
        with ctx.impl("c++", "n=%d" % c["n"]):
            cpp(ctx, c, exp[c["id"]], samplers, traces, groups)
    with ctx.impl("energies"):
        for c in (cs if not q else r.sample(cs, 12) + [c for c in cs if c["n"] == len(c["fixed"]) + 1][:10]):
            energies(ctx, c, exp[c["id"]], samplers, F)
    with ctx.impl("c++ acceptance"):
        for c in (cs if not q else r.sample(cs[:22], 8) + cs[22:28]):
            acceptance(ctx, c, exp[c["id"]], samplers)
    with ctx.impl("parallel"):
        for c in r.sample(cs, 6 if q else 40):
            parallel(ctx, c, exp[c["id"]], samplers)
    res = ctx.tlc("MetroTrace", cases=traces, invariants=["TypeOK"])
    got = {x["id"]: x["verdict"] for x in res.records}
    for ids, label, c in groups:
        ctx.replayed += 1
        v = max((got[i] for i in ids), key=lambda z: (z == -1, z))
        t = traces[ids[0]]
        ctx.true("recorded-chain", "%s: the specification does not allow the step from recorded state %d (or its energy)" % (label, v), v == -1,
                 fixed=c["fixed"], theta=c["theta"], step=t["states"][max(v - 1, 0):v + 1])


def held(ctx, what, c, S, size):
    S = np.asarray(S)
    if not ctx.equal("shape", what + ": shape of the sample", S.shape, (size, c["n"])):
        return False
    for i, v in c["fixed"]:
        if not ctx.true("fixed-spins", "%s: spin %d does not keep its value %d" % (what, i - 1, v), (S[:, i - 1] == v).all(), fixed=c["fixed"]):
            return False
    return ctx.true("alphabet", what + ": values", set(np.unique(S).tolist()) <= {-1, 1})


def zero_based(c):
    return [(i - 1, v) for i, v in c["fixed"]]


def energies(ctx, c, e, samplers, F):
    """The compiled energy of the free spins given the fixed ones, where every spin has its place."""
    fs = np.array([v for x in zero_based(c) for v in x], np.int64)
    f = samplers.define_jit_cond_calc_e(c["n"], F, fs)
    th = np.array(c["theta"], float)
    free = np.array(e["free"]) - 1
    for s, want in zip(e["states"], e["e"]):
        ctx.replayed += 1
        st = np.array(s)[free][None, :]
        keep = st.copy()
        ctx.same("energies", "energy of the free spins given the fixed ones", np.ravel(f(st, th)), [want], case=c, state=s)
        ctx.same("inputs-changed", "state handed to the energy", st, keep)


def trace(traces, groups, c, e, S, scripts, en, level, label):
    ids = []
    for sc in scripts:
        ids.append(len(traces))
        traces.append({"id": len(traces), "model": "ising", "n": c["n"], "k": 2, "theta": c["theta"], "level": level,
                       "free": e["free"], "states": [[int(v) for v in s] for s in S], "script": sc, "en": en})
    groups.append((ids, label, c))


def python(ctx, c, e, samplers, F, traces, groups):
    r = ctx.rnd
    free, nf = e["free"], len(e["free"])
    for systematic in (True, False):
        L = r.choice((0, 1, 2, 4))
        m = samplers.Metropolis(c["n"], np.array(c["theta"], float) * LN2, calc_e=F, boost=False,
                                rng=StubRNG(level_u(L), seed=r.randrange(2 ** 31)))
        size = 12
        iters = r.choice((1, nf, nf + 1, 2)) if systematic else 1
        burn = r.randint(1, 4)
        kw, init = {}, None
        if r.random() < .4:
            init = np.array([[r.choice((-1, 1)) for _ in range(nf)] for _ in range(size)])
            keep = init.copy()
            kw["initial_sample"] = init
        fs = zero_based(c)
        m.generate_cond_sample(size, fs, burn_in=burn, n_iters=iters, systematic_iter=systematic, **kw)
        S = np.asarray(m.sample)
        what = "Python, %s" % ("systematic" if systematic else "random sites")
        if not held(ctx, what, c, S, size):
            return
        ctx.equal("inputs-changed", what + ": fixed spins handed in", fs, zero_based(c))
        if init is not None:
            ctx.same("inputs-changed", what + ": initial sample handed in", init, keep)
        en = ints(np.asarray(m.E, dtype=float).ravel() / LN2, what, ctx)
        ctx.equal("energies", what + ": number of energies", len(en), size)
        if systematic:
            a = [[free[j % nf] for j in range(iters)] for _ in range(size - 1)]
            b = [[free[(burn + (x + 1) * iters + j) % nf] for j in range(iters)] for x in range(size - 1)]
            sc = [a, b]
        else:
            sc = [[[0]] * (size - 1)]
        trace(traces, groups, c, e, S, sc, en, L, what)


def started(ctx, c, e, samplers, F):
    """Every proposal is accepted: a chain that starts from a given state is known, or known up to the sites."""
    r = ctx.rnd
    free = np.array(e["free"]) - 1
    nf = len(free)
    m = samplers.Metropolis(c["n"], np.array(c["theta"], float) * LN2, calc_e=F, boost=False, rng=StubRNG(1e-300, seed=r.randrange(2 ** 31)))
    for systematic in (True, False):
        size, burn, iters = r.choice((1, 3)), r.choice((1, 2, nf + 1)), r.choice((1, 2, nf))
        init = np.array([[r.choice((-1, 1)) for _ in range(nf)]] * size)
        m.generate_cond_sample(size, zero_based(c), burn_in=burn, n_iters=iters, systematic_iter=systematic, initial_sample=init.copy())
        what = "Python, %s sites, from a given state" % ("systematic" if systematic else "random")
        ctx.replayed += 1
        if not held(ctx, what, c, m.sample, size):
            return
        S = np.asarray(m.sample)[:, free]
        ways = []
        for again in (True, False):       # sweeps may begin anew for every state or go on
            x, k, out = init[0].copy(), 0, []
            for part in [burn] + [iters] * size:
                k = 0 if again else k
                for _ in range(part):
                    x[k % nf] *= -1
                    k += 1
                out.append(x.copy())
            ways.append(np.array(out[1:]))
        if systematic:
            ctx.true("initial-sample", what + ": states", any(np.array_equal(S, w) for w in ways), got=S, want=ways, initial=init, burn_in=burn, n_iters=iters)
        else:
            d = (S != init[0]).sum(1)
            k = burn + iters * np.arange(1, size + 1)
            ctx.true("initial-sample", what + ": number of updates", (d % 2 == k % 2).all() and (d <= k).all(), got=S, initial=init, burn_in=burn, n_iters=iters)
    if nf > 2:
        size = 80
        m.generate_cond_sample(size, zero_based(c), burn_in=1, n_iters=1, systematic_iter=False)
        d = np.diff(np.asarray(m.sample)[:, free], axis=0) != 0
        ctx.true("site-choice", "Python: one free spin per update", (d.sum(1) == 1).all(), fixed=c["fixed"])
        ctx.true("site-choice", "Python: only some free spins are updated", (d.sum(0) > 0).all(), got=d.sum(0), fixed=c["fixed"])


def cpp(ctx, c, e, samplers, traces, groups):
    r = ctx.rnd
    free, nf = e["free"], len(e["free"])
    for systematic in (True, False):
        th = np.array(c["theta"], float) * 40
        m = samplers.Metropolis(c["n"], th, rng=np.random.RandomState(r.randrange(2 ** 31)), iprint=False)
        size = 14
        iters = r.choice((1, nf, nf + 1, 2)) if systematic else 1
        burn = r.randint(1, 5)
        m.generate_cond_sample(size, zero_based(c), burn_in=burn, n_iters=iters, systematic_iter=systematic, parallel=False)
        what = "C++, %s" % ("systematic" if systematic else "random sites")
        S = np.asarray(m.sample)
        if not held(ctx, what, c, S, size):
            return
        if systematic:
            sc = [[[free[(burn + (x + 1) * iters + j) % nf] for j in range(iters)] for x in range(size - 1)],
                  [[free[j % nf] for j in range(iters)] for _ in range(size - 1)]]
        else:
            sc = [[[0]] * (size - 1)]
        trace(traces, groups, c, e, S, sc, [], 0, what)
        # the forced outcome after many updates: no free spin can lower the energy
    # site choice: everything free is updated, at random and in order
    m = samplers.Metropolis(c["n"], np.zeros(len(c["theta"])), rng=np.random.RandomState(r.randrange(2 ** 31)), iprint=False)
    for systematic in (True, False):
        size = 1500
        m.generate_cond_sample(size, zero_based(c), burn_in=2, n_iters=1, systematic_iter=systematic, parallel=False)
        d = np.diff(np.asarray(m.sample), axis=0) != 0
        ctx.true("site-choice", "C++: one free spin per update", (d.sum(1) == 1).all(), fixed=c["fixed"])
        f = d.mean(0)[np.array(free) - 1]
        tol = 2 / size if systematic else 6.5 * np.sqrt(1 / nf * (1 - 1 / nf) / size)
        ctx.true("site-choice", "C++: how often each free spin is updated", np.abs(f - 1 / nf).max() <= tol + 1e-12, got=f, fixed=c["fixed"])


def acceptance(ctx, c, e, samplers):
    free, nf, n = np.array(e["free"]) - 1, len(e["free"]), c["n"]
    m = samplers.Metropolis(n, np.array(c["theta"], float) * LN2, rng=np.random.RandomState(ctx.rnd.randrange(2 ** 31)), iprint=False)
    size, burn = (30000 if ctx.quick else 300000), ctx.rnd.randint(1, 5)
    m.generate_cond_sample(size, zero_based(c), burn_in=burn, n_iters=1, systematic_iter=True, parallel=False)
    S = np.asarray(m.sample)
    if not held(ctx, "C++", c, S, size):
        return
    st = code_of(S[:, free], 2, True)
    site = (burn + 1 + np.arange(size - 1)) % nf
    diff = S[1:] != S[:-1]
    mine = diff[np.arange(size - 1), free[site]]
    if not ctx.true("one-site", "C++: another site than the one visited changed", (diff.sum(1) == mine).all(), fixed=c["fixed"]):
        return
    V, A = np.zeros((2 ** nf, nf)), np.zeros((2 ** nf, nf))
    np.add.at(V, (st[:-1], site), 1)
    np.add.at(A, (st[:-1], site), mine)
    P = np.minimum(1., 2. ** -np.array(e["de"], float))
    tol = 6.5 * np.sqrt(V * P * (1 - P)) + np.where(P >= 1, 0, 6)
    ctx.replayed += 1
    ctx.count("comparisons", V.size)
    bad = np.argwhere(np.abs(A - V * P) > tol)
    if len(bad):
        x, k = bad[0]
        ctx.fail("c++ acceptance", "C++: %d of %d updates of spin %d accepted where the specification gives probability %g"
                 % (A[x, k], V[x, k], free[k], P[x, k]), state=e["states"][x], fixed=c["fixed"], theta=c["theta"])


def parallel(ctx, c, e, samplers):
    """Strong multipliers: after many updates no free spin can lower the energy."""
    r = ctx.rnd
    n = c["n"]
    idx = {tuple(s): x for x, s in enumerate(e["states"])}
    m = samplers.Metropolis(n, np.array(c["theta"], float) * 40, rng=np.random.RandomState(r.randrange(2 ** 31)), iprint=False)
    for k, size in ((3, 7), (2, 4), (8, 3)):
        with cpus(samplers, k):
            m.generate_cond_sample(size, zero_based(c), burn_in=40 * n, n_iters=n, systematic_iter=bool(k % 2))
        S = np.asarray(m.sample)
        if not held(ctx, "C++ parallel", c, S, size):
            return
        ctx.replayed += 1
        for s in S:
            de = e["de"][idx[tuple(int(v) for v in s)]]
            ctx.true("parallel", "C++ parallel: a free spin could still lower the energy after many updates", min(de) >= 0, state=s, fixed=c["fixed"], theta=c["theta"])
