"""C07: every Metropolis update obeys the acceptance rule (spec/Metro*.tla)."""
import pickle

import numpy as np
from stub import StubRNG, level_u

LN2 = np.log(2.)


def npar(model, n):
    return n * (3 if model == "potts" else 1) + n * (n - 1) // 2


def vec(r, m, budget, big=1):
    t = [0] * m
    for _ in range(budget):
        t[r.randrange(m)] += r.choice((-1, 1)) * big
    return t


def run(ctx):
    q = ctx.quick
    r = ctx.rnd
    ctx.start_build()
    # ---- the kernel of small systems ---------------------------------------------------
    cs = []

    def add(model, n, theta):
        cs.append({"id": len(cs), "model": model, "n": n, "k": 3, "theta": theta})
    for rep in range(1 if q else 4):
        for n in ((2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
            add("ising", n, vec(r, npar("ising", n), n + 2))
            add("ising", n, vec(r, npar("ising", n), 3 * n))
            if n < 5:
                add("potts", n, vec(r, npar("potts", n), n + 3))
                add("potts", n, vec(r, npar("potts", n), 4 * n))
    add("ising", 5, vec(r, 15, 9))
    add("ising", 1, [1])
    add("potts", 1, [2, 0, -1])
    add("potts", 5 if not q else 4, vec(r, npar("potts", 5 if not q else 4), 10))
    tab = ctx.tlc("MetroTable", cases=cs, invariants=["LocalIsExact", "DetailedBalance"])
    tab = {x["id"]: x for x in tab.records}
    # ---- exhaustive exploration of the update/replace state machine, and behaviours ------
    small = [{"theta": t} for t in ([0] * 6, [1, 0, -1, 2, 1, -1], [-2, 1, 0, 0, 1, 3])]
    ex = ctx.tlc("Metropolis", cases=small, consts={"N": 3, "Depth": 0, "Exhaustive": True},
                 invariants=["EnergyTracked", "TypeOK"], view="View")
    ctx.equal("harness", "reachable: all states under all multipliers", ex.states, 8 * 3)
    beh = []
    for n in (3, 6):
        th = [{"theta": vec(r, npar("ising", n), 2 * n)} for _ in range(4)]
        b = ctx.tlc("Metropolis", cases=th, consts={"N": n, "Depth": 40, "Exhaustive": False},
                    invariants=["EnergyTracked"], simulate=25 if q else 400, depth=45)
        beh += [(n, th, x["tr"]) for x in b.records]
    # ---- replay ------------------------------------------------------------------------
    coniii = ctx.load()
    from coniii import samplers, utils, models
    F = {}
    with ctx.impl("helpers"):
        F["ising"] = utils.define_ising_helper_functions()[0]
        F["potts"] = utils.define_potts_helper_functions(3)[0]
    if len(F) < 2:
        return

    def py(model, n, theta, rng):
        S = samplers.Metropolis if model == "ising" else samplers.Potts3
        return S(n, np.array(theta, float) * LN2, calc_e=F[model], rng=rng, boost=False)
    ctx.sample({"kernel": cs[0], "energy changes": tab[0]["de"][:3]})
    for c in cs:
        with ctx.impl("python-kernel", "%s n=%d" % (c["model"], c["n"])):
            kernel(ctx, c, tab[c["id"]], py)
    with ctx.impl("jit-kernel"):
        for c in cs:
            if c["model"] == "ising":
                jit_kernel(ctx, c, tab[c["id"]], samplers)
    with ctx.impl("behaviours"):
        for n, th, tr in beh:
            behaviour(ctx, n, th, tr, py, samplers)
    traces = []
    with ctx.impl("python-chains"):
        chains(ctx, r, traces, py)
    with ctx.impl("c++ acceptance"):
        for c in cs:
            frequencies(ctx, c, tab[c["id"]], samplers)
    with ctx.impl("c++ chains"):
        hard(ctx, r, traces, samplers, models, F)
    res = ctx.tlc("MetroTrace", cases=[t for t, _ in traces], invariants=["TypeOK"])
    got = {x["id"]: x["verdict"] for x in res.records}
    ctx.equal("harness", "verdicts", sorted(got), list(range(len(traces))))
    for t, label in traces:
        v = got[t["id"]]
        ctx.replayed += 1
        ctx.true("recorded-chain", "%s: the specification does not allow the step from state %d of the recorded chain "
                 "(or its energy)" % (label, v), v == -1,
                 **(dict(step=t["states"][max(v - 1, 0):v + 1], theta=t["theta"], level=t["level"],
                         script=t["script"][max(v - 1, 0)], n=t["n"]) if v != -1 else {}))


def kernel(ctx, c, e, py):
    """sample_metropolis at every state, site, proposal and every relevant threshold."""
    pm = c["model"] == "ising"
    alt = {"k": 0}
    rng = StubRNG(.5, ints=lambda lo, hi: lo + alt["k"] if hi - lo == 2 else None)
    m = py(c["model"], c["n"], c["theta"], rng)
    dmax = max([0] + [x for a in e["de"] for b in a for x in b])
    levels = sorted({0, 1, 2, max(dmax - 1, 0), dmax, dmax + 3} | {ctx.rnd.randint(0, dmax + 1) for _ in range(2)})
    order = list(range(len(e["states"])))
    if len(order) > (81 if ctx.quick else 400):
        order = ctx.rnd.sample(order, 60)
    for x in order:
        s = e["states"][x]
        for i in range(c["n"]):
            for L in levels:
                u = level_u(L)
                want, got = [], []
                for o, d in enumerate(e["de"][x][i]):
                    t = list(s)
                    if d <= L:
                        t[i] = -s[i] if pm else (s[i] + o + 1) % 3
                    want.append((tuple(t), d if d <= L else 0))
                    alt["k"] = o
                    rng.u = u
                    if ctx.rnd.random() < .5:
                        a = np.array(s)
                        r2, m.rng = None, rng
                    else:        # generator handed over for this update only
                        a = np.array(s)
                        r2, m.rng = rng, None
                    ret = m.sample_metropolis(a, float(e["en"][x] * LN2), flip_site=i, **({"rng": r2} if r2 else {}))
                    got.append((tuple(int(v) for v in a), float(np.squeeze(ret)) / LN2))
                m.rng = rng
                ctx.replayed += 1
                want.sort(key=lambda z: z[0] + (z[1],))
                got.sort(key=lambda z: z[0] + (z[1],))
                ok = [g[0] for g in got] == [w[0] for w in want] and \
                    all(abs(g[1] - w[1]) < 1e-9 for g, w in zip(got, want))
                ctx.count("comparisons")
                ctx.true("python-kernel", "%s: update of site %d at draw 2^-%.1f" % (c["model"], i, L + .5), ok,
                         state=s, theta=c["theta"], got=got, want=want)


def square(n, theta):
    J = np.zeros((n, n))
    J[np.triu_indices(n, 1)] = theta[n:]
    return np.array(theta[:n], float), J + J.T


def jit_kernel(ctx, c, e, samplers):
    f = getattr(samplers, "_jit_sample_metropolis", None)
    if f is None:
        ctx.count("skipped")
        return
    h, J = square(c["n"], np.array(c["theta"], float) * LN2)
    rng = StubRNG(.5)
    for x, s in enumerate(e["states"]):
        for i in range(c["n"]):
            d = e["de"][x][i][0]
            for L in sorted({0, 1, max(d - 1, 0), max(d, 0), d + 2 if d > 0 else 3}):
                rng.u = level_u(L)
                a = np.array(s)
                ret = float(np.squeeze(f(a, h, J, i, rng)))
                t = list(s)
                if d <= L:
                    t[i] = -t[i]
                ctx.replayed += 1
                ctx.same("jit-kernel", "state after updating site %d" % i, a, t, state=s, theta=c["theta"], level=L)
                ctx.same("jit-kernel", "returned energy change", ret / LN2, d if d <= L else 0, tol=1e-9, state=s, theta=c["theta"])


def behaviour(ctx, n, th, tr, py, samplers):
    rng = StubRNG(.5)
    m = py("ising", n, th[tr[0]["arg"] - 1]["theta"], rng)
    s = np.array(tr[0]["s"])
    E = m.calc_e(s[None, :], m.theta)[0]
    ctx.replayed += 1
    for x in tr[1:]:
        if x["op"] == "theta":
            m.update_parameters(np.array(th[x["arg"] - 1]["theta"], float) * LN2)
            E = m.calc_e(s[None, :], m.theta)[0]
        else:
            rng.u = level_u(x["level"])
            E = E + np.squeeze(m.sample_metropolis(s, E, flip_site=x["arg"] - 1))
        if not (ctx.same("behaviour", "state after %s" % x["op"], s, x["s"], behaviour=tr) and
                ctx.same("behaviour", "energy after %s" % x["op"], E / LN2, x["en"], tol=1e-8, behaviour=tr)):
            return


def ints(x, what, ctx):
    """Energies in units: integers up to rounding."""
    y = np.round(x)
    if np.abs(x - y).max() > 1e-7:
        ctx.fail("energy-value", what + ": stored energy is not one of the model's energies", got=x)
    return [int(v) for v in y]


def sites(n, burn, iters, size):
    return [[j % n + 1 for j in range(burn)]] + [[j % n + 1 for j in range(iters)] for _ in range(size)]


def chains(ctx, r, traces, py):
    """Chains of generate_sample_py recorded with a fixed draw: systematic and random sites."""
    for rep in range(24 if ctx.quick else 240):
        model = ("ising", "potts")[rep % 2]
        n = r.choice((2, 3, 4, 5, 7))
        L = r.choice((0, 0, 1, 2, 4))
        systematic = rep % 4 < 2
        theta = vec(r, npar(model, n), r.choice((2, 2 * n, 5 * n)))
        rng = StubRNG(level_u(L), seed=r.randrange(2 ** 31))
        m = py(model, n, theta, rng)
        size, iters, burn = 25, 1 if not systematic else r.choice((1, 1, 2, 3)), r.choice((1, 2, n, n + 1))
        if not systematic:
            burn = 1
        init = np.array([[r.choice((-1, 1) if model == "ising" else (0, 1, 2)) for _ in range(n)]])
        if rep % 3:
            # replaced multipliers must be the ones in force
            m.update_parameters(np.array(theta[::-1], float) * LN2)
            theta = theta[::-1]
        m.generate_sample(size, n_iters=iters, burn_in=burn, systematic_iter=systematic, initial_sample=init,
                          **({"saveHistory": True} if rep % 5 == 0 else {}))
        S = [[int(v) for v in s] for s in np.vstack((init, m.sample))]
        script = sites(n, burn, iters, size) if systematic else [[0] * burn] + [[0]] * size
        # the chain of the first recorded state: burn-in and the first block together
        script = [script[0] + script[1]] + script[2:]
        en = [0] + ints(np.asarray(m.E).ravel() / LN2, "python chain", ctx)
        traces.append(({"id": len(traces), "model": model, "n": n, "k": 3, "theta": theta, "level": L, "free": list(range(1, n + 1)),
                        "states": S, "script": script, "en": en}, "python %s, %s" % (model, "systematic" if systematic else "random sites")))


def code_of(S, base, pm):
    d = (S + 1) // 2 if pm else S
    return d @ (base ** np.arange(S.shape[1] - 1, -1, -1))


def frequencies(ctx, c, e, samplers):
    """Acceptance counts of the C++ kernel at every state, site and proposal."""
    n, pm = c["n"], c["model"] == "ising"
    if n == 1 and not pm:
        pass
    theta = np.array(c["theta"], float) * LN2
    k = 2 if pm else 3
    size = 60000 if ctx.quick else 600000
    m = (samplers.Metropolis if pm else samplers.Potts3)(n, theta, rng=np.random.RandomState(ctx.rnd.randrange(2 ** 31)))
    burn = ctx.rnd.randint(1, 7)
    m.generate_sample(size, n_iters=1, burn_in=burn, systematic_iter=True)
    S = np.asarray(m.sample)
    good = set((-1, 1) if pm else (0, 1, 2))
    if not ctx.true("alphabet", "C++ %s states outside the alphabet" % c["model"], set(np.unique(S).tolist()) <= good) or \
            not ctx.equal("shape", "shape of the sample", S.shape, (size, n)):
        return
    ctx.replayed += 1
    st = code_of(S, k, pm)
    site = (burn + 1 + np.arange(size - 1)) % n
    diff = S[1:] != S[:-1]
    other = diff.copy()
    other[np.arange(size - 1), site] = False
    if not ctx.true("one-site", "C++ %s: an update changed another site than the one visited" % c["model"], not other.any(), n=n, theta=c["theta"]):
        return
    V = np.zeros((k ** n, n))
    np.add.at(V, (st[:-1], site), 1)
    A = np.zeros((k ** n, n, k))
    newv = ((S[1:][np.arange(size - 1), site] - S[:-1][np.arange(size - 1), site]) % 3) if not pm else diff[np.arange(size - 1), site].astype(int)
    np.add.at(A, (st[:-1], site, newv), 1)
    D = np.array(e["de"], float)
    P = np.minimum(1., np.exp(-D * LN2)) / (k - 1)
    worst = 0
    for x in range(k ** n):
        for i in range(n):
            v = V[x, i]
            if v == 0:
                continue
            cells = [(A[x, i, o + 1], P[x, i, o]) for o in range(k - 1)] + [(A[x, i, 0], 1 - P[x, i].sum())]
            for o, (a, p) in enumerate(cells):
                ctx.count("comparisons")
                p = min(max(p, 0.), 1.)
                exact = p < 1e-12 or p > 1 - 1e-12
                sd = np.sqrt(v * p * (1 - p))
                ok = (a == round(v * p)) if exact else abs(a - v * p) <= 6.5 * sd + 6
                if not exact and sd > 0:
                    worst = max(worst, abs(a - v * p) / sd)
                ctx.true("c++ acceptance", "C++ %s: %d of %d visits accepted where the specification gives probability %g"
                         % (c["model"], a, v, p), ok, state=e["states"][x], site=i, theta=c["theta"], de=e["de"][x][i])
    # pooled by energy change: finer than the single cells
    vals = sorted(set(D.ravel()))
    for d in vals:
        if d <= 0:
            continue
        mask = D == d
        vv = (V[:, :, None] * np.ones(k - 1) / (k - 1))[mask].sum()
        aa = A[:, :, 1:][mask].sum()
        p = 2. ** -d
        sd = np.sqrt(vv * p * (1 - p / (k - 1))) + 1e-9
        ctx.true("c++ acceptance", "C++ %s: %d of %d proposals raising the energy by %d ln 2 were accepted" % (c["model"], aa, vv, d),
                 abs(aa - vv * p) <= 6.5 * sd + 6, theta=c["theta"])
    ctx.count("c++ transitions", size - 1)


def hard(ctx, r, traces, samplers, models, F):
    """With multipliers in units of 40 every outcome is forced: recorded C++ chains are validated
    step by step.  Multipliers come as non-contiguous, integer or single-precision arrays too,
    differ by many orders of magnitude, or are replaced before the run."""
    for rep in range(24 if ctx.quick else 200):
        pm = rep % 2 == 0
        model = "ising" if pm else "potts"
        n = r.choice((2, 3, 4, 6, 9))
        m = npar(model, n)
        theta = vec(r, m, r.choice((2, n, 3 * n)))
        if rep % 6 >= 4:
            # large values that nearly cancel
            theta = [x + r.choice((-1, 1)) * (2 ** 22 + 1) for x in theta] if n < 7 else theta
        unit = 40
        th = np.array(theta, float) * unit
        how = rep % 5
        give = th
        if how == 1:
            give = np.repeat(th, 2)[::2]
        elif how == 2:
            give = np.array(theta) * unit
        elif how == 3:
            give = np.ascontiguousarray(th[::-1])[::-1]
        seed = r.randrange(2 ** 31)
        if pm and how == 4:
            b = samplers.BoostIsing(n, np.array(vec(r, m, 9), float) * 50, seed)
            b.readin_multipliers(th)
            S = np.array(runb(b, r, n))
        elif pm:
            M = samplers.Metropolis(n, np.array(vec(r, m, 5), float) if rep % 3 == 0 else give, rng=np.random.RandomState(seed))
            if rep % 3 == 0:
                M.update_parameters(give)
            M.generate_sample(40, n_iters=1, burn_in=1, systematic_iter=rep % 4 < 2)
            S = M.sample
        else:
            M = samplers.Potts3(n, np.array(vec(r, m, 5), float) if rep % 3 == 0 else give, rng=np.random.RandomState(seed))
            if rep % 3 == 0:
                M.update_parameters(give)
            M.generate_sample(40, n_iters=1, burn_in=1, systematic_iter=rep % 4 < 2)
            S = M.sample
        boost_py = pm and how == 4
        systematic = rep % 4 < 2 and not boost_py
        script = [[(j + 2) % n + 1] if systematic else [0] for j in range(len(S) - 1)]
        traces.append(({"id": len(traces), "model": model, "n": n, "k": 3, "theta": theta, "level": 0, "free": list(range(1, n + 1)),
                        "states": [[int(v) for v in s] for s in S], "script": script, "en": []},
                       "C++ %s, %s" % (model, "systematic" if systematic else "random sites")))
    # a copy made by pickle keeps the parameters
    for rep in range(4):
        n = r.choice((2, 3, 5))
        field = [r.sample((-1, 0, 1), 3) for _ in range(n)]
        th = np.concatenate([np.array(field).T.ravel() * 400., np.array(vec(r, npar("potts", n) - 3 * n, 3), float)])
        b = pickle.loads(pickle.dumps(samplers.BoostPotts3(n, th, r.randrange(2 ** 31))))
        b.generate_sample(3, 60 * n, 60 * n, True)
        ctx.equal("compiled", "states of a pickled copy in strong fields", np.asarray(b.fetch_sample()).tolist(),
                  [[f.index(1) for f in field]] * 3)
    # all sites are visited, equally often
    n = 7
    for S, name in ((samplers.Metropolis, "ising"), (samplers.Potts3, "potts")):
        M = S(n, np.zeros(npar(name, n)), calc_e=F[name], rng=np.random.RandomState(r.randrange(2 ** 31)))
        P = S(n, np.zeros(npar(name, n)), calc_e=F[name], rng=np.random.RandomState(r.randrange(2 ** 31)), boost=False)
        for X, size in ((M, 20000), (P, 1500)):
            X.generate_sample(size, n_iters=1, burn_in=3)
            d = (np.diff(X.sample, axis=0) != 0)
            ctx.equal("site-choice", "%s: one site changes per update when every proposal is accepted" % name, set(d.sum(1).tolist()), {1})
            f = d.mean(0)
            ctx.true("site-choice", "%s: randomly chosen sites are not uniform" % name,
                     np.abs(f - 1 / n).max() < 6.5 * np.sqrt(1 / n * (1 - 1 / n) / size), got=f)


def runb(b, r, n):
    b.generate_sample(40, 1, 1, False)
    return b.fetch_sample().tolist()
