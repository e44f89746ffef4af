"""C10: replica exchange (spec/Tempering.tla, TemperTrace.tla, TemperBeta.tla)."""
import contextlib
import numpy as np
from C07 import vec, npar
from stub import StubRNG, level_u

LN2 = np.log(2.)


class FakePool:
    """Runs the work of a pool in this process."""
    def __init__(self, *a, **k):
        pass

    def map(self, f, it, *a, **k):
        return [f(x) for x in it]

    def starmap(self, f, it, *a, **k):
        return [f(*x) for x in it]

    def imap(self, f, it, *a, **k):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, *a, **k):
        return iter(self.map(f, it)[::-1])  # any order is allowed

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def _done(self, v):
        class Result:
            get = staticmethod(lambda timeout=None: v)
            wait = staticmethod(lambda timeout=None: None)
            ready = successful = staticmethod(lambda: True)
        return Result()

    def map_async(self, f, it, *a, **k):
        return self._done(self.map(f, it))

    def starmap_async(self, f, it, *a, **k):
        return self._done(self.starmap(f, it))

    def apply_async(self, f, args=(), kwds={}, *a, **k):
        return self._done(f(*args, **kwds))

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def no_processes(samplers):
    import multiprocess
    old = multiprocess.Pool, getattr(samplers, "Pool", None)
    multiprocess.Pool = FakePool
    if old[1] is not None:
        samplers.Pool = FakePool
    try:
        yield
    finally:
        multiprocess.Pool = old[0]
        if old[1] is not None:
            samplers.Pool = old[1]


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    inv = ["WalkersPermuted", "EnergiesMatch", "StatesTravel", "Reversible"]
    ctx.tlc("Tempering", consts={"N": 2, "M": 2, "BetaSet": [1, 3], "Theta": [1, 0, -2]}, invariants=inv)
    ctx.tlc("Tempering", consts={"N": 2, "M": 3, "BetaSet": [1, 2, 3], "Theta": [1, -1, 1]}, invariants=inv)
    if not q:
        ctx.tlc("Tempering", consts={"N": 2, "M": 4, "BetaSet": [1, 2, 4, 5], "Theta": [1, 0, -2]}, invariants=inv, workers=8)
        ctx.tlc("Tempering", consts={"N": 3, "M": 3, "BetaSet": [1, 2, 4], "Theta": [1, 0, -1, 1, 0, -1]}, invariants=inv, workers=8)
    bc = []
    for x in range(40 if q else 300):
        m = r.randint(2, 6)
        bc.append({"id": x, "b": sorted(r.sample(range(8, 120), m)),
                   "a": [r.randint(0 if x % 5 == 0 else 1, 8) for _ in range(m - 1)]})
        if sum(bc[-1]["a"]) == 0:
            bc[-1]["a"][0] = 3
        if x % 7 == 0:
            bc[-1]["a"] = [4] * (m - 1)
    bx = ctx.tlc("TemperBeta", cases=bc, invariants=["ColdKept", "Increasing", "EqualRatiosFixed"])
    bx = {x["id"]: x for x in bx.records}
    coniii = ctx.load(ext=False)
    from coniii import samplers, utils
    F = None
    with ctx.impl("helpers"):
        F = utils.define_ising_helper_functions()[0]
    with ctx.impl("iterate_beta"):
        for c in bc:
            b, a = np.array(c["b"]) / 64, np.array(c["a"]) / 8
            kb, ka = b.copy(), a.copy()
            new = samplers.ParallelTempering.iterate_beta(b, a)
            ctx.replayed += 1
            ctx.same("iterate_beta", "adapted inverse temperatures", new, np.array(bx[c["id"]]["new"]) / bx[c["id"]]["den"], tol=1e-12, case=c)
            ctx.same("inputs-changed", "inverse temperatures handed in", b, kb)
            ctx.same("inputs-changed", "acceptance ratios handed in", a, ka)
    traces = []
    for rep in range(14 if q else 120):
        with ctx.impl("exchange"), no_processes(samplers):
            exchange(ctx, r, samplers, F, traces, rep)
    with ctx.impl("setup"):
        setup(ctx, r, samplers, F)
    with ctx.impl("bounds"), no_processes(samplers):
        bounds(ctx, r, samplers, F)
    with ctx.impl("trajectory"), no_processes(samplers):
        for rep in range(4 if q else 30):
            trajectory(ctx, r, samplers, F, traces)
    res = ctx.tlc("TemperTrace", cases=[t for t, _ in traces])
    got = {x["id"]: x for x in res.records}
    ctx.equal("harness", "verdicts", len(got), len(traces))
    why = {1: "a walker is lost or doubled", 2: "the exchanges are not those of the rule", 3: "stored energies (before the exchanges)",
           4: "stored energies (after the exchanges)", 5: "a replica did not continue from the state it was left in"}
    ctx.sample({"recorded": traces[0][0]["rounds"][:2], "theta": traces[0][0]["theta"], "beta": traces[0][0]["beta"]})
    for t, label in traces:
        g = got[t["id"]]
        ctx.replayed += 1
        if g["verdict"] != -1:
            ctx.fail("recorded-rounds", "%s: %s, round %d" % (label, why[g["verdict"]], g["round"]), round=t["rounds"][g["round"] - 1],
                     previous=t["rounds"][max(g["round"] - 2, 0)], theta=t["theta"], beta=t["beta"])


def new(samplers, F, r, n, m, theta, rng=None):
    pt = samplers.ParallelTempering(n, theta, F, m, replica_burnin=n, rep_ex_burnin=n,
                                    rng=rng or np.random.RandomState(r.randrange(2 ** 31)))
    return pt


def snapshot(pt, n):
    return {"s": [[int(v) for v in np.asarray(x.sample).reshape(-1)] for x in pt.replicas],
            "w": [int(x.index) + 1 for x in pt.replicas],
            "e": [float(np.squeeze(x.E)) for x in pt.replicas]}


def units(ctx, es, what):
    y = [int(round(e / LN2)) for e in es]
    ctx.true("energy-value", what + ": stored energies are not energies of the model at the replica's temperature",
             all(abs(a - e / LN2) < 1e-7 for a, e in zip(y, es)), got=es)
    return y


def coherent(ctx, pt, what):
    for i, x in enumerate(pt.replicas):
        ctx.same("temperature", "%s: multipliers of replica %d" % (what, i), x.theta, pt.beta[i] * np.asarray(pt.theta), tol=1e-12)
    e = [float(np.squeeze(pt.calc_e(np.asarray(x.sample, dtype=np.int64), np.asarray(pt.theta, float)))) * pt.beta[i] for i, x in enumerate(pt.replicas)]
    ctx.same("energies", what + ": stored energies", [float(np.squeeze(x.E)) for x in pt.replicas], e, tol=1e-9)
    ctx.equal("walkers", what + ": walker numbers", sorted(int(x.index) for x in pt.replicas), list(range(len(pt.beta))))


def exchange(ctx, r, samplers, F, traces, rep):
    n, m = r.choice((2, 3, 4)), r.choice((2, 3, 4, 5))
    th = vec(r, npar("ising", n), r.choice((n, 3 * n)))
    theta = np.array(th, float) * LN2
    keep = theta.copy()
    pt = new(samplers, F, r, n, m, theta)
    ctx.same("inputs-changed", "multipliers handed in", theta, keep)
    beta = sorted(r.sample(range(1, 9), m))
    pt.beta = np.array(beta, float)
    pt.update_replica_parameters()
    for i, x in enumerate(pt.replicas):
        ctx.same("temperature", "multipliers of replica %d" % i, x.theta, beta[i] * theta, tol=1e-12)
    still = rep % 2 == 0
    if still:
        # every proposal is accepted, and every site is visited twice between exchanges
        for x in pt.replicas:
            x.rng = StubRNG(1e-300, seed=1)
    before = []
    orig = pt.burn_in_replicas

    def burn(*a, **k):
        v = orig(*a, **k)
        before.append(snapshot(pt, n))
        return v
    pt.burn_in_replicas = burn
    rounds = []
    for t in range(14):
        L = r.choice((0, 0, 1, 2, 5, 40))
        pt.rng = StubRNG(level_u(L), seed=3)
        before.clear()
        pt.burn_and_exchange(FakePool())
        a = snapshot(pt, n)
        if not before:
            ctx.count("no recording before the exchanges")
            break
        b = before[-1]
        rounds.append({"level": L, "bs": b["s"], "bw": b["w"], "as": a["s"], "aw": a["w"],
                       "be": units(ctx, b["e"], "exchange"), "ae": units(ctx, a["e"], "exchange")})
        coherent(ctx, pt, "after an exchange")
        # the stated acceptance probability
        if hasattr(pt, "_acceptance_ratio"):
            e0 = [float(np.squeeze(F(np.array([s]), np.array(th, float)))) for s in a["s"]]
            pr = [(i, i + 1) for i in range(m - 1)]
            want = [min(1., 2. ** ((beta[i] - beta[j]) * (e0[i] - e0[j]))) for i, j in pr]
            ctx.same("acceptance", "probability of exchange", pt._acceptance_ratio(1, 0), want, tol=1e-9)
            if still and t % 5 == 0:
                ctx.same("acceptance", "estimated probability of exchange", pt._acceptance_ratio(2, n), want, tol=1e-9)
                before.clear()
    if rounds:
        traces.append(({"id": len(traces), "theta": th, "beta": beta, "still": still, "rounds": rounds}, "exchange among %d replicas" % m))
    # adapting the temperatures
    pt.rng = np.random.RandomState(5)
    pt.burn_in_replicas = orig
    cold = pt.beta[-1]
    pt.optimize_beta(3, n)
    ctx.same("temperature", "coldest inverse temperature after adaptation", pt.beta[-1], cold)
    if np.all(np.isfinite(pt.beta)):
        for i, x in enumerate(pt.replicas):
            ctx.same("temperature", "after adaptation: multipliers of replica %d" % i, x.theta, pt.beta[i] * theta, tol=1e-12)
        ctx.true("temperature", "inverse temperatures are not increasing after adaptation", (np.diff(pt.beta) >= 0).all(), got=pt.beta)
        pt.burn_and_exchange(FakePool())
        coherent(ctx, pt, "after adaptation and an exchange")


def setup(ctx, r, samplers, F):
    """With real processes."""
    for n, m in ((3, 3), (5, 4))[:1 if ctx.quick else 2]:
        theta = np.array([r.uniform(-.5, .5) for _ in range(npar("ising", n))])
        pt = samplers.ParallelTempering(n, theta, F, m, Tbds=(1., 3.), rng=np.random.RandomState(4))
        ctx.equal("temperature", "number of replicas", (len(pt.replicas), len(pt.beta)), (m, m))
        ctx.same("temperature", "coldest inverse temperature", pt.beta[-1], 1., tol=1e-12)
        coherent(ctx, pt, "after construction")
        h = pt.generate_sample(3, save_exchange_trajectory=True)
        coherent(ctx, pt, "after sampling")
        check_sample(ctx, pt, h, 3, n, m)
        ctx.replayed += 1
        pt.generate_sample(2)
        coherent(ctx, pt, "after sampling")
        check_sample(ctx, pt, None, 2, n, m)


def bounds(ctx, r, samplers, F):
    """The temperatures asked for, and how many updates are made between exchanges."""
    for lo, hi in ((2., 5.), (.5, .8), (1., 3.)):
        n, m = 3, r.choice((2, 3, 4))
        b = samplers.ParallelTempering.initialize_beta(1 / hi, 1 / lo, m)
        ctx.same("temperature", "ends of the first inverse temperatures", [b[0], b[-1]], [1 / hi, 1 / lo], tol=1e-12)
        ctx.true("temperature", "first inverse temperatures increase", len(b) == m and (np.diff(b) > 0).all(), got=b)
        # without energies every exchange is certain, so that adapting leaves the temperatures alone
        pt = samplers.ParallelTempering(n, np.zeros(npar("ising", n)), F, m, Tbds=(lo, hi), rng=np.random.RandomState(4))
        ctx.same("temperature", "inverse temperatures of independent spins without fields, temperatures %s to %s" % (lo, hi), pt.beta, b, tol=1e-9)
        coherent(ctx, pt, "temperatures from %s to %s" % (lo, hi))
        ctx.replayed += 1
    n, m = 14, 3
    sgn = np.array([r.choice((-1, 1)) for _ in range(n)])
    theta = np.concatenate((200. * sgn, np.zeros(n * (n - 1) // 2)))
    for first, between in ((1, 2), (3, 1), (2, 5), (4, None), (None, 3)):
        pt = samplers.ParallelTempering(n, theta, F, m, replica_burnin=first, rep_ex_burnin=between, rng=np.random.RandomState(4))

        def against():
            for x in pt.replicas:
                x._samples = -sgn[None, :].copy()
                x.sample = x._samples.copy()
                x.E = F(x._samples.astype(np.int64), x.theta)
            return [x._samples for x in pt.replicas]
        for what, k, go in (("exchanges", between, lambda: pt.burn_and_exchange(FakePool())), ("burn-in", first, lambda: pt.burn_in_replicas(FakePool()))):
            against()
            go()
            ctx.replayed += 1
            for x in pt.replicas:
                al = int((np.asarray(x.sample).reshape(-1) == sgn).sum())
                # a run of k updates makes k for burn-in and k before its state
                ok = (1 <= al <= 2 * k and (al >= k)) if k else al == n
                ctx.true("updates", "updates per replica (%s, asked for: %s)" % (what, k), ok, aligned=al, sites=n)


def check_sample(ctx, pt, h, size, n, m):
    ctx.equal("sample", "one sample per replica", len(pt.sample), m)
    for j in range(m):
        if ctx.equal("sample", "shape", np.asarray(pt.sample[j]).shape, (size, n)):
            ctx.true("sample", "values", set(np.unique(pt.sample[j]).tolist()) <= {-1, 1})
            ctx.same("sample", "last state of replica %d" % j, pt.sample[j][-1], np.asarray(pt.replicas[j].sample).reshape(-1))
    if h is not None:
        h = np.asarray(h)
        ctx.equal("sample", "shape of the exchange record", h.shape, (size, m))
        ctx.same("sample", "each row of the exchange record is a permutation", np.sort(h, axis=1), np.tile(np.arange(m), (size, 1)))
        ctx.same("sample", "last row of the exchange record", h[-1], [x.index for x in pt.replicas])


def trajectory(ctx, r, samplers, F, traces):
    """generate_sample with the record of exchanges; states move only by exchanges."""
    n, m = r.choice((2, 3, 4)), r.choice((3, 4, 5))
    th = vec(r, npar("ising", n), 2 * n)
    pt = new(samplers, F, r, n, m, np.array(th, float) * LN2)
    beta = list(range(1, m + 1))
    pt.beta = np.array(beta, float)
    pt.update_replica_parameters()
    for x in pt.replicas:
        x.rng = StubRNG(1e-300, seed=1)
    first = snapshot(pt, n)
    L = r.choice((0, 1, 2))
    pt.rng = StubRNG(level_u(L), seed=3)
    size = 9
    h = np.asarray(pt.generate_sample(size, save_exchange_trajectory=True))
    check_sample(ctx, pt, h, size, n, m)
    rounds, bs, bw = [], first["s"], first["w"]
    for t in range(size):
        s = [[int(v) for v in pt.sample[j][t]] for j in range(m)]
        w = [int(v) + 1 for v in h[t]]
        rounds.append({"level": L, "bs": bs, "bw": bw, "as": s, "aw": w, "be": [], "ae": []})
        bs, bw = s, w
    traces.append(({"id": len(traces), "theta": th, "beta": beta, "still": True, "rounds": rounds}, "sampling with %d replicas" % m))
