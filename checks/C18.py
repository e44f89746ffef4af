"""C18: the Ising front end (spec/Descent.tla, spec/Ensemble.tla, spec/Basis.tla) and the
two-dimensional lattice simulation (spec/Lattice.tla)."""
import numpy as np
from itertools import combinations
from C06 import tuples
from C07 import vec

LN2 = np.log(2.)


def make_descents(r, q):
    out = []
    for n in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7)):
        for rep in range(8 if q else 25):
            m = n + n * (n - 1) // 2
            lim = r.choice((1, 3, 9))
            th = [r.randint(-lim, lim) for _ in range(m)]
            if rep == 0:
                th = [0] * n + [2] * (m - n)       # ferromagnet: ties everywhere
            elif rep == 1:
                th = [0] * n + [-2] * (m - n)
            elif rep in (2, 3) and n <= 4:         # decided by differences of 1 in 2^26
                th = [r.randint(-1, 1) * 2 ** 25 + r.randint(-9, 9) for _ in range(m)]
            out.append({"id": len(out), "n": n, "theta": th, "starts": []})
    for rep in range(2 if q else 20):
        n = 9
        th = [r.randint(-9, 9) for _ in range(n + n * (n - 1) // 2)]
        out.append({"id": len(out), "n": n, "theta": th, "starts": [[r.choice((-1, 1)) for _ in range(n)] for _ in range(12)]})
    return out


def make_lattices(r, q):
    out = []
    shapes = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 5), (5, 4), (6, 6)]
    for x in range(60 if q else 500):
        a, b = r.choice(shapes)
        J = r.choice((0, 1, 1, 2, -1))
        h = [[r.choice((0, 0, 1, -1, 2, -3)) for _ in range(b)] for _ in range(a)]
        if r.random() < .3:
            h = [[0] * b for _ in range(a)]
        out.append({"id": x, "J": J, "h": h, "x": [[r.choice((-1, 1)) for _ in range(b)] for _ in range(a)]})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    desc, lat = make_descents(r, q), make_lattices(r, q)
    ens, bas = [], []
    for n in ((2, 3, 4, 5) if q else (2, 3, 4, 5, 6)):
        for rep in range(3 if q else 8):
            th = vec(r, n + n * (n - 1) // 2, 2 if n > 3 else 3)
            bas.append({"id": len(bas), "kind": "par", "n": n, "p": [th[:n], th[n:]], "x": []})
            ens.append({"id": len(ens), "n": n, "k": 0, "dom": "pm", "terms": tuples(n, (1, 2)), "theta": th})
    res = ctx.tlc("Descent", cases=desc, invariants=["Report", "LocalExact", "Lower", "OwnBasin"], properties=["Arrives"])
    table, basins = {}, {}
    for x in res.records:
        k = x["id"], tuple(x["start"])
        if "basin" in x:
            basins.setdefault(k, set()).add(tuple(x["basin"]))
        else:
            table[k] = x
    el = {x["id"]: x["de"] for x in ctx.tlc("Lattice", cases=lat, invariants=["LocalExact", "Balance", "Transposed"]).records}
    e01 = {x["id"]: x["to01"] for x in ctx.tlc("Basis", cases=bas).records}
    ex = {x["id"]: x for x in ctx.tlc("Ensemble", cases=ens, invariants=["Normalised"]).records}
    # the same ensembles written in the other basis
    ens01 = [dict(c, dom="01", theta=e01[c["id"]][0] + e01[c["id"]][1]) for c in ens]
    ex01 = {x["id"]: x for x in ctx.tlc("Ensemble", cases=ens01, invariants=["Normalised"]).records}
    ctx.load(ext=False)
    from coniii.ising.utils import Ising
    from coniii.ising import automaton
    k = next(k for k in basins if len(basins[k]) > 1)
    ctx.sample({"case": k[0], "start": k[1], "basins": sorted(basins[k])})
    for c in desc:
        with ctx.impl("descent", "%d spins" % c["n"], limit=300):
            descent(ctx, r, Ising, c, table, basins)
    for c in ens:
        with ctx.impl("front-end", "%d spins" % c["n"], limit=300):
            front(ctx, r, Ising, c, e01[c["id"]], ex[c["id"]]["exact"], ex01[c["id"]]["exact"])
    with ctx.impl("front-end", "constructor defaults"):
        defaults(ctx, Ising)
    with ctx.impl("lattice", "threshold of the random number"):
        draw = Draws()
        for c in lat:
            flips(ctx, r, automaton, c, el[c["id"]], draw)
    with ctx.impl("iterate", "lattice updates", limit=600):
        iterate(ctx, r, automaton, q)


def descent(ctx, r, Ising, c, table, basins):
    n = c["n"]
    for scale in ((1., .375) if c["id"] % 3 == 1 else (2. ** -20, 1.) if c["id"] % 3 else (1., 2. ** 40)):
        th = np.array(c["theta"]) * scale
        I = Ising(n, th[:n], th[n:])
        for k in [k for k in table if k[0] == c["id"]]:
            ctx.replayed += 1
            s = np.array(k[1], r.choice((int, float, np.int8)))
            keep = s.copy()
            de = I.neighbor_dE(s)
            ctx.same("energies", "energy change of every flip", de, np.array(table[k]["de"]) * scale, case=c, state=k[1])
            got = tuple(int(v) for v in I.find_basin(s))
            ctx.true("descent", "the state found is reached by steepest descent", got in basins[k], got=got, allowed=sorted(basins[k]), case=c, state=k[1])
            ctx.same("energies", "energy of the state", I.calc_e(np.array([k[1]]), th), [table[k]["e"] * scale], tol=1e-10 * max(scale, 1.))
            ctx.same("inputs-changed", "state", s, keep)


def front(ctx, r, Ising, c, e01, ex, ex01):
    ctx.replayed += 1
    n = c["n"]
    th = np.array(c["theta"], float) * LN2
    for mk in (np.array, list):
        h, J = mk(th[:n]), mk(th[n:])
        I = Ising(n, h, J)
        ctx.same("parameters", "fields", I.fields(), th[:n])
        ctx.same("parameters", "couplings", I.couplings(), th[n:])
        ctx.same("parameters", "fields in the {0,1} basis", I.fields("0"), np.array(e01[0]) * LN2, tol=1e-12, case=c)
        ctx.same("parameters", "couplings in the {0,1} basis", I.couplings("0"), np.array(e01[1]) * LN2, tol=1e-12, case=c)
        ctx.same("correlations", "means and pair correlations", I.correlations(), np.array(ex["num"]) / ex["z"], tol=1e-10, case=c)
        ctx.same("correlations", "means and pair correlations in the {0,1} basis", I.correlations("0"), np.array(ex01["num"]) / ex01["z"], tol=1e-10, case=c)
        ctx.same("inputs-changed", "fields", h, th[:n])
        ctx.same("inputs-changed", "couplings", J, th[n:])


def defaults(ctx, Ising):
    for n in (2, 4):
        p = n * (n - 1) // 2
        ctx.same("parameters", "no parameters: correlations", Ising(n).correlations(), np.zeros(n + p), tol=1e-12)
        ctx.same("parameters", "scalar fields", Ising(n, .5).fields(), np.zeros(n) + .5)
        ctx.same("parameters", "scalar fields, no couplings", Ising(n, .5).couplings(), np.zeros(p))
        ctx.same("parameters", "scalar couplings", Ising(n, J=-.25).couplings(), np.zeros(p) - .25)
        ctx.same("parameters", "scalar couplings, no fields", Ising(n, J=-.25).fields(), np.zeros(n))
        ctx.same("correlations", "independent spins", Ising(n, .5).correlations(), [np.tanh(.5)] * n + [np.tanh(.5) ** 2] * p, tol=1e-12)
    for bad in (lambda: Ising(3, [1., 2.]), lambda: Ising(3, J=[1., 2.])):
        try:
            bad()
        except AssertionError:
            pass
        else:
            ctx.fail("parameters", "parameters of the wrong number were accepted")


class Draws:
    """Makes the next random number of compiled code (and of numpy) fall where asked."""

    def __init__(self, m=6000):
        from numba import njit

        @njit
        def seed(k):
            np.random.seed(k)

        @njit
        def first(k):
            np.random.seed(k)
            return np.random.rand()
        self._seed = seed
        self.u = np.array([first(k) for k in range(m)])
        self.order = np.argsort(self.u)

    def put(self, x, above):
        """a number as close to x as available; above it or below it. Returns it."""
        i = np.searchsorted(self.u[self.order], x)
        j = i if above else i - 1
        if j < 0 or j >= len(self.order):
            return None
        k = int(self.order[j])
        np.random.seed(k)
        self._seed(k)
        return self.u[k]


def flips(ctx, r, automaton, c, de, draw):
    ctx.replayed += 1
    X = np.array(c["x"], np.int8)
    # energies differ by multiples of ln 2 or of a quarter of it, so that small ones occur too
    part = r.choice((1, .25))
    h = np.array(c["h"], float) * LN2 * part
    J = c["J"] * LN2 * part
    for i in range(X.shape[0]):
        for j in range(X.shape[1]):
            d = de[i][j] * part
            for above in (False, True):
                u = draw.put(2. ** -max(d, 0), above)
                if u is None:
                    if d > 0:
                        continue
                    draw.put(.5, False)
                    u = 0.
                if abs(u - 2. ** -d) < 1e-12 or d == 0 and above:
                    continue
                Y = X.copy()
                out = automaton.Ising2D.flip_metropolis(i, j, h[i, j], J, Y)
                want = X.copy()
                if d <= 0 or u < 2. ** -d:
                    want[i, j] *= -1
                ctx.same("metropolis", "site (%d,%d), energy change %.2f ln 2, random number %.5f" % (i, j, d, u), Y, want, case=c)
                ctx.same("metropolis", "returned lattice", out, Y)


def iterate(ctx, r, automaton, q):
    """updates that are certain show which sites were tried how often"""
    for dim in ((2, 3), (4, 3)) if q else ((2, 2), (2, 3), (3, 2), (4, 3), (3, 7), (5, 5), (8, 8)):
        size = dim[0] * dim[1]
        rng = np.random.RandomState(r.randrange(10 ** 6))
        I = automaton.Ising2D(dim, 0., rng=rng)
        other = automaton.Ising2D(dim, 0., rng=np.random.RandomState(0))
        again = automaton.Ising2D(dim, 0., rng=np.random.RandomState(0))
        ctx.same("iterate", "initial lattice from the generator given", other.lattice, again.lattice)
        ctx.equal("iterate", "shape", I.lattice.shape, dim)
        ctx.true("iterate", "spins are -1 and 1", bool((abs(I.lattice) == 1).all()))
        ctx.replayed += 1
        # no energies: every attempt flips
        for k, sweeps in ((size, 1), (2 * size + 1, 3)) if q else ((size, 1), (1, 1), (2 * size, 2), (2 * size + 1, 3)):
            before = I.lattice.copy()
            I.iterate(k)
            ctx.same("iterate", "%d updates of %d sites in sequence: sweeps" % (k, size), I.lattice, before * (-1) ** sweeps)
        for k in (1, 2, 3 * size) if q else (1, 2, size, size + 1, 3 * size):
            before = I.lattice.copy()
            I.iterate(k, systematic=False)
            n = int((I.lattice != before).sum())
            ctx.true("iterate", "%d random updates of %d sites: attempts" % (k, size), n % 2 == k % 2 and n <= k and (k > 1 or n == 1), changed=n)
        # strong fields: every site follows its own, wherever it is tried
        h = np.array([[r.choice((-60., 60.)) for _ in range(dim[1])] for _ in range(dim[0])])
        I = automaton.Ising2D(dim, r.choice((0., 1.)), h=h, rng=rng)
        keep = h.copy()
        I.iterate(size)
        ctx.same("iterate", "every site follows its field", I.lattice, np.sign(h))
        I.lattice *= -1
        I.iterate(40 * size, systematic=False)
        ctx.same("iterate", "random updates reach every site", I.lattice, np.sign(h))
        ctx.same("inputs-changed", "fields", h, keep)
    # a strong ferromagnet keeps an aligned lattice, an antiferromagnet a chequered one
    I = automaton.Ising2D((4, 6), 20.)
    I.lattice[:] = -1
    I.iterate(48)
    I.iterate(100, systematic=False)
    ctx.same("iterate", "aligned ferromagnet", I.lattice, -np.ones((4, 6)))
    I = automaton.Ising2D((4, 6), -20.)
    I.lattice[:] = (-1) ** np.add.outer(range(4), range(6))
    keep = I.lattice.copy()
    I.iterate(48)
    I.iterate(100, systematic=False)
    ctx.same("iterate", "antiferromagnet in a chequered state", I.lattice, keep)
    # a single wrong spin is turned in one sweep
    I = automaton.Ising2D((3, 4), 20., h=1.)
    I.lattice[:] = 1
    I.lattice[1, 2] = -1
    I.iterate(12)
    ctx.same("iterate", "single wrong spin", I.lattice, np.ones((3, 4)))
