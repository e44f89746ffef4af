"""C23: the Heisenberg model and Hamiltonian Monte Carlo (spec/Heisenberg.tla, HeisTable.tla, HMC.tla)."""
import numpy as np
from scipy.stats import chi2
from stub import level_u

LN2 = np.log(2.)
Q = np.pi / 2


def table_cases(r, q):
    out = []
    for n in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7):
        for rep in range(60 if q else 600):
            m = n * (n - 1) // 2
            lim = r.choice((1, 3, 9))
            wide = r.choice((4, 4, 13))
            out.append({"id": len(out), "x": [r.randrange(-wide, wide) for _ in range(2 * n)],
                        "theta": [r.randint(-lim, lim) for _ in range(m)],
                        "k": [r.choice((-2, -1, 0, 0, 1, 2, 3)) for _ in range(2 * n)],
                        "u": [r.randint(-5, 5) for _ in range(3)], "v": [r.randint(-5, 5) for _ in range(3)]})
    # every configuration of two spins
    if not q:
        for x in range(4 ** 4):
            out.append({"id": len(out), "x": [x // 4 ** d % 4 for d in range(4)], "theta": [3], "k": [1, 0, 2, 1], "u": [1, 0, 0], "v": [0, 1, 0]})
    return out


def hmc_cases(r, q):
    out = []
    for x in range(60 if q else 600):
        n = r.choice((2, 3, 4))
        rounds, steps = r.choice((1, 3, 6)), r.choice((1, 2, 3, 5))
        out.append({"id": x, "theta": [r.randint(-3, 3) for _ in range(n * (n - 1) // 2)], "steps": steps,
                    "x": [r.choice((0, 2)) if d % 2 == 0 else r.randrange(4) for d in range(2 * n)],
                    "moves": [[r.choice((-2, 0, 0, 2, 4)) if d % 2 == 0 else r.randrange(-2, 3) for d in range(2 * n)] for _ in range(rounds)],
                    "levels": [r.choice((0, 1, 2, 5)) for _ in range(rounds)]})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    tc, hc = table_cases(r, q), hmc_cases(r, q)
    tab = {x["id"]: x for x in ctx.tlc("HeisTable", cases=tc, invariants=["HalfDifference", "UnitVectors", "Rotation", "TwoNames", "Reversible", "CrossLaws"]).records}
    log = {x["id"]: x["log"] for x in ctx.tlc("HMC", cases=hc, invariants=["EnergyKept", "NoForce", "NoForceOnPath"], properties=["RejectStays", "Bounded"]).records}
    ctx.load(ext=False)
    from coniii import samplers
    ctx.sample({"case": hc[1], "rounds": log[1]})
    with ctx.impl("energies"):
        for c in tc:
            energies(ctx, samplers, c, tab[c["id"]])
    with ctx.impl("between", "angles that are not quarter turns"):
        between(ctx, samplers, r)
    with ctx.impl("leap"):
        for c in tc:
            leap(ctx, r, samplers, c, tab[c["id"]])
    with ctx.impl("rounds"):
        for c in hc:
            rounds(ctx, samplers, c, log[c["id"]])
    with ctx.impl("rounds", "together or one by one"):
        compose(ctx, samplers)
    with ctx.impl("conserve"):
        conserve(ctx, samplers)
    with ctx.impl("nearby"):
        nearby(ctx, r, samplers, tc, tab)


def energies(ctx, samplers, c, rec):
    ctx.replayed += 1
    x, th = np.array(c["x"]) * Q, np.array(c["theta"], float)
    kx, kt = x.copy(), th.copy()
    ctx.same("energy", "energy", samplers.calc_e(th, x), rec["e"], tol=1e-9, case=c)
    ctx.same("gradient", "derivatives by the angles", samplers.grad_e(th, x), rec["grad"], tol=1e-9, case=c)
    ctx.same("gradient", "derivatives by the couplings", samplers.grad_e_theta(th, x), rec["gth"], tol=1e-9, case=c)
    ctx.same("inputs-changed", "angles", x, kx)
    ctx.same("inputs-changed", "couplings", th, kt)
    u, v = np.array(c["u"], float), np.array(c["v"], float)
    ctx.same("cross", "cross product", samplers.cross(u, v), rec["cross"], case=c)
    out = np.full(3, 7.)
    got = samplers.cross_(u, v, out)
    ctx.same("cross", "cross product in a given array", got, rec["cross"], case=c)
    ctx.same("cross", "array given", out, rec["cross"], case=c)
    ctx.same("inputs-changed", "vectors", [u, v], [c["u"], c["v"]])
    # the array given may be one of the two
    for name, a, b in (("first", 0, 1), ("second", 1, 0)):
        w = [u.copy(), v.copy()]
        samplers.cross_(w[0], w[1], w[a])
        ctx.same("cross", "cross product written over the %s vector" % name, w[a], rec["cross"], case=c)
        ctx.same("inputs-changed", "the other vector", w[b], (c["u"], c["v"])[b])


def between(ctx, samplers, r):
    """The energy is a first-degree trigonometric polynomial in each angle: its value anywhere
    follows from its values on quarter turns (already compared)."""
    rng = np.random.RandomState(r.randrange(2 ** 31))
    for n in (2, 3, 4, 6):
        for _ in range(10 if ctx.quick else 100):
            ctx.replayed += 1
            th = rng.normal(size=n * (n - 1) // 2) * 3
            x = rng.uniform(-4, 4, size=2 * n)
            e = samplers.calc_e(th, x)
            g = samplers.grad_e(th, x)
            up, dn, mid = np.zeros((3, 2 * n))
            for d in range(2 * n):
                y = x.copy()
                y[d] += Q
                up[d] = samplers.calc_e(th, y)
                y[d] -= 2 * Q
                dn[d] = samplers.calc_e(th, y)
                y = x.copy()
                a = rng.uniform(-3, 3)
                y[d] = x[d] + a
                z = x.copy()
                z[d] += np.pi
                k = (e + samplers.calc_e(th, z)) / 2
                mid[d] = samplers.calc_e(th, y) - (k + (e - k) * np.cos(a) + (up[d] - dn[d]) / 2 * np.sin(a))
            ctx.same("gradient", "derivatives are half the differences a quarter turn either side", g, (up - dn) / 2, tol=1e-9, theta=th, x=x)
            ctx.same("energy", "energy between quarter turns", mid, np.zeros(2 * n), tol=1e-9, theta=th, x=x)
            ctx.same("energy", "energy and its derivatives by the couplings", samplers.grad_e_theta(th, x).dot(th), e, tol=1e-9, theta=th, x=x)
            v = np.array([[np.sin(t) * np.cos(f), np.sin(t) * np.sin(f), np.cos(t)] for t, f in x.reshape(-1, 2)])
            ctx.same("energy", "energy of the vectors", e, -sum(t * v[i].dot(v[j]) for t, (i, j) in zip(th, ((i, j) for i in range(n) for j in range(i + 1, n)))), tol=1e-9)


def step(samplers, th, x, dt, steps, momenta, us):
    y = np.array(x, float)
    samplers.jit_sample(np.array(th, float), y, len(us), dt, steps, np.array(momenta, float), np.array(us, float))
    return y


def leap(ctx, r, samplers, c, rec):
    """One leapfrog step, with forces: accepted or not on either side of exp(-change)."""
    x, th, k = np.array(c["x"]) * Q, np.array(c["theta"], float), np.array(c["k"])
    for scale, dt in ((.125, .5), (1., .01)):
        ctx.replayed += 1
        g = np.array(rec["grad"]) * scale
        p = dt * g / 2 + k * Q / dt
        d = scale * (rec["leap"]["de"] - rec["leap"]["a"] * np.pi / 4) + scale ** 2 * rec["leap"]["b"] * dt ** 2 / 8
        end = np.array(rec["y"]) * Q
        for u in ([np.exp(-d) * .99, np.exp(-d) * 1.01] if d > 1e-3 else [.999]):
            if u >= 1 or u < 1e-290:
                continue
            want = end if d < 0 or u < np.exp(-d) else x
            ctx.same("leap", "position after one leapfrog step, change %.4f, draw %.4f" % (d, u),
                     step(samplers, th * scale, x, dt, 1, [p], [u]), want, tol=1e-7, case=c, scale=scale, dt=dt)


def rounds(ctx, samplers, c, log):
    x = np.array(c["x"]) * Q
    th = np.array(c["theta"], float) * LN2
    for m in range(1, len(c["moves"]) + 1):
        ctx.replayed += 1
        got = step(samplers, th, x, .5, c["steps"], np.array(c["moves"][:m]) * Q / .5, [level_u(v) for v in c["levels"][:m]])
        if not ctx.same("rounds", "position after %d rounds" % m, got, np.array(log[m - 1]["x"]) * Q, tol=1e-7, case=c):
            return


def compose(ctx, samplers):
    """What a round does depends on the position alone (HMC.tla: Round reads x and its energy), so
    rounds made in one call and one call per round agree, whichever of them are rejected."""
    rng = np.random.RandomState(ctx.rnd.randrange(2 ** 31))
    for rep in range(60 if ctx.quick else 600):
        ctx.replayed += 1
        n, m, steps, dt = 2 + rep % 3, 6, rng.randint(1, 5), .2 + .4 * rng.rand()
        th, x = rng.normal(size=n * (n - 1) // 2) * 2, rng.uniform(.3, 2.8, size=2 * n)
        p, u = rng.normal(size=(m, 2 * n)), rng.choice([0., .5, 1.], size=m)
        one, kept = x, 0
        for k in range(m):
            y = step(samplers, th, one, dt, steps, p[k:k + 1], u[k:k + 1])
            kept += np.array_equal(y, one)
            one = y
        ctx.count("rejected", int(kept))
        ctx.count("accepted", int(m - kept))
        ctx.same("rounds", "rounds in one call and in one call each", step(samplers, th, x, dt, steps, p, u), one, tol=1e-9, theta=th, x=x, momenta=p, draws=u, dt=dt, steps=steps)


def conserve(ctx, samplers):
    """Short steps keep the total energy: the path's end is taken at a draw just below one, and
    its reverse leads back."""
    rng = np.random.RandomState(ctx.rnd.randrange(2 ** 31))
    for n in (2, 3, 4):
        for _ in range(20 if ctx.quick else 200):
            ctx.replayed += 1
            th = rng.normal(size=n * (n - 1) // 2) * 2
            x = rng.uniform(.3, 2.8, size=2 * n)
            p = rng.normal(size=2 * n) * 2
            y = step(samplers, th, x, 1e-3, 40, [p], [1 - 2e-3])
            ctx.true("conserve", "a path of short steps was not taken although it keeps the energy", not np.array_equal(x, y), theta=th, x=x, p=p)
            # momenta at the end, from the kick at the end of the same path continued
            H = lambda x, p: p.dot(p) / 2 + samplers.calc_e(th, x)
            a, b = x.copy(), p.copy()
            for _s in range(40):
                b = b - .5e-3 * samplers.grad_e(th, a)
                a = a + 1e-3 * b
                b = b - .5e-3 * samplers.grad_e(th, a)
            ctx.same("conserve", "end of the path", y, a, tol=1e-9, theta=th, x=x, p=p)
            ctx.true("conserve", "total energy along the path", abs(H(a, b) - H(x, p)) < 1e-3)
            ctx.same("conserve", "the reversed path leads back", step(samplers, th, y, 1e-3, 40, [-b], [1 - 2e-3]), x, tol=1e-9, theta=th, x=x, p=p)


def nearby(ctx, r, samplers, tc, tab):
    rng = np.random.RandomState(r.randrange(2 ** 31))
    dirs = [(c["x"][0] * Q, c["x"][1] * Q, tab[c["id"]]["vec"][0]) for c in tc[:40]]
    for ot, op, v in dirs:
        ctx.replayed += 1
        for m in (1, 2, 9):
            ctx.same("nearby", "no spread: the vector itself", samplers.jit_sample_nearby_vector(rng.randint(2 ** 31), np.array(v, float), m, ot, op, 0.), [v] * m, tol=1e-9)
    for rep in range(8 if ctx.quick else 60):
        ctx.replayed += 1
        ot, op, sg = rng.uniform(0, np.pi), rng.uniform(-np.pi, np.pi), (1e-3, .05, .3)[rep % 3]
        v = np.array([np.sin(ot) * np.cos(op), np.sin(ot) * np.sin(op), np.cos(ot)])
        m = 4000
        seed = rng.randint(2 ** 31)
        S = samplers.jit_sample_nearby_vector(seed, v, m, ot, op, sg)
        if not ctx.equal("nearby", "shape", S.shape, (m, 3)):
            return
        ctx.same("nearby", "the same seed gives the same vectors", samplers.jit_sample_nearby_vector(seed, v, m, ot, op, sg), S)
        ctx.same("nearby", "lengths", (S ** 2).sum(1), np.ones(m), tol=1e-9)
        a = np.arctan2(np.sqrt(((S - np.outer(S.dot(v), v)) ** 2).sum(1)), S.dot(v)) / sg
        x2 = (a ** 2).sum()
        ctx.true("nearby", "spread of the angles", 1e-9 < chi2.sf(x2, m) < 1 - 1e-9, got=x2, want=m, sigma=sg)
        f = np.array([np.abs(a) > t for t in (.5, 1, 2)]).mean(1)
        w = np.array([.6170751, .3173105, .0455003])
        ctx.true("nearby", "the angles are normally distributed", (np.abs(f - w) < 6.5 * np.sqrt(w * (1 - w) / m)).all(), got=f, want=w)
        # direction about v is uniform
        e1 = np.array([np.cos(ot) * np.cos(op), np.cos(ot) * np.sin(op), -np.sin(ot)])
        e2 = np.cross(v, e1)
        z = (S.dot(e1) + 1j * S.dot(e2))
        z = z / np.maximum(np.abs(z), 1e-300)
        for k in (1, 2):
            ctx.true("nearby", "directions about the vector are uniform", abs((z ** k).mean()) < 6.5 / np.sqrt(m), got=abs((z ** k).mean()))
