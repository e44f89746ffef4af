"""C03: enumerations of states, digit strings and neighbourhoods (spec/States.tla)."""
import itertools
import numpy as np

DIG = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def cases(ctx):
    r = ctx.rnd
    out = []

    def add(kind, n, k, v=(), s=()):
        out.append({"id": len(out), "kind": kind, "n": n, "k": k, "v": list(v), "s": [list(x) for x in s]})
    for n in range(1, 10 if ctx.quick else 12):
        add("enum", n, 2)
    for k in range(3, 37):
        for n in range(1, 8):
            if k ** n <= (800 if ctx.quick else 3000):
                add("enum", n, k)
    top = 2 ** 31 - 1
    for b in range(2, 37):
        v = set(range(0, 3 * b + 2))
        e = 1
        while b ** e <= top:
            p = b ** e
            for m in {1, 2, b - 1, r.randint(1, b - 1)}:
                v |= {m * p - 1, m * p, m * p + 1}
            v.add(p + r.randrange(p))
            e += 1
        v |= {r.randrange(top) for _ in range(20 if ctx.quick else 300)}
        v |= {top, top - 1}
        add("repr", 0, b, sorted(x for x in v if 0 <= x <= top))
    for n in range(1, 7):
        add("adj", n, 1, s=itertools.product((0, 1), repeat=n))
        add("adj", n, 0, s=itertools.product((-1, 1), repeat=n))
    for n in (9, 16, 33):
        add("adj", n, 1, s=[[r.randrange(2) for _ in range(n)] for _ in range(5)])
        add("adj", n, 0, s=[[r.choice((-1, 1)) for _ in range(n)] for _ in range(5)])
    return out


def run(ctx):
    cs = cases(ctx)
    res = ctx.tlc("States", cases=cs, invariants=["CounterOK", "Distinct", "ReprOK", "AdjOK"])
    exp = {r["id"]: r for r in res.records}
    ctx.equal("harness", "cases", len(exp), len(cs))
    ctx.load(ext=False)
    from coniii import utils as u
    ctx.rnd.shuffle(cs)
    cs.sort(key=lambda c: c["kind"])
    for c in cs:
        e, n, k = exp[c["id"]]["s"], c["n"], c["k"]
        ctx.replayed += len(e)
        if c["kind"] == "enum":
            what = "%d spins of %d states" % (n, k)
            want = np.array(e).reshape(-1, n)
            if k == 2:
                with ctx.impl("bin_states", what):
                    ctx.same("bin_states", what, u.bin_states(n), want)
                    ctx.same("bin_states", what + " sym", u.bin_states(n, sym=True), 2 * want - 1)
                    ctx.same("bin_states", what + " sym", u.bin_states(n, True), 2 * want - 1)
                with ctx.impl("xbin_states", what):
                    for sym in (False, True):
                        rows = list(u.xbin_states(n, sym))  # kept alive together: rows must not alias
                        ctx.same("xbin_states", what + " sym=%s" % sym, np.array(rows), (2 * want - 1) if sym else want)
            with ctx.impl("xpotts_states", what):
                got = ["".join(x) for x in u.xpotts_states(n, k)]
                ctx.equal("xpotts_states", what, got, ["".join(DIG[d] for d in x) for x in e])
        elif c["kind"] == "repr":
            with ctx.impl("base_repr", "base %d" % k):
                for v, d in zip(c["v"], e):
                    if not ctx.equal("base_repr", "%d in base %d" % (v, k), "".join(u.base_repr(v, k)), "".join(DIG[x] for x in d)):
                        break
        else:
            f, vals = (u.adj_sym, (-1, 1)) if k == 0 else (u.adj, (0, 1))
            name = f.__name__
            for x, (s, want) in enumerate(zip(c["s"], e)):
                with ctx.impl(name, str(s)):
                    for dt in (np.int64, np.float64) if n < 4 else (np.int64,):
                        a = np.array(s, dtype=dt)
                        got = f(a)
                        ctx.same(name, "neighbours of %s" % s, got, want)
                        ctx.same("input-changed", name, a, s)
                    if n >= 2 and x < 8:
                        m = ctx.rnd.randint(1, 4)
                        got = f(a, m)
                        ctx.equal(name, "number of neighbours", got.shape, (n + m, n))
                        ctx.same(name, "one-flip neighbours of %s" % s, got[:n], want)
                        ctx.true(name, "random neighbours of %s are states different from it" % s,
                                 set(np.unique(got)) <= set(vals) and all((g != a).any() for g in got[n:]), got=got)
                        ctx.same("input-changed", name, a, s)
    wide(ctx, u)
    with ctx.impl("random-neighbours"):
        # random neighbours are random: all states except the given one turn up
        for f, vals in ((u.adj, (0, 1)), (u.adj_sym, (-1, 1))):
            a = np.array([vals[1], vals[0]])
            got = {tuple(x) for x in f(a, 400)[2:]}
            want = set(itertools.product(vals, repeat=2)) - {tuple(a)}
            ctx.equal("random-neighbours", f.__name__, got, {tuple(float(y) for y in x) for x in want})


def wide(ctx, u):
    """States.tla: the first row is all zeros, and each next row is the one before plus one (CounterOK),
    for numbers of spins whose table is too large to be emitted."""
    for n in (16, 17) if ctx.quick else (16, 17, 18):
        with ctx.impl("bin_states", "%d spins" % n):
            for sym in (False, True):
                got = u.bin_states(n, sym)
                ctx.replayed += 1
                if not ctx.equal("bin_states", "shape of the states of %d spins" % n, got.shape, (2 ** n, n)):
                    continue
                b = (got + 1) // 2 if sym else got
                ctx.true("bin_states", "entries of the states of %d spins" % n, set(np.unique(got)) == ({-1, 1} if sym else {0, 1}))
                val = b.astype(np.int64).dot(2 ** np.arange(n, dtype=np.int64)[::-1])
                ctx.true("bin_states", "each state of %d spins is the one before plus one" % n, val[0] == 0 and (np.diff(val) == 1).all())
        with ctx.impl("xbin_states", "%d spins" % n):
            for sym in (False, True):
                rows = []
                for x, row in enumerate(u.xbin_states(n, sym)):
                    rows.append(row)
                rows = np.array(rows)
                if ctx.equal("xbin_states", "shape of the states of %d spins" % n, rows.shape, (2 ** n, n)):
                    val = ((rows + 1) // 2 if sym else rows).astype(np.int64).dot(2 ** np.arange(n, dtype=np.int64)[::-1])
                    ctx.true("xbin_states", "each state of %d spins is the one before plus one" % n, val[0] == 0 and (np.diff(val) == 1).all())
    # far more spins than can be enumerated: the iterator starts all the same, and goes on in order
    for n in (40, 70):
        with ctx.impl("xbin_states", "%d spins" % n):
            rows = list(itertools.islice(u.xbin_states(n), 70))
            ctx.equal("xbin_states", "first states of %d spins" % n, [int("".join(str(int(y)) for y in x), 2) for x in rows], list(range(70)))
            ctx.equal("xbin_states", "lengths", {len(x) for x in rows}, {n})
