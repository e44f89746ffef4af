"""C17: coarse-graining (spec/Coarse.tla for columns of data, spec/CoarseLattice.tla for
lattices)."""
import numpy as np
from itertools import combinations

SIMS = {
    "dot": lambda a, b: (a * b).sum(),
    "neg": lambda a, b: -(a * b).sum(),
    "dist": lambda a, b: -abs(a - b).sum(),
    "agree": lambda a, b: (a == b).sum(),
    "none": lambda a, b: 0,
}
COARSE = {
    "sum": lambda X: X.sum(1),
    "sign": lambda X: np.sign(X.sum(1)),
    "prod": lambda X: X.prod(1),
    "max": lambda X: X.max(1),
}


def make_cases(r, count, quick):
    out = []
    for i in range(count):
        n = r.choice((2, 3, 3, 4, 5, 6, 7, 8, 9))
        limit = int(np.ceil(np.log2(n))) - 1     # rounds leave at least two columns
        rows = r.choice((1, 2, 3, 6))
        sim = r.choice(("dot", "dot", "neg", "dist", "agree", "agree", "none" if n < 6 else "dot"))
        if n > 6 or not quick and n > 5:
            rows = r.choice((5, 6, 8))           # few ties
        vals = r.choice(((-1, 1), (-3, -2, -1, 0, 1, 2, 3), (0, 1, 2), (-7, -5, -2, -1, 3, 4, 6, 8)))
        if n > 7:
            vals = (-7, -5, -2, -1, 3, 4, 6, 8)
        if n == 9:
            sim = "dot"
        out.append({"id": i, "x": [[r.choice(vals) for _ in range(n)] for _ in range(rows)], "times": r.randrange(1, limit + 1) if limit > 0 else 0,
                    "sim": sim, "coarse": r.choice(list(COARSE))})
    return [c for c in out if c["times"] > 0]


def lattices(r, count):
    out = []
    for f in (16, 12, 200):      # blocks whose sum exceeds what a byte (or two) can hold
        for v in (1, -1):
            out.append({"id": len(out), "x": [[v] * f for _ in range(f)], "f": f})
    out.append({"id": len(out), "x": [[1] * 26 for _ in range(13)], "f": 13})
    for i in range(count):
        f = r.choice((1, 2, 2, 3, 4))
        shape = (f * r.randrange(1, 5) + r.randrange(f), f * r.randrange(1, 5) + r.randrange(f))
        out.append({"id": len(out), "x": [[r.choice((-1, 1)) for _ in range(shape[1])] for _ in range(shape[0])], "f": f})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    cases = make_cases(r, 400 if q else 3000, q)
    lat = lattices(r, 300 if q else 3000)
    res = ctx.tlc("Coarse", cases=cases, invariants=["Partition", "Sizes", "NoneBetter", "ColumnOfGroup"], properties=["Finishes"])
    allowed = {}
    for x in res.records:
        allowed.setdefault(x["id"], set()).add(canon([(g["g"], g["col"]) for g in x["groups"]]))
    el = {x["id"]: x["y"] for x in ctx.tlc("CoarseLattice", cases=lat, invariants=["Majority", "Odd"]).records}
    ctx.load(ext=False)
    from coniii import utils
    from coniii.ising import automaton
    ctx.sample({"case": cases[0], "allowed": len(allowed[cases[0]["id"]])})
    ctx.extra["cases_with_ties"] = sum(1 for a in allowed.values() if len(a) > 1)
    for c in cases:
        with ctx.impl("columns", "%d columns, %d rounds" % (len(c["x"][0]), c["times"])):
            columns(ctx, r, utils, c, allowed[c["id"]])
    with ctx.impl("columns", "no rounds"):
        X = np.array([[1, -1, 1], [1, 1, -1]])
        Y, g = utils.coarse_grain_with_func(X, 0, lambda X: np.zeros(3), COARSE["sum"])
        ctx.same("columns", "no rounds: data unchanged", Y, X)
        ctx.equal("columns", "no rounds: every column on its own", [list(map(int, x)) for x in g], [[0], [1], [2]])
    ties = []
    for c in lat:
        with ctx.impl("lattice", "%s by %d" % (np.shape(c["x"]), c["f"])):
            lattice(ctx, r, automaton, c, np.array(el[c["id"]]), ties)
    if not ctx.violations:
        with ctx.impl("ties", "direction of ties"):
            ctx.true("ties", "a tie takes either direction", len(ties) < 200 or .3 < np.mean(np.array(ties) > 0) < .7, up=float(np.mean(np.array(ties) > 0)))


def canon(groups):
    return tuple(sorted((tuple(sorted(int(i) for i in g)), tuple(float(v) for v in col)) for g, col in groups))


# the pairing depends on the order of the similarities alone, whatever their size
SCALES = {"plain": lambda s: s, "close": lambda s: 1 / 3 + 1e-12 * s, "large": lambda s: 1e300 * s, "small": lambda s: 1e-300 * s,
          "low": lambda s: s - 1e9, "float32": lambda s: np.float32(s)}


def columns(ctx, r, utils, c, allowed):
    for dtype, scale in ((int, "plain"), (float, "plain"), (r.choice((int, float)), r.choice(list(SCALES)[1:]))):
        ctx.replayed += 1
        X = np.array(c["x"], dtype)
        keep = X.copy()
        seen = []

        def sim(Y):
            Y = np.asarray(Y)
            seen.append(Y.copy())
            return np.array([SCALES[scale](SIMS[c["sim"]](Y[:, i], Y[:, j])) for i, j in combinations(range(Y.shape[1]), 2)])
        Y, groups = utils.coarse_grain_with_func(X, c["times"], sim, COARSE[c["coarse"]])
        ctx.same("inputs-changed", "data", X, keep)
        Y = np.asarray(Y)
        ctx.equal("columns", "as many groups as columns", len(groups), Y.shape[1])
        ctx.equal("columns", "rows", Y.shape[0], X.shape[0])
        got = canon([([i + 1 for i in g], Y[:, j]) for j, g in enumerate(groups)])
        ctx.true("columns", "groups and coarse columns are among those of the greedy pairing", got in allowed, got=got, allowed=sorted(allowed)[:3], similarities=scale, case=c)
        flat = sorted(int(i) for g in groups for i in g)
        ctx.equal("columns", "every column kept once", flat, list(range(X.shape[1])))


def lattice(ctx, r, automaton, c, want, ties):
    for dtype in (np.int8, np.int64):
        ctx.replayed += 1
        X = np.array(c["x"], dtype)
        keep = X.copy()
        Y = np.asarray(automaton.coarse_grain(X, c["f"]))
        ctx.same("inputs-changed", "lattice", X, keep)
        if not ctx.equal("lattice", "shape", Y.shape, want.shape, case=c if len(c["x"]) < 20 else c["f"]):
            return
        ctx.same("lattice", "block majorities", np.where(want == 0, 0, Y), want, case=c if len(c["x"]) < 20 else c["f"])
        t = Y[want == 0]
        ctx.true("lattice", "ties become -1 or 1", bool(np.isin(t, (-1, 1)).all()), got=Y, case=c if len(c["x"]) < 20 else c["f"])
        ties.extend(t.tolist())
