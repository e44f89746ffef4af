"""C04: conversions between the {0,1} and {-1,1} bases (spec/Basis.tla)."""
from math import comb
import numpy as np
from scipy.spatial.distance import squareform


def cases(ctx):
    r = ctx.rnd
    out = []
    for n in range(2, 8):
        for K in range(1, min(n, 4) + 1):
            if n > 5 and K > 3:
                continue
            for rep in range(2 if ctx.quick else 12):
                p = [[r.randint(-20, 20) * 2 ** K for _ in range(comb(n, o))] for o in range(1, K + 1)]
                out.append({"id": len(out), "kind": "par", "n": n, "p": p, "x": []})
    # a single interaction switched on
    for n in (3, 4, 5):
        for K in (2, 3):
            for o in range(1, K + 1):
                for q in range(comb(n, o)):
                    p = [[0] * comb(n, z) for z in range(1, K + 1)]
                    p[o - 1][q] = 2 ** K
                    out.append({"id": len(out), "kind": "par", "n": n, "p": p, "x": []})
    for n in (9, 13):
        p = [[r.randint(-20, 20) * 4 for _ in range(comb(n, o))] for o in (1, 2)]
        out.append({"id": len(out), "kind": "par", "n": n, "p": p, "x": []})
    for n in range(1, 10):
        for rep in range(3 if ctx.quick else 15):
            m = r.choice((4, 8, 16))
            out.append({"id": len(out), "kind": "cor", "n": n, "p": [],
                        "x": [[r.randrange(2) for _ in range(n)] for _ in range(m)]})
    return out


def run(ctx):
    cs = cases(ctx)
    res = ctx.tlc("Basis", cases=cs, invariants=["SameModel", "RoundTrip", "MomOK"])
    exp = {r["id"]: r for r in res.records}
    ctx.equal("harness", "cases", len(exp), len(cs))
    ctx.load(ext=False)
    from coniii import utils as u

    def flat(p):
        return np.concatenate([np.asarray(x, float) for x in p])
    for c in cs:
        e, n = exp[c["id"]], c["n"]
        ctx.replayed += 1
        if c["kind"] == "par":
            K = len(c["p"])
            for to in ("11", "01"):
                want = e["to" + to]
                what = "n=%d orders=%d to %s" % (n, K, to)
                if K <= 2 or n == 4:
                    ctx.sample({"what": what, "params": c["p"], "converted": want})
                with ctx.impl("ising_convert_params", what):
                    for mk in (lambda x: np.array(x, float), list):
                        src = [mk(x) for x in c["p"]]
                        keep = [list(x) for x in src]
                        for op in ([src, tuple(src)] if n < 5 else [src]):
                            got = u.ising_convert_params(op, to)
                            ctx.equal("ising_convert_params", what + " number of orders", len(got), K)
                            ctx.same("ising_convert_params", what, flat(got), flat(want), lens=[len(g) for g in got])
                            ctx.equal("ising_convert_params", what + " lengths", [len(g) for g in got], [len(w) for w in want])
                            ctx.same("ising_convert_params", what + " concatenated", u.ising_convert_params(op, to, concat=True), flat(want))
                        ctx.equal("input-changed", what, [list(x) for x in src], keep)
                if K == 2:
                    h, J = np.array(c["p"][0], float), np.array(c["p"][1], float)
                    for form, JJ in (("vector", J.copy()), ("matrix", squareform(J))):
                        with ctx.impl("convert_params", what + " couplings as " + form):
                            hh, J0 = h.copy(), JJ.copy()
                            gh, gJ = u.convert_params(hh, JJ, to)
                            ctx.same("convert_params", what + " fields, couplings as " + form, gh, want[0])
                            ctx.same("convert_params", what + " couplings, as " + form, gJ, want[1])
                            g = u.convert_params(hh, JJ, convert_to=to, concat=True)
                            ctx.same("convert_params", what + " concatenated, couplings as " + form, g, flat(want))
                            for way, ah, aJ in (("integer fields", h.astype(int), JJ), ("integer couplings", h, JJ.astype(int)),
                                                ("integers", h.astype(int), JJ.astype(int)), ("strided", np.repeat(h, 2)[::2], np.asfortranarray(JJ) if JJ.ndim > 1 else np.repeat(JJ, 3)[::3])):
                                ctx.same("convert_params", what + " %s, couplings as %s" % (way, form), u.convert_params(ah, aJ, to, concat=True), flat(want))
                            back = u.convert_params(gh, gJ, "11" if to == "01" else "01", concat=True)
                            ctx.same("convert_params", what + " forth and back", back, flat(c["p"]))
                            ctx.same("input-changed", what, hh, h)
                            ctx.same("input-changed", what, JJ, J0)
        else:
            M = len(c["x"])
            a, b, A, B = (np.array(e[k], float) / M for k in ("m1", "m2", "y1", "y2"))
            # averages that are whole numbers, stored as integers, beside others that are not
            ints(ctx, u, c, n)
            for to, si, ss, wi, ws in (("11", a, b, A, B), ("01", A, B, a, b)):
                what = "correlations n=%d to %s" % (n, to)
                with ctx.impl("convert_corr", what):
                    s1, s2 = si.copy(), ss.copy()
                    for gi, gs in (u.convert_corr(s1, s2, to), u.convert_corr(s1, s2, convert_to=to),
                                   u.convert_corr(s1, s2, convertTo=to)):
                        ctx.same("convert_corr", what + " means", gi, wi)
                        ctx.same("convert_corr", what + " pairs", gs, ws)
                    for g in (u.convert_corr(s1, s2, to, concat=True), u.convert_corr(s1, s2, to, True),
                              u.convert_corr(s1, s2, concat=True, convertTo=to)):
                        ctx.same("convert_corr", what + " concatenated", g, np.concatenate((wi, ws)))
                    ctx.same("input-changed", what, s1, si)
                    ctx.same("input-changed", what, s2, ss)


def ints(ctx, u, c, n):
    """Averages given as integers are the same averages: 0 and 1, or -1 and 1, of states of which all
    agree on a spin (Basis.tla: the moments of one state), and whole pair averages of half means."""
    x = np.array(c["x"][0])
    s = 2 * x - 1
    pairs = lambda y: np.array([y[i] * y[j] for i in range(n) for j in range(i + 1, n)], dtype=int)
    with ctx.impl("convert_corr", "integers, n=%d" % n):
        for to, a, b in (("11", x, s), ("01", s, x)):
            gi, gs = u.convert_corr(a, pairs(a), to)
            ctx.same("convert_corr", "means of one state, integers, to " + to, gi, b)
            ctx.same("convert_corr", "pairs of one state, integers, to " + to, gs, pairs(b))
        # conversion is linear: half the means of x and of its complement
        m = np.full(n, .5)
        half = np.array([.5 * (x[i] == x[j]) for i in range(n) for j in range(i + 1, n)])
        gi, gs = u.convert_corr(np.zeros(n), pairs(s), "01")
        ctx.same("convert_corr", "means of a state and its complement", gi, m)
        ctx.same("convert_corr", "pairs of a state and its complement, integers", gs, half)
        gi, gs = u.convert_corr(np.zeros(n, dtype=int), pairs(s), "01")
        ctx.same("convert_corr", "means of a state and its complement, integers", gi, m)
        ctx.same("convert_corr", "pairs of a state and its complement, all integers", gs, half)
        gi, gs = u.convert_corr(m, half, "11")
        ctx.same("convert_corr", "means of a state and its complement", gi, np.zeros(n))
        ctx.same("convert_corr", "pairs of a state and its complement", gs, pairs(s))
