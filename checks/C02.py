"""C02: index maps and matrix layouts (spec/Index.tla)."""
import numpy as np


def cases(ctx):
    r = ctx.rnd
    out = []

    def add(kind, n, k=0, **kw):
        c = {"id": len(out), "kind": kind, "n": n, "k": k, "vec": [], "mat": [], "cl": []}
        c.update(kw)
        out.append(c)
    for n in list(range(2, 14)) + [17, 24, 31, 50] + ([] if ctx.quick else [80, 120]):
        add("pairs", n)
    for n in range(1, 9 if ctx.quick else 12):
        for k in range(1, min(n, 6) + 1):
            add("tuples", n, k)
    add("tuples", 12, 3)
    add("tuples", 11, 4)
    add("tuples", 20, 3)
    for n in range(1, 9):
        for rep in range(3 if ctx.quick else 20):
            p = n * (n + 1) // 2
            v = r.sample(range(-99, 100), p)
            m = [r.sample(range(-999, 1000), n) for _ in range(n)]
            cl = r.sample(range(1, n + 1), r.randint(1, n))
            if rep == 0:
                cl = sorted(cl)
            add("mat", n, vec=v, mat=m, cl=cl)
    for n in range(1, 10):
        for k in range(1, min(n, 5) + 1):
            add("split", n, k)
    for p in ([1, 1], [3, 3, 3], [0, 4], [5, 7], [2, 0, 3], [1] * 7, [10, 9], [6, 6, 2], [1, 15], [4, 4, 4]):
        add("multi", 0, cl=p)
    if not ctx.quick:
        for _ in range(60):
            p = [r.randint(0, 5) for _ in range(r.randint(1, 4))]
            if 0 < sum(p) <= 16:
                add("multi", 0, cl=p)
    return out


def run(ctx):
    cs = cases(ctx)
    res = ctx.tlc("Index", cases=cs, invariants=["PairBijection", "RankOK", "RoundTrip", "DiagBijection"])
    exp = {r["id"]: r for r in res.records}
    ctx.equal("harness", "cases", len(exp), len(cs))
    ctx.load(ext=False)
    from coniii import utils as u, mean_field_ising as mf
    for c in cs:
        e, n, k = exp[c["id"]], c["n"], c["k"]
        ctx.replayed += 1
        if c["kind"] == "pairs":
            with ctx.impl("pair-index", "n=%d" % n):
                for q, (i, j) in enumerate(e["pairs"]):
                    if not (ctx.equal("sub_to_ind", "place of pair (%d,%d), n=%d" % (i, j, n), int(u.sub_to_ind(n, i, j)), q)
                            and ctx.equal("sub_to_ind", "place of pair (%d,%d), n=%d" % (j, i, n), int(u.sub_to_ind(n, j, i)), q)):
                        break
                    if n <= 31 and not ctx.equal("ind_to_sub", "pair at place %d, n=%d" % (q, n), [int(x) for x in u.ind_to_sub(n, q)], [i, j]):
                        break
                    if not ctx.equal("unravel_index", "place of (%d,%d), n=%d" % (i, j, n), int(u.unravel_index((i, j), n)), q):
                        break
        elif c["kind"] == "tuples":
            ctx.sample({"n": n, "order": k, "last": e["t"][-1], "place": len(e["t"]) - 1})
            with ctx.impl("unravel_index", "n=%d order %d" % (n, k)):
                for q, t in enumerate(e["t"]):
                    if not ctx.equal("unravel_index", "place of %s, n=%d" % (t, n), int(u.unravel_index(tuple(t), n)), q):
                        break
                if k == 1:
                    ctx.equal("unravel_index", "place of a single index", int(u.unravel_index(n - 1, n)), n - 1)
        elif c["kind"] == "split":
            b = e["bounds"]
            p = np.arange(b[-1]) * 1.5
            with ctx.impl("split", "n=%d orders %d" % (n, k)):
                for vec in (p, list(p)):
                    got = u.split_concat_params(vec, n)
                    ctx.equal("split", "number of orders, n=%d" % n, len(got), k)
                    for x in range(k):
                        ctx.same("split", "order %d of n=%d" % (x + 1, n), got[x], p[b[x]:b[x + 1]])
        elif c["kind"] == "multi":
            with ctx.impl("multinomial", str(c["cl"])):
                ctx.equal("multinomial", "multinomial of %s" % c["cl"], u.multinomial(sum(c["cl"]), *c["cl"]), e["value"])
        else:
            v, m = np.array(c["vec"], float), np.array(c["mat"], float).reshape(n, n)
            v0, m0 = v.copy(), m.copy()
            what = "n=%d case %d" % (n, c["id"])
            cl = [x - 1 for x in c["cl"]]
            sym = np.array(e["sym"], float)
            with ctx.impl("vec2mat", what):
                ctx.same("vec2mat", what, u.vec2mat(v), e["v2m"])
                h, J = u.vec2mat(v, separate_fields=True)
                ctx.same("vec2mat", what + " fields", h, v0[:n])
                ctx.same("vec2mat", what + " couplings", J, np.array(e["v2m"]) - np.diag(v0[:n]))
            with ctx.impl("vec2mat", what + " integers"):
                vi = v0.astype(int)
                ctx.same("vec2mat", what + " integers", u.vec2mat(vi), e["v2m"])
                h, J = u.vec2mat(np.concatenate((v0, v0))[:len(v0)], separate_fields=True)
                ctx.same("vec2mat", what + " view", h, v0[:n])
                ctx.same("input-changed", "vec2mat " + what, vi, v0)
                ctx.same("mat2vec", what + " integers", u.mat2vec(sym.astype(int)), e["m2v"])
                ctx.same("mat2vec", what + " transposed storage", u.mat2vec(np.asfortranarray(sym)), e["m2v"])
            with ctx.impl("mat2vec", what):
                s = sym.copy()
                ctx.same("mat2vec", what, u.mat2vec(s), e["m2v"])
                ctx.same("input-changed", "mat2vec " + what, s, sym)
            with ctx.impl("diagonals", what):
                for f in (u.replace_diag, mf.replaceDiag):
                    ctx.same("replace_diag", what, f(m, v[:n]), e["rep"])
                    # whatever the numbers of the matrix and of the diagonal are stored as
                    ctx.same("replace_diag", what + " integer matrix, halved diagonal", f(m.astype(int), v[:n] / 2), np.array(e["zero"]) + np.diag(v[:n] / 2))
                    ctx.same("replace_diag", what + " integers", f(m.astype(int), v[:n].astype(int)), e["rep"])
                    ctx.same("replace_diag", what + " transposed storage", f(np.asfortranarray(m), np.repeat(v[:n], 2)[::2]), e["rep"])
                for f in (u.zero_diag, mf.zeroDiag):
                    ctx.same("zero_diag", what + " integers", f(m.astype(int)), e["zero"])
                    ctx.same("zero_diag", what, f(m), e["zero"])
            with ctx.impl("aboveDiagFlat", what):
                if n > 1:  # nothing lies above the diagonal of a single entry
                    ctx.same("aboveDiagFlat", what, mf.aboveDiagFlat(m), e["above"])
                ctx.same("aboveDiagFlat", what + " with diagonal", mf.aboveDiagFlat(m, keepDiag=True), e["abovek"])
                if n > 1:
                    ctx.same("aboveDiagFlat", what + " doubled", mf.aboveDiagFlat(m, offDiagMult=2), e["above2"])
                ctx.same("aboveDiagFlat", what + " with diagonal, doubled", mf.aboveDiagFlat(m, keepDiag=True, offDiagMult=2), e["abovek2"])
            with ctx.impl("unflatten", what):
                ctx.same("unflatten", what, mf.unflatten(v, n), e["unflat"])
                ctx.same("unflatten", what + " symmetrized", mf.unflatten(v, n, symmetrize=True), np.array(e["unflat2"]) / 2)
                for i in range(n):
                    row = e["diagix"][i]
                    row = row if isinstance(row, list) else [row[str(j + 1)] for j in range(i, n)]
                    for j in range(i, n):
                        ctx.equal("diagFlatIndex", what, int(mf.diagFlatIndex(i, j, n)), row[j - i])
            with ctx.impl("cluster", what):
                ctx.same("coocCluster", what + " %s" % cl, mf.coocCluster(m, cl), e["cut"])
                ctx.same("JfullFromCluster", what + " %s" % cl, mf.JfullFromCluster(m[np.ix_(cl, cl)], cl, n), e["embed"])
                ctx.same("symmetrizeUsingUpper", what, mf.symmetrizeUsingUpper(m), e["sym"])
            ctx.same("input-changed", "matrix " + what, m, m0)
            ctx.same("input-changed", "vector " + what, v, v0)
