"""C01: energies and observables of every Hamiltonian helper (spec/Energy.tla)."""
import numpy as np

SC = 8.0  # multipliers are dyadic rationals theta/8


def npar(model, n, k):
    p = n * (n - 1) // 2
    return {"ising": n + p, "sym": p, "triplet": n + p + n * (n - 1) * (n - 2) // 6,
            "potts": n * k + p}[model]


def cases(ctx):
    r = ctx.rnd
    out = []

    def add(model, n, k, dom, states):
        out.append({"id": len(out), "model": model, "n": n, "k": k, "dom": dom,
                    "all": states == "all", "states": [] if states == "all" else states,
                    "theta": [r.randint(-40, 40) for _ in range(npar(model, n, k))]})
    top = 5 if ctx.quick else 7
    for n in range(1, top + 1):
        for dom in ("pm", "01"):
            for model in ("ising", "sym", "triplet"):
                if (model == "sym" and n < 2):
                    continue
                add(model, n, 0, dom, "all")
    for n in range(1, 5):
        for k in range(2, 6):
            if k ** n <= (260 if ctx.quick else 700):
                add("potts", n, k, "k", "all")
    for n, m in ((8, 6), (11, 4), (17, 3), (25, 2), (36, 2)):
        for dom in ("pm", "01"):
            vals = (-1, 1) if dom == "pm" else (0, 1)
            for model in ("ising", "sym") + (("triplet",) if n < 18 else ()):
                add(model, n, 0, dom, [[r.choice(vals) for _ in range(n)] for _ in range(m)])
    for n, k in ((6, 3), (9, 4), (7, 7), (5, 12), (20, 3), (12, 10)):
        add("potts", n, k, "k", [[r.randrange(k) for _ in range(n)] for _ in range(4)])
    if not ctx.quick:
        for rep in range(120):
            n = r.randint(2, 14)
            k = r.randint(2, 9)
            dom = r.choice(("pm", "01"))
            vals = (-1, 1) if dom == "pm" else (0, 1)
            model = r.choice(("ising", "sym", "triplet"))
            add(model, n, 0, dom, [[r.choice(vals) for _ in range(n)] for _ in range(6)])
            add("potts", n, k, "k", [[r.randrange(k) for _ in range(n)] for _ in range(6)])
    return out


def run(ctx):
    cs = cases(ctx)
    res = ctx.tlc("Energy", cases=cs, invariants=["LayoutOK", "LocalOK", "SymOK", "PairOK"])
    ctx.equal("harness", "cases", len(res.records), len(cs))
    coniii = ctx.load(ext=False)
    from coniii import utils, models
    helpers, potts, objs = {}, {}, set()
    with ctx.impl("define-helpers", "constructing the helper functions"):
        helpers["ising"] = utils.define_ising_helper_functions()[:2]
        helpers["triplet"] = utils.define_triplet_helper_functions()
        helpers["sym"] = utils.define_ising_helper_functions_sym()[:2]
    exp = {r["id"]: r for r in res.records}
    for c in cs:
        e = exp[c["id"]]
        model, n, k = c["model"], c["n"], c["k"]
        X = np.array(e["states"], dtype=np.int64).reshape(-1, n)
        th = np.array(c["theta"], dtype=float) / SC
        want_e = np.array(e["e"]) / SC
        want_o = np.array(e["obs"], dtype=float).reshape(len(X), len(th))
        tag = "%s n=%d k=%d %s" % (model, n, k, c["dom"])
        ctx.sample({"case": tag, "state": e["states"][-1], "theta": c["theta"], "energy": e["e"][-1]})
        if model == "potts":
            if k not in potts:
                with ctx.impl("define-helpers", "potts k=%d" % k):
                    potts[k] = utils.define_potts_helper_functions(k)[:2]
            helpers.pop("potts", None)
            if k in potts:
                helpers["potts"] = potts[k]
        if model not in helpers:
            continue
        calc_e, calc_o = helpers[model]
        with ctx.impl("energy-" + model, tag):
            Xc = X.copy()
            ctx.same("observables-" + model, tag + " observables", calc_o(X), want_o, theta=c["theta"])
            ctx.same("energy-" + model, tag + " energies", calc_e(X, th), want_e, tol=1e-12,
                     theta=c["theta"])
            ctx.same("input-" + model, tag + " states left unchanged", X, Xc)
            # one state at a time, and single couplings
            j = ctx.rnd.randrange(len(X))
            ctx.same("energy-" + model, tag + " single state", calc_e(X[j:j + 1].copy(), th),
                     want_e[j:j + 1], tol=1e-12)
            ix = range(len(th)) if (n <= 5 and len(X) < 40) else ctx.rnd.sample(range(len(th)), min(6, len(th)))
            for q in ix:
                u = np.zeros(len(th))
                u[q] = 1.
                ctx.same("energy-" + model, tag + " unit multiplier %d" % q, calc_e(X, u),
                         -want_o[:, q])
            ctx.replayed += len(X)
        if model == "ising":
            with ctx.impl("calc_de", tag):
                for q in (range(len(th)) if n <= 8 else ctx.rnd.sample(range(len(th)), 30)):
                    ctx.same("calc_de", tag + " derivative wrt multiplier %d" % q,
                             utils.calc_de(X, q), -want_o[:, q])
        if model == "ising" and n >= 3 and (n, c["dom"]) in ((3, "01"), (5, "pm"), (11, "01")):
            with ctx.impl("model-energy", "Ising model object n=%d" % n):
                m = models.Ising([th[:n].copy(), th[n:].copy()])
                ctx.same("model-energy", tag + " Ising.calc_e", m.calc_e(X, th), want_e, tol=1e-12)
        if model == "potts" and k == 3 and n in (3, 9):
            with ctx.impl("model-energy", "Potts3 model object n=%d" % n):
                m = models.Potts3([th[:3 * n].copy(), th[3 * n:].copy()])
                ctx.same("model-energy", tag + " Potts3.calc_e", m.calc_e(X, th), want_e, tol=1e-12)
