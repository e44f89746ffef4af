"""C06: exact enumeration equations, shipped and newly written (spec/Ensemble.tla)."""
import importlib, importlib.util, os, shutil, subprocess, sys
from itertools import combinations
import numpy as np

TOL = 1e-9


def tuples(n, orders):
    return [[i + 1 for i in t] for o in orders for t in combinations(range(n), o)]


def boltz(table, theta):
    a = table @ theta
    p = np.exp(a - a.max())
    p /= p.sum()
    return p, p @ table


def int_theta(r, npar, budget):
    th = [0] * npar
    for _ in range(budget):
        th[r.randrange(npar)] += r.choice((-1, 1))
    return th


def run(ctx):
    r = ctx.rnd
    q = ctx.quick
    jobs = []   # (name, how, case)

    def add(name, how, n, dom, orders=None, k=0, terms=None, exact=True):
        t = terms if terms is not None else (tuples(n, orders) if dom != "k" else [])
        npar = len(t) if dom != "k" else n * k + n * (n - 1) // 2
        size = (k ** n if dom == "k" else 2 ** n)
        jobs.append((name, how, {"id": len(jobs), "n": n, "k": k, "dom": dom, "terms": t,
                                 "theta": int_theta(r, npar, 8) if exact and size * npar < 12000 else [],
                                 "npar": npar}))
    for n in range(2, 10):
        add("ising_eqn_%d" % n, "ship", n, "01", (1, 2))
        add("ising_eqn_%d_sym" % n, "ship", n, "pm", (1, 2))
    add("ising_eqn_5_triplet", "ship", 5, "01", (1, 2, 3))
    add("ising_eqn_5_sym_triplet", "ship", 5, "pm", (1, 2, 3))
    for n in range(2, 7 if q else 11):
        for sym in (0, 1):
            add("ising_eqn_%d%s" % (n, "_sym" * sym), ("pairwise", n, sym, {}), n, "pm" if sym else "01", (1, 2))
            if n < 5 or (not q and n < 7):
                add("ising_eqn_%d%s_hp" % (n, "_sym" * sym), ("pairwise", n, sym, {"high_prec": True}), n, "pm" if sym else "01", (1, 2))
            if 3 <= n <= (5 if q else 7):
                add("ising_eqn_%d%s_triplet" % (n, "_sym" * sym), ("triplet", n, sym, {}), n, "pm" if sym else "01", (1, 2, 3))
    add("ising_eqn_3_sym_triplet_hp", ("triplet", 3, 1, {"high_prec": True}), 3, "pm", (1, 2, 3))
    # arbitrary lists of interactions
    for x in range(6 if q else 24):
        n = r.choice((3, 4, 5))
        sym = x % 2
        orders = sorted(r.sample((1, 2, 3, 4), r.choice((1, 2, 3)))) if x % 3 else [1, 2, 3, 4]
        orders = [o for o in orders if o <= n]
        groups = [sorted(r.sample(list(combinations(range(n), o)), r.randint(1, len(list(combinations(range(n), o)))))) for o in orders]
        terms = [[i + 1 for i in t] for g in groups for t in g]
        add("ising_eqn_%d_gen%d" % (n, x), ("eqns", n, sym, groups, "_gen%d" % x, bool(x % 4 == 3)), n, "pm" if sym else "01", terms=terms)
        if x % 4 == 3:
            jobs[-1] = (jobs[-1][0] + "_hp",) + jobs[-1][1:]
    for n, k in ((3, 2), (3, 3), (4, 2), (4, 3), (3, 5), (3, 11)) + (() if q else ((5, 3), (4, 4), (6, 2), (3, 9), (3, 12), (5, 4))):
        add("potts_%d_%d" % (n, k), ("potts", n, k), n, "k", k=k)
    add("cli_pair", ("cli", ["3", "1"], "ising_eqn_3_sym"), 3, "pm", (1, 2))
    if not q:
        add("cli_trip", ("cli", ["4", "0", "3", "-hp=true"], "ising_eqn_4_triplet_hp"), 4, "01", (1, 2, 3))
        add("cli_plain", ("cli", ["4"], "ising_eqn_4"), 4, "01", (1, 2))
    add("cli_potts", ("clipotts", 3, 3), 3, "k", k=3)

    # one specification run per distinct ensemble
    distinct, key_of = {}, {}
    for name, how, c in jobs:
        key = (c["n"], c["k"], c["dom"], str(c["terms"]))
        key_of[c["id"]] = key
        distinct.setdefault(key, c)
    res = ctx.tlc("Ensemble", cases=list(distinct.values()), invariants=["Normalised", "OneState"], workers=6)
    exp = {x["id"]: x for x in res.records}
    ctx.equal("harness", "cases", len(exp), len(distinct))
    ctx.load(ext=False)
    import coniii
    work = os.path.join(os.environ["VERIF_SCRATCH"], "eqn")
    os.makedirs(work)
    os.chdir(work)

    def load_file(path, name):
        spec = importlib.util.spec_from_file_location("coniii.ising_eqn.verif_" + name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m

    def get(name, how, c):
        if how == "ship":
            return importlib.import_module("coniii.ising_eqn." + name)
        from coniii import enumerate as en, enumerate_potts as ep
        if how[0] == "pairwise":
            en.pairwise(how[1], how[2], **how[3])
        elif how[0] == "triplet":
            en.triplet(how[1], how[2], **how[3])
        elif how[0] == "eqns":
            en.write_eqns(how[1], how[2], [tuple(zip(*g)) for g in how[3]], suffix=how[4], high_prec=how[5])
        elif how[0] == "potts":
            p = os.path.join(work, name + ".py")
            ep.SpecificFieldGenericCouplings(how[1], how[2]).write(p)
            return load_file(p, name)
        else:
            d = os.path.join(work, name)
            os.makedirs(d)
            tree = os.environ["VERIF_TREE"]
            if how[0] == "cli":
                cmd = [sys.executable, os.path.join(tree, "coniii", "enumerate.py")] + how[1]
                p = os.path.join(d, "ising_eqn", how[2] + ".py")
            else:
                p = os.path.join(d, "out.py")
                cmd = [sys.executable, "-m", "coniii.enumerate_potts", str(how[1]), str(how[2]), p]
            subprocess.run(cmd, cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return load_file(p, name)
        return load_file(os.path.join(work, "ising_eqn", name + ".py"), name + "_%d" % c["id"])

    for name, how, c in jobs:
        e = exp[distinct[key_of[c["id"]]]["id"]]
        table = np.array(e["table"], float).reshape(len(e["states"]), c["npar"])
        m = None
        tag = name if how == "ship" else "written " + name
        key = "shipped" if how == "ship" else "written-" + how[0]
        with ctx.impl(key, tag):
            m = get(name, how, c)
        if m is None:
            continue
        with ctx.impl(key, tag):
            one(ctx, key, tag, m, c, e, table, distinct[key_of[c["id"]]]["theta"])
            if name.endswith("_hp"):
                precise(ctx, key, tag, m, c, e, table, distinct[key_of[c["id"]]]["theta"])
    with ctx.impl("fast_logsumexp"):
        from coniii.enumerate import fast_logsumexp, mp_fast_logsumexp
        import mpmath
        for x in range(200):
            X = np.array([r.uniform(-5, 5) + (x % 4) * 400 for _ in range(r.randint(1, 9))])
            co = [r.choice((-1, 0, 1, 2)) for _ in X]
            for cc in (None, co):
                v = sum(mpmath.exp(mpmath.mpf(a)) * (1 if cc is None else b) for a, b in zip(X, co))
                if abs(v) < 1e-6:
                    continue
                for f in (fast_logsumexp, mp_fast_logsumexp):
                    l, s = f(np.array(list(map(mpmath.mpf, X))) if f is mp_fast_logsumexp else X, cc)
                    ctx.same("fast_logsumexp", "log magnitude", float(l), float(mpmath.log(abs(v))), tol=1e-9)
                    ctx.same("fast_logsumexp", "sign", float(s), 1. if v > 0 else -1.)
        # far beyond the range of doubles
        with mpmath.workdps(50):
            for x in range(60):
                a = [mpmath.mpf(r.randint(-9000, 9000)) / 3 for _ in range(r.randint(1, 6))]
                if x % 3 == 0:
                    a[-1] = mpmath.mpf(r.randint(-90000, 90000))
                X = np.array(a, dtype=object)
                co = [r.choice((-1, 1, 2)) for _ in a]
                if x % 2 and len(a) > 1:
                    co[a.index(max(a))] = 0     # the largest term does not count
                for cc in (None, co):
                    v = sum(mpmath.exp(b) * (1 if cc is None else f) for b, f in zip(a, co))
                    if abs(v) < mpmath.exp(max(a)) * mpmath.mpf(10) ** -20 and not x % 2 or v == 0:
                        continue
                    l, s = mp_fast_logsumexp(X, cc)
                    # digits lost in the sum itself are not counted
                    if mpmath.log(abs(v)) - max([b for b, f in zip(a, co) if cc is None or f]) < -20:
                        continue
                    ctx.true("fast_logsumexp", "high-precision logarithm of a sum", abs(l - mpmath.log(abs(v))) < mpmath.mpf(10) ** -30, terms=str(a), factors=str(cc), got=str(l))
                    ctx.same("fast_logsumexp", "sign", float(s), 1. if v > 0 else -1.)


def precise(ctx, key, tag, m, c, e, table, itheta):
    """The high-precision equations give more digits than doubles have, and numbers doubles cannot hold."""
    import mpmath
    ctx.replayed += 1
    with mpmath.workdps(50):
        eps = mpmath.mpf(10) ** -35

        def close(what, got, want, rel=False, **case):
            got = list(got)
            ok = len(got) == len(want) and all(abs(mpmath.mpf(a) - b) <= eps * (abs(b) if rel else 1) for a, b in zip(got, want))
            ctx.true(key, "%s %s with 35 digits" % (tag, what), ok, got=str(got[:4]), want=str(want[:4]), **case)
        if itheta:
            th = np.array([mpmath.mpf(k) * mpmath.log(2) for k in itheta], dtype=object)
            x = e["exact"]
            close("averages at integer multipliers", m.calc_observables(th), [mpmath.mpf(a) / x["z"] for a in x["num"]], theta=itheta)
            close("probabilities at integer multipliers", m.p(th), [mpmath.mpf(a) / x["z"] for a in x["w"]], theta=itheta)
        for scale in (1, 30, 1500):
            ks = [ctx.rnd.randint(-9, 9) * scale for _ in range(c["npar"])]
            th = np.array([mpmath.mpf(k) / 7 for k in ks], dtype=object)
            lw = [sum(int(a) * b for a, b in zip(row, th)) for row in table]
            top = max(lw)
            w = [mpmath.exp(a - top) for a in lw]
            z = sum(w)
            close("probabilities (scale %d)" % scale, m.p(th), [a / z for a in w], rel=True, theta=ks)
            close("averages (scale %d)" % scale, m.calc_observables(th), [sum(a * int(row[j]) for a, row in zip(w, table)) / z for j in range(c["npar"])], theta=ks)


def one(ctx, key, tag, m, c, e, table, itheta):
    ctx.replayed += 1
    npar = c["npar"]
    thetas = [("zero", np.zeros(npar))]
    if itheta:
        th = np.array(itheta) * np.log(2)
        x = e["exact"]
        got_o, got_p = flt(m.calc_observables(th.copy())), flt(m.p(th.copy()))
        ctx.sample({"file": tag, "multipliers/ln2": itheta, "Z": x["z"], "averages*Z": x["num"]})
        ctx.same(key, tag + " averages at integer multipliers", got_o, np.array(x["num"], float) / x["z"], tol=TOL, theta=itheta)
        ctx.same(key, tag + " probabilities at integer multipliers", got_p, np.array(x["w"], float) / x["z"], tol=TOL, theta=itheta)
    for a in range(npar):
        u = np.zeros(npar)
        u[a] = .7
        thetas.append(("multiplier %d alone" % a, u))
    rs = np.random.RandomState(ctx.rnd.randrange(2 ** 31))
    thetas += [("random", rs.normal(size=npar) * s) for s in (.1, .5, 1.)]
    for k, s in ((0, 300.), (1, 900.)):
        big = rs.normal(size=npar) * s
        thetas.append(("large", big))
    for label, th in thetas:
        p, o = boltz(table, th)
        keep = th.copy()
        gp = flt(m.p(th))
        if not ctx.same(key, "%s probabilities (%s)" % (tag, label), gp, p, tol=TOL, theta=th):
            return
        alone = label.startswith("mult") and npar > 40
        if alone and not (ctx.rnd.random() < .15):
            continue
        if not ctx.same(key, "%s averages (%s)" % (tag, label), flt(m.calc_observables(th)), o, tol=TOL, theta=th):
            return
        ctx.same("input-changed", tag, th, keep)


def flt(x):
    return np.array([float(v) for v in x])
