"""C08: number, order and spacing of sampled states (spec/Schedule.tla)."""
import contextlib, os
import numpy as np


@contextlib.contextmanager
def cpus(samplers, k):
    """Pretend the machine has k processors."""
    import multiprocess
    old = multiprocess.cpu_count, os.cpu_count, getattr(samplers, "cpu_count", None)
    multiprocess.cpu_count = os.cpu_count = lambda: k
    if old[2] is not None:
        samplers.cpu_count = multiprocess.cpu_count
    try:
        yield
    finally:
        multiprocess.cpu_count, os.cpu_count = old[:2]
        if old[2] is not None:
            samplers.cpu_count = old[2]


def npar(model, n):
    return n * (3 if model == "potts" else 1) + n * (n - 1) // 2


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    inv = ["SessionOK", "FirstFresh"]
    ctx.tlc("Schedule", consts={"N": 3, "NCpu": 2, "MaxOps": 0, "Sizes": {1, 2, 3, 5} if q else {1, 2, 3, 4, 5, 6}, "Iters": {0, 1, 2, 3, 4} if q else {0, 1, 2, 3, 4, 5, 6},
                                "Burns": {99, 1, 2, 3, 4}, "Exhaustive": True}, invariants=inv)
    sessions = []
    for n, k, num in ((4, 3, 4), (3, 2, 3), (5, 1, 3), (6, 8, 1)) if q else ((4, 3, 30), (3, 2, 20), (5, 1, 20), (6, 8, 6), (7, 5, 10), (2, 4, 10)):
        s = ctx.tlc("Schedule", consts={"N": n, "NCpu": k, "MaxOps": 5, "Sizes": {1, 2, 3, 5, 7, 10} | ({24} if k == 8 else set()), "Iters": {0, 1, 2, 3, 4, 5, 7},
                                        "Burns": {99, 1, 2, 3, 5, 8}, "Exhaustive": False}, invariants=inv, simulate=num, depth=12, workers=4)
        sessions += [(n, k, x["ops"]) for x in s.records]
    hc = history_cases(r, 12 if q else 80)
    wc = wolff_cases(r, 8 if q else 60, len(hc))
    hx = ctx.tlc("SchedEnergy", cases=hc + wc, invariants=["Consistent"])
    coniii = ctx.load()
    from coniii import samplers, utils, models
    F = {}
    with ctx.impl("helpers"):
        F["ising"] = utils.define_ising_helper_functions()[0]
        F["potts"] = utils.define_potts_helper_functions(3)[0]
    if len(F) < 2:
        return
    ctx.sample({"n": sessions[0][0], "cpus": sessions[0][1], "first run": sessions[0][2][0]})
    for x, (n, k, ops) in enumerate(sessions):
        model = "potts" if x % 4 == 3 else "ising"
        with ctx.impl("session-python", "%d spins, %d processes" % (n, k)), cpus(samplers, k):
            session(ctx, samplers, F, model, n, k, ops, False)
        with ctx.impl("session-c++", "%d spins, %d processes" % (n, k)), cpus(samplers, k):
            session(ctx, samplers, F, model, n, k, ops, True)
    with ctx.impl("fresh-start"):
        fresh(ctx, samplers, models, utils, F)
    with ctx.impl("history"):
        random_history(ctx, samplers, F, hc)
        history(ctx, samplers, F, hc, {x["id"]: x for x in hx.records})
    with ctx.impl("wolff"):
        wolff(ctx, samplers, wc, {x["id"]: x for x in hx.records})
    with ctx.impl("random-sites"):
        random_sites(ctx, samplers, F)
    with ctx.impl("starts"):
        starts(ctx, samplers, F)
    with ctx.impl("sample_ising"):
        easy(ctx, samplers)


def build(samplers, F, model, n, boost, theta=None, rng=None):
    th = np.zeros(npar(model, n)) if theta is None else theta
    S = samplers.Metropolis if model == "ising" else samplers.Potts3
    kw = {"boost": boost}
    if model == "ising":
        kw["iprint"] = False
    return S(n, th, calc_e=F[model], rng=rng or np.random.RandomState(7), **kw)


def matches(recs, start, sample, model, per, starts):
    """Recorded states against visit counts; starts: known start of each chain (or None)."""
    base = {}
    for x, rec in enumerate(recs):
        c, v = rec["chain"], np.array(rec["visits"])
        if starts is not None:
            s0, v0 = starts[c - 1], np.zeros_like(v)
        elif c in base:
            s0, v0 = base[c]
        else:
            base[c] = (sample[x], v)
            continue
        d = v - v0
        if model == "ising":
            if not np.array_equal(sample[x], s0 * (-1) ** (d % 2)):
                return False
        else:
            ch = sample[x] != s0
            if (ch & (d == 0)).any() or (~ch & (d == 1)).any():
                return False
        if model == "potts":
            base[c] = (sample[x], v)
            if starts is not None:
                starts = [np.array(s) for s in starts]
                starts[c - 1] = sample[x]
                # later counts are relative to this record
                recs = [dict(y, visits=[a - b for a, b in zip(y["visits"], v)]) if y["chain"] == c and j > x else y
                        for j, y in enumerate(recs)]
                return matches(recs[x + 1:], start, sample[x + 1:], model, per, starts)
    return True


def session(ctx, samplers, F, model, n, k, ops, boost):
    """Every proposal is accepted (zero multipliers), so chains are determined by their starts."""
    m = build(samplers, F, model, n, boost, rng=np.random.RandomState(ctx.rnd.randrange(2 ** 31)))
    lang = "C++" if boost else "Python"
    ends = None       # last state of each chain, where known
    kept = []
    vals = (-1, 1) if model == "ising" else (0, 1, 2)
    for o in ops:
        kind = o["kind"]
        nch = 1 if kind == "serial" else k
        kw = {"n_iters": o["iters"], "systematic_iter": True}
        if o["burn"] != 99:
            kw["burn_in"] = o["burn"]
        start = o["start"]
        if boost:
            start = "fresh"
            if o["iters"] == 0 and o["burn"] == 99:
                kw["burn_in"] = 1
            if kind == "parallel" and model == "potts":
                # this sampler uses its own number of processes and needs more states than processes
                m.nCpus = k
                if k < 2 or o["size"] <= k:
                    continue
        starts = None
        init = None
        if start == "init":
            init = np.array([[ctx.rnd.choice(vals) for _ in range(n)] for _ in range(nch)])
            keep = init.copy()
            kw["initial_sample"] = init
            starts = [a.copy() for a in keep]
        elif start == "cont":
            starts = ends
        (m.generate_sample if kind == "serial" else m.generate_sample_parallel)(o["size"], **kw)
        ctx.replayed += 1
        S = np.asarray(m.sample)
        what = "%s %s %s run" % (lang, model, kind)
        d = dict(n=n, processes=k, run={a: o[a] for a in ("kind", "size", "burn", "iters", "start")})
        if not ctx.equal("shape", what + ": shape of the sample", S.shape, (o["size"], n), **d):
            return
        ctx.true("alphabet", what + ": value outside the alphabet", set(np.unique(S).tolist()) <= set(vals), **d)
        if init is not None:
            ctx.same("initial-sample-changed", what + ": the initial sample handed in", init, keep, **d)
        ok = matches(o["restart"], start, S, model, o["per"], starts) or matches(o["cont"], start, S, model, o["per"], starts)
        if not ctx.true("schedule", what + ": the recorded states are not those after the requested updates", ok, got=S, starts=starts, **d):
            return
        # where each chain ended
        ends = None
        if o["size"] == o["per"] * nch:
            ends = [S[(c + 1) * o["per"] - 1].copy() for c in range(nch)]
        elif nch > 1 and model == "ising":
            base = {}
            which = "restart" if matches(o["restart"], start, S, model, o["per"], starts) else "cont"
            end = np.array(o["endr" if which == "restart" else "endc"])
            for x, rec in enumerate(o[which]):
                base[rec["chain"]] = S[x] * (-1) ** ((end - np.array(rec["visits"])) % 2)
            for c in range(1, nch + 1):
                if c not in base and starts is not None and starts[c - 1] is not None:
                    base[c] = starts[c - 1] * (-1) ** (end % 2)
            if len(base) == nch:
                ends = [base[c] for c in range(1, nch + 1)]
        kept.append((m.sample, S.copy()))
        for a, b in kept:
            ctx.same("returned-states-altered", what + ": sample returned earlier", a, b, **d)


def fresh(ctx, samplers, models, utils, F):
    """Strong fields: a visited site is aligned with its field, an unvisited one keeps its random
    start.  Which sites are always aligned tells how many updates were made."""
    r = ctx.rnd
    reps = 40
    from itertools import product
    todo = []
    for boost in (True, False):
        for model in ("ising", "potts"):
            for burn, iters in ((1, 0), (2, 0), (1, 1), (3, 1), (None, 1), (None, 2), (2, 2), (5, 0)):
                todo.append((boost, model, "serial", burn, iters))
        for model in ("ising", "potts"):
            todo.append((boost, model, "parallel", 2, 1))
            todo.append((boost, model, "parallel", None, 2))
    todo += [("model", x, y, b, t) for x in ("ising", "potts", "triplet") for y in ("serial",) for b, t in ((2, 1), (1, 3), (4, 2))]
    todo += [("model", x, "parallel", 2, 1) for x in ("ising", "potts")]
    if not ctx.quick:
        todo = todo * 3
    n = 12
    for boost, model, kind, burn, iters in todo:
        sgn = np.array([r.choice((-1, 1)) for _ in range(n)])
        want = sgn if model != "potts" else np.array([r.randrange(3) for _ in range(n)])
        m_ = "ising" if model == "triplet" else model
        th = np.zeros(npar(m_, n))
        if m_ == "ising":
            th[:n] = 60. * sgn
        else:
            for i in range(n):
                th[want[i] * n + i] = 60.
        rng = np.random.RandomState(r.randrange(2 ** 31))
        kw = {"n_iters": iters}
        if burn is not None:
            kw["burn_in"] = burn
        got = []
        k = 3
        with cpus(samplers, k):
            if boost == "model":
                if model == "ising":
                    M = models.Ising(th, rng=rng)
                elif model == "potts":
                    M = models.Potts3(th, rng=rng)
                else:
                    M = models.Triplet([th[:n], th[n:], np.zeros(n * (n - 1) * (n - 2) // 6)], rng=rng)
                size = 1 if kind == "serial" else 3
            else:
                m = build(samplers, F, m_, n, boost, theta=th, rng=rng)
                kw["systematic_iter"] = True
            size = 1 if kind == "serial" else 7
            for _ in range(reps if kind == "serial" else 6):
                if boost == "model":
                    M.setup_sampler(sample_size=5)
                    if hasattr(M.sampler, "nCpus"):
                        M.sampler.nCpus = k
                    M.generate_sample(iters, burn, sample_size=size, parallel=kind != "serial")
                    S = np.asarray(M.sample)
                    ctx.equal("shape", "sample of a model", S.shape, (size, n))
                else:
                    m = build(samplers, F, m_, n, boost, theta=th, rng=rng)
                    if hasattr(m, "nCpus"):
                        m.nCpus = k
                    (m.generate_sample if kind == "serial" else m.generate_sample_parallel)(size, **kw)
                    S = np.asarray(m.sample)
                got.append(S)
        ctx.replayed += 1
        b = iters if burn is None else burn
        what = "%s %s %s, burn-in %s, spacing %d" % ({True: "C++", False: "Python", "model": "model of"}[boost], model, kind, burn, iters)
        if boost == "model":
            # random sites: at most b+iters sites can have been forced; with one state per run
            al = np.array([(g == want).sum(1) for g in got])[:, 0]
            p0 = .5 if m_ == "ising" else 1 / 3
            if m_ == "ising":
                # expected number of sites aligned after m random updates
                mth = n * (1 - p0 * (1 - 1 / n) ** (b + iters))
                sd = np.sqrt(n * p0 * (1 - p0) / len(al))
                ctx.true("fresh-start", what + ": sites aligned with their fields on average", abs(al.mean() - mth) < 6 * sd, got=al.mean(), want=mth)
            continue
        first = np.array([g[0] for g in got])
        if kind == "parallel":
            first = np.array([g[c * 3] for g in got for c in range(3)])
        always = (first == want).all(0)
        if m_ == "potts":
            # one visit proposes the favoured value only half of the time: unvisited sites are uniform
            # and visited ones favoured with probability 2/3 ; only the extent is judged below
            f = (first == want).mean(0)
            visited = np.arange(n) < b + iters
            if len(first) >= 40 and b + iters < n:
                d = f[visited].mean() - f[~visited].mean() if visited.any() else 1.
                ctx.true("fresh-start", what + ": visited sites favour their fields", d > .05, got=f)
            continue
        # burn-in 0..b-1 and the following updates, whichever site the sweep resumes from
        options = [np.arange(n) < b + iters, (np.arange(n) < max(b, iters))]
        ok = any(np.array_equal(always, o) for o in options)
        ctx.true("fresh-start", what + ": sites updated before the first state", ok, got=always, want=options)


def history_cases(r, num):
    out = []
    for _ in range(num):
        n = r.choice((2, 3, 5))
        out.append({"id": len(out), "n": n, "theta": [r.randint(-3, 3) for _ in range(npar("ising", n))],
                    "start": [r.choice((-1, 1)) for _ in range(n)],
                    "size": r.randint(1, 5), "iters": r.randint(1, 4), "burn": r.randint(1, 5)})
    return out


def history(ctx, samplers, F, cs, exp):
    """States and energies stored along a chain in which every proposal is accepted."""
    from stub import StubRNG
    for c in cs:
        m = build(samplers, F, "ising", c["n"], False, theta=np.array(c["theta"], float), rng=StubRNG(1e-300, seed=3))
        for save in (True, False):
            h = m.generate_sample(c["size"], n_iters=c["iters"], burn_in=c["burn"], systematic_iter=True,
                                  saveHistory=save, initial_sample=np.array([c["start"]]))
            ctx.replayed += 1
            got = [np.asarray(m.sample), np.asarray(m.E).ravel()]
            if save:
                got.append(np.asarray(h).ravel()[:c["size"] * c["iters"]])
            ok = False
            for w in exp[c["id"]]["ways"]:
                want = [w["states"], w["en"], w["hist"]][:len(got)]
                ok = ok or all(np.shape(a) == np.shape(b) and np.allclose(a, b, atol=1e-9) for a, b in zip(got, want))
            ctx.true("history", "states and energies stored along the chain", ok, got=got, want=exp[c["id"]]["ways"], case=c)


def random_history(ctx, samplers, F, cs):
    """Energies along a chain at random sites: one per update, those of the states where these are known."""
    from stub import StubRNG
    for c in cs:
        th = np.array(c["theta"], float)
        for u in (1e-300, .3):
            m = build(samplers, F, "ising", c["n"], False, theta=th, rng=StubRNG(u, seed=ctx.rnd.randrange(1000)))
            h = np.asarray(m.generate_sample(c["size"], n_iters=c["iters"], burn_in=c["burn"], saveHistory=True, initial_sample=np.array([c["start"]]))).ravel()
            ctx.replayed += 1
            S, E = np.asarray(m.sample), np.asarray(m.E).ravel()
            ctx.same("history", "energies of the states, random sites", E, F["ising"](S, th), tol=1e-9, case=c)
            if ctx.true("history", "length of the history", h.size >= c["size"] * c["iters"], got=h.size, case=c):
                h = h[:c["size"] * c["iters"]]
                ctx.same("history", "energies in the history, random sites", h[c["iters"] - 1::c["iters"]], E, tol=1e-9, case=c)


def wolff_cases(r, num, first):
    """Cluster updates of independent spins: every update turns its initial site."""
    out = []
    for x in range(num):
        n = r.choice((2, 3, 5))
        k = (1, n, n + 1, 2 * n + 1)[x % 4]
        out.append({"id": first + x, "n": n, "theta": [0] * npar("ising", n), "start": [r.choice((-1, 1)) for _ in range(n)],
                    "size": 1, "iters": k, "burn": 0})
    return out


def wolff(ctx, samplers, cs, exp):
    from itertools import groupby
    for (n, k), grp in groupby(sorted(cs, key=lambda c: (c["n"], c["iters"])), key=lambda c: (c["n"], c["iters"])):
        grp = list(grp)
        w = samplers.WolffIsing(np.zeros(n * (n - 1) // 2), np.zeros(n))
        w.rng = np.random.RandomState(ctx.rnd.randrange(2 ** 31))
        start = np.array([c["start"] for c in grp], float)
        want = np.array([[c["start"]] + exp[c["id"]]["ways"][0]["path"] for c in grp])
        S, H = w.generate_sample(len(grp), k, initialSample=start.copy(), save_history=True)
        ctx.replayed += 1
        ctx.equal("shape", "cluster sampler: shape of the sample", np.shape(S), (len(grp), n))
        if ctx.equal("shape", "cluster sampler: shape of the history", np.shape(H), (len(grp), n, k + 1)):
            ctx.same("history", "cluster sampler: every state of the history", np.transpose(H, (0, 2, 1)), want, n=n, updates=k)
        ctx.same("history", "cluster sampler: states returned", S, want[:, -1], n=n, updates=k)
        T = w.generate_sample(len(grp), k, initialSample=start.copy())
        if ctx.equal("shape", "cluster sampler: shape without history", np.shape(T), (len(grp), n)):
            d = (np.asarray(T) != start).sum(1)
            ctx.true("schedule", "cluster sampler: number of updates at random sites", (d % 2 == k % 2).all() and d.max() <= k, got=T, start=start)
        ctx.equal("shape", "cluster sampler: fresh sample", np.shape(w.generate_sample(7, k)), (7, n))
        with cpus(samplers, 3):
            T = w.generate_sample_parallel(len(grp), k, initialSample=start.copy())
            ctx.same("history", "cluster sampler in parallel: states returned", T, want[:, -1], n=n, updates=k)
            T = w.generate_sample_parallel(5, k)
            ctx.equal("shape", "cluster sampler in parallel: fresh sample", np.shape(T), (5, n))


def random_sites(ctx, samplers, F):
    """Sites chosen at random: parity and reach of every block of updates."""
    r = ctx.rnd
    for boost in (True, False):
        for rep in range(6 if ctx.quick else 30):
            n = 40
            iters, burn, size = r.choice((0, 1, 2, 3, 5)), r.choice((1, 2, 5)), 400 if boost else 60
            m = build(samplers, F, "ising", n, boost, rng=np.random.RandomState(r.randrange(2 ** 31)))
            kw = {}
            if not boost:
                s0 = np.array([[r.choice((-1, 1)) for _ in range(n)]])
                kw["initial_sample"] = s0
            m.generate_sample(size, n_iters=iters, burn_in=burn, **kw)
            S = np.asarray(m.sample)
            if not ctx.equal("shape", "shape", S.shape, (size, n)):
                return
            ctx.replayed += 1
            d = (S[1:] != S[:-1]).sum(1)
            what = "%s, %d updates at random sites between states" % ("C++" if boost else "Python", iters)
            ctx.true("schedule", what + ": parity or reach", (d % 2 == iters % 2).all() and d.max(initial=0) <= iters, got=d)
            ctx.true("schedule", what + ": fewer sites change than requested", iters == 0 or d.max() == iters, got=d)
            if not boost:
                d0 = (S[0] != s0[0]).sum()
                ctx.true("schedule", what + ": burn-in", d0 % 2 == (burn + iters) % 2 and d0 <= burn + iters, got=d0)
    # which sites: all of them in turn, in every part of a run and however it is made
    n = 40
    for model in ("ising", "potts"):
        for boost in (True, False):
            for kind in ("serial", "history", "parallel"):
                if kind == "history" and (boost or model == "potts"):
                    continue
                what = "%s %s %s run at random sites" % ("C++" if boost else "Python", model, kind)
                m = build(samplers, F, model, n, boost, rng=np.random.RandomState(r.randrange(2 ** 31)))
                m.nCpus = 2
                go = m.generate_sample_parallel if kind == "parallel" else m.generate_sample
                kw = {"saveHistory": True} if kind == "history" else {}
                with cpus(samplers, 2):
                    go(120, n_iters=2, burn_in=1, **kw)
                    S = np.asarray(m.sample)
                    ctx.replayed += 1
                    if ctx.equal("shape", what, S.shape, (120, n)):
                        turned = (S[1:] != S[:-1])
                        turned[59] = False      # between the two chains
                        ctx.true("schedule", what + ": only some sites are ever updated", turned.any(0).sum() > n // 2, got=turned.sum(0))
                        ctx.true("schedule", what + ": the same sites in every round", len({tuple(x) for x in turned.tolist()}) > 30, got=turned.sum(0))
                    if not boost:
                        hit = np.zeros(n, int)
                        for _ in range(8):
                            ini = np.ones((2 if kind == "parallel" else 1, n), int)
                            go(2, n_iters=0, burn_in=6, initial_sample=ini.copy(), **kw)
                            hit += (np.asarray(m.sample)[0] != 1)
                        ctx.true("schedule", what + ": burn-in updates only some sites", (hit > 0).sum() > 9, got=hit)


def starts(ctx, samplers, F):
    """Runs that are given no state start from any state alike: without updates the sample is the
    start.  The bounds are 7 standard deviations."""
    r = ctx.rnd
    n, runs = 90, 30 if ctx.quick else 150

    def uniform(what, X, k):
        X = np.asarray(X)
        ctx.replayed += 1
        x = X.ravel()
        for v in range(k):
            f = (x == v).mean()
            ctx.true("start", what + ": how often value %d comes" % v, abs(f - 1 / k) < 7 * np.sqrt(1 / k * (1 - 1 / k) / x.size), got=f)
        for how, same in (("neighbouring sites", X[:, 1::2] == X[:, :-1:2]), ("consecutive runs", X[1::2] == X[:-1:2])):
            f = same.mean()
            ctx.true("start", what + ": agreement of " + how, abs(f - 1 / k) < 7 * np.sqrt(1 / k * (1 - 1 / k) / same.size), got=f)
        site = np.array([(X == v).sum(0) for v in range(k)])
        ctx.true("start", what + ": a site that never has some value", k == 3 and len(X) < 60 or site.min() > 0, got=site)
    for model, k in (("ising", 2), ("potts", 3)):
        for boost in (True, False):
            for kind in ("serial", "parallel", "conditional"):
                if kind == "conditional" and model == "potts":
                    continue
                out = []
                g = np.random.RandomState(r.randrange(2 ** 31))
                for rep in range(runs if kind != "parallel" else runs // 3):
                    m = build(samplers, F, model, n, boost, rng=g)
                    if kind == "serial":
                        m.generate_sample(1, n_iters=0)
                        out.append(np.asarray(m.sample)[0])
                    elif kind == "parallel":
                        m.nCpus = 3
                        with cpus(samplers, 3):
                            m.generate_sample_parallel(6, n_iters=0)
                        out += list(np.asarray(m.sample)[::2])
                    else:
                        kw = {"parallel": False} if boost else {}
                        m.generate_cond_sample(1, [(4, 1)], n_iters=0, burn_in=0, **kw)
                        out.append(np.delete(np.asarray(m.sample)[0], 4))
                X = np.array(out)
                uniform("%s %s %s run" % ("C++" if boost else "Python", model, kind), (X + 1) // 2 if model == "ising" else X, k)
    w = samplers.WolffIsing(np.zeros(n * (n - 1) // 2), np.zeros(n))
    w.rng = np.random.RandomState(r.randrange(2 ** 31))
    uniform("cluster updates", (np.asarray(w.generate_sample(runs, 0)) + 1) // 2, 2)
    uniform("cluster updates in parallel", (np.asarray(w.generate_sample_parallel(runs, 0)) + 1) // 2, 2)


def easy(ctx, samplers):
    r = ctx.rnd
    for n in (2, 3, 6):
        th = np.array([r.choice((-1, 1)) * 60. for _ in range(n)])
        for mult in (np.concatenate((th, np.zeros(n * (n - 1) // 2))), [th, np.zeros(n * (n - 1) // 2)]):
            for parallel in (False, True):
                with cpus(samplers, 3):
                    S = samplers.sample_ising(mult, 7, seed=5, parallel=parallel, generate_sample_kw={"n_iters": n, "systematic_iter": True})
                ctx.equal("sample_ising", "shape", np.asarray(S).shape, (7, n))
                ctx.same("sample_ising", "aligned states", S, np.sign(th) * np.ones((7, 1)))
                ctx.replayed += 1
