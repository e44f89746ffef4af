"""C12: Monte Carlo histogram estimation (spec/MCH.tla, spec/Reweight.tla).

The solver is run on a model and a reweighting prediction that answer what a behaviour of the
specification says; what the solver asks of them, in which order, is compared with the behaviour."""
import contextlib, io
import numpy as np


def npar(model, n, k):
    return {"ising": n, "sym": 0, "potts": n * k}[model] + n * (n - 1) // 2

LN2 = np.log(2.)


class Diverged(Exception):
    pass


def vectors(r, m, k):
    """error vectors (quarters) of m entries with rational norms"""
    small = [[0] * m]
    base = {1: [[1], [2], [-3], [6]], 2: [[3, 4], [0, 1], [-4, 3], [1, 0], [0, -2], [8, -6]],
            3: [[2, -1, 2], [0, 0, 1], [-2, 2, 1], [6, -2, 3], [0, -1, 0], [1, -4, 8]]}
    out = []
    for v in base[min(m, 3)]:
        for s in (1, -1):
            pos = sorted(r.sample(range(m), min(m, 3)))
            w = [0] * m
            for p, x in zip(pos, v):
                w[p] = s * x
            out.append(w)
    r.shuffle(out)
    return small + out[:k - 1]


def make_cases(r, count):
    out = []
    for x in range(count):
        m = r.choice((1, 2, 3, 6, 10))
        sparse = x % 2 == 1
        k = r.randrange(1, m + 1) if sparse else m
        ix = sorted(r.sample(range(1, m + 1), k))
        size = r.choice((4, 16))
        mode = ("pair", "dict", "fixed")[x // 2 % 3]
        sets = [{"eta": r.choice((1, 2, 3)), "maxd": r.choice((8, 16, 32, 64)), "maxnorm": r.choice((10, 24, 32, 80)),
                 "maxsteps": r.randrange(0, 4), "size": r.choice((2, 4, 10, 16)) if mode == "pair" else size}
                for _ in range(1 if mode == "fixed" else r.randrange(2, 5))]
        if x % 5 == 0:
            tol, tn = 0, 0
        else:
            tol, tn = r.choice((0, 2, 3, 4)), r.choice((0, 2, 3, 5, 9))
        guess = r.random() < .6
        out.append({"id": x, "sparse": sparse, "m": m, "ix": ix, "mode": mode, "size": size, "sets": sets, "tol": tol, "tolNorm": tn,
                    "maxiter": r.randrange(0, 4), "lam0": [r.randrange(-40, 41) if guess else 0 for _ in ix], "guess": guess,
                    "diffs": vectors(r, k, 6)})
    return out


def reweight_cases(r, q):
    out = []
    for model, n, k in [("ising", n, 0) for n in ((2, 3, 4, 6) if q else range(2, 9))] + [("sym", n, 0) for n in (2, 3, 5)] \
            + [("potts", 2, 3), ("potts", 3, 3), ("potts", 3, 2), ("potts", 2, 5), ("ising01", 3, 0), ("ising01", 5, 0)]:
        for rep in range(4 if q else 20):
            base = "ising" if model == "ising01" else model
            m = npar(base, n, k)
            alpha = {"ising": (-1, 1), "sym": (-1, 1), "potts": range(k), "ising01": (0, 1)}[model]
            d = [0] * m
            for _ in range(min(m, 4)):
                x, v = r.randrange(m), r.choice((-2, -1, 1, 2))
                # products of two sums of weights must stay below 2^31 in TLC
                if sum(map(abs, d)) - abs(d[x]) + abs(v) <= (5 if min(alpha) < 0 else 8):
                    d[x] = v
            out.append({"id": len(out), "what": model, "model": base, "k": k, "d": d,
                        "sample": [[r.choice(alpha) for _ in range(n)] for _ in range(r.choice((1, 2, 7, 12)))]})
    return out


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    small = [dict(c, diffs=c["diffs"][:3], maxiter=min(c["maxiter"], 2), sets=[dict(s, maxsteps=min(s["maxsteps"], 2)) for s in c["sets"][:2]])
             for c in make_cases(r, 12 if q else 40)]
    ctx.tlc("MCH", consts={"Bounded": True}, cases=small, invariants=["FlagMeans", "Limits", "Others"], properties=["Against", "Terminates"])
    cases = make_cases(r, 60 if q else 300)
    beh = ctx.tlc("MCH", consts={"Bounded": False}, cases=cases, invariants=["FlagMeans", "Limits", "Others"],
                  simulate=120 if q else 1500, depth=60).records
    rw = reweight_cases(r, q)
    rwx = {x["id"]: x for x in ctx.tlc("Reweight", cases=rw, invariants=["NoChange", "Order", "Variances", "Monotone"]).records}
    coniii = ctx.load()
    from coniii import solvers, models, utils
    ctx.sample({"behaviour": beh[0]["tr"][:6], "flag": beh[0]["flag"]})
    flags = set()
    for b in beh:
        c = cases[b["id"]]
        flags.add((b["flag"], b["counter"]))
        with ctx.impl("run", "%s, %d parameters" % ("SparseMCH" if c["sparse"] else "MCH", c["m"])):
            replay(ctx, r, solvers, c, b)
    ctx.extra["behaviours"], ctx.extra["endings"] = len(beh), sorted(map(str, flags))
    for c in rw:
        with ctx.impl("prediction", c["what"]):
            predict(ctx, solvers, utils, c, rwx[c["id"]])
    for n in (2, 3, 4):
        with ctx.impl("real-run", "%d spins" % n, limit=300):
            real(ctx, r, solvers, models, n, q)


class Scripted:
    """A model that answers what the behaviour says."""

    def __init__(self, run_, m):
        self.r, self.multipliers, self.sample, self.sampleSize = run_, np.zeros(m), None, None
        self.n = m

    def setup_sampler(self, *a, sample_size=None, **k):
        self.sampleSize = sample_size

    def generate_sample(self, n_iters, burn_in, multipliers=None, sample_size=None, **k):
        self.r.on_sample(self, multipliers, sample_size or self.sampleSize, n_iters, burn_in)


class Run:
    def __init__(self, ctx, c, b, target, seed):
        self.ctx, self.c, self.b, self.target, self.k = ctx, c, b, target, 0
        self.rs = np.random.RandomState(seed)
        self.ix = np.array(c["ix"]) - 1

    def value(self, diff):
        """a full vector (quarters): target plus diff on the chosen parameters, anything elsewhere"""
        v = self.rs.randint(-9, 9, self.c["m"])
        v[self.ix] = self.target[self.ix] + np.array(diff)
        return v

    def next(self, kind):
        if self.k >= len(self.b["tr"]):
            return None
        e = self.b["tr"][self.k]
        if e["e"] != kind:
            self.ctx.fail("order", "the solver asked for a %s as request %d, specification says %s" % (kind, self.k, e["e"]), case=self.c, behaviour=self.b["tr"])
            raise Diverged()
        self.k += 1
        return e

    def on_sample(self, model, mult, size, n_iters, burn_in):
        e = self.next("sample")
        self.ctx.equal("sampling-arguments", "updates and burn-in asked of the sampler", (n_iters, burn_in), (7, 11))
        if e is None:       # after the end: only a sample at the solution
            self.ctx.same("multipliers", "multipliers of the sample drawn after the end", np.array(mult) * 32, self.b["lam"])
            return
        ok = self.ctx.same("multipliers", "multipliers of sample %d" % self.k, np.array(mult) * 32, e["lam"], case=self.c, behaviour=self.b["tr"][:self.k])
        ok &= self.ctx.equal("sample-size", "size of the sample asked for", size, e["size"], case=self.c)
        if not ok:
            raise Diverged()
        j = self.rs.randint(-3, 4, (size // 2, self.c["m"]))
        v = self.value(e["diff"])
        model.sample = np.vstack([v + j, v - j]).astype(np.int64)
        self.model = model

    def predict(self, sample, dlam):
        e = self.next("predict")
        if e is None:
            self.ctx.fail("order", "prediction asked for after the end", case=self.c)
            raise Diverged()
        ok = self.ctx.same("prediction-arguments", "change of the multipliers", np.array(dlam) * 32, e["dlam"], case=self.c, behaviour=self.b["tr"][:self.k])
        ok &= self.ctx.same("prediction-arguments", "sample reweighted", sample, self.model.sample)
        if not ok:
            raise Diverged()
        return self.value(e["diff"]) / 4


def replay(ctx, r, solvers, c, b):
    ctx.replayed += 1
    m, ix = c["m"], np.array(c["ix"]) - 1
    target = np.array([r.randrange(-5, 6) for _ in range(m)])
    run_ = Run(ctx, c, b, target, b["id"])
    data = np.vstack([target + 1, target - 1])
    own = r.random() < .5      # constraints of the data, or given ones
    kw = dict(model=Scripted(run_, m), calc_observables=lambda X: X / 4, sample_size=c["size"], mch_approximation=run_.predict, iprint=False)
    first = data if own else (m if m > 1 and not c["sparse"] else data + 5)
    if c["sparse"]:
        sh = ix.copy()
        if c["id"] % 2:
            sh = np.append(sh, sh[:2])      # repeated entries count once
        np.random.RandomState(m).shuffle(sh)
        s = solvers.SparseMCH(first, parameter_ix=sh, **kw)
    else:
        s = solvers.MCH(first, **kw)
    def settings(x):
        y = c["sets"][min(x, len(c["sets"]) - 1)]
        d = {"eta": y["eta"] / 2, "maxdlamda": y["maxd"] / 32, "maxdlamdaNorm": y["maxnorm"] / 32, "maxLearningSteps": y["maxsteps"]}
        return (d, y["size"]) if c["mode"] == "pair" else d
    k = {"n_iters": 7, "burn_in": 11, "maxiter": c["maxiter"], "full_output": True}
    if c["mode"] == "fixed":
        k["learn_params_kwargs"] = settings(0)
    else:
        k["custom_convergence_f"] = settings
    if c["tol"]:
        k["tol"] = c["tol"] / 4
    if c["tolNorm"]:
        k["tolNorm"] = c["tolNorm"] / 4
    guess = np.array(c["lam0"]) / 32
    if c["guess"]:
        k["initial_guess"] = guess
    cons = target[ix] / 4
    if not own:
        k["constraints"] = cons
    g0, c0, d0 = guess.copy(), cons.copy(), data.copy()
    try:
        with contextlib.redirect_stdout(io.StringIO()):     # what is printed changes nothing
            out = s.solve(iprint=(False, True, "detailed")[c["id"] % 3], **k)
    except Diverged:
        return
    ctx.equal("order", "requests made", run_.k, len(b["tr"]), case=c, behaviour=b["tr"])
    lam = np.array(b["lam"])
    ctx.same("result", "multipliers returned", np.array(out[0]) * 32, lam[ix], case=c)
    ctx.same("result", "multipliers stored", np.array(s.multipliers) * 32, lam)
    ctx.equal("flag", "error flag", out[1], b["flag"], case=c, behaviour=b["tr"])
    ctx.same("errors", "history of errors", np.array(out[2]) * 4, [e["diff"] for e in b["tr"] if e["e"] == "sample"], case=c)
    ctx.same("inputs-changed", "initial guess", guess, g0)
    ctx.same("inputs-changed", "constraints", cons, c0)
    ctx.same("inputs-changed", "data", data, d0)


def predict(ctx, solvers, utils, c, e):
    ctx.replayed += 1
    f = {"ising": utils.define_ising_helper_functions, "ising01": utils.define_ising_helper_functions,
         "sym": utils.define_ising_helper_functions_sym, "potts": lambda: utils.define_potts_helper_functions(c["k"])}[c["what"]]
    if c["what"] not in HELP or c["what"] == "potts":
        key = (c["what"], c["k"])
        if key not in HELP:
            HELP[key] = f()
        h = HELP[key]
    else:
        h = HELP[c["what"]]
    HELP[(c["what"], c["k"])] = h
    mch = h[-1]
    X = np.array(c["sample"], dtype=np.int64)
    d = np.array(c["d"], float) * LN2
    x0, d0 = X.copy(), d.copy()
    ctx.same("prediction", "predicted averages", mch(X, d), np.array(e["pred"]["num"]) / e["pred"]["z"], tol=1e-10, case=c)
    ctx.same("prediction", "predicted averages without change", mch(X, d * 0), np.array(e["mean"]) / e["size"], tol=1e-10, case=c)
    T = np.array(e["table"], float).reshape(len(X), -1)
    for big in (60., 1e3, 2e4):     # the weights are powers of 2^big: beyond the range of exp
        a = T @ (d * big)
        w = np.exp(a - a.max())
        ctx.same("prediction", "predicted averages for a large change", mch(X, d * big), w @ T / w.sum(), tol=1e-9, case=c, times=big)
    ctx.same("inputs-changed", "sample handed to the prediction", X, x0)
    ctx.same("inputs-changed", "change handed to the prediction", d, d0)
    m = len(d)

    class Fixed:
        n, multipliers, sampleSize = X.shape[1], np.zeros(m), len(X)
        setup_sampler = staticmethod(lambda **k: None)

        def generate_sample(self, *a, **k):
            self.sample = X
    s = solvers.MCH(X, model=Fixed(), calc_observables=h[1], sample_size=len(X), mch_approximation=mch, iprint=False)
    out = s.solve(maxiter=0, tol=1e-9, tolNorm=1e-9)
    ctx.equal("result", "shape of what is returned without full output", np.shape(out), np.shape(s.multipliers))
    ctx.same("result", "multipliers returned without full output", out, s.multipliers)
    ctx.same("jacobian", "derivative of the predicted averages", s.estimate_jac(), np.array(e["cov"]) / e["size"] ** 2, tol=2e-4, case=c)
    ctx.same("jacobian", "derivative with a small step", s.estimate_jac(1e-4), np.array(e["cov"]) / e["size"] ** 2, tol=2e-6, case=c)


HELP = {}


def real(ctx, r, solvers, models, n, q):
    """the solver on a real model: what it reports belongs to the samples it drew"""
    m = n + n * (n - 1) // 2
    rng = np.random.RandomState(n)
    for sparse in (False, True):
        for boost in (True, False):
            cons = np.array([r.uniform(-.3, .3) for _ in range(m)]) * .5
            X = rng.choice([-1, 1], (50, n))
            model = models.Ising(np.zeros(m), rng=np.random.RandomState(5), n_cpus=1)
            kw = dict(sample_size=1000, iprint=False, model=model, sampler_kw={"boost": boost})
            ix = np.arange(m) if not sparse else np.array(sorted(r.sample(range(m), 2)))
            s = solvers.SparseMCH(X, parameter_ix=ix, **kw) if sparse else solvers.MCH(X, **kw)
            seen, gen = [], model.generate_sample

            def spy(*a, **k):
                gen(*a, **k)
                seen.append((np.array(k["multipliers"]), model.sample.copy()))
            model.generate_sample = spy
            out = s.solve(constraints=cons[ix], maxiter=25, n_iters=12, burn_in=12, full_output=True, tol=.1, tolNorm=.15)
            ctx.count("real_runs")
            obs = [np.hstack([S, np.array([S[:, i] * S[:, j] for i in range(n) for j in range(i + 1, n)]).T]).mean(0)[ix] for _, S in seen]
            err = np.array(out[2])
            ctx.same("errors", "errors reported for the samples drawn", err, np.array(obs[:len(err)]) - cons[ix], tol=1e-10)
            small = [np.linalg.norm(v) < .15 and np.all(abs(v) < .1) for v in err]
            ctx.true("flag", "stopped at the first sample within both tolerances", out[1] == 0 and small[-1] and not any(small[1:-1]), errors=err.tolist(), flag=out[1])
            full = np.zeros(m)
            full[ix] = out[0]
            ctx.same("multipliers", "multipliers of the last sample counted", seen[len(err) - 1][0], full)
