"""C20: samples depend on the generator given and nothing else (spec/Streams.tla)."""
import multiprocess
import os
import random
import numpy as np
from C08 import cpus, npar

INV = ["Mirror", "Aligned", "InOrder", "OwnStream", "Other", "Forward"]


def op(k, v=1):
    return {"k": k, "v": v}


class Ops:
    """a set of operations as a TLA+ expression"""
    def __init__(self, *ops):
        self.ops = ops

    def tla(self):
        return "{" + ", ".join('[k |-> "%s", v |-> %d]' % o for o in self.ops) + "}"


def scripts(ctx, ops, length, keeps, born, nproc, num):
    res = ctx.tlc("Streams", consts={"Ops": Ops(*ops), "Len0": length, "Keeps": keeps, "Born": born, "NProc": nproc, "Exhaustive": False},
                  invariants=INV, simulate=num, depth=14 * length + 40)
    return res.records[:num]


def run(ctx):
    q, r = ctx.quick, ctx.rnd
    ctx.start_build()
    two = Ops(("serial", 1), ("par", 1), ("rng", 3)) if q else Ops(("serial", 1), ("par", 1), ("rng", 3), ("theta", 1))
    for keeps in (True, False):
        ctx.tlc("Streams", consts={"Ops": two, "Len0": 2, "Keeps": keeps, "Born": keeps, "NProc": 2, "Exhaustive": True}, invariants=INV, view="View", workers=8)
    V = (1, 2)
    ser, par = [("serial", v) for v in V], [("par", v) for v in V]
    cond, condpar = [("cond", v) for v in V], [("condpar", 1)]
    th, rg, dr, fr, su = [("theta", v) for v in V], [("rng", 3), ("rng", 4)], [("draw", 1)], [("fresh", 1)], [("setup", 1)]
    k = 3 if q else 20
    plan = [("ising-boost", ser + par + cond + condpar + th + rg + dr, False, 8, k),
            ("ising-python", ser + par + cond + th + rg + dr + fr, True, 8, k),
            ("potts-boost", ser + par + th + rg + dr, False, 8, k),
            ("potts-python", ser + par + th + rg + dr + fr, True, 8, k),
            ("model-ising", ser + par + th + rg + su, False, 8, k),
            ("model-triplet", ser + par + th + rg + su, True, 6, 1 if q else 6),
            ("model-potts", ser + par + th + rg + su, False, 8, k),
            ("wolff", ser + par + th + rg, False, 6, k),
            ("lattice", ser + [("serial", 3)] + th + rg, True, 5, 1 if q else 8),
            ("tempering", ser, True, 2, 1 if q else 4)]
    runs = []
    for name, ops, keeps, length, num in plan:
        nproc = r.choice((2, 3))
        runs.append((name, nproc, scripts(ctx, ops, length, keeps, name in ("lattice", "tempering"), nproc, num)))
    coniii = ctx.load()
    from coniii import samplers, models, solvers, utils
    from coniii.ising import automaton
    env = type("Env", (), {})()
    env.samplers, env.models, env.utils, env.automaton, env.solvers = samplers, models, utils, automaton, solvers
    env.F = {"ising": utils.define_ising_helper_functions()[0], "potts": utils.define_potts_helper_functions(3)[0]}
    ctx.sample({"system": runs[0][0], "script": runs[0][2][0]["script"], "schedule": [[e["i"], e["at"]] for e in runs[0][2][0]["log"]]})
    for name, nproc, recs in runs:
        for rec in recs:
            with ctx.impl(name, "script of %d operations" % len(rec["script"]), limit=300):
                with cpus(samplers, nproc + 1):
                    replay(ctx, r, env, name, nproc, rec)
    for f in (unseeded, function, streams, many, temperatures, replaced, solvers_too):
        with ctx.impl(f.__name__, limit=400):
            with cpus(samplers, 3):
                f(ctx, r, env)


SIZES = {1: (24, 30, 20), 2: (9, 41, 7)}      # variant: sample size, updates between, burn-in
N = 10


def seed_of(v):
    return [11, 2024, 777, 31337][v - 1]


class Subject:
    """One instance of the system under test."""

    def __init__(self, env, name, rng, salt):
        self.env, self.name, self.salt = env, name, salt
        self.py = "python" in name
        kind = "potts" if "potts" in name else "ising"
        self.kind = kind
        n = 4 if name == "tempering" else N
        self.n = n
        if name == "model-triplet":
            self.n = n = 5
        self.th = [np.random.RandomState(salt + x).normal(scale=.3, size=self.size()) for x in range(3)]
        t = self.th[0].copy()
        if name in ("ising-boost", "ising-python"):
            self.o = env.samplers.Metropolis(n, t, calc_e=env.F["ising"], rng=rng, boost=not self.py, iprint=False)
        elif name in ("potts-boost", "potts-python"):
            self.o = env.samplers.Potts3(n, t, calc_e=env.F["potts"], rng=rng, boost=not self.py)
        elif name.startswith("model"):
            if name == "model-triplet":
                t = [t[:5], t[5:15], t[15:]]
            cls = {"model-ising": "Ising", "model-potts": "Potts3", "model-triplet": "Triplet"}[name]
            self.o = getattr(env.models, cls)(t, rng=rng)
            self.o.setup_sampler(sample_size=SIZES[1][0])
        elif name == "wolff":
            self.o = env.samplers.WolffIsing(t[n:], t[:n])
            self.o.rng = rng
        elif name == "lattice":
            self.o = env.automaton.Ising2D((5, 6), .3, h=t.reshape(5, 6), rng=rng)
        elif name == "tempering":
            self.o = env.samplers.ParallelTempering(n, t, env.F["ising"], 3, sample_size=10, replica_burnin=6, rep_ex_burnin=5, rng=rng)

    def size(self):
        if self.name == "lattice":
            return 30
        if self.name == "model-triplet":
            return 5 + 10 + 10
        return npar(self.kind, self.n)

    def do(self, o, k):
        """Operation number k of the script; returns the sample."""
        kind, v, x = o["k"], o["v"], self.o
        size, it, burn = SIZES[min(v, 2)]
        if kind == "theta":
            t = self.th[v].copy()
            if self.name.startswith("model"):
                x.set_multipliers(t)
            elif self.name == "wolff":
                x.update_parameters(t[self.n:], t[:self.n])
            elif self.name == "lattice":
                x.h = t.reshape(5, 6)
            else:
                x.update_parameters(t)
            return None
        if kind == "setup":
            x.setup_sampler(sample_size=SIZES[1][0])
            return None
        if kind == "rng":
            g = np.random.RandomState(seed_of(v))
            if self.name.startswith("model"):
                x.set_rng(g)
            else:
                x.rng = g
            return None
        if self.name.startswith("model"):
            x.generate_sample(it, burn, sample_size=size, parallel=kind == "par")
            return x.sample.copy()
        if self.name == "wolff":
            if kind == "par":
                return x.generate_sample_parallel(size, 4)
            return x.generate_sample(size, 4)
        if self.name == "lattice":
            x.iterate(40 if v == 3 else 60, systematic=v == 2)
            return x.lattice.copy()
        if self.name == "tempering":
            x.generate_sample(size)
            return np.vstack(x.sample)
        if kind == "draw":
            return x.random_sample(7)
        if kind in ("cond", "condpar"):
            fixed = [(1, 1), (4, -1)] if v == 1 else [(0, -1)]
            kw = {"parallel": kind == "condpar"}
            x.generate_cond_sample(size, fixed, burn_in=burn, n_iters=it, systematic_iter=v == 2, **kw)
            return np.array(x.sample) if not isinstance(x.sample, tuple) else np.array(x.sample[0])
        kw = {"n_iters": it, "burn_in": burn, "systematic_iter": v == 2}
        if kind == "fresh":
            ini = np.random.RandomState(k + self.salt).randint(0, 2, size=(1, self.n))
            kw["initial_sample"] = ini if self.kind == "potts" else ini * 2 - 1
        if kind == "par":
            x.generate_sample_parallel(size, **kw)
        else:
            x.generate_sample(size, **kw)
        return x.sample.copy()


def noise(r):
    x = r.randint(0, 3)
    if x == 0:
        np.random.seed(r.randint(0, 5))
    elif x == 1:
        np.random.rand(r.randint(1, 9))
    else:
        random.seed(r.randint(0, 5))
        np.random.seed(None)


def replay(ctx, r, env, name, nproc, rec):
    ctx.replayed += 1
    salt = r.randint(0, 10 ** 6)
    inst = {}
    for i in (1, 2, 3):
        noise(r)
        inst[i] = Subject(env, name, np.random.RandomState(seed_of(2 if i == 3 else 1)), salt)
    got = {}
    for e in rec["log"]:
        if e["i"] == 0:
            noise(r)
            continue
        o = rec["script"][e["at"] - 1]
        res = inst[e["i"]].do(o, e["at"])
        if res is not None:
            got[e["i"], e["at"]] = np.array(res)
    seen, by = {}, {}
    for i in (1, 2, 3):
        for x in rec["outs"][i - 1]:
            o = rec["script"][x["at"] - 1]
            g = got[i, x["at"]]
            if x["id"] in seen:
                j, y = seen[x["id"]]
                ctx.same("same-results", "%s: operation %d (%s) of instance %d against operation %d of instance %d" % (name, x["at"], o["k"], i, y, j),
                         g, got[j, y], script=rec["script"], schedule=[(e["i"], e["at"]) for e in rec["log"]])
            else:
                seen[x["id"]] = i, x["at"]
            by.setdefault((o["k"], o["v"]), []).append((i, x["at"], x["gen"], x["seed"]))
    made = any(o["k"] == "setup" for o in rec["script"])      # making a sampler may leave the generator as it is
    for k, d in by.items():
        for a in range(len(d)):
            for b in range(a):
                # generators from different seeds, or one generator at two times
                if d[a][3] != d[b][3] or d[a][0] == d[b][0] and d[a][2] != d[b][2] and not made:
                    ctx.true("own-results", "%s: %s gave the same sample with generators in different states (instances %d and %d)" % (name, k[0], d[a][0], d[b][0]),
                             not np.array_equal(got[d[a][:2]], got[d[b][:2]]), script=rec["script"], sample=got[d[a][:2]])


def unseeded(ctx, r, env):
    """without a generator, every instance has its own"""
    for name in ("ising-boost", "ising-python", "potts-boost", "potts-python", "model-ising", "model-potts", "lattice"):
        ctx.replayed += 1
        np.random.seed(4)
        a = Subject(env, name, None, 5)
        np.random.seed(4)
        b = Subject(env, name, None, 5)
        x, y = a.do(op("serial"), 1), b.do(op("serial"), 1)
        ctx.true("own-results", name + ": two instances without a generator drew the same sample", not np.array_equal(x, y))


def function(ctx, r, env):
    f = env.samplers.sample_ising
    h, J = np.random.RandomState(3).normal(size=8) * .3, np.random.RandomState(4).normal(size=28) * .3
    kw = {"n_iters": 40}
    for par in (True, False):
        ctx.replayed += 1
        np.random.seed(1)
        a = f((h, J), 20, seed=5, parallel=par, generate_sample_kw=kw)
        np.random.seed(2)
        b = f(np.concatenate((h, J)), 20, seed=5, parallel=par, generate_sample_kw=kw)
        ctx.same("same-results", "sample_ising with a seed, parallel=%s" % par, a, b)
        c = f((h, J), 20, seed=6, parallel=par, generate_sample_kw=kw)
        ctx.true("own-results", "sample_ising: other seed, other sample", not np.array_equal(a, c))
        c = f((h, J), 20, seed=0, parallel=par, generate_sample_kw=kw)
        d = f((h, J), 20, seed=0, parallel=par, generate_sample_kw=kw)
        ctx.same("same-results", "sample_ising with seed 0, parallel=%s" % par, c, d)
        c = f((h, J), 20, parallel=par, generate_sample_kw=kw)
        d = f((h, J), 20, parallel=par, generate_sample_kw=kw)
        ctx.true("own-results", "sample_ising: no seed, other sample", not np.array_equal(c, d))


def chunks(sample, k):
    per = -(-len(sample) // k)
    return [np.array(sample[x * per:(x + 1) * per]) for x in range(k)]


def streams(ctx, r, env):
    """without energies every update is accepted: two processes that draw the same numbers make
    the same moves, wherever they start"""
    n = 9
    for k in (2, 3, 56) if ctx.quick else (2, 3, 5, 8, 56, 90):
        with cpus(env.samplers, k):
            for boost in (True, False):
                for kind in ("ising", "potts"):
                    S = env.samplers.Metropolis if kind == "ising" else env.samplers.Potts3
                    kw = {"iprint": False} if kind == "ising" else {"n_cpus": k}
                    s = S(n, np.zeros(npar(kind, n)), calc_e=env.F[kind], rng=np.random.RandomState(r.randint(0, 10 ** 6)), boost=boost, **kw)
                    todo = ["par"] + (["condpar"] if boost and kind == "ising" else [])
                    for what in todo:
                        ctx.replayed += 1
                        if what == "par":
                            s.generate_sample_parallel(12 * k, n_iters=25, burn_in=5)
                        else:
                            s.generate_cond_sample(12 * k, [(2, 1)], n_iters=25, burn_in=5, parallel=True)
                        ch = chunks(s.sample, k)
                        for a in range(k):
                            for b in range(a):
                                ctx.true("own-stream", "%s %s %s: processes %d and %d of %d drew the same numbers" % (kind, "C++" if boost else "Python", what, b, a, k),
                                         not np.array_equal(np.diff(ch[a], axis=0) % 3, np.diff(ch[b], axis=0) % 3)
                                         and not (kind == "ising" and np.array_equal(ch[a][1:] * ch[a][:-1], ch[b][1:] * ch[b][:-1])), sample=s.sample)
    # cluster updates without couplings, every spin turned with probability 1/2
    w = env.samplers.WolffIsing(np.zeros(36), np.zeros(9) + .35)
    w.rng = np.random.RandomState(3)
    ini = np.ones((24, 9))
    ctx.replayed += 1
    out = w.generate_sample_parallel(24, 9, initialSample=ini.copy())
    ctx.true("own-stream", "cluster updates: every chain draws its own numbers", len({tuple(x) for x in out.tolist()}) > 12, sample=out)


def many(ctx, r, env):
    """the seeds handed to compiled samplers, processes and replicas come from a large set: of many
    runs at most two agree"""
    n = 40
    for boost in (True, False):
        for kind in ("ising", "potts"):
            S = env.samplers.Metropolis if kind == "ising" else env.samplers.Potts3
            kw = {"iprint": False} if kind == "ising" else {}
            g = np.random.RandomState(r.randint(0, 10 ** 6))
            got = {"serial": []}
            for rep in range(300 if boost else 60):
                s = S(n, np.zeros(npar(kind, n)), calc_e=env.F[kind], rng=g, boost=boost, **kw)
                s.generate_sample(1, n_iters=1)
                got["serial"].append(s.sample[0])
                if kind == "ising" and boost:
                    s.generate_cond_sample(1, [(1, 1)], n_iters=1, burn_in=1, parallel=False)
                    got.setdefault("conditional", []).append(s.sample[0])
            with cpus(env.samplers, 60):
                s = S(n, np.zeros(npar(kind, n)), calc_e=env.F[kind], rng=g, boost=boost, **dict(kw, n_cpus=60) if kind == "potts" else kw)
                s.generate_sample_parallel(120, n_iters=1)
                got["parallel"] = list(np.asarray(s.sample)[::2])
            for what, X in got.items():
                ctx.replayed += 1
                ctx.true("own-stream", "%s %s %s: runs from one generator repeat each other" % (kind, "C++" if boost else "Python", what),
                         len({tuple(x) for x in np.array(X).tolist()}) >= len(X) - 1, sample=np.array(X))
    n = 24
    pt = env.samplers.ParallelTempering(n, np.zeros(npar("ising", n)), env.F["ising"], 24, replica_burnin=1, rep_ex_burnin=1, rng=np.random.RandomState(r.randint(0, 10 ** 6)))
    X = np.vstack([x.sample for x in pt.replicas])
    ctx.replayed += 1
    ctx.true("own-stream", "tempering: replicas repeat each other", len({tuple(x) for x in X.tolist()}) >= 23, sample=X)


def temperatures(ctx, r, env):
    """replicas draw from different streams; the whole depends on the generator only"""
    def make(seed):
        np.random.seed(r.randint(0, 99))
        return env.samplers.ParallelTempering(8, np.zeros(36), env.F["ising"], 3, replica_burnin=12, rep_ex_burnin=9, rng=np.random.RandomState(seed))
    a, b, c = make(3), make(3), make(4)
    ctx.replayed += 1
    ctx.same("same-results", "tempering: temperatures", a.beta, b.beta)
    first = [np.vstack([x.sample for x in p.replicas]) for p in (a, b, c)]
    ctx.same("same-results", "tempering: states after construction", first[0], first[1])
    ctx.true("own-results", "tempering: other generator, other states", not np.array_equal(first[0], first[2]))
    ctx.true("own-stream", "tempering: replicas share their states", len({tuple(x) for x in first[0].tolist()}) > 1, states=first[0])
    ha, hb = a.generate_sample(6, save_exchange_trajectory=True), b.generate_sample(6, save_exchange_trajectory=True)
    ctx.same("same-results", "tempering: record of exchanges", ha, hb)
    ctx.same("same-results", "tempering: samples", np.vstack(a.sample), np.vstack(b.sample))


def replaced(ctx, r, env):
    """a model's generator replaced before or after its sampler is made is the one samples depend on"""
    for kind, size, cls in (("ising", 10, "Ising"), ("potts", 10, "Potts3"), ("triplet", 5, "Triplet")):
        t = np.random.RandomState(r.randint(0, 99)).normal(scale=.3, size=25 if kind == "triplet" else npar(kind, size))
        if kind == "triplet":
            t = [t[:5], t[5:15], t[15:]]
        got = []
        for way in range(5):
            m = getattr(env.models, cls)(t, rng=np.random.RandomState(41 if way == 0 else r.randint(50, 99)))
            if way > 1:
                m.setup_sampler(sample_size=9)
                if way == 2:
                    m.generate_sample(3, 4, parallel=False)
            if way:
                m.set_rng(np.random.RandomState(41))
            if way < 3:
                m.setup_sampler(sample_size=9)
            ctx.replayed += 1
            got.append([])
            for par in (False, True):
                m.generate_sample(20, 20, parallel=par)
                got[-1].append(m.sample.copy())
        for a, b, what in ((0, 1, "before the sampler is made"), (0, 2, "between two samplers"), (3, 4, "after the sampler is made")):
            ctx.same("same-results", "%s model: generator replaced %s" % (kind, what), np.array(got[a]), np.array(got[b]))


def solvers_too(ctx, r, env):
    """solvers that sample depend on the generator of their model only"""
    g = np.random.RandomState(8)
    data = np.where(g.rand(60, 4) < .5 + .1 * g.rand(60, 1), 1, -1)
    for name, kw in (("MCH", {}), ("SparseMCH", {})):
        res = []
        for seed in (5, 5, 6):
            np.random.seed(r.randint(0, 99))
            m = env.models.Ising(np.zeros(10), rng=np.random.RandomState(seed))
            s = getattr(env.solvers, name, None)
            if s is None:
                break
            s = s(data, model=m, sample_size=50, iprint=False) if name == "MCH" else s(data, model=m, sample_size=50, iprint=False, parameter_ix=np.arange(10))
            out = s.solve(maxiter=3, n_iters=20, burn_in=20, iprint=False) if name == "MCH" else s.solve(maxiter=3, n_iters=20, burn_in=20, iprint=False)
            out = out[0] if isinstance(out, tuple) else out
            res.append((np.array(out), np.array(m.sample)))
        else:
            ctx.replayed += 1
            ctx.same("same-results", name + ": multipliers", res[0][0], res[1][0])
            ctx.same("same-results", name + ": last sample", res[0][1], res[1][1])
            ctx.true("own-results", name + ": other generator, other multipliers", not np.array_equal(res[0][0], res[2][0]))
