#!/usr/bin/env python3
"""Parent of every check: makes a scratch copy of /repo, runs the worker on it, reports.

usage: run.py <property id> [quick|thorough]

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the machinery itself failed (never used to mean anything about the property).
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def copy_repo(dst):
    """Only what the checks build from: the package (no build products), cpp/ and setup.py."""
    ign = shutil.ignore_patterns("*.so", "__pycache__", "build", "ising_eqn_4_sym_hp.py",
                                 "_test_enumerate*")
    for d in ("coniii", "cpp"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), ignore=ign)
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and os.path.getsize(p) < 1 << 20:
            shutil.copy(p, dst)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = float(os.environ.get("VERIF_LIMIT", "800" if tier == "quick" else "21600"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="coniii-verif-%s-" % pid)
    rc = 2
    proc = None
    try:
        tree = os.path.join(scratch, "tree")
        os.mkdir(tree)
        copy_repo(tree)
        env = dict(os.environ)
        for k in ("PYTHONPATH", "PYTHONHOME"):
            env.pop(k, None)
        env.update(PYTHONPATH=tree + ":" + os.path.join(VERIF, "lib"),
                   NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), MPLBACKEND="Agg",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CONDA_PREFIX="/usr",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SCRATCH=scratch,
                   VERIF_TREE=tree, VERIF_HOME=VERIF, TMPDIR=scratch,
                   PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        proc = subprocess.Popen([PY, os.path.join(VERIF, "lib", "worker.py"), pid],
                                env=env, cwd=scratch, start_new_session=True)
        timed_out = False
        try:
            proc.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(proc.pid, signal.SIGKILL)
            proc.wait()
        res = {}
        try:
            res = json.load(open(os.path.join(scratch, "result.json")))
        except Exception:
            pass
        if not res.get("done"):
            stage = ""
            try:
                stage = open(os.path.join(scratch, "stage")).read()
            except OSError:
                pass
            if stage.startswith("impl:") and not res.get("error"):
                res.setdefault("violations", []).append(
                    {"key": "died", "what": ("no answer within the time limit in " if timed_out
                                             else "process died (status %s) in " % proc.returncode)
                     + stage[5:], "detail": {}})
            elif not res.get("violations"):
                print("ERROR: check %s did not finish (timeout=%s status=%s stage=%r) %s"
                      % (pid, timed_out, proc.returncode, stage, str(res.get("error", ""))[-200:]))
                return 2
        rc = report(pid, tier, seed, res, time.time() - t0)
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(pid, tier, seed, res, wall):
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("{"):
                known.append(json.loads(line))
    known = {k["key"]: k for k in known if k.get("property") == pid and k.get("status") == "known"}
    viol, seen_known = [], {}
    for v in res.get("violations", []):
        if v["key"] in known:
            seen_known[v["key"]] = known[v["key"]]
        else:
            viol.append(v)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": res.get("level", "model_checking"),
          "coverage": res.get("coverage") or {"states": 0},
          "assumptions": res.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if viol:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed,
                       "rerun": "VERIF_SEED=%d bin/check %s %s" % (seed, pid, tier),
                       "violations": viol}, f, indent=1, default=str)
        for v in viol[:12]:
            print("  - %s: %s" % (v["key"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    c = ev["coverage"]
    print("OK %s (%s): %s; %.1fs" % (pid, tier, ", ".join(
        "%s=%s" % (k, c[k]) for k in ("states", "transitions", "traces_validated_against_impl")
        if k in c), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
