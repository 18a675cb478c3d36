"""Entry point: decide one property by seeded simulation, or replay one recorded failure.

    check.py --property C01 [--tier quick|thorough] [--seed N] [--seeds N] [--jobs N]
    check.py --replay FILE
    check.py --determinism --property C01 [--seeds N]
"""

import argparse
import os
import shutil
import subprocess
import sys
import tempfile
import time

T0 = time.monotonic()
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def bootstrap():
    """Re-exec once in a controlled environment (hash seed, threads, scratch, fault shim)."""
    if os.environ.get("DST_CHILD") == "1":
        return os.environ["DST_SCRATCH"]
    root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="dst-", dir=root)
    code = 2
    try:
        shim = os.path.join(scratch, "shim.so")
        subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", shim,
                        os.path.join(HERE, "shim.c"), "-ldl", "-lpthread"], check=True)
        env = dict(os.environ)
        env.update({
            "DST_CHILD": "1", "DST_SCRATCH": scratch, "LD_PRELOAD": shim, "DST_SHIM": shim,
            "PYTHONHASHSEED": env.get("DST_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPATH": env.get("DST_REPO", "/repo") + os.pathsep + HERE,
            "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
            "NUMBA_DISABLE_CUDA": "1", "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "NUMBA_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore", "LC_ALL": "C.UTF-8",
        })
        os.makedirs(env["MPLCONFIGDIR"])
        os.makedirs(env["NUMBA_CACHE_DIR"])
        proc = subprocess.Popen([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env,
                                cwd=scratch)
        try:
            code = proc.wait()
        except BaseException:
            proc.kill()
            proc.wait()
            raise
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code if code in (0, 1) else 2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--index", type=int, help="run one seed index verbosely")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--determinism", action="store_true")
    ap.add_argument("--out", default=os.path.join(os.path.dirname(HERE), "evidence"))
    a = ap.parse_args()
    scratch = bootstrap()

    import json

    import njitmemo
    import sim

    njitmemo.install()
    sim.install_locks()
    import harness
    import warm

    runs = os.path.join(scratch, "runs")
    os.makedirs(runs, exist_ok=True)

    if a.replay:
        rep = json.load(open(a.replay))
        mod = harness.load_prop(rep["property"])
        warm.warm(mod)
        try:
            out = harness.isolated(harness.run_scenario, mod, rep["scenario"], runs, timeout=150)
        except harness.Stuck as e:
            cls, _, text = str(e).partition(": ")
            out = {"violations": [{"class": cls, "msg": text}]}
        hits = [v for v in out["violations"] if v["class"] == rep["class"]]
        for v in out["violations"]:
            print(f"[{v['class']}] {v['msg']}")
        if hits:
            print(f"VIOLATION property={rep['property']} replay={a.replay}")
            sys.exit(1)
        print("replay: not reproduced")
        sys.exit(0)

    mod = harness.load_prop(a.property)
    try:
        warm.warm(mod)
    except Exception as e:  # noqa
        import traceback

        traceback.print_exc()
        if harness.from_conmech(e):
            # fault-free warm-up runs of the workload fail inside conmech
            print(f"warm-up: {type(e).__name__}: {e}")
            path = os.path.join(a.out, "replays", f"{mod.ID}-warmup.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": mod.ID, "class": "warm-up", "error": str(e)}, open(path, "w"))
            print(f"VIOLATION property={mod.ID} replay={path}")
            sys.exit(1)
        sys.exit(2)

    if a.index is not None:
        sc = harness.make_scenario(mod, a.seed, a.index)
        print(json.dumps(harness._brief(sc), indent=1))
        out = harness.isolated(harness.run_scenario, mod, sc, runs)
        out["states"] = len(out["states"])
        print(json.dumps(out, indent=1)[:6000])
        sys.exit(1 if out["violations"] else 0)

    if a.determinism:
        logs = {}
        pool = harness.Pool(a.jobs, 150)
        n = a.seeds or 40
        todo = list(range(n))
        while todo or pool.live:
            while todo and not pool.full():
                i = todo.pop()
                pool.submit(i, harness.run_scenario, mod,
                            harness.make_scenario(mod, a.seed, i), runs)
            for key, st, out in pool.wait():
                logs[key] = out["log"] + [json.dumps(out["faults"], sort_keys=True),
                                          str(out["events"])] if st == "ok" else [st, out]
        import hashlib

        for k in sorted(logs):
            print(k, hashlib.sha256(repr(logs[k]).encode()).hexdigest()[:16])
        sys.exit(0)

    t1 = time.monotonic()
    res = harness.batch(mod, a.tier, a.seed, runs, a.jobs, a.out, n_seeds=a.seeds,
                        budget=a.budget)
    ev = harness.write_evidence(mod, a.tier, a.seed, res, time.monotonic() - T0, a.out)
    c = ev["coverage"]
    print(f"{mod.ID} {a.tier} seed={a.seed}: {res['verdict']}; {c['seeds_finished']} seeds, "
          f"{c['evaluations']} simulated runs, {c['oracle_checks']} oracle checks, "
          f"{c['distinct_nontrivial']} distinct, faults {c['faults_fired']}, "
          f"warm {t1 - T0:.1f}s search {res['wall']:.1f}s")
    if res["probes_missing"]:
        print("probes never hit:", res["probes_missing"])
    if res["verdict"] == "violated":
        print(f"VIOLATION property={mod.ID} replay={res['replay']}")
        sys.exit(1)
    sys.exit(0 if res["verdict"] == "held" else 2)


if __name__ == "__main__":
    main()
