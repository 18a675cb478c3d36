"""C12: a result depends on the problem alone, not on the process it is computed in."""

import gc
import json
import os
import random
import signal
import subprocess
import sys
import threading

import numpy as np

import common as C
import harness
import memory
import models as M
import sim

ID = "C12"
LEVEL = "exploration"
QUICK = 420
KITS = C.ALL_KITS + C.KITS_3D
RULE = ("one case = one seeded workload computed in a disturbed process (clocks jumping, uninitialised "
        "and freed memory poisoned, identities of dead objects recycled, other random seeds, collector thresholds and collections at "
        "arbitrary lines, other thread, directory, floating point, print and terminal settings, near "
        "variants of the same problem built, solved and dropped before; some in a newly executed "
        "interpreter with another hash seed, -O, debug allocator or more BLAS threads), compared with "
        "a calm process; process-wide settings must be left as found; non-trivial when at least one "
        "disturbance was active; distinct by disturbances and workload digest")
MEASURE = "hash of (disturbances, workload digest)"
REAL = C.REAL
STUB = C.STUB_BASE + ["clocks", "content of uninitialised memory", "terminal"]
PROBES = ("clock", "poison", "random", "gc", "thread", "cwd", "fperr", "printoptions", "stdout",
          "churn", "nested", "ids", "exec", "settings-checked")
SHRINK_LISTS = ("env", "churn")
ENVS = ("clock", "poison", "poison", "random", "gc", "thread", "cwd", "fperr", "printoptions",
        "stdout", "nested", "ids", "ids")
EXEC_KITS = (("dynamic", "direct"), ("wave", "direct"), ("quasistatic", "schur"),
             ("poisson", "direct"), ("dynamic", "schur"))


def variant(rng, spec):
    """A problem which differs from ``spec`` in one respect only."""
    v = json.loads(json.dumps(spec))
    keys = ["mesh", "dt", "inner", "outer", "u0", "v0", "mu", "la", "th", "ze", "dirichlet_value",
            "side", "n"]
    keys += [k for k in ("propagation", "relaxation", "expansion", "conductivity", "piezo_t",
                         "permittivity", "b0", "s0") if k in spec]
    if spec["law"] in ("slope", "slope2") and not spec["kind"].endswith("3d"):
        keys += ["law"] * 3
    if not spec["kind"].endswith("3d"):
        keys += ["flip"] * 2
    k = str(rng.choice(keys))
    f = lambda x: round(x * float(rng.uniform(1.1, 2.0)) + 0.01, 4)
    if k == "mesh":
        m = v["mesh"]
        if m["kind"] == "cross":
            which = int(rng.integers(3))
            if which < 2:
                m["scale"][which] = f(m["scale"][which])
            else:
                m["per"] = 1.0 if m["per"] != 1.0 else 0.5
        else:
            pts = np.array(m["points"])
            inner = (pts > 1e-9).all(axis=1) & (pts < 1 - 1e-9).all(axis=1)
            pts[inner] += 0.01
            m["points"] = np.round(pts, 6).tolist()
    elif k == "law":
        v[k] = "slope2" if v[k] == "slope" else "slope"
    elif k == "flip":
        v["mesh"] = M.flipped(v["mesh"], rng)
    elif k == "side":
        if spec["kind"].startswith("wave"):
            v["dirichlet"] = "left" if v["dirichlet"] != "left" else "all"
            if spec["kind"] == "wave_contact":
                v["dirichlet"] = "left"
        elif v["contact"] != "none":
            v["contact"] = "right" if v["contact"] != "right" else "bottom"
    elif k in ("inner", "outer"):
        v[k] = M.gen_force(rng)
    elif k == "n":
        v[k] = 1 + spec[k] % 3
    elif k == "relaxation":
        v[k]["k"] = f(v[k]["k"])
    elif isinstance(v[k], float):
        v[k] = f(v[k])
    else:
        v[k] = (np.array(v[k]) * 1.3 + 0.0007).round(5).tolist()
        if k == "permittivity" or k == "conductivity":
            v[k][0][1] = v[k][1][0] = 0.03
    return v


def gen(rng):
    kinds = ["static", "poisson", "static3d", "poisson3d", "wave", "wave_contact", "wave_interior",
             "quasistatic", "dynamic", "dynamic", "relaxation", "relaxation", "temperature", "piezo"]
    spec = M.gen_spec(rng, kinds, max_steps=4, min_steps=1, products=True)
    if rng.random() < 0.02:
        kind, method = EXEC_KITS[int(rng.integers(len(EXEC_KITS)))]
        spec = M.gen_spec(rng, [kind], methods=[method], max_steps=3, products=True)
        return {"spec": spec, "env": [], "churn": [],
                "exec": {"hash": int(rng.integers(1, 1 << 31)), "opt": bool(rng.random() < 0.4),
                         "malloc": str(rng.choice(["debug", "malloc", "pymalloc"])),
                         "threads": int(rng.choice([1, 1, 4]))}}
    env = []
    for e in rng.permutation(ENVS)[:int(rng.integers(1, 5))]:
        if str(e) not in [x[0] for x in env]:
            env.append([str(e), int(rng.integers(1 << 30))])
    churn = [variant(rng, spec) for _ in range(int(rng.integers(0, 4)))]
    return {"spec": spec, "env": env, "churn": churn, "exec": None}


class Env:
    """The disturbances of one case; restores what it changed."""

    def __init__(self, env, ctx, scratch):
        self.env, self.ctx, self.scratch = dict(env), ctx, scratch
        self.undo = []

    def __enter__(self):
        env = self.env
        if "clock" in env:
            r = np.random.default_rng(env["clock"])
            jumps = [float(x) for x in r.choice([0, 0, -3600.0, 1e5, -1e-3, 2.0, -1e8], 5)]
            c = sim.Clock(jumps=jumps)
            c.__enter__()
            self.undo.append(lambda: (self.ctx.faults.update(
                {"clock-read": sum(c.reads.values())}), c.__exit__(None, None, None)))
        if "random" in env:
            np.random.seed(env["random"] % (1 << 31))
            random.seed(env["random"])
        if "gc" in env:
            old = gc.get_threshold()
            if env["gc"] % 3 == 0:
                gc.disable()
            else:
                gc.set_threshold(1 + env["gc"] % 7, 1, 1)
            self.undo.append(lambda old=old: (gc.set_threshold(*old), gc.enable()))
        if "cwd" in env:
            old = os.getcwd()
            d = os.path.join(self.scratch, "elsewhere")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            self.undo.append(lambda old=old: os.chdir(old))
        if "fperr" in env:
            old = np.seterr(all=("ignore", "warn")[env["fperr"] % 2])
            self.undo.append(lambda old=old: np.seterr(**old))
        if "printoptions" in env:
            old = np.get_printoptions()
            np.set_printoptions(precision=1, threshold=3, edgeitems=1, suppress=True)
            self.undo.append(lambda old=old: np.set_printoptions(**old))
        if "stdout" in env:
            old = sys.stdout
            sys.stdout = None if env["stdout"] % 2 else sim.Sink()
            self.undo.append(lambda old=old: setattr(sys, "stdout", old))
        return self

    def __exit__(self, *_):
        for u in reversed(self.undo):
            u()
        return False


def settings():
    return {
        "np.random": repr(np.random.get_state()), "random": hash(random.getstate()),
        "directory": os.getcwd(), "errors": repr(np.geterr()), "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(), "print options": repr(np.get_printoptions()),
        "threads": threading.active_count(), "SIGINT": repr(signal.getsignal(signal.SIGINT)),
        "stdout": id(sys.stdout), "collector": (gc.isenabled(), gc.get_threshold()),
    }


def compute(sc, ctx):
    """The disturbed run -> (snaps, changed settings, computation times)."""
    spec, env = sc["spec"], dict(sc["env"])
    out = None if spec["kind"] in M.ONE_STEP else list(range(1, spec["n"] + 1))
    box = {}

    def work():
        on_line = None
        if "gc" in env:
            period = 37 + env["gc"] % 400
            on_line = lambda k: gc.collect(0) if k % period == 0 else None
        ids = memory.Ids() if "ids" in env else None
        pz = memory.Poison((0xFF, 0x41, 0x00, 0x7F)[env["poison"] % 4]) if "poison" in env else None
        try:
            if pz:
                pz.__enter__()
            if ids:
                ids.__enter__()
            for v in sc["churn"]:
                s = M.build(v)
                M.run(s, v)
                del s
                if ids:
                    gc.collect()
            before = settings()
            gate = None
            if "nested" in env:
                other = sc["churn"][0] if sc["churn"] else spec
                calls = [0]

                def gate(name, x, t):
                    calls[0] += 1
                    if calls[0] == 1 + env["nested"] % 40:
                        ctx.faults["nested-simulation"] += 1
                        M.run(M.build(other), dict(other, n=1))
            tr = sim.LineTracer(on_line=on_line)
            if on_line:
                tr.__enter__()
            try:
                solver = M.build(spec, gate)
                got = [M.snap(s) for s in M.run(solver, spec, output_step=out)]
            finally:
                if on_line:
                    tr.__exit__()
                    ctx.events += tr.count
            after = settings()
            box["changed"] = [k for k in before if before[k] != after[k]]
            box["got"] = got
            box["times"] = [getattr(getattr(solver, a, None), "computation_time", 0.0)
                            for a in ("step_solver", "second_step_solver")]
        except BaseException as e:  # noqa
            box["error"] = e
        finally:
            if ids:
                ids.__exit__()
                ctx.faults["recycled-identity"] += ids.reused
            if pz:
                pz.__exit__()
                ctx.faults["poisoned-buffer"] += pz.hits

    with Env(sc["env"], ctx, ctx.scratch):
        if "thread" in env:
            t = threading.Thread(target=work)
            t.start()
            t.join()
        else:
            work()
    if "error" in box:
        raise box["error"]
    return box


def executed(sc, ctx):
    """The same workload in a newly executed interpreter."""
    e = sc["exec"]
    env = dict(os.environ)
    env.update({"PYTHONHASHSEED": str(e["hash"]), "PYTHONMALLOC": e["malloc"],
                "OMP_NUM_THREADS": str(e["threads"]), "OPENBLAS_NUM_THREADS": str(e["threads"])})
    path = os.path.join(ctx.scratch, "case.json")
    res = os.path.join(ctx.scratch, "result.pickle")
    json.dump(sc["spec"], open(path, "w"))
    cmd = [sys.executable] + (["-O"] if e["opt"] else []) + [os.path.abspath(__file__), path, res]
    p = subprocess.run(cmd, env=env, cwd=ctx.scratch, capture_output=True, text=True, timeout=110)
    if p.returncode == 1 and "/conmech/" in p.stderr:
        raise harness.CodeError(p.stderr[-1500:])
    if p.returncode:
        raise harness.HarnessError(f"executed child failed: {p.stderr[-800:]}")
    import pickle

    return pickle.load(open(res, "rb"))


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    out = None if spec["kind"] in M.ONE_STEP else list(range(1, spec["n"] + 1))
    want = C.reference(spec, out)
    ctx.runs += 2 + len(sc["churn"])
    ctx.sim_time += 2 * M.simulated_time(spec)
    what = f"{spec['kind']}/{spec['method']}"
    if sc["exec"]:
        ctx.probes["exec"] += 1
        ctx.faults["other-interpreter"] += 1
        got = executed(sc, ctx)
        ctx.expect_same(M.diff_lists(got, want, rtol=1e-6, atol=1e-9), "environment-dependent",
                        f"{what} in an interpreter with {sc['exec']}")
        ctx.reached(sc["exec"], C.spec_digest(want))
        return
    for e, _ in sc["env"]:
        ctx.probes[e] += 1
        ctx.faults[e] += 1
    ctx.probes["churn"] += bool(sc["churn"])
    box = compute(sc, ctx)
    names = [e[0] for e in sc["env"]]
    ctx.expect_same(M.diff_lists(box["got"], want, **M.TOL), "environment-dependent",
                    f"{what} with {names} after {len(sc['churn'])} near variants")
    ctx.probes["settings-checked"] += 1
    if "nested" not in names:
        ctx.check(not box["changed"], "settings-changed", f"{what}: changed {box['changed']}")
    ctx.check(all(t >= 0 for t in box["times"]), "negative-time",
              f"{what} with {names}: computation time {box['times']}")
    ctx.reached(sc["env"], len(sc["churn"]), C.spec_digest(want))


if __name__ == "__main__":
    import pickle
    import warnings

    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    warnings.simplefilter("ignore")
    spec_ = json.load(open(sys.argv[1]))
    steps = None if spec_["kind"] in M.ONE_STEP else list(range(1, spec_["n"] + 1))
    sys.stdout = open(os.devnull, "w")
    snaps = C.fresh_run(spec_, steps)
    with open(sys.argv[2], "wb") as f_:
        pickle.dump(snaps, f_)
