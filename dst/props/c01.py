"""C01: a saved state, loaded by anyone at any later time, is exactly the state at the save."""

import os
import pathlib

import numpy as np

import common as C
import disk
import harness
import models as M

ID = "C01"
LEVEL = "exploration"
QUICK = 260
KITS = C.ALL_KITS
RULE = ("one case = one seeded workload (problem kind, mesh, method, products, steps), saves of "
        "returned or live states under transparent disk faults (short writes/reads, EINTR), later "
        "activity in the saving process, then loads in the saving and in a fresh process; "
        "non-trivial when at least one save was loaded back and compared; distinct by the digest "
        "of the saved fields, op sequence and fired faults")
MEASURE = "hash of (workload kind, saved fields, later activity, faults fired)"
REAL = C.REAL + ["the file system below a scratch directory, through an interposed libc layer"]
STUB = C.STUB_BASE + ["fsync (logged, not forced to a device)"]
PROBES = ("live-save", "fresh-process-load", "overwritten-other", "resaved", "stress-after-load")
SHRINK_LISTS = ("ops", "disk")


def gen(rng):
    kinds = list(M.KINDS) + ["static3d"] if rng.random() < 0.06 else list(M.KINDS)
    spec = M.gen_spec(rng, kinds, max_steps=4, products=True)
    ops = []
    for _ in range(int(rng.integers(0, 5))):
        ops.append(str(rng.choice(["solve_again", "mutate", "save_other", "copy", "stress",
                                   "resave", "load"])))
    faults = []
    for _ in range(int(rng.integers(0, 5))):
        op = str(rng.choice(["write", "write", "read"]))
        if rng.random() < 0.7:
            faults.append([op, int(rng.integers(0, 6)), "short", int(rng.integers(1, 60000))])
        else:
            faults.append([op, int(rng.integers(0, 6)), "errno", "EINTR"])
    return {"spec": spec, "ops": ops, "disk": faults, "live": bool(rng.random() < 0.35),
            "pick": float(rng.random()), "pathlike": bool(rng.random() < 0.4),
            "law": bool(rng.random() < 0.5)}


def exact(a, b):
    return M.diff(a, b, rtol=0.0, atol=0.0)


def stress_law(*, velocity, displacement, absement, setup, elements, nodes, time):
    e = displacement[elements].mean(axis=1) + 0.5 * velocity[elements].mean(axis=1)
    return np.stack([e, e[:, ::-1]], axis=1)[:, :, :2] * (1.0 + time)


def mesh_facts(state):
    return state.body.mesh.nodes.tolist(), state.body.mesh.elements.tolist()


def load_facts(path):
    s = M.ps.State.load(path)
    out = {"snap": M.snap(s), "cls": type(s).__name__, "mesh": mesh_facts(s)}
    c = s.copy()
    out["copy"] = M.snap(c)
    s.constitutive_law = stress_law
    out["stress"] = np.array(s.stress)
    out["stress_norm"] = np.array(s.stress_norm)
    return out


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    root = os.path.join(ctx.scratch, "disk")
    path = os.path.join(root, "state one")
    arg = pathlib.Path(path) if sc["pathlike"] else path
    with disk.Disk(root) as d:
        d.plan(sc["disk"])
        want = {}

        def save(state):
            if sc["law"]:
                state.constitutive_law = stress_law
                state.setup = spec["kind"]
            before = M.snap(state)
            facts = {"snap": before, "cls": type(state).__name__, "mesh": mesh_facts(state)}
            state.save(arg)
            want.update(facts)

        solver = M.build(spec)
        out = [] if spec["kind"] in M.ONE_STEP else None
        steps = list(range(1, spec["n"] + 1))
        if sc["live"] and M.supports_products(spec["kind"]):
            pick = int(sc["pick"] * max(1, spec["n"])) + 1
            seen = [0]

            def observer(state):
                seen[0] += 1
                if seen[0] == (1 if out is not None else pick):
                    ctx.probes["live-save"] += 1
                    # the observer itself is user code which cannot be pickled
                    prods = state.products
                    state.products = {k: v for k, v in prods.items() if k != "~hook"}
                    try:
                        save(state)
                    finally:
                        state.products = prods
                return None

            states = M.run(solver, spec, output_step=None if out is not None else steps,
                           products=M.make_products(spec) + [M.Hook(observer)])
            for s in states:
                s.products.pop("~hook", None)
        else:
            states = M.run(solver, spec, output_step=None if out is not None else steps)
            save(states[int(sc["pick"] * len(states)) % len(states)])
        saved = states[int(sc["pick"] * len(states)) % len(states)]
        ctx.runs += 1
        ctx.sim_time += M.simulated_time(spec)

        for op in sc["ops"]:
            if op == "solve_again":
                M.run(solver, spec)
                ctx.runs += 1
            elif op == "mutate":
                saved.displacement[:] = 7.0
                saved.velocity[:] = -3.0
                saved.time = 99.0
                for p in saved.products.values():
                    p.data.clear()
            elif op == "save_other":
                states[0].save(os.path.join(root, "other"))
                ctx.probes["overwritten-other"] += 1
            elif op == "copy":
                saved.copy()
            elif op == "stress":
                states[-1].constitutive_law = stress_law
                _ = states[-1].stress
            elif op == "resave":
                # saving what was loaded changes nothing
                again = M.ps.State.load(path)
                again.save(path)
                ctx.probes["resaved"] += 1
            elif op == "load":
                M.ps.State.load(path).displacement[:] = 5.0
        fired = d.fired()
        for f in fired:
            ctx.faults[f"{f[0]}-{f[2]}" + (f"-{f[3]}" if f[2] == "errno" else "")] += 1
        d.clear()

    for who, facts in (("saving process", load_facts(path)),
                       ("fresh process", harness.isolated(load_facts, path))):
        ctx.probes["fresh-process-load"] += who == "fresh process"
        ctx.expect_same(exact(facts["snap"], want["snap"]), "loaded-differs", f"{who}")
        ctx.check(facts["cls"] == want["cls"], "loaded-class", f"{who}: {facts['cls']}")
        ctx.check(facts["mesh"] == want["mesh"], "loaded-mesh", f"{who}: mesh differs")
        ctx.expect_same(exact(facts["copy"], want["snap"]), "loaded-copy-differs", who)
        w = want["snap"]
        exp = stress_law(velocity=w["velocity"], displacement=w["displacement"],
                         absement=w["absement"], setup=None,
                         elements=np.array(want["mesh"][1]), nodes=None, time=w["time"])
        ctx.check(M.close(facts["stress"], exp), "loaded-stress",
                  f"{who}: stress of the loaded state is not computed from its fields")
        ctx.check(M.close(facts["stress_norm"], np.linalg.norm(exp, axis=(1, 2))),
                  "loaded-stress", f"{who}: stress norm")
        ctx.probes["stress-after-load"] += 1
    ctx.reached(spec["kind"], C.spec_digest([want["snap"]]), sc["ops"], fired)
