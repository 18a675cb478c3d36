"""C04: a simulation resumed from a checkpoint goes on exactly as if it had never stopped."""

import os

import common as C
import disk
import harness
import models as M
import sim

ID = "C04"
LEVEL = "exploration"
QUICK = 300
KITS = (("wave", "direct"), ("wave_contact", "schur"), ("wave_contact", "global"),
        ("wave_interior", "global"))
RULE = ("one case = one wave simulation cut into seeded segments (resumed from a kept, copied or "
        "saved-and-loaded state, on the same or a new solver, here or in a new process) or killed "
        "and restarted by a driver that checkpoints every few steps (interrupts at arbitrary lines, "
        "disk errors), against the same simulation run once without stopping; non-trivial when at "
        "least one resume happened; distinct by workload digest and cut/fault history")
MEASURE = "hash of (workload digest, resume points and ways, faults fired)"
REAL = C.REAL + ["file system calls of saving and loading (libc interposed)"]
STUB = C.STUB_BASE + ["process restarts (forked processes)"]
PROBES = ("segment", "killed", "restart-from-file", "restart-from-zero", "products-carried",
          "fresh-process", "same-solver", "several-resumes", "failed-checkpoint")
SHRINK_LISTS = ("cuts", "kills")


def gen(rng):
    spec = M.gen_spec(rng, ["wave", "wave_contact", "wave_interior"], min_steps=3, max_steps=9,
                      products=True)
    n = spec["n"]
    sc = {"spec": spec, "mode": "cuts" if rng.random() < 0.5 else "kills", "cuts": [], "kills": [],
          "every": int(rng.integers(1, 4))}
    if sc["mode"] == "cuts":
        pts = sorted({int(v) for v in rng.integers(0, n, int(rng.integers(1, 4)))})
        for p in pts:
            sc["cuts"].append([p, str(rng.choice(["keep", "copy", "file", "file"])),
                               str(rng.choice(["same", "new", "process"])),
                               bool(rng.random() < 0.5)])
    else:
        for _ in range(int(rng.integers(1, 4))):
            kind = str(rng.choice(["interrupt", "memory", "disk"]))
            sc["kills"].append([kind, round(float(rng.random()), 6), round(float(rng.random()), 6),
                                str(rng.choice(["write", "rename", "fsync", "open"])),
                                int(rng.integers(0, 3))])
    return sc


def segment(spec, state, n, out, extra=(), solver=None):
    solver = solver or M.build(spec)
    kw = {"state": state} if state is not None else {}
    prods = (M.make_products(spec) if state is None else []) + list(extra)
    return solver, M.run(solver, spec, n=n, output_step=out, products=prods, **kw)


def _from_file(spec, path, n, out):
    s = M.ps.State.load(path)
    _, states = segment(spec, s, n, out)
    states[-1].save(path)
    return [M.snap(x) for x in states]


def run_cuts(sc, ctx, want):
    spec = sc["spec"]
    n = spec["n"]
    path = os.path.join(ctx.scratch, "ck")
    got = []
    bounds = [c[0] for c in sc["cuts"]] + [n]
    solver, states = segment(spec, None, bounds[0], list(range(0, bounds[0] + 1)))
    got += [M.snap(s) for s in states]
    state = states[-1]
    for i, (pt, carry, where, dense) in enumerate(sc["cuts"]):
        steps = bounds[i + 1] - pt
        out = list(range(1, steps + 1)) if dense and steps else [steps]
        ctx.probes["segment"] += 1
        ctx.probes["several-resumes"] += i == 1
        ctx.probes["products-carried"] += bool(spec["products"])
        if where == "process":
            state.save(path)
            snaps = harness.isolated(_from_file, spec, path, steps, out)
            state = M.ps.State.load(path)
            ctx.probes["fresh-process"] += 1
        else:
            if carry == "file":
                state.save(path)
                state = M.ps.State.load(path)
            elif carry == "copy":
                state = state.copy()
            ctx.probes["same-solver"] += where == "same"
            solver, states = segment(spec, state, steps, out,
                                     solver=solver if where == "same" else None)
            snaps = [M.snap(s) for s in states]
            state = states[-1]
        if dense:
            got += snaps if steps else []
        elif steps:
            got += [None] * (steps - 1) + snaps
        ctx.runs += 1
    for k, (g, w) in enumerate(zip(got, want)):
        if g is not None:
            ctx.expect_same(M.diff(g, w, **M.TOL), "resumed-differs",
                            f"{spec['kind']}/{spec['method']} step {k} cuts {sc['cuts']}")
    ctx.check(len(got) == len(want), "resumed-steps", f"{len(got)} != {len(want)} steps")
    return sc["cuts"]


def attempt(spec, path, root, every, kill, sites_only):
    """One life of the driver process: resume from the newest checkpoint, go on, checkpoint."""
    n, dt = spec["n"], spec["dt"]
    seen = {}
    with disk.Disk(root) as d:
        start = M.ps.State.load(path) if os.path.exists(path) else None
        begun = round(start.time / dt) if start is not None else 0
        failed = [0]

        def checkpoint(state):
            k = round(state.time / dt)
            seen[k] = M.snap(state)
            if k % every == 0:
                prods = state.products
                state.products = {a: b for a, b in prods.items() if a != "~hook"}
                try:
                    state.save(path)
                except OSError:
                    failed[0] += 1  # the driver goes on with the older checkpoint
                finally:
                    state.products = prods
            return None

        tr = sim.LineTracer(record=sites_only, at=kill[1] if kill and kill[0] != "disk" else None,
                            exc=kill[0] if kill and kill[0] != "disk" else "interrupt")
        if kill and kill[0] == "disk":
            d.plan([[kill[3], kill[4], "errno", "ENOSPC"]])
        final = None
        try:
            with tr:
                solver, states = segment(spec, start, n - begun, None, [M.Hook(checkpoint)])
            states[-1].products.pop("~hook", None)
            final = M.snap(states[-1])
        except sim.INJECTED:
            pass
        fired = [f[0] for f in d.fired()]
        return {"seen": seen, "final": final, "begun": begun, "sites": tr.sites, "dead": tr.fired,
                "fired": fired, "failed": failed[0], "events": tr.count}


def run_kills(sc, ctx, want):
    spec = sc["spec"]
    root = os.path.join(ctx.scratch, "disk")
    path = os.path.join(root, "ck")
    os.makedirs(root)
    hist = []
    for kill in list(sc["kills"]) + [None]:
        if kill and kill[0] != "disk":
            clone = os.path.join(ctx.scratch, "probe")
            os.makedirs(clone, exist_ok=True)
            p2 = os.path.join(clone, "ck")
            if os.path.exists(path):
                open(p2, "wb").write(open(path, "rb").read())
            sites = harness.isolated(attempt, spec, p2, clone, sc["every"], None, True)["sites"]
            if os.path.exists(p2):
                os.remove(p2)
            kill = [kill[0], sim.resolve_event(sites, kill[1], kill[2])]
        r = harness.isolated(attempt, spec, path, root, sc["every"], kill, False)
        ctx.runs += 1
        ctx.events += r["events"]
        ctx.sim_time += spec["dt"] * len(r["seen"])
        if kill:
            if kill[0] == "disk":
                ctx.faults["disk-error"] += len(r["fired"])
                ctx.probes["failed-checkpoint"] += r["failed"]
            else:
                ctx.faults["kill-" + kill[0]] += r["dead"] is not None
                ctx.probes["killed"] += r["dead"] is not None
        ctx.probes["restart-from-file"] += r["begun"] > 0
        ctx.probes["restart-from-zero"] += len(hist) > 0 and r["begun"] == 0
        ctx.probes["products-carried"] += r["begun"] > 0 and bool(spec["products"])
        hist.append([r["begun"], r["dead"], r["fired"], r["final"] is not None])
        for k, s in sorted(r["seen"].items()):
            ctx.expect_same(M.diff(s, want[k], **M.TOL), "restarted-differs",
                            f"{spec['kind']}/{spec['method']} step {k} after lives {hist}")
        if r["final"] is not None:
            ctx.expect_same(M.diff(r["final"], want[-1], **M.TOL), "restarted-final",
                            f"{spec['kind']} after lives {hist}")
    ctx.check(hist[-1][3], "no-progress", f"the driver did not finish after the faults: {hist}")
    return hist


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    want = C.reference(spec, list(range(0, spec["n"] + 1)))
    ctx.runs += 1
    ctx.sim_time += 2 * M.simulated_time(spec)
    hist = run_cuts(sc, ctx, want) if sc["mode"] == "cuts" else run_kills(sc, ctx, want)
    ctx.reached(C.spec_digest(want), hist)
