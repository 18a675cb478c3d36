"""C13: a body with given element densities behaves by those densities alone, however often and
through whatever failures they were changed."""

import numpy as np

import common as C
import harness
import models as M
import refmodel as R
import sim
from props import c06, c11

ID = "C13"
LEVEL = "exploration"
QUICK = 420
KITS = (("static", "direct"), ("static", "schur"), ("static", "schur", "slope2"),
        ("static", "global"), ("static", "direct", "slope2"), ("static", "schur", "rich"),
        ("static", "global", "rich"))
RULE = ("one case = one non-homogenous static problem whose element densities are changed by a seeded "
        "history (updates from arrays and lists the caller changes afterwards, solves, method "
        "switches, updates and solves killed at an arbitrary line or by a failing callback), each "
        "completed solve compared with an independent finite element model with the densities in "
        "force and with a fresh solver in its own process; after a killed update the densities in "
        "force are the old or the new ones; non-trivial when a solve was compared after an update; "
        "distinct by workload digest, history and fault sites")
MEASURE = "hash of (workload digest, history, fault sites)"
REAL = C.REAL
STUB = C.STUB_BASE + ["terminal (stdout) and optimiser entry point when they are made to fail"]
PROBES = ("update", "solve", "method", "killed-update", "killed-solve", "caller-overwrites", "uniform",
          "compared-after-kill", "several-updates", "same-array", "near-densities", "direct", "schur",
          "global")
SHRINK_LISTS = ("ops",)
OPS = ("update", "update", "update", "solve", "method", "kill_update", "kill_update", "interrupt",
       "optimiser", "init")


def gen(rng):
    spec = M.gen_spec(rng, ["static"], ref=True, disjoint=bool(rng.random() < 0.5))
    ops = []
    for _ in range(int(rng.integers(1, 6))):
        ops.append([str(rng.choice(OPS)), c06.variation(rng, spec), int(rng.integers(1 << 30)),
                    round(float(rng.random()), 6), round(float(rng.random()), 6)])
    return {"spec": spec, "ops": ops, "last": int(rng.integers(1 << 30))}


def draw(seed, n):
    r = np.random.default_rng(seed)
    kind = seed % 5
    if kind == 0:
        return np.full(n, round(float(r.uniform(0.3, 3)), 3))
    if kind == 1:
        return np.where(r.random(n) < 0.5, 1.0, 0.2)
    if kind == 2:
        d = np.ones(n)
        d[int(r.integers(n))] = 5.0
        return d
    return np.round(r.uniform(0.1, 4.0, n), 3)


def near(seed, last):
    """Densities easily mistaken for the last ones: rearranged, or hardly changed in one element."""
    r = np.random.default_rng(seed)
    if seed % 2:
        return r.permutation(last)
    d = np.array(last)
    d[int(r.integers(len(d)))] *= float(r.choice([1.1, 1.0005, 1.000005]))
    return d


def make(spec, gate=None):
    return M.build(spec, gate, solver_cls="NonHomogenousSolver")


def fresh(spec, density):
    solver = make(spec)
    if density is not None:
        solver.update_density(np.array(density))
    return [M.snap(s) for s in M.run(solver, spec)]


def event_sites(spec, density):
    def go():
        solver = make(spec)
        with sim.LineTracer(record=True) as tr:
            solver.update_density(np.array(density))
        return tr.sites
    return harness.isolated(go)


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    gate = c06.Gate()
    solver = make(spec, gate)
    n = len(solver.body.mesh.elements)
    nodes, elements = np.array(solver.body.mesh.nodes), np.array(solver.body.mesh.elements)
    method = spec["method"]
    # Densities which may be in force: several after a killed update, until one completes (the step
    # solver may have the old one and a switch of method, which makes a new step solver, find the new).
    force = [None]
    buffer = np.zeros(n)
    hist, killed, updates, digest = [], False, 0, []

    def check(snaps, sp):
        tol = 5e-3  # optimiser accuracy at stiffness contrasts up to 40; largest seen 7e-4
        errs = []
        for d in force:
            fem = R.Fem(nodes, elements, sp, density=d)
            first = R.initial(sp, nodes)
            # known findings K2 (normals) and K3 (Dirichlet corners) of C11 are not judged here
            for listed in [None] + list(range(len(fem.contact_listed) * bool(fem.contact))):
                for corner in (None, "soft")[:1 + (fem.corner and method != "schur")]:
                    e = min(c11.error(snaps[0], a, 0.0)
                            for a in R.step(fem, sp, first, listed=listed, corner=corner))
                    errs.append((e[0], d))
        ctx.checks += 1
        best = min(errs, key=lambda e: e[0])
        what = f"static/{method} after {hist}"
        if best[0] > tol:
            ctx.violation("wrong-density-in-force", f"{what}: off by {best[0]:.2e} of its size")
            return
        want = harness.isolated(fresh, sp, best[1])
        ctx.runs += 1
        ctx.expect_same(M.diff_lists(snaps, want, **M.TOL), "history-dependent", what)
        ctx.probes["compared-after-kill"] += killed
        ctx.probes["several-updates"] += updates > 1
        digest.append(C.spec_digest(want))

    tail = [["update", sc["ops"][0][1] if sc["ops"] else None, sc["last"], 0.0, 0.0]]
    for op, var, seed, u, v in sc["ops"] + tail:
        sp = dict(spec, method=method)
        if var is not None:
            sp = dict(c06.varied(spec, var), method=method)
        ctx.runs += 1
        if op == "update":
            d = draw(seed, n)
            if seed % 7 < 3 and force[-1] is not None:
                d = near(seed, force[-1])
                ctx.probes["near-densities"] += 1
            given = d.copy() if seed % 3 else d.tolist()
            if seed % 3 and seed % 4 < 2:  # the caller's one array, given again and again
                buffer[:] = d
                given = buffer
                ctx.probes["same-array"] += 1
            solver.update_density(given)
            force[:] = [d]
            updates += 1
            ctx.probes["update"] += 1
            ctx.probes["uniform"] += bool(np.all(d == d[0]))
            if seed % 2:
                ctx.probes["caller-overwrites"] += 1
                given[:] = [77.0] * n
            hist.append(op)
            if u < 0.5:  # solve at once, or leave it to the rest of the history
                ctx.probes["solve"] += 1
                check([M.snap(s) for s in M.run(solver, sp)], sp)
        elif op == "solve":
            ctx.probes["solve"] += 1
            check([M.snap(s) for s in M.run(solver, sp)], sp)
            hist.append(op)
        elif op == "kill_update":
            d = draw(seed, n)
            sites = event_sites(dict(spec, method=method), d)
            tr = sim.LineTracer(at=sim.resolve_event(sites, u, v))
            try:
                with tr:
                    solver.update_density(d)
                force[:] = [d]
            except sim.SimInterrupt:
                force.append(d)
            ctx.faults["interrupt-in-update"] += tr.fired is not None
            ctx.probes["killed-update"] += tr.fired is not None
            killed = True
            hist.append([op, tr.fired])
        elif op == "method":
            allowed = [m for m in M.METHODS["static"] if not (
                m == "schur" and spec["contact"] == "none") and not (
                m == "direct" and spec["law"] == "rich")]
            method = allowed[int(u * len(allowed))]
            solver.solving_method = method
            # a switch builds the step solver from the operators: whatever is in force stays
            ctx.probes["method"] += 1
            hist.append([op, method])
        else:
            snaps, site = c06.faulty(op, u, v, solver, sp, None, gate, ctx)
            if snaps is None:
                ctx.probes["killed-solve"] += 1
                killed = True
            else:
                check(snaps, sp)
            hist.append([op, str(site), snaps is not None])
    ctx.probes[method] += 1
    ctx.reached(digest, hist)
