"""C11: every step taken is the solution of that step's discrete problem, whatever came before."""

import itertools

import numpy as np

import common as C
import models as M
import refmodel as R
from props import c06

ID = "C11"
LEVEL = "exploration"
QUICK = 420
KITS = C.ALL_KITS + C.KITS_3D + (("static3d", "global", "rich"), ("dynamic", "schur", "rich"), ("dynamic", "global", "rich"),
                     ("relaxation", "schur", "rich"), ("static", "schur", "rich"),
                     ("wave_contact", "schur", "slope"), ("wave_contact", "global", "slope"),
                     ("wave_interior", "global", "slope_i"))
RULE = ("one case = one seeded problem (kind, mesh, contact law, method, loads varying in time and "
        "space, initial data) solved on a solver with a seeded history (completed, killed, failed and "
        "abandoned solves, method switches), every step compared with an independent finite element "
        "reference model advanced from the state before the step; non-trivial when a step was "
        "compared; distinct by workload digest, history and fault sites")
MEASURE = "hash of (workload digest, history, fault sites)"
REAL = C.REAL
STUB = C.STUB_BASE + ["terminal (stdout) and optimiser entry point when they are made to fail"]
PROBES = ("solve", "interrupt", "callback", "method", "fresh", "contact-active", "after-failure",
          "static", "poisson", "wave", "wave_contact", "wave_interior", "quasistatic", "dynamic",
          "relaxation", "temperature", "piezo", "law-rich", "law-slope", "law-slope_i", "schur",
          "global", "direct", "static3d", "poisson3d", "warped", "two-contact-sides",
          "optimiser-CG", "optimiser-L-BFGS-B", "optimiser-Powell", "optimiser-SLSQP",
          "optimiser-gradiented BFGS", "optimiser-gradiented CG")
SHRINK_LISTS = ("ops",)
KINDS = ["static", "static", "static3d", "poisson", "poisson3d", "wave", "wave_contact", "wave_interior",
         "quasistatic", "quasistatic", "dynamic", "dynamic", "relaxation", "relaxation", "temperature", "piezo"]
# largest relative error seen on 3000 steps is 4e-4 (piezo), 5e-5 (others)
TOL = {"piezo": 4e-3}


def gen(rng):
    kind = str(rng.choice(KINDS))
    spec = M.gen_spec(rng, [kind], max_steps=4, ref=True, disjoint=bool(rng.random() < 0.4))
    ops = []
    for _ in range(int(rng.choice([0, 0, 1, 2, 3]))):
        op = str(rng.choice(["solve", "interrupt", "interrupt", "callback", "optimiser", "init",
                             "method", "stdout"]))
        if kind == "temperature" and rng.random() < 0.4:
            op = "abandon"
        ops.append([op, c06.variation(rng, spec), round(float(rng.random()), 6),
                    round(float(rng.random()), 6)])
    opt = None
    if spec["method"] != "direct" and kind not in ("temperature", "piezo") and rng.random() < 0.4:
        opt = str(rng.choice(["CG", "L-BFGS-B", "Powell", "SLSQP"] + (
            ["gradiented BFGS", "gradiented CG"] * 2 if spec["law"] in ("slope", "slope2") else [])))
    return {"spec": spec, "ops": ops, "opt": opt,
            "array": kind in ("static", "static3d") and bool(rng.random() < 0.3)}


def error(got, ref, dt):
    vel = np.max(np.abs(ref["velocity"])) if "velocity" in ref else 0.0
    worst, where = 0.0, ""
    for f in ref:
        scale = 4e-3 + np.max(np.abs(ref[f])) + (dt * vel if f == "displacement" else 0.0)
        e = float(np.max(np.abs(got[f] - ref[f])) / scale)
        if not np.isfinite(e):
            e = np.inf
        if e > worst:
            worst, where = e, f
    return worst, where


def judge(ctx, fem, spec, prev, cur, k, hist):
    """Is ``cur`` the solution of the step that starts at ``prev``?"""
    tol = TOL.get(spec["kind"], 5e-4)
    what = f"{spec['kind']}/{spec['method']} law {R.law_of(spec)} step {k} after {hist}"

    def best(**kw):
        return min(error(cur, a, spec["dt"]) for a in R.step(fem, spec, prev, **kw))

    e, f = best()
    ctx.checks += 1
    if e <= tol:
        return
    corners = [None]
    if fem.corner:
        corners += ["soft"] * (spec["method"] != "schur" or spec["kind"] == "piezo")
        corners += ["potential"] * (spec["method"] == "schur" and spec["kind"] == "piezo")
    direct = spec["method"] == "direct" and spec["kind"] in ("wave", "dynamic")
    contact = spec["contact"] != "none"
    either = lambda b: (False, True)[:1 + bool(b)]
    signs = [None] + list(range(len(fem.contact_listed)))[:contact * 81]
    for known in sorted(itertools.product(either(direct), signs, corners,
                                          either(contact and fem.dim == 3)),
                        key=lambda k: sum(v not in (None, False) for v in k))[1:]:
        frozen, listed, corner, flat = known
        if best(frozen=frozen, listed=listed, corner=corner, flat=flat)[0] <= tol:
            if frozen:
                ctx.violation("direct-load-frozen", what)
            if listed is not None:
                ctx.violation("contact-normal-of-another-surface", what)
            if corner:
                ctx.violation("contact-law-at-dirichlet-node", what)
            if flat:
                ctx.violation("contact-face-weighted-by-edge", what)
            return
    ctx.violation("step-not-a-solution", f"{what}: {f} is off by {e:.2e} of its size")


def check_states(ctx, solver, spec, hist, **kw):
    nodes = np.array(solver.body.mesh.nodes)
    fem = R.Fem(nodes, solver.body.mesh.elements, spec)
    first = R.initial(spec, nodes)
    if spec["kind"] in M.ONE_STEP:
        cur = [M.snap(s) for s in M.run(solver, spec, **kw)]
        judge(ctx, fem, spec, first, cur[0], 1, hist)
        return cur
    out = list(range(0, spec["n"] + 1))
    states = [M.snap(s) for s in M.run(solver, spec, output_step=out, **kw)]
    ctx.check(len(states) == len(out), "missing-states", f"{len(states)} for {out}")
    e, f = error(states[0], {k: v for k, v in first.items() if k not in ("time",)
                             and k in states[0]}, 0)
    ctx.check(e < 1e-9, "initial-state", f"{spec['kind']}: {f} of the initial state is off by {e}")
    for k in range(1, len(states)):
        judge(ctx, fem, spec, states[k - 1], states[k], k, hist)
    if fem.contact and spec["law"] in ("slope", "slope2", "rich"):
        v = states[-1]["velocity" if spec["kind"] != "relaxation" else "displacement"]
        ctx.probes["contact-active"] += any(
            v[list(ids)].sum(axis=0) @ nrm > 0 for ids, _, nrm in fem.contact)
    return states


def run(sc, ctx):
    spec = sc["spec"]
    kind = spec["kind"]
    ctx.kinds[kind] += 1
    gate = c06.Gate()
    solver = M.build(spec, gate)
    method, hist, keep, failed = spec["method"], [], [], False
    for op, var, u, v in sc["ops"]:
        sp = dict(c06.varied(spec, var), method=method)
        out = c06.output(spec, var)
        ctx.probes[op] += 1
        if op == "solve":
            M.run(solver, sp, output_step=out)
            hist.append(op)
        elif op == "method":
            allowed = [m for m in M.METHODS[kind] if not (
                m == "schur" and spec["contact"] == "none") and not (
                m == "direct" and spec["law"] == "rich")]
            method = allowed[int(u * len(allowed))]
            solver.solving_method = method
            hist.append([op, method])
        elif op == "abandon":
            g = iter(M.start(solver, sp, output_step=list(range(0, sp["n"] + 1))))
            for _ in range(int(u * (sp["n"] + 1))):
                next(g)
            keep.append(g)
            ctx.faults["abandoned-generator"] += 1
            failed = True
            hist.append([op, int(u * (sp["n"] + 1))])
        else:
            snaps, site = c06.faulty(op, u, v, solver, sp, out, gate, ctx)
            failed = failed or snaps is None
            hist.append([op, str(site), snaps is not None])
        ctx.runs += 1
        ctx.sim_time += M.simulated_time(sp)
    kw = {}
    if sc.get("opt") and method != "direct":
        kw["method"] = sc["opt"]
        ctx.probes["optimiser-" + sc["opt"]] += 1
    if sc.get("array"):
        kw["initial_displacement"] = M.solve_kwargs(spec)["initial_displacement"](
            solver.body.mesh.nodes)
    states = check_states(ctx, solver, dict(spec, method=method), hist + [sc.get("opt")], **kw)
    ctx.runs += 1
    ctx.sim_time += M.simulated_time(spec)
    ctx.probes["fresh"] += not hist
    ctx.probes["after-failure"] += failed
    ctx.probes[kind] += 1
    ctx.probes["warped"] += bool(spec["mesh"].get("warp"))
    ctx.probes["two-contact-sides"] += spec["contact"] == "corner"
    ctx.probes["law-" + str(R.law_of(spec))] += 1
    ctx.probes[method] += 1
    ctx.reached(C.spec_digest(states), hist)
