"""C06: what a solver computes does not depend on what it was used for before."""

import gc
import sys

import scipy.optimize

import common as C
import harness
import models as M
import sim

ID = "C06"
LEVEL = "exploration"
QUICK = 330
KITS = C.ALL_KITS + C.KITS_3D
RULE = ("one case = one solver put through a seeded history (completed solves with other initial "
        "data, lengths, outputs or optimiser settings; solves killed by an interrupt at an arbitrary "
        "line, a failing force, initial field, product, optimiser or terminal; abandoned "
        "generators; switches of the solving method), each completed solve compared with a fresh "
        "solver in a process of its own; non-trivial when a compared solve had a history; distinct "
        "by history, places where faults hit, and workload digest")
MEASURE = "hash of (workload digest, history, fault sites)"
REAL = C.REAL
STUB = C.STUB_BASE + ["terminal (stdout) and optimiser entry point when they are made to fail"]
PROBES = ("solve", "interrupt", "callback", "init", "product", "optimiser", "stdout", "abandon",
          "method", "settings", "compared-after-failure")
SHRINK_LISTS = ("ops",)
OPS = ("solve", "interrupt", "interrupt", "interrupt", "callback", "init", "product", "optimiser",
       "stdout", "abandon", "method", "settings")


def gen(rng):
    kinds = ["static", "poisson", "static3d", "poisson3d", "wave", "wave_contact", "wave_interior",
             "quasistatic", "dynamic", "dynamic", "relaxation", "relaxation", "temperature", "piezo"]
    spec = M.gen_spec(rng, kinds, max_steps=4, min_steps=1, products=True)
    ops = []
    for _ in range(int(rng.integers(1, 5))):
        op = str(rng.choice(OPS))
        if spec["kind"] == "temperature" and rng.random() < 0.4:
            op = "abandon"
        if op == "abandon" and spec["kind"] != "temperature":
            op = "interrupt"
        ops.append([op, variation(rng, spec), round(float(rng.random()), 6),
                    round(float(rng.random()), 6)])
    return {"spec": spec, "ops": ops, "last": variation(rng, spec)}


def variation(rng, spec):
    f = lambda s: [round(float(v), 4) for v in rng.uniform(-s, s, 4)]
    zero = lambda a: [0.0] * 4 if rng.random() < 0.2 else a
    return {"u0": zero(f(0.02)), "v0": zero(f(0.05)), "b0": zero(f(0.01)), "s0": zero(f(0.3)),
            "n": int(rng.integers(1, 5)), "dense": bool(rng.random() < 0.5)}


def varied(spec, var):
    return dict(spec, **{k: var[k] for k in ("u0", "v0", "b0", "s0", "n")})


def output(spec, var):
    if spec["kind"] in M.ONE_STEP:
        return None
    return list(range(1, var["n"] + 1)) if var["dense"] else None


class Gate:
    """User callbacks of this problem; one call may be made to fail."""

    def __init__(self):
        self.calls, self.at, self.fired, self.u = 0, None, False, 0.0

    def __call__(self, name, x, t):
        k = self.calls
        self.calls += 1
        if self.at is not None and k == self.at:
            self.fired = True
            raise sim.injected(self.u, f"{name} call {k}")


class BadProduct(M.Product):
    def __init__(self, at, u=0.0):
        super().__init__("~bad")
        self.at, self.count, self.u = at, 0, u

    def update(self, state):
        self.count += 1
        if self.count > self.at:
            raise sim.injected(self.u, "product")


def faulty(op, u, v, solver, sp, out, gate, ctx):
    """One solve under one fault; returns (completed snaps or None, site)."""
    site = None
    try:
        if op == "interrupt":
            site0 = C.trace_sites(sp, output_step=out)
            sites = site0[1][site0[0]:]
            tr = sim.LineTracer(at=sim.resolve_event(sites, u, v), exc="interrupt")
            try:
                with tr:
                    states = M.run(solver, sp, output_step=out)
            finally:
                site = tr.fired
                ctx.faults["interrupt"] += tr.fired is not None
        elif op == "callback":
            gate.calls, gate.at, gate.fired, gate.u = 0, int(u * 40), False, v
            try:
                states = M.run(solver, sp, output_step=out)
            finally:
                gate.at = None
                site = gate.calls
                ctx.faults["callback"] += gate.fired
        elif op == "init":
            def bad(nodes):
                ctx.faults["initial-field"] += 1
                raise sim.injected(v, "initial field")
            names = [k for k in M.solve_kwargs(sp)]
            if not names:
                return None, None
            kw = {names[int(u * len(names))]: bad}
            states = M.run(solver, sp, output_step=out, **kw)
        elif op == "product":
            if not M.supports_products(sp["kind"]):
                return None, None
            bp = BadProduct(int(u * sp["n"]), v)
            try:
                states = M.run(solver, sp, output_step=out,
                               products=M.make_products(sp) + [bp])
            finally:
                ctx.faults["product"] += bp.count > bp.at
                site = bp.count
        elif op == "optimiser":
            err = lambda: sim.injected(v, "optimiser")
            with sim.CallFault(scipy.optimize, "minimize", at=int(u * 6), exc=err) as cf, \
                    sim.CallFault(scipy.optimize, "fsolve", at=int(u * 4), exc=err) as cg:
                try:
                    states = M.run(solver, sp, output_step=out)
                finally:
                    ctx.faults["optimiser"] += cf.fired or cg.fired
                    site = (cf.calls, cg.calls)
        elif op == "stdout":
            s = sim.Sink(int(u * 2 * max(1, sp["n"])))
            try:
                with s:
                    states = M.run(solver, sp, output_step=out)
            finally:
                ctx.faults["stdout"] += s.fired
                site = s.writes
        states = [M.snap(x) for x in states]
    except BaseException as e:  # noqa
        if not sim.injected_in_chain(e):
            raise
        return None, site
    return states, site


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    gate = Gate()
    solver = M.build(spec, gate)
    method = spec["method"]
    keep = []
    hist = []
    failed = False
    for op, var, u, v in sc["ops"] + [["solve", sc["last"], 0, 0]]:
        sp = dict(varied(spec, var), method=method)
        out = output(spec, var)
        ctx.probes[op] += 1
        snaps, site = None, None
        if op == "solve":
            snaps = [M.snap(x) for x in M.run(solver, sp, output_step=out)]
        elif op == "settings":
            if method in ("schur", "global") and not spec["kind"].startswith("poisson"):
                extra = [{"method": "Powell", "maxiter": 2}, {"maxiter": 1}, {"tol": 1.0},
                         {"method": "L-BFGS-B"}][int(u * 4)]
                try:
                    M.run(solver, sp, output_step=out, **extra)
                except (ValueError, TypeError):
                    pass
            hist.append(op)
            continue
        elif op == "method":
            allowed = [m for m in M.METHODS[spec["kind"]]
                       if not (m == "schur" and spec["contact"] == "none")]
            method = allowed[int(u * len(allowed))]
            solver.solving_method = method
            hist.append([op, method])
            continue
        elif op == "abandon":
            g = iter(M.start(solver, sp, output_step=list(range(0, sp["n"] + 1))))
            for _ in range(int(u * (sp["n"] + 1))):
                next(g)
            if v < 0.5:
                g.close()
            else:
                keep.append(g)
            ctx.faults["abandoned-generator"] += 1
            failed = True
            hist.append([op, int(u * (sp["n"] + 1))])
            continue
        else:
            snaps, site = faulty(op, u, v, solver, sp, out, gate, ctx)
            failed = failed or snaps is None
        ctx.runs += 1
        ctx.sim_time += M.simulated_time(sp)
        if snaps is not None:
            want = C.reference(sp, out)
            ctx.runs += 1
            ctx.expect_same(M.diff_lists(snaps, want, **M.TOL), "history-dependent",
                            f"{spec['kind']}/{method} after {hist}")
            ctx.probes["compared-after-failure"] += failed
        hist.append([op, str(site), snaps is not None])
    ctx.reached(C.spec_digest(want), hist)
