"""C07: a failure underneath a simulation surfaces; it never turns into a quietly wrong result."""

import os

import meshio
import numpy as np
import scipy.optimize

import common as C
import disk
import harness
import models as M
import sim
from conmech.properties.mesh_description import ImportedMeshDescription
from props.c06 import BadProduct, Gate

ID = "C07"
LEVEL = "exploration"
QUICK = 900
KITS = C.ALL_KITS + C.KITS_3D
RULE = ("one case = one seeded workload with one or two faults armed (interrupt or memory error at "
        "an arbitrary line of the build or of the solve, failing force, initial field, relaxation, "
        "product, optimiser, linear solver, terminal, or mesh file read): the call must raise with "
        "the injected error in its chain or deliver what the fault-free run delivers, and every "
        "state handed out before must be the fault-free one and stay unchanged; non-trivial when a "
        "fault fired; distinct by fault site and workload digest")
MEASURE = "hash of (fault kind, site where it hit, outcome, workload digest)"
REAL = C.REAL + ["meshio reading a mesh file through the interposed libc layer"]
STUB = C.STUB_BASE + ["the failing dependency itself (optimiser, linear algebra, terminal)"]
PROBES = ("surfaced", "harmless", "during-build", "prefix-checked", "earlier-result-checked",
          "mesh-read", "second-fault")
SHRINK_LISTS = ("faults",)
FAULTS = ("interrupt", "interrupt", "memory", "memory", "callback", "callback", "callback",
          "callback", "init", "product", "product", "optimiser", "linalg", "stdout", "relaxation", "mesh")


def gen(rng):
    kinds = ["static", "poisson", "static3d", "poisson3d", "wave", "wave_contact", "wave_interior",
             "quasistatic", "dynamic", "dynamic", "relaxation", "relaxation", "temperature", "piezo"]
    spec = M.gen_spec(rng, kinds, max_steps=4, products=True)
    faults = []
    for _ in range(1 if rng.random() < 0.8 else 2):
        f = str(rng.choice(FAULTS))
        if f == "mesh":
            if not spec["kind"].endswith("3d"):
                spec["mesh"] = M._random_mesh(rng)
        faults.append([f, round(float(rng.random()), 6), round(float(rng.random()), 6)])
    return {"spec": spec, "faults": faults, "before": bool(rng.random() < 0.5),
            "ext": str(rng.choice([".mesh", ".msh", ".vtu"]))}


class Armed:
    """All armed faults of a case as one context manager."""

    def __init__(self, sc, ctx, sites, gate, path, d, calls):
        self.ctx, self.gate, self.d = ctx, gate, d
        self.cms, self.tracer = [], None
        self.kw, self.prods, self.fired = {}, [], []
        self.names = [f[0] for f in sc["faults"]]
        spec = sc["spec"]
        for f, u, v in sc["faults"]:
            if f in ("interrupt", "memory") and self.tracer is None:
                self.tracer = sim.LineTracer(at=sim.resolve_event(sites, u, v), exc=f)
            elif f == "callback":
                gate.at, gate.u = int(u * calls), v
            elif f == "init" and not spec["kind"].startswith("poisson"):
                names = list(M.solve_kwargs(spec))

                def bad(nodes, v=v):
                    self.fired.append("init")
                    raise sim.injected(v, "initial field")
                self.kw[names[int(u * len(names))]] = bad
            elif f == "product" and M.supports_products(spec["kind"]):
                self.prods.append(BadProduct(int(u * spec["n"]), v))
            elif f == "optimiser":
                err = lambda v=v: sim.injected(v, "optimiser")
                self.cms.append(("optimiser", sim.CallFault(scipy.optimize, "minimize",
                                                            int(u * 6), err)))
                self.cms.append(("optimiser", sim.CallFault(scipy.optimize, "fsolve",
                                                            int(u * 3), err)))
            elif f == "linalg":
                err = lambda v=v: (np.linalg.LinAlgError("injected: singular matrix") if v < 0.6
                                   else sim.injected(v, "linear solver"))
                self.cms.append(("linalg", sim.CallFault(np.linalg, "solve", int(u * 2), err)))
                self.cms.append(("linalg", sim.CallFault(np.linalg, "inv", int(u * 2), err)))
            elif f == "stdout":
                self.cms.append(("stdout", sim.Sink(int(u * 2 * max(1, spec["n"])))))
            elif f == "mesh" and d is not None:
                op = "read" if u < 0.7 else "open"
                act = [["errno", "EIO"], ["short", 1 + int(u * 500)], ["errno", "EINTR"],
                       ["sticky", "EIO"]][int(v * 4)]
                d.plan([[op, int(u * 3) if op == "read" else 0, *act]])

    def __enter__(self):
        for _, c in self.cms:
            c.__enter__()
        if self.tracer:
            self.tracer.__enter__()
        return self

    def __exit__(self, *a):
        if self.tracer:
            self.tracer.__exit__(*a)
            if self.tracer.fired:
                self.fired.append(self.tracer.exc)
        for n, c in reversed(self.cms):
            c.__exit__(*a)
            if c.fired:
                self.fired.append(n)
        if self.gate.fired:
            self.fired.append("callback")
        for p in self.prods:
            if p.count > p.at:
                self.fired.append("product")
        if self.d is not None and self.d.fired():
            self.fired += ["mesh-" + f[2] for f in self.d.fired()]
        return False


class BadRelaxation(M.Relaxation):
    def __init__(self, c, at, armed, u=0.0):
        super().__init__(c)
        self.at, self.calls, self.armed, self.u = at, 0, armed, u

    def __call__(self, t=0.0):
        self.calls += 1
        if self.armed[0] is not None and self.calls > self.at:
            self.armed[0].fired.append("relaxation")
            raise sim.injected(self.u, "relaxation")
        return super().__call__(t)


def make(sc, gate, path, armed):
    spec = sc["spec"]
    problem = M.make_problem(spec, gate)
    if spec["kind"] == "relaxation" and any(f[0] == "relaxation" for f in sc["faults"]):
        _, u, v = [f for f in sc["faults"] if f[0] == "relaxation"][0]
        problem.relaxation = BadRelaxation(spec["relaxation"], int(u * 5), armed, v)
    if path is not None:
        problem.mesh_descr = ImportedMeshDescription(None, path)
    return M.build(spec, problem=problem)


def count_calls(spec, out, solve_only):
    gate = Gate()
    solver = M.build(spec, gate)
    before = gate.calls
    M.run(solver, spec, output_step=out)
    if not solve_only:
        return gate.calls
    if before == gate.calls:
        return 1
    again = gate.calls
    M.run(solver, spec, output_step=out)
    return gate.calls - again


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    static = spec["kind"] in M.ONE_STEP
    out = None if static else list(range(1, spec["n"] + 1))
    want = C.reference(spec, out)
    root = os.path.join(ctx.scratch, "disk")
    path = None
    if any(f[0] == "mesh" for f in sc["faults"]) and spec["mesh"]["kind"] == "array":
        os.makedirs(root)
        path = os.path.join(root, "mesh" + sc["ext"])
        pts = np.array(spec["mesh"]["points"])
        cells = ("triangle", "tetra")[pts.shape[1] - 2]
        pts = np.hstack([pts, np.zeros((len(pts), 3 - pts.shape[1]))])
        meshio.Mesh(pts, [(cells, np.array(spec["mesh"]["cells"]))]).write(
            path, **({"file_format": "gmsh"} if sc["ext"] == ".msh" else {}))
        ctx.probes["mesh-read"] += 1
    build_too = not sc["before"]
    traced = [f for f in sc["faults"] if f[0] in ("interrupt", "memory")]
    sites = []
    if traced:
        base, sites = C.trace_sites(spec, output_step=out)
        if sc["before"]:
            sites = sites[base:]
        ctx.probes["during-build"] += build_too
    gate = Gate()
    calls = 0
    if any(f[0] == "callback" for f in sc["faults"]):
        calls = harness.isolated(count_calls, spec, out, sc["before"])
    armed = [None]
    d = disk.Disk(root) if path else None
    early, early_snaps = None, None
    try:
        if d:
            d.__enter__()
        a = Armed(sc, ctx, sites, gate, path, d, calls)
        hook_at = gate.at
        if sc["before"] and path is None:
            gate.at = None
            solver = make(sc, gate, path, armed)
            early = M.run(solver, spec, output_step=out)
            early_snaps = [M.snap(s) for s in early]
            gate.calls, gate.at = 0, hook_at
            ctx.runs += 1
        else:
            solver = None
        live, got, error = [], None, None
        armed[0] = a
        try:
            with a:
                solver = solver or make(sc, gate, path, armed)
                prods = M.make_products(spec) + a.prods
                if M.supports_products(spec["kind"]):
                    prods.append(M.Hook(lambda s: live.append(M.snap(s)) or None))
                gen_ = M.start(solver, spec, output_step=out, products=prods, **a.kw)
                if hasattr(gen_, "displacement"):
                    got = [M.snap(gen_)]
                elif spec["kind"] == "temperature":
                    for s in gen_:
                        live.append(M.snap(s))
                    got = list(live)
                else:
                    got = [M.snap(s) for s in gen_]
        except BaseException as e:  # noqa
            error = e
        armed[0] = None
    finally:
        if d:
            d.__exit__()
    ctx.runs += 2
    ctx.sim_time += 2 * M.simulated_time(spec)
    for f in a.fired:
        ctx.faults[f] += 1
    ctx.probes["second-fault"] += len(set(a.fired)) > 1
    what = f"{spec['kind']}/{spec['method']} {sc['faults']} fired {a.fired}"
    if error is not None:
        disk_err = d is not None and isinstance(error, Exception) and any(
            f.startswith("mesh") for f in a.fired)
        if not (sim.injected_in_chain(error) or disk_err):
            if not a.fired:
                raise error
            ctx.violation("error-hidden", f"{what}: raised {type(error).__name__}: {error}, with "
                          "the cause no longer in its chain")
        ctx.checks += 1
        ctx.probes["surfaced"] += 1
    else:
        ctx.check("product" not in a.fired and "init" not in a.fired, "error-swallowed",
                  f"{what}: the call returned though a product or an initial field cannot be had")
        for g in got:
            g["products"].pop("~bad", None)
        ctx.expect_same(M.diff_lists(got, want, **M.TOL), "quietly-wrong", what)
        ctx.probes["harmless"] += bool(a.fired)
    # whatever was handed out before the failure is right
    if live and not static:
        ctx.probes["prefix-checked"] += 1
        for k, s in enumerate(live):
            ctx.expect_same(M.diff(s, want[k], products=False, **M.TOL), "wrong-before-failure",
                            f"{what}: step {k + 1}")
    if early is not None:
        ctx.probes["earlier-result-checked"] += 1
        now = [M.snap(s) for s in early]
        ctx.expect_same(M.diff_lists(now, early_snaps, rtol=0, atol=0), "earlier-result-changed",
                        what)
    ctx.reached(a.fired, a.tracer.fired if a.tracer else None, gate.calls, error is None,
                C.spec_digest(want))
