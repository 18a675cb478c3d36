"""C10: time, displacement, velocity, absement and boundary values stay consistent at every step."""

import numpy as np

import common as C
import models as M
from props import c06
from props.c01 import stress_law

ID = "C10"
LEVEL = "exploration"
QUICK = 420
KITS = C.ALL_KITS + C.KITS_3D
RULE = ("one case = one seeded workload on a solver with a seeded history (completed, killed, failed "
        "and abandoned solves, method switches), observed live after every step and through the "
        "delivered states: invariants of time, displacement, velocity, absement, displaced nodes, "
        "prescribed boundary values, stresses, products and mesh are evaluated at each; non-trivial when a "
        "step was observed; distinct by workload digest and history")
MEASURE = "hash of (workload digest, history, fault sites)"
REAL = C.REAL
STUB = C.STUB_BASE + ["terminal (stdout) and optimiser entry point when they are made to fail"]
PROBES = ("live", "after-failure", "dirichlet-value", "corner", "products", "relaxation",
          "temperature", "piezo", "wave", "static", "poisson", "resumed", "stress")
SHRINK_LISTS = ("ops",)
KINDS = ["static", "poisson", "static3d", "poisson3d", "wave", "wave_contact", "wave_interior",
         "quasistatic", "dynamic", "dynamic", "relaxation", "relaxation", "temperature",
         "temperature", "piezo", "piezo"]


def gen(rng):
    spec = M.gen_spec(rng, KINDS, max_steps=5, products=True)
    if rng.random() < 0.5:
        spec["dirichlet_value"] = float(rng.choice([0.01, -0.02, 0.03]))
    ops = []
    for _ in range(int(rng.choice([0, 0, 1, 2]))):
        op = str(rng.choice(["solve", "interrupt", "interrupt", "callback", "optimiser", "product",
                             "method"]))
        if spec["kind"] == "temperature" and rng.random() < 0.4:
            op = "abandon"
        ops.append([op, c06.variation(rng, spec), round(float(rng.random()), 6),
                    round(float(rng.random()), 6)])
    return {"spec": spec, "ops": ops, "out": M.gen_output_steps(rng, spec["n"]),
            "resume": bool(rng.random() < 0.4), "stress": int(rng.choice([0, 1, 2]))}


def near(a, b, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    sc = 1.0 if scale is None else scale
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and (
        a.size == 0 or float(np.max(np.abs(a - b))) <= 1e-9 * (sc + float(np.max(np.abs(b)))))


class Invariants:
    def __init__(self, ctx, spec, nodes, elements):
        self.ctx, self.spec = ctx, spec
        self.nodes, self.elements = nodes.copy(), np.array(elements)
        border = self._border()
        pick = lambda name: np.array([i for i in border if M.side(name, spec["mesh"])(nodes[i])],
                                     dtype=int)
        self.fixed = pick(spec["dirichlet"])
        self.goal = M.prescribed(spec, nodes[self.fixed])
        self.corner = len(np.intersect1d(self.fixed, pick(spec["contact"])))
        self.pfixed = np.array([], dtype=int)
        if spec["kind"] == "piezo":
            self.pgoal = np.zeros(0)
            for part in spec["piezo_parts"]:
                side = M.side(part[0], spec["mesh"])
                edges = [e for e in self.edges if side((nodes[e[0]] + nodes[e[1]]) / 2)]
                ids = np.array(sorted({i for e in edges for i in e}), dtype=int)
                self.pfixed = np.concatenate([self.pfixed, ids])
                self.pgoal = np.concatenate([self.pgoal, M.piezo_value(part, nodes[ids])])

    def _border(self):
        count = {}
        for t in self.elements:
            for k in range(len(t)):
                e = tuple(sorted(int(v) for m, v in enumerate(t) if m != k))
                count[e] = count.get(e, 0) + 1
        self.edges = [e for e, c in count.items() if c == 1]
        return sorted({i for e in self.edges for i in e})

    def state(self, s, k, what, base=0):
        """Invariants of the state after ``k`` steps."""
        ctx, spec, kind = self.ctx, self.spec, self.spec["kind"]
        if kind not in M.ONE_STEP:
            t = k * spec["dt"]
            ctx.check(abs(s["time"] - t) <= 1e-9 * max(1.0, t), "time",
                      f"{what}: time {s['time']!r} after {k} steps of {spec['dt']}")
        ctx.check(near(s["displaced_nodes"], self.nodes + s["displacement"]), "displaced-nodes",
                  f"{what}: displaced nodes are not nodes + displacement at step {k}")
        if k == 0:
            return
        if kind in ("poisson", "poisson3d"):
            val, idx, goal = s["temperature"], self.fixed, self.goal
        elif kind in ("static", "static3d", "relaxation"):
            val, idx, goal = s["displacement"], self.fixed, self.goal
        elif kind.startswith("wave"):
            val, idx, goal = s["velocity"][:, 0], self.fixed, self.goal
        else:
            val, idx, goal = s["velocity"], self.fixed, self.goal
        ctx.check(bool(np.all(np.isfinite(val))), "not-finite", f"{what}: step {k}")
        want = goal if val.ndim == 1 else np.stack([goal] * val.shape[1], axis=1)
        ctx.check(near(val[idx], want), "prescribed-value",
                  lambda: f"{what}: prescribed {goal[:4]} but found {val[idx].ravel()[:4]} at step {k}")
        if kind == "temperature":
            v = s["temperature"][idx]
            ctx.check(near(v, goal), "prescribed-value",
                      lambda: f"{what}: temperature prescribed {goal[:4]}, found {v[:4]} at step {k}")
        if kind == "piezo":
            v = s["electric_potential"][self.pfixed]
            ctx.check(near(v, self.pgoal), "prescribed-value",
                      lambda: f"{what}: potential prescribed {self.pgoal[:4]}, found {v[:4]}")

    def step(self, a, b, k, what):
        """Invariants between consecutive states."""
        ctx, dt = self.ctx, self.spec["dt"]
        if self.spec["kind"] == "relaxation":
            ctx.check(near(b["absement"], a["absement"] + dt * b["displacement"]), "absement",
                      f"{what}: absement did not grow by dt * displacement at step {k}")
        else:
            ctx.check(near(b["displacement"], a["displacement"] + dt * b["velocity"]),
                      "displacement", f"{what}: displacement did not grow by dt * velocity at "
                      f"step {k}")

    def products(self, s, k, what):
        want = [j * self.spec["dt"] for j in range(1, k + 1)]
        for name, data in s["products"].items():
            times = sorted(t for t, _ in data)
            self.ctx.check(near(times, want) if len(times) == len(want) else False,
                           "product-times", f"{what}: '{name}' holds times {times[:6]} after "
                           f"{k} steps")

    def mesh(self, mesh, what):
        self.ctx.check(np.array_equal(mesh.nodes, self.nodes)
                       and np.array_equal(mesh.elements, self.elements), "mesh-changed", what)


def stress(ctx, s, k, period, what):
    """Every ``period``-th step reads stresses: they are those of the state as it is now."""
    if not period or k % period:
        return
    s.constitutive_law, s.setup = stress_law, what
    got = np.array(s.stress), np.array(s.stress_x), np.array(s.stress_y), np.array(s.stress_norm)
    exp = stress_law(velocity=s.velocity, displacement=s.displacement, absement=s.absement,
                     setup=what, elements=s.body.mesh.elements, nodes=s.body.mesh.nodes,
                     time=s.time)
    for g, e in zip(got, (exp, exp[:, 0, 0], exp[:, 1, 1], np.linalg.norm(exp, axis=(1, 2)))):
        ctx.check(near(g, e), "stale-stress", lambda: f"{what}: stress at step {k} is not that of "
                  "the state")
    ctx.probes["stress"] += 1


def run(sc, ctx):
    spec = sc["spec"]
    kind = spec["kind"]
    ctx.kinds[kind] += 1
    gate = c06.Gate()
    solver = M.build(spec, gate)
    inv = Invariants(ctx, spec, solver.body.mesh.nodes, solver.body.mesh.elements)
    method, hist, keep, failed = spec["method"], [], [], False
    for op, var, u, v in sc["ops"]:
        sp = dict(c06.varied(spec, var), method=method)
        out = c06.output(spec, var)
        if op == "solve":
            M.run(solver, sp, output_step=out)
        elif op == "method":
            allowed = [m for m in M.METHODS[kind] if not (
                m == "schur" and spec["contact"] == "none")]
            method = allowed[int(u * len(allowed))]
            solver.solving_method = method
        elif op == "abandon":
            g = iter(M.start(solver, sp, output_step=list(range(0, sp["n"] + 1))))
            for _ in range(int(u * (sp["n"] + 1))):
                next(g)
            keep.append(g)
            ctx.faults["abandoned-generator"] += 1
            failed = True
        else:
            snaps, site = c06.faulty(op, u, v, solver, sp, out, gate, ctx)
            failed = failed or snaps is None
            hist.append(str(site))
        hist.append(op)
        ctx.runs += 1
        ctx.sim_time += M.simulated_time(sp)
    what = f"{kind}/{method} after {hist}"
    single = kind in M.ONE_STEP
    live = []
    kw = {}
    if M.supports_products(kind) and not single:
        kw["products"] = M.make_products(spec) + [M.Hook(
            lambda s: (live.append(M.snap(s)), stress(ctx, s, len(live), sc["stress"], what)))]
    out = None if single else (list(range(0, spec["n"] + 1)) if kind in ("temperature", "piezo")
                               else sc["out"])
    raw = M.run(solver, spec, output_step=out, **kw)
    states = [M.snap(s) for s in raw]
    ctx.runs += 1
    ctx.sim_time += M.simulated_time(spec)
    if sc["stress"]:
        stress(ctx, raw[-1], 0, 1, what + " (delivered)")
    if single:
        inv.state(states[0], 1, what)
    else:
        first = {"displacement": M.init_value(
            spec["u0"], "wave" if kind.startswith("wave") else "vec", inv.nodes)}
        first["absement"] = M.init_value(spec["b0"], "vec", inv.nodes) if kind == "relaxation" \
            else np.zeros_like(inv.nodes)
        ctx.check(len(states) == len(out), "wrong-number-of-states", f"{what}: {len(states)}")
        for k, s in zip(out, states):
            inv.state(s, k, what)
            inv.products(s, k, what)
        seq = live
        if kind in ("temperature", "piezo"):
            seq = states[1:]
        else:
            ctx.probes["live"] += 1
            ctx.check(len(live) == max(out), "wrong-number-of-steps",
                      f"{what}: products saw {len(live)} steps of {max(out)}")
        prev = first
        for k, s in enumerate(seq, 1):
            inv.state(s, k, what + " (live)")
            inv.step(prev, s, k, what)
            prev = s
    if sc["resume"] and kind.startswith("wave") and not single:
        again, live[:] = [], []
        m = 1 + spec["n"] // 2
        raw2 = M.build(spec).solve(n_steps=m, output_step=tuple(range(0, m + 1)), state=raw[-1],
                                   **{k: v for k, v in M.solve_kwargs(spec).items()})
        again = [M.snap(s) for s in raw2]
        k0 = max(out)
        for k, s in enumerate(again):
            inv.state(s, k0 + k, what + " resumed")
            if k:
                inv.step(again[k - 1], s, k0 + k, what + " resumed")
        ctx.probes["resumed"] += 1
        ctx.runs += 1
    inv.mesh(solver.body.mesh, what)
    ctx.probes["after-failure"] += failed
    ctx.probes["dirichlet-value"] += bool(spec["dirichlet_value"])
    ctx.probes["corner"] += inv.corner > 0
    ctx.probes["products"] += bool(spec["products"])
    if kind in PROBES:
        ctx.probes[kind] += 1
    ctx.reached(C.spec_digest(states), hist)
