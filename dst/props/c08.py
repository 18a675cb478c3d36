"""C08: a state handed to the caller is the caller's own: nothing changes it, and changing it
changes nothing else."""

import numpy as np

import common as C
import harness
import models as M
import sim

ID = "C08"
LEVEL = "exploration"
QUICK = 420
KITS = C.ALL_KITS
RULE = ("one case = one seeded workload whose handed-out states (returned, yielded mid-run, copies of "
        "the live state, copies of copies, loaded files) and initial arrays are kept and some are "
        "overwritten by the caller at seeded steps, also from a second thread, followed by more "
        "steps, another solve or a killed solve; every untouched one is compared bit by bit with "
        "what it was when handed out, and the run with the undisturbed run; non-trivial when a "
        "mutation happened while something else was kept; distinct by workload digest and the "
        "mutation history")
MEASURE = "hash of (workload digest, mutation history)"
REAL = C.REAL
STUB = C.STUB_BASE
PROBES = ("mutated-live-copy", "mutated-yielded", "mutated-returned", "later-solve", "killed-solve",
          "user-array", "repeated-output", "products", "thread", "swept", "array-argument")
SHRINK_LISTS = ("muts", "after")
KINDS = ["static", "wave", "wave_contact", "wave_interior", "quasistatic", "dynamic", "relaxation",
         "relaxation", "temperature", "temperature", "piezo"]


def gen(rng):
    spec = M.gen_spec(rng, KINDS, min_steps=1, max_steps=5, products=True)
    out = M.gen_output_steps(rng, spec["n"])
    muts = [[int(rng.integers(0, spec["n"] + 1)), int(rng.integers(0, 1 << 16))]
            for _ in range(int(rng.integers(1, 5)))]
    after = [str(rng.choice(["mutate", "solve", "kill", "array"]))
             for _ in range(int(rng.integers(0, 4)))]
    thread = bool(rng.random() < 0.2) and spec["kind"] not in ("static", "temperature", "piezo")
    return {"spec": spec, "out": out, "muts": muts, "after": after, "thread": thread,
            "plan": sim.draw_plan(rng, 2, int(rng.integers(1, 8))) if thread else [],
            "kill": [round(float(rng.random()), 6), round(float(rng.random()), 6)],
            "own": bool(rng.random() < 0.5), "seq": bool(rng.random() < 0.5)}


def mutate(state, bits):
    """The caller overwrites parts of his own state, in place."""
    if bits & 1:
        state.displacement[:] = 1e3
    if bits & 2:
        state.velocity[:] = -1e3
    if bits & 4:
        state.absement[:] = 55.0
    if bits & 8:
        state.displaced_nodes[:] = 0.5
    if bits & 16 and state.temperature is not None:
        state.temperature[:] = 1e4
    if bits & 16 and hasattr(state, "electric_potential"):
        state.electric_potential[:] = 1e4
    if bits & 32:
        for p in state.products.values():
            p.data.clear()
    if bits & 64:
        state.products.clear()
    if bits & 128:
        state.set_displacement(np.full(state.displacement.size, 9.0), time=77.0)
    if bits & 256:
        state.set_velocity(np.full(state.velocity.size, 4.0), time=78.0, update_displacement=True)
    if bits & 512:
        for p in state.products.values():
            p.data[123.0] = "mine"
    state.time = 42.0


class Held:
    """An initial field which returns an array the caller keeps."""

    def __init__(self, field):
        self.field, self.array, self.copy = field, None, None

    def __call__(self, nodes):
        if self.array is None:
            self.array = self.field(nodes)
            self.copy = self.array.copy()
        return self.array


class Kept:
    def __init__(self, ctx):
        self.items, self.ctx = [], ctx

    def add(self, state, what):
        self.items.append([state, M.snap(state), what, False])
        return len(self.items) - 1

    def mutate(self, i, bits):
        if self.items:
            it = self.items[i % len(self.items)]
            it[3] = True
            mutate(it[0], bits)
            return it[2]

    def verify(self, when):
        for s, snap, what, touched in self.items:
            if not touched:
                self.ctx.expect_same(M.diff(M.snap(s), snap, rtol=0, atol=0), "kept-state-changed",
                                     f"{what} {when}")


def simulate(sc, ctx, kept, plan=(), record=False, solver=None):
    spec = sc["spec"]
    out = None if spec["kind"] == "static" else sc["out"]
    solver = solver or M.build(spec)
    kw = M.solve_kwargs(spec)
    held = {k: Held(f) for k, f in kw.items()} if sc["own"] else {}
    given = dict(held)
    if spec["kind"] in ("static", "static3d") and held and sc["seq"]:  # the array itself
        given = {k: h(solver.body.mesh.nodes) for k, h in held.items()}
        ctx.probes["array-argument"] += 1
    if spec["kind"] in ("temperature", "piezo"):
        got = []
        for i, s in enumerate(M.start(solver, spec, output_step=out, **given)):
            got.append(M.snap(s))
            kept.add(s, f"state #{i}")
            kept.add(s.copy(), f"copy of #{i}")
            for at, bits in sc["muts"]:
                if at == i:
                    kept.mutate(bits, bits)
                    ctx.probes["mutated-yielded"] += 1
        return solver, got, held, []
    step = [0]
    pending = []

    def observer(s):
        k = step[0]
        step[0] += 1
        c = s.copy()
        c.products.pop("~hook", None)
        again = c.copy()  # before the other thread can get hold of c
        j = kept.add(c, f"copy of live state {k}")
        kept.add(again, f"copy of a copy {k}")
        if sc["thread"]:
            pending.append(j)
        else:
            for at, bits in sc["muts"]:
                if at == k:
                    kept.mutate(j if bits & 1024 else bits, bits)
                    ctx.probes["mutated-live-copy"] += 1
        return None

    def main():
        return M.run(solver, spec, output_step=out,
                     products=M.make_products(spec) + [M.Hook(observer)], **given)

    def vandal():
        for at, bits in sc["muts"]:
            if kept.items:
                kept.mutate(pending[-1] if pending else 0, bits)
                ctx.probes["thread"] += 1

    trace = []
    if sc["thread"]:
        sch = sim.Scheduler(plan, record=record)
        sch.add(main)
        sch.add(vandal)
        sch.run()
        for t in sch.threads:
            if t.error is not None:
                raise t.error
        states, trace = sch.threads[0].result, sch.trace_log
        if record:
            return {k: list(v) for k, v in sch.sites.items()}
    else:
        states = main()
    got = []
    for i, s in enumerate(states):
        s.products = {k: p for k, p in s.products.items() if k != "~hook"}
        got.append(M.snap(s))
        kept.add(s, f"returned #{i}")
    return solver, got, held, trace


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    out = None if spec["kind"] == "static" else sc["out"]
    want = C.reference(spec, out)
    plan = []
    if sc["plan"]:
        sites = harness.isolated(lambda: simulate(
            sc, harness.Ctx(None), Kept(harness.Ctx(None)), [], True))
        plan = sim.resolve_plan(sc["plan"], sites)
    kept = Kept(ctx)
    solver, got, held, trace = simulate(sc, ctx, kept, plan)
    ctx.runs += 2
    ctx.sim_time += 2 * M.simulated_time(spec)
    ctx.probes["repeated-output"] += len(set(sc["out"])) < len(sc["out"])
    ctx.probes["products"] += bool(spec["products"])
    ctx.expect_same(M.diff_lists(got, want, **M.TOL), "run-disturbed",
                    f"{spec['kind']}/{spec['method']} muts {sc['muts']}")
    kept.verify("after the run")

    def check_arrays(when):
        for name, h in held.items():
            if h.array is not None:
                ctx.check(np.array_equal(h.array, h.copy), "caller-array-changed",
                          lambda: f"{name} {when}")
    check_arrays("after the run")
    for n, op in enumerate(sc["after"]):
        if op == "mutate":
            bits = sc["muts"][n % len(sc["muts"])][1] if sc["muts"] else 5
            kept.mutate(len(kept.items) - 1 - n if n % 2 else bits, bits | 1)
            ctx.probes["mutated-returned"] += 1
        elif op == "array":
            for h in held.values():
                if h.array is not None:
                    h.array[:] = 31.0
                    h.copy[:] = 31.0
                    ctx.probes["user-array"] += 1
        elif op == "solve":
            again = [M.snap(s) for s in M.run(solver, spec, output_step=out)]
            ctx.expect_same(M.diff_lists(again, want, **M.TOL), "later-solve-disturbed",
                            f"{spec['kind']}/{spec['method']} {sc['after']}")
            ctx.probes["later-solve"] += 1
            ctx.runs += 1
        elif op == "kill":
            base, sites = C.trace_sites(spec, output_step=out)
            with sim.LineTracer(at=sim.resolve_event(sites[base:], *sc["kill"])) as tr:
                try:
                    M.run(solver, spec, output_step=out)
                except sim.SimInterrupt:
                    pass
            ctx.faults["interrupt"] += tr.fired is not None
            ctx.probes["killed-solve"] += 1
        kept.verify(f"after {sc['after'][:n + 1]}")
        check_arrays(f"after {sc['after'][:n + 1]}")
    # each of the rest is overwritten in turn, returned ones first: the others do not notice
    rest = [i for i, item in enumerate(kept.items) if not item[3]]
    r = C.seeded(sc, "sweep")
    rest = [rest[i] for i in r.permutation(len(rest))]
    rest.sort(key=lambda i: not kept.items[i][2].startswith("returned"))
    for i in rest[:6]:
        kept.mutate(i, int(r.integers(1 << 10)) | int(r.choice([1, 2, 8])))
        ctx.probes["swept"] += 1
        kept.verify(f"after {sc['after']} and overwriting {kept.items[i][2]}")
    check_arrays("at the end")
    if rest and sc["kill"][0] < 0.4:
        again = [M.snap(s) for s in M.run(M.build(spec), spec, output_step=out)]
        ctx.runs += 1
        ctx.expect_same(M.diff_lists(again, want, **M.TOL), "later-solve-disturbed",
                        f"{spec['kind']}/{spec['method']} {sc['after']}, another solver")
    ctx.reached(C.spec_digest(want), sc["muts"], sc["after"], trace)
