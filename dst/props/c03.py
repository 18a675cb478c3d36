"""C03: saving, copying and inspecting a simulation never changes how it goes on."""

import os

import numpy as np

import common as C
import disk
import harness
import models as M
import sim
from props.c01 import stress_law

ID = "C03"
LEVEL = "exploration"
QUICK = 340
KITS = C.ALL_KITS
RULE = ("one case = one seeded workload run twice: undisturbed in a process of its own, and with an "
        "observer that saves (also failing, short or interrupted saves), copies, loads, mutates its "
        "copies or reads stresses of live and returned states, inside the step loop or from a "
        "second thread under a seeded interleaving; non-trivial when at least one observation "
        "happened; distinct by workload digest, observations and interleaving")
MEASURE = "hash of (workload digest, observations made, interleaving, faults fired)"
REAL = C.REAL + ["file system calls of saving (libc interposed)"]
STUB = C.STUB_BASE
PROBES = ("save", "save_fail", "save_int", "copy", "stress", "thread", "generator", "live")
SHRINK_LISTS = ("acts", "plan")
ACTS = ("save", "save", "save_fail", "save_int", "copy", "mutate_copy", "stress", "load", "items")


def gen(rng):
    kinds = ["static", "wave", "wave_contact", "wave_interior", "quasistatic", "dynamic",
             "relaxation", "relaxation", "temperature"]
    spec = M.gen_spec(rng, kinds, min_steps=2, max_steps=6, products=True)
    acts = []
    for _ in range(int(rng.integers(1, 6))):
        acts.append([int(rng.integers(0, spec["n"])), str(rng.choice(ACTS)),
                     int(rng.integers(0, 1 << 20)),
                     str(rng.choice(["write", "open", "fsync", "rename", "close", "any"]))])
    thread = bool(rng.random() < 0.3) and spec["kind"] not in ("temperature", "static")
    return {"spec": spec, "acts": acts, "thread": thread,
            "plan": sim.draw_plan(rng, 2, int(rng.integers(1, 10))) if thread else []}


def observe(state, act, num, op, root, ctx, d, done):
    """One observation; ``num`` chooses its details."""
    name = os.path.join(root, f"s{num % 3}")
    ctx.probes[act] += 1
    done.append(act)
    prods = state.products  # without the observer: user code which cannot be pickled
    state.products = {k: p for k, p in prods.items() if k != "~hook"}
    try:
        if act == "save":
            state.save(name)
        elif act == "save_fail":
            d.plan([[op, num % 7 if op == "any" else (num % 2 if op == "write" else 0), "errno", ("ENOSPC", "EIO", "EINTR")[num % 3 if op != "close"
                                                                      else num % 2]]])
            try:
                state.save(name)
            except OSError:
                pass
            ctx.faults[f"disk-{op}"] += bool(d.fired())
            d.clear()
        elif act == "save_int":
            with sim.LineTracer(at=num % 60, exc="interrupt") as tr:
                try:
                    state.save(name)
                except sim.SimInterrupt:
                    pass
            ctx.faults["interrupt"] += tr.fired is not None
        elif act == "copy":
            state.copy()
        elif act == "mutate_copy":
            c = state.copy()
            c.displacement[:] = 3.0
            c.velocity[:] = 1e3
            c.absement[:] = -5.0
            c.displaced_nodes[:] = 0.0
            if c.temperature is not None:
                c.temperature[:] = 1e6
            c.time = -1.0
            for p in c.products.values():
                p.data.clear()
        elif act == "stress":
            state.constitutive_law = stress_law
            _ = state.stress, state.stress_x, state.stress_norm
        elif act == "load":
            if os.path.exists(name):
                s = M.ps.State.load(name)
                s.displacement[:] = 77.0
                s.set_velocity(np.full(s.velocity.size, 5.0), 3.0, update_displacement=True)
        elif act == "items":
            for i in (0, 1, "displacement", "velocity"):
                _ = np.array(state[i])
    finally:
        state.products = prods


def simulate(sc, ctx, root, plan=(), record=False):
    """The disturbed run -> (snaps, interleaving, sites, observations)."""
    spec = sc["spec"]
    done = []
    steps = list(range(0, spec["n"] + 1)) if spec["kind"] != "static" else None
    with disk.Disk(root) as d:
        if sc["thread"]:
            taken = []
            spare = M.run(M.build(spec), spec, n=1)
            solver = M.build(spec)

            def main():
                hook = M.Hook(lambda s: taken.append(s.copy()) or None)
                return M.run(solver, spec, output_step=steps,
                             products=M.make_products(spec) + [hook])

            def other():
                for k, act, num, op in sc["acts"]:
                    pool = taken or spare
                    observe(pool[k % len(pool)], act, num, op, root, ctx, d, done)
                    ctx.probes["thread"] += bool(taken)

            sch = sim.Scheduler(plan, record=record)
            sch.add(main)
            sch.add(other)
            sch.run(first=0)
            for t in sch.threads:
                if t.error is not None:
                    raise t.error
            states = sch.threads[0].result
            return ([M.snap(s) for s in states], sch.trace_log,
                    {k: list(v) for k, v in sch.sites.items()}, done, sch.total)
        solver = M.build(spec)
        if spec["kind"] == "temperature":
            states = []
            for i, s in enumerate(M.start(solver, spec, output_step=steps)):
                snap = M.snap(s)
                for k, act, num, op in sc["acts"]:
                    if k == i:
                        observe(s, act, num, op, root, ctx, d, done)
                        ctx.probes["generator"] += 1
                # what the caller got is what counts, before it is overwritten by observers
                states.append(snap)
                if act_changes(sc, i) and M.diff(snap, M.snap(s), rtol=0, atol=0):
                    ctx.violation("observer-changed-state",
                                  f"{[a[1] for a in sc['acts'] if a[0] == i]} at step {i}")
            return states, [], {}, done, 0
        count = [0]

        def observer(state):
            i = count[0]
            count[0] += 1
            for k, act, num, op in sc["acts"]:
                if k == i:
                    before = M.snap(state)
                    observe(state, act, num, op, root, ctx, d, done)
                    ctx.probes["live"] += 1
                    if M.diff(before, M.snap(state), rtol=0, atol=0):
                        ctx.violation("observer-changed-state", f"{act} at step {i}")
            return None

        states = M.run(solver, spec, output_step=steps,
                       products=M.make_products(spec) + [M.Hook(observer)])
        return [M.snap(s) for s in states], [], {}, done, 0


def act_changes(sc, i):
    return any(a[0] == i for a in sc["acts"])


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    root = os.path.join(ctx.scratch, "disk")
    os.makedirs(root)
    steps = list(range(0, spec["n"] + 1)) if spec["kind"] != "static" else None
    want = C.reference(spec, steps)
    plan = []
    if sc["plan"]:
        sites = harness.isolated(
            lambda: simulate(sc, harness.Ctx(ctx.scratch), root, [], True)[2])
        plan = sim.resolve_plan(sc["plan"], sites)
    got, trace, _, done, events = simulate(sc, ctx, root, plan)
    ctx.runs += 2
    ctx.events += events
    ctx.sim_time += 2 * M.simulated_time(spec)
    ctx.expect_same(M.diff_lists(got, want, **M.TOL), "observed-run-differs",
                    f"{spec['kind']}/{spec['method']} observed by {sorted(set(done))}")
    if steps is not None:  # handing out intermediate states is an observation as well
        last = C.reference(spec, None)
        ctx.runs += 1
        ctx.expect_same(M.diff(got[-1], last[-1], **M.TOL), "observed-run-differs",
                        f"{spec['kind']}/{spec['method']} with intermediate states taken, "
                        f"observed by {sorted(set(done))}")
    ctx.reached(C.spec_digest(want), done, trace, dict(ctx.faults))
