"""C09: which steps are asked for, in what form, and how they are consumed, changes nothing."""

import gc

import common as C
import models as M
import sim

ID = "C09"
LEVEL = "exploration"
QUICK = 420
KITS = C.ALL_KITS
RULE = ("one case = one seeded time dependent workload asked for a seeded selection of steps (any "
        "iterable form, zeros, repeats, a default, fewer than n_steps), printed or not, with products "
        "recorded or not, consumed under a seeded schedule (all at once; or step by step with other "
        "simulations, collections, clock jumps or a failing consumer in between), against the same "
        "simulation run alone in a process of its own with every step delivered; non-trivial when a "
        "delivered state was compared; distinct by workload digest, selection and schedule")
MEASURE = "hash of (workload digest, selection, form, consumer schedule)"
REAL = C.REAL
STUB = C.STUB_BASE + ["clocks read by conmech (jumping)"]
PROBES = ("zero", "repeat", "sparse", "default", "empty", "generator-form", "verbose", "with-products",
          "stepwise", "other-simulation", "consumer-failed", "clock-jump")
SHRINK_LISTS = ("between", "out")
FORMS = ("tuple", "list", "range", "iter", "map", "dict")


def gen(rng):
    kinds = ["wave", "wave_contact", "wave_interior", "quasistatic", "dynamic", "relaxation",
             "temperature", "temperature", "temperature", "piezo"]
    spec = M.gen_spec(rng, kinds, min_steps=1, max_steps=6, products=True)
    form = str(rng.choice(FORMS))
    out = M.gen_output_steps(rng, spec["n"])
    r = rng.random()
    if r < 0.12:
        out = None
    elif r < 0.17:
        out = []
    if form == "range" and out:
        a = int(rng.integers(0, spec["n"]))
        out = list(range(a, spec["n"] + 1, int(rng.integers(1, 3))))
    if form == "dict" and out:
        out = sorted(set(out))
    between = [[int(rng.integers(0, 8)), str(rng.choice(["other", "gc", "clock", "fail", "none"])),
                int(rng.integers(0, 1 << 16))] for _ in range(int(rng.integers(0, 4)))]
    return {"spec": spec, "out": out, "form": form, "verbose": bool(rng.random() < 0.4),
            "between": between,
            "n_steps": spec["n"] + int(rng.choice([0, 0, 1, 5])) if out else spec["n"]}


def shaped(out, form):
    if out is None:
        return None
    if not out:
        return () if form != "list" else []
    if form == "list":
        return list(out)
    if form == "range":
        step = out[1] - out[0] if len(out) > 1 else 1
        if step > 0 and list(range(out[0], out[-1] + 1, step)) == out:
            return range(out[0], out[-1] + 1, step)
    if form == "iter":
        return iter(list(out))
    if form == "map":
        return (int(v) for v in list(out))
    if form == "dict" and len(set(out)) == len(out):
        return dict.fromkeys(out).keys()
    return tuple(out)


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    n = spec["n"]
    out = sc["out"]
    wanted = out if out else [n]
    dense = C.reference(spec, list(range(0, max(wanted) + 1)))
    solver = M.build(spec)
    kw = {"n_steps": sc["n_steps"], "verbose": sc["verbose"]}
    form = shaped(out, sc["form"])
    if form is not None:
        kw["output_step"] = form
    acts = {}
    for at, act, num in sc["between"]:
        acts.setdefault(at, []).append((act, num))
    got, failed = [], False
    clock = sim.Clock(jumps=[-3600.0, 7200.0, -1e6, 5.0])
    jump = any(a[1] == "clock" for a in sc["between"])
    if jump:
        clock.__enter__()
        ctx.faults["clock-jump"] += 1
    try:
        g = M.start(solver, spec, **kw)
        if hasattr(g, "displacement"):
            g = [g]
        lazy = iter(g) is g
        ctx.probes["stepwise"] += lazy
        g = iter(g)
        other = None
        for k in range(64):
            for act, num in acts.get(k, ()):
                if act == "other":
                    sp = dict(spec, n=2, inner=dict(spec["inner"], a=0.7), dt=spec["dt"] * 2)
                    other = other or M.build(sp)
                    M.run(other, sp)
                    ctx.probes["other-simulation"] += 1
                elif act == "gc":
                    gc.collect()
                elif act == "fail" and lazy and num % 3 == 0:
                    try:
                        g.throw(sim.SimCallbackError("consumer failed"))
                    except (sim.SimCallbackError, StopIteration):
                        pass
                    failed = True
                    ctx.faults["consumer-failure"] += 1
                    ctx.probes["consumer-failed"] += 1
            if failed:
                break
            try:
                got.append(M.snap(next(g)))
            except StopIteration:
                break
    finally:
        if jump:
            clock.__exit__()
    ctx.runs += 2
    ctx.sim_time += 2 * spec["dt"] * max(wanted)
    what = f"{spec['kind']}/{spec['method']} output {out} as {sc['form']}"
    if not failed:
        ctx.check(len(got) == len(wanted), "wrong-number-of-states",
                  f"{what}: {len(got)} states for {len(wanted)} outputs")
    for i, s in enumerate(got):
        if i < len(wanted):
            ctx.expect_same(M.diff(s, dense[wanted[i]], **M.TOL), "depends-on-output",
                            f"{what}: state #{i} is not step {wanted[i]}")
    ctx.probes["zero"] += 0 in wanted
    ctx.probes["repeat"] += len(set(wanted)) < len(wanted)
    ctx.probes["sparse"] += len(wanted) < n
    ctx.probes["default"] += out is None
    ctx.probes["empty"] += out == []
    ctx.probes["generator-form"] += sc["form"] in ("iter", "map")
    ctx.probes["verbose"] += sc["verbose"]
    ctx.probes["with-products"] += bool(spec["products"])
    ctx.probes["clock-jump"] += jump
    ctx.reached(C.spec_digest(dense), out, sc["form"], sc["between"])
