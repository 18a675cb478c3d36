"""C05: simulations running side by side in one process do not influence each other."""

import common as C
import harness
import models as M
import sim

ID = "C05"
LEVEL = "exploration"
QUICK = 260
KITS = C.ALL_KITS + C.KITS_3D
RULE = ("one case = 2-3 simulations (own solvers; some share the problem object, the contact law or "
        "nothing) built and run by simulated threads under a seeded interleaving switching at line "
        "events of conmech, or as interleaved consumers in one thread, some interrupted; each is "
        "compared with the same simulation run alone in a process of its own; non-trivial when at "
        "least one switch happened while another simulation was unfinished; distinct by the "
        "interleaving taken and the workloads")
MEASURE = "hash of the interleaving actually taken with the workload digests"
REAL = C.REAL + ["threads of the caller (real threads, one runs at a time)"]
STUB = C.STUB_BASE + ["the operating system's thread scheduler (seeded baton passing)"]
PROBES = ("switch", "shared-problem", "shared-law", "interrupted-neighbour", "three", "generators")
SHRINK_LISTS = ("plan", "interrupts", "order")
SHRINK_SPECS = ("specs.0", "specs.1", "specs.2")


def gen(rng):
    n = 2 if rng.random() < 0.75 else 3
    if rng.random() < 0.15:
        mode = "generators"
        specs = [M.gen_spec(rng, ["temperature"], min_steps=2, max_steps=3, products=True)
                 for _ in range(2)]
        if rng.random() < 0.6:
            specs[1] = dict(specs[0], **{k: specs[1][k] for k in ("u0", "v0", "s0", "inner")})
    else:
        mode = "threads"
        kinds = ["static", "poisson", "static3d", "wave", "wave_contact", "wave_interior",
                 "quasistatic", "dynamic", "dynamic", "relaxation", "relaxation", "temperature",
                 "piezo"]
        specs = [M.gen_spec(rng, kinds, max_steps=3, products=True) for _ in range(n)]
        if rng.random() < 0.4:  # near twins: most likely to share cached things
            for s in range(1, n):
                base = dict(specs[0])
                base.update({k: specs[s][k] for k in ("u0", "v0", "b0", "s0")})
                what = str(rng.choice(["inner", "dt", "mesh", "mu", "dirichlet_value", "same"]))
                if what == "inner":
                    base["inner"], base["outer"] = specs[s]["inner"], specs[s]["outer"]
                elif what == "mesh" and not base["kind"].endswith("3d"):
                    base["mesh"] = M.gen_mesh(rng)
                elif what == "dt":
                    base["dt"] = specs[s]["dt"]
                elif what == "mu":
                    base["mu"], base["la"] = specs[s]["mu"], specs[s]["la"]
                specs[s] = base
    share = str(rng.choice(["none", "problem", "law"], p=[0.5, 0.25, 0.25]))
    if share == "problem":
        for s in range(1, len(specs)):
            keep = {k: specs[s][k] for k in ("u0", "v0", "b0", "s0", "n")}
            meth = str(rng.choice(list(M.METHODS[specs[0]["kind"]])))
            if specs[0]["contact"] == "none" and meth == "schur":
                meth = specs[0]["method"]
            specs[s] = dict(specs[0], **keep, method=meth)
        for s in specs:
            if "relaxation" in s:
                s["relaxation"]["reuse"] = False  # a shared buffer would be the caller's own bug
    inter = []
    if rng.random() < 0.25:
        inter.append([int(rng.integers(len(specs))), round(float(rng.random()), 6),
                      round(float(rng.random()), 6), "interrupt"])
    return {"mode": mode, "specs": specs, "share": share, "interrupts": inter,
            "plan": sim.draw_plan(rng, len(specs), int(rng.choice([3, 8, 20, 60]))),
            "zero": bool(rng.random() < 0.5),
            "order": [int(v) for v in rng.integers(0, len(specs), 12)]}


def law_object(spec):
    law = M.LAWS[spec["law"]]() if spec.get("law") else None
    return law() if spec.get("law") in ("damped", "damped_i") else law


def execute(sc, record=False, plan=(), interrupts=()):
    specs = sc["specs"]
    shared, laws = None, {}
    if sc["share"] == "problem":
        shared = M.make_problem(specs[0])
    if sc["share"] == "law":
        for s in specs:
            if s.get("law") and s["law"] not in laws:
                laws[s["law"]] = law_object(s)
    sch = sim.Scheduler(plan, record=record, interrupts=interrupts)
    unfinished = set(range(len(specs)))

    def body(i, spec):
        def go():
            try:
                problem = shared
                if problem is None and laws.get(spec.get("law")) is not None:
                    problem = M.make_problem(spec, law=laws[spec["law"]])
                solver = M.build(spec, problem=problem)
                return [M.snap(s) for s in M.run(solver, spec)]
            finally:
                unfinished.discard(i)
        return go

    for i, s in enumerate(specs):
        sch.add(body(i, s))
    sch.run()
    return sch


def run_generators(sc, ctx):
    gens, got = [], []
    for s in sc["specs"]:
        steps = list(range(0 if sc["zero"] else 1, s["n"] + 1))
        gens.append(iter(M.start(M.build(s), s, output_step=steps)))
        got.append([])
    live = set(range(len(gens)))
    for i in sc["order"] + list(range(len(gens))) * 8:
        if i in live:
            try:
                got[i].append(M.snap(next(gens[i])))
            except StopIteration:
                live.discard(i)
    for i, s in enumerate(sc["specs"]):
        want = C.reference(s, list(range(0 if sc["zero"] else 1, s["n"] + 1)))
        ctx.expect_same(M.diff_lists(got[i], want, **M.TOL), "interleaved-consumers",
                        f"{s['kind']}/{s['method']} #{i}")
        ctx.runs += 2
        ctx.sim_time += 2 * M.simulated_time(s)
    ctx.probes["generators"] += 1
    ctx.reached(sc["order"], [C.spec_digest(g) for g in got])


def run(sc, ctx):
    specs = sc["specs"]
    for s in specs:
        ctx.kinds[s["kind"]] += 1
    if sc["mode"] == "generators":
        return run_generators(sc, ctx)
    want = [C.reference(s) for s in specs]
    sites = harness.isolated(lambda: {k: list(v) for k, v in execute(sc, True).sites.items()})
    plan = sim.resolve_plan(sc["plan"], sites)
    inter = [(t, sim.resolve_event(sites.get(t, []), u, v), e) for t, u, v, e in sc["interrupts"]
             if t < len(specs)]
    sch = execute(sc, False, plan, inter)
    ctx.check(sch.failure is None, "deadlock", f"{sch.failure}")
    ctx.events += sch.total
    ctx.faults["interrupt"] += len(sch.fired)
    ctx.faults["thread-switch"] += len(sch.trace_log)
    ctx.probes["switch"] += len(sch.trace_log) > len(specs)
    ctx.probes["shared-problem"] += sc["share"] == "problem"
    ctx.probes["shared-law"] += sc["share"] == "law"
    ctx.probes["three"] += len(specs) == 3
    hit = {t for t, _ in sch.fired}
    for i, s in enumerate(specs):
        ctx.runs += 2
        ctx.sim_time += 2 * M.simulated_time(s)
        t = sch.threads[i]
        if i in hit and t.error is not None:
            ctx.probes["interrupted-neighbour"] += 1
            continue
        if t.error is not None:
            import traceback

            tb = "".join(traceback.format_exception(t.error))[-400:]
            ctx.violation("neighbour-raised", f"{s['kind']}/{s['method']} #{i}: {tb}")
            continue
        ctx.expect_same(M.diff_lists(t.result, want[i], **M.TOL), "concurrent-differs",
                        f"{s['kind']}/{s['method']} #{i} beside "
                        f"{[x['kind'] for x in specs]} sharing {sc['share']}")
    ctx.reached(sch.trace_log, [C.spec_digest(w) for w in want])
