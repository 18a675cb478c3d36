"""C15: every entry of a product is that quantity of the simulated state at the entry's time."""

import numpy as np
from matplotlib import tri

import common as C
import harness
import models as M
import sim
from props import c06, c10

ID = "C15"
LEVEL = "exploration"
QUICK = 420
KITS = (("static", "schur"), ("dynamic", "schur"), ("dynamic", "direct"), ("quasistatic", "schur"),
        ("relaxation", "schur"), ("wave", "direct"), ("wave_contact", "schur"),
        ("wave_interior", "global"))
RULE = ("one case = one seeded simulation recording several products (penetration, vertical "
        "intersections, contact limit points with obstacle levels the solution crosses) on a solver "
        "with a seeded history, run to the end or killed by a fault at an arbitrary point, resumed "
        "with further products and cut into ranges; every entry is recomputed from the state seen "
        "live at its time by an independent geometric model; non-trivial when an entry was "
        "recomputed; distinct by workload digest, products, history and fault sites")
MEASURE = "hash of (workload digest, products, history, fault sites)"
REAL = C.REAL + ["matplotlib interpolation and scipy root finding inside products"]
STUB = C.STUB_BASE + ["terminal (stdout) and optimiser entry point when they are made to fail"]
PROBES = ("penetration", "no-contact", "corner", "intersection", "limits", "zero-found",
          "several-zeros", "outside", "killed", "resumed", "range", "after-failure", "static")
SHRINK_LISTS = ("ops", "prods")
KINDS = ["static", "wave", "wave", "wave_contact", "wave_interior", "quasistatic", "dynamic",
         "dynamic", "relaxation"]
FAULTS = ("interrupt", "interrupt", "callback", "optimiser", "stdout")


def gen_prods(rng, sx):
    out, used = [], set()
    for _ in range(int(rng.integers(1, 4))):
        kind = str(rng.choice(["penetration", "intersection", "limits", "limits"]))
        x = float(np.round(sx * rng.uniform(0.05, 0.95), 2))
        if rng.random() < 0.1:
            x = float(np.round(sx * rng.choice([0.5, 0.25]), 4))
        if rng.random() < 0.05:
            x = float(np.round(sx + 0.5, 2))
        name = (kind, "" if kind == "penetration" else f"{x:.2f}")
        if name in used:
            continue
        used.add(name)
        out.append([kind, x, round(float(rng.random()), 4), round(float(rng.random()), 4)])
    return out


def gen(rng):
    spec = M.gen_spec(rng, KINDS, max_steps=5)
    spec["u0"] = [round(float(v), 4) for v in rng.uniform(-0.05, 0.05, 4)]
    ops = [[str(rng.choice(["solve", "interrupt", "callback", "product", "optimiser"])),
            c06.variation(rng, spec), round(float(rng.random()), 6), round(float(rng.random()), 6)]
           for _ in range(int(rng.choice([0, 0, 1, 2])))]
    sx = spec["mesh"]["scale"][0]
    fault = None
    if rng.random() < 0.4:
        fault = [str(rng.choice(FAULTS)), round(float(rng.random()), 6),
                 round(float(rng.random()), 6)]
    return {"spec": spec, "ops": ops, "prods": gen_prods(rng, sx), "more": gen_prods(rng, sx),
            "fault": fault, "out": M.gen_output_steps(rng, spec["n"]),
            "resume": bool(rng.random() < 0.5),
            "ranges": [[round(float(v), 3) for v in rng.uniform(-0.5, spec["n"] + 0.5, 2)]
                       for _ in range(2)]}


class Line:
    """The P1 function on the vertical line x = level, built from the mesh alone."""

    def __init__(self, nodes, elements, level):
        self.level = level
        self.nodes, self.elements = nodes, elements
        self.cuts = []  # (y, node a, node b, weight of b)
        edges = {tuple(sorted((int(t[i]), int(t[j])))) for t in elements
                 for i, j in ((0, 1), (1, 2), (0, 2))}
        for a, b in edges:
            xa, xb = nodes[a, 0] - level, nodes[b, 0] - level
            if xa == 0 or xb == 0:
                for i, v in ((a, xa), (b, xb)):
                    if v == 0:
                        self.cuts.append((float(nodes[i, 1]), i, i, 0.0))
            elif xa * xb < 0:
                w = -xa / (xb - xa)
                self.cuts.append((float((1 - w) * nodes[a, 1] + w * nodes[b, 1]), a, b, w))
        self.cuts.sort()

    def values(self, u):
        """Breakpoints of u along the line."""
        y = np.array([c[0] for c in self.cuts])
        v = np.array([(1 - w) * u[a] + w * u[b] for _, a, b, w in self.cuts])
        return y, v

    def at(self, u, ys):
        y, v = self.values(u)
        if not len(y):
            return np.full(len(ys), np.nan)
        out = np.interp(ys, y, v)
        out[(ys < y[0]) | (ys > y[-1])] = np.nan
        return out

    def zeros(self, u, obstacle):
        y, v = self.values(u)
        v = v - obstacle
        out = []
        for k in range(len(y)):
            if v[k] == 0:
                out.append(float(y[k]))
            elif k + 1 < len(y) and v[k] * v[k + 1] < 0:
                out.append(float(y[k] + (y[k + 1] - y[k]) * v[k] / (v[k] - v[k + 1])))
        return sorted(set(out))


class Oracle:
    def __init__(self, ctx, spec, mesh):
        self.ctx, self.spec = ctx, spec
        self.nodes, self.elements = np.array(mesh.nodes), np.array(mesh.elements)
        inv = c10.Invariants(ctx, spec, self.nodes, self.elements)
        sc = spec["mesh"]["scale"]
        border = inv._border()
        contact = {i for i in border if M.side(spec["contact"], spec["mesh"])(self.nodes[i])}
        fixed = {i for i in border if M.side(spec["dirichlet"], spec["mesh"])(self.nodes[i])}
        self.contact = sorted(contact - fixed)
        self.corner = bool(contact & fixed)
        self.ymin, self.ymax = float(self.nodes[:, 1].min()), float(self.nodes[:, 1].max())
        self.step = 1.0 / len(self.nodes) / 2

    def make(self, prods, frames):
        """Product parameters with obstacle levels the solution really reaches."""
        out = []
        for kind, x, q, r in prods:
            if kind == "penetration":
                out.append(["penetration"])
            elif kind == "intersection":
                out.append(["intersection", x])
            else:
                line = Line(self.nodes, self.elements, x)
                u = frames[int(q * len(frames))]["displacement"][:, 0]
                y = self.ymin + (0.1 + 0.8 * r) * (self.ymax - self.ymin)
                v = float(np.round(line.at(u, np.array([y]))[0], 5))
                if r * 1000 % 1 < 0.4:  # exactly a value at a place where one is likely to look
                    y = self.ymin
                    for _ in range(1 + int(r * (self.ymax - self.ymin) / self.step)):
                        y += self.step
                    surface = tri.Triangulation(*self.nodes.T, triangles=self.elements)
                    v = float(np.ma.filled(tri.LinearTriInterpolator(surface, u)(x, y), np.nan))
                out.append(["limits", x, 0.0 if np.isnan(v) else v])
        return out

    def entry(self, par, value, s, what):
        ctx, probes = self.ctx, self.ctx.probes
        u = s["displacement"][:, 0]
        size = float(np.abs(u).max()) + 1e-12
        if par[0] == "penetration":
            probes["penetration"] += 1
            probes["no-contact"] += not self.contact
            probes["corner"] += self.corner
            want = float(np.min(s["displaced_nodes"][self.contact, 1])) if self.contact else 0.0
            ctx.check(abs(float(value) - want) < 1e-10 * (1 + abs(want)), "wrong-penetration",
                      f"{what}: {float(value)!r}, lowest contact node is at {want!r}")
            return
        line = Line(self.nodes, self.elements, par[1])
        inside = len(line.cuts) > 0
        probes["outside"] += not inside
        if par[0] == "intersection":
            probes["intersection"] += 1
            ys, vs = value
            ys = np.asarray(ys, float)
            vs = np.ma.filled(np.ma.asarray(vs, float), np.nan)
            ctx.check(ys.shape == vs.shape and ys.ndim == 1, "wrong-intersection",
                      f"{what}: {ys.shape} points, {vs.shape} values")
            if len(ys) > 1:
                ctx.check(abs(ys[0] - self.ymin) < 1e-9 and abs(ys[-1] - self.ymax) < 1e-9
                          and bool(np.all(np.diff(ys) > 0)), "wrong-intersection",
                          f"{what}: points from {ys[0]} to {ys[-1]}, the body spans "
                          f"{self.ymin} to {self.ymax}")
            want = line.at(u, ys)
            deep = (ys > self.ymin + 1e-7) & (ys < self.ymax - 1e-7)
            bad = deep & (np.isnan(vs) != np.isnan(want))
            ctx.check(not bad.any(), "wrong-intersection", f"{what}: no value at "
                      f"{ys[bad][:3]} of a body it cuts (or the other way round)")
            both = ~np.isnan(vs) & ~np.isnan(want)
            err = np.abs(vs - want)[both]
            ctx.check(not err.size or err.max() < 1e-7 * size, "wrong-intersection",
                      lambda: f"{what}: off by {err.max():.2e} of {size:.2e}")
            return
        probes["limits"] += 1
        got = sorted(float(z) for z in value)
        want = line.zeros(u, par[2])
        if not inside:
            ctx.check(not got, "wrong-limit-point", f"{what}: {got[:3]} outside the body")
            return
        y, v = line.values(u)
        slope = float(np.max(np.abs(np.diff(v)) / np.maximum(np.diff(y), 1e-9))) if len(y) > 1 else 0
        for z in got:
            f = line.at(u, np.clip(np.array([z]), y[0], y[-1]))[0] - par[2]
            ctx.check(self.ymin - 1e-9 <= z <= self.ymax + 1e-9
                      and abs(f) <= 1e-9 * (size + slope), "wrong-limit-point",
                      f"{what}: {z!r}, where u - obstacle = {f:.3e}")
        gap = 2.05 * self.step
        grid = [self.ymin - 1, *want, self.ymax + 1]
        for k, z in enumerate(want, 1):
            alone = z - grid[k - 1] > gap and grid[k + 1] - z > gap
            if not alone or z < self.ymin + gap or z > self.ymax - gap:
                continue
            f = line.at(u, np.array([z - 0.05 * self.step, z + 0.05 * self.step])) - par[2]
            if f[0] * f[1] >= 0 or np.abs(f).min() < 1e-12 * size:
                continue  # touches only
            near = [g for g in got if abs(g - z) < self.step]
            probes["zero-found"] += 1
            ctx.check(len(near) == 1, "missed-limit-point" if not near else "limit-point-twice",
                      f"{what}: u crosses the obstacle at {z!r}, reported: {got[:6]}")
        probes["several-zeros"] += len(want) > 1

    def product(self, par, prod, seen, what):
        """All entries of a product against the live states seen (one entry each)."""
        data = dict(prod.data)
        times = [s["time"] for s in seen]
        self.ctx.check(sorted(data) == sorted(times), "wrong-times",
                       f"{what}: entries at {sorted(data)[:6]} for states at {times[:6]}")
        for s in seen:
            if s["time"] in data:
                self.entry(par, data[s["time"]], s, f"{what} at {s['time']:.6g}")


def name_of(par):
    return {"penetration": "penetration", "intersection": "intersection at %.2f",
            "limits": "limit points at %.2f"}[par[0]] % (() if par[0] == "penetration" else par[1])


def frames_of(spec):
    live = []
    solver = M.build(spec)
    M.run(solver, spec, products=[M.Hook(lambda s: live.append(M.snap(s)))])
    return live


def run(sc, ctx):
    spec = sc["spec"]
    kind = spec["kind"]
    ctx.kinds[kind] += 1
    single = kind == "static"
    gate = c06.Gate()
    solver = M.build(spec, gate)
    oracle = Oracle(ctx, spec, solver.body.mesh)
    hist, failed = [], False
    for op, var, u, v in sc["ops"]:
        sp = c06.varied(spec, var)
        out = c06.output(spec, var)
        if op == "solve":
            M.run(solver, sp, output_step=out)
            hist.append(op)
        else:
            snaps, site = c06.faulty(op, u, v, solver, sp, out, gate, ctx)
            failed = failed or snaps is None
            hist.append([op, str(site)])
        ctx.runs += 1
        ctx.sim_time += M.simulated_time(sp)
    pars = oracle.make(sc["prods"], harness.isolated(frames_of, spec))
    ctx.runs += 1
    what = f"{kind}/{spec['method']} after {hist}"
    # products first: when the observer sees a state all its products have been updated
    if sc["fault"]:
        op, u, v = sc["fault"]
        prods, live = M.make_products(spec, pars), []
        sp = dict(spec, products=[])
        hook = M.Hook(lambda s: live.append(M.snap(s)))

        class Run:  # c06.faulty drives M.run; hand it our own products
            def solve(self, **kw):
                kw["products"] = prods + [hook]
                return solver.solve(**kw)

        snaps, site = c06.faulty(op, u, v, Run(), sp, None if single else sc["out"], gate, ctx)
        ctx.runs += 1
        hist.append(["main", op, str(site), snaps is not None])
        killed = snaps is None
        failed = failed or killed
        ctx.probes["killed"] += killed
        for par, prod in zip(pars, prods):
            # a run killed between two products' updates leaves one entry more in the first
            seen = live
            extra = sorted(set(prod.data) - {s["time"] for s in live})
            if killed and len(extra) <= 1:
                for t in extra:
                    prod.data.pop(t)
            oracle.product(par, prod, seen, f"{what}: '{prod.name}' of a "
                           f"{'killed' if killed else 'disturbed'} run")
    prods, live = M.make_products(spec, pars), []
    hook = M.Hook(lambda s: live.append(M.snap(s)))
    raw = M.run(solver, spec, output_step=None if single else sc["out"], products=prods + [hook])
    ctx.runs += 1
    ctx.sim_time += M.simulated_time(spec)
    steps = [1] if single else sc["out"]
    ctx.check(len(raw) == len(steps), "wrong-number-of-states", f"{what}: {len(raw)}")
    for k, s in zip(steps, raw):
        for par in pars:
            n = name_of(par)
            ctx.check(n in s.products, "missing-product", f"{what}: no '{n}' in state {k}")
            if n in s.products:
                oracle.product(par, s.products[n], live[:k], f"{what}: '{n}' of state {k}")
    for par, prod in zip(pars, prods):
        oracle.product(par, prod, live, f"{what}: '{prod.name}' given by the caller")
    last, seen = raw[-1], live[:steps[-1]]
    if sc["resume"] and kind.startswith("wave"):
        more = [p for p in oracle.make(sc["more"], seen or live)
                if name_of(p) not in {name_of(q) for q in pars}]
        m = 1 + spec["n"] // 2
        live2 = []
        hook2 = M.Hook(lambda s: live2.append(M.snap(s)), "~hook2")
        again = M.build(spec).solve(n_steps=m, output_step=tuple(range(0, m + 1)), state=last,
                                    products=M.make_products(spec, more) + [hook2],
                                    **M.solve_kwargs(spec))
        ctx.runs += 1
        ctx.probes["resumed"] += 1
        for k, s in enumerate(again):
            for par in pars:
                oracle.product(par, s.products[name_of(par)], seen + live2[:k],
                               f"{what}, resumed: '{name_of(par)}' of state {k}")
            for par in more:
                oracle.product(par, s.products[name_of(par)], live2[:k],
                               f"{what}, resumed: new '{name_of(par)}' of state {k}")
        last, seen = list(again)[-1], seen + live2
        pars = pars + more
        if more:
            seen_of = {name_of(p): live2 for p in more}
        else:
            seen_of = {}
    else:
        seen_of = {}
    if not single:
        for par in pars:
            prod = last.products[name_of(par)]
            mine = seen_of.get(name_of(par), seen)
            for a, b in sc["ranges"]:
                a, b = a * spec["dt"], b * spec["dt"]
                if a * 1000 % 2 < 1 and mine:  # cut exactly at an entry, too
                    b = mine[len(mine) // 2]["time"]
                part = prod.range(a, b)
                ctx.probes["range"] += 1
                oracle.product(par, part, [s for s in mine if a < s["time"] <= b],
                               f"{what}: '{prod.name}' in ({a}, {b}]")
            oracle.product(par, prod, mine, f"{what}: '{prod.name}' after taking ranges")
    ctx.probes["after-failure"] += failed
    ctx.probes["static"] += single
    ctx.reached(C.spec_digest([M.snap(s) for s in raw]), pars, hist)
