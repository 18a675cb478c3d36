"""C14: a drawing shows the state it was asked to show, whatever was drawn, failed or killed before,
and drawing changes nothing."""

import os

import numpy as np

import common as C
import disk
import harness
import models as M
import sim

ID = "C14"
LEVEL = "exploration"
QUICK = 200
KITS = (("static", "schur"), ("dynamic", "direct"), ("wave", "direct"), ("quasistatic", "schur"),
        ("temperature", "schur"), ("wave_contact", "schur"))
RULE = ("one case = states of one seeded simulation drawn in a seeded history (saves of several states "
        "with several options, on new and on the caller's figures, redraws, limit point plots, plots "
        "in columns; other figures open and current; saves failing on the disk; drawings killed at an "
        "arbitrary line; clock jumps): every saved file is byte for byte what a calm process draws, "
        "what is drawn is checked against the state, failures surface, and states, earlier files and "
        "the caller's other figures stay as they were; non-trivial when a drawing was compared; "
        "distinct by workload digest and history")
MEASURE = "hash of (workload digest, history, fault sites)"
REAL = C.REAL + ["matplotlib (Agg/SVG) and networkx drawing, real files through the interposed libc"]
STUB = C.STUB_BASE + ["screen (plt.show)", "clock"]
PROBES = ("draw", "own-figure", "other-current", "redraw", "open", "disk-failed", "killed", "limits", "limits-many",
          "columns", "columns-odd", "surface", "field", "forces", "colorless", "clock", "stress")
SHRINK_LISTS = ("ops",)
OPS = ("draw", "draw", "draw", "redraw", "open", "fail", "kill", "limits", "columns", "surface",
       "clock")


def warm():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import mpl_toolkits.mplot3d  # noqa
    from conmech.plotting import drawer, membrane  # noqa

    fig, _ = plt.subplots()
    fig.savefig(os.path.join(os.environ["DST_SCRATCH"], "warm.svg"))
    plt.close("all")


def gen(rng):
    kinds = ["static", "dynamic", "dynamic", "quasistatic", "temperature", "wave", "wave_contact"]
    spec = M.gen_spec(rng, kinds, min_steps=2, max_steps=4)
    if spec["kind"].startswith("wave"):
        spec["mesh"] = {"kind": "cross", "scale": [1.0, 1.0], "per": float(rng.choice([0.5, 1.0]))}
    ops = []
    for _ in range(int(rng.integers(2, 7))):
        op = str(rng.choice(OPS))
        if op == "surface" and rng.random() < 0.7:
            op = "columns"
        ops.append([op, int(rng.integers(1 << 20)), options(rng, spec), round(float(rng.random()), 6),
                    round(float(rng.random()), 6)])
    return {"spec": spec, "ops": ops}


def options(rng, spec):
    o = {"title": str(rng.choice(["a", "b b", "state"])) if rng.random() < 0.5 else None,
         "foundation": bool(rng.random() < 0.5), "colorful": bool(rng.random() < 0.7),
         "forces": float(rng.choice([0, 1.0, 5.0])), "own": bool(rng.random() < 0.35),
         "colorbar": bool(rng.random() < 0.5)}
    if spec["kind"].startswith("wave"):  # a membrane's force has one component, out of the plane
        o["forces"] = 0.0
    if not spec["kind"].startswith("wave") and rng.random() < 0.35:
        o["stress"] = float(rng.choice([1.0, 4.0]))
    if spec["kind"] == "temperature" and rng.random() < 0.6:
        o["field"] = "temperature"
    return o


def node_law(*, displacement, velocity, nodes, time, **_):
    """A constitutive law giving stresses at nodes, as the drawer wants them."""
    e = displacement + 0.5 * velocity + 0.1 * nodes + 0.01 * time
    return np.stack([e, e[:, ::-1] * 1.5], axis=1)


class Studio:
    """The caller's side of drawing."""

    def __init__(self, root):
        import matplotlib
        import matplotlib.pyplot as plt
        from conmech.helpers.config import Config
        from conmech.plotting.drawer import Drawer

        self.plt, self.Drawer = plt, Drawer
        matplotlib.rcParams["svg.hashsalt"] = "dst"
        matplotlib.rcParams["svg.fonttype"] = "none"
        os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
        self.config = Config(show=False, save=True, outputs_path=root, output_dir="plots").init()
        self.dir = os.path.join(root, "plots")

    def drawer(self, state, o):
        d = self.Drawer(state=state, config=self.config)
        d.colorful = o["colorful"]
        d.outer_forces_scale = o["forces"]
        d.outer_forces_size = 3
        if o.get("stress"):
            d.normal_stress_scale = o["stress"]
            state.constitutive_law = node_law
        if o.get("field"):
            d.field_name = o["field"]
            d.cmap = "viridis"
        return d

    def draw(self, d, o, name, axes=None):
        kw = {}
        if o["own"]:
            kw["fig_axes"] = axes or self.plt.subplots(figsize=(4, 3))
        if o.get("field"):
            kw.update(field_min=-1.0, field_max=1.0)
        d.draw(show=False, save=name, save_format="svg", title=o["title"],
               foundation=o["foundation"], colorbar=o["colorbar"], **kw)

    def read(self, name):
        with open(os.path.join(self.dir, name + ".svg"), "rb") as f:
            return f.read()


def calm(states, wanted, root):
    """Drawings as a process makes them which does nothing else: one fork each."""
    out = {}
    for key, (k, o) in wanted.items():
        def go(k=k, o=o, key=key):
            st = Studio(root)
            st.draw(st.drawer(states[k], o), o, "calm")
            return st.read("calm")
        out[key] = harness.isolated(go)
    return out


def shown(ctx, st, state, o, spec, what):
    """What is on the axes, against the state."""
    plt = st.plt
    fig, ax = plt.subplots()
    try:
        d = st.drawer(state, o)
        kw = {"field_min": -1.0, "field_max": 1.0} if o.get("field") else {}
        d.do_draw((fig, ax), title=o["title"], foundation=o["foundation"], colorbar=o["colorbar"],
                  **kw)
        pts = [np.asarray(c.get_offsets()) for c in ax.collections
               if type(c).__name__ == "PathCollection"]
        pts = np.vstack([p for p in pts if len(p)]) if pts else np.zeros((0, 2))
        for name, want in (("deformed", state.displaced_nodes), ("original", state.body.mesh.nodes)):
            dist = np.abs(pts[None, :, :] - np.asarray(want)[:, None, :2]).max(axis=2).min(axis=1)
            ctx.check(dist.max() < 1e-12, "not-drawn", f"{what}: {name} nodes are not all shown")
        lim = (*ax.get_xlim(), *ax.get_ylim())
        x, y = np.asarray(state.displaced_nodes)[:, 0], np.asarray(state.displaced_nodes)[:, 1]
        ctx.check(lim[0] <= x.min() and x.max() <= lim[1] and lim[2] <= y.min()
                  and y.max() <= lim[3], "outside-axes", f"{what}: the body leaves the axes {lim}")
        if o["title"] is not None:
            ctx.check(ax.get_title() == o["title"], "title", f"{what}: title {ax.get_title()!r}")
        quiver = [c for c in ax.collections if type(c).__name__ == "Quiver"]
        if o.get("stress"):
            ctx.probes["stress"] += 1
            ids = sorted({int(i) for e in state.body.mesh.contact_boundary for i in e})
            down = -1.5 * (state.displacement + 0.5 * state.velocity
                           + 0.1 * state.body.mesh.nodes + 0.01 * state.time)[ids, 0]
            want = [[*state.displaced_nodes[i], 0.0, v] for i, v in zip(ids, down)]
            want = np.array(sorted(np.round(np.array(want), 9).tolist()))
            for q in quiver:
                got = np.round(np.column_stack([q.X, q.Y, q.U, q.V]), 9)
                if got.shape == want.shape and np.allclose(sorted(got.tolist()), want, atol=1e-8):
                    quiver.remove(q)
                    break
            else:
                ctx.check(not ids or not np.any(down), "wrong-stresses",
                          f"{what}: no arrows are the stresses at {state.time}")
        if o["forces"] and o["colorful"]:
            nodes = np.asarray(state.body.mesh.nodes)
            ids = sorted({int(i) for e in state.body.mesh.neumann_boundary for i in e})
            if ids:
                ctx.probes["forces"] += 1
                got = sorted(np.round(np.column_stack([q.X, q.Y, q.U, q.V]), 9).tolist()
                             for q in quiver)
                want = [[*state.displaced_nodes[i],
                         *M.force_value(spec["outer"], 2, nodes[i], state.time)] for i in ids]
                got = np.array(sorted(sum(got, [])))
                want = np.array(sorted(np.round(np.array(want), 9).tolist()))
                ctx.check(got.shape == want.shape and np.allclose(got, want, atol=1e-8),
                          "wrong-forces", f"{what}: arrows are not the outer forces at "
                          f"{state.time}")
        if o.get("field"):
            ctx.probes["field"] += 1
        ctx.probes["colorless"] += not o["colorful"]
    finally:
        plt.close(fig)


def barycentric(state, px, py, values):
    nodes = np.asarray(state.body.mesh.nodes)
    for e in state.body.mesh.elements:
        p = nodes[e]
        lam = np.linalg.solve(np.vstack([p.T, np.ones(3)]), [px, py, 1.0])
        if lam.min() > -1e-9:
            return float(lam @ values[e])
    return None


def columns(ctx, st, states, x, what):
    from conmech.plotting import membrane

    before = set(st.plt.get_fignums())
    membrane.plot_in_columns(states, title="columns", finish=True, x=x)
    new = sorted(set(st.plt.get_fignums()) - before)
    ctx.check(len(new) == 1, "columns", f"{what}: {len(new)} figures")
    fig = st.plt.figure(new[-1])
    lines = [ln for ax in fig.axes for ln in ax.lines]
    ctx.check(len(lines) == len(states), "columns", f"{what}: {len(lines)} lines for "
              f"{len(states)} states")
    for s, ln in zip(states, lines):
        ys, us = np.asarray(ln.get_xdata(), dtype=float), np.ma.asarray(ln.get_ydata())
        for i in range(3, len(ys), 17):
            want = barycentric(s, x, ys[i], np.asarray(s.displacement)[:, 0])
            got = us[i]
            if want is None or got is np.ma.masked:
                continue
            ctx.check(abs(float(got) - want) < 1e-9 + 1e-6 * abs(want), "columns",
                      f"{what}: {float(got)} drawn for {want} at ({x}, {ys[i]})")
    st.plt.close(fig)


def limits(ctx, st, seed, what):
    from conmech.plotting import membrane

    r = np.random.default_rng(seed)
    prod = M.VerticalIntersectionContactLimitPoints(0.5, 0.1)
    total = int(r.choice([0, 3, 50, 999, 1000, 1001, 1100, 2100, 2500]))
    n, t, want = 0, 0.0, []
    while n < total:
        k = min(int(r.integers(0, 4)), total - n)
        zs = [round(float(z), 6) for z in r.random(k)]
        prod.data[t] = zs
        want += [(round(t, 9), z) for z in zs]
        n += k
        t += 0.01
    fig = st.plt.figure()
    membrane.plot_limit_points(prod, title="limits", label="points", finish=bool(seed % 2))
    pts = [np.asarray(c.get_offsets()) for ax in fig.axes for c in ax.collections]
    got = sorted((round(float(a), 9), round(float(b), 6)) for p in pts for a, b in p)
    ctx.probes["limits-many"] += total > 1000
    ctx.check(got == sorted(want), "limit-points", f"{what}: {len(got)} points drawn for "
              f"{len(want)} recorded")
    st.plt.close(fig)


def other_figure(plt, num, look):
    f, ax = plt.subplots()
    ax.plot([0, 1, 2], [num % 7, 1, 2])
    ax.set_title(f"mine {num}")
    return f, look(f)


def run(sc, ctx):
    spec = sc["spec"]
    kind = spec["kind"]
    ctx.kinds[kind] += 1
    out = None if kind == "static" else list(range(0, spec["n"] + 1))
    states = M.run(M.build(spec), spec, output_step=out)
    snaps = [M.snap(s) for s in states]
    root = os.path.join(ctx.scratch, "disk")
    os.makedirs(root)
    wanted = {}
    for i, (op, num, o, u, v) in enumerate(sc["ops"]):
        if op in ("draw", "fail", "kill"):
            wanted[i] = (num % len(states), o)
    want = calm(states, wanted, root)
    st = Studio(root)
    plt = st.plt
    plt.show = lambda *a, **k: None
    drawers, files, mine, hist = {}, {}, [], []
    # the caller's open figures: figure -> (line data, number of artists, title)
    look = lambda f: [(len(ax.get_children()), ax.get_title(),
                       [ln.get_xydata().tolist() for ln in ax.lines]) for ax in f.axes]
    clock = None
    with disk.Disk(root) as d:
        for i, (op, num, o, u, v) in enumerate(sc["ops"]):
            k = num % len(states)
            what = f"{kind} {op} after {hist}"
            name = f"p{i}"
            ctx.runs += 1
            if op == "open":
                mine.append(other_figure(plt, num, look))
                ctx.probes["open"] += 1
                hist.append(op)
            elif op == "clock":
                if clock is None:
                    clock = sim.Clock(jumps=[-3600.0, 5.0, 0.0])
                    clock.__enter__()
                    ctx.faults["clock-jump"] += 1
                ctx.probes["clock"] += 1
                hist.append(op)
            elif op in ("draw", "fail", "kill"):
                dr = st.drawer(states[k], o)
                axes = None
                if o["own"]:
                    axes = plt.subplots(figsize=(4, 3))
                    if num % 3:  # meanwhile the caller turns to another figure
                        mine.append(other_figure(plt, num, look))
                        ctx.probes["other-current"] += 1
                error, fired = None, None
                if op == "fail":
                    d.plan([["open" if u < 0.3 else "write", 0, "sticky" if u < 0.6 else "errno",
                             ("ENOSPC", "EIO", "EDQUOT")[num % 3]]])
                try:
                    if op == "kill":
                        tr = sim.LineTracer(at=int(u * u * 250))
                        try:
                            with tr:
                                st.draw(dr, o, name, axes)
                        finally:
                            fired = tr.fired
                    else:
                        st.draw(dr, o, name, axes)
                except BaseException as e:  # noqa
                    error = e
                if op == "fail":
                    fired = d.fired()
                    ctx.faults["disk"] += bool(fired)
                    d.clear()
                elif op == "kill":
                    ctx.faults["interrupt"] += fired is not None
                if error is not None:
                    ok = isinstance(error, OSError) if op == "fail" else sim.injected_in_chain(error)
                    if not fired:
                        raise error
                    ctx.check(ok, "error-hidden", f"{what}: {type(error).__name__}: {error}")
                    ctx.probes["disk-failed" if op == "fail" else "killed"] += 1
                else:
                    ctx.check(not (op == "fail" and fired), "failure-swallowed",
                              f"{what}: the disk failed and draw() returned")
                    if not (op == "fail" and fired):
                        got = st.read(name)
                        files[name] = got
                        ctx.check(got == want[i], "other-drawing",
                                  f"{what}: the saved file is not what a calm process draws")
                        drawers[name] = (dr, o, i)
                        ctx.probes["draw"] += 1
                        ctx.probes["own-figure"] += o["own"]
                        if num % 2:
                            shown(ctx, st, states[k], o, spec, what)
                hist.append([op, k, str(fired)])
            elif op == "redraw":
                if drawers:
                    src = sorted(drawers)[num % len(drawers)]
                    dr, o2, j = drawers[src]
                    st.draw(dr, o2, name)
                    files[name] = st.read(name)
                    ctx.check(files[name] == want[j], "other-drawing",
                              f"{what}: a second drawing of {src} differs")
                    ctx.probes["redraw"] += 1
                    hist.append([op, src])
            elif op == "limits":
                limits(ctx, st, num, what)
                ctx.probes["limits"] += 1
                hist.append(op)
            elif op in ("columns", "surface") and kind.startswith("wave"):
                if op == "columns":
                    m = 1 + num % len(states)
                    columns(ctx, st, states[:m], 0.1 + 0.8 * u, what)
                    ctx.probes["columns"] += 1
                    ctx.probes["columns-odd"] += m % 2
                else:
                    from conmech.plotting import membrane

                    before = set(plt.get_fignums())
                    membrane.plot(states[k], in3d=True)
                    new = set(plt.get_fignums()) - before
                    ctx.check(len(new) == 1, "surface", f"{what}: {len(new)} figures")
                    for f in new:
                        plt.close(f)
                    ctx.probes["surface"] += 1
                hist.append(op)
            for s, want_s in zip(states, snaps):
                ctx.expect_same(M.diff(M.snap(s), want_s, rtol=0, atol=0), "state-changed", what)
            for f, was in mine:
                ctx.check(look(f) == was and plt.fignum_exists(f.number), "other-figure-changed",
                          f"{what}: a figure of the caller was changed or closed")
            for fn, data in files.items():
                ctx.check(st.read(fn) == data, "earlier-file-changed", f"{what}: {fn}")
    if clock is not None:
        clock.__exit__()
    plt.close("all")
    ctx.sim_time += M.simulated_time(spec)
    ctx.reached(C.spec_digest(snaps), hist)
