"""C16: the mesh a simulation runs on is the mesh described, however often, at the same time as what
and through whatever failures it is built."""

import os

import meshio
import numpy as np

import common as C
import disk
import harness
import models as M
import sim
from conmech.mesh.boundaries_description import BoundariesDescription
from conmech.mesh.mesh import Mesh
from conmech.mesh.zoo.raw_mesh import RawMesh
from conmech.properties import mesh_description as md

ID = "C16"
LEVEL = "exploration"
QUICK = 3000
KITS = (("static", "direct"),)
RULE = ("one case = one mesh description (arrays the caller keeps, fresh arrays, a mesh file in one of "
        "several formats, a generated mesh; with unconnected nodes, positions, 2D and 3D) built in a "
        "seeded history: with several boundary descriptions, killed at an arbitrary line, with failing "
        "predicates, with read errors, short and interrupted reads, the file replaced in between, and by "
        "several threads at once under a seeded schedule; every completed build is compared with an "
        "independent model of the described mesh and its boundary classification, and the caller's "
        "arrays with their copies; non-trivial when a mesh was compared; distinct by mesh, history, "
        "schedule and fault sites")
MEASURE = "hash of (mesh digest, history, schedule, fault sites)"
REAL = C.REAL + ["meshio reading mesh files through the interposed libc layer"]
STUB = C.STUB_BASE + ["thread scheduling"]
PROBES = ("shared", "fresh", "file", "zoo", "3d", "unconnected", "position", "corner", "named",
          "named-empty", "condition", "no-contact", "no-dirichlet", "rebuilt", "killed", "predicate",
          "read-error", "short-read", "replaced", "threads", "thread-killed", "after-failure",
          "solver", "int32")
SHRINK_LISTS = ("ops",)
OPS = ("build", "build", "kill", "kill", "predicate", "read", "replace", "threads", "threads",
       "solver")
FORMATS = ((".mesh", None), (".msh", "gmsh"), (".msh", "gmsh22"), (".vtu", None), (".inp", None))


def gen_mesh(rng, dim=None):
    dim = dim or (3 if rng.random() < 0.15 else 2)
    if dim == 3:
        z = md.CubeMeshDescription(None).build()
        pts, cells = np.array(z.nodes), np.array(z.elements)
        if rng.random() < 0.5:
            cells = cells[:int(rng.integers(1, len(cells) + 1))]
        p = rng.permutation(len(pts))
        pts, cells = pts[p], np.argsort(p)[cells]
        pts = np.round(pts * rng.uniform(0.5, 2, 3), 4)
    else:
        m = M._random_mesh(rng)
        pts, cells = np.array(m["points"]), np.array(m["cells"])
        pts = np.round(pts * rng.uniform(0.5, 2, 2) + rng.uniform(-1, 1, 2), 5)
    if rng.random() < 0.4:
        for _ in range(int(rng.integers(1, 4))):  # a node no element uses, inside the bounding box
            k = int(rng.integers(0, len(pts) + 1))
            lo, hi = pts.min(axis=0), pts.max(axis=0)
            new = np.round(lo + (hi - lo) * rng.uniform(0.01, 0.99, dim), 5)
            pts = np.insert(pts, k, new, axis=0)
            cells = cells + (cells >= k)
    for row in cells:
        rng.shuffle(row)
    return {"points": pts.tolist(), "cells": cells.tolist()}


def gen_part(rng):
    """A predicate: a side of the bounding box, a half space, everything or nothing."""
    k = rng.random()
    if k < 0.55:
        return ["side", int(rng.integers(3)), int(rng.integers(2))]
    if k < 0.85:
        return ["half", [round(float(v), 6) for v in rng.uniform(-1, 1, 3)],
                round(float(rng.uniform(0.1, 0.9)), 6)]
    return ["none" if k < 0.93 else "all"]


def gen_boundaries(rng):
    out = {"contact": gen_part(rng), "dirichlet": gen_part(rng), "other": []}
    if rng.random() < 0.1:
        out["contact"] = None
    if rng.random() < 0.1:
        out["dirichlet"] = None
    out["condition"] = ([round(float(v), 3) for v in rng.uniform(-1, 1, 4)]
                        if rng.random() < 0.6 else None)
    for k in range(int(rng.choice([0, 0, 1, 2]))):
        out["other"].append([f"part{k}", gen_part(rng),
                             [round(float(v), 3) for v in rng.uniform(-1, 1, 4)]])
    return out


def gen(rng):
    form = str(rng.choice(["shared", "shared", "fresh", "file", "file", "zoo"]))
    sc = {"form": form, "fmt": int(rng.integers(len(FORMATS))), "zoo": None, "mesh": None,
          "position": None, "lists": bool(rng.random() < 0.2)}
    dim = 2
    if form == "zoo":
        sc["zoo"] = [str(rng.choice(["cross", "cross", "cube", "ball"])),
                     float(rng.choice([0.5, 0.3, 0.75])),
                     [float(rng.choice([1.0, 2.0, 0.7])), float(rng.choice([1.0, 0.5]))]]
        dim = 2 if sc["zoo"][0] == "cross" else 3
    else:
        sc["mesh"] = gen_mesh(rng)
        dim = len(sc["mesh"]["points"][0])
    if rng.random() < 0.4:
        sc["position"] = [round(float(v), 3) for v in rng.uniform(-2, 2, dim) * (
            rng.random(dim) < 0.8)] if rng.random() < 0.85 else [0.0] * dim
    sc["ops"] = []
    for _ in range(int(rng.integers(1, 6))):
        op = str(rng.choice(OPS))
        arg = {"b": [gen_boundaries(rng) for _ in range(int(rng.integers(2, 4)) if op == "threads"
                                                        else 1)],
               "u": round(float(rng.random()), 6), "v": round(float(rng.random()), 6)}
        if op == "threads":
            arg["plan"] = sim.draw_plan(rng, len(arg["b"]), int(rng.choice([3, 8, 20, 60])))
            arg["kill"] = bool(rng.random() < 0.3)
        if op == "replace":
            arg["mesh"] = gen_mesh(rng, dim)
            arg["mirror"] = bool(rng.random() < 0.4)  # the mesh before, turned round
            arg["times"] = bool(rng.random() < 0.6)  # a file as old as the one before
            arg["place"] = bool(rng.random() < 0.5)  # in the arrays given before
        sc["ops"].append([op, arg])
    sc["last"] = gen_boundaries(rng)
    return sc


class Shared(md.MeshDescription):
    """A caller's own description which hands out the arrays it keeps."""

    def __init__(self, position, nodes, elements):
        super().__init__(position)
        self.nodes, self.elements = nodes, elements

    def build(self):
        return RawMesh(self.nodes, self.elements)


class Case:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.root = os.path.join(ctx.scratch, "mesh")
        os.makedirs(self.root, exist_ok=True)
        ext, self.fmt = FORMATS[sc["fmt"]]
        self.path = os.path.join(self.root, "body" + ext)
        self.given = None
        if sc["form"] == "zoo":
            kind, per, scale = sc["zoo"]
            self.zoo = {"cross": lambda: md.CrossMeshDescription(self.position(), per, list(scale)),
                        "cube": lambda: md.CubeMeshDescription(self.position()),
                        "ball": lambda: md.BallMeshDescription(self.position())}[kind]
            raw = harness.isolated(lambda: [np.array(a).tolist() for a in (
                self.zoo().build().nodes, self.zoo().build().elements)])
            self.set({"points": raw[0], "cells": raw[1]})
            self.descr = self.zoo()
        else:
            self.set(sc["mesh"])
            if sc["form"] == "file":
                self.write()
                self.descr = md.ImportedMeshDescription(self.position(), self.path)
            elif sc["form"] == "shared":
                self.descr = Shared(self.position(), self.pts.copy(), self.cells.copy())
                self.given = (self.descr.nodes, self.descr.elements)
            else:
                self.descr = M.ArrayMeshDescription(self.position(), self.pts.tolist(),
                                                    self.cells.tolist())

    def position(self):
        p = self.sc["position"]
        return None if p is None else (list(p) if self.sc["lists"] else np.array(p))

    def set(self, m):
        self.pts, self.cells = np.array(m["points"], float), np.array(m["cells"], dtype=np.int64)
        self.dim = self.pts.shape[1]
        at = self.pts
        if self.sc["position"] is not None:
            at = at - at.min(axis=0) + np.array(self.sc["position"])
        self.at = at

    def write(self):
        p = self.pts
        if self.dim == 2:
            p = np.hstack([p, np.zeros((len(p), 1))])
        m = meshio.Mesh(p, [("triangle" if self.dim == 2 else "tetra", self.cells)])
        m.write(self.path, **({"file_format": self.fmt} if self.fmt else {}))

    # -- boundary descriptions -------------------------------------------------
    def predicate(self, part):
        lo, hi = self.at[np.unique(self.cells)].min(axis=0), self.at[np.unique(self.cells)].max(axis=0)
        if part[0] == "side":
            d = part[1] % self.dim
            return (lambda x: bool(x[d] < lo[d] + 1e-6)) if part[2] == 0 else (
                lambda x: bool(x[d] > hi[d] - 1e-6))
        if part[0] == "half":
            n = np.array(part[1][:self.dim]) + 1e-3 * np.sqrt(2) ** np.arange(self.dim)
            c = float(n @ (lo + (hi - lo) * part[2])) + 1e-7 * np.pi
            return lambda x: bool(np.dot(n, x) < c)
        return lambda x: part[0] == "all"

    @staticmethod
    def condition(c):
        return lambda x: c[0] + c[1] * x[:, 0] + c[2] * x[:, 1] + c[3] * x[:, -1] ** 2

    def parts(self, b):
        """Contact and Dirichlet predicates; they share corners at most (a surface has one part)."""
        no = ["none"]
        c, d = b["contact"] or no, b["dirichlet"] or no
        dp, cp = self.predicate(d), self.predicate(c)
        apart = c[0] == d[0] == "side" and (c[1] % self.dim, c[2]) != (d[1] % self.dim, d[2])
        return {"dirichlet": dp, "contact": cp if apart else (lambda x: cp(x) and not dp(x))}

    def boundaries(self, b, gate=None):
        both = self.parts(b)

        def wrap(name, part):
            f = both[name] if name in both else self.predicate(part)

            def go(x):
                if gate is not None:
                    gate(name, x, 0.0)
                return f(x)
            return go

        kw = {}
        if b["contact"] is not None:
            kw["contact"] = wrap("contact", b["contact"])
        if b["dirichlet"] is not None:
            kw["dirichlet"] = wrap("dirichlet", b["dirichlet"])
            if b["condition"] is not None:
                kw["dirichlet"] = (kw["dirichlet"], self.condition(b["condition"]))
        for name, part, cond in b["other"]:
            kw[name] = (wrap(name, part), self.condition(cond))
        return BoundariesDescription(**kw)

    # -- the oracle --------------------------------------------------------------
    def check(self, mesh, b, what):
        ctx = self.ctx
        used = np.unique(self.cells)
        pts = self.at[used]
        new = np.asarray(mesh.nodes)
        if not ctx.check(new.shape == pts.shape, "wrong-nodes",
                         f"{what}: {new.shape} nodes for {pts.shape}"):
            return
        if len(np.unique(np.round(pts, 7), axis=0)) < len(pts):
            return
        dist = np.abs(pts[:, None, :] - new[None, :, :]).max(axis=2)
        to = {int(used[k]): int(np.argmin(dist[k])) for k in range(len(used))}
        if not ctx.check(dist.min(axis=1).max() < 1e-9 and len(set(to.values())) == len(used),
                         "wrong-nodes", f"{what}: nodes are not the described ones"):
            return
        cells = sorted(tuple(sorted(to[int(i)] for i in e)) for e in self.cells)
        got = sorted(tuple(sorted(int(i) for i in e)) for e in np.asarray(mesh.elements))
        if not ctx.check(got == cells, "wrong-elements",
                         f"{what}: elements are not the described ones"):
            return
        edges = sorted({(e[i], e[j]) for e in cells for i in range(len(e))
                        for j in range(i + 1, len(e))})
        ctx.check(sorted(tuple(sorted(map(int, e))) for e in np.asarray(mesh.edges)) == edges,
                  "wrong-edges", f"{what}: edges")
        count = {}
        for e in cells:
            for k in range(len(e)):
                f = e[:k] + e[k + 1:]
                count[f] = count.get(f, 0) + 1
        faces = sorted(f for f, c in count.items() if c == 1)
        border = {i for f in faces for i in f}
        pred = self.parts(b)
        fixed = {i for i in border if pred["dirichlet"](new[i])}
        touch = {i for i in border if pred["contact"](new[i])}
        ctx.probes["corner"] += bool(fixed & touch)
        ctx.probes["no-contact"] += not touch
        ctx.probes["no-dirichlet"] += not fixed
        touch -= fixed
        free = border - fixed - touch
        n = len(new)
        everyone = np.arange(n)
        for name, want in (("contact", touch), ("neumann", free), ("dirichlet", fixed)):
            idx = set(everyone[getattr(mesh, name + "_indices")].tolist())
            ctx.check(idx == want, "wrong-part", f"{what}: {name} nodes {sorted(idx)[:8]}, described "
                      f"{sorted(want)[:8]}")
            ctx.check(getattr(mesh, name + "_nodes_count") == len(want), "wrong-count",
                      f"{what}: {getattr(mesh, name + '_nodes_count')} {name} nodes, described "
                      f"{len(want)}")
        ctx.check(mesh.boundary_nodes_count == len(border) and mesh.inner_nodes_count
                  == n - len(border) and mesh.independent_nodes_count == n - len(fixed),
                  "wrong-count", f"{what}: boundary, inner or independent nodes")
        mid = {f: np.mean(new[list(f)], axis=0) for f in faces}
        sides = {"contact": [f for f in faces if pred["contact"](mid[f])],
                 "dirichlet": [f for f in faces if pred["dirichlet"](mid[f])],
                 "neumann": [f for f in faces if not pred["contact"](mid[f])
                             and not pred["dirichlet"](mid[f])]}
        for name, want in sides.items():
            s = sorted(tuple(sorted(int(i) for i in f)) for f in getattr(mesh, name + "_boundary"))
            ctx.check(s == want, "wrong-surfaces", f"{what}: {name} surfaces {s[:4]}, described "
                      f"{want[:4]}")
        parts = mesh.boundaries.boundaries
        cond = parts["dirichlet"].node_condition
        rows = new[mesh.dirichlet_indices]
        want = (self.condition(b["condition"])(rows) if b["condition"] is not None
                and b["dirichlet"] is not None else np.zeros(len(rows)))
        ctx.check(np.shape(cond) == np.shape(want) and np.allclose(cond, want, atol=1e-12),
                  "wrong-condition", f"{what}: prescribed values {np.asarray(cond)[:4]}, described "
                  f"{want[:4]}")
        ctx.probes["condition"] += b["condition"] is not None and len(rows) > 0
        for name, part, c in b["other"]:
            p = self.predicate(part)
            ids = sorted({i for f in faces if p(mid[f]) for i in f})
            ctx.probes["named" if ids else "named-empty"] += 1
            have = sorted(everyone[parts[name].node_indices].tolist()) if name in parts else []
            ctx.check(have == ids, "wrong-part", f"{what}: {name} nodes {have[:8]}, described "
                      f"{ids[:8]}")
            if ids and have == ids:
                order = everyone[parts[name].node_indices]
                ctx.check(parts[name].node_count == len(ids) and np.allclose(
                    parts[name].node_condition, self.condition(c)(new[order]), atol=1e-12),
                    "wrong-condition", f"{what}: values of {name}")

    def untouched(self, what):
        if self.given is None:
            return
        self.ctx.check(np.array_equal(self.given[0], self.pts)
                       and np.array_equal(self.given[1], self.cells), "caller-arrays-changed",
                       f"{what}: the caller's arrays were changed")

    def sites(self, b):
        def go():
            with sim.LineTracer(record=True) as tr:
                Mesh(self.descr, self.boundaries(b))
            return tr.sites
        return harness.isolated(go)


def warm():
    rng = np.random.default_rng(0)
    for dim in (2, 3):
        m = gen_mesh(rng, dim)
        for t in (np.int64, np.int32):
            Mesh(Shared(None, np.array(m["points"]), np.array(m["cells"], dtype=t)),
                 BoundariesDescription(contact=lambda x: x[0] < 0.5, dirichlet=lambda x: x[0] > 0.5))
    for d in (md.CrossMeshDescription(None, 0.5, [1.0, 1.0]),
              md.BallMeshDescription(None), md.CubeMeshDescription(None)):
        Mesh(d, BoundariesDescription())


def execute(case, arg, record=False, plan=(), interrupts=()):
    sch = sim.Scheduler(plan, record=record, interrupts=interrupts)
    for b in arg["b"]:
        sch.add(lambda b=b: Mesh(case.descr, case.boundaries(b)))
    sch.run()
    return sch


def run(sc, ctx):
    case = Case(sc, ctx)
    ctx.kinds[sc["form"]] += 1
    p = ctx.probes
    p[sc["form"]] += 1
    p["3d"] += case.dim == 3
    p["unconnected"] += len(np.unique(case.cells)) < len(case.pts)
    p["position"] += sc["position"] is not None
    p["int32"] += sc["form"] == "file" and FORMATS[sc["fmt"]][1] == "gmsh22"
    hist, kept, failed = [], [], False
    for op, arg in sc["ops"] + [["build", {"b": [sc["last"]], "u": 0.0, "v": 0.0}]]:
        b, u, v = arg["b"][0], arg["u"], arg["v"]
        what = f"{sc['form']} mesh, {op} after {hist}"
        site = None
        ctx.runs += 1
        if op == "build":
            mesh = Mesh(case.descr, case.boundaries(b))
            case.check(mesh, b, what)
            p["rebuilt"] += bool(hist)
            p["after-failure"] += failed
            kept.append((mesh, b, np.array(mesh.nodes), np.array(mesh.elements)))
        elif op == "kill":
            tr = sim.LineTracer(at=sim.resolve_event(case.sites(b), u, v))
            try:
                with tr:
                    mesh = Mesh(case.descr, case.boundaries(b))
                case.check(mesh, b, what)
            except sim.SimInterrupt:
                failed = True
            site = tr.fired
            ctx.faults["interrupt"] += tr.fired is not None
            p["killed"] += tr.fired is not None
        elif op == "predicate":
            n = [0, int(u * 120), False]

            def gate(name, x, t):
                n[0] += 1
                if n[0] > n[1]:
                    n[2] = True
                    raise sim.injected(v, name)
            try:
                mesh = Mesh(case.descr, case.boundaries(b, gate))
                ctx.check(not n[2], "error-swallowed", f"{what}: a predicate failed")
                case.check(mesh, b, what)
            except BaseException as e:  # noqa
                if not sim.injected_in_chain(e):
                    raise
                failed = True
            ctx.faults["predicate"] += n[2]
            p["predicate"] += n[2]
            site = n[0]
        elif op == "read" and sc["form"] == "file":
            act = [["errno", "EIO"], ["sticky", "EIO"], ["short", 1 + int(u * 300)],
                   ["short", 1 + int(u * 3000)], ["errno", "EINTR"]][int(v * 5)]
            with disk.Disk(case.root) as d:
                d.plan([["read", int(u * 3), *act], ["read", int(u * 3) + 1, *act]])
                try:
                    mesh = Mesh(case.descr, case.boundaries(b))
                    err = None
                except Exception as e:  # noqa
                    err = e
                hit = d.fired()
            for f in hit:
                ctx.faults["read-" + (f[3] if isinstance(f[3], str) else "short")] += 1
            hard = any(f[3] == "EIO" for f in hit)
            p["read-error"] += hard
            p["short-read"] += bool(hit) and not hard
            if err is None:
                case.check(mesh, b, f"{what}, reads hit by {hit}")
            else:
                failed = True
                if not hard:
                    raise err
            site = [str(f) for f in hit]
        elif op == "replace" and sc["form"] in ("file", "shared"):
            new = arg["mesh"]
            if arg["mirror"]:
                pts = case.pts.copy()
                pts[:, 0] = pts[:, 0].min() + pts[:, 0].max() - pts[:, 0]
                new = {"points": pts.tolist(), "cells": case.cells.tolist()}
            case.set(new)
            if sc["form"] == "file":
                old = os.stat(case.path)
                case.write()
                if arg["times"]:
                    os.utime(case.path, ns=(old.st_atime_ns, old.st_mtime_ns))
            else:
                if arg["place"] and case.descr.nodes.shape == case.pts.shape and (
                        case.descr.elements.shape == case.cells.shape):
                    case.descr.nodes[:], case.descr.elements[:] = case.pts, case.cells
                else:
                    case.descr.nodes, case.descr.elements = case.pts.copy(), case.cells.copy()
                case.given = (case.descr.nodes, case.descr.elements)
            p["replaced"] += 1
            mesh = Mesh(case.descr, case.boundaries(b))
            case.check(mesh, b, what)
        elif op == "threads":
            sites = harness.isolated(
                lambda: {k: list(s) for k, s in execute(case, arg, True).sites.items()})
            plan = sim.resolve_plan(arg["plan"], sites)
            inter = []
            if arg["kill"]:
                inter = [(0, sim.resolve_event(sites.get(0, []), u, v), "interrupt")]
            sch = execute(case, arg, False, plan, inter)
            ctx.check(sch.failure is None, "deadlock", f"{what}: {sch.failure}")
            ctx.events += sch.total
            ctx.faults["thread-switch"] += len(sch.trace_log)
            ctx.faults["interrupt"] += len(sch.fired)
            p["threads"] += 1
            p["thread-killed"] += len(sch.fired) > 0
            hit = {t for t, _ in sch.fired}
            for k, bb in enumerate(arg["b"]):
                t = sch.threads[k]
                if t.error is not None and k in hit:
                    failed = True
                    continue
                if t.error is not None:
                    ctx.violation("neighbour-raised", f"{what} #{k}: {t.error!r}")
                    continue
                case.check(t.result, bb, f"{what} #{k}")
            site = sch.trace_log
        elif op == "solver" and case.dim == 2:
            from conmech.simulations.problem_solver import StaticSolver
            spec = {"kind": "static", "method": "direct", "mesh": {"kind": "cross", "per": 1.0,
                    "scale": [1.0, 1.0]}, "dt": 0.1, "n": 1, "th": 4.0, "ze": 4.0, "mu": 4.0,
                    "la": 4.0, "law": "slope", "contact": "none", "dirichlet": "left",
                    "inner": M.gen_force(np.random.default_rng(1)), "dirichlet_value": 0.0,
                    "dirichlet_slope": None, "outer": M.gen_force(np.random.default_rng(2))}
            problem = M.make_problem(spec)
            problem.mesh_descr, problem.boundaries = case.descr, case.boundaries(b)
            solver = StaticSolver(problem, "direct")
            case.check(solver.body.mesh, b, what)
            p["solver"] += 1
        hist.append([op, str(site)] if site is not None else op)
        case.untouched(what)
    for mesh, b, nodes, elements in kept:
        ctx.check(np.array_equal(mesh.nodes, nodes) and np.array_equal(mesh.elements, elements),
                  "earlier-mesh-changed", f"{sc['form']}: a mesh built before changed later")
    ctx.reached(case.cells.tolist(), np.round(case.at, 6).tolist(), hist)
