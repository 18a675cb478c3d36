"""Workload models: problems assembled from a JSON spec through conmech's public API only.

``gen_spec(rng, kinds=...)`` draws a spec; ``build(spec)`` makes the solver; ``run(solver, spec)``
runs it and returns the list of states the caller gets.  Everything random is in the spec.
"""

from dataclasses import dataclass

import numpy as np

from conmech.dynamics.contact.contact_law import PotentialOfContactLaw
from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw
from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl
from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law
from conmech.mesh.boundaries_description import BoundariesDescription
from conmech.mesh.zoo.raw_mesh import RawMesh
from conmech.properties.mesh_description import (
    CrossMeshDescription,
    CubeMeshDescription,
    MeshDescription,
)
from conmech.scenarios import problems as pr
from conmech.simulations import problem_solver as ps
from conmech.state.products.product import Product
from conmech.state.products.penetration import Penetration
from conmech.state.products.verticalintersection import VerticalIntersection
from conmech.state.products.intersection_contact_limit_points import (
    VerticalIntersectionContactLimitPoints,
)

ONE_STEP = ("static", "static3d", "poisson", "poisson3d")
TIME_KINDS = ("wave", "wave_contact", "wave_interior", "quasistatic", "dynamic", "relaxation",
              "temperature", "piezo")
KINDS = ("static", "poisson") + TIME_KINDS
METHODS = {
    "static": ("direct", "schur", "global"),
    "static3d": ("global",),
    "poisson3d": ("direct",),
    "poisson": ("direct",),
    "wave": ("direct",),
    "wave_contact": ("schur", "global"),
    "wave_interior": ("global",),
    "quasistatic": ("schur", "global"),
    "dynamic": ("direct", "schur", "global"),
    "relaxation": ("schur", "global"),
    "temperature": ("schur", "global"),
    "piezo": ("schur", "global"),
}


# ----------------------------------------------------------------------------- mesh
@dataclass
class ArrayMeshDescription(MeshDescription):
    """User defined mesh, the documented way to extend the mesh zoo."""

    points: object
    cells: object

    def build(self):
        return RawMesh(
            nodes=np.array(self.points, dtype=np.float64),
            elements=np.array(self.cells, dtype=np.int64),
        )


def _random_mesh(rng):
    from scipy.spatial import Delaunay

    nx, ny = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    gx, gy = np.meshgrid(np.linspace(0, 1, nx + 1), np.linspace(0, 1, ny + 1))
    pts = np.stack([gx.ravel(), gy.ravel()], axis=1)
    inner = (pts > 0).all(axis=1) & (pts < 1).all(axis=1)
    pts[inner] += rng.uniform(-0.12, 0.12, (int(inner.sum()), 2))
    cells = Delaunay(pts).simplices
    # drop degenerate slivers produced by collinear boundary points
    p = pts[cells]
    area = np.abs(np.linalg.det(p[:, 1:] - p[:, :1])) / 2
    cells = cells[area > 1e-9]
    perm = rng.permutation(len(pts))
    inv = np.argsort(perm)
    pts = pts[perm]
    cells = inv[cells]
    cells = cells[rng.permutation(len(cells))]
    return {"kind": "array", "points": np.round(pts, 6).tolist(), "cells": cells.tolist(),
            "scale": [1.0, 1.0]}


def _box_mesh(rng):
    """A box of cells cut into six tetrahedra each, numbered at random."""
    from itertools import permutations

    count = [[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1]][int(rng.integers(5))]
    scale = [float(v) for v in rng.choice([1.0, 0.8, 1.3], 3)]
    grid = np.stack(np.meshgrid(*[np.arange(c + 1) for c in count], indexing="ij"), -1)
    pts = grid.reshape(-1, 3)
    number = {tuple(p): i for i, p in enumerate(pts)}
    cells = []
    for low in np.ndindex(*count):
        for order in permutations(range(3)):
            p, cell = list(low), [number[low]]
            for a in order:
                p[a] += 1
                cell.append(number[tuple(p)])
            cells.append(cell)
    pts = pts / np.array(count) * scale
    perm = rng.permutation(len(pts))
    cells = np.argsort(perm)[np.array(cells)]
    return {"kind": "array", "points": np.round(pts[perm], 6).tolist(),
            "cells": cells[rng.permutation(len(cells))].tolist(), "scale": scale}


def flipped(m, rng):
    """The same nodes triangulated in another way: one inner edge becomes the other diagonal."""
    raw = mesh_description(m).build()
    pts, cells = np.array(raw.nodes), [[int(i) for i in c] for c in raw.elements]
    edges = {}
    for k, c in enumerate(cells):
        for a, b, o in ((c[0], c[1], c[2]), (c[1], c[2], c[0]), (c[2], c[0], c[1])):
            edges.setdefault((min(a, b), max(a, b)), []).append((k, o))

    def area(a, b, c):
        (x, y), (z, w) = pts[b] - pts[a], pts[c] - pts[a]
        return x * w - y * z

    inner = [(e, v) for e, v in sorted(edges.items()) if len(v) == 2]
    for i in rng.permutation(len(inner)):
        (a, b), ((k, p), (l, q)) = inner[i]
        if area(p, q, a) * area(p, q, b) < -1e-9 and abs(area(p, q, a)) > 1e-6:
            cells[k], cells[l] = [p, q, a], [p, q, b]
            break
    return {"kind": "array", "points": pts.tolist(), "cells": cells,
            "scale": list(m.get("scale", [1.0, 1.0]))}


def gen_mesh(rng, small=True):
    if rng.random() < 0.35:
        return _random_mesh(rng)
    sx = float(rng.choice([1.0, 1.0, 2.0, 0.75]))
    sy = float(rng.choice([1.0, 1.0, 0.5]))
    per = float(rng.choice([0.5, 0.5, 0.6, 1.0] if small else [0.5, 0.34, 0.25]))
    return {"kind": "cross", "scale": [sx, sy], "per": per}


def mesh_description(m):
    if m["kind"] == "cross":
        return CrossMeshDescription(
            initial_position=None, max_element_perimeter=m["per"], scale=list(m["scale"])
        )
    if m["kind"] == "array":
        pts = m["points"] if not m.get("warp") else warp(m, np.array(m["points"])).tolist()
        return ArrayMeshDescription(None, pts, m["cells"])
    if m["kind"] == "cube":
        return CubeMeshDescription(None)
    raise ValueError(m)


# ----------------------------------------------------------------------------- user callbacks
class UserCallbackError(RuntimeError):
    """What a user's own force function may raise."""


class Force:
    """Time and space dependent user force; a seam for callback faults."""

    def __init__(self, par, dim, gate=None):
        self.par = par
        self.dim = dim
        self.gate = gate

    def __call__(self, x, t=0.0):
        if self.gate is not None:
            self.gate(x, t)
        return force_value(self.par, self.dim, x, t)


def force_value(par, dim, x, t):
    t = 0.0 if t is None else t
    s = par["a"] + par["b"] * np.sin(par["w"] * t + par["p"]) + par["r"] * t
    s = s * (1.0 + par["gx"] * x[0] + par["gy"] * x[1])
    if dim == 1:
        return np.array([s])
    out = np.zeros(dim)
    out[0] = s * par["dx"]
    out[1] = s * par["dy"]
    if dim == 3:
        out[2] = s * (par["dx"] - par["dy"] + x[2])
    return out


def gen_force(rng, scale=1.0):
    u = lambda lo, hi: float(np.round(rng.uniform(lo, hi), 4))
    return {"a": u(-1, 1) * scale, "b": u(-2, 2) * scale, "w": u(0.5, 9), "p": u(0, 6),
            "r": u(-1, 1) * scale, "gx": u(-1, 1), "gy": u(-1, 1), "dx": u(-1, 1), "dy": u(-1, 1)}


class Relaxation:
    """Module level and picklable, as users must make it (body properties are saved)."""

    def __init__(self, c, reuse=False):
        self.c = c
        self.buffer = np.zeros((2, 2, 2)) if reuse else None

    def __call__(self, t=0.0):
        v = relaxation_value(self.c, t)
        if self.buffer is not None:
            self.buffer[:] = v
            return self.buffer
        return v


def relaxation_value(c, t):
    return np.asarray(c["m"]) * (c["k"] * np.exp(-c["e"] * t) + c["o"])


class InitField:
    def __init__(self, par, kind, dirichlet=None, dval=0.0):
        self.par, self.kind, self.dirichlet, self.dval = par, kind, dirichlet, dval

    def __call__(self, nodes):
        return init_value(self.par, self.kind, nodes, self.dirichlet, self.dval)


def init_value(par, kind, nodes, dirichlet=None, dval=None):
    n = len(nodes)
    x, y = nodes[:, 0], nodes[:, 1]
    base = par[0] * np.sin(2 * x + par[2]) + par[1] * np.cos(3 * y + par[3])
    if kind == "scalar":
        return base
    if kind == "wave":
        return np.stack([base, np.zeros(n)], axis=1)
    other = par[1] * x * y - par[0] * (y + 0.3)
    cols = [base, other] + ([base * nodes[:, 2]] if nodes.shape[1] == 3 else [])
    return np.stack(cols, axis=1)


# ----------------------------------------------------------------------------- boundaries
def warp(m, pts):
    """A sheared and bent body: adjacent contact surfaces have normals of their own."""
    a, b, c = m["warp"]
    x = pts[:, 0] + a * pts[:, 1]
    return np.stack([x, pts[:, 1] + b * x + c * x * (1 - x)], axis=1)


def side(name, mesh):
    """Predicate of a side of the body, of its nodes and of the middles of its surfaces."""
    sx, sy = mesh.get("scale", [1.0, 1.0])[:2]
    if mesh.get("warp"):
        a, b, c = mesh["warp"]

        def straight(x):
            y = x[1] - b * x[0] - c * x[0] * (1 - x[0])
            return x[0] - a * y, y

        flat = side(name, {"scale": [sx, sy], "eps": 0.06})
        return lambda x: flat(straight(x))
    eps = mesh.get("eps", 1e-9)
    return {
        "left": lambda x: bool(abs(x[0]) < eps),
        "right": lambda x: bool(abs(x[0] - sx) < eps),
        "bottom": lambda x: bool(abs(x[1]) < eps),
        "top": lambda x: bool(abs(x[1] - sy) < eps),
        "corner": lambda x: bool(abs(x[1]) < eps or abs(x[0] - sx) < eps),
        "none": lambda x: False,
        "all": lambda x: bool(
            abs(x[0]) < eps or abs(x[0] - sx) < eps or abs(x[1]) < eps or abs(x[1] - sy) < eps
        ),
    }[name]


def prescribed(spec, nodes):
    """Prescribed value of the primary unknown at the given (Dirichlet) nodes."""
    g = spec.get("dirichlet_slope") or [0.0, 0.0]
    return spec["dirichlet_value"] * (1.0 + nodes[:, 0] * g[0] + nodes[:, 1] * g[1])


def piezo_value(part, nodes):
    return part[1] + part[2] * (nodes[:, 0] - nodes[:, 1])


def boundaries(spec):
    kw = {
        "contact": side(spec["contact"], spec["mesh"]),
        "dirichlet": (
            side(spec["dirichlet"], spec["mesh"]),
            lambda x: prescribed(spec, x),
        ),
    }
    if spec["kind"] == "piezo":
        parts = spec["piezo_parts"]
        for k, part in enumerate(parts):
            name = "piezo_dirichlet" if len(parts) == 1 else f"piezo_dirichlet_{k}"
            kw[name] = (side(part[0], spec["mesh"]), lambda x, part=part: piezo_value(part, x))
    return BoundariesDescription(**kw)


# ----------------------------------------------------------------------------- contact laws
LAWS = {
    "slope": lambda: make_slope_contact_law(slope=10.0),
    "slope2": lambda: make_slope_contact_law(slope=25.0),
    "damped": lambda: make_damped_norm_compl(obstacle_level=0.05, kappa=5.0, beta=0.5),
    "damped_i": lambda: make_damped_norm_compl(obstacle_level=0.05, kappa=5.0, beta=0.5,
                                               interior=True),
    "rich": lambda: RichContact,
    "slope_i": lambda: InteriorSlope(),
}


class RichContact(PotentialOfContactLaw):
    """Normal compliance with memory, bounds and a (regularised) friction."""

    @staticmethod
    def normal_bound(var_nu, static_displacement_nu, dt):
        return 1.5

    @staticmethod
    def tangential_bound(var_nu, static_displacement_nu, dt):
        return 1.0 + 400.0 * static_displacement_nu * static_displacement_nu

    @staticmethod
    def potential_normal_direction(var_nu, static_displacement_nu, dt):
        g = var_nu + 2.0 * static_displacement_nu + 0.05 * dt
        if g <= 0:
            return 0.0
        return 0.5 * 10.0 * g * g

    @staticmethod
    def potential_tangential_direction(var_tau, static_displacement_tau, dt):
        g = var_tau + static_displacement_tau
        return 0.5 * 3.0 * (g * g).sum()


class InteriorSlope(InteriorContactLaw):
    @staticmethod
    def potential_normal_direction(var_nu, static_displacement_nu, dt):
        g = var_nu + 0.5 * static_displacement_nu + 0.1 * dt
        if g <= 0:
            return 0.0
        return 0.5 * 8.0 * g * g


class TempContact:
    """Heat exchange law (potential form) for temperature and electric problems."""

    @staticmethod
    def normal_bound(var_nu, static_displacement_nu, dt):
        return 1.0

    @staticmethod
    def tangential_bound(var_nu, static_displacement_nu, dt):
        return 1.0

    @staticmethod
    def potential_normal_direction(var_nu, static_displacement_nu, dt):
        return 0.1 * 0.5 * var_nu**2

    @staticmethod
    def potential_tangential_direction(var_tau, static_displacement_tau, dt):
        return 0.0


# ----------------------------------------------------------------------------- spec
def gen_spec(rng, kinds=TIME_KINDS, *, methods=None, max_steps=6, min_steps=1, products=False,
             mesh=None, no_contact=False, disjoint=False, ref=False):
    kind = str(rng.choice(list(kinds)))
    meths = METHODS[kind]
    if methods:
        meths = [m for m in meths if m in methods] or METHODS[kind]
    spec = {
        "kind": kind,
        "method": str(rng.choice(list(meths))),
        "mesh": mesh or gen_mesh(rng),
        "dt": float(rng.choice([0.1, 0.05, 0.03125, 0.01, 0.2, 0.1 / 7, 1 / 30])),
        "n": int(rng.integers(min_steps, max_steps + 1)),
        "inner": gen_force(rng),
        "outer": gen_force(rng, 0.5),
        "u0": [float(v) for v in np.round(rng.uniform(-0.02, 0.02, 4), 4)],
        "v0": [float(v) for v in np.round(rng.uniform(-0.05, 0.05, 4), 4)],
        "b0": [float(v) for v in np.round(rng.uniform(-0.01, 0.01, 4), 4)],
        "s0": [float(v) for v in np.round(rng.uniform(-0.3, 0.3, 4), 4)],
        "mu": float(rng.choice([4.0, 2.5])), "la": float(rng.choice([4.0, 10.0])),
        "th": float(rng.choice([4.0, 1.0])), "ze": float(rng.choice([4.0, 2.0])),
        "contact": str(rng.choice(["bottom", "bottom", "right", "none"])),
        "dirichlet": str(rng.choice(["left", "top"])),
        "dirichlet_value": float(rng.choice([0.0, 0.0, 0.01, -0.02])),
        "dirichlet_slope": [float(v) for v in np.round(rng.uniform(-0.6, 0.9, 2), 2)]
        if rng.random() < 0.5 else None,
        "law": str(rng.choice(["slope", "slope", "slope2"])),
        "products": [],
    }
    for f in ("u0", "v0", "b0", "s0"):  # rest is a state users start from as well
        if rng.random() < 0.2:
            spec[f] = [0.0] * 4
    for f in ("inner", "outer"):
        if rng.random() < 0.1:
            spec[f] = dict(spec[f], a=0.0, b=0.0, r=0.0)
    if kind in ("static3d", "poisson3d"):
        spec["mesh"] = _box_mesh(rng)
    if disjoint:
        spec["contact"], spec["dirichlet"] = [
            ("bottom", "top"), ("right", "left"), ("none", "left"), ("none", "top")
        ][int(rng.integers(4))]
    if no_contact:
        spec["contact"] = "none"
    if kind.startswith("wave"):
        spec["propagation"] = float(rng.choice([1.0, 0.5, 2.0]))
        spec["dirichlet"] = str(rng.choice(["all", "left"])) if kind != "wave_contact" else "left"
        spec["contact"] = "right" if kind == "wave_contact" else "none"
        spec["dirichlet_value"] = 0.0 if rng.random() < 0.7 else 0.01
        spec["law"] = {"wave": None, "wave_contact": "damped", "wave_interior": "damped_i"}[kind]
    if kind in ("poisson", "poisson3d"):
        spec["law"] = None
        spec["contact"] = "none"
    if spec["method"] == "schur" and spec["contact"] == "none":
        # the Schur complement is taken on contact nodes: there must be some
        if no_contact and "global" in METHODS[kind]:
            spec["method"] = "direct" if "direct" in meths else "global"
        else:
            spec["contact"] = "bottom" if spec["dirichlet"] == "top" else "right"
    if ref and spec["mesh"]["kind"] == "array" and not kind.endswith("3d") and rng.random() < 0.6:
        a, b, c = np.round(rng.uniform(0.05, 0.4, 3) * rng.choice([-1, 1], 3), 2)
        spec["mesh"]["warp"] = [float(a) if rng.random() < 0.7 else 0.0, float(b), float(c)]
    if ref and spec["contact"] != "none" and not kind.endswith("3d") and rng.random() < 0.15 and (
            not disjoint):
        spec["contact"] = "corner"
    if ref:  # only what the reference model covers
        if kind.startswith("wave"):
            spec["law"] = {"wave": None, "wave_contact": "slope", "wave_interior": "slope_i"}[kind]
            if kind == "wave_contact" and spec["dirichlet"] == "all":
                spec["dirichlet"] = "left"
        elif kind not in ("poisson", "poisson3d") and spec["method"] != "direct" and (
                rng.random() < 0.4):
            spec["law"] = "rich"
    if kind == "relaxation":
        spec["dirichlet_value"] = 0.0
        m = np.round(rng.uniform(0.2, 1.5, (2, 2, 2)), 3)
        m[1, 1, 0], m[1, 0, 1] = m[0, 0, 1], m[0, 1, 0]  # symmetric operator
        spec["relaxation"] = {"m": m.tolist(), "k": float(np.round(rng.uniform(0.3, 2), 3)),
                              "e": float(np.round(rng.uniform(0.2, 8), 3)),
                              "o": float(np.round(rng.uniform(0, 0.5), 3)),
                              "reuse": bool(rng.random() < 0.3)}
    if kind == "temperature":
        spec["expansion"] = np.round(rng.uniform(-0.5, 0.5, (2, 2)), 3).tolist()
        c = np.round(rng.uniform(0.1, 0.5, (2,)), 3)
        spec["conductivity"] = [[float(c[0]), 0.02], [0.02, float(c[1])]]
    if kind == "piezo":
        spec["piezo_t"] = np.round(rng.uniform(-0.5, 0.5, (2, 2, 2)), 3).tolist()
        c = np.round(rng.uniform(0.5, 1.5, (2,)), 3)
        spec["permittivity"] = [[float(c[0]), 0.1], [0.1, float(c[1])]]
        ends = [str(v) for v in rng.permutation(["left", "right"])][:int(rng.integers(1, 3))]
        spec["piezo_parts"] = [[e, float(rng.choice([0.0, 0.1, -0.05])),
                                float(rng.choice([0.0, 0.04]))] for e in ends]
        spec["dirichlet_value"] = 0.0
    if products and kind in ("wave", "wave_contact", "wave_interior", "quasistatic", "dynamic",
                             "relaxation"):
        sc = spec["mesh"]["scale"]
        names = []
        if rng.random() < 0.7:
            names.append(["penetration"])
        if rng.random() < 0.5:
            names.append(["intersection", float(np.round(sc[0] * rng.uniform(0.2, 0.8), 3))])
        if rng.random() < 0.4:
            names.append(["limits", float(np.round(sc[0] * rng.uniform(0.2, 0.8), 3)), 0.003])
        spec["products"] = names
    return spec


def gen_output_steps(rng, n):
    """Cumulative, non-decreasing step indices."""
    if rng.random() < 0.35:
        return list(range(1, n + 1))
    k = int(rng.integers(1, n + 2))
    steps = sorted(int(v) for v in rng.integers(0, n + 1, k))
    if steps[-1] == 0:
        steps[-1] = n
    return steps


def make_products(spec, names=None):
    out = []
    for p in spec["products"] if names is None else names:
        if p[0] == "penetration":
            out.append(Penetration())
        elif p[0] == "intersection":
            out.append(VerticalIntersection(p[1]))
        else:
            out.append(VerticalIntersectionContactLimitPoints(p[1], p[2]))
    return out


def make_problem(spec, gate=None, law=None):
    """``gate(name, x, t)`` is called first in each user callback (fault/observer seam)."""
    kind = spec["kind"]
    dim = 1 if kind.startswith("wave") else (3 if kind.endswith("3d") else 2)
    g = (lambda name: (lambda x, t: gate(name, x, t))) if gate else (lambda name: None)
    inner = Force(spec["inner"], dim, g("inner"))
    outer = Force(spec["outer"], dim, g("outer"))
    if law is None:
        law = LAWS[spec["law"]]() if spec["law"] else None
        if spec["law"] in ("damped", "damped_i"):
            law = law()
    base = {
        "static": pr.StaticDisplacementProblem,
        "static3d": pr.StaticDisplacementProblem,
        "poisson": pr.PoissonProblem,
        "poisson3d": pr.PoissonProblem,
        "wave": pr.WaveProblem,
        "wave_contact": pr.ContactWaveProblem,
        "wave_interior": pr.InteriorContactWaveProblem,
        "quasistatic": pr.QuasistaticDisplacementProblem,
        "dynamic": pr.DynamicDisplacementProblem,
        "relaxation": pr.RelaxationQuasistaticProblem,
        "temperature": pr.TemperatureDynamicProblem,
        "piezo": pr.PiezoelectricQuasistaticProblem,
    }[kind]
    ns = {
        "inner_forces": staticmethod(inner),
        "outer_forces": staticmethod(outer),
        "time_step": spec["dt"],
        "th_coef": spec["th"],
        "ze_coef": spec["ze"],
    }
    if kind in ("poisson", "poisson3d"):
        i1, o1 = Force(spec["inner"], 1, g("inner")), Force(spec["outer"], 1, g("outer"))
        ns["internal_temperature"] = staticmethod(i1)
        ns["outer_temperature"] = staticmethod(o1)
    if kind == "relaxation":
        ns["relaxation"] = Relaxation(spec["relaxation"], spec["relaxation"]["reuse"])
    if kind == "temperature":
        ns["thermal_expansion"] = np.array(spec["expansion"])
        ns["thermal_conductivity"] = np.array(spec["conductivity"])
        ns["contact_law_2"] = TempContact
    if kind == "piezo":
        ns["piezoelectricity"] = np.array(spec["piezo_t"])
        ns["permittivity"] = np.array(spec["permittivity"])
        ns["contact_law_2"] = TempContact
    cls = type("Setup", (base,), ns)
    args = [mesh_description(spec["mesh"]), boundaries(spec)]
    if kind in ("poisson", "poisson3d"):
        return cls(*args)
    if kind.startswith("wave"):
        args.append(spec["propagation"])
        if law is not None:
            args.append(law)
        return cls(*args)
    return cls(*args, spec["mu"], spec["la"], law)


SOLVERS = {
    "static": "StaticSolver", "static3d": "StaticSolver", "poisson": "PoissonSolver",
    "poisson3d": "PoissonSolver",
    "wave": "WaveSolver", "wave_contact": "WaveSolver", "wave_interior": "WaveSolver",
    "quasistatic": "TimeDependentSolver", "dynamic": "TimeDependentSolver",
    "relaxation": "QuasistaticRelaxation", "temperature": "TemperatureTimeDependentSolver",
    "piezo": "PiezoelectricTimeDependentSolver", "nonhomogenous": "NonHomogenousSolver",
}


def build(spec, gate=None, problem=None, solver_cls=None):
    problem = problem or make_problem(spec, gate)
    cls = getattr(ps, solver_cls or SOLVERS[spec["kind"]])
    return cls(problem, spec["method"])


def solve_kwargs(spec):
    kind = spec["kind"]
    if kind in ("poisson", "poisson3d"):
        return {}
    vec = "wave" if kind.startswith("wave") else "vec"
    kw = {"initial_displacement": InitField(spec["u0"], vec)}
    if kind in ("static", "static3d"):
        return kw
    if kind == "relaxation":
        kw["initial_absement"] = InitField(spec["b0"], vec)
    else:
        kw["initial_velocity"] = InitField(spec["v0"], vec)
    if kind == "temperature":
        kw["initial_temperature"] = InitField(spec["s0"], "scalar")
    if kind == "piezo":
        kw["initial_electric_potential"] = InitField(spec["s0"], "scalar")
    return kw


def supports_products(kind):
    return kind not in ("temperature", "piezo", "poisson", "poisson3d")


def start(solver, spec, output_step=None, n=None, products=None, **extra):
    """Calls solve(); returns whatever it returns (a generator for temperature problems)."""
    kw = solve_kwargs(spec)
    if spec["kind"] not in ONE_STEP:
        kw["n_steps"] = spec["n"] if n is None else n
        if output_step is not None:
            kw["output_step"] = output_step
    if supports_products(spec["kind"]):
        prods = list(products) if products is not None else make_products(spec)
        if prods:
            kw["products"] = prods
    kw.update(extra)
    return solver.solve(**kw)


def run(solver, spec, **kw):
    out = start(solver, spec, **kw)
    if hasattr(out, "displacement"):
        return [out]
    return list(out)


def simulated_time(spec, n=None):
    return 0.0 if spec["kind"] in ONE_STEP else spec["dt"] * (
        spec["n"] if n is None else n)


class Hook(Product):
    """Product used as an observer of the live state after each step (public seam)."""

    def __init__(self, fn, name="~hook"):
        super().__init__(name)
        self.fn = fn

    def update(self, state):
        self.data[state.time] = self.fn(state)


# ----------------------------------------------------------------------------- snapshots
FIELDS = ("displacement", "velocity", "absement", "displaced_nodes", "temperature",
          "electric_potential")


def snap(state):
    out = {"time": float(state.time)}
    for f in FIELDS:
        v = getattr(state, f, None)
        if v is not None:
            out[f] = np.array(v, dtype=float, copy=True)
    out["products"] = {
        name: [(float(t), plain(d)) for t, d in p.data.items()]
        for name, p in state.products.items() if not name.startswith("~")
    }
    return out


def plain(d):
    if isinstance(d, tuple) or isinstance(d, list):
        return [plain(v) for v in d]
    if isinstance(d, np.ma.MaskedArray):
        return np.asarray(d.filled(np.nan), dtype=float).tolist()
    if isinstance(d, np.ndarray):
        return d.astype(float).tolist()
    if d is None or isinstance(d, (str, bool)):
        return d
    return float(d)


def close(a, b, rtol=1e-7, atol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def plain_close(a, b, rtol=1e-7, atol=1e-10):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(plain_close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b, rtol, atol)
    return a == b


def diff(a, b, rtol=1e-7, atol=1e-10, products=True, scale=True):
    """First difference between two snaps or None."""
    if abs(a["time"] - b["time"]) > 1e-9 * max(1.0, abs(a["time"])) * bool(rtol or atol):
        return f"time {a['time']!r} != {b['time']!r}"
    for f in FIELDS:
        if (f in a) != (f in b):
            return f"{f} present in only one"
        if f in a:
            x, y = a[f], b[f]
            if x.shape != y.shape:
                return f"{f} shape {x.shape} != {y.shape}"
            sc = float(np.max(np.abs(x))) if scale and x.size else 1.0
            if not np.all(np.isfinite(x) == np.isfinite(y)) or not np.allclose(
                x, y, rtol=rtol, atol=atol + rtol * sc, equal_nan=True
            ):
                return f"{f} differs by {float(np.nanmax(np.abs(x - y))):.3e}"
    if products:
        if sorted(a["products"]) != sorted(b["products"]):
            return f"products {sorted(a['products'])} != {sorted(b['products'])}"
        for name, da in a["products"].items():
            db = b["products"][name]
            if len(da) != len(db):
                return f"product '{name}' has {len(da)} != {len(db)} entries"
            tol = (max(rtol, 1e-6), 1e-8, 1e-9) if rtol or atol else (0, 0, 0)
            for (ta, va), (tb, vb) in zip(sorted(da, key=lambda e: e[0]),
                                          sorted(db, key=lambda e: e[0])):
                if abs(ta - tb) > tol[2] or not plain_close(va, vb, *tol[:2]):
                    return f"product '{name}' entry at {ta!r} differs"
    return None


def diff_lists(xs, ys, **kw):
    if len(xs) != len(ys):
        return f"{len(xs)} != {len(ys)} states"
    for i, (x, y) in enumerate(zip(xs, ys)):
        d = diff(x, y, **kw)
        if d:
            return f"state #{i}: {d}"
    return None


TOL = {"rtol": 1e-7, "atol": 1e-10}
