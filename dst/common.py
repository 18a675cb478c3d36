"""Helpers shared by the property modules."""

import hashlib

import numpy as np

import harness
import models as M
import sim

REAL = ["conmech (meshes, boundaries, operators, statements, solvers, states, products) run from "
        "/repo's working tree", "numba-compiled kernels (shared between identical closures)",
        "scipy.optimize", "numpy", "pickle and CPython file I/O"]
STUB_BASE = ["caller's force callbacks and boundary descriptions (generated)"]

LIGHT = (("dynamic", "direct"), ("dynamic", "schur"), ("quasistatic", "schur"))
ALL_KITS = (("static", "direct"), ("static", "schur"), ("dynamic", "schur"), ("dynamic", "schur",
            "slope2"), ("dynamic", "global"), ("dynamic", "direct"), ("dynamic", "direct", "slope2"),
            ("quasistatic", "schur"), ("relaxation", "schur"), ("relaxation", "global"),
            ("wave", "direct"), ("wave_contact", "schur"), ("wave_contact", "global"),
            ("wave_interior", "global"), ("temperature", "schur"), ("temperature", "global"),
            ("piezo", "schur"), ("piezo", "global"), ("poisson", "direct"))
KITS_3D = (("static3d", "global", "slope"), ("poisson3d", "direct"))


def fresh_run(spec, output_step=None, n=None, names=None):
    """Fault-free serial run on a fresh solver; list of snaps."""
    solver = M.build(spec)
    prods = M.make_products(spec, names) if names is not None else None
    states = M.run(solver, spec, output_step=output_step, n=n, products=prods)
    return [M.snap(s) for s in states]


def reference(spec, output_step=None, n=None, names=None):
    """``fresh_run`` in a process of its own: shares no object with the simulated run."""
    return harness.isolated(fresh_run, spec, output_step, n, names)


def spec_digest(snaps):
    h = hashlib.blake2b(digest_size=8)
    for s in snaps:
        h.update(repr(round(s["time"], 9)).encode())
        for f in M.FIELDS:
            if f in s:
                h.update(np.round(s[f], 6).tobytes())
    return h.hexdigest()


def trace_sites(spec, **kw):
    """Line events of one fault-free run (isolated)."""

    def go():
        with sim.LineTracer(record=True) as tr:
            solver = M.build(spec)
            base = tr.count
            M.run(solver, spec, **kw)
        return base, tr.sites

    return harness.isolated(go)


def seeded(sc, salt=""):
    h = hashlib.sha256((repr(sc["_seed"]) + salt).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))
