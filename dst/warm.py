"""Compile (numba) once in the parent, so forked runs start with warm, real JIT code."""

import contextlib
import io
import warnings

import numpy as np

import models as M

WARM_MESH = {"kind": "cross", "scale": [3.3, 2.2], "per": 1.2}


def warm_spec(kind, method, law=None):
    rng = np.random.default_rng(12345)
    spec = M.gen_spec(rng, [kind], methods=[method], max_steps=1,
                      mesh=dict(WARM_MESH))
    spec["method"] = method
    if law:
        spec["law"] = law
        if not kind.startswith("wave"):
            spec["contact"] = "bottom"
    return spec


def warm(mod):
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        for kit in mod.KITS:
            kind, method, *law = kit
            spec = warm_spec(kind, method, *law)
            M.run(M.build(spec), spec)
            if method == "global" and kind in ("static", "quasistatic", "dynamic"):
                spec = dict(spec, contact="none")
                M.run(M.build(spec), spec)
        if hasattr(mod, "warm"):
            mod.warm()
