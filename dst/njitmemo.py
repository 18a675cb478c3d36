"""Seam over ``numba.njit``: share one compiled dispatcher between textually identical closures.

conmech builds a fresh closure (and therefore triggers a fresh JIT compilation, 3-8 s) for every
solver object.  The real compiled code is kept - nothing is stubbed - but two ``numba.njit``
requests for the same code object with the same (immutable or themselves memoised) captured values
return the same dispatcher.  numba freezes captured values at compile time, so sharing is
unobservable; anything that cannot be proven identical is simply not shared.
"""

import types

_table = {}
_disp_keys = {}
STATS = {"requests": 0, "shared": 0}


def _value_key(value, depth=0):
    if depth > 6:
        raise TypeError
    if value is None or isinstance(value, (bool, int, float, complex, str, bytes)):
        return (type(value).__name__, repr(value))
    if isinstance(value, tuple):
        return ("tuple",) + tuple(_value_key(v, depth + 1) for v in value)
    if id(value) in _disp_keys and _disp_keys[id(value)][0] is value:
        return ("disp", _disp_keys[id(value)][1])
    if isinstance(value, types.FunctionType):
        return _func_key(value, depth + 1)
    if isinstance(value, (types.BuiltinFunctionType, types.ModuleType, type)):
        return ("obj", id(value))
    if type(value).__module__.split(".")[0] == "numba":
        return ("numba", type(value).__name__, id(value), str(value))
    raise TypeError(f"not memoisable: {type(value)}")


def _func_key(func, depth=0):
    closure = tuple(_value_key(c.cell_contents, depth) for c in (func.__closure__ or ()))
    defaults = tuple(_value_key(v, depth) for v in (func.__defaults__ or ()))
    # globals that are plain functions/dispatchers may be monkeypatched between requests
    gvals = []
    for name in func.__code__.co_names:
        if name in func.__globals__:
            gvals.append((name, id(func.__globals__[name])))
    return ("fn", func.__code__, func.__module__, id(func.__globals__), closure, defaults,
            tuple(gvals))


def install():
    import numba

    if getattr(numba.njit, "_dst_memo", False):
        return
    real = numba.njit

    def make(func, args, kwargs):
        STATS["requests"] += 1
        try:
            if not isinstance(func, types.FunctionType):
                raise TypeError
            key = (_func_key(func), tuple(str(a) for a in args), repr(sorted(kwargs.items())))
            hash(key)
        except (TypeError, ValueError):
            return real(*args, **kwargs)(func) if (args or kwargs) else real(func)
        hit = _table.get(key)
        if hit is not None:
            STATS["shared"] += 1
            return hit[0]
        disp = real(*args, **kwargs)(func) if (args or kwargs) else real(func)
        _table[key] = (disp, func)  # keep func alive so ids stay valid
        _disp_keys[id(disp)] = (disp, len(_disp_keys))
        return disp

    def njit(*args, **kwargs):
        if len(args) == 1 and not kwargs and isinstance(args[0], types.FunctionType):
            return make(args[0], (), {})
        if args and isinstance(args[0], types.FunctionType):
            return real(*args, **kwargs)
        return lambda func: make(func, args, kwargs)

    njit._dst_memo = True
    numba.njit = njit
