"""Seam over memory: uninitialised and freed numpy buffers hold what the scenario says.

numpy's own allocation handler interface (NEP 49) is pointed at the shim's allocator, so every fresh
array of every dependency is filled with the chosen byte before use and after release; code which
writes before it reads cannot notice.  ``mallopt(M_PERTURB)`` does the same for numba's buffers.
"""

import ctypes
import os
import sys
import weakref

M_PERTURB = -6
_capsule = None


class Poison:
    def __init__(self, byte):
        self.byte = byte
        self.hits = 0

    def __enter__(self):
        global _capsule
        import numpy._core._multiarray_umath as mu

        self.lib = ctypes.CDLL(os.environ["DST_SHIM"])
        self.lib.dst_mem_handler.restype = ctypes.c_void_p
        self.lib.dst_poisoned.restype = ctypes.c_ulong
        api = ctypes.pythonapi
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        table = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None),
                            ctypes.POINTER(ctypes.c_void_p))
        self.set = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
        if _capsule is None:
            _capsule = api.PyCapsule_New(self.lib.dst_mem_handler(), b"mem_handler", None)
        self.start = self.lib.dst_poisoned()
        self.lib.dst_poison(self.byte)
        ctypes.CDLL(None).mallopt(M_PERTURB, self.byte)
        self.old = self.set(_capsule)
        return self

    def __exit__(self, *_):
        self.set(self.old)
        ctypes.CDLL(None).mallopt(M_PERTURB, 0)
        self.hits = self.lib.dst_poisoned() - self.start
        self.lib.dst_poison(-1)
        return False


class Ids:
    """Seam over ``id``: an object gets the identity of one that died, whenever there is one.

    CPython promises unique identities to objects alive at the same time only; which of them are
    recycled depends on the allocator.  Only conmech's own modules see the simulated function.
    """

    def __init__(self):
        self.live, self.free, self.next, self.reused = {}, {}, 1 << 50, 0

    def __call__(self, obj):
        entry = self.live.get(id(obj))
        if entry is not None and entry[0]() is obj:
            return entry[1]
        key, pool = id(obj), self.free.setdefault(type(obj), [])

        def died(_, key=key, pool=pool):
            pool.append(self.live.pop(key)[1])

        try:
            ref = weakref.ref(obj, died)
        except TypeError:
            return id(obj)
        if pool:
            number = pool.pop()
            self.reused += 1
        else:
            self.next += 16
            number = self.next
        self.live[key] = (ref, number)
        return number

    def __enter__(self):
        self.modules = [m for name, m in list(sys.modules.items())
                        if name.split(".")[0] == "conmech" and m and "id" not in vars(m)]
        for m in self.modules:
            m.id = self
        return self

    def __exit__(self, *_):
        for m in self.modules:
            del m.id
        return False
