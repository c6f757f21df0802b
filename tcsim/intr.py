"""Interrupts and failing allocations inside the Python process (native/simpy.c).

'int': KeyboardInterrupt at the n-th point at which the interpreter looks for signals;
'mem': the n-th allocation of an array fails; 'alloc': the n-th allocation in the extension fails."""
import ctypes
import os

from . import build

_lib = None
EACH = 32       # pending calls run this many times at each point


def lib():
    global _lib
    if _lib is None:
        import numpy as np
        if np.__version__.split('.')[0] == '1':
            from numpy.core import _multiarray_umath as m
        else:
            from numpy._core import _multiarray_umath as m
        L = ctypes.PyDLL(build.build_simpy())
        for n in ('int', 'mem'):
            getattr(L, 'simpy_%s_arm' % n).argtypes = [ctypes.c_uint64]
            getattr(L, 'simpy_%s_arm' % n).restype = None
            getattr(L, 'simpy_%s_disarm' % n).restype = ctypes.c_uint64
        L.simpy_places.argtypes = [ctypes.POINTER(ctypes.POINTER(ctypes.c_uint64))]
        L.simpy_places.restype = ctypes.c_uint64
        get = ctypes.pythonapi.PyCapsule_GetPointer
        get.restype = ctypes.c_void_p
        get.argtypes = [ctypes.py_object, ctypes.c_char_p]
        L.simpy_mem_install.argtypes = [ctypes.c_void_p]
        if L.simpy_mem_install(get(m._ARRAY_API, None)):
            raise RuntimeError('cannot replace the allocator of numpy')
        _lib = L
    return _lib


def place(e):
    """Where in the treecorr package an exception passed last."""
    tb = e.__traceback__ if e is not None else None
    out = None
    while tb is not None:
        co = tb.tb_frame.f_code
        if os.sep + 'treecorr' + os.sep in co.co_filename:
            out = '%s:%d (%s)' % (os.path.basename(co.co_filename), tb.tb_lineno, co.co_name)
        tb = tb.tb_next
    return out


def choose(kind, fn, seed):
    """Which point (1, 2, ...) a fault falls on when fn runs: half of the time any is as likely as
    any other, else any line of the package is as likely.  None if there are none."""
    import random
    r = random.Random(seed)
    with at(kind) as j:
        try:
            fn()
        except (KeyboardInterrupt, Exception):
            pass
    if not j.n:
        return None
    n = 1 + r.randrange(j.n)
    if kind == 'alloc' or r.random() < 0.5:
        return n
    p = ctypes.POINTER(ctypes.c_uint64)()
    m = min(lib().simpy_places(ctypes.byref(p)), j.n)
    lines = {}
    for k in range(m):
        if p[k]:
            lines.setdefault(p[k], []).append(k + 1)
    if not lines:
        return n
    return r.choice(lines[r.choice(list(lines))])


class at:
    """with at(kind, n) as j: ...; n = 0 counts only (j.n afterwards); j.hit: whether it fell."""

    def __init__(self, kind, n=0):
        self.kind, self.target, self.hit, self.where, self.n = kind, n, False, None, 0
        if kind == 'alloc':
            from . import system
            L = system.omp.lib
            self.arm = lambda: L.simomp_alloc_plan(n)
            self.disarm = lambda: (L.simomp_alloc_count(), L.simomp_alloc_failed(),
                                   L.simomp_alloc_plan(0))[:2]
        else:
            L = lib()
            arm, dis, hit = (getattr(L, 'simpy_%s_%s' % (kind, x)) for x in ('arm', 'disarm', 'hit'))
            t = 1 + EACH * (n - 1) if kind == 'int' and n else n
            self.arm = lambda: arm(t)
            self.disarm = lambda: (dis(), hit())

    def __enter__(self):
        self.arm()
        return self

    def __exit__(self, t, e, tb):
        self.n, hit = self.disarm()
        self.hit = bool(hit)
        if self.kind == 'int':
            self.n //= EACH
        self.where = None
        if self.hit:
            self.where = '%s' % (place(e) or 'another place')
        return False
