"""Control of the simulated OpenMP runtime (native/simomp.cpp)."""
import ctypes
import random

MODES = {'explicit': 0, 'random': 1, 'site': 2, 'pct': 3, 'stall': 4}
STATS = ['regions', 'multi_regions', 'steps', 'switches', 'forced', 'criticals', 'contended',
         'barriers', 'loops', 'chunks', 'maxteam', 'hash', 'iters_hash', 'denied', 'stalls', 'sites']

lib = None


def attach(so):
    global lib
    lib = ctypes.CDLL(so)     # the already loaded module
    lib.simomp_configure.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_int, ctypes.c_int,
                                     ctypes.c_int, ctypes.c_double, ctypes.c_int, ctypes.c_int,
                                     ctypes.c_uint64, ctypes.c_uint64]
    lib.simomp_steps.restype = ctypes.c_uint64
    lib.simomp_trace.restype = ctypes.c_long
    lib.simomp_alloc_plan.argtypes = [ctypes.c_uint64]
    lib.simomp_alloc_count.restype = ctypes.c_uint64
    lib.simomp_alloc_failed.restype = ctypes.c_uint64
    assert lib.simomp_nstats() == len(STATS)
    serial()


def serial():
    """No team has more than one member."""
    lib.simomp_configure(1, 1, 1, 0, 0, 1e9, 1, 0, 1, 1 << 40)


def configure(s):
    """Start a schedule described by the dict s (see random_schedule)."""
    lib.simomp_configure(MODES[s['mode']], s.get('seed', 0), s.get('max_team', 0),
                         int(s.get('vary_team', 0)), int(s.get('perm', 0)),
                         float(s.get('mean', 100.)), s.get('site_mod', 50), s.get('depth', 3),
                         s.get('range', 100000), s.get('step_limit', 400000000))
    if s['mode'] == 'explicit':
        plan = s.get('plan', [])
        n = len(plan)
        steps = (ctypes.c_uint64 * max(n, 1))(*[p[0] for p in plan])
        targs = (ctypes.c_int * max(n, 1))(*[p[1] for p in plan])
        lib.simomp_plan(steps, targs, ctypes.c_long(n))


def stats():
    a = (ctypes.c_uint64 * len(STATS))()
    lib.simomp_stats(a)
    return dict(zip(STATS, list(a)))


def trace():
    n = lib.simomp_trace(None, None, ctypes.c_long(0))
    steps = (ctypes.c_uint64 * max(n, 1))()
    targs = (ctypes.c_int * max(n, 1))()
    lib.simomp_trace(steps, targs, ctypes.c_long(n))
    return [[int(steps[i]), int(targs[i])] for i in range(n)]


def random_schedule(r):
    """Draw one schedule policy (swarm style: every run uses its own mix)."""
    s = {'seed': r.getrandbits(60), 'mode': r.choice(['random', 'random', 'random', 'site', 'site',
                                                      'pct', 'stall'])}
    if s['mode'] == 'random':
        s['mean'] = r.choice([1.0, 1.5, 3., 10., 40., 300., 3000., 30000.])
    elif s['mode'] == 'site':
        s['site_mod'] = r.choice([2, 8, 30, 100, 300])
    else:
        s['depth'] = r.choice([0, 1, 2, 3, 5, 10]) if s['mode'] == 'pct' else 1
        s['range'] = r.choice([100, 1000, 10000, 100000, 1000000])
    s['perm'] = int(r.random() < 0.3)
    s['vary_team'] = int(r.random() < 0.2)
    s['max_team'] = r.choice([0, 0, 0, 0, 2, 3, 5])
    return s


def to_explicit(s, tr):
    """The replayable form of a schedule: the same team sizes and loop orders, with the switches
    that were taken written out."""
    e = {k: s[k] for k in ('seed', 'perm', 'vary_team', 'max_team') if k in s}
    e['mode'] = 'explicit'
    e['plan'] = tr
    return e
