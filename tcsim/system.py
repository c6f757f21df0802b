"""Common start-up of the simulated system inside a worker (imported once, before any fork)."""
import contextlib
import logging
import os
import sys
import warnings

treecorr = None
omp = None


def start():
    """Load treecorr on the simulated runtime and pin what would differ between hosts."""
    global treecorr, omp
    from . import boot
    import numpy as np                                     # noqa
    import multiprocessing
    multiprocessing.cpu_count = lambda: 4
    os.cpu_count = lambda: 4
    treecorr = boot.load()
    from . import omp as _omp
    omp = _omp
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    treecorr.set_omp_threads(1)
    return treecorr


@contextlib.contextmanager
def schedule(s):
    """Run the body under thread schedule s; the body's switches can be read afterwards."""
    omp.configure(s)
    try:
        yield
    finally:
        sched_result.clear()
        sched_result.update(omp.stats())
        if s['mode'] != 'explicit':
            sched_result['trace'] = omp.trace()
        else:
            sched_result['trace'] = s.get('plan', [])
        omp.serial()


sched_result = {}


def sched_stats():
    d = {k: v for k, v in sched_result.items()
         if k in ('regions', 'multi_regions', 'steps', 'switches', 'forced', 'criticals',
                  'contended', 'barriers', 'chunks', 'denied', 'stalls')}
    d['max_team'] = sched_result['maxteam']
    return d


def shrink_schedule(s):
    """Smaller schedules: for a recorded one, fewer preemptions."""
    from .gen import chunks_removed, with_
    if s['mode'] == 'explicit':
        for p in chunks_removed(s.get('plan', [])):
            yield with_(s, plan=p)
        if s.get('perm'):
            yield with_(s, perm=0)
        if s.get('vary_team'):
            yield with_(s, vary_team=0)
        if not s.get('max_team') or s['max_team'] > 2:
            yield with_(s, max_team=2)
