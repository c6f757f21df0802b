"""C08: a write that meets an I/O error raises; one that returns has stored everything."""
import hashlib
import os
import re
import shutil

import numpy as np

from tcsim import gen as G, outputs as O, simio, system
from tcsim.gen import with_, DROP

PROPERTY = 'C08'
USES_SIMIO = True
QUICK = {'runs': 4000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws an object (any two- or three-point correlation with or without patch '
        'results and covariance, aperture statistics, catalog, patch centres), a format (ASCII, '
        'FITS, gzipped FITS, HDF5, by extension or by file_type), a destination (new file, new '
        'directories, an older file) and one to three faults on operations of the write (EIO, '
        'ENOSPC, a disk that stays full, refused or failing opens, failing close that loses data, '
        'failing truncate/rename/unlink/mkdir), or only short and interrupted transfers. '
        'Non-trivial: at least one fault actually fell on an operation.')
STATES = 'distinct fault traces: hash of the sequence of (operation, size, fault) of the faulty write'
REAL = ['treecorr Python package', 'TreeCorr C++ extension', 'numpy, fitsio/cfitsio, h5py/libhdf5']
STUB = ['file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'OpenMP: one thread']
ASSUMPTIONS = ['a failing close loses part of the data just written']


def setup():
    system.start()


def generate(r, i, tier):
    o = O.obj_spec(r, nmax=r.choice([12, 40]))
    c = {'obj': o, 'write': O.write_spec(r, o), 'faults': []}
    if r.random() < 0.5:
        c['then'] = with_(O.write_spec(r, o), name='then', prior=0)
    big = r.random() < 0.1                         # files of many blocks
    if big and o['what'] == 'cat':
        o['cats'] = [with_(s, n=r.choice([400, 1500])) for s in o['cats']]
    mode = r.random()
    if mode < 0.85:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            act = r.choice(['eio', 'eio', 'enospc', 'full', 'full', 'eacces', 'emfile'])
            f = {'act': act, 'at': r.randrange(1 << 16), 'arg': r.choice([0, 1, 300, 999, 1000])}
            if r.random() < 0.4:
                f['kind'] = r.choice(['write', 'close', 'close', 'open', 'rename', 'truncate'])
            c['faults'].append(f)
    if mode >= 0.7:
        c['rnd'] = [r.randrange(1 << 30), r.choice([0, 300, 900]), r.choice([0, 200])]
    return c


def _norm(ops):
    return [(o.kind, re.sub('[0-9a-f]{32}', '*', o.path), o.req, o.res, o.err, o.act) for o in ops]


def _public(obj, o):
    """What must not change when a write fails."""
    if o['what'] == 'cat':
        return {k: np.array(getattr(obj, k), copy=True) for k in
                ('x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos', 'patch') + tuple(G.ALL_COLS)
                if getattr(obj, k, None) is not None}
    out = G.raw_snapshot(obj)
    for k, v in getattr(obj, 'results', {}).items():
        for a, b in G.raw_snapshot(v).items():
            out['%s%s' % (a, k)] = b
    return out


def run(c):
    o, w = c['obj'], c['write']
    stats, states = {}, []
    try:
        obj, more = O.build(o)
    except O.Rejected as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    kind = O.kind_of(w)
    # Without faults: the reference contents and the operations that faults can fall on.
    O.prepare(w, 'ref')
    with simio.io(root=os.path.abspath('ref')) as dry:
        try:
            O.call_writer(obj, o, w, more, 'ref')
        except (ValueError, TypeError, RuntimeError, AttributeError, NotImplementedError) as e:
            return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                    'digest': G.digest('rejected', str(e))}
    want = O.contents(O.path_of(w, 'ref'), kind)
    then = c.get('then')
    if then:
        try:
            O.prepare(then, 'ref')
            O.call_writer(obj, o, then, more, 'ref')
        except (ValueError, TypeError, RuntimeError, AttributeError, NotImplementedError):
            then = None
    if then:
        want2 = O.contents(O.path_of(then, 'ref'), O.kind_of(then))
    before = _public(obj, o)
    plan = []
    for f in c['faults']:
        p = simio.resolve(f, dry.ops)
        if p:
            plan.append(p)
    O.prepare(w, 'new')
    err = None
    with simio.io(plan, c.get('rnd'), root=os.path.abspath('new')) as j:
        try:
            O.call_writer(obj, o, w, more, 'new')
        except Exception as e:
            err = e
    simio.count_faults(j.ops, stats)
    trace = _norm(j.ops)
    states.append(hash_(trace))
    path = O.path_of(w, 'new')
    viol = None
    hard = [t for t in trace if t[5] and t[5] not in ('short', 'eintr')]
    if err is None:
        stats['reported_success'] = 1
        got = O.try_contents(path, kind)
        if got != want:
            viol = ['success-but-incomplete', 'the write returned normally but the file does not '
                    'hold what it should (%s); faults: %s' % (describe(got, want), hard or 'none')]
    else:
        stats['raised'] = 1
        if not hard:
            viol = ['spurious-error:%s' % type(err).__name__, 'the write raised %r although there '
                    'were only short or interrupted transfers' % err]
    if viol is None:
        after = _public(obj, o)
        d = G.diff_snap(after, before, rtol=0, floor=0)
        if d:
            viol = ['object-changed', 'after the %s write the object differs: %s'
                    % ('failed' if err else 'successful', d)]
    if viol is None and err is not None and then:
        # Something else is written after the failure.
        O.call_writer(obj, o, then, more, 'new')
        got = O.try_contents(O.path_of(then, 'new'), O.kind_of(then))
        stats['other_writes'] = 1
        if got != want2:
            viol = ['later-write-differs', 'a different write after the failed one does not give '
                    'the file it gives otherwise (%s)' % describe(got, want2)]
    if viol is None and err is not None:
        # The fault is gone: once more.
        try:
            O.call_writer(obj, o, w, more, 'new')
            got = O.try_contents(path, kind)
            if got != want:
                viol = ['retry-incomplete', 'the second write returned normally but the file does '
                        'not hold what it should (%s)' % describe(got, want)]
        except Exception as e:
            viol = ['retry-failed:%s' % type(e).__name__,
                    'writing again without any fault raised %r' % e]
        stats['retries'] = 1
    stats['fmt_' + kind] = 1
    stats['fn_%s_%s' % (o['what'], w['fn'])] = 1
    trivial = not any(t[5] for t in trace)
    res = {'viol': viol, 'stats': stats, 'states': states, 'trivial': trivial,
           'digest': G.digest(trace, repr(viol), type(err).__name__)}
    if viol:
        res['case'] = with_(c, faults=[{'act': p[1], 'op': p[0], 'arg': p[2]} for p in plan])
        res['ident'] = '%s %s %s' % (kind, w['fn'], sorted({(t[0], t[5]) for t in hard}))
    return res


def hash_(trace):
    return hashlib.sha256(repr(trace).encode()).hexdigest()[:16]


def describe(got, want):
    if isinstance(got, str) and got.startswith('unreadable'):
        return got
    if isinstance(want, bytes):
        if len(got) != len(want):
            return '%d bytes instead of %d' % (len(got), len(want))
        i = next(i for i in range(len(got)) if got[i] != want[i])
        return 'byte %d differs' % i
    if len(got) != len(want):
        return '%d parts instead of %d' % (len(got), len(want))
    return 'contents differ'


def shrinks(c):
    for fs in G.chunks_removed(c['faults']):
        yield with_(c, faults=fs)
    if c.get('rnd') and c['faults']:
        yield with_(c, rnd=DROP)
    if c.get('then'):
        yield with_(c, then=DROP)
        for w in O.shrink_write(c['then']):
            yield with_(c, then=w)
    for w in O.shrink_write(c['write']):
        yield with_(c, write=w)
    for o in O.shrink_obj(c['obj']):
        yield with_(c, obj=o)
    for k, f in enumerate(c['faults']):
        if f.get('op'):
            for n in G.shrink_int(f['op'], 0):
                yield with_(c, faults=c['faults'][:k] + [with_(f, op=n)] + c['faults'][k + 1:])
        if f['act'] in ('enospc', 'full'):
            yield with_(c, faults=c['faults'][:k] + [with_(f, act='eio')] + c['faults'][k + 1:])
