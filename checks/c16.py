"""C16: reading a file gives its contents or an error, whatever the reads return."""
import hashlib
import os

import numpy as np

from tcsim import cats as K, gen as G, simio, system
from tcsim.gen import with_, DROP

PROPERTY = 'C16'
USES_SIMIO = True
HASHSEED = '0'      # extensions are read in the order of a set of their names
QUICK = {'runs': 8000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run writes a catalog file (FITS, HDF5, text through pandas or numpy; several '
        'extensions, groups, chunk sizes, delimiters, comments, single precision) without '
        'TreeCorr, and reads it with TreeCorr using some row selection, flags, weights, flips, '
        'units, patches or a single patch: under short and interrupted reads; or with reads or '
        'opens that fail at an arbitrary operation, once or from then on; or after the file was '
        'cut at an arbitrary byte, before or after it was opened first. Non-trivial: a transfer '
        'was split, a fault fell on an operation, or the cut removed something.')
STATES = 'distinct traces: hash of the sequence of (operation, size, fault) of the reads'
REAL = ['treecorr Python package', 'TreeCorr C++ extension',
        'numpy, pandas, fitsio/cfitsio, h5py/libhdf5']
STUB = ['file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'OpenMP: one thread']
ASSUMPTIONS = ['text files carry no length: a cut can only be noticed within a row']


def setup():
    system.start()
    import fitsio, h5py, pandas  # noqa: F401,E401  (once, not in every run)


def generate(r, i, tier):
    big = r.random() < 0.08
    f = K.file_spec(r, nmax=r.choice([8, 30, 60]))
    if big:
        f['cat']['n'] = r.choice([400, 3000])
        f['cat']['npatch'] = f['cat'].get('npatch', 2)
        if not f.get('patch'):
            del f['cat']['npatch']
    c = {'file': f, 'mode': r.choice(['split', 'fault', 'fault', 'cut'])}
    if r.random() < 0.1 and not f.get('flip') and not f.get('var') and not f.get('eval'):
        c['rand'] = 1
    if c['mode'] == 'split' or r.random() < 0.2:
        c['rnd'] = [r.randrange(1 << 30), r.choice([200, 500, 950]), r.choice([0, 200, 500])]
    if c['mode'] == 'fault':
        c['faults'] = []
        for _ in range(r.choice([1, 1, 1, 2])):
            a = {'act': r.choice(['eio', 'eio', 'eio', 'eios', 'eios', 'eacces', 'emfile']),
                 'at': r.randrange(1 << 16), 'arg': 0}
            if r.random() < 0.6:
                a['kind'] = 'read'
            c['faults'].append(a)
    if c['mode'] == 'cut':
        c['cut'] = {'how': r.choice(['bytes', 'bytes', 'block', 'end', 'row']),
                    'at': r.randrange(1 << 20), 'when': r.choice(['before', 'before', 'between'])}
    return c


def load(c, name='cat', after=None):
    f = c['file']
    more = {'is_rand': True} if c.get('rand') else {}
    cat = K.open_cat(f, name + K.suffix(f), **more)
    if after:
        after()
    cat.load()
    return K.snap_cat(cat)


def expected(c, cols=None):
    return K.snap_cat(K.twin(c['file'], cols, rand=bool(c.get('rand'))))


def cut_at(c, size, data):
    """Where to cut the file."""
    k = c['cut']
    if 'byte' in k:
        return k['byte']
    at = k['at']
    if k['how'] == 'block':
        return min(size - 1, (at % (size // 2880 + 1)) * 2880)
    if k['how'] == 'end':
        return max(0, size - 1 - at % 300)
    if k['how'] == 'row':
        ends = [i + 1 for i in range(len(data)) if data[i:i + 1] == b'\n']
        if ends:
            return min(size - 1, ends[at % len(ends)])
    return at % size


def run(c):
    f = c['file']
    stats, states = {}, []
    name = 'cat' + K.suffix(f)
    K.write(f, name)
    try:
        want = expected(c)
    except (ValueError, TypeError, RuntimeError, AssertionError, AttributeError, IndexError) as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    if want['ntot'] == 0:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': 'empty'}
    rtol = 1e-12 if f['fmt'] == 'ascii' else 0.
    root = os.path.abspath('.')
    plan, rnd, hit, err = [], c.get('rnd'), 0, None
    got = None
    case = c
    if c['mode'] == 'fault':
        with simio.io(root=root) as dry:
            load(c)
        plan = [p for p in (simio.resolve(a, dry.ops) for a in c['faults']) if p]
        case = with_(c, faults=[{'act': p[1], 'op': p[0], 'arg': p[2]} for p in plan])
    after = None
    size = os.path.getsize(name)
    if c['mode'] == 'cut':
        with open(name, 'rb') as fin:
            data = fin.read()
        byte = cut_at(c, size, data)
        case = with_(c, cut=with_(c['cut'], byte=byte))

        def cut():
            os.truncate(name, byte)
        if c['cut']['when'] == 'before':
            cut()
        else:
            after = cut
    j = simio.io(plan, rnd, root)
    try:
        with j:
            got = load(c, after=after)
    except Exception as e:
        err = e
    simio.count_faults(j.ops, stats)
    hit = len([o for o in j.ops if o.act not in (None, 'short', 'eintr')])
    soft = len([o for o in j.ops if o.act in ('short', 'eintr')])
    stats['mode_' + c['mode']] = 1
    stats['fmt_' + (f['fmt'] + ('_numpy' if f.get('nopandas') else ''))] = 1
    stats['raised' if err is not None else 'loaded'] = 1
    viol = None
    if got is None:
        if c['mode'] == 'split' or (c['mode'] == 'fault' and not hit):
            viol = ['refused:' + type(err).__name__, 'nothing failed but reading raises %r' % (err,)]
    else:
        d = K.diff_cat(got, want, rtol)
        if d and c['mode'] == 'cut' and f['fmt'] == 'ascii':
            d = judge_text(c, got, data[:byte], rtol)
        if d:
            viol = [c['mode'] + '-altered', 'the catalog read is not what was stored: ' + d]
    sig = [(o.kind, o.req, o.res, o.err, o.act) for o in j.ops]
    if c['mode'] == 'cut':
        sig.append(('cut', byte, size))
    states.append(hashlib.sha256(repr(sig).encode()).hexdigest()[:16])
    res = {'viol': viol, 'stats': stats, 'states': states,
           'trivial': not (hit or soft or c['mode'] == 'cut'),
           'digest': G.digest(repr(sig), type(err).__name__, repr(viol), want)}
    if viol:
        res['case'] = case
        res['ident'] = '%s %s' % (f['fmt'], c['mode'])
    return res


def judge_text(c, got, left, rtol):
    """A text file that was cut is a shorter file; numpy raises for incomplete rows, pandas takes
    absent values for NaN."""
    f = c['file']
    names = list(K.columns(f))
    if f.get('eval'):
        names.remove('k')
        names += ['ka', 'kb']
    rows, broken = [], False
    for line in left.decode().split('\n'):
        v = line.split(f['comment'])[0]
        v = v.split() if f['sep'] != ',' else v.strip().split(',')
        if not v or v == ['']:
            continue
        try:
            v = [float(x) if x else np.nan for x in v]
        except ValueError:              # e.g. "1e"; an error unless the row is not selected
            broken = True
            continue
        rows.append(v + [np.nan] * (len(names) - len(v)))
    if len(rows) == 1 and np.isnan(rows[0]).any():
        return None         # then the first row has fewer columns, which is a matter of style
    d = 'a catalog where the text that is left is not one'
    for n in (len(rows), len(rows) - 1):
        if n <= 0:
            continue
        cols = dict(zip(names, np.array(rows[:n]).T))
        ints = [k for k in ('flag', 'patch') if k in cols]
        if any(np.isnan(cols[k]).any() for k in ints):
            continue
        for k in ints:
            cols[k] = cols[k].astype(int)
        try:
            want = expected(c, cols)
        except (ValueError, TypeError, RuntimeError, AssertionError, AttributeError, IndexError):
            continue
        if want['ntot'] == 0 and got['ntot'] == 0:
            return None
        d = K.diff_cat(got, want, rtol)
        if not d:
            return None
    return None if got['ntot'] == 0 else 'after a cut within the file: ' + d


def shrinks(c):
    if c['mode'] == 'fault':
        for x in G.chunks_removed(c['faults']):
            if x:
                yield with_(c, faults=x)
    if c.get('rnd') and c['mode'] != 'split':
        yield with_(c, rnd=DROP)
    if c.get('rand'):
        yield with_(c, rand=DROP)
    for f in K.shrink_file(c['file']):
        d = with_(c, file=f)
        if c['mode'] == 'cut':
            d['cut'] = {k: v for k, v in c['cut'].items() if k != 'byte'}
            d['cut']['at'] = c['cut'].get('byte', c['cut']['at'])
        yield d
