"""Catalogs in files: specs of their contents and of the ways of reading them, their writers, and
the catalog in memory each of them is supposed to be."""
import os

import numpy as np

from . import gen
from .gen import with_, DROP

COLS = ['x', 'y', 'z', 'ra', 'dec', 'r', 'w', 'wpos', 'k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2',
        't1', 't2', 'q1', 'q2', 'patch']
VARS = ['vark', 'varz', 'varv', 'varg', 'vart', 'varq']
SPIN = ['z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']


def file_spec(r, nmax=60, patch=True, coords=None, fmts=('fits', 'fits', 'hdf', 'ascii'),
              fields=None, rows=True):
    coords = coords or r.choice(['flat', 'flat', '3d', 'sphere', 'sphere3d'])
    s = gen.cat_spec(r, coords, nmax, nmin=4)
    if s['dist'] == 'line':
        s['dist'] = 'uniform'
    f = {'cat': s, 'fmt': r.choice(fmts),
         'fields': fields if fields is not None
         else ''.join(x for x in 'KZVGTQ' if r.random() < 0.3)}
    if f['fmt'] == 'ascii':
        f['sep'] = r.choice([' ', ' ', ',', '\t'])
        f['header'] = r.choice([0, 1, 1, 2])
        f['comment'] = r.choice(['#', '#', '%'])
        f['byname'] = r.choice([0, 1]) if f['header'] else 0
        f['nopandas'] = r.choice([0, 1])
    elif f['fmt'] == 'hdf':
        f['ext'] = r.choice([None, None, 'data', 'a/b'])
        f['split'] = r.choice([0, 0, 1]) if f['ext'] else 0
        f['chunks'] = r.choice([None, None, 3, 16])
    else:
        f['ext'] = r.choice([None, None, 'CAT', 2])
        f['split'] = r.choice([0, 0, 0, 1])
    f['type'] = r.choice(['f8', 'f8', 'f8', 'f4']) if f['fmt'] != 'ascii' else 'f8'
    if r.random() < 0.25:
        f['flag'] = r.choice(['ok', 'ignore', 'plain'])
    if r.random() < 0.2 and s.get('w'):
        f['wpos'] = 1
    if r.random() < 0.15:
        f['nan'] = r.choice([1, 2])
    if r.random() < 0.2 and any(x in f['fields'] for x in 'ZVGTQ'):
        f['flip'] = 1
    if r.random() < 0.25:
        f['kz'] = 1
    if r.random() < 0.3:
        f['units'] = 1
    if r.random() < 0.15 and 'K' in f['fields'] and f.get('byname', 1):
        f['eval'] = 1
    if r.random() < 0.2:
        f['num'] = 1
    if r.random() < 0.15 and f['fields']:
        f['var'] = 1
    if rows and r.random() < 0.4:
        n = s['n']
        f['rows'] = {}
        if r.random() < 0.6:
            f['rows']['first_row'] = r.choice([1, 2, r.randint(1, n)])
        if r.random() < 0.6:
            f['rows']['last_row'] = r.choice([n, n + 3, r.randint(f['rows'].get('first_row', 1), n)])
        if r.random() < 0.6:
            f['rows']['every_nth'] = r.choice([1, 2, 3, 5])
    if patch:
        h = r.choice([None, None, 'col', 'col', 'centers', 'kmeans'])
        if h == 'kmeans' and f['fmt'] == 'ascii':       # (sensitive to the last digit)
            h = 'centers'
        if h:
            f['patch'] = h
            s['npatch'] = r.choice([2, 3, 4])
            s['patch_how'] = r.choice(['stripes', 'stripes', 'random', 'blocks'])
            if r.random() < 0.15:
                s['patch_gap'] = r.randrange(s['npatch'])
            if h != 'kmeans' and r.random() < 0.3:
                f['single'] = r.randrange(s['npatch'])
    return f


def columns(f):
    """All columns of the file, in file units."""
    s = f['cat']
    kw = gen.cat_kwargs({k: v for k, v in s.items() if k != 'npatch'}, f['fields'])
    for u in ('ra_units', 'dec_units'):
        kw.pop(u, None)
    n = s['n']
    rng = np.random.RandomState(s['seed'] + 99)
    for k in kw:
        # few digits: the same in text and in single precision
        v = np.asarray(kw[k], dtype='f4').astype(float)
        kw[k] = v
    if f.get('patch') == 'col':
        kw['patch'] = gen.patch_labels(s)
    if f.get('flag'):
        kw['flag'] = rng.choice([0, 0, 0, 1, 2, 3, 4], n)
        kw['flag'][rng.randint(n)] = 0
    if f.get('wpos'):
        kw['wpos'] = rng.choice([1., 0.5, 2.], n)
        if 'w' in kw:
            kw['wpos'][kw['w'] == 0] = 0.
    for _ in range(f.get('nan', 0)):
        names = [k for k in kw if k not in ('patch', 'flag')]
        kw[names[rng.randint(len(names))]][rng.randint(n)] = np.nan
    return kw


def centers(f):
    if f.get('cen'):            # those of another file
        f = f['cen']
    s = f['cat']
    cols = columns(f)
    m = s['npatch']
    rng = np.random.RandomState(s['seed'] + 5)
    idx = rng.permutation(s['n'])[:m]
    import treecorr
    pos = {k: np.nan_to_num(cols[k]) for k in ('x', 'y', 'z', 'ra', 'dec', 'r') if k in cols}
    c = treecorr.Catalog(**pos, **units(f))
    a = [c.x, c.y] + ([c.z] if c.z is not None else [])
    out = np.column_stack(a)[idx]
    if len(out) < m:
        out = np.concatenate([out, out[:1] + 0.1 + np.arange(m - len(out))[:, None]])
    return out


def units(f):
    if 'ra' in columns_names(f):
        u = {'ra_units': 'hours', 'dec_units': 'deg'} if f.get('units') \
            else {'ra_units': 'deg', 'dec_units': 'deg'}
    elif f.get('units') and f['cat']['coords'] == 'flat':
        u = {'x_units': 'arcmin', 'y_units': 'arcmin'}
    else:
        u = {}
    return u


def columns_names(f):
    return {'flat': ['x', 'y'], '3d': ['x', 'y', 'z'], 'sphere': ['ra', 'dec'],
            'sphere3d': ['ra', 'dec', 'r']}[f['cat']['coords']]


def suffix(f):
    return {'fits': '.fits', 'hdf': '.hdf5', 'ascii': '.dat'}[f['fmt']]


def write(f, name):
    """Write the file, by nothing of TreeCorr's."""
    cols = columns(f)
    if f.get('eval'):
        k = cols.pop('k')
        cols['ka'], cols['kb'] = np.where(np.isnan(k), k, k - 1.), np.ones_like(k)
    for k in cols:
        if k not in ('patch', 'flag'):
            cols[k] = cols[k].astype(f['type'])
    names = list(cols)
    half = [names[::2], names[1::2]] if f.get('split') else [names]
    if f['fmt'] == 'fits':
        import fitsio
        if os.path.exists(name):
            os.remove(name)
        e = f.get('ext')
        with fitsio.FITS(name, 'rw') as out:
            if e == 2:
                out.write([np.arange(3.)], names=['other'])
            for j, h in enumerate(half):
                out.write([cols[k] for k in h], names=h,
                          extname=(e if isinstance(e, str) else 'E') + ('S' if j else ''))
    elif f['fmt'] == 'hdf':
        import h5py
        with h5py.File(name, 'w') as out:
            e = f.get('ext')
            for j, h in enumerate(half):
                g = out if not e else out.require_group(e + ('S' if j else ''))
                for k in h:
                    ch = f.get('chunks')
                    g.create_dataset(k, data=cols[k],
                                     chunks=(min(ch, len(cols[k])),) if ch else None)
    else:
        sep = f['sep']
        c = f['comment']
        with open(name, 'w') as out:
            if f['header'] == 2:
                out.write('%s a table\n' % c)
            if f['header']:
                out.write(c + ' ' + sep.join(names).replace(',', ', ') + '\n')
            fm = {k: '%d' if k in ('patch', 'flag') else '%.17g' for k in names}
            rows = np.column_stack([cols[k] for k in names])
            for row in rows:
                out.write(sep.join(fm[k] % v for k, v in zip(names, row)) + '\n')


def listed(f, v, other):
    """Options may be lists; entry 'num' counts."""
    return [other, v] if f.get('num') else v


def options(f):
    """Options with the same meaning for files and arrays."""
    o = units(f)
    if f.get('kz'):
        o['keep_zero_weight'] = True
    if f.get('flag') == 'ok':
        o['ok_flag'] = listed(f, 2, 0)
    elif f.get('flag') == 'ignore':
        o['ignore_flag'] = listed(f, 5, 7)
    if f.get('flip'):
        have = [x for x in SPIN if x[0].upper() in f['fields']]
        for x in have[::2]:
            o['flip_' + x] = listed(f, True, False)
    if f.get('var'):
        for x in 'kzvgtq':
            if x.upper() in f['fields']:
                o['var' + x] = 0.25
    return o


def patch_args(f, seed=0):
    p = f.get('patch')
    o = {}
    if p == 'centers':
        o['patch_centers'] = centers(f)
    elif p == 'kmeans':
        o['npatch'] = f['cat']['npatch']
        o['rng'] = np.random.RandomState(f['cat']['seed'] + seed)
    if f.get('single') is not None:
        o['patch'] = f['single']
        if p == 'col':
            o['npatch'] = f['cat']['npatch']
    return o


def file_kwargs(f):
    names = list(columns(f))
    if f.get('eval'):
        names.remove('k')
        names += ['ka', 'kb']
    o = {}
    for i, k in enumerate(names):
        if k in ('ka', 'kb'):
            continue
        o[k + '_col'] = k if f['fmt'] != 'ascii' or f['byname'] else i + 1
    if f.get('eval'):
        o['k_eval'] = 'ka + kb'
        o['extra_cols'] = ['ka', 'kb']
    e = f.get('ext')
    if f.get('split'):
        half = [names[::2], names[1::2]]
        for j, h in enumerate(half):
            for k in h:
                x = ext_name(f, j)
                if k not in ('ka', 'kb'):
                    o[k + '_ext'] = x
        o['ext'] = ext_name(f, 0)
    elif e is not None:
        o['ext'] = e
    if f['fmt'] == 'ascii':
        o['file_type'] = 'ASCII'
        if f['sep'] == ',':
            o['delimiter'] = ','
        if f['comment'] != '#':
            o['comment_marker'] = f['comment']
    if f.get('num'):
        o['num'] = 1
    o.update(f.get('rows', {}))
    o.update(options(f))
    o.update(patch_args(f))
    return o


def ext_name(f, j):
    e = f.get('ext')
    if f['fmt'] == 'fits':
        return (e if isinstance(e, str) else 'E') + ('S' if j else '')
    return (e or '') + ('S' if j else '')


class pandas_off:
    """Catalog without pandas installed."""

    def __init__(self, off):
        self.off = off

    def __enter__(self):
        import sys
        self.old = sys.modules.get('pandas', 0)
        if self.off:
            sys.modules['pandas'] = None

    def __exit__(self, *a):
        import sys
        if self.off:
            if self.old == 0:
                del sys.modules['pandas']
            else:
                sys.modules['pandas'] = self.old


def open_cat(f, name, **more):
    """The catalog to be tested: nothing is loaded yet."""
    import treecorr
    kw = file_kwargs(f)
    kw.update(more)
    with pandas_off(f.get('nopandas')):
        return treecorr.Catalog(name, **kw)


def twin_kwargs(f, cols=None):
    cols = columns(f) if cols is None else dict(cols)
    if 'ka' in cols:
        cols['k'] = cols.pop('ka') + cols.pop('kb')
    elif f.get('eval'):
        cols['k'] = (cols['k'] - 1.).astype(f['type']) + np.ones(len(cols['k']), dtype=f['type'])
        cols['k'] = cols['k'].astype(float)
    R = f.get('rows', {})
    last = R.get('last_row', -1)
    sel = slice(R.get('first_row', 1) - 1, last if last > 0 else None, R.get('every_nth', 1))
    cols = {k: v[sel] for k, v in cols.items()}
    return cols


def twin(f, cols=None, rand=False, **more):
    """The catalog in memory that reading the file must amount to (cols: if the file had these
    columns)."""
    import treecorr
    cols = twin_kwargs(f, cols)
    o = options(f)
    o.update(patch_args(f))
    if rand:
        keep = set(columns(with_(f, fields=''))) | {'flag', 'patch', 'wpos'}
        cols = {k: v for k, v in cols.items() if k in keep}
        o = {k: v for k, v in o.items() if not k.startswith('flip_')}
    if f.get('single') is not None and f['patch'] == 'col':
        sel = cols.pop('patch') == f['single']
        cols = {k: v[sel] for k, v in cols.items()}
    if f.get('num'):
        o['num'] = 1
    if 'patch' in cols:         # (an array of length one would be taken for a single patch)
        cols['patch'] = list(cols['patch'])
    o.update(more)
    return treecorr.Catalog(**cols, **o)


def snap_cat(c, variances=True):
    """Everything a user can see of a catalog."""
    out = {}
    for a in COLS + ['npatch', 'ntot', 'nobj', 'sumw', 'sumw2', 'nontrivial_w', 'coords'] + \
            (VARS if variances else []):
        v = getattr(c, a)
        if v is not None:
            out[a] = np.array(v, copy=True)
    return out


def diff_cat(got, want, rtol=0.):
    if set(got) != set(want):
        return 'columns: only here %s, only expected %s' % (sorted(set(got) - set(want)),
                                                            sorted(set(want) - set(got)))
    for k in COLS + sorted(set(want) - set(COLS)):
        if k not in want:
            continue
        a, b = got[k], want[k]
        if a.shape != b.shape:
            return '%s has shape %s, expected %s' % (k, a.shape, b.shape)
        if a.dtype.kind in 'US':
            ok = np.array_equal(a, b)
        elif k.startswith('var') or k.startswith('sum'):
            ok = np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
        elif rtol:
            ok = np.allclose(a, b, rtol=rtol, atol=rtol * (np.abs(b).max() if b.size else 0.))
        else:
            ok = np.array_equal(a, b)
        if not ok:
            bad = np.flatnonzero(np.ravel(a != b))
            i = bad[0] if len(bad) else 0
            return '%s differs at %d places, first %d: %r, expected %r' % (
                k, len(bad), i, np.ravel(a)[i], np.ravel(b)[i])
    return None


def shrink_file(f):
    for s in gen.shrink_cat(f['cat']):
        if s['n'] >= 2:
            yield with_(f, cat=s)
    for k in ('flag', 'wpos', 'nan', 'flip', 'kz', 'units', 'eval', 'num', 'rows', 'split', 'ext',
              'chunks', 'var', 'nopandas'):
        if f.get(k):
            if k == 'ext' and f.get('split'):
                continue
            yield with_(f, **{k: DROP})
    if f.get('rows'):
        for k in f['rows']:
            yield with_(f, rows=with_(f['rows'], **{k: DROP}))
    if f.get('single') is not None:
        yield with_(f, single=DROP)
    elif f.get('patch'):
        yield with_(f, patch=DROP, cat={k: v for k, v in f['cat'].items() if k != 'npatch'})
    if f['type'] == 'f4':
        yield with_(f, type='f8')
    if f.get('sep', ' ') != ' ':
        yield with_(f, sep=' ')
    if f.get('comment', '#') != '#':
        yield with_(f, comment='#')
    for x in f['fields']:
        if not (x == 'K' and f.get('eval')):
            yield with_(f, fields=f['fields'].replace(x, ''))
