"""Objects that can be stored, the ways of storing them, and what is in the files: shared by the
checks about files (C08, C09, C13, C15)."""
import os

import numpy as np

from . import gen as G, ranks as R
from .gen import with_, DROP

FMTS = ['dat', 'fits', 'hdf5', 'fits.gz+FITS', 'txt+FITS', 'dat+HDF', 'fits+ASCII']
HEADY = ('DATE', 'CHECKSUM', 'DATASUM')


# ---------------------------------------------------------------------------------- objects
def obj_spec(r, kinds=('corr2', 'corr2', 'corr2', 'corr3', 'cat', 'stat'), nmax=30, coords=None):
    """A small object to be stored."""
    what = r.choice(list(kinds))
    co = coords or r.choice(['flat', 'flat', 'sphere', '3d'])
    o = {'what': what, 'coords': co}
    npatch = r.choice([1, 2, 3, 4])
    if what == 'stat':
        npatch = 1
        o['coords'] = co = 'flat'
    o['npatch'] = npatch
    o['cats'] = R.patch_cats(r, co, 2, npatch, nmax) if npatch > 1 else \
        [G.cat_spec(r, co, nmax, nmin=4) for _ in range(2)]
    if what == 'corr3':
        o['type'] = r.choice(G.TYPES3)
        o['kw'] = G.corr3_config(r, co, 10., small=True)
        o['use'] = r.choice([[0], [0], [0, 1]])
        o['cats'] = [with_(s, n=min(s['n'], 14)) for s in o['cats']]
        if o['type'] == 'NNN' and len(o['use']) == 1:
            o['est'] = r.choice([None, 'rrr', 'full'])
    elif what == 'corr2':
        o['type'] = r.choice(G.TYPES2 + ['NN', 'NN', 'GG', 'NK', 'NG'])
        t = o['type']
        o['use'] = [0] if t[0] == t[1] and r.random() < 0.5 else [0, 1]
        o['kw'] = G.corr2_config(r, co, 10., len(o['use']) == 1)
        if t == 'NN':
            o['est'] = r.choice([None, 'rr', 'dr', 'both'])
        elif t[0] == 'N' and r.random() < 0.3:
            o['est'] = 'r' + t[1].lower()
        if npatch > 1 and r.random() < 0.3:
            o['var'] = r.choice(['jackknife', 'sample'])
    elif what == 'stat':
        o['type'] = r.choice(['NG', 'GG', 'GGG', 'NGnorm'])
        o['kw'] = {'min_sep': 0.3, 'max_sep': 8., 'nbins': r.choice([2, 4])}
        if o['type'] == 'GGG':
            o['kw'].update(bin_type='LogRUV', nubins=2, nvbins=2)
            o['cats'] = [with_(s, n=min(s['n'], 14)) for s in o['cats']]
    else:
        o['fields'] = r.choice(['N', 'K', 'G', 'NKZVGTQ', 'KG', 'T'])
        if r.random() < 0.3:
            o['kz'] = 1
    for k in ('min_top', 'max_top'):
        o.get('kw', {}).pop(k, None)
    return o


FIELDS = 'NKZVGTQ'


def make_input(spec, fields=FIELDS, **more):
    return G.make_cat(spec, fields, **more)


class Rejected(Exception):
    """The parameters make no sense together."""


def build(o):
    """The object and whatever its writer needs besides."""
    try:
        return _build(o)
    except R.REJECT as e:
        raise Rejected('%s: %s' % (type(e).__name__, e))


def _build(o):
    if o['what'] == 'cat':
        return G.make_cat(o['cats'][0], o['fields'],
                          **({'keep_zero_weight': True} if o.get('kz') else {})), {}
    cats = [G.make_cat(s, FIELDS) for s in o['cats']]
    if o['what'] == 'stat':
        t = o['type']
        kw = o['kw']
        if t == 'NGnorm':
            c = G.make_corr2('NG', kw)
            c.process(*cats)
            more = {}
            for nm, ty, a in (('gg', 'GG', cats[1:]), ('dd', 'NN', cats[:1]), ('rr', 'NN', cats[1:])):
                more[nm] = G.make_corr2(ty, kw)
                more[nm].process(*a)
            return c, more
        c = G.make_corr2(t, kw)
        c.process(*(cats if t == 'NG' else cats[:1]))
        return c, {}
    more = {'var_method': o['var']} if o.get('var') else {}
    c = G.make_corr2(o['type'], o['kw'], **more)
    a = [cats[j] for j in o['use']]
    c.process(*a)
    more = {}
    if o.get('est'):
        rc = [G.make_cat(with_(s, seed=s['seed'] + 99, n=s['n'] + 5), FIELDS) for s in o['cats']]

        def other(*args, **kw):
            x = G.make_corr2(o['type'], o['kw'])
            x.process(*args, **kw)
            return x
        if o['type'] == 'NN':
            more['rr'] = other(*[rc[j] for j in o['use']])
            if o['est'] in ('dr', 'both'):
                more['dr'] = other(a[0], rc[o['use'][-1]])
            if o['est'] == 'both' and len(o['use']) > 1:
                more['rd'] = other(rc[0], a[-1])
            c.calculateXi(**more)
        elif o['type'] == 'NNN':
            more['rrr'] = other(rc[0])
            if o['est'] == 'full':
                more['drr'] = other(a[0], rc[0], ordered=False)
                more['rdd'] = other(rc[0], a[0], ordered=False)
            c.calculateZeta(**more)
        else:
            more[o['est']] = other(rc[0], a[1])
            c.calculateXi(**more)
    return c, more


# ---------------------------------------------------------------------------------- writing
def write_spec(r, o):
    w = {'fmt': r.choice(FMTS + ['dat', 'fits', 'hdf5']), 'name': 'out',
         'dir': r.choice(['', '', 'sub', 'sub/deep']), 'prior': r.choice([0, 0, 1])}
    if o['what'] == 'stat':
        w['fn'] = {'NG': 'writeNMap', 'NGnorm': 'writeNorm', 'GG': 'writeMapSq',
                   'GGG': 'writeMap3'}[o['type']]
    elif o['what'] == 'cat':
        w['fn'] = 'write'
        if o['npatch'] > 1 and r.random() < 0.3:
            w['fn'] = 'write_patch_centers'
            w['fmt'] = r.choice(['dat', 'fits', 'hdf5'])
    else:
        w['fn'] = 'write'
        if r.random() < 0.6:
            w['patch_results'] = 1
        if r.random() < 0.3:
            w['cov'] = 1
        # Without the randoms, NX.write goes back to the uncompensated correlation, as documented.
        if o.get('est') and (r.random() < 0.5 or o['type'] not in ('NN', 'NNN')):
            w['pass_r'] = 1
    if r.random() < 0.3 and w['fn'] != 'write_patch_centers':
        w['precision'] = r.choice([3, 8, 16])
    return w


def path_of(w, base='.'):
    return os.path.join(base, w['dir'], w['name'] + '.' + w['fmt'].split('+')[0])


def args_of(o, w, more, base='.'):
    kw = {}
    if '+' in w['fmt']:
        kw['file_type'] = w['fmt'].split('+')[1]
    if w.get('precision'):
        kw['precision'] = w['precision']
    if w.get('patch_results'):
        kw['write_patch_results'] = True
    if w.get('cov'):
        kw['write_cov'] = True
    if w['fn'] == 'writeNorm' or w.get('pass_r'):
        kw.update(more)
    return (path_of(w, base),), kw


def call_writer(obj, o, w, more, base='.'):
    a, kw = args_of(o, w, more, base)
    return getattr(obj, w['fn'])(*a, **kw)


def prepare(w, base, data=b'older contents\n' * 400):
    """The state of the directory before writing."""
    p = path_of(w, base)
    if w['prior']:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
    else:
        os.makedirs(base, exist_ok=True)


# ---------------------------------------------------------------------------------- file contents
def kind_of(w):
    f = w['fmt']
    if '+' in f:
        return {'FITS': 'fits', 'HDF': 'hdf5', 'ASCII': 'dat'}[f.split('+')[1]]
    return 'fits' if f.startswith('fits') else f


def contents(path, kind):
    """Everything in a file, read with the plain libraries, as nested plain data."""
    if kind == 'dat':
        with open(path, 'rb') as f:
            return f.read()
    if kind == 'fits':
        import fitsio
        out = []
        with fitsio.FITS(path) as f:
            for h in f:
                hd = [(x['name'], x['value']) for x in h.read_header().records()
                      if x['name'] not in HEADY]
                d = h.read() if h.has_data() else None
                out.append((h.get_extname(), sorted(map(repr, hd)),
                            None if d is None else (str(d.dtype), d.shape, d.tobytes())))
        return out
    import h5py
    out = {}

    def visit(name, x):
        e = {'attrs': sorted((k, repr(v)) for k, v in x.attrs.items())}
        if isinstance(x, h5py.Dataset):
            d = x[...]
            e['data'] = (str(d.dtype), d.shape, d.tobytes())
        out[name] = e
    with h5py.File(path, 'r') as f:
        visit('/', f)
        f.visititems(visit)
    return out


def try_contents(path, kind):
    try:
        return contents(path, kind)
    except Exception as e:
        return 'unreadable: %s: %s' % (type(e).__name__, str(e)[:120])


def shrink_obj(o):
    for k in range(len(o['cats'])):
        for t in G.shrink_cat(o['cats'][k]):
            if t['n'] >= 4:
                yield with_(o, cats=o['cats'][:k] + [t] + o['cats'][k + 1:])
    kw = o.get('kw', {})
    for k in ('nbins', 'nubins', 'nvbins', 'nphi_bins', 'max_n'):
        if kw.get(k, 1) > 1:
            yield with_(o, kw=with_(kw, **{k: 1}))
    for k in ('split_method', 'brute', 'min_rpar', 'max_rpar', 'angle_slop'):
        if k in kw:
            yield with_(o, kw=with_(kw, **{k: DROP}))
    for k in ('est', 'var', 'kz'):
        if o.get(k):
            yield with_(o, **{k: DROP})
    if o.get('type') in G.TYPES2 and o['type'] != 'KK':
        yield with_(o, type='KK', est=DROP)


def shrink_write(w):
    for k in ('precision', 'patch_results', 'cov'):
        if w.get(k):
            yield with_(w, **{k: DROP})
    if w['dir']:
        yield with_(w, dir='')
    if w['prior']:
        yield with_(w, prior=0)
    if '+' in w['fmt'] or w['fmt'] == 'fits.gz+FITS':
        for f in ('dat', 'fits', 'hdf5'):
            yield with_(w, fmt=f)
