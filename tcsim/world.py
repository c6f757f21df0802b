"""A few catalogs and correlation objects and everything that can be done with them, for the checks
that follow long histories (C13, C14)."""
import os

import numpy as np

from . import cats as K, gen as G, outputs as O, ranks as R
from .gen import with_

REJ = R.REJECT + (AssertionError,)
CAT_OPS = ('get', 'snap', 'load', 'unload', 'clear', 'resize', 'field', 'patches', 'centers',
           'var', 'combine', 'write', 'eq', 'repr', 'process')


# ---------------------------------------------------------------------------------- generation
def gen_cats(r, nmax=24, files=0.4):
    """Specs of two catalogs with the same columns and patches; {'how': 'file'|'mem'} each."""
    f = K.file_spec(r, nmax=nmax, fields=r.choice([None, 'K', 'KG', 'G', 'NKZVGTQ', '']))
    for k in ('single', 'num', 'rows'):
        f.pop(k, None)
    if f.get('patch') == 'kmeans':
        f['patch'] = 'centers'
    if f['fmt'] == 'ascii':
        f['nopandas'] = 1
    if f['cat']['coords'] in ('flat', '3d'):
        f.pop('units', None)
    out = []
    file = r.random() < files
    for j in range(2):
        g = dict(f)
        if j:
            g['cat'] = with_(f['cat'], seed=r.randrange(1 << 30))
            if f.get('patch') == 'centers':
                g['cen'] = dict(f)
        g['how'] = 'file' if file else 'mem'
        if file and f.get('patch') and j == 0 and r.random() < 0.4:
            g['dir'] = 1
        out.append(g)
    return out


def gen_corr(r, cats, three=0.25):
    f = cats[0]
    co, box = f['cat']['coords'], f['cat']['box']
    fl = 'N' + f['fields']
    o = {}
    if r.random() < three:
        kinds = [t for t in G.TYPES3 if all(x in fl for x in t)]
        t = r.choice(kinds)
        o['kw'] = G.corr3_config(r, co, box, small=True)
        if len(set(t)) == 1:
            o['use'] = r.choice([[0], [0], [0, 1]])
        else:
            o['use'] = r.choice([[0, 1], [0, 1, 0]])
        if t == 'NNN' and o['use'] == [0]:
            o['est'] = r.choice([None, 'rrr', 'full'])
    else:
        kinds = [t for t in G.TYPES2 if all(x in fl for x in t)]
        t = r.choice(kinds + ['NN'] * 2)
        auto = t[0] == t[1]
        o['kw'] = G.corr2_config(r, co, box, auto, exact=True)
        o['use'] = r.choice([[0], [0, 1]]) if auto else [0, 1]
        if t == 'NN':
            o['est'] = r.choice([None, 'rr', 'dr', 'both'])
        elif t[0] == 'N' and r.random() < 0.4:
            o['est'] = 'r' + t[1].lower()
    o['type'] = t
    if f.get('patch') and r.random() < 0.4:
        o['kw']['var_method'] = r.choice(['jackknife', 'sample'])
    return o


# ---------------------------------------------------------------------------------- the world
class Obj:
    """One correlation with its companions (randoms)."""

    def __init__(self, o):
        self.o = o
        kw = o['kw']
        if o.get('rng') is not None:
            kw = dict(kw, rng=np.random.default_rng(o['rng']))
        self.c = {'main': G.make_corr2(o['type'], kw)}
        for n in self.need():
            self.c[n] = G.make_corr2(o['type'], kw)

    def need(self):
        e, t, two = self.o.get('est'), self.o['type'], len(self.o['use']) > 1
        if not e:
            return []
        if t == 'NN':
            return ['rr'] + (['dr'] if e in ('dr', 'both') else []) + \
                (['rd'] if e == 'both' and two else [])
        if t == 'NNN':
            return ['rrr'] + (['drr', 'rdd'] if e == 'full' else [])
        return [e]

    def args(self, n, cats, rands, swap=False):
        """The catalogs of companion n (swap: the other catalogs)."""
        u = [1 - j if swap else j for j in self.o['use']]
        d = [cats[j] for j in u]
        z = [rands[j] for j in u] if rands else None
        return {'main': lambda: d, 'rr': lambda: z, 'dr': lambda: [d[0], z[-1]],
                'rd': lambda: [z[0], d[-1]], 'rrr': lambda: z[:1], 'drr': lambda: [d[0], z[0]],
                'rdd': lambda: [z[0], d[0]]}.get(n, lambda: [z[0], d[-1]])()


class World:
    def __init__(self, c, d):
        self.d = d
        os.makedirs(d, exist_ok=True)
        self.cats = [self.open(f, i) for i, f in enumerate(c['cats'])]
        self.rands = []
        if any(o.get('est') for o in c['corrs']):
            self.rands = [self.open(self.rand_spec(f), i + 2) for i, f in enumerate(c['cats'])]
        self.corrs = [Obj(o) for o in c['corrs']]

    @staticmethod
    def rand_spec(f):
        g = dict(f)
        g['cat'] = with_(f['cat'], seed=f['cat']['seed'] + 99)
        if f.get('patch') == 'centers' and 'cen' not in f:
            g['cen'] = {k: v for k, v in f.items()}
        g.pop('dir', None)
        return g

    def open(self, f, i):
        if f['how'] == 'mem':
            return K.twin(f)
        n = os.path.join(self.d, 'cat%d%s' % (i, K.suffix(f)))
        K.write(f, n)
        more = {}
        if f.get('dir'):
            more['save_patch_dir'] = os.path.join(self.d, 'sp')
            os.makedirs(more['save_patch_dir'], exist_ok=True)
        return K.open_cat(f, n, **more)


def run_proc(corr, args, op, name):
    kw = {'low_mem': bool(op.get('low'))}
    if hasattr(corr, 'ntri') and len(args) > 1:
        kw['ordered'] = name == 'main' and bool(op.get('ordered'))
    corr.process(*args, **kw)


def obs_corr(x, skip=('cov',)):
    s = R.snap_all(x, skip=skip)
    for k in list(s['results']):
        v = s['results'][k]
        if not np.any(v.get('npairs')) and not np.any(v.get('weight')) and not np.any(v.get('tot')):
            del s['results'][k]
    return s


def do(w, op):
    """Perform one use in world w; returns what was observed."""
    import treecorr
    a = op['op']
    if 'on' in op:
        from checks import c11
        k = op['on'] % len(w.cats)
        return ('cat', c11.do(op, w.cats[k], w.cats[1 - k],
                              os.path.join(w.d, 'w')))
    if a == 'multi':
        cs = [w.corrs[k].c['main'] for k in op['ks']]
        return ('arr', [np.array(treecorr.estimate_multi_cov(cs, op['m']))])
    x = w.corrs[op['k']]
    main = x.c['main']
    three = hasattr(main, 'ntri')
    if a == 'proc':
        for n, y in x.c.items():
            run_proc(y, x.args(n, w.cats, w.rands, op.get('swap')), op, n)
        return ('corr', [obs_corr(y) for y in x.c.values()])
    if a == 'obs':
        return ('corr', [obs_corr(y) for y in x.c.values()])
    if a == 'part':             # one of the low-level steps
        arg = x.args('main', w.cats, w.rands, op.get('swap'))
        if op['how'] == 'clear':
            main.clear()
        elif op['how'] == 'more':
            main.process(*arg, initialize=False, finalize=bool(op.get('fin')))
        elif op['how'] == 'first':
            main.process(*arg, initialize=True, finalize=bool(op.get('fin')))
        elif op['how'] == 'auto':
            main.process_auto(arg[0])
        elif op['how'] == 'cross':
            main.process_cross(*arg)
        elif op['how'] == 'final':
            var = [{'N': None, 'K': 'k', 'G': 'g', 'V': 'v', 'T': 't', 'Q': 'q', 'Z': 'z'}[t]
                   for t in x.o['type']]
            main.finalize(*[0.3 + 0.1 * i for i, v in enumerate(var) if v])
        elif op['how'] == 'add':
            y = main.copy()
            main += y
        return ('corr', [obs_corr(main)])
    if a == 'calc':
        more = {n: y for n, y in x.c.items() if n != 'main'}
        fn = main.calculateZeta if three else main.calculateXi
        v = fn(**more)
        return ('arr', [np.array(z) for z in (v if isinstance(v, tuple) else (v,))])
    if a == 'cov':
        if op.get('attr'):
            return ('arr', [np.array(main.cov)])
        return ('arr', [np.array(main.estimate_cov(op['m']))])
    if a == 'wr':
        n = os.path.join(w.d, 'out%d.%s' % (op['k'], op['ext']))
        kw = {'write_patch_results': True} if op.get('wpr') else {}
        if op.get('wcov'):
            kw['write_cov'] = True
        main.write(n, **kw)
        return ('file', O.contents(n, op['ext']))
    if a == 'rd':
        n = os.path.join(w.d, 'out%d.%s' % (op['k'], op['ext']))
        y = main.__class__.from_file(n)
        return ('corr', [obs_corr(y, skip=() if op.get('wcov') else ('cov',))])
    if a == 'ro':
        n = os.path.join(w.d, 'out%d.%s' % (op['k'], op['ext']))
        main.read(n)
        return ('corr', [obs_corr(main, skip=() if op.get('wcov') else ('cov',))])
    raise RuntimeError(a)


def diff(got, want, op, rtol=1e-9, loose=False):
    """First difference of two observations, or None.  loose: the objects in a tree may have been
    in another order, so that sums (of single precision weights) are rounded differently."""
    if got[0] != want[0]:
        return '%s instead of %s' % (got[0], want[0])
    kind, a, b = got[0], got[1], want[1]
    if kind == 'cat':
        from checks import c11
        if loose and op['op'] == 'field':
            # The top cells depend on the order of objects at one place.
            a, b = (a[1:], b[1:]) if not op['min_size'] else (a[:0], b[:0])
        return c11.diff_obs(a, b, 0., op)
    if kind == 'file':
        if a != b and not loose:
            if isinstance(a, str):
                return a
            return 'file contents differ'
        return None
    if len(a) != len(b):
        return '%d values, expected %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if kind == 'corr':
            d = R.diff_all(x, y, rtol=1e-5, wf=1e-5, floor=1e-6) if loose else \
                R.diff_all(x, y, rtol=rtol)
            if d:
                return 'object %d, %s: %s' % ((i,) + tuple(d))
        else:
            if loose:
                if not np.allclose(x, y, rtol=1e-3, atol=1e-6, equal_nan=True):
                    return 'value %d: %s, expected %s' % (i, x, y)
                continue
            d = G.diff_arrays('value %d' % i, x, y, rtol=rtol)
            if d:
                return d
    return None
