"""Generators of catalogs and correlation configurations, as small JSON specs, and their builders."""
import numpy as np

TYPES2 = ['NN', 'NK', 'KK', 'NZ', 'KZ', 'ZZ', 'NV', 'KV', 'VV', 'NG', 'KG', 'GG',
          'NT', 'KT', 'TT', 'NQ', 'KQ', 'QQ']
TYPES3 = ['NNN', 'KKK', 'GGG']


# ---------------------------------------------------------------------------------- catalogs
def cat_spec(r, coords, nmax=150, nmin=1, w=None, dist=None, box=10.):
    n = r.choice([1, 2, 3, 5, r.randint(4, min(30, nmax)), r.randint(min(10, nmax), nmax), r.randint(min(10, nmax), nmax),
                  r.randint(min(10, nmax), nmax), nmax])
    n = max(n, nmin)
    s = {'coords': coords, 'n': n, 'seed': r.randrange(1 << 30), 'box': box,
         'dist': dist or r.choice(['uniform', 'uniform', 'uniform', 'cluster', 'cluster',
                                   'lattice', 'dups', 'line'])}
    if w is None:
        w = r.choice([None, None, 'uniform', 'uniform', 'zeros', 'wide'])
    if w:
        s['w'] = w
    return s


def points(spec):
    """The columns of a catalog spec, as a dict of arrays."""
    n = spec['n']
    rng = np.random.RandomState(spec['seed'])
    dim = 3 if spec['coords'] in ('3d', 'sphere3d') else 2
    d = spec['dist']
    u = rng.uniform(0, 1, (n, dim))
    if d == 'cluster':
        nc = max(1, n // 12)
        c = rng.uniform(0, 1, (nc, dim))
        u = c[rng.randint(0, nc, n)] + 0.02 * rng.normal(size=(n, dim))
    elif d == 'lattice':
        m = int(np.ceil(n ** (1. / dim)))
        g = np.stack(np.meshgrid(*[np.arange(m)] * dim, indexing='ij'), -1).reshape(-1, dim)
        u = (g[rng.permutation(len(g))[:n]] + 0.5) / m
    elif d == 'dups':
        k = max(1, n // 3)
        u = u[:k][rng.randint(0, k, n)]
    elif d == 'line':
        u = u[:, :1] * np.ones((1, dim)) + 1e-3 * rng.normal(size=(n, dim))
    if spec.get('jitter'):        # too small to matter, large against rounding: finds ties
        jit = np.random.RandomState(spec['jitter'])
        u = u + jit.choice([1e-10, 1e-13]) * jit.normal(size=u.shape)
    box = spec['box']
    out = {}
    co = spec['coords']
    if co == 'flat':
        out['x'], out['y'] = (u * box).T
    elif co == '3d':
        off = spec.get('offset', 0.)
        out['x'], out['y'], out['z'] = (u * box + off).T
    else:
        if spec.get('fullsky'):
            out['ra'] = (u[:, 0] * 360.) % 360.
            out['dec'] = np.degrees(np.arcsin(np.clip(2 * (u[:, 1] % 1.) - 1, -1, 1)))
        else:
            out['ra'] = u[:, 0] * box + 30.
            out['dec'] = np.clip(u[:, 1] * box - 0.5 * box, -89, 89)
        if co == 'sphere3d':
            out['r'] = 50. + 50. * u[:, 2]
    wk = spec.get('w')
    if wk:
        w = rng.uniform(0.5, 2., n)
        if wk == 'zeros':
            w[rng.uniform(size=n) < 0.25] = 0.
            if not w.any():
                w[0] = 1.
        elif wk == 'wide':
            w = 10. ** rng.uniform(-3, 3, n)
        out['w'] = w
    cols = rng.normal(size=(11, n))
    for i, c in enumerate(('k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2')):
        out[c] = cols[i] * (0.3 if c[0] == 'g' else 1.) + (0.5 if c == 'k' else 0.)
    return out


FIELD_COLS = {'N': [], 'K': ['k'], 'Z': ['z1', 'z2'], 'V': ['v1', 'v2'], 'G': ['g1', 'g2'],
              'T': ['t1', 't2'], 'Q': ['q1', 'q2']}
ALL_COLS = ['k', 'z1', 'z2', 'v1', 'v2', 'g1', 'g2', 't1', 't2', 'q1', 'q2']


def cat_kwargs(spec, fields='NKZVGTQ'):
    cols = points(spec)
    keep = set(sum((FIELD_COLS[f] for f in fields), []))
    kw = {k: v for k, v in cols.items() if k not in ALL_COLS or k in keep}
    if spec['coords'] in ('sphere', 'sphere3d'):
        kw['ra_units'] = kw['dec_units'] = 'deg'
    if 'npatch' in spec:
        kw['patch'] = patch_labels(spec, cols)
    return kw


def patch_labels(spec, cols=None):
    """Explicit patch numbers for a spec with 'npatch' (stripes, random or blocks; some may be
    empty; a 'patch_n' beyond the number of objects leaves patches empty)."""
    cols = cols or points(spec)
    n = spec['n']
    rng = np.random.RandomState(spec['seed'] + 17)
    npatch = spec['npatch']
    how = spec.get('patch_how', 'stripes')
    if how == 'random':
        p = rng.randint(0, npatch, n)
    elif how == 'one':
        p = np.zeros(n, dtype=int)
        p[rng.randint(0, n)] = npatch - 1
    else:
        a = cols['x'] if 'x' in cols else cols['ra']
        order = np.argsort(a, kind='stable')
        p = np.zeros(n, dtype=int)
        p[order] = np.arange(n) * npatch // max(n, 1)
        if how == 'blocks':
            b = cols['y'] if 'y' in cols else cols['dec']
            k = max(1, int(np.sqrt(npatch)))
            order2 = np.argsort(b, kind='stable')
            q = np.zeros(n, dtype=int)
            q[order2] = np.arange(n) * k // max(n, 1)
            p = (p * 0 + (np.minimum(p * k // npatch, k - 1) * k + q)) % npatch
    if spec.get('patch_gap') is not None and npatch > 1:
        g = spec['patch_gap'] % npatch
        p = np.where(p == g, (g + 1) % npatch, p)
    return p.astype(int)


def make_cat(spec, fields='NKZVGTQ', **more):
    import treecorr
    kw = cat_kwargs(spec, fields)
    kw.update(more)
    return treecorr.Catalog(**kw)


# ---------------------------------------------------------------------------------- correlations
def _sep_range(r, coords, spec1, unit_len):
    lo = r.choice([0.005, 0.02, 0.05, 0.1]) * unit_len
    hi = r.choice([0.3, 0.6, 1., 1.8]) * unit_len
    return lo, hi


def corr2_config(r, coords, box, auto, exact=None, allow_random_split=False):
    """Keyword arguments for a two-point correlation, valid for the coordinate system."""
    kw = {}
    if coords == 'flat':
        metric = r.choice(['Euclidean', 'Euclidean', 'Euclidean', 'Periodic'])
        bt = r.choice(['Log', 'Log', 'Linear', 'TwoD'])
    elif coords == 'sphere':
        metric = r.choice(['Euclidean', 'Euclidean', 'Arc'])
        bt = r.choice(['Log', 'Log', 'Linear'])
    else:
        metric = r.choice(['Euclidean', 'Euclidean', 'Rperp', 'OldRperp', 'Rlens', 'Arc']
                          + (['Periodic'] if coords == '3d' else []))
        if metric == 'Rlens' and auto:
            metric = 'Euclidean'
        bt = r.choice(['Log', 'Log', 'Linear'])
    lo, hi = _sep_range(r, coords, None, box)
    nb = r.choice([1, 3, 6, 10, 17])
    if metric == 'Periodic':
        kw['period'] = box
        hi = min(hi, 0.49 * box)
    if coords == 'sphere' or (metric == 'Arc'):
        kw['sep_units'] = 'deg'
        if coords != 'sphere':
            lo, hi = 0.5, 60.
    if coords == 'sphere3d' and metric != 'Arc':
        lo, hi = r.choice([1., 5.]), r.choice([30., 80., 150.])
    if bt == 'TwoD':
        kw.update(bin_type='TwoD', max_sep=hi, nbins=r.choice([3, 5, 8]))
    elif bt == 'Linear':
        kw.update(bin_type='Linear', min_sep=r.choice([0., lo]), max_sep=hi, nbins=nb)
    else:
        kw.update(min_sep=lo, max_sep=hi, nbins=nb)
    if metric != 'Euclidean':
        kw['metric'] = metric
    if coords in ('3d', 'sphere3d') and metric not in ('Arc', 'Periodic') and r.random() < 0.3:
        kw['min_rpar'] = r.choice([-20., -5., 0.])
        kw['max_rpar'] = kw['min_rpar'] + r.choice([5., 15., 40.])
    e = r.random() if exact is None else (0. if exact else 1.)
    if e < 0.5:
        kw['bin_slop'] = 0
        if r.random() < 0.5:
            kw['angle_slop'] = 0
    else:
        kw['bin_slop'] = r.choice([0.1, 0.5, 1., 2.])
    if r.random() < 0.15:
        kw['brute'] = r.choice([True, True, 1, 2])
    if r.random() < 0.5:
        kw['split_method'] = r.choice(['mean', 'median', 'middle'] +
                                      (['random'] if allow_random_split else []))
    if r.random() < 0.5:
        kw['min_top'] = r.choice([0, 0, 1, 2, 3, 4, 5, 6])
        kw['max_top'] = max(kw['min_top'], r.choice([0, 1, 3, 6, 10]))
    return kw


def make_corr2(ctype, kw, **more):
    import treecorr
    a = dict(kw)
    a.update(more)
    return getattr(treecorr, ctype + 'Correlation')(**a)


def corr3_config(r, coords, box, small=False):
    kw = {}
    bt = r.choice(['LogRUV', 'LogSAS', 'LogMultipole'])
    kw['bin_type'] = bt
    lo = r.choice([0.02, 0.1]) * box
    hi = r.choice([0.4, 0.8, 1.3]) * box
    nb = r.choice([1, 2, 4] if small else [1, 3, 5])
    metric = 'Euclidean'
    if coords == 'flat' and r.random() < 0.15:
        metric = 'Periodic'
        kw['period'] = box
        hi = min(hi, 0.4 * box)
    elif coords == 'sphere':
        kw['sep_units'] = 'deg'
        if r.random() < 0.4:
            metric = 'Arc'
    elif coords == 'sphere3d':
        lo, hi = 3., r.choice([30., 90.])
        if r.random() < 0.3:
            metric = 'Arc'
            kw['sep_units'] = 'deg'
            lo, hi = 1., 40.
    if metric != 'Euclidean':
        kw['metric'] = metric
    kw.update(min_sep=lo, max_sep=hi, nbins=nb)
    if bt == 'LogRUV':
        kw.update(nubins=r.choice([1, 3, 5]), nvbins=r.choice([1, 3, 5]))
        if r.random() < 0.3:
            kw.update(min_u=0.2, max_u=0.9, min_v=0.1, max_v=0.8)
    elif bt == 'LogSAS':
        kw.update(nphi_bins=r.choice([1, 4, 8]))
        if r.random() < 0.2:
            kw.update(min_phi=0.3, max_phi=2.5)
    else:
        kw.update(max_n=r.choice([0, 1, 4, 8]))
    e = r.random()
    if e < 0.6:
        kw['bin_slop'] = 0
        if r.random() < 0.5:
            kw['angle_slop'] = 0
    else:
        kw['bin_slop'] = r.choice([0.1, 0.5, 1.])
    if r.random() < 0.15:
        kw['brute'] = True
    if r.random() < 0.4:
        kw['split_method'] = r.choice(['mean', 'median', 'middle'])
    if r.random() < 0.5:
        kw['min_top'] = r.choice([0, 0, 1, 2, 3, 4, 5])
        kw['max_top'] = max(kw['min_top'], r.choice([0, 1, 3, 6, 10]))
    return kw


# ---------------------------------------------------------------------------------- observation
EXACT = {'npairs', 'ntri'}
ATTRS2 = ['npairs', 'weight', 'meanr', 'meanlogr', 'xi', 'xi_im', 'raw_xi', 'raw_xi_im',
          'xip', 'xip_im', 'xim', 'xim_im', 'varxi', 'varxip', 'varxim', 'raw_varxi', 'tot',
          'cov']
ATTRS3 = ['ntri', 'weight', 'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3',
          'meanu', 'meanv', 'meanphi', 'zeta', 'gam0', 'gam1', 'gam2', 'gam3', 'varzeta',
          'vargam0', 'vargam1', 'vargam2', 'vargam3', 'tot', 'weightr', 'weighti', 'cov']


def snapshot(c, attrs=None, skip=()):
    """Public numbers of a correlation object, copied."""
    out = {}
    if attrs is None:
        attrs = ATTRS3 if hasattr(c, 'ntri') else ATTRS2
        if hasattr(c, 'ntri') and c.bin_type != 'LogRUV':      # no meaning in other binnings
            attrs = [a for a in attrs if a not in ('meanu', 'meanv')]
    for a in attrs:
        if a in skip:
            continue
        try:
            v = getattr(c, a)
        except (AttributeError, TypeError, RuntimeError, ValueError, AssertionError):
            continue
        if v is None or callable(v):
            continue
        out[a] = np.array(v, copy=True)
    return out


def raw_snapshot(c):
    return snapshot(c, skip=('cov',))


def diff_arrays(name, a, b, rtol=1e-9, atol=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return '%s: shape %s, expected %s' % (name, a.shape, b.shape)
    if a.size == 0:
        return None
    if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
        return None if (a == b).all() else '%s: %r, expected %r' % (name, a, b)
    fin = np.isfinite(a) & np.isfinite(b)
    if name.split('.')[-1] in EXACT:
        # counts: integers, or (multipole sums) reals carrying rounding only
        with np.errstate(invalid='ignore'):
            bad = ~((a == b) | (np.abs(a - b) <= 1e-5 + 1e-10 * np.abs(b)) |
                    (np.isnan(a) & np.isnan(b)))
    else:
        if atol is None:
            sc = np.abs(b[fin]).max() if fin.any() else 0.
            atol = 1e-9 * max(sc, 1e-30)
        with np.errstate(invalid='ignore', over='ignore'):
            bad = ~((np.abs(a - b) <= atol + rtol * np.abs(b)) |
                    (~fin & ((a == b) | (np.isnan(a) & np.isnan(b)))))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(np.atleast_1d(bad))[0])
        av, bv = np.atleast_1d(a)[i], np.atleast_1d(b)[i]
        return '%s%s = %r, expected %r (%d of %d entries differ)' % (
            name, list(i), av, bv, int(bad.sum()), a.size)
    return None


def significant(b, wfloor):
    """Which bins have a weight that is more than the rounding of a cancelled sum."""
    if wfloor is None or 'weight' not in b:
        return None
    w = np.abs(np.asarray(b['weight']))
    if not w.size:
        return None
    if np.iscomplexobj(b['weight']) and w.ndim == 3:      # multipoles: n = 0 is the normalisation
        w = np.repeat(w[:, :, w.shape[2] // 2][:, :, None], w.shape[2], axis=2)
    return w > max(1e-8 * w.max(), wfloor)


def _scale(k, b):
    """The size of the values that k is one component of (its own may be rounding only)."""
    fam = next((f for f in ('weight', 'xi', 'zeta', 'gam') if k.startswith(f)), None)
    s = 0.
    for j in b:
        if j == k or (fam and j.startswith(fam)):
            v = np.asarray(b[j])
            if v.dtype.kind in 'fciu':
                v = v[np.isfinite(v)]
                s = max(s, np.abs(v).max(initial=0.))
    return s


def diff_snap(a, b, rtol=1e-9, floor=1e-10, skip=(), wfloor=None):
    """First difference between two snapshots (b is the expected one), or None.

    With wfloor, quotients are compared only in bins whose weight exceeds it (in the multipole
    algorithm the weight of an empty bin is the rounding error of a cancelled sum)."""
    mask = significant(b, wfloor)
    ka, kb = set(a) - set(skip), set(b) - set(skip)
    if ka != kb:
        return 'attributes differ: only here %s, only expected %s' % (sorted(ka - kb),
                                                                      sorted(kb - ka))
    order = [k for k in ATTRS2 + ATTRS3 if k in kb] + sorted(kb - set(ATTRS2 + ATTRS3))
    for k in dict.fromkeys(order):
        b_ = np.asarray(b[k])
        fin = np.isfinite(b_) if b_.dtype.kind in 'fc' else np.ones(b_.shape, bool)
        a_ = np.asarray(a[k])
        if mask is not None and k not in EXACT and b_.shape == mask.shape == a_.shape:
            if k == 'weight':
                d = diff_arrays(k, a_, b_, rtol, max(wfloor, 1e-10 * np.abs(b_[fin]).max()))
                if d:
                    return d
                continue
            m = mask
            if k.startswith('var'):     # shot noise: divided by this very weight, multipole or not
                w = np.abs(np.asarray(b['weight']))
                m = m & (w > max(1e-6 * w.max(initial=0.), wfloor))
            a_, b_, fin = np.where(m, a_, 0), np.where(m, b_, 0), fin | ~m
        sc = np.abs(b_[fin]).max() if fin.any() and b_.dtype.kind in 'fciu' else 0.
        if sc and k.startswith(('weight', 'xi', 'zeta', 'gam')):
            sc = _scale(k, b) if mask is None or k.startswith('weight') else max(sc, 1e-4)
        d = diff_arrays(k, a_, b_, rtol, floor * max(sc, 1e-12 if k.startswith('var') else 1e-5))
        if d:
            return d
    return None


# ---------------------------------------------------------------------------------- shrinking
def chunks_removed(lst, minlen=0):
    """Candidate lists with a chunk removed, big chunks first (one round of ddmin)."""
    n = len(lst)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            c = lst[:a] + lst[a + size:]
            if len(c) >= minlen and len(c) < n:
                yield c
        if size == 1:
            break
        size = (size + 1) // 2


def shrink_int(v, lo):
    seen = set()
    for c in (lo, lo + 1, v // 4, v // 2, v - max(1, v // 4), v - 1):
        if lo <= c < v and c not in seen:
            seen.add(c)
            yield c


def with_(d, /, **kw):
    e = dict(d)
    for k, v in kw.items():
        if v is DROP:
            e.pop(k, None)
        else:
            e[k] = v
    return e


class _Drop:
    pass


DROP = _Drop()


def shrink_cat(s):
    for n in shrink_int(s['n'], 1):
        yield with_(s, n=n)
    if s.get('w'):
        yield with_(s, w=DROP)
    if s['dist'] != 'uniform':
        yield with_(s, dist='uniform')


def digest(*things):
    import hashlib
    h = hashlib.sha256()

    def add(t):
        if isinstance(t, dict):
            for k in sorted(t):
                h.update(str(k).encode())
                add(t[k])
        elif isinstance(t, (list, tuple)):
            h.update(b'[')
            for x in t:
                add(x)
        elif isinstance(t, np.ndarray):
            h.update(str(t.shape).encode())
            h.update(np.ascontiguousarray(t).tobytes() if t.dtype.kind != 'O'
                     else repr(t.tolist()).encode())
        else:
            h.update(repr(t).encode())
    for t in things:
        add(t)
    return h.hexdigest()[:16]
