"""C12: seeded randomness is reproducible."""
import os
import shutil

import numpy as np
from tcsim import gen as G, system
from tcsim.gen import with_, DROP

PROPERTY = 'C12'
QUICK = {'runs': 6000, 'wall': 40, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws a catalog (with patches or not, in memory or in files), a generator seed '
        'and kind, a randomised operation (pair sampling, k-means, a correlation over randomly split trees, bootstrap covariances), a thread '
        'schedule, and a history of unrelated random operations put in front of and between the '
        'steps of it. Non-trivial: unrelated randomness was used, or a region was preempted.')
STATES = 'distinct pairs of thread interleaving and history of unrelated random operations'
REAL = ['TreeCorr C++ sources (all of src/*.cpp, compiled from /repo)', 'treecorr Python package',
        'C library rand()', 'numpy generators']
STUB = ['OpenMP runtime (libgomp): replaced by the simulator']
ASSUMPTIONS = ['nothing but TreeCorr uses the C library generator while a seeded operation runs']


def setup():
    system.start()


NOISE = ['np_seed', 'np_use', 'py_seed', 'c_field', 'c_kmeans', 'c_kmeans', 'c_sample', 'c_rand',
         'corr_rng']


def generate(r, i, tier):
    op = r.choice(['sample', 'sample', 'sample', 'kmeans', 'npatch', 'split', 'split', 'split',
                   'split3', 'boot'])
    coords = r.choice(['flat', 'flat', 'sphere', '3d'])
    nmax = r.choice([12, 40, 120, 250])
    c = {'op': op, 'cat': G.cat_spec(r, coords, nmax, nmin=2), 'seed': r.randrange(1 << 30),
         'rkind': r.choice(['state', 'gen']), 'nt': r.choice([1, 2, 3, 4, 8]),
         'sched': system.omp.random_schedule(r),
         'noise': [[r.randrange(4), r.choice(NOISE), r.randrange(1 << 20)]
                   for _ in range(r.choice([0, 1, 2, 4]))]}
    # No two objects at one place except by design, and no exact ties of separations.
    if c['cat']['dist'] == 'lattice':
        c['cat']['dist'] = 'uniform'
    if op == 'sample':
        c['type'] = r.choice(G.TYPES2)
        c['same'] = int(c['type'][0] == c['type'][1] and r.random() < 0.4)
        if not c['same']:
            c['cat2'] = G.cat_spec(r, coords, nmax, nmin=1, dist='uniform')
        c['kw'] = dict(min_sep=0.1, max_sep=5., nbins=r.choice([1, 4, 10]), bin_slop=0)
        c['kw']['bin_type'] = r.choice(['Log', 'Log', 'Linear'])
        if r.random() < 0.6:           # lets large cells count as one separation
            c['kw']['angle_slop'] = r.choice([0.3, 1., 3.])
        if coords == 'sphere':
            c['kw']['sep_units'] = 'deg'
            c['kw']['metric'] = r.choice(['Euclidean', 'Arc'])
        if r.random() < 0.4:
            c['kw']['brute'] = True
        if r.random() < 0.4:
            c['kw']['split_method'] = r.choice(['median', 'middle', 'random'])
        if r.random() < 0.3:
            c['kw']['min_top'] = r.choice([0, 5])
        if r.random() < 0.4:
            c['kw']['min_top'] = 0
            c['kw']['max_top'] = r.choice([0, 1, 2, 4])
        c['ns'] = [r.choice([1, 3, 10, 30, 30, 100, 100, 1000]) for _ in range(r.choice([1, 1, 2]))]
        lo = r.choice([0.01, 0.1, 0.5, 2.])
        c['range'] = [lo, lo * r.choice([1.5, 4., 20., 200., 1000.])]
        if r.random() < 0.4:           # a few clumps: few pairs of cells that hold many pairs each
            c['cat'] = G.cat_spec(r, coords, r.choice([12, 24, 36]), nmin=6, dist='cluster')
            if not c['same']:
                c['cat2'] = G.cat_spec(r, coords, r.choice([12, 24, 36]), nmin=6, dist='cluster')
            c['kw'].update(angle_slop=r.choice([1., 3.]), min_top=0, max_top=r.choice([0, 1, 3]))
            c['kw'].pop('brute', None)
            c['range'] = [0.02, 500.]
            c['ns'] = [r.randint(2, 150) for _ in range(3)]
    elif op in ('kmeans', 'npatch'):
        c['npatch'] = max(1, min(r.choice([1, 2, 3, 5, 8, 20]), c['cat']['n']))
        c['init'] = r.choice(['tree', 'random', 'kmeans++'])
        c['max_iter'] = r.choice([0, 0, 1, 3])
        c['kind'] = r.choice('NKZVGTQ')
        c['split_method'] = r.choice(['mean', 'median', 'middle', 'random'])
        c['min_top'] = r.choice([None, 0, 1, 3])
        c['times'] = r.choice([1, 2])
    elif op == 'split':
        c['type'] = r.choice(G.TYPES2)
        c['auto'] = int(c['type'][0] == c['type'][1] and r.random() < 0.6)
        if not c['auto']:
            c['cat2'] = G.cat_spec(r, coords, nmax)
        c['kw'] = dict(min_sep=0.1, max_sep=5., nbins=5, bin_slop=r.choice([0.5, 1., 2.]),
                       split_method='random', min_top=r.choice([0, 1, 3]))
        if coords == 'sphere':
            c['kw']['sep_units'] = 'deg'
        c['prebuild'] = r.choice([0, 1])
        over_patches(r, c)
    elif op == 'split3':
        c['type'] = r.choice(G.TYPES3)
        c['auto'] = r.choice([0, 1, 1])
        c['cat'] = G.cat_spec(r, coords, 24, nmin=3)
        if not c['auto']:
            c['cat2'] = G.cat_spec(r, coords, 24, nmin=2)
        c['kw'] = dict(min_sep=0.5, max_sep=5., nbins=2, bin_slop=r.choice([1., 2.]),
                       bin_type=r.choice(['LogSAS', 'LogMultipole']),
                       split_method='random', min_top=r.choice([0, 1, 3]))
        if c['kw']['bin_type'] == 'LogSAS':
            c['kw']['nphi_bins'] = 3
        else:
            c['kw']['max_n'] = 3
        if coords == 'sphere':
            c['kw']['sep_units'] = 'deg'
        over_patches(r, c)
    else:
        c['type'] = r.choice([t for t in G.TYPES2 if t != 'NN'] + ['KKK', 'GGG'])
        c['auto'] = int(len(set(c['type'])) == 1)
        if len(c['type']) == 3:
            c['cat'] = G.cat_spec(r, coords, 20, nmin=6)
        c['cat']['npatch'] = r.choice([2, 3, 5])
        c['kw'] = dict(min_sep=0.1, max_sep=5., nbins=3, bin_slop=0,
                       num_bootstrap=r.choice([5, 20]))
        if len(c['type']) == 3:
            c['kw'].update(bin_type='LogSAS', nphi_bins=2, nbins=2, min_sep=0.5)
        if coords == 'sphere':
            c['kw']['sep_units'] = 'deg'
        c['methods'] = [r.choice(['bootstrap', 'marked_bootstrap']) for _ in range(2)]
        c['multi'] = int(r.random() < 0.3)
        c['via'] = r.choice(['', '', 'copy', 'file', 'file', 'base'])
        c['ext'] = r.choice(['fits', 'hdf5', 'dat'])
    return c


def over_patches(r, c):
    """Let the catalogs of a case have patches, in memory, loaded on demand or in a directory."""
    if r.random() < 0.6:
        return
    npatch = r.choice([2, 3, 4])
    for k in ('cat', 'cat2'):
        if k in c:
            c[k]['npatch'] = npatch
    c['patches'] = {'way': r.choice(['memory', 'file', 'directory', 'both']),
                    'method': r.choice(['global', 'global', 'local']),
                    'low_mem': r.choice([0, 1])}
    if c['kw'].get('bin_type') == 'LogMultipole':
        c['patches']['method'] = 'local'


def patch_cat(c, k, fields, rng):
    """One catalog of a case with op 'split' or 'split3'."""
    import treecorr
    way = c.get('patches', {}).get('way', 'memory')
    more = {'save_patch_dir': 'c12/%s' % k} if way in ('directory', 'both') else {}
    if way in ('memory', 'directory'):
        return G.make_cat(c[k], fields, rng=rng, **more)
    cat = G.make_cat(c[k], fields)
    name = 'c12/%s.fits' % k
    cat.write(name)
    import fitsio
    cols = fitsio.FITS(name)[1].get_colnames()
    more.update({n + '_col': n for n in cols})
    if 'ra' in cols:
        more.update(ra_units='rad', dec_units='rad')
    return treecorr.Catalog(name, rng=rng, **more)


def make_rng(c):
    return np.random.RandomState(c['seed']) if c['rkind'] == 'state' else \
        np.random.default_rng(c['seed'])


class Noise:
    """Unrelated uses of randomness at the steps 0..3 of an operation."""
    def __init__(self, plan):
        self.plan = plan
        self.done = 0

    def __call__(self, step):
        import random
        import treecorr
        for s, kind, v in self.plan:
            if s != step:
                continue
            self.done += 1
            rng = np.random.RandomState(v)
            if kind == 'np_seed':
                np.random.seed(v)
            elif kind == 'np_use':
                np.random.uniform(size=v % 50)
            elif kind == 'py_seed':
                random.seed(v)
            elif kind == 'c_rand':
                import ctypes
                libc = ctypes.CDLL(None)
                for _ in range(v % 7 + 1):
                    libc.rand()
            else:
                other = treecorr.Catalog(x=rng.uniform(size=30), y=rng.uniform(size=30),
                                         rng=rng if v % 2 else None)
                if kind == 'c_field':
                    f = other.getNField(split_method='random')
                    f.count_near(0.5, 0.5, 0.3)
                elif kind == 'c_kmeans':
                    other.getNField().run_kmeans(3, init=['tree', 'random', 'kmeans++'][v % 3],
                                                 rng=rng)
                else:
                    nn = treecorr.NNCorrelation(min_sep=0.1, max_sep=1, nbins=2, rng=rng)
                    if kind == 'c_sample':
                        nn.sample_pairs(5, other, other, min_sep=0.1, max_sep=0.5)
                    else:
                        nn.rng.random()


def positions(spec):
    from checks.c03 import xyz
    cols = G.points(spec)
    p = xyz(spec, cols)
    # objects of zero weight are no part of the catalog
    return p[cols['w'] != 0] if 'w' in cols else p


def true_sep(c, p1, p2):
    d = np.sqrt(((p1[:, None, :] - p2[None, :, :]) ** 2).sum(-1))
    if c['cat']['coords'] == 'sphere':
        if c['kw'].get('metric') == 'Arc':
            d = 2 * np.arcsin(np.minimum(d / 2, 1))
        d = np.degrees(d)          # chord lengths too are reported in the units of sep
    return d


def do(c, noise, nt):
    import treecorr
    treecorr.set_omp_threads(nt)
    op = c['op']
    out = {}
    bad = []
    rng = make_rng(c)
    noise(0)
    if op == 'sample':
        cat1 = G.make_cat(c['cat'], c['type'][0], rng=np.random.RandomState(c['seed'] + 1))
        cat2 = cat1 if c['same'] else \
            G.make_cat(c['cat2'], c['type'][1], rng=np.random.RandomState(c['seed'] + 2))
        corr = G.make_corr2(c['type'], c['kw'], rng=rng, num_threads=nt)
        p1 = positions(c['cat'])
        p2 = p1 if c['same'] else positions(c['cat2'])
        d = true_sep(c, p1, p2)
        lo, hi = c['range']
        eps = 1e-6
        sure = (d > lo * (1 + eps)) & (d < hi * (1 - eps))
        maybe = (d > lo * (1 - eps)) & (d < hi * (1 + eps))
        nsure, nmaybe = int(sure.sum()), int(maybe.sum())
        noise(1)
        before = treecorr.get_omp_threads()
        for j, n in enumerate(c['ns']):
            i1, i2, sep = corr.sample_pairs(n, cat1, cat2, min_sep=lo, max_sep=hi)
            noise(2)
            i1, i2, sep = np.array(i1), np.array(i2), np.array(sep)
            out['i1_%d' % j], out['i2_%d' % j], out['sep_%d' % j] = i1, i2, sep
            if not min(n, nsure) <= len(i1) <= min(n, nmaybe):
                bad.append('%d pairs were sampled; there are %d and %d were asked for'
                           % (len(i1), nsure, n))
            if not len(i1) == len(i2) == len(sep):
                bad.append('the sampled arrays have different lengths')
                continue
            if len(i1) and not (0 <= i1.min() and i1.max() < len(p1)
                                and 0 <= i2.min() and i2.max() < len(p2)):
                bad.append('a sampled index is out of range')
                continue
            if len(set(zip(i1.tolist(), i2.tolist()))) != len(i1):
                bad.append('a pair was sampled twice')
            off = ~maybe[i1, i2]
            if off.any():
                k = int(off.argmax())
                bad.append('sampled pair %d = (%d, %d) has separation %r, outside %r (%d of %d)'
                           % (k, i1[k], i2[k], d[i1[k], i2[k]], c['range'], off.sum(), len(i1)))
            if c['kw'].get('brute') and not np.allclose(sep, d[i1, i2], rtol=1e-6):
                bad.append('a sampled pair is reported with another separation than its own')
            if len(sep) and not (sep.min() > lo * (1 - eps) and sep.max() < hi * (1 + eps)):
                bad.append('a reported separation is outside the range')
            if not noise.plan and treecorr.get_omp_threads() != before:
                bad.append('sampling left %d threads, %d were set'
                           % (treecorr.get_omp_threads(), before))
    elif op == 'kmeans':
        ct = G.make_cat(c['cat'], c['kind'], keep_zero_weight=True,
                        rng=np.random.RandomState(c['seed'] + 1) if c['rkind'] == 'state'
                        else np.random.default_rng(c['seed'] + 1))
        noise(1)
        f = getattr(ct, 'get%sField' % c['kind'])(split_method=c['split_method'],
                                                  min_top=c['min_top'])
        noise(2)
        for j in range(c['times']):
            lab, cen = f.run_kmeans(c['npatch'], init=c['init'], max_iter=c['max_iter'], rng=rng)
            noise(3)
            out['labels%d' % j], out['centers%d' % j] = np.array(lab), np.array(cen)
    elif op == 'npatch':
        # one generator for two catalogs in a row, as a script with one seed at its top does it
        for j in range(c['times']):
            ct = G.make_cat(c['cat'], c['kind'], npatch=c['npatch'], kmeans_init=c['init'], rng=rng)
            noise(1)
            out['labels%d' % j] = np.array(ct.patch) if ct.patch is not None else np.zeros(0)
            out['centers%d' % j] = np.array(ct.patch_centers)
            noise(2)
    elif op in ('split', 'split3'):
        shutil.rmtree('c12', ignore_errors=True)
        os.mkdir('c12')
        cat1 = patch_cat(c, 'cat', c['type'][0], rng)
        cat2 = None if c['auto'] else patch_cat(c, 'cat2', c['type'][1], rng)
        corr = G.make_corr2(c['type'], c['kw'], num_threads=nt)
        noise(1)
        # (For three points, the sums themselves: the values divide by weights of rounding only.)
        kw = {} if op == 'split' else {'finalize': False}
        if c.get('patches'):
            kw['low_mem'] = bool(c['patches']['low_mem'])
            kw['patch_method'] = c['patches']['method']
        if c.get('prebuild'):
            for ct, t in ((cat1, c['type'][0]), (cat2, c['type'][1])):
                if ct is not None:
                    f = getattr(ct, 'get%sField' % t)(split_method='random', min_top=2)
                    noise(2)
                    out['ntop%d' % (ct is cat1)] = np.array(f.nTopLevelNodes)
        corr.process(cat1, cat2, **kw)
        noise(3)
        # what the tree was shows in the sums, once slop lets cells stand for their objects
        corr2 = G.make_corr2(c['type'], c['kw'], num_threads=nt)
        noise(2)
        corr2.process(cat1, cat2, **kw)
        out.update(G.raw_snapshot(corr))
        for k, v in G.raw_snapshot(corr2).items():
            out['again_' + k] = v
        shutil.rmtree('c12', ignore_errors=True)
    else:
        cat1 = G.make_cat(c['cat'], c['type'])
        corr = G.make_corr2(c['type'], c['kw'], rng=rng, num_threads=nt)
        # (The multipole algorithm leaves weights of rounding only in bins without triangles.)
        corr.process(cat1, None if c['auto'] else cat1,
                     **({'algo': 'triangle'} if len(c['type']) == 3 else {}))
        if c.get('via') == 'copy':
            corr = corr.copy()
        elif c.get('via'):
            shutil.rmtree('c12', ignore_errors=True)
            os.mkdir('c12')
            name = 'c12/corr.' + c['ext']
            corr.write(name, write_patch_results=True)
            noise(0)
            cls = type(corr) if c['via'] == 'file' else \
                treecorr.Corr3 if len(c['type']) == 3 else treecorr.Corr2
            corr = cls.from_file(name, rng=rng)
            shutil.rmtree('c12', ignore_errors=True)
        for j, m in enumerate(c['methods']):
            noise(1 + j)
            if c['multi']:
                out['cov%d' % j] = np.array(treecorr.estimate_multi_cov([corr], m))
            else:
                out['cov%d' % j] = np.array(corr.estimate_cov(m))
    return out, bad


REJECT = (ValueError, TypeError, RuntimeError)


def attempt(*a):
    try:
        return do(*a) + (None,)
    except REJECT as e:
        return None, [], '%s: %s' % (type(e).__name__, str(e)[:200])


def run(c):
    system.omp.serial()
    ref, bad0, err = attempt(c, Noise([]), c['nt'])
    noise = Noise(c['noise'])
    with system.schedule(c['sched']):
        got, bad, err2 = attempt(c, noise, c['nt'])
    st = system.sched_result
    stats = system.sched_stats()
    stats['op_' + c['op']] = 1
    stats['unrelated_random_ops'] = noise.done
    viol = None
    if err or err2:
        stats['rejected'] = 1
        if (err is None) != (err2 is None):
            viol = ['error-depends-on-history', 'plain: %s; perturbed: %s' % (err, err2)]
    elif bad or bad0:
        viol = [c['op'] + '-wrong', '; '.join((bad or bad0)[:4])]
    else:
        for k in ref:
            d = G.diff_arrays(k, got[k], ref[k], 1e-9, 1e-9 * max(1., np.nanmax(np.abs(
                np.where(np.isfinite(ref[k]), ref[k], 0)), initial=0.)))
            if d:
                viol = [c['op'] + '-not-reproducible', d]
                break
        if viol and c['op'] in ('kmeans', 'npatch'):
            # a tie may be broken by rounding (see C03)
            if fragile(c, ref):
                viol = None
    res = {'viol': viol, 'stats': stats,
           'trivial': not (noise.done or (st['multi_regions'] and st['switches'])),
           'states': ['%x/%s' % (st['hash'], c['noise'])],
           'digest': G.digest(got if got is not None else err2, st['hash'], st['steps'])}
    if viol and c['sched']['mode'] != 'explicit' and len(st['trace']) < 200000:
        res['case'] = with_(c, sched=system.omp.to_explicit(c['sched'], st['trace']))
    return res


def fragile(c, ref):
    from checks.c03 import ambiguous_start
    if ambiguous_start(lambda: attempt(c, Noise([]), c['nt'])):
        return True
    for j in range(1, 25):
        got, _, err = attempt(with_(c, cat=with_(c['cat'], jitter=j)), Noise([]), c['nt'])
        if err or any(G.diff_arrays(k, got[k], ref[k], 1e-5, 1e-5) for k in ref):
            return True
    return False


def shrinks(c):
    for n in G.chunks_removed(c['noise']):
        yield with_(c, noise=n)
    for k in ('cat', 'cat2'):
        if k in c:
            for s in G.shrink_cat(c[k]):
                if s['n'] >= max(c.get('npatch', 1), 2):
                    yield with_(c, **{k: s})
    for nt in G.shrink_int(c['nt'], 1):
        yield with_(c, nt=nt)
    if len(c.get('ns', [])) > 1:
        for l in G.chunks_removed(c['ns'], 1):
            yield with_(c, ns=l)
    for j, n in enumerate(c.get('ns', [])):
        for v in G.shrink_int(n, 1):
            yield with_(c, ns=c['ns'][:j] + [v] + c['ns'][j + 1:])
    if c.get('times', 1) > 1:
        yield with_(c, times=1)
    if c.get('patches'):
        yield with_(c, patches=with_(c['patches'], way='memory', low_mem=0))
        yield with_(c, patches=with_(c['patches'], method='global'))
    if c.get('via'):
        yield with_(c, via='')
    for k in ('prebuild', 'prefield', 'multi'):
        if c.get(k):
            yield with_(c, **{k: 0})
    for s in system.shrink_schedule(c['sched']):
        yield with_(c, sched=s)
