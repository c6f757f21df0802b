"""C03: trees, patches and neighbour queries hold under any thread schedule."""
import numpy as np
from tcsim import gen as G, system
from tcsim.gen import with_, DROP

PROPERTY = 'C03'
QUICK = {'runs': 6000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws a catalog, builds one of the seven field kinds (any split method, top '
        'levels, minimum size) and performs one of: neighbour queries, k-means, patch assignment '
        'from given centres, single-patch selection, coordinate generation; under a drawn thread '
        'schedule. Non-trivial: a region ran with two or more members and a preemption in it.')
STATES = 'distinct thread interleavings: hash of (member, access number) at every switch and lock'
REAL = ['TreeCorr C++ sources (all of src/*.cpp, compiled from /repo)', 'treecorr Python package']
STUB = ['OpenMP runtime (libgomp): replaced by the simulator']
ASSUMPTIONS = ['objects within 1e-5 of being equidistant from two centres (or of the query radius) '
               'may go either way; values are compared between schedules only where no tie occurs']
OPS = ['near', 'near', 'kmeans', 'kmeans', 'assign', 'select', 'npatch', 'xyz', 'centers']


def setup():
    system.start()


def generate(r, i, tier):
    coords = r.choice(['flat', 'flat', 'sphere', 'sphere', '3d', 'sphere3d'])
    op = r.choice(OPS)
    nmax = r.choice([20, 80, 300, 800])
    cat = G.cat_spec(r, coords, nmax)
    if r.random() < 0.25 and coords.startswith('sphere'):
        cat['fullsky'] = 1
    nt = r.choice([2, 2, 3, 4, 5, 8, 8])
    c = {'op': op, 'cat': cat, 'nt': nt, 'sched': system.omp.random_schedule(r),
         'seed': r.randrange(1 << 30)}
    c['field'] = {'kind': r.choice('NKZVGTQ'),
                  'split_method': r.choice(['mean', 'median', 'middle'] +
                                           (['random'] if op == 'near' else [])),
                  'min_top': r.choice([None, 0, 1, 3, 5]), 'max_top': r.choice([3, 5, 10]),
                  'min_size': r.choice([0, 0, 0, 0.05, 0.5]) if op == 'near' else 0,
                  'brute': op == 'near' and r.random() < 0.2}
    if op in ('kmeans', 'npatch', 'assign', 'select', 'centers'):
        c['npatch'] = r.choice([1, 2, 3, 5, 8, 20])
        c['npatch'] = max(1, min(c['npatch'], cat['n']))
    if op in ('kmeans', 'npatch'):
        # The alternate algorithm is not a contraction: over many iterations it amplifies rounding.
        c['init'] = r.choice(['tree', 'tree', 'random', 'kmeans++'])
        c['alt'] = op == 'kmeans' and r.random() < 0.4
        c['max_iter'] = r.choice([0, 1, 3] if c['alt'] else [0, 1, 3, 20, 200])
        c['tol'] = r.choice([1e-5, 1e-3, 1e-2])
        c['rng'] = r.randrange(1 << 30)
        if cat['dist'] in ('lattice', 'dups'):
            c['ties'] = 1
    if op == 'near':
        c['nq'] = 6
    return c


def xyz(spec, cols):
    if spec['coords'] == 'flat':
        return np.stack([cols['x'], cols['y']], 1)
    if spec['coords'] == '3d':
        return np.stack([cols['x'], cols['y'], cols['z']], 1)
    ra, dec = np.radians(cols['ra']), np.radians(cols['dec'])
    p = np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], 1)
    if 'r' in cols:
        p = p * cols['r'][:, None]
    return p


def check_nearest(lab, cen, pos, what):
    lab = np.asarray(lab)
    if lab.shape != (len(pos),):
        return '%s: %s labels for %d objects' % (what, lab.shape, len(pos))
    if len(lab) and (lab.min() < 0 or lab.max() >= len(cen)):
        return '%s: label out of range: %d..%d of %d' % (what, lab.min(), lab.max(), len(cen))
    d = np.sqrt(((pos[:, None, :] - np.asarray(cen)[None, :, :]) ** 2).sum(-1))
    dm = d.min(1)
    dl = d[np.arange(len(lab)), lab]
    bad = dl > dm * (1 + 1e-5) + 1e-9
    if bad.any():
        j = int(np.argmax(bad))
        return '%s: object %d is labelled %d at distance %r but centre %d is at %r' % (
            what, j, lab[j], dl[j], int(d[j].argmin()), dm[j])
    return None


def wanted_near(pos, q, rad):
    """(surely inside, possibly inside)"""
    d = np.sqrt(((pos - q) ** 2).sum(1))
    eps = 2e-6 * (rad + 1)
    return set(np.where(d < rad - eps)[0]), set(np.where(d <= rad + eps)[0])


def queries(c, pos):
    rng = np.random.RandomState(c['seed'])
    n = len(pos)
    ext = max(float(np.ptp(pos, axis=0).max()), 1e-3)
    out = []
    for j in range(c['nq']):
        base = pos[rng.randint(n)]
        q = base + rng.choice([0., 0.01, 0.2]) * ext * rng.normal(size=pos.shape[1])
        if c['cat']['coords'] == 'sphere':
            q = q / np.sqrt((q ** 2).sum())
        rad = ext * rng.choice([1e-3, 0.05, 0.3, 1., 4.])
        if c['cat']['coords'] == 'sphere':
            rad = min(rad, 1.9)
        out.append((q, rad))
    return out


def do(c, nt):
    """Perform the operation; return observed values and model violations."""
    import treecorr
    spec = c['cat']
    cols = G.points(spec)
    pos = xyz(spec, cols)
    unit = pos / np.sqrt((pos ** 2).sum(1))[:, None] if spec['coords'].startswith('sphere') else pos
    bad = []
    obs = {}
    treecorr.set_omp_threads(nt)
    kind = c['field']['kind']
    op = c['op']
    fkw = {k: v for k, v in c['field'].items() if k != 'kind'}

    def cat(**more):
        return G.make_cat(spec, kind, keep_zero_weight=True, **more)

    if op == 'near':
        ct = cat(rng=np.random.RandomState(c['seed']))
        f = getattr(ct, 'get%sField' % kind)(**fkw)
        from treecorr.field import Field                       # noqa
        for q, rad in queries(c, pos):
            if spec['coords'] == 'flat':
                a, kw = (q[0], q[1], rad), {}
            elif spec['coords'] == '3d':
                a, kw = (q[0], q[1], q[2], rad), {}
            else:
                rr = np.sqrt((q ** 2).sum())
                ra, dec = np.degrees(np.arctan2(q[1], q[0])), np.degrees(np.arcsin(q[2] / rr))
                kw = dict(ra_units='deg', dec_units='deg')
                if spec['coords'] == 'sphere':
                    ang = np.degrees(2 * np.arcsin(min(1., rad / 2)))
                    a = (ra, dec, ang)
                    kw['sep_units'] = 'deg'
                else:
                    a = (ra, dec, rr, rad)
            sure, maybe = wanted_near(pos, q, rad)
            got = np.asarray(f.get_near(*a, **kw))
            cnt = f.count_near(*a, **kw)
            gs = set(int(v) for v in got)
            if len(gs) != len(got):
                bad.append('get_near returned an object twice')
            if not (sure <= gs and gs <= maybe):
                bad.append('get_near: missing %s, extra %s (radius %r)'
                           % (sorted(sure - gs)[:5], sorted(gs - maybe)[:5], rad))
            if not len(sure) <= cnt <= len(maybe):
                bad.append('count_near = %d, expected %d..%d' % (cnt, len(sure), len(maybe)))
    elif op == 'kmeans':
        ct = cat()
        f = getattr(ct, 'get%sField' % kind)(**fkw)
        lab, cen = f.run_kmeans(c['npatch'], init=c['init'], alt=c['alt'], tol=c['tol'],
                                max_iter=c['max_iter'], rng=np.random.RandomState(c['rng']))
        obs['centers'] = np.array(cen)
        obs['labels'] = np.array(lab)
        if spec['coords'] != 'sphere' or np.allclose((cen ** 2).sum(1), 1.):
            # (a patch that lost all its objects has no direction for a centre)
            bad.append(check_nearest(lab, cen, pos, 'run_kmeans'))
    elif op == 'npatch':
        ct = cat(npatch=c['npatch'], kmeans_init=c['init'], kmeans_alt=c['alt'],
                 rng=np.random.RandomState(c['rng']))
        obs['labels'] = np.array(ct.patch) if ct.patch is not None else np.zeros(ct.ntot, int)
        if obs['labels'].min() < 0 or obs['labels'].max() >= c['npatch']:
            bad.append('Catalog(npatch): label out of range')
        sizes = [p.ntot for p in ct.get_patches()]
        if sum(sizes) != ct.ntot:
            bad.append('patches hold %s objects of %d' % (sizes, ct.ntot))
    elif op in ('assign', 'select'):
        rng = np.random.RandomState(c['seed'])
        base = unit if spec['coords'] == 'sphere' else pos
        cen = base[rng.choice(len(base), c['npatch'], replace=len(base) < c['npatch'])]
        cen = cen + 1e-3 * rng.normal(size=cen.shape) * (np.ptp(base) + 0.1)
        if spec['coords'] == 'sphere':
            cen = cen / np.sqrt((cen ** 2).sum(1))[:, None]
        if op == 'assign':
            ct = cat(patch_centers=cen)
            lab = ct.patch if ct.patch is not None else np.zeros(ct.ntot, int)
            bad.append(check_nearest(lab, cen, base, 'Catalog(patch_centers)'))
            f = getattr(cat(), 'get%sField' % kind)(**fkw)
            bad.append(check_nearest(f.kmeans_assign_patches(cen), cen, base,
                                     'kmeans_assign_patches'))
            obs['labels'] = np.array(lab)
        else:
            d = np.sqrt(((base[:, None, :] - cen[None, :, :]) ** 2).sum(-1))
            m = d.min(1)
            total = 0
            for k in range(c['npatch']):
                sure = (d[:, k] <= m * (1 + 1e-12)) & (
                    np.partition(np.where(np.arange(len(cen)) == k, np.inf, d), 0, 1)[:, 0]
                    > m * (1 + 1e-6))
                maybe = d[:, k] <= m * (1 + 1e-6)
                try:
                    ck = cat(patch_centers=cen, patch=k)
                    got = np.stack([ck.x, ck.y] + ([ck.z] if ck.z is not None else []), 1)
                except ValueError:
                    # no objects, or none with a weight: nothing to make a catalog of
                    if not cols.get('w', np.ones(len(base)))[sure].any():
                        total += int(sure.sum())
                        if (maybe & ~sure).any():
                            total = -10**9
                        continue
                    got = np.zeros((0, base.shape[1]))
                total += len(got)
                if not sure.sum() <= len(got) <= maybe.sum():
                    bad.append('patch %d selected %d objects, expected %d..%d'
                               % (k, len(got), sure.sum(), maybe.sum()))
                elif sure.sum() == maybe.sum() and len(got):
                    want = pos[sure]
                    if spec['coords'] == 'sphere':
                        want = unit[sure]
                    if not np.allclose(got, want, rtol=1e-9, atol=1e-12):
                        bad.append('patch %d holds other objects than the nearest ones' % k)
                obs['n%d' % k] = len(got)
            if total >= 0 and total != len(pos):
                bad.append('the patches select %d objects of %d' % (total, len(pos)))
    elif op == 'xyz':
        ct = cat()
        got = np.stack([ct.x, ct.y] + ([ct.z] if spec['coords'] != 'flat' else []), 1)
        if not np.allclose(got, pos, rtol=1e-10, atol=1e-12):
            bad.append('derived coordinates are wrong: %r, expected %r'
                       % (got[np.abs(got - pos).max(1).argmax()],
                          pos[np.abs(got - pos).max(1).argmax()]))
        obs['xyz'] = got
    else:
        lab = G.patch_labels(with_(spec, npatch=c['npatch']), cols)
        ct = cat(patch=lab, npatch=c['npatch'])
        cen = ct.patch_centers
        w = cols.get('w', np.ones(len(pos)))
        base = unit if spec['coords'] == 'sphere' else pos
        for k in range(c['npatch']):
            sel = lab == k
            if w[sel].sum() > 0:
                want = (base[sel] * w[sel][:, None]).sum(0) / w[sel].sum()
                if spec['coords'] == 'sphere':
                    want = want / np.sqrt((want ** 2).sum())
                if not np.allclose(cen[k], want, rtol=1e-8, atol=1e-10):
                    bad.append('patch centre %d is %r, expected %r' % (k, cen[k], want))
        obs['centers'] = np.array(cen)
    return obs, [b for b in bad if b]


REJECT = (ValueError, TypeError, RuntimeError, AttributeError)


def coincident(ref):
    """Two patches with one centre (both lost all their objects): which gets an object is a tie."""
    cen = ref.get('centers')
    if cen is None or len(cen) < 2:
        return False
    d = np.sqrt(((cen[:, None, :] - cen[None, :, :]) ** 2).sum(-1))
    d[np.arange(len(cen)), np.arange(len(cen))] = 1.
    return d.min() < 1e-9 * max(1., np.abs(cen).max())


def ambiguous_start(f):
    """Whether k-means started with two centres at one place (a leaf that had to give several
    centres, on the sphere): which of them gets the objects there is a tie."""
    import treecorr
    F = treecorr.Field
    orig = F.kmeans_initialize_centers
    seen = []

    def record(self, *a, **kw):
        cen = orig(self, *a, **kw)
        seen.append(np.array(cen))
        return cen
    F.kmeans_initialize_centers = record
    try:
        f()
    finally:
        F.kmeans_initialize_centers = orig
    return not seen or any(coincident({'centers': cen}) for cen in seen)


def fragile(c, key, ref):
    """Whether the one-thread outcome hangs on rounding: it changes when the positions move by
    amounts that no sum can resolve (k-means with a tie at one of its iterations)."""
    if c['op'] in ('kmeans', 'npatch') and ambiguous_start(lambda: do(c, c['nt'])):
        return True
    for j in range(1, 25):
        try:
            got, _ = do(with_(c, cat=with_(c['cat'], jitter=j)), c['nt'])
        except REJECT:
            return True
        if got[key].shape != np.shape(ref) or G.diff_arrays(key, got[key], ref, 1e-5, 1e-5):
            return True
    return False


def run(c):
    system.omp.serial()
    ref = err = None
    try:
        ref, bad0 = do(c, c['nt'])
    except REJECT as e:
        err = repr(e)[:200]
    got = err2 = None
    bad = []
    with system.schedule(c['sched']):
        try:
            got, bad = do(c, c['nt'])
        except REJECT as e:
            err2 = repr(e)[:200]
    st = system.sched_result
    stats = system.sched_stats()
    stats['op_' + c['op']] = 1
    stats['rejected'] = int(err is not None)
    viol = None
    if (err is None) != (err2 is None):
        viol = ['error-depends-on-threads', 'one thread: %s; %d threads: %s' % (err, c['nt'], err2)]
    elif bad:
        viol = [c['op'] + '-wrong', '; '.join(bad)]
    elif ref is not None and not c.get('ties') and not coincident(ref):
        for k in ref:
            d = G.diff_arrays(k, got[k], ref[k], 1e-7, 1e-9)
            if d and not fragile(c, k, ref[k]):
                viol = [c['op'] + '-depends-on-threads', d]
                break
    res = {'viol': viol, 'stats': stats, 'trivial': not (st['multi_regions'] and st['switches']),
           'states': ['%x' % st['hash']] if st['multi_regions'] else [],
           'digest': G.digest(got if got is not None else err2, st['hash'], st['steps'])}
    if viol:
        if c['sched']['mode'] != 'explicit' and len(st['trace']) < 200000:
            res['case'] = with_(c, sched=system.omp.to_explicit(c['sched'], st['trace']))
    return res


def shrinks(c):
    for s in G.shrink_cat(c['cat']):
        if s['n'] >= c.get('npatch', 1):
            yield with_(c, cat=s)
    if c.get('npatch', 1) > 1:
        for k in G.shrink_int(c['npatch'], 1):
            yield with_(c, npatch=k)
    for nt in G.shrink_int(c['nt'], 2):
        yield with_(c, nt=nt)
    if c.get('nq', 1) > 1:
        yield with_(c, nq=c['nq'] - 1)
    for s in system.shrink_schedule(c['sched']):
        yield with_(c, sched=s)
