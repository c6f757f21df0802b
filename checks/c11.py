"""C11: lazy loading, unloading and caching are invisible; failed reads leave nothing half-loaded."""
import collections
import gc
import hashlib
import os
import pickle
import weakref

import numpy as np

from tcsim import cats as K, gen as G, ranks as R, simio, system
from tcsim.gen import with_, DROP

PROPERTY = 'C11'
USES_SIMIO = True
HASHSEED = '0'      # extensions are read in the order of a set of their names
QUICK = {'runs': 6000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run writes one or two catalog files, opens them with TreeCorr (nothing is loaded '
        'then) and plays a history of uses on them and their copies: single attributes, all '
        'columns, load and unload, fields, cache resizing and clearing, copies, pickles, patches '
        'with and without low_mem, patch centres, variances, combining, writing, two-point '
        'processing with and without low_mem; any of the uses may meet a read or open that fails '
        '(once or from then on) at an arbitrary operation, and is then repeated without. '
        'Some runs instead play fields, resizings and clearings, with builds that fail, on the '
        'caches of a catalog and compare their contents with a small model of such a cache. '
        'Non-trivial: at least one reload, fault or low-memory use.')
STATES = 'distinct histories: hash of (reading options, uses, faults hit)'
REAL = ['treecorr Python package', 'TreeCorr C++ extension',
        'numpy, pandas, fitsio/cfitsio, h5py/libhdf5']
STUB = ['file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'OpenMP: one thread']
ASSUMPTIONS = ['an eagerly built in-memory catalog of the same contents is the reference']
ATTRS = K.COLS + ['npatch', 'ntot', 'nobj', 'sumw', 'sumw2', 'nontrivial_w', 'coords'] + K.VARS
REJ = R.REJECT + (AssertionError,)


def setup():
    system.start()
    import fitsio, h5py, pandas  # noqa: F401,E401


# ---------------------------------------------------------------------------------- generation
def gen_file(r, two):
    f = K.file_spec(r, nmax=r.choice([8, 30, 60]),
                    fields=r.choice([None, None, 'K', 'KG', 'G', '']))
    if f['cat']['coords'] in ('flat', '3d'):
        f.pop('units', None)
    if f.get('patch') == 'kmeans':      # centers equally close up to rounding
        f['cat']['dist'] = r.choice(['uniform', 'cluster'])
        f.pop('kz', None)
    if f['fmt'] == 'ascii':             # pandas may read the last digit differently
        f['nopandas'] = 1
    if two:
        f.pop('single', None)
        f.pop('rows', None)
    return f


def gen_op_process(r, f, two):
    """A two-point correlation of the catalog with itself or the other one."""
    op = {}
    fl = [x for x in 'NKZVGTQ' if x == 'N' or x in f['fields']]
    t = r.choice(fl) + r.choice(fl)
    if t not in G.TYPES2:
        t = t[::-1]
    if t not in G.TYPES2:
        t = 'NN'
    op['type'] = t
    op['kw'] = G.corr2_config(r, f['cat']['coords'], f['cat']['box'],
                              auto=not two and t[0] == t[1], exact=True)
    op['kw']['var_method'] = r.choice(['shot', 'shot', 'jackknife', 'sample'])
    op['cross'] = 1 if two and r.random() < 0.6 else 0
    if t[0] != t[1] and not op['cross']:
        op['cross'] = 2             # with itself
    return op


def gen_op(r, f, two):
    w = [('get', 6), ('snap', 3), ('load', 1), ('unload', 4), ('field', 2), ('clear', 1),
         ('resize', 1), ('copy', 1.5), ('pickle', 1.5), ('patches', 3), ('centers', 1.5),
         ('var', 1), ('combine', 1), ('write', 1), ('process', 4), ('eq', 0.5), ('repr', 0.5)]
    x = r.random() * sum(b for _, b in w)
    for a, b in w:
        x -= b
        if x <= 0:
            break
    op = {'op': a, 'on': r.randrange(4)}
    if a == 'get':
        op['a'] = r.choice(ATTRS)
    elif a == 'field':
        op['t'] = r.choice([x for x in 'NKZVGTQ' if x == 'N' or x in f['fields']])
        op['min_size'] = r.choice([0, 0, 1., 3.])
        op['split'] = r.choice(['mean', 'median', 'middle'])
    elif a == 'resize':
        op['n'] = r.choice([0, 1, 2, 4])
    elif a in ('patches', 'combine', 'var'):
        op['low'] = r.choice([0, 1, 1])
    if a == 'process':
        op.update(gen_op_process(r, f, two), low=r.choice([0, 1, 1]))
    if a == 'var':
        op['t'] = r.choice([x for x in 'KZVGTQ' if x in f['fields']] or ['K'])
    if r.random() < 0.3:
        op['fault'] = {'act': r.choice(['eio', 'eio', 'eios', 'emfile', 'eacces']),
                       'at': r.randrange(1 << 12), 'arg': 0}
    return op


FIELD_ARGS = {'min_size': [0., 0.5, 1., 2.], 'split_method': ['mean', 'median', 'middle'],
              'brute': [True, True, False], 'max_top': [0, 1, 5], 'max_size': [1., 4., 30.],
              'min_top': [0, 2]}


def gen_cache(r):
    """Many fields of one catalog, whose caches change size."""
    c = {'mode': 'cache', 'cat': G.cat_spec(r, r.choice(['flat', '3d', 'sphere']), 20, nmin=4)}
    letters = r.choice(['N', 'K', 'NG', 'NKZVGTQ'])
    keys = []
    while len(keys) < 6:        # mostly the first with one argument changed
        kw = dict(r.choice(keys[:2])) if keys else {'min_size': r.choice([0., 1.])}
        a = r.choice(list(FIELD_ARGS))
        kw[a] = r.choice(FIELD_ARGS[a])
        if kw.get('split_method') == 'mean':    # the defaults
            del kw['split_method']
        if kw.get('brute') is False:
            del kw['brute']
        if kw not in keys:
            keys.append(kw)
    c['keys'] = keys
    ops = []
    for _ in range(r.choice([4, 8, 16, 30])):
        x = r.random()
        if x < 0.15:
            op = {'op': 'resize', 'n': r.choice([0, 1, 1, 2, 3, 5])}
            if r.random() < 0.3:
                op['t'] = r.choice(letters)
        elif x < 0.2:
            op = {'op': 'clear'}
            if r.random() < 0.5:
                op['t'] = r.choice(letters)
        elif x < 0.25:
            op = {'op': r.choice(['unload', 'drop'])}
        else:
            op = {'op': 'get', 't': r.choice(letters), 'key': r.randrange(r.choice([2, 4, 6]))}
            if r.random() < 0.15:
                op['fail'] = r.choice([1, 2])
            elif r.random() < 0.1:
                op['bad'] = 1
            if r.random() < 0.15:
                op['hold'] = 1
        ops.append(op)
    c['ops'] = ops
    return c


def generate(r, i, tier):
    if r.random() < 0.1:
        return gen_cache(r)
    two = r.random() < 0.35
    f = gen_file(r, two)
    c = {'file': f}
    if two:
        g = with_(f, cat=with_(f['cat'], seed=r.randrange(1 << 30)))
        if f.get('patch') == 'centers':
            g['cen'] = {k: v for k, v in f.items()}
        c['file2'] = g
    if r.random() < 0.15:
        c['rnd'] = [r.randrange(1 << 30), r.choice([300, 900]), r.choice([0, 300])]
    n = r.choice([1, 2, 3, 5, 8])
    c['ops'] = [gen_op(r, f, two) for _ in range(n)]
    c['ops'].append({'op': 'snap', 'on': 0})
    return c


# ---------------------------------------------------------------------------------- playing
def patch_list(ps):
    out = []
    for p in ps:
        s = K.snap_cat(p, variances=False)
        if not s['ntot']:
            continue            # an empty patch may be listed or not
        for k in list(s):
            if s[k].ndim == 1 and not s['ntot']:
                del s[k]
        for k in ('nontrivial_w', 'coords'):
            s.pop(k, None)
        out.append(s)
    return sorted(out, key=lambda s: int(s['patch']) if np.ndim(s.get('patch', [])) == 0 else -1)


def corr_obs(corr):
    s = R.snap_all(corr, skip=('cov',))
    # Pairs with a patch without objects hold nothing.
    for k in list(s['results']):
        v = s['results'][k]
        if not np.any(v.get('npairs')) and not np.any(v.get('weight')) and not np.any(v.get('tot')):
            del s['results'][k]
    return s


def do(op, cat, other, tag):
    """Perform a use; returns what was observed."""
    import treecorr
    a = op['op']
    if a == 'get':
        v = getattr(cat, op['a'])
        return None if v is None else np.array(v)
    if a == 'snap':
        return K.snap_cat(cat)
    if a == 'load':
        cat.load()
    elif a == 'unload':
        cat.unload()
    elif a == 'clear':
        cat.clear_cache()
    elif a == 'resize':
        cat.resize_cache(op['n'])
    elif a == 'field':
        fld = getattr(cat, 'get%sField' % op['t'])(min_size=op['min_size'],
                                                   split_method=op['split'])
        return np.array([fld.nTopLevelNodes, fld.count_near(cat.x[0], cat.y[0], *(
            [cat.z[0]] if cat.z is not None else []), sep=2.)
            if cat.ra is None else 0])
    elif a == 'patches':
        return patch_list(cat.get_patches(low_mem=bool(op['low'])))
    elif a == 'centers':
        return np.array(cat.patch_centers)
    elif a == 'var':
        fn = getattr(treecorr, 'calculateVar' + op['t'])
        return np.array(fn([cat] + ([other] if other is not None else []),
                           low_mem=bool(op['low'])))
    elif a == 'combine':
        x = treecorr.Catalog.combine([cat] + ([other] if other is not None else []),
                                     low_mem=bool(op['low']))
        return K.snap_cat(x)
    elif a == 'write':
        cat.write(tag + '.fits')
        import fitsio
        d = fitsio.read(tag + '.fits')
        return {k: np.array(d[k]) for k in d.dtype.names}
    elif a == 'eq':
        return np.array(cat == cat.copy())
    elif a == 'repr':
        repr(cat)
    elif a == 'process':
        corr = G.make_corr2(op['type'], op['kw'], rng=np.random.RandomState(7))
        args = [cat]
        if op['cross'] == 1:
            args.append(other)
        elif op['cross'] == 2:
            args.append(cat)
        corr.process(*args, low_mem=bool(op['low']))
        return corr_obs(corr)
    return None


def diff_obs(a, b, rtol, op):
    if b is None or a is None:
        return None if a is b else 'is %s, expected %s' % ('None' if a is None else 'there',
                                                           'None' if b is None else 'a value')
    if isinstance(b, list):
        if len(a) != len(b):
            return '%d patches, expected %d' % (len(a), len(b))
        for x, y in zip(a, b):
            d = K.diff_cat(x, y, rtol)
            if d:
                return 'patch %s: %s' % (y.get('patch'), d)
        return None
    if isinstance(b, dict) and 'results' in b:
        d = R.diff_all(a, b, rtol=1e-8)
        return d and '%s: %s' % d
    if isinstance(b, dict):
        return K.diff_cat(a, b, max(rtol, 1e-14) if op['op'] == 'write' else rtol)
    if b.dtype.kind in 'USb':
        return None if np.array_equal(a, b) else '%r, expected %r' % (a, b)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    if a.dtype.kind != b.dtype.kind:
        return 'type %s, expected %s' % (a.dtype, b.dtype)
    if not np.allclose(a, b, rtol=1e-10, atol=1e-10 * (np.nanmax(np.abs(b)) if b.size else 0.),
                       equal_nan=True):
        return '%s, expected %s' % (a, b)
    return None


# ---------------------------------------------------------------------------------- caches
def wrong_field(f, t, kw, n0):
    """What is wrong with field f made with kw, or None."""
    if type(f).__name__ != t + 'Field':
        return 'it is a ' + type(f).__name__
    want = {'min_size': 0. if kw.get('brute') else kw.get('min_size', 0.),
            'max_size': kw.get('max_size', np.inf), 'brute': bool(kw.get('brute')),
            'split_method': kw.get('split_method', 'mean'), 'max_top': kw.get('max_top', 10)}
    for k in want:
        if getattr(f, k) != want[k]:
            return '%s is %s' % (k, getattr(f, k))
    if f.nTopLevelNodes != n0:
        return 'it has %d top nodes, a new one %d' % (f.nTopLevelNodes, n0)
    return None


class Raising:
    """A logger that fails when it is used for the n-th time."""

    def __init__(self, n):
        self.n = n

    def log(self, *args):
        self.n -= 1
        if not self.n:
            raise OSError('the disk is full')
    debug = info = warning = log


def play_cache(c):
    """The caches of a catalog against a model of them."""
    cat = G.make_cat(c['cat'])
    fresh, tops = G.make_cat(c['cat']), {}
    model = {t: collections.OrderedDict() for t in 'NKZVGTQ'}   # key: weak reference
    size = {t: 1 for t in model}
    refs, held = {}, []
    last = None
    stats = {}
    viol = None
    hits = fails = 0
    for k, op in enumerate(c['ops']):
        a = op['op']
        stats['cache_' + a] = stats.get('cache_' + a, 0) + 1
        ts = [op['t']] if 't' in op else list(model)
        if a == 'resize':
            if 't' in op:
                getattr(cat, op['t'].lower() + 'fields').resize(op['n'])
            else:
                cat.resize_cache(op['n'])
            for t in ts:
                size[t] = op['n']
        elif a == 'clear':
            if 't' in op:
                getattr(cat, op['t'].lower() + 'fields').clear()
            else:
                cat.clear_cache()
                last = None
            for t in ts:
                model[t].clear()
        elif a == 'unload':         # nothing to unload, but the caches are cleared
            cat.unload()
            last = None
            for t in ts:
                model[t].clear()
        elif a == 'drop':
            held = []
        else:
            t, key = op['t'], op['key']
            get = getattr(cat, 'get%sField' % t)
            kw = dict(c['keys'][key])
            if op.get('bad'):
                kw['coords'] = 'bad'
            old = model[t].get(key) if not op.get('bad') else None
            f = None
            if op.get('fail'):
                kw['logger'] = Raising(op['fail'])
            try:
                f = get(**kw)
            except (OSError, ValueError):
                fails += 1
            if f is None and old is not None:
                viol = ['cache-lost', 'use %d: a cached %sField is built again' % (k, t)]
            elif f is not None and op.get('bad'):
                viol = ['cache-bad', 'use %d: invalid coords are accepted' % k]
            elif f is not None:
                if old is not None:
                    hits += 1
                    model[t].move_to_end(key)
                    if f is not old():
                        viol = ['cache-missed', 'use %d: the %sField with %s was among the %d used '
                                'last, but is built again' % (k, t, kw, size[t])]
                else:
                    w = weakref.ref(f)
                    if any(f is o() for o in refs.values()):
                        viol = ['cache-wrong', 'use %d: the %sField with %s is one of other '
                                'parameters or no longer cached' % (k, t, kw)]
                    refs[k] = w
                    model[t][key] = w
                kw.pop('logger', None)
                if (t, key) not in tops:
                    tops[t, key] = getattr(fresh, 'get%sField' % t)(**kw).nTopLevelNodes
                bad = wrong_field(f, t, kw, tops[t, key])
                if bad:
                    viol = viol or ['cache-wrong', 'use %d: a %sField with %s was asked for, but %s'
                                    % (k, t, kw, bad)]
                last = weakref.ref(f)
                if op.get('hold'):
                    held.append(f)
            f = None
        old = None
        for t in ts:
            while len(model[t]) > size[t]:
                model[t].popitem(last=False)
        if viol:
            break
        if cat.field is not (last() if last else None):
            viol = ['cache-field', 'use %d: cat.field is not the last one' % k]
            break
        keep = {id(w) for m in model.values() for w in m.values()}
        for i, w in list(refs.items()):
            x = w()
            if x is not None and id(w) not in keep and not any(x is h for h in held):
                x = None
                gc.collect()
                if w() is not None:
                    viol = ['cache-grows', 'after use %d (%s) a field that is neither used nor among '
                            'those to be cached is still there' % (k, json_op(op))]
                    break
            if x is None:
                if id(w) in keep:
                    viol = ['cache-lost', 'after use %d (%s) a field that should be cached is gone'
                            % (k, json_op(op))]
                    break
                del refs[i]
        if viol:
            break
    stats.update(cache_hits=hits, cache_failed=fails)
    sig = ('cache', c['ops'])
    res = {'viol': viol, 'stats': stats, 'states': [G.digest(repr(sig))], 'trivial': not hits,
           'digest': G.digest(repr(sig), repr(viol))}
    return res


def json_op(op):
    return ' '.join('%s=%s' % (k, v) for k, v in sorted(op.items()))


def run(c):
    if c.get('mode') == 'cache':
        return play_cache(c)
    with K.pandas_off(c['file'].get('nopandas')):
        return play(c)


def play(c):
    stats, states = {}, []
    f = c['file']
    files = [f] + ([c['file2']] if 'file2' in c else [])
    names = ['cat%d%s' % (i, K.suffix(x)) for i, x in enumerate(files)]
    twins, lazies = [], []
    rtol = 0.
    try:
        for x in files:
            t = K.twin(x)
            t.patches
            t2 = K.snap_cat(t)
            if t2['ntot'] < 1:
                raise ValueError('empty')
            twins.append(t)
    except REJ as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    for x, n in zip(files, names):
        K.write(x, n)
    root = os.path.abspath('.')
    case = with_(c, ops=[dict(op) for op in c['ops']])
    objs = []
    viol = None
    trace = []
    nontriv = 0

    def use(fn, fault, opi):
        """Run one use under the shim, with its fault; ('ok', value) or ('exc', exception)."""
        plan = []
        if fault:
            if 'op' in fault:
                plan = [[fault['op'], fault['act'], 0]]
            else:
                dry = simio.process(fn, root=root)
                plan = [p for p in [simio.resolve(fault, dry.ops)] if p]
            if opi is not None and plan:
                case['ops'][opi]['fault'] = {'act': plan[0][1], 'op': plan[0][0], 'arg': 0}
        j = simio.io(plan, c.get('rnd'), root)
        try:
            with j:
                v = fn()
            out = ('ok', v)
        except Exception as e:
            out = ('exc', e)
        simio.count_faults(j.ops, stats)
        hits = [(o.kind, o.act) for o in j.ops if o.act not in (None, 'short', 'eintr')]
        return out, hits

    (st, objs0), _ = use(lambda: [K.open_cat(x, n) for x, n in zip(files, names)], None, None)
    if st != 'ok':
        raise objs0
    pairs = [tuple(objs0)]
    for k, op in enumerate(c['ops']):
        who = op['on'] % len(pairs)
        cats = pairs[who]
        other = cats[1] if len(cats) > 1 else None
        tother = twins[1] if len(twins) > 1 else None
        stats['op_' + op['op']] = stats.get('op_' + op['op'], 0) + 1
        if op['op'] in ('unload', 'copy', 'pickle') or op.get('low'):
            nontriv += 1
        if op['op'] in ('copy', 'pickle'):
            fn = (lambda: tuple(x.copy() for x in cats)) if op['op'] == 'copy' else \
                (lambda: tuple(pickle.loads(pickle.dumps(x)) for x in cats))
            (st, v), hits = use(fn, op.get('fault'), k)
            if st != 'ok':
                (st, v), _ = use(fn, None, None)
            if st != 'ok':
                viol = ['%s-fails' % op['op'], '%r' % v]
                break
            pairs.append(v)
            trace.append((op['op'], hits))
            continue
        try:
            want = ('ok', do(op, twins[0], tother, 'w'))
        except REJ as e:
            want = ('exc', e)
        out, hits = use(lambda: do(op, cats[0], other, 'g'), op.get('fault'), k)
        trace.append((op['op'], op.get('a'), op.get('low'), hits, out[0], want[0]))
        if hits:
            nontriv += 1
            stats['uses_with_faults'] = stats.get('uses_with_faults', 0) + 1
            if out[0] == 'exc':
                stats['uses_failed'] = stats.get('uses_failed', 0) + 1
                out, _ = use(lambda: do(op, cats[0], other, 'g'), None, None)
                if out[0] == 'exc' and want[0] == 'ok':
                    viol = ['retry-%s:%s' % (op['op'], type(out[1]).__name__),
                            'use %d (%s) failed when reading failed (%s), but fails again '
                            'without a fault: %r' % (k, brief(op), hits, out[1])]
                    break
        if out[0] != want[0]:
            e = out[1] if out[0] == 'exc' else want[1]
            viol = ['outcome-%s:%s:%s' % (op['op'], out[0], type(e).__name__),
                    'use %d (%s): %s' % (k, brief(op), 'fails: %r' % e if out[0] == 'exc' else
                                         'succeeds, but with the data in memory: %r' % e)]
            break
        if out[0] == 'ok':
            d = diff_obs(out[1], want[1], rtol, op)
            if d:
                viol = ['value-%s' % (op['op']),
                        'use %d (%s%s): %s' % (k, brief(op), ', after a failed read' if hits else '',
                                               d)]
                break
    sig = (sorted((k, str(v)) for k, v in f.items() if k != 'cat'), trace)
    states.append(hashlib.sha256(repr(sig).encode()).hexdigest()[:16])
    stats['fmt_' + f['fmt']] = 1
    stats['patch_%s' % f.get('patch')] = 1
    res = {'viol': viol, 'stats': stats, 'states': states, 'trivial': not nontriv,
           'digest': G.digest(repr(sig), repr(viol))}
    if viol:
        res['case'] = case
        res['ident'] = '%s %s' % (viol[0], f.get('patch'))
    return res


def brief(op):
    return ' '.join(str(op[k]) for k in ('op', 'a', 'type', 't') if k in op) + \
        (' low_mem' if op.get('low') else '')


def shrinks(c):
    if c.get('mode') == 'cache':
        for ops in G.chunks_removed(c['ops']):
            yield with_(c, ops=ops)
        for i, op in enumerate(c['ops']):
            for x in ('hold', 'fail', 'bad'):
                if x in op:
                    yield with_(c, ops=c['ops'][:i] + [with_(op, **{x: DROP})] + c['ops'][i + 1:])
        return
    for ops in G.chunks_removed(c['ops']):
        yield with_(c, ops=ops)
    for i, op in enumerate(c['ops']):
        if 'fault' in op:
            yield with_(c, ops=c['ops'][:i] + [with_(op, fault=DROP)] + c['ops'][i + 1:])
        if op.get('low'):
            yield with_(c, ops=c['ops'][:i] + [with_(op, low=0)] + c['ops'][i + 1:])
    if c.get('rnd'):
        yield with_(c, rnd=DROP)
    if 'file2' in c and not any(op.get('cross') == 1 for op in c['ops']):
        yield with_(c, file2=DROP)
    for f in K.shrink_file(c['file']):
        if c['file'].get('nopandas') and not f.get('nopandas'):
            continue
        if any(op.get('t', 'N') not in 'N' + f['fields'] for op in c['ops']):
            continue
        if any(x not in 'N' + f['fields'] for op in c['ops'] for x in op.get('type', '')):
            continue
        d = with_(c, file=f)
        if 'file2' in c:
            g = with_(f, cat=with_(f['cat'], seed=c['file2']['cat']['seed']))
            if f.get('patch') == 'centers':
                g['cen'] = dict(f)
            d['file2'] = g
        yield d
