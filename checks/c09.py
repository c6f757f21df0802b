"""C09: stored results survive a restart; damaged files are never mistaken for good ones."""
import hashlib
import os
import re
import shutil

import numpy as np

from tcsim import gen as G, outputs as O, ranks as R, simio, system
from tcsim.gen import with_, DROP

PROPERTY = 'C09'
USES_SIMIO = True
QUICK = {'runs': 4000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run either (restart) writes a finished or partly accumulated correlation in some '
        'format, reads it back in a new process under split and interrupted reads, and lets both '
        'the original and the restored object do the same further things (covariances by every '
        'method, design matrices, combined covariances, accumulating more data, summing, copying, '
        'writing and reading again, aperture statistics); or (kill) replaces an older file, or '
        'none, by a process that is killed at an arbitrary operation with a torn last write, or '
        'meets an I/O error, and reads what is there. Non-trivial: a restored object with pairs, '
        'or a process that was really killed.')
STATES = 'distinct histories: hash of (operations after restart) or of the I/O trace up to the kill'
REAL = ['treecorr Python package', 'TreeCorr C++ extension', 'numpy, fitsio/cfitsio, h5py/libhdf5',
        'one real process per process lifetime']
STUB = ['file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'OpenMP: one thread']
ASSUMPTIONS = ['a killed process loses nothing the kernel had accepted (no power failure)',
               'values written as text or as FITS keywords carry 15 significant digits']
METHODS = ['shot', 'jackknife', 'sample', 'bootstrap', 'marked_bootstrap']


def setup():
    system.start()


# ---------------------------------------------------------------------------------- generation
def generate(r, i, tier):
    if r.random() < 0.4:
        return gen_kill(r)
    o = O.obj_spec(r, kinds=('corr2', 'corr2', 'corr3'), nmax=r.choice([12, 40]))
    if r.random() < 0.8 and o['npatch'] == 1:
        o['npatch'] = n = r.choice([2, 3, 4])
        o['cats'] = R.patch_cats(r, o['coords'], 2, n, 14 if o['what'] == 'corr3' else 30)
    if o['npatch'] > 1 and len(o['use']) > 1 and r.random() < 0.25:
        j = r.randrange(2)          # patches on one side only
        o['cats'] = [with_(s, npatch=DROP, patch_gap=DROP) if k == j else s
                     for k, s in enumerate(o['cats'])]
    w = O.write_spec(r, o)
    w.pop('precision', None)
    coarse = False
    if O.kind_of(w) == 'dat':
        # The totals are given with few digits, but what belongs to the patches never is.
        coarse = bool(w.get('patch_results')) and r.random() < 0.4
        if not coarse:
            w['precision'] = 16
        elif r.random() < 0.5:
            w['precision'] = r.choice([3, 6])
    c = {'mode': 'restart', 'obj': o, 'write': w, 'seed': r.randrange(1 << 20),
         'rnd': [r.randrange(1 << 30), r.choice([0, 0, 400, 900]), r.choice([0, 0, 200])],
         'partial': 0, 'read': r.choice(['from_file', 'from_file', 'base', 'read', 'read-used'])}
    if r.random() < 0.25 and o['kw'].get('bin_type') != 'LogSAS':   # cf. C07: sas-multipole-steps
        c['partial'] = 1
        if coarse:
            coarse, w['precision'] = False, 16
        o.pop('est', None)
        o.pop('var', None)
        w.pop('cov', None)
        w.pop('pass_r', None)
    ops = ['cov', 'cov', 'design', 'multi', 'copy', 'rewrite', 'stat']
    if c['partial']:
        ops = ['add', 'more', 'more', 'copy', 'rewrite']
    elif coarse:
        c['coarse'] = 1
        w.pop('cov', None)
        ops = ['cov', 'cov', 'design', 'multi', 'copy']
    c['ops'] = []
    for _ in range(r.choice([1, 2, 2, 3])):
        op = {'op': r.choice(ops)}
        if op['op'] in ('cov', 'design', 'multi'):
            op['method'] = r.choice(METHODS[op['op'] == 'design' or coarse:])
        if op['op'] in ('add', 'more'):
            op['spec'] = r.randrange(1 << 20)
        c['ops'].append(op)
    if c['partial']:
        c['ops'].append({'op': 'more', 'spec': r.randrange(1 << 20), 'final': 1})
        for _ in range(r.choice([0, 1, 2])):
            c['ops'].append({'op': 'cov', 'method': r.choice(METHODS[1:])})
    return c


def gen_kill(r):
    o = O.obj_spec(r, kinds=('corr2', 'corr2', 'corr3', 'cat'), nmax=r.choice([12, 40]))
    if o['what'] == 'cat' and r.random() < 0.2:
        o['cats'] = [with_(s, n=r.choice([300, 900])) for s in o['cats']]
    w = O.write_spec(r, o)
    c = {'mode': 'kill', 'obj': o, 'write': w, 'older': r.choice([0, 1, 1, 2]),
         'fault': {'act': r.choice(['crash'] * 5 + ['eio', 'full', 'enospc']),
                   'at': r.randrange(1 << 16), 'arg': r.choice([0, 1, 100, 500, 900, 990, 999, 1000])}}
    if r.random() < 0.4:
        c['fault']['kind'] = r.choice(['write', 'close', 'rename', 'write'])
    if r.random() < 0.3:
        c['rnd'] = [r.randrange(1 << 30), r.choice([300, 900]), 0]
    return c


# ---------------------------------------------------------------------------------- kill
def read_back(o, w, base):
    """Snapshot of what a reader finds."""
    import treecorr
    p = O.path_of(w, base)
    ft = w['fmt'].split('+')[1] if '+' in w['fmt'] else None
    if o['what'] == 'cat':
        cat = G.make_cat(o['cats'][0], o['fields'])
        if w['fn'] == 'write_patch_centers':
            return {'centers': np.array(cat.read_patch_centers(p))}
        kw = {k: v for k, v in G.cat_kwargs(o['cats'][0], o['fields']).items()
              if not k.endswith('_units')}
        a = {k + '_col': k for k in kw}
        if 'ra' in kw:
            a['ra_units'] = a['dec_units'] = 'rad'
        if o.get('kz'):
            a['keep_zero_weight'] = True
        c = treecorr.Catalog(p, file_type=ft, **a)
        c.load()
        return {k: np.array(getattr(c, k)) for k in kw if getattr(c, k) is not None}
    c = getattr(treecorr, o['type'] + 'Correlation').from_file(p, file_type=ft)
    s = R.snap_all(c, skip=())
    flat = dict(s['main'])
    for k, v in s['results'].items():
        for a, b in v.items():
            flat['%s%s' % (a, k)] = b
    flat['npatch'] = np.array([x or 0 for x in s['npatch']])
    return flat


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind in 'fc')
                                    for k in a)


def run_kill(c):
    o, w = c['obj'], c['write']
    stats, states = {}, []
    older = with_(o, cats=[with_(s, seed=s['seed'] + 7, n=max(4, s['n'] * (3 if c['older'] == 2 else 1)
                                                              - (1 if c['older'] == 1 else 0)))
                           for s in o['cats']])
    try:
        new = O.build(o)
        old = O.build(older) if c['older'] else None
    except O.Rejected as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    w = with_(w, prior=0)
    try:
        for base, x, oo in (('A', old, older), ('B', new, o)):
            if x:
                O.prepare(w, base)
                O.call_writer(x[0], oo, w, x[1], base)
    except (ValueError, TypeError, RuntimeError, AttributeError, NotImplementedError) as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    try:
        good = {k: read_back(o, w, k) for k in ('A', 'B') if k == 'B' or old}
    except Exception as e:          # what was written cannot be read at all: judged by 'restart'
        return {'viol': None, 'stats': {'unreadable': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('unreadable', type(e).__name__)}

    def start(base):
        if old:
            shutil.copytree('A', base)
        else:
            O.prepare(w, base)
    start('dry')
    with simio.io(root=os.path.abspath('dry')) as dry:
        O.call_writer(new[0], o, w, new[1], 'dry')
    plan = [p for p in [simio.resolve(c['fault'], dry.ops)] if p]
    start('run')
    out = simio.process(lambda: O.call_writer(new[0], o, w, new[1], 'run') and None, plan,
                        c.get('rnd'), root=os.path.abspath('run'))
    act = c['fault']['act']
    stats['write_' + out.status] = 1
    if plan:
        op = dry.ops[plan[0][0]] if plan[0][0] < len(dry.ops) else None
        stats['fault_%s_%s' % (act, op.kind if op else 'none')] = 1
    viol = None
    rd = simio.process(lambda: read_back(o, w, 'run'), root=os.path.abspath('run'))
    if out.status == 'died':
        viol = ['writer-died', 'the writing process died: %s' % out.error]
    elif rd.status in ('died', 'killed'):
        viol = ['reader-died', 'reading the file after the fault ended the process: %s' % rd.error]
    elif rd.status == 'ok':
        got = next((k for k in sorted(good, reverse=True) if same(rd.value, good[k])), None)
        stats['read_' + {'A': 'old', 'B': 'new', None: 'damaged'}[got]] = 1
        if got is None:
            viol = ['damaged-mistaken', 'after the fault (%s) the file is read without an error, '
                    'but gives neither the old nor the new data: %s'
                    % (plan, G.diff_snap(rd.value, good['B']))]
        elif got == 'A' and out.status == 'ok':
            viol = ['success-but-old', 'the write returned normally but the old data are read']
    else:
        stats['read_error'] = 1
        if out.status == 'ok':
            viol = ['success-but-unreadable', 'the write returned normally but reading raises %s'
                    % rd.error]
    sig = (act, plan, [(x.kind, re.sub('[0-9a-f]{32}', '*', x.path), x.req) for x in dry.ops],
           old is not None)
    states.append(hashlib.sha256(repr(sig).encode()).hexdigest()[:16])
    stats['fmt_' + O.kind_of(w)] = 1
    res = {'viol': viol, 'stats': stats, 'states': states,
           'trivial': out.status == 'ok' and act == 'crash',
           'digest': G.digest(sig, out.status, rd.status, repr(viol))}
    if viol:
        if plan:
            res['case'] = with_(c, fault={'act': act, 'op': plan[0][0], 'arg': plan[0][2]})
        res['ident'] = '%s %s %s' % (O.kind_of(w), w['fn'], act)
    return res


# ---------------------------------------------------------------------------------- restart
def build_obj(c):
    """The object to be stored (with its own generator), and what its writer needs."""
    o = c['obj']
    rng = np.random.RandomState(c['seed'])
    if not c['partial']:
        obj, more = O.build(o)
    else:
        cats = [O.make_input(s, npatch=s.get('npatch', 1)) if s.get('npatch') else O.make_input(s)
                for s in o['cats']]
        obj = G.make_corr2(o['type'], o['kw'])
        obj.process(*[cats[j] for j in o['use']], finalize=False)
        more = {}
    obj._rng = rng
    return obj, more, rng


def more_cats(o, seed):
    out = []
    for j in o['use']:
        s = o['cats'][j]
        s = with_(s, seed=s['seed'] + seed + 1, n=max(4, s['n'] - 3))
        out.append(O.make_input(s))
    return out


def play(c, obj, more, rng, base, check):
    """Do the further operations on obj; returns the list of observations."""
    import treecorr
    o, w = c['obj'], c['write']
    obs = []
    other = None
    rej = R.REJECT + (AssertionError, IndexError)
    for k, op in enumerate(c['ops']):
        rng.seed(c['seed'] + k)
        what = op['op']
        if what in ('cov', 'design', 'multi') and not w.get('patch_results'):
            continue        # needs the results of the patches, which were not stored
        try:
            if what == 'cov':
                obs.append(np.array(obj.estimate_cov(op['method'])))
            elif what == 'design':
                a = obj.build_cov_design_matrix(op['method'])
                obs.append([np.array(x) for x in a])
            elif what == 'multi':
                obs.append(np.array(treecorr.estimate_multi_cov([obj, obj], op['method'])))
            elif what == 'stat':
                obs.append(np.array(obj.getStat()))
                obs.append(np.array(obj.getWeight()))
            elif what == 'copy':
                obj = obj.copy()
                obj._rng = rng
            elif what == 'rewrite':
                w2 = with_(w, name='again%d' % k)
                O.call_writer(obj, o, w2, more, base)
                new = getattr(treecorr, o['type'] + 'Correlation').from_file(
                    O.path_of(w2, base),
                    file_type=w['fmt'].split('+')[1] if '+' in w['fmt'] else None)
                obs.append(snap(c, new, skip=['cov'] + raws(o)))
            elif what == 'add':
                x = G.make_corr2(o['type'], o['kw'])
                x.process(*more_cats(o, op['spec']), finalize=False)
                obj += x
            elif what == 'more':
                obj.process(*more_cats(o, op['spec']), initialize=False,
                            finalize=bool(op.get('final')))
                obs.append(snap(c, obj, skip=('cov',)))
        except rej as e:
            # An operation that makes no sense for this object: it must make none for the other.
            obs.append(('rejected', type(e).__name__))
            if c['partial']:
                break
    return obs


def snap(c, corr, skip=()):
    """What both objects must agree about."""
    s = R.snap_all(corr, skip=skip)
    if not c['write'].get('patch_results'):
        # Then only the totals are stored.
        s['results'], s['npatch'] = {}, None
    if c['obj']['type'] in ('NN', 'NNN'):
        for k in ('varxi', 'varzeta'):      # (1-d even for 2-d bins after calculateXi)
            if k in s['main']:
                v = np.ravel(s['main'][k])
                s['main'][k] = np.where(v < 0, np.nan, v)   # sigma is stored
        for v in s['results'].values():     # not set by anything for single patches
            for k in ('xi', 'varxi', 'zeta', 'varzeta', 'cov'):
                v.pop(k, None)
            if not np.any(v['ntri'] if 'ntri' in v else v['npairs']):
                for k in [k for k in v if k != 'tot']:      # only rounding errors, not stored
                    del v[k]
    if c['partial']:
        # Nothing stores the variance of the catalogs processed before the restart, so the
        # shot noise is that of the catalogs seen since.
        for v in [s['main']] + list(s['results'].values()):
            for k in [k for k in v if k.startswith(('var', 'raw_var'))]:
                del v[k]
    return s


def raws(o):
    # Stored are the compensated values only.
    return ['raw_xi', 'raw_xi_im', 'raw_varxi'] if o.get('est') and o['type'] != 'NN' else []


def run_restart(c):
    import treecorr
    o, w = c['obj'], c['write']
    stats, states = {}, []
    try:
        obj, more, rng = build_obj(c)
    except O.Rejected as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    except R.REJECT as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    os.makedirs('a')
    os.makedirs('b')
    try:
        O.call_writer(obj, o, w, more, 'a')
    except (ValueError, TypeError, RuntimeError, AttributeError, NotImplementedError) as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    patches = bool(w.get('patch_results'))
    skip = raws(o)
    ft = w['fmt'].split('+')[1] if '+' in w['fmt'] else None

    def restored():
        rng2 = np.random.RandomState(c['seed'] + 1000)
        how = c['read']
        cls = getattr(treecorr, o['type'] + 'Correlation')
        p = O.path_of(w, 'a')
        if how == 'from_file':
            x = cls.from_file(p, file_type=ft, rng=rng2)
        elif how == 'base':
            x = (treecorr.Corr3 if o['what'] == 'corr3' else treecorr.Corr2).from_file(
                p, file_type=ft, rng=rng2)
        else:
            kw = dict(o['kw'])
            if o.get('var'):
                kw['var_method'] = o['var']
            x = G.make_corr2(o['type'], kw, rng=rng2)
            if how == 'read-used':
                try:
                    x.process(*more_cats(o, 555))
                except R.REJECT:
                    pass
                if not o.get('var') and o['type'] not in ('NN', 'NNN'):
                    x.cov
            x.read(p, file_type=ft)
        first = snap(c, x, skip=() if not c['partial'] and patches else ('cov',))
        return first, play(c, x, more, rng2, 'b', True)

    rd = simio.process(restored, rnd=c['rnd'], root=os.path.abspath('a'))
    simio.count_faults(rd.ops or [], stats)
    want = snap(c, obj, skip=() if not c['partial'] and patches else ('cov',))
    obs = play(c, obj, more, rng, 'a', False) if patches or c['partial'] else []
    viol = None
    stats['read_' + c['read']] = 1
    stats['fmt_' + O.kind_of(w)] = 1
    stats['type_' + o['type']] = 1
    if rd.status != 'ok':
        viol = ['unreadable:' + (rd.error or '').split(':')[0],
                'reading back what was written: %s %s\n%s' % (rd.status, rd.error, rd.tb)]
    else:
        got, obs2 = rd.value
        for s in (got['main'], want['main']):
            for k in skip:
                s.pop(k, None)
        if c.get('coarse'):
            got['main'] = want['main'] = {}
        d = R.diff_all(got, want, wf=1e-7 if o['kw'].get('bin_type') == 'LogMultipole' else None,
                       rtol=1e-9)
        if d:
            viol = ['restored-' + d[0], 'the restored object: ' + d[1]]
        elif patches or c['partial']:
            for k, (a, b) in enumerate(zip(obs2, obs)):
                if not patches and (isinstance(a, tuple) or isinstance(b, tuple)):
                    break       # e.g. cannot add patches to something without
                d = diff_obs(a, b, c)
                if d:
                    viol = ['later-' + (c['ops'][min(k, len(c['ops']) - 1)]['op']),
                            'observation %d after the restart: %s' % (k, d)]
                    break
            else:
                if len(obs) != len(obs2):
                    viol = ['later-rejects', '%d observations instead of %d'
                            % (len(obs2), len(obs))]
    sig = ('restart', o['type'], w, c['read'], [x['op'] + x.get('method', '') for x in c['ops']])
    states.append(G.digest(repr(sig)))
    res = {'viol': viol, 'stats': stats, 'states': states,
           'trivial': not np.any(np.asarray(want['main'].get('npairs', want['main'].get('ntri')))),
           'digest': G.digest(repr(sig), repr(viol), want['main'])}
    if viol:
        res['ident'] = '%s %s' % (O.kind_of(w), o['type'])
    return res


def diff_obs(a, b, c):
    if isinstance(b, tuple) or isinstance(a, tuple):
        return None if type(a) is type(b) and a[0] == b[0] else '%r, expected %r' % (a if isinstance(a, tuple) else '...',
                                                        b if isinstance(b, tuple) else '...')
    mp = c['obj']['kw'].get('bin_type') == 'LogMultipole'
    if isinstance(b, dict):
        d = R.diff_all(a, b, wf=1e-7 if mp else None, rtol=1e-8)
        return d and '%s %s' % d
    if isinstance(b, list):
        for x, y in zip(a, b):
            d = diff_obs(x, y, c)
            if d:
                return d
        return None
    sc = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0.
    return G.diff_arrays('values', a, b, 1e-7, 1e-8 * max(sc, 1e-12))


def run(c):
    return run_kill(c) if c['mode'] == 'kill' else run_restart(c)


def shrinks(c):
    if c['mode'] == 'restart':
        for ops in G.chunks_removed(c['ops']):
            yield with_(c, ops=ops)
        if c['rnd'][1] or c['rnd'][2]:
            yield with_(c, rnd=[1, 0, 0])
        if c['read'] != 'from_file':
            yield with_(c, read='from_file')
    else:
        if c['older']:
            yield with_(c, older=0)
        if c.get('rnd'):
            yield with_(c, rnd=DROP)
    for w in O.shrink_write(c['write']):
        if c['mode'] == 'restart' and O.kind_of(w) == 'dat' and w.get('precision') != 16 and \
                not c.get('coarse'):
            w = with_(w, precision=16)
            if w == c['write']:
                continue
        yield with_(c, write=w)
    for o in O.shrink_obj(c['obj']):
        yield with_(c, obj=o)
