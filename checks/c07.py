"""C07: accumulating in several steps counts every pair and triangle exactly once."""
import json
import pickle

import numpy as np

from tcsim import gen as G, mpi, ranks as R, system
from tcsim.gen import with_, DROP

PROPERTY = 'C07'
QUICK = {'runs': 6000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws catalogs (patches, lists, files or neither), one correlation and a history of '
        '1-7 operations: processing calls with and without communicator, low memory, local patches, '
        'direct single-catalog calls, merged partial sums, copies and pickles taken half way, looks '
        'at unfinished copies, resets; on 1-5 ranks with a message schedule. Non-trivial: at least '
        'two accumulating operations since the last reset and something counted.')
STATES = 'distinct histories of operations and, with ranks, distinct message schedules'
REAL = ['treecorr Python package', 'TreeCorr C++ extension', 'one process per rank']
STUB = ['MPI library and network (simulated communicator and scheduler)', 'OpenMP: one thread']
ASSUMPTIONS = ['partial sums are merged before any of them is finalized, as documented']
FIELDS = 'NKZVGTQ'


def setup():
    system.start()


# ------------------------------------------------------------------------------------ generation
def _use(r, t, ncat):
    if len(t) == 3:
        k = r.choice([1, 1, 2, 3])
    else:
        k = 1 if t[0] == t[1] and r.random() < 0.6 else 2
    return [r.randrange(ncat) for _ in range(k)]


def generate(r, i, tier):
    coords = r.choice(['flat', 'flat', 'sphere', '3d'])
    three = r.random() < 0.35
    t = r.choice(G.TYPES3) if three else r.choice(G.TYPES2 + ['NN'] * 4)
    npatch = r.choice([1, 2, 2, 3, 4, 6])
    nmax = r.choice([8, 14] if three else [10, 40, 80])
    c = {'coords': coords, 'type': t, 'nranks': r.choice([1, 1, 1, 2, 2, 3, 5])}
    c['cats'] = R.patch_cats(r, coords, 3, npatch, nmax)
    src = r.choice(['memory', 'memory', 'list', 'file', 'plain', 'pieces'])
    c['src'] = [src] * 3
    if r.random() < 0.2:
        c['src'][r.randrange(3)] = 'plain'
    if src == 'pieces' and r.random() < 0.5:
        j = r.randrange(3)
        c['cats'][j] = with_(c['cats'][j], npatch=r.choice([2, 3, 5]))
    if three and r.random() < 0.04:
        c['sasmulti'] = 1
    kw = G.corr3_config(r, coords, 10., small=True) if three else G.corr2_config(r, coords, 10., False)
    for k in ('min_top', 'max_top', 'brute'):
        kw.pop(k, None)
    if kw.get('bin_type') == 'LogMultipole' and 'period' in kw:
        # Its phases do not wrap, so its weights do not vanish with its counts.
        kw.pop('period')
        kw.pop('metric')
    if c.get('sasmulti'):
        for k in list(kw):
            if k not in ('min_sep', 'max_sep', 'nbins', 'sep_units', 'metric', 'period'):
                kw.pop(k)
        kw.update(bin_type='LogSAS', nphi_bins=r.choice([3, 6]), bin_slop=0)
    c['kw'] = kw
    c['boot'] = r.randrange(1 << 20)
    # Mixing arities makes the final variance a matter of convention: only some histories do.
    mixed = r.random() < 0.3
    first = _use(r, t, 3)
    ops = []
    for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7])):
        k = r.random()
        if k < 0.6 or not ops:
            use = _use(r, t, 3)
            if not mixed:
                use = [r.randrange(3) for _ in first]
            op = {'op': 'process', 'use': use}
            if len(ops) and r.random() < 0.15:
                op['init'] = 1
            if r.random() < 0.6:
                op['comm'] = 1
            if r.random() < 0.25:
                op['low_mem'] = 1
            if r.random() < 0.15:
                op['local'] = 1
            if three and len(use) > 1:
                op['ordered'] = r.random() < 0.6
        elif k < 0.7:
            op = {'op': 'direct', 'use': _use(r, t, 3) if mixed else [r.randrange(3) for _ in first]}
            if three and len(op['use']) > 1:
                op['ordered'] = r.random() < 0.6
        elif k < 0.78:
            op = {'op': 'iadd', 'use': _use(r, t, 3) if mixed else [r.randrange(3) for _ in first]}
            if three and len(op['use']) > 1:
                op['ordered'] = r.random() < 0.6
        elif k < 0.86:
            op = {'op': 'copy', 'swap': r.randrange(2)}
        elif k < 0.91:
            op = {'op': 'pickle'}
        elif k < 0.97:
            op = {'op': 'peek', 'self': r.randrange(2), 'method': r.choice(
                ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap'])}
        else:
            op = {'op': 'clear'}
        ops.append(op)
    if r.random() < 0.12:
        # a whole earlier life: finished, used, then reset
        ops[0:0] = [with_(o, **{}) for o in ops if o['op'] == 'process'][:2] + [{'op': 'finish'}]
        j = next((k for k, o in enumerate(ops) if k and ops[k - 1]['op'] == 'finish'), None)
        if j is not None and ops[j]['op'] == 'process':
            ops[j] = with_(ops[j], init=1)
        else:
            ops.insert(1 + [o['op'] for o in ops].index('finish'), {'op': 'clear'})
    if r.random() < 0.15:
        # an earlier life on data cut into other patches
        ops.insert(0, {'op': 'before', 'use': [r.randrange(3) for _ in first],
                       'np': [r.choice([0, 2, 3, 5])] * 3})
        if r.random() < 0.3:
            ops[0]['np'] = [0, ops[0]['np'][0], ops[0]['np'][0]]
        if r.random() < 0.5:
            ops[0]['look'] = r.choice(['cov', 'jackknife', 'marked_bootstrap'])
        if ops[1]['op'] != 'process' or r.random() < 0.3:
            ops.insert(1, {'op': 'clear'})
    c['ops'] = ops
    c['end'] = r.choice(['auto', 'manual'])
    c['sched'] = mpi.random_schedule(r, c['nranks'])
    return c


# ------------------------------------------------------------------------------------ observation
SKIP = tuple(a for a in G.ATTRS2 + G.ATTRS3 if a.startswith(('var', 'raw_var'))) + ('cov',)


def raw(corr):
    return {'main': G.snapshot(corr, skip=SKIP),
            'results': {k: G.snapshot(v, skip=SKIP) for k, v in sorted(corr.results.items())}}


def add(a, b):
    """The sum of two raw states."""
    def plus(x, y):
        return {k: (x[k] if k in x else 0) + (y[k] if k in y else 0) for k in set(x) | set(y)}
    if a is None:
        return b
    return {'main': plus(a['main'], b['main']),
            'results': {k: (plus(a['results'][k], b['results'][k])
                            if k in a['results'] and k in b['results']
                            else a['results'].get(k, b['results'].get(k)))
                        for k in set(a['results']) | set(b['results'])}}


def counts(s):
    return bool(np.any(s.get('npairs', s.get('ntri'))) or np.any(s.get('tot', 0)))


def diff_raw(got, want, rtol=1e-9, floor=0.):
    def cmp(x, y):
        w = float(np.abs(y.get('weight', 0.)).max(initial=0.))      # logarithms cancel
        for k in sorted(set(x) & set(y)):
            s = max(np.abs(y[k]).max() if np.size(y[k]) else 0., w)
            if k in G.EXACT:
                d = G.diff_arrays(k, x[k], y[k])
            else:
                d = G.diff_arrays(k, x[k], y[k], rtol, max(floor, 1e-10 * max(s, 1e-9)))
            if d:
                return d
    d = cmp(got['main'], want['main'])
    if d:
        return 'totals', d
    a, b = set(got['results']), set(want['results'])
    # Whether patches without any pair are listed depends on what else was processed.
    ka = {k for k in a if counts(got['results'][k])}
    kb = {k for k in b if counts(want['results'][k])}
    if ka - b or kb - a:
        return 'keys', 'results: only here %s, only expected %s' % (sorted(ka - b), sorted(kb - a))
    for k in sorted(a & b):
        d = cmp(got['results'][k], want['results'][k])
        if d:
            return 'patch-results', 'results[%s] %s' % (k, d)


def make(c):
    return G.make_corr2(c['type'], c['kw'], num_bootstrap=9, rng=np.random.RandomState(c['boot']))


def build(c):
    pat = [R.build_input(s, FIELDS, h, 'in%d.fits' % j)
           for j, (s, h) in enumerate(zip(c['cats'], c['src']))]
    plain = [R.build_input(s, FIELDS, 'plain', None) for s in c['cats']]
    return pat, plain


def _kw(c, op):
    p = {}
    if op.get('local'):
        p['patch_method'] = 'local'
    if 'ordered' in op:
        p['ordered'] = bool(op['ordered'])
    if c['kw'].get('bin_type') == 'LogSAS' and not c.get('sasmulti'):
        p['algo'] = 'triangle'
    return p


def direct(c, corr, op, plain):
    a = [plain[j] for j in op['use']]
    q = {'ordered': bool(op['ordered'])} if 'ordered' in op else {}
    if len(a) == 1:
        corr.process_auto(a[0])
    elif len(a) == 2 and len(c['type']) == 3:
        corr.process_cross12(*a, **q)
    else:
        corr.process_cross(*a, **q)


def partial(c, op, cats):
    """The contribution of one operation, on a fresh object."""
    corr = make(c)
    if op['op'] == 'direct':
        direct(c, corr, op, cats[1])
    else:
        corr.process(*[cats[0][j] for j in op['use']], finalize=False, **_kw(c, op))
    return corr


ACC = ('process', 'direct', 'iadd')


def used(c):
    """The accumulating operations that count at the end, and what they count at every op."""
    live, hist = [], []
    for op in c['ops']:
        if op['op'] == 'clear' or op.get('init'):
            live = []
        if op['op'] in ACC:
            live = live + [op]
        hist.append(list(live))
    return live, hist


def whole(c, op, cats):
    """One operation on the same data without any patches."""
    corr = make(c)
    p = {k: v for k, v in _kw(c, op).items() if k != 'patch_method'}
    corr.process(*[cats[1][j] for j in op['use']], finalize=False, **p)
    return corr


def check_whole(c, op, part, cats):
    """Patches neither lose nor repeat anything."""
    if op['op'] == 'direct':
        return None
    want = raw(whole(c, op, cats))['main']
    got = part['main']
    # The local method counts each pair of an auto-correlation from both sides.
    f = 2. if op.get('local') and len(c['type']) == 2 and c['kw'].get('bin_type') != 'TwoD' \
         and len(op['use']) == 1 \
        and part['results'] else 1.
    names = ['tot']
    # The other metrics and ranges of rpar are approximate for large cells.
    if c['kw'].get('bin_slop') == 0 and 'min_rpar' not in c['kw'] and \
            c['kw'].get('metric', 'Euclidean') in ('Euclidean', 'Arc', 'Periodic') and \
            not (len(c['type']) == 3 and 4 * c['kw']['max_sep'] > c['kw'].get('period', 1e9)) and \
            all(c['cats'][j]['dist'] not in ('lattice', 'dups') for j in op['use']):
        names += ['npairs', 'ntri']
        if c['kw'].get('bin_type') != 'LogMultipole':
            names += ['weight', 'weightr']
    for k in names:
        if k in got:
            d = G.diff_arrays(k, got[k], f * want[k], 1e-9, 1e-9 * max(np.abs(want[k]).max(initial=0), 1e-3))
            if d:
                return d


def finalize(corr, v):
    """corr.finalize with the right number of variances."""
    try:
        n = corr.finalize.__code__.co_argcount - 1
    except AttributeError:
        n = len(v)
    corr.finalize(*([1.5, 0.75, 0.5][:n] if v is None else v[:n]))


def finish(c, corr, cats):
    """Ends and uses the object as a user would, before its next life."""
    finalize(corr, None)
    t = c['type']
    other = make(c)
    try:
        if t == 'NN':
            other.process(cats[1][0])
            corr.calculateXi(rr=other)
        elif t == 'NNN':
            other.process(cats[1][0], **({'algo': 'triangle'} if c['kw']['bin_type'] == 'LogSAS' else {}))
            corr.calculateZeta(rrr=other)
        elif t == 'NK':
            other.process(cats[1][0], cats[1][1])
            corr.calculateXi(rk=other)
        elif t == 'NG':
            other.process(cats[1][0], cats[1][1])
            corr.calculateXi(rg=other)
        if corr.results:
            corr.estimate_cov('bootstrap')
    except R.REJECT:
        pass


def earlier(c, op, corr):
    """An earlier life of the object, with other patches."""
    q = {k: v for k, v in _kw(c, op).items() if k == 'algo'}
    try:
        cats = [R.build_input(with_(c['cats'][j], npatch=n or DROP, patch_gap=DROP), FIELDS,
                              'memory' if n else 'plain', None)
                for j, n in zip(op['use'], op['np'])]
        corr.process(*cats, **q)
        if op.get('look') == 'cov':
            corr.cov
        elif op.get('look'):
            corr.estimate_cov(op['look'])
    except R.REJECT + (AssertionError,):
        pass


def program(c, comm):
    try:
        return _program(c, comm)
    except R.REJECT as e:
        # Loud refusals of strange histories and data.
        if 'same patches' in str(e) or 'math domain' in str(e):
            return 'rejected', str(e)
        raise


def _program(c, comm):
    cats = build(c)
    corr = make(c)
    kept, out = [], []
    lead = comm is None or comm.rank == 0
    last = max([k for k, o in enumerate(c['ops']) if o['op'] in ACC])
    fresh = True
    ended = False
    for n, op in enumerate(c['ops']):
        k = op['op']
        if k == 'process':
            p = _kw(c, op)
            if op.get('low_mem'):
                p['low_mem'] = True
            if op.get('comm') and comm is not None:
                p['comm'] = comm
            ended = c['end'] == 'auto' and n == len(c['ops']) - 1
            corr.process(*[cats[0][j] for j in op['use']], initialize=fresh or bool(op.get('init')),
                         finalize=ended, **p)
            fresh = False
        elif k == 'direct':
            direct(c, corr, op, cats[1])
            fresh = False
        elif k == 'iadd':
            if lead:
                corr += partial(c, op, cats)
            fresh = False
        elif k == 'copy':
            other = corr.copy()
            if op['swap']:
                corr, other = other, corr
            kept.append((n, other, raw(other)))
        elif k == 'pickle':
            corr = pickle.loads(pickle.dumps(corr))
        elif k == 'clear':
            corr.clear()
            fresh = False
        elif k == 'finish':
            if lead:
                finish(c, corr, cats)
            fresh = True
        elif k == 'before':
            earlier(c, op, corr)
        elif k == 'peek':
            try:
                if op['self']:
                    corr.estimate_cov(op['method'])
                else:
                    d = corr.copy()
                    finalize(d, None)
                    d.estimate_cov(op['method'])
            except R.REJECT + (AssertionError,):      # mixed patch numbers
                pass
        if lead:
            out.append(None if ended or k in ('finish', 'before') else raw(corr))
    for n, other, before in kept:
        d = diff_raw(raw(other), before, 0.)
        if d:
            return 'copy', n, d
    if not lead:
        return None
    if not ended:
        finalize(corr, None)
    est = None
    if corr.results:
        try:
            corr._rng = np.random.RandomState(c['boot'])     # earlier looks used up some of it
            est = corr.estimate_cov(method(c))
        except R.REJECT + (AssertionError,) as e:
            est = type(e).__name__
    return 'ok', out, G.snapshot(corr, skip=('cov',)), est, npatches(corr)


def npatches(corr):
    return [int(getattr(corr, a)) for a in ('npatch1', 'npatch2', 'npatch3') if hasattr(corr, a)]


def method(c):
    return ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap'][c['boot'] % 4]


def expected(c):
    cats = build(c)
    memo = {}
    bad = []

    def part(op):
        k = json.dumps([op['op'] == 'direct', op['use'], op.get('local'), op.get('ordered')])
        if k not in memo:
            corr = partial(c, op, cats)
            memo[k] = (corr, raw(corr))
            d = check_whole(c, op, memo[k][1], cats)
            if d and not bad:
                bad.append(['patches-whole', '%s with patches, against without: %s' % (
                    json.dumps(op), d)])
        return memo[k]
    live, hist = used(c)
    states = []
    for ops in hist:
        s = None
        for op in ops:
            x = part(op)[1]
            if op['op'] == 'iadd':               # merges the totals only
                x = {'main': x['main'], 'results': {}}
            s = add(s, x)
        states.append(s)
    tot = make(c)
    for op in live:
        tot += part(op)[0]
    res = {}
    for op in live:
        if op['op'] != 'process':
            continue
        p = part(op)[0]
        for k in p.results:
            res.setdefault(k, []).append(p.results[k])
    var = None
    steps = [op for op in live if op['op'] == 'process']
    if c['end'] == 'auto' and c['ops'][-1]['op'] == 'process':
        fresh = build(c)[0]
        var = []
        n = len(steps[-1]['use'])
        for a in range(len(c['type'])):
            lst = []
            for op in steps:
                if a < len(op['use']) or (a and n == 1):
                    x = fresh[op['use'][a if a < n else 0]] if n > 1 else fresh[op['use'][0]]
                elif n == 2 and a == 2:
                    x = fresh[op['use'][1]]
                else:
                    continue
                lst += x if isinstance(x, list) else x.get_patches()
            var.append(getattr(tot, '_calculateVar%d' % (a + 1))(lst))
        var = [v for v in var if v is not None]
    finalize(tot, var)
    one = part(steps[-1])[0] if steps else None
    same = len({tuple(getattr(part(o)[0], a, 0) for a in ('npatch1', 'npatch2', 'npatch3'))
                for o in steps}) == 1
    for a in ('npatch1', 'npatch2', 'npatch3'):
        if one is not None and hasattr(one, a):
            setattr(tot, a, getattr(one, a))
    merged = {}
    for k, v in res.items():
        if len(v) > 1:
            # a full array first: those without pairs have none
            v = sorted(v, key=lambda x: not np.any(x.npairs if hasattr(x, 'npairs') else x.ntri))
            s = v[0].copy()
            for y in v[1:]:
                s += y
            s.__dict__.pop('_nonzero', None)
            merged[k] = s
        else:
            merged[k] = v[0]
    tot.results = merged
    est = None
    if res and same:
        try:
            est = tot.estimate_cov(method(c))
        except R.REJECT + (AssertionError,) as e:
            est = type(e).__name__
    return states, G.snapshot(tot, skip=('cov',)), est, live, bad, \
        npatches(one) if one is not None and same else None


def uniform(live):
    return len({len(op['use']) for op in live}) <= 1


def sasmulti(c):
    """LogSAS through the multipole algorithm in two steps."""
    cats, _ = build(c)
    a, b = cats[0], cats[1]
    kw = {k: v for k, v in c['kw'].items() if k not in ('nphi_bins', 'min_phi', 'max_phi')}
    kw.update(bin_type='LogMultipole', max_n=8)
    ref = G.make_corr2(c['type'], kw)
    ref.process(a, finalize=False)
    ref.process(b, initialize=False)
    want = make(c)
    ref.toSAS(target=want)
    got = make(c)
    got.process(a, finalize=False, max_n=8)
    got.process(b, initialize=False, max_n=8)
    d = G.diff_snap(G.snapshot(got, skip=SKIP), G.snapshot(want, skip=SKIP), rtol=1e-7,
                    wfloor=1e-10 * max(len(G.points(s)['k']) for s in c['cats']) ** 3)
    return d, want


def run(c):
    for j, (s, h) in enumerate(zip(c['cats'], c['src'])):
        if h == 'file':
            R.write_fits(s, FIELDS, 'in%d.fits' % j)
    st = {'op_' + o['op']: 0 for o in c['ops']}
    for o in c['ops']:
        st['op_' + o['op']] += 1
    st['ranks_%d' % c['nranks']] = 1
    if c.get('sasmulti'):
        try:
            d, want = sasmulti(c)
        except R.REJECT:
            d = None
            st['rejected_configs'] = 1
        return {'viol': ['sas-multipole-steps', 'LogSAS (multipole algorithm), two steps: %s' % d]
                if d else None, 'stats': st, 'states': [], 'trivial': True, 'digest': G.digest(d)}
    if not any(o['op'] in ACC for o in c['ops']):
        return {'viol': None, 'stats': st, 'states': [], 'trivial': True, 'digest': 0}
    try:
        states, final, est, live, bad, nps = expected(c)
    except R.REJECT as e:
        st['rejected_configs'] = 1
        return {'viol': None, 'stats': st, 'states': [], 'trivial': True,
                'digest': G.digest('%s %s' % (type(e), e))}
    job = None
    if bad:
        return {'viol': bad[0], 'stats': st, 'states': [], 'trivial': True, 'digest': G.digest(bad)}
    # Multipole sums cancel: what is left carries the rounding of the terms.
    floor = 0.
    if c['kw'].get('bin_type') == 'LogMultipole':
        floor = 1e-11 * max(float(G.points(s).get('w', np.ones(s['n'])).sum()) for s in c['cats']) ** 3
    if c['nranks'] > 1:
        job, viol = R.run_job(c['nranks'], lambda comm: program(c, comm), c['sched'])
        st.update(job.stats)
        got = None
        if not viol:
            bad = R.rank_errors(job)
            if bad:
                viol = ['rank-exception:%s' % bad[0][1][1],
                        'rank %d failed:\n%s' % (bad[0][0], bad[0][1][3])]
            else:
                for rk, o in enumerate(job.outcome):
                    if o[1] is not None and o[1][0] == 'copy':
                        got = o[1]
                        break
                else:
                    got = job.outcome[0][1]
                if job.leftovers():
                    viol = ['unreceived-message', '%d messages never received' % job.leftovers()]
    else:
        viol = None
        got = program(c, None)
    if viol and viol[0] == 'deadlock' and any(o and o[0] == 'ok' and o[1] and o[1][0] == 'rejected'
                                              for o in job.outcome):
        viol, got = None, ('rejected',)
    if not viol and got and got[0] == 'rejected':
        st['rejected_histories'] = 1
        return {'viol': None, 'stats': st, 'states': [], 'trivial': True, 'digest': G.digest(got)}
    if not viol and got[0] == 'copy':
        viol = ['copy-changed', 'what op %d copied changed later: %s' % (got[1], got[2][1])]
    if not viol:
        for n, (g, w) in enumerate(zip(got[1], states)):
            if g is None or w is None:
                continue
            d = diff_raw(g, w, floor=floor)
            if d:
                viol = ['steps-%s' % d[0], 'after op %d %s: %s' % (n, json.dumps(c['ops'][n]), d[1])]
                break
    if not viol and live and (c['end'] == 'manual' or c['ops'][-1]['op'] != 'process'
                              or uniform([o for o in live if o['op'] == 'process'])):
        mult = c['kw'].get('bin_type') == 'LogMultipole'
        d = G.diff_snap(got[2], final, wfloor=1e-2 * floor if mult else None)
        if d:
            viol = ['steps-final', 'finished: %s' % d]
    if not viol and est is not None and got[3] is not None and uniform(live) and \
            all(o['op'] == 'process' for o in live) and len({h for h in c['src']}) == 1 \
            and c['src'][0] in ('memory', 'list') and len({bool(o.get('local')) for o in live}) == 1:
        if isinstance(est, str) or isinstance(got[3], str):
            if not (isinstance(est, str) and isinstance(got[3], str)):
                viol = ['steps-estimate', '%s covariance: %s, expected %s' % (
                    method(c), got[3], est)]
        else:
            d = G.diff_arrays('cov', got[3], est, 1e-7, 1e-8 * max(np.nanmax(np.abs(est), initial=0), 1e-12))
            if d:
                viol = ['steps-estimate', '%s covariance: %s' % (method(c), d)]
            st['estimates'] = 1
    if not viol and nps and got[4] != nps and all(o['op'] == 'process' for o in live):
        viol = ['steps-npatch', 'numbers of patches %s, expected %s' % (got[4], nps)]
    n = sum(np.abs(final.get('npairs', final.get('ntri', 0))).ravel())
    hist = json.dumps([c['type'], c['src'], c['ops']], sort_keys=True)
    res = {'viol': viol, 'stats': st, 'states': [G.digest(hist, job.hash if job else 0)],
           'trivial': not (len(live) > 1 and n > 0),
           'digest': G.digest(job.hash if job else 0, repr(got)[:100000])}
    if viol and job:
        res['case'] = R.expl(c, job)
    return res


def shrinks(c):
    for k in range(len(c['ops'])):
        rest = c['ops'][:k] + c['ops'][k + 1:]
        if any(o['op'] in ACC for o in rest):
            yield with_(c, ops=rest)
    for k, op in enumerate(c['ops']):
        for f in ('low_mem', 'local', 'comm', 'init'):
            if f in op:
                yield with_(c, ops=c['ops'][:k] + [with_(op, **{f: DROP})] + c['ops'][k + 1:])
        if any(op.get('use', [])):
            yield with_(c, ops=c['ops'][:k] + [with_(op, use=[0] * len(op['use']))] + c['ops'][k + 1:])
    sub = dict(zip(('a', 'b', 'd'), c['cats']), kw=c['kw'])
    for d in R.shrink_patch_cats(sub, ('a', 'b', 'd')):
        yield with_(c, cats=[d['a'], d['b'], d['d']], kw=d['kw'])
    for j in range(3):
        if c['src'][j] not in ('memory', 'plain'):
            yield with_(c, src=[('memory' if x == j else h) for x, h in enumerate(c['src'])])
    if c['nranks'] > 2:
        yield from R.shrink_ranks(c)
    if c['nranks'] == 2:
        yield with_(c, nranks=1)
