"""C06: covariances estimated by cooperating ranks equal the serial ones."""
import numpy as np

from tcsim import gen as G, mpi, ranks as R, system
from tcsim.gen import with_, DROP

PROPERTY = 'C06'
QUICK = {'runs': 4000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws one to three correlations over the same patches (two-point, three-point, '
        'counts with randoms), a sequence of estimates (covariance or design matrix, single or '
        'combined, optional user function, any patch-based method), 1-9 ranks, how the ranks got '
        'the correlations, and a schedule. Non-trivial: at least two ranks, at least one '
        'reduction, a finite result.')
STATES = 'distinct global schedules: hash of the sequence of (rank resumed / message arrived)'
REAL = ['treecorr Python package', 'TreeCorr C++ extension', 'one process per rank']
STUB = ['MPI library and network (simulated communicator, collectives and scheduler)',
        'OpenMP: one thread']
ASSUMPTIONS = ['every rank makes the same sequence of calls, as MPI requires, and bootstrap '
               'generators start from the same state on every rank']
METHODS = ['jackknife', 'sample', 'bootstrap', 'marked_bootstrap']


def setup():
    system.start()


def generate(r, i, tier):
    coords = r.choice(['flat', 'flat', 'sphere', '3d'])
    npatch = r.choice([2, 3, 4, 5, 7, 12])
    nmax = r.choice([12, 40, 90])
    c = {'coords': coords, 'nranks': r.choice([1, 2, 2, 3, 4, 5, 9])}
    c['cats'] = R.patch_cats(r, coords, 2, npatch, nmax)
    c['src'] = ['memory', 'memory']
    if r.random() < 0.2:
        c['src'][r.randrange(2)] = 'plain'
    c['corrs'] = []
    seed = r.randrange(10 ** 6)
    for _ in range(r.choice([1, 1, 2, 3])):
        three = r.random() < 0.25
        nb = r.choice([3, 7, 16])
        if three:
            t = r.choice(G.TYPES3)
            kw = G.corr3_config(r, coords, 10., small=True)
            use = r.choice([[0], [1], [0, 1], [0, 0, 1]])
            c['cats'] = [with_(s, n=min(s['n'], 18)) for s in c['cats']]
        else:
            t = r.choice(G.TYPES2 + ['NN'] * 4)
            use = r.choice([[0], [1]]) if t[0] == t[1] and r.random() < 0.5 else [0, 1]
            kw = G.corr2_config(r, coords, 10., len(use) == 1)
        for k in ('min_top', 'max_top', 'brute'):
            kw.pop(k, None)
        st = {'type': t, 'kw': kw, 'use': use, 'rng': seed, 'nboot': nb}
        if t in ('NN', 'NNN'):
            st['est'] = r.choice(['rr', 'dr', 'rd', 'both']) if t == 'NN' else r.choice(['rrr', 'full'])
            st['rseed'] = r.randrange(1 << 20)
        if 'period' not in kw and r.random() < 0.15:
            st['local'] = 1
        c['corrs'].append(st)
    c['flow'] = r.choice(['own', 'own', 'bcast', 'mpi'])
    c['ops'] = []
    for _ in range(r.choice([1, 1, 2, 3])):
        op = {'what': r.choice(['cov', 'design', 'multi', 'multi_design']),
              'method': r.choice(METHODS), 'which': r.randrange(len(c['corrs']))}
        op['func'] = r.choice([None, None, 'square', 'weighted', 'complex', 'mean'])
        c['ops'].append(op)
    c['sched'] = mpi.random_schedule(r, c['nranks'])
    return c


def _func(name, single):
    def stat(x):
        return x.getStat() if single else np.concatenate([y.getStat() for y in x])

    def lst(x):
        return [x] if single else x
    if name is None:
        return None
    if name == 'square':
        return lambda x: stat(x) ** 2
    if name == 'weighted':
        return lambda x: np.concatenate([y.getStat().ravel() * (1. + np.arange(y.getStat().size))
                                         for y in lst(x)])
    if name == 'complex':
        return lambda x: stat(x) * (1. + 2.j)
    return lambda x: np.array([np.mean(stat(x)), np.sum([np.sum(y.getWeight()) for y in lst(x)])])


FIELDS = 'NKZVGTQ'


def build_corrs(c, comm):
    cats = [R.build_input(s, FIELDS, h, None) for s, h in zip(c['cats'], c['src'])]
    out = []
    for st in c['corrs']:
        def make():
            return G.make_corr2(st['type'], st['kw'], num_bootstrap=st['nboot'],
                                rng=np.random.RandomState(st['rng']))
        p = {'patch_method': 'local'} if st.get('local') else {}
        if comm is not None:
            p['comm'] = comm
        corr = make()
        a = [cats[j] for j in st['use']]
        corr.process(*a, **p)
        if st.get('est'):
            rc = []
            for j in st['use'] if len(st['use']) > 1 else st['use']:
                s = with_(c['cats'][j], seed=c['cats'][j]['seed'] + st['rseed'] + j,
                          n=c['cats'][j]['n'] * 2)
                rc.append(R.build_input(s, FIELDS, c['src'][j], None))
            q = dict(p)
            rr = make()
            rr.process(*rc, **q)
            k = {}
            if st['type'] == 'NN':
                if st['est'] in ('dr', 'both'):
                    k['dr'] = make()
                    k['dr'].process(a[0], rc[-1], **q)
                if st['est'] in ('rd', 'both'):
                    k['rd'] = make()
                    k['rd'].process(rc[0], a[-1], **q)
                if comm is None or comm.rank == 0:
                    corr.calculateXi(rr=rr, **k)
            else:
                if st['est'] == 'full' and len(a) == 1:
                    for nm, args in (('drr', (a[0], rc[0])), ('rdd', (rc[0], a[0]))):
                        k[nm] = make()
                        k[nm].process(*args, ordered=False, **q)
                if comm is None or comm.rank == 0:
                    corr.calculateZeta(rrr=rr, **k)
        out.append(corr)
    return out


def estimate(c, corrs, comm):
    """All estimates, and what the correlations look like before and after."""
    from treecorr import estimate_multi_cov, build_multi_cov_design_matrix
    out = []
    before = [R.snap_all(x) for x in corrs]
    for op in c['ops']:
        single = op['what'] in ('cov', 'design')
        f = _func(op['func'], single)
        try:
            if single:
                m = getattr(corrs[op['which']], 'estimate_cov' if op['what'] == 'cov'
                            else 'build_cov_design_matrix')
                v = m(op['method'], func=f, comm=comm)
            else:
                m = estimate_multi_cov if op['what'] == 'multi' else build_multi_cov_design_matrix
                v = m(corrs, op['method'], func=f, comm=comm)
            out.append(('ok', [np.array(x, copy=True) for x in v] if isinstance(v, tuple)
                        else [np.array(v, copy=True)]))
        except R.REJECT as e:
            out.append(('err', '%s: %s' % (type(e).__name__, str(e)[:200])))
            break
    after = [R.snap_all(x) for x in corrs]
    changed = None
    for k, (a, b) in enumerate(zip(after, before)):
        d = R.diff_all(a, b, rtol=0.)
        if d:
            changed = 'correlation %d: %s' % (k, d[1])
    return out, changed


def magnitude(c, corrs, op):
    """Largest element of the design matrix, which sets the rounding error of a covariance."""
    from treecorr import build_multi_cov_design_matrix
    single = op['what'] in ('cov', 'design')
    f = _func(op['func'], single)
    cs = [x.copy() for x in corrs]
    for x in cs:
        x._rng = None
    try:
        if single:
            v = cs[op['which']].build_cov_design_matrix(op['method'], func=f)[0]
        else:
            v = build_multi_cov_design_matrix(cs, op['method'], func=f)[0]
    except R.REJECT:
        return 1.
    v = np.abs(v[np.isfinite(v)])
    return float(v.max()) if v.size else 1.


def rank_program(c, comm, serial):
    if c['flow'] == 'own':
        corrs = serial
    elif c['flow'] == 'bcast':
        corrs = comm.bcast(serial if comm.rank == 0 else None, root=0)
    else:
        corrs = build_corrs(c, comm)
        corrs = comm.bcast(corrs, root=0)
        # the generators restart in the same state as in one process
    return estimate(c, corrs, comm)


def run(c):
    try:
        corrs = build_corrs(c, None)
    except R.REJECT as e:
        return {'viol': None, 'stats': {'rejected_configs': 1}, 'states': [], 'trivial': True,
                'digest': G.digest(type(e).__name__)}
    # ranks are forked from here, before the estimates below move the generators
    import copy
    mine = copy.deepcopy(corrs)
    job, viol = R.run_job(c['nranks'], lambda comm: rank_program(c, comm, corrs), c['sched'])
    want, changed = estimate(c, mine, None)
    if changed:
        viol = viol or ['estimate-changes-results', 'one process: ' + changed]
    if viol and viol[0] == 'deadlock' and any(w[0] == 'err' for w in want):
        viol = None          # the estimate fails on the rank that has the row, the others wait
    elif viol is None:
        viol = compare(c, want, corrs, job)
    st = dict(job.stats)
    fin = any(w[0] == 'ok' and any(np.isfinite(x).any() for x in w[1]) for w in want)
    st['rejected_estimates'] = int(any(w[0] == 'err' for w in want))
    for op in c['ops']:
        st['method_' + op['method']] = 1
    res = {'viol': viol, 'stats': st, 'states': ['%x' % job.hash],
           'trivial': not (c['nranks'] > 1 and job.stats['collectives'] and fin),
           'digest': G.digest(job.hash, job.stats['steps'], [o[:2] for o in job.outcome if o])}
    if viol:
        res['case'] = R.expl(c, job)
    return res


def compare(c, want, corrs, job):
    for r, o in R.rank_errors(job):
        if o[4] != 'treecorr':
            from tcsim.worker import HarnessError
            raise HarnessError(o[3])
        return ['rank-exception:%s' % o[1], 'rank %d failed:\n%s' % (r, o[3])]
    for r, o in enumerate(job.outcome):
        if o is None:
            return ['rank-unfinished', 'rank %d did not finish' % r]
        got, changed = o[1]
        if changed:
            return ['estimate-changes-results', 'rank %d of %d: %s' % (r, c['nranks'], changed)]
        for k, (g, w) in enumerate(zip(got, want)):
            op = c['ops'][k]
            what = 'estimate %d (%s, %s) on rank %d of %d' % (k, op['what'], op['method'], r,
                                                              c['nranks'])
            if g[0] != w[0]:
                return ['error-depends-on-ranks', '%s: %s; one process: %s' % (
                    what, g[1] if g[0] == 'err' else 'success',
                    w[1] if w[0] == 'err' else 'success')]
            if g[0] == 'err':
                continue
            big = magnitude(c, corrs, op)
            tol = 1e-13 if c['flow'] == 'own' else 1e-9
            for a, b in zip(g[1], w[1]):
                d = G.diff_arrays('matrix', a, b, rtol=1e3 * tol,
                                  atol=tol * max(big, big ** 2, 1e-30))
                if d:
                    return ['cov-depends-on-ranks', what + ': ' + d]
    if job.leftovers():
        return ['unreceived-message', '%d messages were never received' % job.leftovers()]
    return None


def shrinks(c):
    for k in range(len(c['ops'])):
        if len(c['ops']) > 1:
            yield with_(c, ops=c['ops'][:k] + c['ops'][k + 1:])
    if len(c['corrs']) > 1:
        for k in range(len(c['corrs'])):
            yield with_(c, corrs=c['corrs'][:k] + c['corrs'][k + 1:],
                        ops=[with_(o, which=0) for o in c['ops']])
    for k, op in enumerate(c['ops']):
        if op['func']:
            yield with_(c, ops=c['ops'][:k] + [with_(op, func=None)] + c['ops'][k + 1:])
    if c['flow'] != 'own':
        yield with_(c, flow='own')
    for k, st in enumerate(c['corrs']):
        sub = {'kw': st['kw'], 'a': c['cats'][0], 'b': c['cats'][1]}
        for d in R.shrink_patch_cats(sub, ('a', 'b')):
            yield with_(c, cats=[d['a'], d['b']],
                        corrs=c['corrs'][:k] + [with_(st, kw=d['kw'])] + c['corrs'][k + 1:])
    yield from R.shrink_ranks(c)
