"""C04: a two-point run over cooperating ranks equals the single-process run."""
from tcsim import gen as G, mpi, ranks as R, system
from tcsim.gen import with_, DROP

PROPERTY = 'C04'
QUICK = {'runs': 4000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws catalogs with patches, a sequence of up to three two-point correlations '
        'sharing one communicator, 1-9 ranks and a message schedule from its seed. Non-trivial: at '
        'least two ranks, at least one message, at least one pair counted.')
STATES = 'distinct global schedules: hash of the sequence of (rank resumed / message arrived)'
REAL = ['treecorr Python package', 'TreeCorr C++ extension', 'one process per rank']
STUB = ['MPI library and network (simulated communicator and scheduler)', 'OpenMP: one thread']
ASSUMPTIONS = ['MPI delivers every message once and in order between two ranks; a rank that dies '
               'takes the job with it']


def setup():
    system.start()


def config(r, coords, auto):
    kw = G.corr2_config(r, coords, 10., auto)
    kw.pop('min_top', None)
    kw.pop('max_top', None)
    return kw


def generate(r, i, tier):
    coords = r.choice(['flat', 'flat', 'sphere', '3d', 'sphere3d'])
    npatch = r.choice([1, 2, 2, 3, 4, 5, 7, 10])
    nmax = r.choice([10, 40, 80] if tier == 'quick' else [10, 40, 120, 250])
    c = {'coords': coords, 'nranks': r.choice([1, 2, 2, 3, 3, 4, 5, 6, 9])}
    c['cats'] = R.patch_cats(r, coords, 2, npatch, nmax)
    src = r.choice(['memory', 'memory', 'list', 'file'])
    c['src'] = [src, src]
    k = r.random()
    if k < 0.15:
        c['src'][r.randrange(2)] = 'plain'
    elif k < 0.25:
        c['src'] = ['pieces', 'pieces']
    c['steps'] = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        t = r.choice(G.TYPES2)
        auto = t[0] == t[1] and r.random() < 0.5
        st = {'type': t, 'kw': config(r, coords, auto)}
        if auto:
            st['auto'] = r.choice([0, 0, 1])
        if r.random() < 0.3:
            st['low_mem'] = 1
        if r.random() < 0.25 and 'period' not in st['kw']:
            st['local'] = 1
        c['steps'].append(st)
    c['sched'] = mpi.random_schedule(r, c['nranks'])
    return c


FIELDS = 'NKZVGTQ'


def program(c, comm):
    cats = [R.build_input(s, FIELDS, h, 'in%d.fits' % j)
            for j, (s, h) in enumerate(zip(c['cats'], c['src']))]
    out = []
    for st in c['steps']:
        corr = G.make_corr2(st['type'], st['kw'])
        p = {}
        if st.get('low_mem'):
            p['low_mem'] = True
        if st.get('local'):
            p['patch_method'] = 'local'
        a = (cats[st['auto']],) if 'auto' in st else (cats[0], cats[1])
        try:
            corr.process(*a, comm=comm, **p)
            out.append(('ok', R.snap_all(corr)))
        except R.REJECT as e:
            out.append(('err', '%s: %s' % (type(e).__name__, str(e)[:200])))
            break
    return out


def prepare(c):
    for j, (s, h) in enumerate(zip(c['cats'], c['src'])):
        if h == 'file':
            R.write_fits(s, FIELDS, 'in%d.fits' % j)


def compare(c, want, job, viol, wfloor=None):
    """Against the single-process outcome."""
    if viol:
        if all(k == 'ok' for k, _ in want) or viol[0] != 'deadlock':
            return viol
        return None
    bad = R.rank_errors(job)
    if bad:
        r, o = bad[0]
        if o[4] != 'treecorr':
            from tcsim.worker import HarnessError
            raise HarnessError(o[3])
        return ['rank-exception:%s' % o[1], 'rank %d failed:\n%s' % (r, o[3])]
    got = job.outcome[0][1]
    for k, (g, w) in enumerate(zip(got, want)):
        what = 'step %d (%s)' % (k, c['steps'][k]['type'])
        if g[0] != w[0]:
            return ['error-depends-on-ranks', '%s: %d ranks: %s, one process: %s' % (
                what, c['nranks'], g[1] if g[0] == 'err' else 'success',
                w[1] if w[0] == 'err' else 'success')]
        if g[0] == 'ok':
            d = R.diff_all(g[1], w[1], wfloor)
            if d:
                return ['mpi-%s' % d[0], '%s with %d ranks: %s' % (what, c['nranks'], d[1])]
    if job.leftovers():
        return ['unreceived-message', '%d messages were never received' % job.leftovers()]
    return None


def count_of(want, attr='npairs'):
    return sum(float(abs(w[1]['main'][attr]).sum()) for w in want if w[0] == 'ok')


def run(c):
    prepare(c)
    want = program(c, None)
    job, viol = R.run_job(c['nranks'], lambda comm: program(c, comm), c['sched'])
    viol = compare(c, want, job, viol)
    n = count_of(want)
    st = dict(job.stats)
    st['rejected_configs'] = int(any(w[0] == 'err' for w in want))
    st['ranks_%d' % c['nranks']] = 1
    st['link_' + c['sched']['mode']] = 1
    res = {'viol': viol, 'stats': st, 'states': ['%x' % job.hash],
           'trivial': not (c['nranks'] > 1 and job.stats['messages'] and n > 0),
           'digest': G.digest(job.hash, job.stats['steps'], [o[:2] for o in job.outcome if o])}
    if viol:
        res['case'] = R.expl(c, job)
    return res


def shrinks(c):
    for k in range(len(c['steps'])):
        if len(c['steps']) > 1:
            yield with_(c, steps=c['steps'][:k] + c['steps'][k + 1:])
    for k, st in enumerate(c['steps']):
        for f in ('low_mem', 'local'):
            if f in st:
                yield with_(c, steps=c['steps'][:k] + [with_(st, **{f: DROP})] + c['steps'][k + 1:])
        sub = {'kw': st['kw'], 'a': c['cats'][0], 'b': c['cats'][1]}
        for d in R.shrink_patch_cats(sub, ('a', 'b')):
            yield with_(c, cats=[d['a'], d['b']],
                        steps=c['steps'][:k] + [with_(st, kw=d['kw'])] + c['steps'][k + 1:])
    for j in range(2):
        if c['src'][j] != 'memory':
            yield with_(c, src=[('memory' if x == j else h) for x, h in enumerate(c['src'])])
    yield from R.shrink_ranks(c)
