"""C05: a three-point run over cooperating ranks equals the single-process run."""
from checks import c04
from tcsim import gen as G, mpi, ranks as R, system
from tcsim.gen import with_, DROP

PROPERTY = 'C05'
QUICK = {'runs': 3000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws catalogs with patches, a sequence of up to two three-point correlations '
        'sharing one communicator, 1-7 ranks and a message schedule from its seed. Non-trivial: at '
        'least two ranks, at least one message, at least one triangle counted.')
STATES = c04.STATES
REAL, STUB, ASSUMPTIONS = c04.REAL, c04.STUB, c04.ASSUMPTIONS


def setup():
    system.start()


def generate(r, i, tier):
    coords = r.choice(['flat', 'flat', 'sphere', '3d', 'sphere3d'])
    npatch = r.choice([1, 2, 3, 3, 4, 5, 7])
    nmax = r.choice([8, 15, 30] if tier == 'quick' else [8, 20, 45])
    c = {'coords': coords, 'nranks': r.choice([1, 2, 2, 3, 3, 4, 5, 7])}
    c['cats'] = R.patch_cats(r, coords, 3, npatch, nmax)
    src = r.choice(['memory', 'memory', 'list', 'file'])
    c['src'] = [src] * 3
    k = r.random()
    if k < 0.2:
        c['src'][r.randrange(3)] = 'plain'
        if r.random() < 0.4:
            c['src'][r.randrange(3)] = 'plain'
    elif k < 0.3:
        c['src'] = ['pieces'] * 3
    c['steps'] = []
    for _ in range(r.choice([1, 1, 1, 2])):
        st = {'type': r.choice(G.TYPES3), 'kw': G.corr3_config(r, coords, 10., small=True)}
        for k in ('min_top', 'max_top'):
            st['kw'].pop(k, None)
        st['use'] = r.choice([[0], [1], [0, 1], [0, 1], [1, 2], [0, 1, 2], [0, 1, 2]])
        st['ordered'] = r.random() < 0.6
        if r.random() < 0.3:
            st['low_mem'] = 1
        if 'period' not in st['kw'] and r.random() < (0.7 if st['kw']['bin_type'] == 'LogMultipole'
                                                      else 0.25):
            st['local'] = 1
        if st['kw']['bin_type'] == 'LogSAS' and r.random() < 0.4:
            st['algo'] = r.choice(['triangle', 'multipole'])
        c['steps'].append(st)
    c['sched'] = mpi.random_schedule(r, c['nranks'])
    return c


FIELDS = 'NKG'


def program(c, comm):
    cats = [R.build_input(s, FIELDS, h, 'in%d.fits' % j)
            for j, (s, h) in enumerate(zip(c['cats'], c['src']))]
    out = []
    for st in c['steps']:
        corr = G.make_corr2(st['type'], st['kw'])
        p = {}
        if st.get('low_mem'):
            p['low_mem'] = True
        if st.get('local'):
            p['patch_method'] = 'local'
        if st.get('algo'):
            p['algo'] = st['algo']
        if len(st['use']) > 1:
            p['ordered'] = st['ordered']
        try:
            corr.process(*[cats[j] for j in st['use']], comm=comm, **p)
            out.append(('ok', R.snap_all(corr)))
        except R.REJECT as e:
            out.append(('err', '%s: %s' % (type(e).__name__, str(e)[:200])))
            break
    return out


def wf(c):
    w = 1.
    tot = [float(G.points(s).get('w', 0 * G.points(s)['k'] + 1).sum()) for s in c['cats']]
    m = max(tot)
    return 1e-12 * m ** 3


def run(c):
    for j, (s, h) in enumerate(zip(c['cats'], c['src'])):
        if h == 'file':
            R.write_fits(s, FIELDS, 'in%d.fits' % j)
    want = program(c, None)
    job, viol = R.run_job(c['nranks'], lambda comm: program(c, comm), c['sched'])
    viol = c04.compare(c, want, job, viol, wf(c))
    n = c04.count_of(want, 'ntri')
    st = dict(job.stats)
    st['rejected_configs'] = int(any(w[0] == 'err' for w in want))
    st['ranks_%d' % c['nranks']] = 1
    st['link_' + c['sched']['mode']] = 1
    res = {'viol': viol, 'stats': st, 'states': ['%x' % job.hash],
           'trivial': not (c['nranks'] > 1 and job.stats['messages'] and n > 0),
           'digest': G.digest(job.hash, job.stats['steps'], [o[:2] for o in job.outcome if o])}
    if viol:
        res['case'] = R.expl(c, job)
    return res


def shrinks(c):
    for k in range(len(c['steps'])):
        if len(c['steps']) > 1:
            yield with_(c, steps=c['steps'][:k] + c['steps'][k + 1:])
    for k, st in enumerate(c['steps']):
        for f in ('low_mem', 'local', 'algo'):
            if f in st:
                yield with_(c, steps=c['steps'][:k] + [with_(st, **{f: DROP})] + c['steps'][k + 1:])
        if len(st['use']) > 1:
            yield with_(c, steps=c['steps'][:k] + [with_(st, use=st['use'][:1])] + c['steps'][k + 1:])
        sub = dict(zip(('a', 'b', 'd'), c['cats']), kw=st['kw'])
        for d in R.shrink_patch_cats(sub, ('a', 'b', 'd')):
            yield with_(c, cats=[d['a'], d['b'], d['d']],
                        steps=c['steps'][:k] + [with_(st, kw=d['kw'])] + c['steps'][k + 1:])
    for j in range(3):
        if c['src'][j] != 'memory':
            yield with_(c, src=[('memory' if x == j else h) for x, h in enumerate(c['src'])])
    yield from R.shrink_ranks(c)
