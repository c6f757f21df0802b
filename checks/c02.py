"""C02: three-point results do not depend on threads or their schedule."""
from tcsim import gen as G, system
from tcsim.gen import with_, DROP
from tcsim.threads import compare_run, compute3, shrink_cats

PROPERTY = 'C02'
QUICK = {'runs': 3000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws catalogs, a 3-pt type (NNN, KKK, GGG), binning (LogRUV, LogSAS, '
        'LogMultipole), algorithm, auto / one-two / full cross, ordering, team size and a '
        'scheduler from its seed. Non-trivial: a region ran with at least two members, at least '
        'one preemption happened inside it and at least one triangle was counted.')
STATES = 'distinct thread interleavings: hash of (member, access number) at every switch and lock'
REAL = ['TreeCorr C++ sources (all of src/*.cpp, compiled from /repo)', 'treecorr Python package']
STUB = ['OpenMP runtime (libgomp): replaced by the simulator']
ASSUMPTIONS = ['sequentially consistent memory; preemption at every instrumented load, store and '
               'synchronisation, not inside a machine instruction',
               'min_top is given, or the number of threads is at most 8, so that the tree is the '
               'documented same one']


def setup():
    system.start()


def generate(r, i, tier):
    coords = r.choice(['flat', 'flat', 'flat', 'sphere', '3d', 'sphere3d'])
    ctype = r.choice(G.TYPES3)
    box = 10.
    kw = G.corr3_config(r, coords, box)
    nmax = r.choice([12, 30, 50] if kw['bin_type'] != 'LogMultipole' else [20, 60, 120])
    if tier == 'thorough' and r.random() < 0.1:
        nmax *= 2
    nt = r.choice([2, 2, 3, 4, 5, 8, 8, 16])
    if nt > 8:
        kw.setdefault('min_top', 4)
        kw['max_top'] = max(kw.get('max_top', 10), kw['min_top'])
    c = {'type': ctype, 'coords': coords, 'kw': kw, 'nt': nt,
         'sched': system.omp.random_schedule(r), 'ordered': r.random() < 0.6}
    ncat = r.choice([1, 1, 2, 2, 3])
    for j in range(ncat):
        c['cat%d' % (j + 1)] = [G.cat_spec(r, coords, nmax, box=box)]
    if r.random() < 0.1:
        k = 'cat%d' % r.randint(1, ncat)
        c[k].append(G.cat_spec(r, coords, nmax // 2 + 1, w=c[k][0].get('w', ''), box=box))
    elif r.random() < 0.2:
        c['direct'] = 1
    if kw['bin_type'] == 'LogSAS' and r.random() < 0.5:
        c['algo'] = r.choice(['triangle', 'multipole'])
    if r.random() < 0.1:
        c['dots'] = 1
    if r.random() < 0.2:
        c['twice'] = 1
    if 'direct' not in c and r.random() < 0.12:
        c['npatch'] = 2
    c['ref_nt'] = r.choice([1, nt])
    return c


def run(c):
    return compare_run(c, compute3, 'ntri')


def shrinks(c):
    for k in ('twice', 'dots', 'npatch', 'direct', 'algo'):
        if k in c:
            yield with_(c, **{k: DROP})
    yield from shrink_cats(c, ('cat1', 'cat2', 'cat3'))
