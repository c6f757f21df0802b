"""C01: two-point results do not depend on threads or their schedule."""
from tcsim import gen as G, system
from tcsim.gen import with_, DROP
from tcsim.threads import compare_run, compute2, shrink_cats

PROPERTY = 'C01'
QUICK = {'runs': 4000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws catalogs, a 2-pt type, binning, metric, tolerance, team size and a '
        'scheduler from its seed. Non-trivial: a region ran with at least two members, at least '
        'one preemption happened inside it and at least one pair was counted.')
STATES = 'distinct thread interleavings: hash of (member, access number) at every switch and lock'
REAL = ['TreeCorr C++ sources (all of src/*.cpp, compiled from /repo)', 'treecorr Python package']
STUB = ['OpenMP runtime (libgomp): replaced by the simulator']
ASSUMPTIONS = ['sequentially consistent memory; preemption at every instrumented load, store and '
               'synchronisation, not inside a machine instruction',
               'min_top is given, or the number of threads is at most 8, so that the tree is the '
               'documented same one']


def setup():
    system.start()


def generate(r, i, tier):
    coords = r.choice(['flat', 'flat', 'flat', 'sphere', '3d', 'sphere3d'])
    ctype = r.choice(G.TYPES2)
    auto = ctype[0] == ctype[1] and r.random() < 0.6
    nmax = r.choice([20, 60, 150, 300])
    box = 10.
    kw = G.corr2_config(r, coords, box, auto)
    nt = r.choice([2, 2, 3, 4, 5, 8, 8, 16])
    if nt > 8:
        kw.setdefault('min_top', 4)
        kw['max_top'] = max(kw.get('max_top', 10), kw['min_top'])
    c = {'type': ctype, 'coords': coords, 'kw': kw, 'nt': nt,
         'cat1': [G.cat_spec(r, coords, nmax, box=box)], 'sched': system.omp.random_schedule(r)}
    if r.random() < 0.15:
        c['cat1'].append(G.cat_spec(r, coords, nmax, w=c['cat1'][0].get('w', ''), box=box))
    around = {}
    if coords in ('3d', 'sphere3d') and r.random() < 0.5:
        # all around the observer: lines of sight point anywhere
        around = {'offset': -0.5 * box} if coords == '3d' else {'fullsky': 1}
        if 'Rperp' in kw.get('metric', '') and r.random() < 0.7:
            kw['max_sep'] = r.choice([1., 2., 4.]) * (box if coords == '3d' else 60.)
    if not auto:
        c['cat2'] = [G.cat_spec(r, coords, nmax, box=box)]
        if r.random() < 0.1:
            c['cat2'].append(G.cat_spec(r, coords, nmax, w=c['cat2'][0].get('w', ''), box=box))
    if len(c['cat1']) == 1 and len(c.get('cat2', [1])) == 1 and r.random() < 0.2:
        c['direct'] = 1
    if r.random() < 0.1:
        c['dots'] = 1
    if r.random() < 0.2:
        c['twice'] = 1          # process again under another part of the schedule (reused trees)
    if r.random() < 0.15:
        c['npatch'] = r.choice([2, 3])
    if around:
        for k in ('cat1', 'cat2'):
            if k in c:
                c[k] = [with_(s, **around) for s in c[k]]
    c['ref_nt'] = r.choice([1, nt])
    return c


def run(c):
    return compare_run(c, compute2, 'npairs')


def shrinks(c):
    for k in ('twice', 'dots', 'npatch', 'direct'):
        if k in c:
            yield with_(c, **{k: DROP})
    yield from shrink_cats(c, ('cat1', 'cat2'))
