"""C21: processing with low_mem keeps few patches in memory."""
import os
import sys

import numpy as np

from tcsim import gen as G, intr, mpi, ranks as R, simio, system
from tcsim.gen import with_, DROP

PROPERTY = 'C21'
USES_SIMIO = True
HASHSEED = '0'
QUICK = {'runs': 6000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run draws catalogs in files cut into 6-12 patches (by a column, by centres, one file per '
        'patch, or cut into a directory) or in memory, and a sequence of uses with low_mem: two- and '
        'three-point correlations (global and local), variances, combining; in one process, where '
        'uses are stopped at drawn points (failing reads, interrupts, failing allocations) and '
        'repeated, or over 2-4 ranks under a drawn message schedule. At every call and return of a '
        'function of the package the patches in memory and the patches with a tree are counted: '
        'never more than one more than the correlation has points (plus those that a use that was '
        'stopped has left), and none after a use that completed (over ranks: at most one of each catalog). '
        'Non-trivial: patches were loaded (or got a tree) and let go.')
STATES = 'distinct sequences of the sets of patches in memory: hash'
REAL = ['treecorr Python package', 'TreeCorr C++ extension', 'fitsio/cfitsio', 'one process per rank']
STUB = ['OpenMP: one thread', 'MPI library and network (simulated communicator and scheduler)']
ASSUMPTIONS = ['memory is counted in patches whose data are held and patches that hold a tree, not in '
               'bytes', 'the catalog that a column of patch numbers is read from may stay in memory',
               'expanded patches (patch_method local) hold the neighbours of one patch']
FIELDS = 'NKZVGTQ'
VARS = 'KZVGTQ'


def setup():
    system.start()
    import fitsio  # noqa: F401


# ---------------------------------------------------------------------------------- generation
def gen_step(r, c):
    co = c['coords']
    x = r.random()
    if x < 0.08:
        return {'op': 'var', 't': r.choice(VARS), 'on': r.randrange(2)}
    if x < 0.14:
        return {'op': 'combine', 'on': r.randrange(2)}
    st = {'op': 'proc'}
    if c['three'] and r.random() < 0.8:
        st['type'] = t = r.choice(G.TYPES3)
        st['kw'] = G.corr3_config(r, co, 10., small=True)
        if len(set(t)) == 1:
            st['use'] = r.choice([[0], [0], [0, 1], [0, 1, 2], [1, 0]])
        elif len(set(t)) == 2 and t[1] == t[2]:
            st['use'] = r.choice([[0, 1], [0, 1], [0, 1, 2]])
        else:
            st['use'] = [0, 1, 2]
        if len(st['use']) > 1:
            st['ordered'] = r.choice([0, 1])
        if st['kw']['bin_type'] == 'LogSAS' and r.random() < 0.6:
            st['algo'] = 'triangle'
    else:
        st['type'] = t = r.choice(G.TYPES2)
        auto = t[0] == t[1] and r.random() < 0.5
        kw = st['kw'] = G.corr2_config(r, co, 10., auto)
        for k in ('min_top', 'max_top'):
            kw.pop(k, None)
        if r.random() < 0.2:
            kw['var_method'] = r.choice(['jackknife', 'sample'])
        st['use'] = [r.randrange(2)] if auto else r.choice([[0, 1], [0, 1], [1, 0]])
    if r.random() < 0.25 and 'period' not in st['kw']:
        st['local'] = 1
    if r.random() < 0.15:
        st['more'] = 1          # added to what the same object has already
    return st


def generate(r, i, tier):
    c = {'coords': r.choice(['flat', 'flat', 'sphere', '3d']), 'three': int(r.random() < 0.35)}
    npatch = r.choice([6, 7, 8] if c['three'] else [6, 8, 10, 12])
    c['cats'] = R.patch_cats(r, c['coords'], 3 if c['three'] else 2, npatch,
                             r.choice([10, 16] if c['three'] else [12, 30, 60]))
    for s in c['cats']:
        s['n'] = max(s['n'], npatch)
        s['w'] = None
        if s['dist'] in ('one', 'dups'):
            s['dist'] = 'uniform'
    c['src'] = r.choice(['col', 'col', 'cen', 'cen', 'list', 'dir', 'cendir', 'memory'])
    c['fields'] = FIELDS
    c['steps'] = [gen_step(r, c) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < 0.25:
        c['nranks'] = r.choice([2, 2, 3, 4])
        c['sched'] = mpi.random_schedule(r, c['nranks'])
    else:
        for st in c['steps']:
            if r.random() < 0.3:
                st['fault'] = {'kind': r.choice(['io', 'io', 'int', 'int', 'mem']),
                               'act': r.choice(['eio', 'eios', 'emfile', 'eacces']),
                               'at': r.randrange(1 << 20)}
    return c


# ---------------------------------------------------------------------------------- the catalogs
def prepare(c):
    """Write the files of the catalogs."""
    if c['src'] == 'memory':
        return
    for j, s in enumerate(c['cats']):
        if c['src'] == 'list':
            for i, kw in pieces(s):
                write(kw, 'in%d_%d.fits' % (j, i))
        else:
            R.write_fits(s, FIELDS, 'in%d.fits' % j)


def write(kw, name):
    import fitsio
    cols = {k: v for k, v in kw.items() if isinstance(v, np.ndarray)}
    fitsio.write(name, list(cols.values()), names=list(cols), clobber=True)


def pieces(s):
    kw = G.cat_kwargs(s, FIELDS)
    p = kw.pop('patch')
    for i in sorted(set(p)):
        yield int(i), {k: v[p == i] if isinstance(v, np.ndarray) else v for k, v in kw.items()}


def centers(s):
    from .c03 import xyz
    pos = xyz(s, G.points(s))
    return pos[np.linspace(0, len(pos) - 1, s['npatch']).astype(int)]


def open_cats(c, rank=0):
    import treecorr
    out = []
    for j, s in enumerate(c['cats']):
        n = 'in%d.fits' % j
        src = c['src']
        if src == 'memory':
            out.append(G.make_cat(s, FIELDS))
            continue
        a = R.file_args(s, FIELDS)
        if src == 'list':
            a.pop('patch_col', None)
            out.append([treecorr.Catalog('in%d_%d.fits' % (j, i), patch=i, npatch=s['npatch'], **a)
                        for i, _ in pieces(s)])
            continue
        if src.endswith('dir'):
            a['save_patch_dir'] = 'sp%d_%d' % (rank, j)
            os.makedirs(a['save_patch_dir'], exist_ok=True)
        if src.startswith('cen'):
            a.pop('patch_col')
            a['patch_centers'] = centers(c['cats'][0])
        out.append(treecorr.Catalog(n, **a))
    return out


def patches(cat):
    return cat if isinstance(cat, list) else cat.get_patches(low_mem=True)


# ---------------------------------------------------------------------------------- watching
class Watch:
    """Counts the patches in memory and those with a tree, whenever a function of the package
    returns."""

    def __init__(self, cats, files, by_centers):
        self.cats, self.files = cats, files
        # Catalogs that need not be read as a whole.
        self.whole, self.full = [x for x in cats if not isinstance(x, list) and by_centers], 0
        self.peak = {'loaded': 0, 'trees': 0}
        self.seen, self.last, self.events = [], None, 0

    def all(self):
        out = []
        for x in self.cats:
            ps = x if isinstance(x, list) else (x._patches or [])
            if len(ps) > 1:         # the only patch is kept
                out += ps
        return out

    def look(self):
        ps = self.all()
        a = tuple(i for i, p in enumerate(ps) if p.loaded) if self.files else ()
        b = tuple(i for i, p in enumerate(ps) if p.field is not None)
        if (a, b) != self.last:
            self.last = a, b
            self.seen.append((a, b))
            pk = self.peak
            pk['loaded'] = max(pk['loaded'], len(a))
            pk['trees'] = max(pk['trees'], len(b))
        self.full += any(x.loaded for x in self.whole)
        return len(a), len(b)

    def event(self, code, *rest):
        f = code.co_filename
        if os.sep + 'treecorr' + os.sep not in f or os.path.basename(f) in ELSEWHERE:
            return sys.monitoring.DISABLE
        self.events += 1
        self.look()

    def __enter__(self):
        self.peak = dict.fromkeys(self.peak, 0)
        m, ev = sys.monitoring, sys.monitoring.events
        m.use_tool_id(m.PROFILER_ID, 'tcsim')
        m.register_callback(m.PROFILER_ID, ev.PY_RETURN, self.event)
        m.set_events(m.PROFILER_ID, ev.PY_RETURN)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        m.free_tool_id(m.PROFILER_ID)


# Modules in which nothing is loaded or let go.
ELSEWHERE = ('config.py', 'reader.py', 'writer.py', 'celestial.py')


def bound(st, ncats):
    """How many patches a step may hold at once."""
    if st['op'] != 'proc':
        return 2
    return len(st['type']) + 1


def do(c, st, cats, corrs, comm=None):
    import treecorr
    if st['op'] == 'var':
        fn = getattr(treecorr, 'calculateVar' + st['t'])
        return fn(patches(cats[st['on']]), low_mem=True)
    if st['op'] == 'combine':
        return treecorr.Catalog.combine(patches(cats[st['on']]), low_mem=True)
    key = repr((st['type'], sorted(st['kw'].items()), st['use']))
    more = st.get('more') and key in corrs
    corr = corrs[key] if more else G.make_corr2(st['type'], st['kw'])
    p = {'low_mem': True}
    if more:
        p['initialize'] = False
    if st.get('local'):
        p['patch_method'] = 'local'
    if 'algo' in st:
        p['algo'] = st['algo']
    if 'ordered' in st:
        p['ordered'] = bool(st['ordered'])
    corrs[key] = corr
    corr.process(*[cats[j] for j in st['use']], comm=comm, **p)


def ready(c, cats):
    """The patches exist: making them may need the whole catalog."""
    for x in cats:
        patches(x)
        if not isinstance(x, list):
            x._patches[0].ntot if c['src'] == 'memory' else None


def verdict(k, st, w, extra, now, done, ok=0):
    """What is wrong after a step, or None.  extra: patches left by steps that were stopped;
    ok: patches that may be left (a rank looks at the first patch also when others work on it)."""
    b = bound(st, len(w.cats))
    what = 'step %d (%s)' % (k, ' '.join(str(st.get(x)) for x in ('op', 'type', 't', 'use', 'local',
                                                                  'algo') if st.get(x) is not None))
    if w.full:
        return ['full', '%s: a catalog that is split by centres is read as a whole' % what]
    for n, i in (('loaded', 0), ('trees', 1)):
        if w.peak[n] > b + extra[i]:
            return ['many-' + n, '%s: %d patches of %d %s at one time, at most %d%s may be' % (
                what, w.peak[n], len(w.all()), 'were in memory' if n == 'loaded' else 'had a tree',
                b, ' and %d left from a step that was stopped' % extra[i] if extra[i] else '')]
        if done and now[i] > extra[i] + ok:
            return ['left-' + n, '%s: %d patches %s afterwards' % (
                what, now[i], 'are in memory' if n == 'loaded' else 'have a tree')]
    return None


def program(c, comm, rank=0):
    """All steps without faults; returns [(status, peaks, now, states)]."""
    cats = open_cats(c, rank)
    ready(c, cats)
    w = Watch(cats, c['src'] != 'memory', c['src'].startswith('cen'))
    corrs, out = {}, []
    for p in w.all():
        p.unload()
    for k, st in enumerate(c['steps']):
        try:
            with w:
                do(c, st, cats, corrs, comm)
        except R.REJECT as e:
            out.append(('err', '%s: %s' % (type(e).__name__, str(e)[:200])))
            break
        out.append(('ok', verdict(k, st, w, (0, 0), w.look(), True,
                                  ok=len(cats) if comm else 0), dict(w.peak)))
    return out, w.seen, w.events


def run(c):
    prepare(c)
    return run_ranks(c) if 'nranks' in c else run_one(c)


def run_ranks(c):
    job, viol = R.run_job(c['nranks'], lambda comm: program(c, comm, comm.Get_rank()), c['sched'])
    st = dict(job.stats)
    st['ranks_%d' % c['nranks']] = 1
    st['src_' + c['src']] = 1
    if viol and viol[0] == 'deadlock':
        viol = None         # that is for C04 and C05
    seen, trivial = [], True
    for r, o in enumerate(job.outcome):
        if o is None or o[0] != 'ok':
            continue
        out, s, ev = o[1]
        seen.append(s)
        st['looks'] = st.get('looks', 0) + ev
        for x in out:
            if x[0] == 'ok':
                trivial = trivial and not (x[2]['loaded'] or x[2]['trees'])
                if x[1] and not viol:
                    viol = [x[1][0], 'rank %d of %d: %s' % (r, c['nranks'], x[1][1])]
            else:
                st['rejected'] = st.get('rejected', 0) + 1
    res = {'viol': viol, 'stats': st, 'states': [G.digest(repr(s)) for s in seen],
           'trivial': trivial, 'digest': G.digest(job.hash, repr(seen), repr(viol))}
    if viol:
        res['case'] = R.expl(c, job)
    return res


def attempt(fn):
    try:
        return 'ok', fn()
    except (KeyboardInterrupt, MemoryError, OSError) as e:
        return 'stop', e
    except R.REJECT as e:
        return 'err', e


def run_one(c):
    root = os.path.abspath('.')
    st_ = {'src_' + c['src']: 1}
    case = with_(c, steps=[with_(s, fault=dict(s['fault'])) if 'fault' in s else s
                           for s in c['steps']])
    cats = open_cats(c)
    ready(c, cats)
    w = Watch(cats, c['src'] != 'memory', c['src'].startswith('cen'))
    for p in w.all():
        p.unload()
    corrs, extra, viol = {}, (0, 0), None
    loads = 0
    log = []
    for k, st in enumerate(c['steps']):
        st_[st['op']] = st_.get(st['op'], 0) + 1
        if 'fault' in st:
            f = case['steps'][k]['fault']
            ctx = resolve(f, lambda: do(c, st, cats, dict(corrs)), root)
            if ctx is not None:
                with w:
                    got = attempt(lambda: within(ctx, lambda: do(c, st, cats, dict(corrs))))
                now = w.look()
                log.append((k, got[0], now))
                if got[0] == 'stop':
                    st_['stopped_' + f['kind']] = st_.get('stopped_' + f['kind'], 0) + 1
                viol = verdict(k, st, w, extra, now, False)
                if viol:
                    viol[1] += ' (stopped by %s)' % json_op(f)
                    break
                extra = now     # never more than the bound, as just checked
                corrs = {}
        with w:
            got = attempt(lambda: do(c, st, cats, corrs))
        if got[0] == 'stop':
            raise got[1]
        now = w.look()
        loads += w.peak['loaded'] + w.peak['trees']
        st_['peak_loaded_%d' % w.peak['loaded']] = st_.get('peak_loaded_%d' % w.peak['loaded'], 0) + 1
        log.append((k, got[0], now))
        if got[0] == 'err':
            st_['rejected'] = st_.get('rejected', 0) + 1
            break
        viol = verdict(k, st, w, extra, now, True)
        if viol:
            break
        extra = now
    st_['looks'] = w.events
    res = {'viol': viol, 'stats': st_, 'states': [G.digest(repr(w.seen))], 'trivial': not loads,
           'digest': G.digest(repr(w.seen), repr(log), repr(viol))}
    if viol:
        res['case'] = case
    return res


def json_op(op):
    return ' '.join('%s=%s' % (k, v) for k, v in sorted(op.items()))


class Files:
    def __init__(self, root, plan):
        self.j = simio.io(plan, None, root)

    def __enter__(self):
        return self.j.__enter__()

    def __exit__(self, *a):
        self.j.__exit__(*a)
        return False


def within(ctx, fn):
    with ctx:
        return fn()


def resolve(f, fn, root):
    """The exact point of a fault, counted in a process that is thrown away."""
    if f['kind'] == 'io':
        if 'op' not in f:
            dry = simio.process(lambda: attempt(fn) and None, root=root)
            p = simio.resolve({'act': f['act'], 'at': f['at'], 'arg': 0}, dry.ops)
            if p is None:
                return None
            f['op'] = p[0]
            f.pop('at', None)
        return Files(root, [[f['op'], f['act'], 0]])
    if 'n' not in f:
        n = simio.process(lambda: intr.choose(f['kind'], fn, f['at']), root=root)
        if n.status != 'ok' or not n.value:
            return None
        f['n'] = n.value
        f.pop('at')
    return intr.at(f['kind'], f['n'])


def shrinks(c):
    for k in range(len(c['steps'])):
        if len(c['steps']) > 1:
            yield with_(c, steps=c['steps'][:k] + c['steps'][k + 1:])
    for k, st in enumerate(c['steps']):
        for f in ('fault', 'local', 'more', 'algo'):
            if f in st:
                yield with_(c, steps=c['steps'][:k] + [with_(st, **{f: DROP})] + c['steps'][k + 1:])
    if 'nranks' in c:
        yield with_(c, nranks=DROP, sched=DROP)
        yield from R.shrink_ranks(c)
    if c['src'] != 'list':
        yield with_(c, src='list')
    for j, s in enumerate(c['cats']):
        for n in G.shrink_int(s['n'], s['npatch']):
            yield with_(c, cats=c['cats'][:j] + [with_(s, n=n)] + c['cats'][j + 1:])
