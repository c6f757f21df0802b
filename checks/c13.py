"""C13: an interrupted or failed computation leaves nothing wrong behind."""
import gc
import hashlib
import os

import numpy as np

from tcsim import cats as K, gen as G, intr, simio, system, world as W
from tcsim.gen import with_, DROP
from .c11 import ATTRS

PROPERTY = 'C13'
USES_SIMIO = True
HASHSEED = '0'
QUICK = {'runs': 6000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run makes two catalogs (in memory, or in files that are read when needed), randoms and '
        'up to three correlation objects (two- and three-point), and plays a history of uses: '
        'processing with and without low_mem, estimators, covariances, writing and reading, '
        'attributes, fields, patches, combining, unloading. A use may be interrupted, up to twice: '
        'by KeyboardInterrupt at any point at which the interpreter looks for signals, by a failed '
        'allocation of an array or in the compiled layer, by a failing file operation; it is then '
        'repeated at once or at the end of the history. The '
        'repeated use, all others, and the final state of all objects are compared with the same '
        'history undisturbed. Non-trivial: at least one use was stopped.')
STATES = 'distinct histories: hash of (uses, points of interruption)'
REAL = ['treecorr Python package', 'TreeCorr C++ extension',
        'numpy, pandas, fitsio/cfitsio, h5py/libhdf5']
STUB = ['operator new of the extension and the allocator of NumPy arrays (fail as planned)',
        'file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'signals (KeyboardInterrupt raised by a pending call, at the points at which the '
        'interpreter looks for signals)', 'OpenMP: one thread']
ASSUMPTIONS = ['allocations in parallel regions and of Python objects do not fail']
REJ = W.REJ


def setup():
    system.start()
    import fitsio, h5py, pandas  # noqa: F401,E401
    intr.lib()


# ---------------------------------------------------------------------------------- generation
def gen_fault(r):
    k = r.choice(['int', 'int', 'int', 'mem', 'mem', 'alloc', 'io'])
    f = {'kind': k, 'at': r.randrange(1 << 24)}
    if k == 'io':
        f['act'] = r.choice(['eio', 'eio', 'enospc', 'full', 'eacces', 'emfile'])
    return f


def gen_cat_op(r, f):
    from .c11 import gen_op
    for _ in range(99):
        op = gen_op(r, f, True)
        op.pop('fault', None)
        op['on'] %= 2
        if op['op'] in W.CAT_OPS:
            return op


def generate(r, i, tier):
    cats = W.gen_cats(r, nmax=r.choice([8, 16, 30]))
    f = cats[0]
    c = {'cats': cats, 'corrs': [W.gen_corr(r, cats) for _ in range(r.choice([1, 1, 2]))]}
    if any('ntri' in o or len(o['type']) == 3 for o in c['corrs']):
        for g in cats:
            g['cat'] = with_(g['cat'], n=min(g['cat']['n'], 12))
    ops = []
    written = {}
    for _ in range(r.choice([1, 2, 3, 5])):
        if r.random() < 0.35:
            op = gen_cat_op(r, f)
        else:
            k = r.randrange(len(c['corrs']))
            o = c['corrs'][k]
            a = r.choice(['proc', 'proc', 'proc', 'cov', 'cov', 'calc', 'wr', 'wr', 'rd', 'ro',
                          'multi'])
            if not any(x['op'] == 'proc' and x['k'] == k for x in ops):
                a = 'proc'
            if a in ('rd', 'ro') and k not in written:
                a = 'wr'
            if a == 'multi' and len({x['k'] for x in ops if x['op'] == 'proc'}) < len(c['corrs']):
                a = 'cov'
            op = {'op': a, 'k': k}
            if a == 'proc':
                if r.random() < 0.25:
                    op['swap'] = 1
                op['low'] = r.choice([0, 0, 1])
                if len(o['type']) == 3:
                    op['ordered'] = r.choice([0, 1])
            elif a in ('cov', 'multi'):
                op['m'] = r.choice(['shot', 'jackknife', 'jackknife', 'sample', 'marked_bootstrap'])
                if op['m'] == 'marked_bootstrap':
                    op['m'] = 'jackknife'
                if a == 'multi':
                    op['ks'] = [k] if r.random() < 0.2 else list(range(len(c['corrs'])))
                    op.pop('k')
                elif r.random() < 0.4:
                    op['attr'] = 1
            elif a == 'wr':
                op['ext'] = written[k] = r.choice(['dat', 'fits', 'hdf5'])
                op['wpr'] = int(bool(f.get('patch')) and r.random() < 0.5)
            elif a in ('rd', 'ro'):
                op['ext'] = written[k]
        if r.random() < 0.6:
            op['faults'] = [gen_fault(r) for _ in range(r.choice([1, 1, 1, 2]))]
            if r.random() < 0.25:
                op['later'] = 1
            if op['op'] in ('get', 'snap', 'load', 'field') and r.random() < 0.6:
                op['once'] = 1      # not repeated: something else comes first
                op.pop('later', None)
                ops.append(op)
                op = {'op': 'get', 'on': op['on'], 'a': r.choice(ATTRS)}
        ops.append(op)
    if not any(op.get('faults') for op in ops):
        ops[-1]['faults'] = [gen_fault(r)]
    c['ops'] = ops
    return c


# ---------------------------------------------------------------------------------- faults
class Files:
    def __init__(self, root, plan=()):
        self.j = simio.io(plan, None, root)

    def __enter__(self):
        self.j.__enter__()
        return self

    def __exit__(self, *a):
        self.j.__exit__(*a)
        hit = [o for o in self.j.ops if o.act]
        self.where = ', '.join(map(repr, hit)) or None
        return False


class Crash(Exception):
    pass


def attempt(fn):
    try:
        return ('ok', fn())
    except (KeyboardInterrupt, Exception) as e:
        return ('exc', e)


def within(ctx, fn):
    try:
        with ctx:
            return ('ok', fn())
    except (KeyboardInterrupt, Exception) as e:
        return ('exc', e)


def key_of(op):
    return ('k', op['k']) if 'k' in op else ('m',) if op['op'] == 'multi' else ('c',)


def run(c):
    gc.collect()
    gc.disable()            # so that it does not matter when it would have run
    try:
        with K.pandas_off(c['cats'][0].get('nopandas')):
            return play(c)
    finally:
        gc.enable()


def finals(c):
    return [{'op': 'snap', 'on': i} for i in range(2)] + \
        [{'op': 'obs', 'k': k} for k in range(len(c['corrs']))]


def play(c):
    stats, states, trace = {}, [], []
    case = with_(c, ops=[with_(op, faults=[dict(f) for f in op['faults']])
                         if op.get('faults') else dict(op) for op in c['ops']])
    root = os.path.abspath('.')
    ops = c['ops'] + finals(c)
    res = {'viol': None, 'stats': stats, 'states': states, 'trivial': True}
    ref, sub = [], []
    for d in 'rs':
        out = attempt(lambda: W.World(c, d))
        if out[0] == 'exc':
            if not isinstance(out[1], REJ):
                raise out[1]
            stats['rejected'] = 1
            res['digest'] = G.digest('rejected', str(out[1]))
            return res
        (ref if d == 'r' else sub).append(out[1])
    ref, sub = ref[0], sub[0]
    # The history undisturbed.  The points for faults are counted by repetition in a process that
    # is thrown away, so that nothing here depends on it.
    want = []
    for k, op in enumerate(ops):
        want.append(attempt(lambda: W.do(ref, op)))
        if want[-1][0] == 'exc' and not isinstance(want[-1][1], REJ + (FileNotFoundError,)):
            raise want[-1][1]
    # Objects for which something is rejected are in no definite state from then on.
    void = {key_of(op) for k, op in enumerate(c['ops']) if want[k][0] == 'exc'} - {('c',)}
    stopped = 0
    viol = None
    later = []
    delayed = set()

    def resolve(k, j, op):
        """The exact point of fault j of operation k, as a context to run it in."""
        f = case['ops'][k]['faults'][j]
        if f['kind'] == 'io':
            if 'op' not in f:
                dry = simio.process(lambda: attempt(lambda: W.do(sub, op)) and None, root=root)
                p = simio.resolve({'act': f['act'], 'at': f['at'], 'arg': 0}, dry.ops)
                if p is None:
                    return None
                f['op'] = p[0]
                f.pop('at', None)
            return Files(root, [[f['op'], f['act'], 0]])
        if 'n' not in f:
            n = simio.process(lambda: intr.choose(f['kind'], lambda: W.do(sub, op), f['at']),
                              root=root)
            if n.status != 'ok':
                raise Crash('%r %s' % (n, n.tb))
            if not n.value:
                return None
            f['n'] = n.value
            f.pop('at')
        if f['kind'] in ('alloc', 'mem'):
            # Where no exception can be thrown the process ends, as it does in a few places in
            # NumPy that do not expect this: then there is nothing to repeat.
            n = simio.process(lambda: within(intr.at(f['kind'], f['n']), lambda: W.do(sub, op))
                              and None, root=root)
            if n.status == 'died':
                k = '%s_ends_process' % f['kind']
                stats[k] = stats.get(k, 0) + 1
                return None
        return intr.at(f['kind'], f['n'])

    def check(k, op, out, how):
        if out[0] != want[k][0]:
            e = out[1] if out[0] == 'exc' else want[k][1]
            import traceback
            tb = ''.join(traceback.format_exception(e))[-1500:] if out[0] == 'exc' else ''
            return ['%s-%s:%s' % (op['op'], 'fails' if out[0] == 'exc' else 'succeeds',
                                  type(e).__name__),
                    'use %d (%s) %s: %s %r; stopped before: %s\n%s' % (
                        k, brief(op), how, 'fails' if out[0] == 'exc' else
                        'succeeds, but undisturbed it fails:', e, points(), tb)]
        if out[0] == 'ok':
            d = W.diff(out[1], want[k][1], op, loose=any(t[2] == 'alloc' for t in trace))
            if d:
                return ['%s-value' % op['op'], 'use %d (%s) %s: %s; stopped before: %s' % (
                    k, brief(op), how, d, points())]
        return None

    def points():
        return '; '.join('use %d: %s at %s' % t[1:] for t in trace if t[0] == 'stop') or 'nothing'

    todo = list(enumerate(ops))
    while todo and viol is None:
        k, op = todo.pop(0)
        if (key_of(op) in delayed or (op['op'] == 'multi' and delayed)) and k < len(c['ops']):
            later.append((k, with_(op, faults=DROP)))
            delayed.add(key_of(op))
            continue
        if k >= len(c['ops']) and later:
            todo = later + [(k, op)] + todo
            later, delayed = [], set()
            continue
        if key_of(op) in void or ('ks' in op and void & {('k', x) for x in op['ks']}):
            continue
        put_off = skip = False
        for j in range(len(op.get('faults', ()))):
            try:
                ctx = resolve(k, j, op)
            except Crash as e:
                viol = ['%s-crash' % op['op'], 'use %d (%s) ends the process: %s; stopped before: '
                        '%s' % (k, brief(op), e, points())]
                break
            if ctx is None:
                stats['faults_nowhere'] = stats.get('faults_nowhere', 0) + 1
                continue
            out = within(ctx, lambda: W.do(sub, op))
            kind = op['faults'][j]['kind']
            if ctx.where is None:
                stats['faults_missed'] = stats.get('faults_missed', 0) + 1
            else:
                n = 'fault_' + kind + ('_' + case['ops'][k]['faults'][j]['act']
                                       if kind == 'io' else '')
                stats[n] = stats.get(n, 0) + 1
                trace.append(('stop', k, kind, ctx.where))
            if out[0] == 'ok':
                stats['use_went_on'] = stats.get('use_went_on', 0) + 1
                if kind == 'io' and op['op'] in ('wr', 'write') and ctx.where:
                    continue        # what a failing close does to a file is C09
                if kind == 'mem' and op['op'] == 'eq':
                    continue        # numpy.array_equal gives False then
                viol = check(k, op, out, 'goes on after %s' % kind)
                if viol:
                    break
            elif ctx.where is not None:
                stopped += 1
                stats['stopped_' + op['op']] = stats.get('stopped_' + op['op'], 0) + 1
                if op.get('later') and key_of(op) != ('c',):
                    put_off = True
                    break
                if op.get('once'):
                    skip = True
                    break
        if viol:
            break
        if skip:
            continue
        if put_off:
            later.append((k, with_(op, faults=DROP)))
            delayed.add(key_of(op))
            continue
        out = attempt(lambda: W.do(sub, op))
        viol = check(k, op, out, 'repeated' if op.get('faults') else 'later')
    sig = (repr([sorted((a, str(b)) for a, b in op.items() if a != 'faults') for op in ops]), trace)
    states.append(hashlib.sha256(repr(sig).encode()).hexdigest()[:16])
    res.update(viol=viol, trivial=not stopped, digest=G.digest(repr(sig), repr(viol)))
    if viol:
        res['case'] = case
        last = [t for t in trace if t[0] == 'stop']
        res['ident'] = '%s %s' % (viol[0], last[-1][3].split(':')[0] if last else '')
    return res


def brief(op):
    return ' '.join('%s' % (op[k],) for k in ('op', 'k', 'a', 'type', 'm', 'ext') if k in op) + \
        (' low_mem' if op.get('low') else '')


def shrinks(c):
    for ops in G.chunks_removed(c['ops']):
        yield with_(c, ops=ops)
    for i, op in enumerate(c['ops']):
        def put(x):
            return with_(c, ops=c['ops'][:i] + [x] + c['ops'][i + 1:])
        if op.get('faults'):
            for fs in G.chunks_removed(op['faults']):
                yield put(with_(op, faults=fs or DROP))
        for k in ('later', 'low', 'wpr', 'attr', 'ordered'):
            if op.get(k):
                yield put(with_(op, **{k: DROP}))
    used = {op['k'] for op in c['ops'] if 'k' in op} | \
        {k for op in c['ops'] for k in op.get('ks', ())}
    n = len(c['corrs'])
    if n > 1 and n - 1 not in used:
        yield with_(c, corrs=c['corrs'][:-1])
    for k, o in enumerate(c['corrs']):
        def putc(x):
            return with_(c, corrs=c['corrs'][:k] + [x] + c['corrs'][k + 1:])
        if o.get('est'):
            yield putc(with_(o, est=DROP))
        for a in ('nbins', 'nubins', 'nvbins', 'nphi_bins', 'max_n'):
            if o['kw'].get(a, 1) > 1:
                yield putc(with_(o, kw=with_(o['kw'], **{a: 1})))
        for a in ('split_method', 'brute', 'min_rpar', 'max_rpar', 'angle_slop', 'min_top',
                  'max_top', 'var_method'):
            if a in o['kw']:
                yield putc(with_(o, kw=with_(o['kw'], **{a: DROP})))
    if c['cats'][0]['how'] == 'file':
        yield with_(c, cats=[with_(f, how='mem', dir=DROP) for f in c['cats']])
    for i, f in enumerate(c['cats']):
        for s in G.shrink_cat(f['cat']):
            if s['n'] >= 2:
                yield with_(c, cats=c['cats'][:i] + [with_(f, cat=s)] + c['cats'][i + 1:])
    if c['cats'][0].get('dir'):
        yield with_(c, cats=[with_(c['cats'][0], dir=DROP)] + c['cats'][1:])
    need = {x for o in c['corrs'] for x in o['type']} | \
        {x for op in c['ops'] for x in op.get('type', '') + op.get('t', '')}
    for f in K.shrink_file(c['cats'][0]):
        if c['cats'][0].get('nopandas') and not f.get('nopandas'):
            continue
        if f['cat'] != c['cats'][0]['cat'] or any(x not in 'N' + f['fields'] for x in need):
            continue
        if not f.get('patch') and c['cats'][0].get('patch'):
            continue
        g = with_(f, cat=c['cats'][1]['cat'])
        if f.get('patch') == 'centers':
            g['cen'] = dict(f)
        yield with_(c, cats=[f, g])
