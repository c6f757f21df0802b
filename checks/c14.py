"""C14: copies and checkpoints are faithful and independent."""
import copy
import gc
import hashlib
import os
import pickle
import subprocess
import sys

import numpy as np

from tcsim import cats as K, gen as G, system, world as W
from tcsim.gen import with_, DROP

PROPERTY = 'C14'
USES_SIMIO = True
HASHSEED = '0'
QUICK = {'runs': 6000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run makes two catalogs (in memory, or in files that are read when needed), randoms and '
        'up to two correlation objects (two- and three-point) and plays a history of uses, '
        'including the low-level steps of an accumulation. At any points of it everything is '
        'duplicated (copy(), copy.deepcopy, pickled together or one by one; catalogs may instead be '
        'shared), or written to a checkpoint file and continued by a new process while the original '
        'goes on; uses then alternate between the duplicates, which may also be merged again. '
        'Each value observed, and the final state of every duplicate, must be that of fresh objects '
        'with which only the uses of this duplicate (and of its ancestors before) are repeated. '
        'Non-trivial: something was duplicated and both sides were used or observed afterwards.')
STATES = 'distinct histories: hash of the tree of uses'
REAL = ['treecorr Python package', 'TreeCorr C++ extension', 'pickle, copy',
        'numpy, pandas, fitsio/cfitsio, h5py/libhdf5', 'new interpreters for restarts']
STUB = ['OpenMP: one thread']
ASSUMPTIONS = ['a random number generator given by the user is his: copy() shares it (objects with '
               'one are duplicated by pickle and deepcopy only)']
REJ = W.REJ + (FileNotFoundError,)
HOW = ['copy', 'copy', 'deepcopy', 'pickle', 'pickle', 'together']


def setup():
    system.start()
    import fitsio, h5py, pandas  # noqa: F401,E401


# ---------------------------------------------------------------------------------- generation
def gen_use(r, c, done):
    """One use of a world in which the correlations in `done` were processed."""
    from .c13 import gen_cat_op
    f = c['cats'][0]
    if r.random() < 0.2:
        return gen_cat_op(r, f)
    k = r.randrange(len(c['corrs']))
    o = c['corrs'][k]
    a = r.choice(['proc', 'proc', 'part', 'part', 'part', 'cov', 'calc', 'wrrd', 'obs', 'multi',
                  'rp'])
    if c.get('acc') and r.random() < 0.6:
        a = 'part'
    if k not in done and a in ('cov', 'calc', 'wrrd', 'multi'):
        a = r.choice(['proc', 'part'])
    if a == 'multi' and len(done) < len(c['corrs']):
        a = 'cov'
    op = {'op': a, 'k': k}
    if a == 'proc':
        op['low'] = r.choice([0, 0, 1])
        if len(o['type']) == 3:
            op['ordered'] = r.choice([0, 1])
    elif a == 'part':
        op['how'] = r.choice(['clear', 'first', 'more', 'more', 'auto', 'cross', 'final', 'add'])
        if c.get('acc') and r.random() < 0.6:
            op['how'] = 'more'
        if op['how'] in ('first', 'more'):
            op['fin'] = r.choice([0, 0, 0, 1] if c.get('acc') else [0, 1])
    elif a in ('cov', 'multi'):
        ms = ['shot', 'jackknife', 'sample']
        if (c['corrs'][0] if a == 'multi' else o).get('rng') is not None:
            ms += ['marked_bootstrap', 'bootstrap'] * 2
        op['m'] = r.choice(ms)
        if a == 'multi':
            op['ks'] = list(range(len(c['corrs'])))
            op.pop('k')
        elif r.random() < 0.4:
            op['attr'] = 1
    elif a == 'wrrd':
        op['ext'] = r.choice(['dat', 'fits', 'hdf5'])
        op['wpr'] = int(bool(f.get('patch')) and r.random() < 0.5)
        op['into'] = r.choice([0, 1])
        if r.random() < 0.4:
            op['wcov'] = 1
    if a in ('proc', 'part') and r.random() < (0.5 if c.get('acc') else 0.3):
        op['swap'] = 1
    if a == 'proc' or (a == 'part' and op['how'] in ('first', 'more') and op['fin']):
        done.add(k)
    elif a == 'part':
        done.discard(k) if op['how'] == 'clear' else None
    return op


def generate(r, i, tier):
    cats = W.gen_cats(r, nmax=r.choice([8, 16, 30]))
    if not cats[0].get('patch'):
        cats = W.gen_cats(r, nmax=r.choice([8, 16, 30]))
    c = {'cats': cats, 'corrs': [W.gen_corr(r, cats) for _ in range(r.choice([1, 1, 2]))]}
    if any(len(o['type']) == 3 for o in c['corrs']):
        for g in cats:
            g['cat'] = with_(g['cat'], n=min(g['cat']['n'], 12))
    for o in c['corrs']:
        if r.random() < 0.2:
            o['rng'] = r.randrange(1 << 20)
            o['kw']['num_bootstrap'] = 4
    rng = any('rng' in o for o in c['corrs'])
    nw, done, ops = 1, [set()], []
    restart = False
    if cats[0].get('patch') and r.random() < 0.35:
        c['acc'] = 1            # mostly accumulating in several steps
    if r.random() < 0.6:
        for k in range(len(c['corrs'])):
            ops.append({'op': 'proc', 'k': k, 'low': r.choice([0, 1]), 'w': 0})
            done[0].add(k)
    for j in range(r.choice([2, 3, 4, 6, 8])):
        w = r.randrange(nw)
        x = r.random()
        if (x < 0.3 or (j == 1 and nw == 1)) and nw < 4:
            op = {'op': 'fork', 'w': w,
                  'how': [r.choice(HOW[2:] if rng else HOW) for _ in range(3)]}
            if c.get('acc') and not rng and r.random() < 0.6:
                op['how'][2] = 'copy'
            if r.random() < 0.3:
                op['share'] = 1
            if r.random() < 0.06 and not restart:
                op['how'], restart = ['restart'] * 3, True
                op.pop('share', None)
            nw += 1
            done.append(set(done[w]))
        elif x < 0.4 and nw > 1:
            k = r.randrange(len(c['corrs']))
            op = {'op': 'merge', 'w': w, 'with': r.randrange(nw), 'k': k}
        else:
            op = dict(gen_use(r, c, done[w]), w=w)
        ops.append(op)
        if op['op'] == 'wrrd' and op.get('wcov') and op.get('into') and nw < 4 and \
                r.random() < 0.7:
            # The covariance that was read cannot be made again from anything else.
            op['wpr'] = 0
            ops.append({'op': 'fork', 'w': w,
                        'how': [r.choice(HOW[2:] if rng else HOW) for _ in range(3)]})
            nw += 1
            done.append(set(done[w]))
    if c.get('acc'):
        ops += [{'op': 'part', 'k': k, 'how': 'more', 'fin': 1, 'w': w}
                for w in range(nw) for k in range(len(c['corrs']))]
    if nw == 1:
        ops.insert(r.randrange(len(ops) + 1), {'op': 'fork', 'w': 0, 'how': [r.choice(
            HOW[2:] if rng else HOW) for _ in range(3)]})
    c['ops'] = ops
    return c


# ---------------------------------------------------------------------------------- duplicating
def clone(x, how):
    if how == 'copy':
        return x.copy()
    if how == 'deepcopy':
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x))


def same_eq(a, b):
    """a duplicate is equal to the original, if that is equal to itself"""
    return (a == b) == (a == a)


def fork(w, op, d):
    """A duplicate of world w; returns it and what is wrong with it already."""
    n = W.World.__new__(W.World)
    n.d = d
    os.makedirs(d, exist_ok=True)
    how = op['how']
    bad = None
    if op.get('share'):
        n.cats, n.rands = w.cats, w.rands
    elif how[0] == 'together':
        n.cats, n.rands = pickle.loads(pickle.dumps((w.cats, w.rands)))
    else:
        n.cats = [clone(x, how[0]) for x in w.cats]
        n.rands = [clone(x, how[1]) for x in w.rands]
    if how[2] == 'together':
        cs = pickle.loads(pickle.dumps([x.c for x in w.corrs]))
    else:
        cs = [{k: clone(y, how[2]) for k, y in x.c.items()} for x in w.corrs]
    n.corrs = []
    for x, c in zip(w.corrs, cs):
        y = W.Obj.__new__(W.Obj)
        y.o, y.c = x.o, c
        n.corrs.append(y)
        for k in c:
            if not same_eq(x.c[k], c[k]):
                bad = 'the duplicate (%s) of correlation %s is not equal to it' % (how[2], k)
    if not op.get('share') and bad is None:
        for x, y in zip(w.cats, n.cats):
            if x.loaded and not same_eq(x, y):      # comparing loads it
                bad = 'the duplicate (%s) of a catalog is not equal to it' % how[0]
    return n, bad


def use(w, op, others=None, fresh=False):
    a = op['op']
    if a == 'merge':
        x, y = w.corrs[op['k']].c['main'], others
        if y is x:
            y = x.copy()
        x += y
        return ('corr', [W.obs_corr(x)])
    if a == 'rp':           # what repr() shows makes an equivalent object
        import treecorr  # noqa: F401
        o = w.corrs[op['k']]
        env = {t + 'Correlation': getattr(treecorr, t + 'Correlation') for t in G.TYPES2 + G.TYPES3}
        env.update(np=np, array=np.array, inf=np.inf, nan=np.nan)
        if fresh:
            y = G.make_corr2(o.o['type'], o.o['kw'])
        else:
            y = eval(repr(o.c['main']), env)
        W.run_proc(y, o.args('main', w.cats, w.rands), op, 'rp')
        return ('corr', [W.obs_corr(y)])
    if a == 'wrrd':
        f = W.do(w, with_(op, op='wr', w=DROP))
        g = W.do(w, with_(op, op='ro' if op.get('into') else 'rd'))
        return ('both', [f, g])
    return W.do(w, op)


def attempt(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('exc', e)


def finals(c):
    return [{'op': 'snap', 'on': i} for i in range(2)] + \
        [{'op': a, 'k': k, 'attr': 1} for k in range(len(c['corrs'])) for a in ('obs', 'cov')]


def restarted(name):
    """Run in a new process: continue from a checkpoint."""
    setup()
    with open(name, 'rb') as f:
        w, ops, nopandas = pickle.load(f)
    w.d += 'n'
    os.makedirs(w.d, exist_ok=True)
    out = []
    with K.pandas_off(nopandas):
        for op in ops:
            res = attempt(lambda: use(w, op))
            out.append(res if res[0] == 'ok' else
                       ('exc', type(res[1]).__name__, str(res[1]), isinstance(res[1], REJ)))
    with open(name + '.out', 'wb') as f:
        pickle.dump(out, f)


class Restart(Exception):
    pass


def continue_elsewhere(w, ops, nopandas):
    name = os.path.abspath(w.d + '.ckpt')
    with open(name, 'wb') as f:
        pickle.dump((w, ops, nopandas), f)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); '
                        'from checks import c14; c14.restarted(%r)' % (root, name)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Restart('status %d: %s' % (p.returncode, p.stdout[-1500:]))
    with open(name + '.out', 'rb') as f:
        return pickle.load(f)


# ---------------------------------------------------------------------------------- playing
def run(c):
    gc.collect()
    gc.disable()            # so that it does not matter when it would have run
    try:
        with K.pandas_off(c['cats'][0].get('nopandas')):
            return play(c)
    finally:
        gc.enable()


def diff(a, b, op):
    if b[0] == 'both':
        return W.diff(a[1][0], b[1][0], op) or W.diff(a[1][1], b[1][1], op)
    return W.diff(a, b, op)


def linear(c):
    """For each world the list of (index, op) of its own history; merges hold that of the other."""
    hist = [[]]
    for i, op in enumerate(c['ops']):
        if op['op'] == 'fork':
            if op['w'] < len(hist):
                hist.append(list(hist[op['w']]))
            continue
        if op['w'] >= len(hist) or op.get('with', 0) >= len(hist):
            continue
        if op['op'] == 'merge':
            o = None if op['with'] == op['w'] else list(hist[op['with']])
            hist[op['w']].append((i, with_(op, other=o)))
        else:
            hist[op['w']].append((i, op))
    return hist


def key_of(op):
    return ('k', op['k']) if 'k' in op else ('m',) if op['op'] == 'multi' else ('c',)


def fresh(c, hist, d, memo):
    """Observations of fresh objects with which this history is played: {index: outcome}."""
    w = W.World(c, d)
    out = {}
    void = set()
    for i, op in hist:
        if key_of(op) in void or ('ks' in op and void & {('k', x) for x in op['ks']}):
            continue
        other = None
        if op['op'] == 'merge':
            if op['other'] is None:
                other = w.corrs[op['k']].c['main']
            else:
                memo[0] += 1
                v = fresh(c, op['other'], '%s.%d' % (d, memo[0]), memo)
                if v is None or ('k', op['k']) in v[2]:
                    void.add(('k', op['k']))
                    continue
                other = v[1].corrs[op['k']].c['main']
        res = attempt(lambda: use(w, op, other, fresh=True))
        if res[0] == 'exc':
            if not isinstance(res[1], REJ):
                raise res[1]
            if key_of(op) != ('c',):
                void.add(key_of(op))
            if op['op'] == 'multi':
                void |= {('k', x) for x in op['ks']}
        out[i] = res
    return out, w, void


def play(c):
    stats, states = {}, []
    res = {'viol': None, 'stats': stats, 'states': states, 'trivial': True}
    ends = [(len(c['ops']) + j, op) for j, op in enumerate(finals(c))]
    hist = linear(c)
    memo = [0]
    want, void = [], []
    for n, h in enumerate(hist):
        try:
            o, w, v = fresh(c, h + ends, 'ref%d' % n, memo)
        except REJ as e:
            stats['rejected'] = 1
            res['digest'] = G.digest('rejected', str(e))
            return res
        want.append(o)
        void.append(v)

    worlds = [W.World(c, 'w0')]
    moved = {}
    viol = None

    def compare(n, i, op, out):
        ref = want[n][i]
        if out[0] != ref[0]:
            import traceback
            e = out[1] if out[0] == 'exc' else ref[1]
            tb = ''.join(traceback.format_exception(e))[-1500:] if out[0] == 'exc' and \
                isinstance(e, BaseException) else ''
            return ['%s-%s:%s' % (op['op'], 'fails' if out[0] == 'exc' else 'succeeds',
                                  e if isinstance(e, str) else type(e).__name__),
                    'world %d, use %d (%s) %s: %r %s\n%s' % (
                        n, i, brief(op), 'fails, with fresh objects it does not'
                        if out[0] == 'exc' else 'succeeds, but with fresh objects it fails', e,
                        out[2] if len(out) > 2 else '', tb)]
        if out[0] == 'ok':
            d = diff(out[1], ref[1], op)
            if d:
                return ['%s-value' % op['op'],
                        'world %d, use %d (%s): not as with fresh objects: %s' % (
                            n, i, brief(op), d)]
        return None

    used = set()
    for i, op in list(enumerate(c['ops'])) + ends:
        if i >= len(c['ops']):
            todo = [n for n in range(len(worlds)) if n not in moved]
        elif op['op'] == 'fork':
            n = op['w']
            if n >= len(worlds):
                continue
            if n in moved:
                worlds.append(None)
                moved[len(worlds) - 1] = None      # cannot be followed
                continue
            if op['how'][0] == 'restart':
                # All that is left to do with it is done by another process, now.
                new = len(worlds)
                rest = [(j, o) for j, o in hist[new] + ends if j > i and j in want[new]]
                if any(o['op'] == 'merge' for _, o in rest):
                    rest = rest[:[o['op'] for _, o in rest].index('merge')]
                worlds.append(None)
                moved[new] = None
                try:
                    outs = continue_elsewhere(worlds[n], [o for _, o in rest],
                                              c['cats'][0].get('nopandas'))
                except Restart as e:
                    viol = ['restart-fails', 'the checkpoint taken before use %d cannot be '
                            'continued: %s' % (i, e)]
                    break
                stats['restarts'] = stats.get('restarts', 0) + 1
                for (j, o), out in zip(rest, outs):
                    if key_of(o) == ('c',) and o['op'] == 'repr':
                        continue
                    viol = compare(new, j, o, out)
                    if viol:
                        viol[1] = 'restarted before use %d: ' % i + viol[1]
                        break
                if viol:
                    break
                continue
            out = attempt(lambda: fork(worlds[n], op, 'w%d' % len(worlds)))
            if out[0] == 'exc':
                import traceback
                viol = ['fork-fails:%s' % type(out[1]).__name__,
                        'world %d cannot be duplicated before use %d (%s): %r\n%s' % (
                            n, i, op['how'], out[1],
                            ''.join(traceback.format_exception(out[1]))[-1500:])]
                break
            worlds.append(out[1][0])
            for h in op['how']:
                stats['fork_' + h] = stats.get('fork_' + h, 0) + 1
            if out[1][1]:
                viol = ['fork-differs', 'before use %d: %s' % (i, out[1][1])]
                break
            continue
        else:
            todo = [op['w']]
        for n in todo:
            if n >= len(worlds) or n in moved or i not in want[n]:
                continue
            other = None
            if op['op'] == 'merge':
                m = op['with']
                if m in moved or m >= len(worlds):
                    # The other one is gone: this one cannot go on either.
                    moved[n] = None
                    continue
                other = worlds[m].corrs[op['k']].c['main']
            out = attempt(lambda: use(worlds[n], op, other))
            viol = compare(n, i, op, out)
            if i < len(c['ops']):
                used.add(n)
                stats['use_' + op['op']] = stats.get('use_' + op['op'], 0) + 1
            if viol:
                break
        if viol:
            break
    sig = repr([sorted((a, str(b)) for a, b in op.items()) for op in c['ops']])
    states.append(hashlib.sha256(sig.encode()).hexdigest()[:16])
    stats['worlds'] = len(worlds)
    res.update(viol=viol, trivial=len(worlds) < 2 or not used, digest=G.digest(sig, repr(viol)))
    if viol:
        res['ident'] = viol[0]
    return res


def brief(op):
    return ' '.join('%s' % (op[k],) for k in ('op', 'k', 'how', 'a', 'type', 'm', 'ext')
                    if k in op) + (' low_mem' if op.get('low') else '')


def shrinks(c):
    for ops in G.chunks_removed(c['ops']):
        yield with_(c, ops=ops)
    for i, op in enumerate(c['ops']):
        def put(x):
            return with_(c, ops=c['ops'][:i] + [x] + c['ops'][i + 1:])
        for k in ('low', 'wpr', 'attr', 'ordered', 'into', 'share'):
            if op.get(k):
                yield put(with_(op, **{k: DROP}))
        if op['op'] == 'fork':
            for j in range(3):
                if op['how'][j] not in ('copy', 'restart'):
                    yield put(with_(op, how=op['how'][:j] + ['copy'] + op['how'][j + 1:]))
    # The rest is as in C13.
    from . import c13
    c_ = with_(c, ops=[with_(op) for op in c['ops']])
    for x in c13.shrinks(c_):
        if x['ops'] == c['ops']:
            yield x
