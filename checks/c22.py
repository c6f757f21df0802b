"""C22: no operation leaves a file open."""
import gc
import logging
import os

import numpy as np

from tcsim import cats as K, gen as G, intr, simio, system, world as W
from tcsim.gen import with_, DROP
from . import c13

PROPERTY = 'C22'
USES_SIMIO = True
HASHSEED = '0'
QUICK = {'runs': 6000, 'wall': 45, 'timeout': 60}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 120}
RULE = ('Each run makes two catalogs (in memory or in files of all formats), randoms and up to two '
        'correlation objects, and plays a history of uses that read and write files: catalogs, '
        'patches, patch centres, results in all formats, the command-line tool as a function with a '
        'log file, files cut short. Most uses meet a failing, short or interrupted file operation or '
        'an interrupt at a drawn point. When a use ends, whatever it ended with (an exception is still '
        'being handled then; after an interrupt, when that is forgotten), no file of the scratch directory may be open in the process. '
        'Non-trivial: at least one use opened a file and was stopped.')
STATES = 'distinct histories: hash of (uses, points of faults, outcomes)'
REAL = ['treecorr Python package', 'TreeCorr C++ extension',
        'numpy, pandas, fitsio/cfitsio, h5py/libhdf5']
STUB = ['file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'signals (KeyboardInterrupt raised by a pending call, at the points at which the '
        'interpreter looks for signals)', 'OpenMP: one thread']
ASSUMPTIONS = ['a log file stays open until its logger is closed',
               'an interrupt may come just when a file has been opened: then it may be open until '
               'the exception is forgotten',
               'an interrupt may come just when a reader or writer is being entered or left: then '
               'its file may stay open until the reader is used again']
AT_DOOR = 'KeyboardInterrupt while a file was being opened or closed'
REJ = W.REJ + (OSError,)


def setup():
    system.start()
    import fitsio, h5py, pandas, yaml  # noqa: F401,E401
    intr.lib()


# ---------------------------------------------------------------------------------- generation
def gen_use(r, c):
    f = c['cats'][0]
    x = r.random()
    if x < 0.25:
        op = c13.gen_cat_op(r, f)
    elif x < 0.5:
        k = r.randrange(len(c['corrs']))
        op = {'op': r.choice(['proc', 'wr', 'wr', 'rd', 'ro']), 'k': k}
        if op['op'] == 'proc':
            op['low'] = r.choice([0, 1, 1])
        else:
            op['ext'] = c['ext'][k]
            if op['op'] == 'wr':
                op['wpr'] = int(bool(f.get('patch')) and r.random() < 0.5)
    elif x < 0.62:
        op = {'op': 'cen', 'j': r.randrange(2), 'ext': r.choice(['dat', 'fits', 'hdf5'])}
    elif x < 0.74:
        op = {'op': 'pat', 'j': r.randrange(2), 'rd': r.choice([0, 1])}
    elif x < 0.86:
        op = {'op': 'read', 'j': r.randrange(2)}
        if r.random() < 0.5:
            op['cut'] = r.randrange(1, 1000)
    elif x < 0.94:
        op = {'op': 'cwr', 'j': r.randrange(2), 'ext': r.choice(['dat', 'fits', 'hdf5'])}
    else:
        op = {'op': 'tool', 'ext': r.choice(['dat', 'fits', 'hdf5']), 'three': r.choice([0, 0, 1])}
        if r.random() < 0.3:
            op['log'] = 1
    if r.random() < 0.75:
        op['fault'] = {'kind': r.choice(['io', 'io', 'io', 'int']), 'at': r.randrange(1 << 24),
                       'act': r.choice(['eio', 'eio', 'eios', 'enospc', 'full', 'eacces', 'emfile',
                                        'short', 'eintr'])}
    return op


def generate(r, i, tier):
    cats = W.gen_cats(r, nmax=r.choice([8, 16]), files=0.85)
    c = {'cats': cats, 'corrs': [W.gen_corr(r, cats) for _ in range(r.choice([1, 2]))]}
    if any(len(o['type']) == 3 for o in c['corrs']):
        for g in cats:
            g['cat'] = with_(g['cat'], n=min(g['cat']['n'], 10))
    for o in c['corrs']:
        o.pop('est', None)
    c['ext'] = [r.choice(['dat', 'fits', 'hdf5']) for _ in c['corrs']]
    c['ops'] = [{'op': 'proc', 'k': k, 'low': r.choice([0, 1])} for k in range(len(c['corrs']))]
    c['ops'] += [gen_use(r, c) for _ in range(r.choice([2, 4, 6]))]
    return c


# ---------------------------------------------------------------------------------- uses
def do(c, w, op):
    """Perform a use in world w."""
    import treecorr
    a = op['op']
    if a == 'cen':
        n = os.path.join(w.d, 'cen%d.%s' % (op['j'], op['ext']))
        w.cats[op['j']].write_patch_centers(n)
        w.cats[op['j']].read_patch_centers(n)
    elif a == 'pat':
        d = os.path.join(w.d, 'pat%d' % op['j'])
        os.makedirs(d, exist_ok=True)
        w.cats[op['j']].write_patches(d)
        if op['rd']:
            w.cats[op['j']].read_patches(d)
    elif a == 'read':
        f = c['cats'][op['j']]
        n = os.path.join(w.d, 'cat%d%s' % (op['j'], K.suffix(f)))
        if f['how'] == 'mem':
            return
        if 'cut' in op:
            with open(n, 'rb') as x:
                data = x.read()
            n = os.path.join(w.d, 'cut%d%s' % (op['j'], K.suffix(f)))
            with open(n, 'wb') as x:
                x.write(data[:len(data) * op['cut'] // 1000])
        K.open_cat(f, n).load()
    elif a == 'cwr':
        w.cats[op['j']].write(os.path.join(w.d, 'w%d.%s' % (op['j'], op['ext'])))
    elif a == 'tool':
        f = c['cats'][0]
        n = os.path.join(w.d, 'tool.txt')
        with open(n, 'w') as x:
            for j in range(9):
                x.write('%d %d 1.5\n' % (j, j * j % 7))
        conf = {'file_name': n, 'x_col': 1, 'y_col': 2, 'k_col': 3, 'min_sep': 1., 'max_sep': 9.,
                'nbins': 2, 'verbose': 0}
        if op.get('log'):
            conf['log_file'] = os.path.join(w.d, 'tool.log')
        t = 'kkk' if op['three'] else 'kk'
        if op['three']:
            conf.update(bin_type='LogRUV', nubins=1, nvbins=1)
        conf[t + '_file_name'] = os.path.join(w.d, 'tool.' + op['ext'])
        (treecorr.corr3 if op['three'] else treecorr.corr2)(conf)
    else:
        W.do(w, op)


def attempt(fn, root=None):
    """How it ended, and the files that are open then (while its exception, if any, is known)."""
    try:
        fn()
        return 'ok', still_open(root) if root else []
    except (KeyboardInterrupt, Exception) as e:
        how, tb = type(e).__name__, e.__traceback__
        while tb is not None and how == 'KeyboardInterrupt':
            if tb.tb_frame.f_code.co_name in ('__enter__', '__exit__', 'close', '__del__'):
                how = AT_DOOR
            tb = tb.tb_next
        return how, still_open(root) if root else []


def still_open(root):
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
            st = os.fstat(int(n))
        except OSError:
            continue
        if t.startswith(root + os.sep):
            out.append((t[len(root) + 1:], st.st_dev, st.st_ino))
    return sorted(out)


def resolve(f, fn, root):
    """The exact point of a fault, counted in a process that is thrown away."""
    if f['kind'] == 'io':
        if 'op' not in f:
            dry = simio.process(lambda: attempt(fn) and None, root=root)
            p = simio.resolve({'act': f['act'], 'at': f['at'], 'arg': 500}, dry.ops)
            if p is None:
                return None
            f['op'] = p[0]
            f.pop('at', None)
        return c13.Files(root, [[f['op'], f['act'], 500 if f['act'] == 'short' else 0]])
    if 'n' not in f:
        n = simio.process(lambda: intr.choose('int', fn, f['at']), root=root)
        if n.status != 'ok' or not n.value:
            return None
        f['n'] = n.value
        f.pop('at')
    return intr.at('int', f['n'])


def run(c):
    gc.collect()
    gc.disable()
    try:
        with K.pandas_off(c['cats'][0].get('nopandas')):
            return play(c)
    finally:
        gc.enable()


def play(c):
    stats, log = {}, []
    case = with_(c, ops=[with_(op, fault=dict(op['fault'])) if 'fault' in op else op
                         for op in c['ops']])
    root = os.path.abspath('.')
    res = {'viol': None, 'stats': stats, 'states': [], 'trivial': True}
    try:
        w = W.World(c, 'w')
    except W.REJ as e:
        stats['rejected'] = 1
        res['digest'] = G.digest('rejected', str(e))
        return res
    stopped, viol = 0, None
    known = {n[1:] for n in still_open(root)}

    def look(k, op, how, now, fault=None):
        """What is wrong with the files that are open after a use, or None."""
        if how == 'ended with KeyboardInterrupt':
            gc.collect()        # it may have come just when a file had been opened
            now = still_open(root)
        bad = [n[0] for n in now if n[1:] not in known] if not how.endswith(AT_DOOR) else []
        known.update(n[1:] for n in now)
        if op['op'] == 'tool' and op.get('log'):
            logging.shutdown()
            for h in list(logging.getLogger('treecorr').handlers):
                h.close()
            bad = [n for n in bad if not n.endswith('tool.log')]
        if not bad:
            return None
        return ['open-%s' % op['op'], 'use %d (%s), which %s%s, leaves open: %s' % (
            k, brief(op), how, ' (%s)' % brief(fault) if fault else '', ', '.join(bad))]

    for k, op in enumerate(c['ops']):
        stats[op['op']] = stats.get(op['op'], 0) + 1
        fn = lambda: do(c, w, op)   # noqa: E731
        if 'fault' in op:
            f = case['ops'][k]['fault']
            ctx = resolve(f, fn, root)
            if ctx is not None:
                def body():
                    with ctx:
                        fn()
                how, now = attempt(body, root)
                log.append((k, how))
                stats['fault_' + (f['act'] if f['kind'] == 'io' else 'int')] = stats.get(
                    'fault_' + (f['act'] if f['kind'] == 'io' else 'int'), 0) + 1
                stopped += how != 'ok'
                viol = look(k, op, 'completed' if how == 'ok' else 'ended with ' + how, now, f)
                if viol:
                    break
        how, now = attempt(fn, root)
        log.append((k, how))
        viol = look(k, op, 'completed' if how == 'ok' else 'ended with ' + how, now)
        if viol:
            break
    stats['stopped'] = stopped
    sig = (repr([with_(op, fault=DROP) if 'fault' in op else op for op in c['ops']]), repr(log))
    res.update(viol=viol, trivial=not stopped, states=[G.digest(*sig)],
               digest=G.digest(*sig, repr(viol)))
    if viol:
        res['case'] = case
    return res


def brief(op):
    return ' '.join('%s=%s' % (k, v) for k, v in sorted(op.items()) if k != 'fault')


def shrinks(c):
    for ops in G.chunks_removed(c['ops']):
        yield with_(c, ops=ops)
    for i, op in enumerate(c['ops']):
        if 'fault' in op:
            yield with_(c, ops=c['ops'][:i] + [with_(op, fault=DROP)] + c['ops'][i + 1:])
        for x in ('cut', 'log', 'wpr', 'low', 'rd'):
            if op.get(x):
                yield with_(c, ops=c['ops'][:i] + [with_(op, **{x: 0 if x != 'cut' else DROP})] +
                            c['ops'][i + 1:])
    for i, g in enumerate(c['cats']):
        for s in G.shrink_cat(g['cat']):
            yield with_(c, cats=[with_(h, cat=s) if j == i else h for j, h in enumerate(c['cats'])])
