"""C10: patch files on disk never change a result, even after crashes."""
import hashlib
import os
import re
import shutil

import numpy as np

from tcsim import cats as K, gen as G, mpi, ranks as R, simio, system
from tcsim.gen import with_, DROP
from . import c11 as L

PROPERTY = 'C10'
USES_SIMIO = True
HASHSEED = '0'      # extensions are read in the order of a set of their names
QUICK = {'runs': 4000, 'wall': 45, 'timeout': 90}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 180}
RULE = ('Each run makes one or two catalogs (files or arrays, any columns and reading options, '
        'patches by number, centres or k-means, some empty) that keep their patches in a '
        'directory, and plays a history of processes on it: each process opens them and makes, '
        'writes, reads or uses the patches, with and without low_mem; some are killed at an '
        'arbitrary file operation, meet disk errors or a full disk; between them files may be lost '
        'or cut short; some jobs are several ranks sharing the directory, their file operations '
        'and messages interleaved by the scheduler, some of them killed.  Every value any process '
        'gets and every patch file left is compared with the catalog in memory.  Non-trivial: a '
        'process uses files left by another, or a fault, kill or rank interleaving occurred.')
STATES = 'distinct histories: hash of (reading options, processes, uses, faults hit, kills, schedule)'
REAL = ['treecorr Python package', 'TreeCorr C++ extension',
        'numpy, fitsio/cfitsio, h5py/libhdf5']
STUB = ['file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'mpi4py communicator (simulated ranks)', 'OpenMP: one thread']
ASSUMPTIONS = ['the processes that use a directory have the same data and patches, as documented']
REJ = L.REJ


def setup():
    system.start()
    import fitsio, h5py, pandas  # noqa: F401,E401


# ---------------------------------------------------------------------------------- generation
def gen_op(r, f, two):
    w = [('patches', 4), ('write', 2), ('read', 2), ('process', 4), ('unload', 1), ('snap', 1),
         ('again', 1.5)]
    x = r.random() * sum(b for _, b in w)
    for a, b in w:
        x -= b
        if x <= 0:
            break
    op = {'op': a}
    if a in ('patches', 'process'):
        op['low'] = r.choice([0, 1, 1])
    if a in ('write', 'read'):
        op['where'] = r.choice([0, 0, 0, 1])
    if a == 'process':
        q = L.gen_op_process(r, f, two)
        op.update(q)
    return op


def gen_fault(r):
    act = r.choice(['crash', 'crash', 'crash', 'eio', 'enospc', 'full', 'eacces', 'emfile'])
    flt = {'act': act, 'at': r.randrange(1 << 12), 'arg': r.choice([0, 0, 300, 999, 1000])}
    if r.random() < 0.4:
        flt['kind'] = r.choice(['write', 'close', 'open', 'rename', 'read'])
    return flt


def generate(r, i, tier):
    two = r.random() < 0.3
    f = L.gen_file(r, two)
    f.pop('single', None)
    if not f.get('patch') and r.random() < 0.8:
        f['patch'] = r.choice(['col', 'centers'])
        f['cat'].update(npatch=r.choice([1, 2, 3, 4]), patch_how=r.choice(['stripes', 'random']))
    if f.get('patch') and r.random() < 0.15:
        f['cat']['patch_gap'] = r.randrange(f['cat']['npatch'])
    c = {'file': f, 'memory': int(r.random() < 0.35)}
    if two:
        g = with_(f, cat=with_(f['cat'], seed=r.randrange(1 << 30)))
        if f.get('patch') == 'centers':
            g['cen'] = dict(f)
        c['file2'] = g
    if r.random() < 0.4:
        c['name'] = r.choice(['a.b%d', 'x.%d', '%d.cat', 'a b%d', 'cat_00%d'])
    if two and not c['memory'] and r.random() < 0.6:
        c['share'] = 1
    procs = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        if r.random() < 0.25:
            n = r.choice([2, 2, 3])
            p = {'ranks': n, 'sched': mpi.random_schedule(r, n)}
            if r.random() < 0.5:
                p['ops'] = [gen_op(r, f, two) for _ in range(r.choice([1, 2]))]
                for op in p['ops']:
                    if op['op'] == 'process':
                        op['comm'] = 1
            else:
                p['each'] = [[gen_op(r, f, two) for _ in range(r.choice([1, 2]))]
                             for _ in range(n)]
            if r.random() < 0.3:
                p['kill_at'] = r.choice([r.randint(2, 20), r.randint(2, 200)])
            procs.append(p)
        else:
            p = {'ops': [gen_op(r, f, two) for _ in range(r.choice([1, 1, 2, 3]))]}
            if r.random() < 0.6:
                p['fault'] = gen_fault(r)
            if r.random() < 0.2:
                p['rnd'] = [r.randrange(1 << 30), r.choice([300, 900]), r.choice([0, 200])]
            procs.append(p)
        if r.random() < 0.15:
            procs.append({'damage': r.choice(['lose', 'cut', 'cut', 'empty']),
                          'which': r.randrange(8), 'at': r.randrange(1 << 16)})
    c['procs'] = procs
    c['last'] = [{'op': 'patches', 'low': r.choice([0, 1, 1])}]
    if r.random() < 0.5:
        c['last'].append(with_(L.gen_op_process(r, f, two), op='process', low=r.choice([0, 1])))
    return c


# ---------------------------------------------------------------------------------- playing
def patches_of(c, ps, single=False):
    out = L.patch_list(ps)
    for s in out:
        if single:
            s.pop('patch', None)
    return out


def name_of(c, i):
    return c.get('name', 'cat%d') % i + K.suffix(c['files'][i])


def where(c, n):
    if c.get('share'):
        return 'sp'         # one directory for both catalogs
    return 'sp%d' % [name_of(c, i) for i in range(len(c['files']))].index(n)


def open_all(c, names):
    out = []
    for f, n in zip(c['files'], names):
        d = dict(save_patch_dir=where(c, n))
        out.append(K.twin(f, **d) if c.get('memory') else K.open_cat(f, n, **d))
    return out


def session(c, names, ops, comm=None):
    """What one process does: a list of ('ok', value) or ('exc', type, message)."""
    with K.pandas_off(c['file'].get('nopandas')):
        cats = open_all(c, names)
        out = []
        for op in ops:
            try:
                out.append(('ok', use(c, cats, names, op, comm)))
            except Exception as e:
                out.append(('exc', type(e).__name__, str(e)[:300], isinstance(e, OSError)))
        return out


def use(c, cats, names, op, comm):
    a = op['op']
    cat = cats[0]
    if a == 'patches':
        return patches_of(c, cat.get_patches(low_mem=bool(op['low'])), cat.npatch == 1)
    if a == 'again':        # a second catalog of the same, in the same process
        cats[:] = open_all(c, names)
        return None
    if a == 'write':
        cat.write_patches(*(['other'] if op['where'] else []))
        return None
    if a == 'read':
        cat.read_patches(*(['other'] if op['where'] else []))
        return patches_of(c, cat.patches, cat.npatch == 1)
    if a == 'unload':
        cat.unload()
        return None
    if a == 'snap':
        return K.snap_cat(cat)
    corr = G.make_corr2(op['type'], op['kw'], rng=np.random.RandomState(7))
    args = [cat]
    if op['cross'] == 1:
        args.append(cats[1])
    elif op['cross'] == 2:
        args.append(cat)
    kw = {}
    if comm is not None and op.get('comm'):
        kw['comm'] = comm
    corr.process(*args, low_mem=bool(op['low']), **kw)
    if kw and comm.rank != 0:
        return 'other rank'
    return L.corr_obs(corr)


def expected(c, twins, op):
    a = op['op']
    if a in ('patches', 'read'):
        return patches_of(c, twins[0].get_patches(), twins[0].npatch == 1)
    if a == 'snap':
        return K.snap_cat(twins[0])
    if a == 'process':
        return use(c, twins, None, with_(op, low=0, comm=DROP), None)
    return None


def file_contents(name):
    import fitsio
    import h5py
    if name.endswith('.fits') or name.endswith('.fit'):
        d = fitsio.read(name)
        return {k: np.array(d[k]) for k in d.dtype.names}
    with h5py.File(name, 'r') as h:
        return {k: np.array(h[k]) for k in h}


def check_files(c, twins, paths):
    """Every patch file that is there holds its patch, and all of it."""
    for t, ps in zip(twins, paths):
        byno = {}
        for p in t.get_patches():
            byno[p.patch if np.ndim(p.patch) == 0 and p.patch is not None else 0] = p
        for i, name in enumerate(ps):
            if not os.path.exists(name):
                continue
            try:
                d = file_contents(name)
            except Exception as e:
                return ['torn-file', 'the patch file %s is there but not readable: %r' % (name, e)]
            if i not in byno:
                return ['wrong-file', 'there is a file %s although patch %d is empty' % (name, i)]
            p = byno[i]
            for k in d:
                want = getattr(p, k)
                if k == 'patch':
                    continue
                if want is None or want.shape != d[k].shape or not np.array_equal(want, d[k]):
                    return ['wrong-file', 'the file %s of patch %d has another column %s' % (
                        name, i, k)]
    return None


def run(c):
    with K.pandas_off(c['file'].get('nopandas')):
        return play(c)


def play(c):
    stats, states = {}, []
    c = with_(c, files=[c['file']] + ([c['file2']] if 'file2' in c else []))
    names = [name_of(c, i) for i in range(len(c['files']))]
    twins, nfile = [], []
    try:
        for x, n in zip(c['files'], names):
            t = K.twin(x)
            t.patches
            if K.snap_cat(t)['ntot'] < 1:
                raise ValueError('empty')
            twins.append(t)
    except REJ as e:
        return {'viol': None, 'stats': {'rejected': 1}, 'states': [], 'trivial': True,
                'digest': G.digest('rejected', str(e))}
    for x, n in zip(c['files'], names):
        K.write(x, n)
    root = os.path.abspath('.')
    paths, others = [], []
    for t, x, n in zip(twins, c['files'], names):
        p = K.twin(x, save_patch_dir='sp') if c.get('memory') else None
        if p is None:
            p = K.open_cat(x, n)
        try:
            paths.append(p.get_patch_file_names(where(c, n)))
            others.append(p.get_patch_file_names('other'))
        except Exception as e:
            raise AssertionError('cannot name the files: %r' % e)
    full = [{p.patch for p in t.get_patches() if p.ntot and np.any(p.w)} if t.npatch > 1 else {0}
            for t in twins]
    case = {k: v for k, v in c.items() if k != 'files'}
    case['procs'] = [dict(p) for p in c['procs']]
    wants = {}

    def want(op):
        key = repr(sorted((k, v) for k, v in op.items() if k not in ('low', 'comm', 'where')))
        if key not in wants:
            try:
                wants[key] = ('ok', expected(c, twins, op))
            except REJ as e:
                wants[key] = ('exc', e)
        return wants[key]

    def complete(where):
        ps = (others if where else paths)[0]
        return all(os.path.isfile(p) for p in ps)

    def judge(k, ops, res, hits, damaged, was, what=''):
        """Compare what a process got with what it must get."""
        done_write = [False, False]
        for j, (op, got) in enumerate(zip(ops, res)):
            stats['op_' + op['op']] = stats.get('op_' + op['op'], 0) + 1
            w = want(op)
            label = 'process %s%s, use %d (%s)' % (k, what, j, L.brief(op))
            if got[0] == 'exc':
                if hits or damaged or w[0] == 'exc':
                    stats['uses_failed'] = stats.get('uses_failed', 0) + 1
                    continue
                if op['op'] == 'read' and got[3] and not was[op['where']] and not (
                        done_write[op['where']] and len(full[0]) == twins[0].npatch):
                    stats['reads_refused'] = stats.get('reads_refused', 0) + 1
                    continue
                return ['fails-%s:%s' % (op['op'], got[1]), '%s fails: %s: %s' % (
                    label, got[1], got[2])]
            if op['op'] == 'write':
                done_write[op['where']] = True
            if w[0] == 'exc':
                return ['succeeds-%s' % op['op'], '%s succeeds, but in memory: %r' % (label, w[1])]
            if isinstance(got[1], str):
                continue
            d = L.diff_obs(got[1], w[1], 0., op)
            if d:
                return ['value-%s' % op['op'], '%s%s: %s' % (
                    label, ', with faults %s' % hits if hits else '', d)]
        return None

    viol = None
    damaged = 0
    trace = []
    nontriv = 0
    dirs = ['sp', 'sp0', 'sp1', 'other']
    # A file in the way of another use of the directory is nothing this is about.
    for k, p in enumerate(c['procs']):
        was = [complete(0), complete(1)]
        if any(os.path.isdir(d) for d in dirs):
            nontriv += 1
        if 'damage' in p:
            have = [n for ps in paths for n in ps if os.path.exists(n)]
            if not have:
                continue
            n = have[p['which'] % len(have)]
            stats['damage_' + p['damage']] = stats.get('damage_' + p['damage'], 0) + 1
            nontriv += 1
            if p['damage'] == 'lose':
                os.remove(n)
            else:
                size = os.path.getsize(n)
                with open(n, 'r+b') as fo:
                    fo.truncate(0 if p['damage'] == 'empty' else p['at'] % max(size, 1))
                damaged = 1
            trace.append(p['damage'])
            continue
        if 'ranks' in p:
            def program(comm, p=p):
                ops = p['ops'] if 'ops' in p else p['each'][comm.rank]
                return session(c, names, ops, comm)

            def rank_setup(rank, sock):
                lib = simio.lib()
                if rank < 0:
                    lib.simio_enable(0)
                    lib.simio_yield(-1)
                    return
                lib.simio_reset()
                lib.simio_track(root.encode())
                lib.simio_yield(sock.fileno())
                lib.simio_enable(1)

            job, viol = R.run_job(p['ranks'], program, p['sched'], rank_setup=rank_setup,
                                  kill_at=p.get('kill_at'))
            case['procs'][k]['sched'] = mpi.explicit(p['sched'], job.ch.trace)
            for s, v in job.stats.items():
                stats['mpi_' + s] = stats.get('mpi_' + s, 0) + v
            stats['jobs'] = stats.get('jobs', 0) + 1
            nontriv += 1
            killed = job.error is not None and job.error[0] == 'killed'
            trace.append(('ranks', job.hash, killed))
            if viol is None and not killed:
                for r, o in enumerate(job.outcome):
                    if o is None:
                        continue
                    if o[0] != 'ok':
                        viol = ['rank-fails:%s' % o[1], 'process %d, rank %d fails: %s: %s' % (
                            k, r, o[1], o[2])]
                        if damaged:
                            viol = None
                            continue
                        break
                    ops = p['ops'] if 'ops' in p else p['each'][r]
                    viol = judge(k, ops, o[1], [], damaged, was, ' rank %d' % r)
                    if viol:
                        break
            elif viol is not None and damaged:
                viol = None         # (some rank failed where others wait for it)
        else:
            ops = p['ops']
            plan = []
            if p.get('fault'):
                if 'op' in p['fault']:
                    plan = [[p['fault']['op'], p['fault']['act'], p['fault'].get('arg', 0)]]
                else:
                    for d in dirs:
                        if os.path.isdir(d):
                            shutil.copytree(d, 'keep_' + d)
                    dry = simio.process(lambda: session(c, names, ops), root=root)
                    for d in dirs:
                        if os.path.isdir(d):
                            shutil.rmtree(d)
                        if os.path.isdir('keep_' + d):
                            os.rename('keep_' + d, d)
                    plan = [x for x in [simio.resolve(p['fault'], dry.ops)] if x]
                if plan:
                    case['procs'][k]['fault'] = {'act': plan[0][1], 'op': plan[0][0],
                                                 'arg': plan[0][2]}
            out = simio.process(lambda: session(c, names, ops), plan, p.get('rnd'), root=root)
            simio.count_faults(out.ops, stats)
            hits = [(o.kind, o.act) for o in out.ops if o.act not in (None, 'short', 'eintr')]
            stats['processes'] = stats.get('processes', 0) + 1
            if out.status == 'killed':
                stats['fault_crash'] = stats.get('fault_crash', 0) + 1
            if hits or out.status == 'killed':
                nontriv += 1
            trace.append((out.status, repr(plan), hits, [(op['op'], op.get('low')) for op in ops],
                          [x[0] for x in out.value] if out.value else None))
            if out.status == 'ok':
                viol = judge(k, ops, out.value, hits, damaged, was)
            elif out.status == 'exc':
                if not hits and not damaged:
                    viol = ['process-fails', 'process %d fails: %s\n%s' % (k, out.error, out.tb)]
            elif out.status == 'died':
                viol = ['died', 'process %d: %s' % (k, out.error)]
        if viol is None and not damaged:
            viol = check_files(c, twins, paths) or check_files(c, twins[:1], others[:1])
        if viol:
            break
    if viol is None:
        # No more faults.  Damaged files are made anew first.
        ops = ([{'op': 'write', 'where': 0}, {'op': 'again'}] if damaged else []) + c['last']
        if damaged and len(paths) > 1:
            for n in paths[1]:
                if os.path.exists(n):
                    os.remove(n)
        out = simio.process(lambda: session(c, names, ops), root=root)
        if out.status == 'ok':
            viol = judge('last', ops, out.value, [], 0, [complete(0), complete(1)])
        else:
            viol = ['last-fails', 'the last process fails: %r\n%s' % (out, out.tb)]
        if viol is None:
            viol = check_files(c, twins, paths)
    f = c['file']
    sig = (sorted((k, str(v)) for k, v in f.items() if k != 'cat'), trace)
    sig = re.sub('[0-9a-f]{32}', '*', repr(sig))
    states.append(hashlib.sha256(sig.encode()).hexdigest()[:16])
    stats['fmt_' + ('memory' if c.get('memory') else f['fmt'])] = 1
    stats['patch_%s' % f.get('patch')] = 1
    res = {'viol': viol, 'stats': stats, 'states': states, 'trivial': not nontriv,
           'digest': G.digest(sig, repr(viol))}
    if viol:
        res['case'] = case
        res['ident'] = '%s %s %s' % (viol[0], f.get('patch'), f['fmt'])
    return res


def shrinks(c):
    for ps in G.chunks_removed(c['procs']):
        yield with_(c, procs=ps)
    for ops in G.chunks_removed(c['last'], 1):
        yield with_(c, last=ops)
    for k, p in enumerate(c['procs']):
        def put(q):
            return with_(c, procs=c['procs'][:k] + [q] + c['procs'][k + 1:])
        for x in ('fault', 'rnd', 'kill_at'):
            if x in p:
                yield put(with_(p, **{x: DROP}))
        if 'ops' in p:
            for ops in G.chunks_removed(p['ops'], 1):
                yield put(with_(p, ops=ops))
        if 'each' in p:
            for r, ops in enumerate(p['each']):
                for o in G.chunks_removed(ops):
                    yield put(with_(p, each=p['each'][:r] + [o] + p['each'][r + 1:]))
        if 'sched' in p:
            for s in mpi.shrink_schedule(p['sched']):
                yield put(with_(p, sched=s))
    allops = [op for p in c['procs'] for o in ([p.get('ops', [])] + p.get('each', [])) for op in o]
    allops += c['last']
    if 'file2' in c and not any(op.get('cross') == 1 for op in allops):
        yield with_(c, file2=DROP, share=DROP)
    if 'name' in c:
        yield with_(c, name=DROP)
    if c.get('share'):
        yield with_(c, share=DROP)
    for f in K.shrink_file(c['file']):
        if c['file'].get('nopandas') and not f.get('nopandas'):
            continue
        if any(x not in 'N' + f['fields'] for op in allops for x in op.get('type', '')):
            continue
        d = with_(c, file=f)
        if 'file2' in c:
            g = with_(f, cat=with_(f['cat'], seed=c['file2']['cat']['seed']))
            if f.get('patch') == 'centers':
                g['cen'] = dict(f)
            d['file2'] = g
        yield d
