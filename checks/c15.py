"""C15: the command-line tools report faults and produce what the library does."""
import hashlib
import json
import logging
import os
import re
import shutil
import sys

import numpy as np

from tcsim import build, cats as K, gen as G, outputs as O, ranks as R, simio, system
from tcsim.gen import with_, DROP

PROPERTY = 'C15'
USES_SIMIO = True
HASHSEED = '0'      # extensions are read in the order of a set of their names
QUICK = {'runs': 4000, 'wall': 45, 'timeout': 90}
THOROUGH = {'runs': 10 ** 7, 'wall': 1800, 'timeout': 180}
RULE = ('Each run writes input catalogs (data, a second field, randoms, one or more files each, any '
        'columns, reading options and patches), makes a configuration with one or several outputs '
        'of any kind and format, and runs corr2 or corr3 on it, as a function or as the script with '
        'a params, YAML or JSON file and variables on the command line, one to three times over '
        'whatever the last one left: killed at an arbitrary file operation, with failing reads, '
        'writes, opens, renames, a full disk, short and interrupted transfers, or undisturbed. '
        'Whenever it ends successfully, and after a last undisturbed run, every output is compared '
        'with what the library computes from the same data in memory.  Non-trivial: at least one '
        'fault or kill.')
STATES = 'distinct histories: hash of (configuration, faults hit, outcomes)'
REAL = ['treecorr Python package', 'scripts/corr2, scripts/corr3', 'TreeCorr C++ extension',
        'numpy, pandas, PyYAML, fitsio/cfitsio, h5py/libhdf5']
STUB = ['file system calls below the scratch directory (LD_PRELOAD shim, faults injected)',
        'OpenMP: one thread']
ASSUMPTIONS = ['a failing close loses part of the data just written']
REJ = R.REJECT + (AssertionError,)
LETTERS = 'NKZVGTQ'


def setup():
    system.start()
    import fitsio, h5py, pandas, yaml  # noqa: F401,E401


# ---------------------------------------------------------------------------------- generation
def out_name(r, key):
    return 'res/%s%s.%s' % (r.choice(['', '', 'sub/']), key, r.choice(['out', 'out', 'dat', 'fits',
                                                                       'hdf5']))


def generate(r, i, tier):
    three = r.random() < 0.25
    f = K.file_spec(r, nmax=(12 if three else r.choice([12, 40])),
                    fields=r.choice([None, None, 'K', 'KG', 'G', '']), rows=r.random() < 0.2)
    for k in ('single', 'num', 'kz'):
        f.pop(k, None)
    if f.get('patch') == 'kmeans':
        f['patch'] = 'centers'
    if f['fmt'] == 'ascii':
        f['nopandas'] = 1
        if f['sep'] == '\t':
            f['sep'] = ' '
    if f['cat']['coords'] in ('flat', '3d'):
        f.pop('units', None)
    two = not three and r.random() < 0.6
    c = {'file': f, 'tool': 'corr3' if three else 'corr2'}
    n = {'1': r.choice([1, 1, 1, 2])}
    if two:
        n['2'] = r.choice([1, 1, 2])
    if r.random() < 0.6:
        n['r1'] = r.choice([1, 1, 2])
        if two and r.random() < 0.9:
            n['r2'] = 1
    c['n'] = n
    co, box = f['cat']['coords'], f['cat']['box']
    fl = 'N' + f['fields']
    opts = {}
    if three:
        kw = G.corr3_config(r, co, box, small=True)
        kinds = [t for t in ('NNN', 'KKK', 'GGG') if t[0] in fl]
        outs = [t.lower() for t in kinds if r.random() < 0.6] or [r.choice(kinds).lower()]
        if 'G' in fl and r.random() < 0.2:
            outs.append('m3')
        opts['nnn_statistic'] = r.choice(['compensated', 'simple'])
    else:
        kw = G.corr2_config(r, co, box, auto=True, exact=True)
        kinds = [t for t in G.TYPES2 if t[0] in fl and t[1] in fl and (two or t[0] == t[1])]
        p = r.choice([0.1, 0.3, 0.8])
        outs = [t.lower() for t in kinds if r.random() < p] or [r.choice(kinds).lower()]
        if 'G' in fl:
            if r.random() < 0.15:
                outs.append('m2')
            if two and r.random() < 0.15:
                outs.append('nm')
            if two and 'r1' in n and r.random() < 0.15:
                outs.append('norm')
        for t in outs:
            if t[0] == 'n' and len(t) == 2 and t != 'nm' and r.random() < 0.4:
                opts[t + '_statistic'] = r.choice(['compensated', 'simple'])
    if f.get('patch') and r.random() < 0.4:
        kw['var_method'] = r.choice(['jackknife', 'sample'])
    if r.random() < 0.3:
        opts['precision'] = r.choice([3, 8, 16])
    if f.get('patch') and r.random() < 0.3:
        opts['save_patch_dir'] = 'sp'
    if r.random() < 0.3:
        opts['log_file'] = 'res/log.txt'
    if r.random() < 0.6:
        opts['verbose'] = r.choice([0, 1, 2, 3])
    if r.random() < 0.3:
        c['lists'] = 1          # file_list instead of file_name
    c['kw'], c['opts'] = kw, opts
    c['outs'] = {t: out_name(r, t) for t in outs}
    c['how'] = r.choice(['dict', 'params', 'yaml', 'json'])
    if c['how'] != 'dict' and r.random() < 0.3:
        c['vars'] = r.choice(outs)
    c['prior'] = int(r.random() < 0.3)
    runs = []
    for _ in range(r.choice([1, 1, 1, 2])):
        p = {}
        if r.random() < 0.9:
            act = r.choice(['crash', 'crash', 'eio', 'eio', 'enospc', 'full', 'eacces', 'emfile'])
            p['fault'] = {'act': act, 'at': r.randrange(1 << 14),
                          'arg': r.choice([0, 0, 300, 999, 1000])}
            if r.random() < 0.5:
                p['fault']['kind'] = r.choice(['write', 'close', 'open', 'rename', 'read', 'read'])
        if r.random() < 0.2 or not p:
            p['rnd'] = [r.randrange(1 << 30), r.choice([0, 300, 900]), r.choice([0, 200])]
        runs.append(p)
    c['runs'] = runs
    return c


def specs(c):
    """The input files: {'1': [(spec, name)], ...}."""
    out = {}
    f = c['file']
    k = 0
    for who in ('1', '2', 'r1', 'r2'):
        out[who] = []
        for j in range(c['n'].get(who, 0)):
            g = f if k == 0 else with_(f, cat=with_(f['cat'], seed=f['cat']['seed'] + 17 * k))
            if k and f.get('patch') == 'centers':
                g['cen'] = dict(f)
            out[who].append((g, 'in%s_%d%s' % (who, j, K.suffix(f)), who[0] == 'r'))
            k += 1
    return out


def config(c, sp):
    f = c['file']
    conf = K.file_kwargs(f)
    if 'k_eval' in conf:
        conf['k_eval'] = 'ka+kb'
    if 'patch_centers' in conf:
        conf['patch_centers'] = 'centers.fits'
    if c['tool'] == 'corr2':
        names = {'1': ('file_name', 'file_list'), '2': ('file_name2', 'file_list2'),
                 'r1': ('rand_file_name', 'rand_file_list'),
                 'r2': ('rand_file_name2', 'rand_file_list2')}
    else:
        names = {'1': ('file_name', 'file_list'), 'r1': ('rand_file_name', 'rand_file_list')}
    for who, (a, b) in names.items():
        l = [n for _, n, _ in sp[who]]
        if not l:
            continue
        if c.get('lists'):
            conf[b] = 'list%s.txt' % who
        else:
            conf[a] = l if len(l) > 1 else l[0]
    conf.update(c['kw'])
    conf.update(c['opts'])
    for t, n in c['outs'].items():
        conf[t + '_file_name'] = n
    return conf


def write_inputs(c, sp):
    import fitsio
    for l in sp.values():
        for g, n, rand in l:
            K.write(g, n)
    if c.get('lists'):
        for who, l in sp.items():
            with open('list%s.txt' % who, 'w') as fo:
                fo.write(''.join(n + '\n' for _, n, _ in l))
    if c['file'].get('patch') == 'centers':
        x = K.centers(c['file'])
        fitsio.write('centers.fits', list(x.T), names=list('xyz')[:x.shape[1]], clobber=True)
    conf = config(c, sp)
    v = {}
    if c.get('vars') in c['outs']:
        k = c['vars'] + '_file_name'
        v[k] = conf.pop(k)
    how = c['how']
    if how == 'params':
        with open('conf.params', 'w') as fo:
            fo.write('# a configuration\n\n')
            for k, x in conf.items():
                if isinstance(x, list):
                    x = ('[ %s ]' if len(k) % 2 else '%s') % (', ' if len(k) % 2 else ' ').join(
                        map(str, x))
                fo.write('%s = %s%s\n' % (k, x, '   # this' if len(k) % 3 == 0 else ''))
    elif how == 'yaml':
        import yaml
        with open('conf.yaml', 'w') as fo:
            yaml.safe_dump(conf, fo)
    elif how == 'json':
        with open('conf.json', 'w') as fo:
            json.dump(conf, fo)
    return conf, v


# ---------------------------------------------------------------------------------- the tool
def tool_run(c, conf, v):
    """Runs in a process of its own."""
    import treecorr
    logging.disable(logging.NOTSET)
    fd = os.open('/dev/null', os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    with K.pandas_off(c['file'].get('nopandas')):
        if c['how'] == 'dict':
            getattr(treecorr, c['tool'])(dict(conf, **v))
            return None
        import runpy
        sys.argv = [c['tool'], 'conf.' + c['how']] + ['%s=%s' % x for x in v.items()]
        try:
            runpy.run_path(os.path.join(build.REPO, 'scripts', c['tool']), run_name='__main__')
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError('exit status %r' % (e.code,))
    return None


# ---------------------------------------------------------------------------------- the library
def reference(c, sp):
    """Write every output into ref/, by the library, from catalogs in memory.  Returns whether
    a catalog cannot be made (the tool need not notice, if nothing needs it)."""
    import treecorr
    cats, bad = {}, {}
    for who, l in sp.items():
        x = []
        try:
            for g, n, rand in l:
                x += K.twin(g, rand=rand).get_patches()
        except REJ as e:
            bad[who] = e
        cats[who] = who if who in bad else (x or None)
    kw = dict(c['kw'])
    prec = c['opts'].get('precision')
    if prec:
        kw['precision'] = prec

    def corr(t, *a, **more):
        x = getattr(treecorr, t.upper() + 'Correlation')(rng=np.random.RandomState(1), **kw)
        for y in a:
            if isinstance(y, str):
                raise bad[y]
        x.process(*[y for y in a if y is not None], **more)
        return x

    one, two, r1, r2 = (cats[k] for k in ('1', '2', 'r1', 'r2'))
    stat = lambda k, d: c['opts'].get(k + '_statistic', d)
    for t, name in c['outs'].items():
        name = os.path.join('ref', name)
        pk = {'precision': prec} if prec else {}
        if c['tool'] == 'corr3':
            if t == 'm3':
                corr('ggg', one).writeMap3(name, **pk)
            elif t == 'nnn':
                ddd = corr('nnn', one)
                if r1 is None:
                    ddd.write(name)
                elif stat('nnn', 'compensated') == 'compensated':
                    ddd.write(name, rrr=corr('nnn', r1), drr=corr('nnn', one, r1, ordered=False),
                              rdd=corr('nnn', r1, one, ordered=False))
                else:
                    ddd.write(name, rrr=corr('nnn', r1))
            else:
                corr(t, one).write(name)
            continue
        if t == 'nn':
            dd = corr('nn', one, two)
            comp = stat('nn', 'compensated') == 'compensated'
            if r1 is None:
                dd.write(name)
            elif two is None:
                dd.write(name, rr=corr('nn', r1), dr=corr('nn', one, r1) if comp else None)
            elif r2 is None:
                raise ValueError('randoms for the second field needed')
            else:
                dd.write(name, rr=corr('nn', r1, r2), dr=corr('nn', one, r2) if comp else None,
                         rd=corr('nn', r1, two) if comp else None)
        elif t in ('nm', 'norm') or (t[0] == 'n' and t[1] in 'kzvgtq'):
            b = 'ng' if t in ('nm', 'norm') else t
            x = corr(b, one, two)
            s = stat(b, None)
            if s == 'compensated' and r1 is None:
                raise ValueError('randoms needed')
            rx = corr(b, r1, two) if r1 is not None and s != 'simple' else None
            if t == 'nm':
                x.writeNMap(name, rg=rx, **pk)
            elif t == 'norm':
                comp = stat('nn', 'compensated') == 'compensated'
                x.writeNorm(name, gg=corr('gg', two), dd=corr('nn', one), rr=corr('nn', r1),
                            dr=corr('nn', one, r1) if comp else None, rg=rx, **pk)
            else:
                x.write(name, **{'r' + t[1]: rx})
        elif t == 'm2':
            corr('gg', one, two).writeMapSq(name)
        else:
            corr(t, one, two).write(name)
    return bad


def kind(name):
    e = name.rsplit('.', 1)[1]
    return {'fits': 'fits', 'hdf5': 'hdf5'}.get(e, 'dat')


SCREEN = ('verbose', 'output_dots', 'log_file')      # what is only about messages


def plain(x):
    """The contents of an output without the order of the header and what is about messages."""
    if isinstance(x, bytes) and x.startswith(b'## '):
        head, _, rest = x.partition(b'\n')
        try:
            d = eval(head[3:].decode(), {'array': np.array, 'nan': float('nan'),
                                         'inf': float('inf')})
        except Exception:
            return x
        return sorted((k, repr(v)) for k, v in d.items() if k not in SCREEN), rest
    if isinstance(x, list):
        return [(e[0], [h for h in e[1] if not any(h.upper().startswith(repr(k.upper())[:-1],
                                                                        1) for k in SCREEN)],
                 e[2]) for e in x]
    if isinstance(x, dict):
        return {k: dict(e, attrs=[a for a in e['attrs'] if a[0] not in SCREEN])
                for k, e in x.items()}
    return x


def norm(ops):
    return [(o.kind, re.sub('[0-9a-f]{32}', '*', o.path), o.act) for o in ops
            if o.act not in (None, 'short', 'eintr')]


def run(c):
    stats, states = {}, []
    c = dict(c)
    sp = specs(c)
    reject, bad = None, {}
    try:
        with K.pandas_off(c['file'].get('nopandas')):
            bad = reference(c, sp)
    except REJ as e:
        reject = e
    want = {} if reject else {t: plain(O.contents(os.path.join('ref', n), kind(n)))
                              for t, n in c['outs'].items()}
    conf, v = write_inputs(c, sp)
    os.makedirs('res')
    if c.get('prior'):
        for n in c['outs'].values():
            os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, 'w') as fo:
                fo.write('older contents\n' * 300)
    root = os.path.abspath('.')
    case = with_(c, runs=[dict(p) for p in c['runs']])
    viol = None
    trace = []
    nontriv = 0

    def judge(k, out, hits):
        if out.status == 'killed':
            return None
        if out.status == 'died':
            return ['died', 'run %s: %s' % (k, out.error)]
        if out.status == 'exc':
            if hits or reject or bad:
                return None
            return ['fails:%s' % out.error.split(':')[0],
                    'run %s fails without any fault: %s\n%s' % (k, out.error, out.tb)]
        if reject:
            return ['succeeds', 'run %s ends successfully although the library rejects this: %r'
                    % (k, reject)]
        for t, n in c['outs'].items():
            got = plain(O.try_contents(n, kind(n)))
            if got != want[t]:
                from .c08 import describe
                return ['wrong-output:%s' % t, 'run %s ended successfully, but %s is not what the '
                        'library writes (%s); faults: %s' % (k, n, describe(got, want[t]),
                                                             hits or 'none')]
        return None

    def state(prefix, back):
        for d in ('res', 'sp'):
            if back:
                if os.path.isdir(d):
                    shutil.rmtree(d)
                if os.path.isdir(prefix + d):
                    os.rename(prefix + d, d)
            elif os.path.isdir(d):
                shutil.copytree(d, prefix + d)

    for k, p in enumerate(c['runs']):
        plan = []
        if p.get('fault'):
            if 'op' in p['fault']:
                plan = [[p['fault']['op'], p['fault']['act'], p['fault'].get('arg', 0)]]
            else:
                state('keep_', False)
                dry = simio.process(lambda: tool_run(c, conf, v), root=root)
                state('keep_', True)
                plan = [x for x in [simio.resolve(p['fault'], dry.ops)] if x]
            if plan:
                case['runs'][k]['fault'] = {'act': plan[0][1], 'op': plan[0][0], 'arg': plan[0][2]}
        out = simio.process(lambda: tool_run(c, conf, v), plan, p.get('rnd'), root=root)
        simio.count_faults(out.ops, stats)
        hits = norm(out.ops)
        if out.status == 'killed':
            stats['fault_crash'] = stats.get('fault_crash', 0) + 1
        nontriv += bool(hits or out.status == 'killed')
        stats['run_' + out.status] = stats.get('run_' + out.status, 0) + 1
        trace.append((out.status, hits, plan))
        viol = judge(k, out, hits)
        if viol:
            break
    if viol is None:
        out = simio.process(lambda: tool_run(c, conf, v), root=root)
        viol = judge('last', out, [])
        trace.append(out.status)
    stats['tool_%s_%s' % (c['tool'], c['how'])] = 1
    if reject:
        stats['rejected'] = 1
    for t in c['outs']:
        stats['out_' + t] = 1
    sig = repr((sorted((k, str(x)) for k, x in conf.items()), c['n'], trace))
    states.append(hashlib.sha256(sig.encode()).hexdigest()[:16])
    res = {'viol': viol, 'stats': stats, 'states': states, 'trivial': not nontriv or bool(reject),
           'digest': G.digest(sig, repr(viol))}
    if viol:
        res['case'] = case
        res['ident'] = '%s %s' % (viol[0], c['how'])
    return res


def shrinks(c):
    for ps in G.chunks_removed(c['runs']):
        yield with_(c, runs=ps)
    if len(c['outs']) > 1:
        for t in c['outs']:
            yield with_(c, outs={k: v for k, v in c['outs'].items() if k != t},
                        opts={k: v for k, v in c['opts'].items() if k != t + '_statistic'})
    for who in ('r2', 'r1', '2'):
        if who in c['n']:
            yield with_(c, n={k: v for k, v in c['n'].items() if k != who})
    for who, n in c['n'].items():
        if n > 1:
            yield with_(c, n=with_(c['n'], **{who: 1}))
    for k in c['opts']:
        yield with_(c, opts=with_(c['opts'], **{k: DROP}))
    for k in ('lists', 'prior', 'vars'):
        if c.get(k):
            yield with_(c, **{k: DROP})
    if c['how'] != 'dict':
        yield with_(c, how='dict', vars=DROP)
    for k, p in enumerate(c['runs']):
        for x in ('fault', 'rnd'):
            if x in p:
                yield with_(c, runs=c['runs'][:k] + [with_(p, **{x: DROP})] + c['runs'][k + 1:])
    kw = c['kw']
    for k in ('nbins', 'nubins', 'nvbins', 'nphi_bins', 'max_n'):
        if kw.get(k, 1) > 1:
            yield with_(c, kw=with_(kw, **{k: 1}))
    for k in ('split_method', 'brute', 'min_rpar', 'max_rpar', 'angle_slop', 'min_top', 'max_top',
              'var_method'):
        if k in kw:
            yield with_(c, kw=with_(kw, **{k: DROP}))
    need = {x.upper() for t in c['outs'] for x in
            {'m2': 'g', 'm3': 'g', 'nm': 'g', 'norm': 'g'}.get(t, t)}
    for f in K.shrink_file(c['file']):
        if c['file'].get('nopandas') and not f.get('nopandas'):
            continue
        if any(x not in 'N' + f['fields'] for x in need):
            continue
        if not f.get('patch') and ('var_method' in kw or 'save_patch_dir' in c['opts']):
            continue
        yield with_(c, file=f)
