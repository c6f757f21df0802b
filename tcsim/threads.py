"""Shared by C01 and C02: the same computation with a team of one and under a thread schedule."""
from . import gen, system
from .gen import with_, DROP

REJECT = (ValueError, TypeError, RuntimeError, AttributeError, NotImplementedError)


def build_cats(c, which, letter):
    specs = c[which]
    if c.get('npatch'):
        specs = [with_(s, npatch=c['npatch'], patch_how='stripes') for s in specs]
    return [gen.make_cat(s, letter) for s in specs]


def one_or_list(cats):
    return None if cats is None else cats[0] if len(cats) == 1 else cats


def compute2(c, nt):
    t = c['type']
    cats1 = build_cats(c, 'cat1', t[0])
    cats2 = build_cats(c, 'cat2', t[1]) if 'cat2' in c else None
    more = {'output_dots': True} if c.get('dots') else {}
    corr = gen.make_corr2(t, c['kw'], num_threads=nt, **more)
    if c.get('direct') and not c.get('npatch'):
        if cats2 is None:
            corr.process_auto(cats1[0])
        else:
            corr.process_cross(cats1[0], cats2[0])
    else:
        for _ in range(2 if c.get('twice') else 1):
            corr.process(one_or_list(cats1), one_or_list(cats2))
    return gen.raw_snapshot(corr)


def compute3(c, nt):
    t = c['type']
    cats = [build_cats(c, k, t[0]) if k in c else None for k in ('cat1', 'cat2', 'cat3')]
    more = {'output_dots': True} if c.get('dots') else {}
    corr = gen.make_corr2(t, c['kw'], num_threads=nt, **more)
    if c.get('direct') and not c.get('npatch'):
        a = [x[0] for x in cats if x is not None]
        if len(a) == 1:
            corr.process_auto(a[0])
        elif len(a) == 2:
            corr.process_cross12(a[0], a[1], ordered=c['ordered'])
        else:
            corr.process_cross(*a, ordered=c['ordered'])
        # the multipole sums are only made public by finalizing
        if hasattr(corr, 'finalize'):
            n = {'N': 0, 'K': 1, 'G': 1}[t[0]] * 3
            corr.finalize(*([0.1] * n)) if n else corr.finalize()
    else:
        p = {}
        if len([x for x in cats if x]) > 1:
            p['ordered'] = c['ordered']
        if c.get('algo'):
            p['algo'] = c['algo']
        for _ in range(2 if c.get('twice') else 1):
            corr.process(*[one_or_list(x) for x in cats], **p)
    return gen.raw_snapshot(corr)


def attempt(f, *a):
    try:
        return f(*a), None
    except REJECT as e:
        return None, '%s: %s' % (type(e).__name__, str(e)[:200])


def wfloor(c):
    """A bound on the rounding of cancelled sums of weights."""
    keys = [k for k in ('cat1', 'cat2', 'cat3') if k in c]
    ws = [sum(float(gen.points(s).get('w', 0. * gen.points(s)['k'] + 1.).sum()) for s in c[k])
          for k in keys]
    order = 2 if len(c['type']) == 2 else 3
    ws = (ws + [ws[-1]] * order)[:order]
    p = 1e-12
    for w in ws:
        p *= w
    return p


def compare_run(c, compute, count):
    system.omp.serial()
    ref, err = attempt(compute, c, c['ref_nt'])
    with system.schedule(c['sched']):
        got, err2 = attempt(compute, c, c['nt'])
    st = system.sched_result
    stats = system.sched_stats()
    stats['schedules_' + c['sched']['mode']] = 1
    case = c
    if c['sched']['mode'] != 'explicit' and len(st['trace']) < 200000:
        case = with_(c, sched=system.omp.to_explicit(c['sched'], st['trace']))
    viol = None
    if (err is None) != (err2 is None):
        viol = ['error-depends-on-threads', 'one thread: %s; %d threads: %s'
                % (err or 'success', c['nt'], err2 or 'success')]
    elif err is None:
        d = gen.diff_snap(got, ref, wfloor=wfloor(c))
        if d:
            viol = ['result-depends-on-threads', '%s with %d threads differs from one thread: %s'
                    % (c['type'], c['nt'], d)]
    n = float(got[count].sum()) if got is not None else 0.
    stats['rejected_configs'] = int(err is not None)
    stats['counted'] = int(min(n, 1e12))
    res = {'viol': viol, 'stats': stats,
           'trivial': not (st['multi_regions'] and st['switches'] and n > 0),
           'states': ['%x' % st['hash']] if st['multi_regions'] else [],
           'digest': gen.digest(got if got is not None else err2, st['hash'], st['steps'])}
    if viol:
        res['case'] = case
    elif err:
        res['rejected'] = err
    return res


def shrink_cats(c, keys):
    for k in keys:
        if k in c:
            for j, s in enumerate(c[k]):
                if len(c[k]) > 1:
                    yield with_(c, **{k: c[k][:j] + c[k][j + 1:]})
                for t in gen.shrink_cat(s):
                    yield with_(c, **{k: c[k][:j] + [t] + c[k][j + 1:]})
    for nt in gen.shrink_int(c['nt'], 2):
        yield with_(c, nt=nt)
    for k in ('nbins', 'nubins', 'nvbins', 'nphi_bins', 'max_n'):
        if c['kw'].get(k, 1) > 1:
            yield with_(c, kw=with_(c['kw'], **{k: 1}))
    for k in ('split_method', 'brute', 'min_rpar', 'max_rpar', 'angle_slop') + (
            ('min_top', 'max_top') if c['nt'] <= 8 else ()):
        if k in c['kw']:
            yield with_(c, kw=with_(c['kw'], **{k: DROP}))
    for s in system.shrink_schedule(c['sched']):
        yield with_(c, sched=s)
