"""Shared by C04-C07: catalogs with patches, processing over ranks, and comparison."""
import os

import numpy as np

from . import gen, mpi, system
from .gen import with_, DROP

REJECT = (ValueError, TypeError, RuntimeError, AttributeError, NotImplementedError, IndexError, KeyError)


def patch_cats(r, coords, ncat, npatch, nmax, box=10.):
    """Specs of ncat catalogs cut into the same npatch patches (some may be absent)."""
    how = r.choice(['stripes', 'stripes', 'random', 'blocks'])
    out = []
    for _ in range(ncat):
        s = gen.cat_spec(r, coords, nmax, nmin=min(nmax, max(npatch, r.choice([1, npatch, 3 * npatch]))),
                         box=box)
        s['npatch'] = npatch
        s['patch_how'] = how
        if r.random() < 0.2 and npatch > 1:
            s['patch_gap'] = r.randrange(npatch)
        if coords == 'sphere' and r.random() < 0.3:
            s['fullsky'] = 1
        out.append(s)
    return out


def write_fits(spec, letter, name):
    import fitsio
    kw = gen.cat_kwargs(spec, letter)
    cols = {k: v for k, v in kw.items() if isinstance(v, np.ndarray)}
    fitsio.write(name, list(cols.values()), names=list(cols), clobber=True)


def file_args(spec, letter):
    kw = gen.cat_kwargs(spec, letter)
    a = {k + '_col': k for k, v in kw.items() if isinstance(v, np.ndarray)}
    for k in ('ra_units', 'dec_units'):
        if k in kw:
            a[k] = kw[k]
    return a


def build_input(spec, letter, how, name):
    """A correlation input made from one catalog spec.

    how: 'memory' (patch numbers per object), 'list' (one catalog per patch), 'plain' (no
    patches), 'file' (read on demand from name, written beforehand)."""
    import treecorr
    if how == 'plain':
        return gen.make_cat({k: v for k, v in spec.items() if k != 'npatch'}, letter)
    n = spec['npatch']
    if how == 'file':
        return treecorr.Catalog(name, **file_args(spec, letter))
    if how == 'list':
        kw = gen.cat_kwargs(spec, letter)
        p = kw.pop('patch')
        out = []
        for i in sorted(set(p)):
            sel = p == i
            if 'w' in kw and not kw['w'][sel].any():
                continue
            out.append(treecorr.Catalog(patch=int(i), npatch=n, **{
                k: v[sel] if isinstance(v, np.ndarray) else v for k, v in kw.items()}))
        return out
    if how == 'pieces':
        kw = gen.cat_kwargs(spec, letter)
        p = kw.pop('patch')
        return [treecorr.Catalog(**{k: v[p == i] if isinstance(v, np.ndarray) else v
                                    for k, v in kw.items()}) for i in sorted(set(p))
                if 'w' not in kw or kw['w'][p == i].any()]
    return gen.make_cat(spec, letter)


def snap_all(corr, skip=('cov',)):
    """Everything a user can see after processing: totals and the per-patch results."""
    out = {'main': gen.snapshot(corr, skip=skip)}
    res = {}
    for key in sorted(corr.results):
        c = corr.results[key]
        res[key] = gen.snapshot(c, skip=skip)
    out['results'] = res
    out['npatch'] = [getattr(corr, a, None) for a in ('npatch1', 'npatch2', 'npatch3')]
    return out


def diff_all(got, want, wf=None, rtol=1e-9, floor=1e-10):
    d = gen.diff_snap(got['main'], want['main'], wfloor=wf, rtol=rtol, floor=floor)
    if d:
        return 'totals', d
    if got['npatch'] != want['npatch']:
        return 'npatch', 'npatch %s, expected %s' % (got['npatch'], want['npatch'])
    a, b = set(got['results']), set(want['results'])
    if a != b:
        return 'keys', 'results: only here %s, only expected %s' % (sorted(a - b), sorted(b - a))
    for k in sorted(b):
        d = gen.diff_snap(got['results'][k], want['results'][k], wfloor=wf, rtol=rtol,
                          floor=floor)
        if d:
            return 'patch-results', 'results[%s] %s' % (k, d)
    return None


def run_job(n, program, sched, **kw):
    """Run and classify; returns (job, viol)."""
    job = mpi.Job(n, program, sched, **kw).run()
    viol = None
    if job.error is not None and job.error[0] != 'killed':
        viol = [job.error[0], job.error[1]]
    return job, viol


def rank_errors(job):
    return [(r, o) for r, o in enumerate(job.outcome) if o is not None and o[0] == 'exc']


def expl(c, job):
    return with_(c, sched=mpi.explicit(c['sched'], job.ch.trace))


def shrink_ranks(c):
    for n in gen.shrink_int(c['nranks'], 2):
        yield with_(c, nranks=n)
    for s in mpi.shrink_schedule(c['sched']):
        yield with_(c, sched=s)


def shrink_patch_cats(c, keys):
    for k in keys:
        if k in c:
            for t in gen.shrink_cat(c[k]):
                yield with_(c, **{k: t})
            if 'patch_gap' in c[k]:
                yield with_(c, **{k: with_(c[k], patch_gap=DROP)})
    np_ = [c[k].get('npatch') for k in keys if k in c and c[k].get('npatch')]
    if np_:
        for n in gen.shrink_int(max(np_), 2):
            yield with_(c, **{k: with_(c[k], npatch=n) for k in keys
                              if k in c and 'npatch' in c[k]})
    for k in ('nbins', 'nubins', 'nvbins', 'nphi_bins', 'max_n'):
        if c['kw'].get(k, 1) > 1:
            yield with_(c, kw=with_(c['kw'], **{k: 1}))
    for k in ('split_method', 'brute', 'min_rpar', 'max_rpar', 'min_top', 'max_top', 'angle_slop'):
        if k in c['kw']:
            yield with_(c, kw=with_(c['kw'], **{k: DROP}))
