"""Runs one check: seeded search over simulated executions, minimisation, replay, evidence."""
import argparse
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time
import collections

from . import build

VERIF = build.VERIF
PY = os.environ.get('TCSIM_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable
OUT = os.environ.get('TCSIM_OUT', os.path.join(VERIF, 'out'))
EVID = os.environ.get('TCSIM_EVIDENCE', os.path.join(VERIF, 'evidence'))
MAXREPLAY = 3


class HarnessFailure(Exception):
    pass


class Worker:
    def __init__(self, modname, scratch, so, shim=None, hashseed='0'):
        rfd, wfd = os.pipe()
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(('OMP_', 'GOMP_', 'LD_PRELOAD')):
                del env[k]
        env.update(PYTHONHASHSEED=hashseed, OPENBLAS_NUM_THREADS='1', TCSIM_EXT=so,
                   PYTHONDONTWRITEBYTECODE='1', OMP_PROC_BIND='false', MKL_NUM_THREADS='1',
                   HDF5_USE_FILE_LOCKING='FALSE', ARROW_DEFAULT_MEMORY_POOL='system',
                   TZ='UTC', LC_ALL='C.UTF-8', HOME=scratch, MPLCONFIGDIR=scratch)
        env.pop('PYTHONPATH', None)
        if shim:
            env['LD_PRELOAD'] = shim
            env['TCSIM_SHIM'] = shim
        os.makedirs(scratch, exist_ok=True)
        self.err = open(os.path.join(scratch, 'worker.err'), 'wb')
        self.p = subprocess.Popen(
            [PY, '-X', 'faulthandler', os.path.join(VERIF, 'tcsim', 'worker.py'), modname,
             str(wfd), scratch],
            stdin=subprocess.PIPE, stdout=self.err, stderr=self.err, pass_fds=[wfd], env=env,
            cwd=scratch)
        os.close(wfd)
        self.rfd = rfd
        self.buf = b''
        self.busy = None
        self.scratch = scratch

    def send(self, msg):
        self.p.stdin.write((json.dumps(msg) + '\n').encode())
        self.p.stdin.flush()
        self.busy = msg

    def pump(self):
        """Read what is available; return a complete message or None; EOFError if it is gone."""
        d = os.read(self.rfd, 1 << 20)
        if not d:
            with open(self.err.name, 'rb') as f:
                raise EOFError(f.read()[-3000:].decode('utf8', 'replace'))
        self.buf += d
        if b'\n' in self.buf:
            line, self.buf = self.buf.split(b'\n', 1)
            self.busy = None
            return json.loads(line)
        return None

    def wait(self, timeout=300):
        end = time.monotonic() + timeout
        while True:
            r, _, _ = select.select([self.rfd], [], [], max(0, end - time.monotonic()))
            if not r:
                raise HarnessFailure('worker does not answer')
            m = self.pump()
            if m is not None:
                return m

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        os.close(self.rfd)
        self.err.close()


class Pool:
    def __init__(self, modname, so, shim, n, base):
        self.args = (modname, so, shim)
        self.base = base
        self.count = 0
        self.ws = [self._new() for _ in range(n)]
        for w in self.ws:
            self._ready(w)

    def _new(self, hashseed='0'):
        self.count += 1
        m, so, shim = self.args
        return Worker(m, os.path.join(self.base, 'w%d' % self.count), so, shim, hashseed)

    def _ready(self, w):
        try:
            m = w.wait()
        except EOFError as e:
            raise HarnessFailure('worker died at start: %s' % e)
        if m['status'] != 'ready':
            raise HarnessFailure(m.get('error', repr(m)))

    def map(self, msgs, on_result, stop=lambda: False):
        """Run an iterator of messages; on_result(msg, result) as they finish."""
        it = iter(msgs)
        done = False
        while True:
            if not done and not stop():
                for w in self.ws:
                    if w.busy is None:
                        try:
                            w.send(next(it))
                        except StopIteration:
                            done = True
                            break
                        if stop():
                            break
            busy = [w for w in self.ws if w.busy is not None]
            if not busy:
                if done or stop():
                    return
                continue
            r, _, _ = select.select([w.rfd for w in busy], [], [], 600)
            if not r:
                raise HarnessFailure('no worker answers')
            for w in busy:
                if w.rfd in r:
                    msg = w.busy
                    try:
                        res = w.pump()
                    except EOFError as e:
                        i = self.ws.index(w)
                        w.close()
                        self.ws[i] = self._new()
                        self._ready(self.ws[i])
                        on_result(msg, {'status': 'lost', 'error': str(e)})
                        continue
                    if res is not None:
                        on_result(msg, res)

    def fresh(self, msg, hashseed='0'):
        """Run one message in a newly started interpreter."""
        w = self._new(hashseed)
        try:
            self._ready(w)
            w.send(msg)
            try:
                return w.wait(msg.get('timeout', 60) + 120)
            except EOFError as e:
                return {'status': 'lost', 'error': str(e)}
        finally:
            w.close()
            shutil.rmtree(w.scratch, ignore_errors=True)

    def close(self):
        for w in self.ws:
            w.close()


def outcome(res):
    """The violation [key, message] shown by the answer to one run, or None."""
    s = res['status']
    if s == 'ok':
        return res['result'].get('viol')
    if s == 'died':
        log = res.get('log', '')
        if 'SIMOMP-DEADLOCK' in log:
            return ['thread-deadlock', log[-1500:]]
        if 'SIMOMP-LIVELOCK' in log:
            return ['thread-livelock', log[-1500:]]
        if 'SIMOMP-' in log and res['rc'] in (90, 91):
            raise HarnessFailure('simulated runtime: ' + log[-2000:])
        if res['rc'] == 77:
            raise HarnessFailure('harness: ' + log[-3000:])
        return ['process-died:%d' % res['rc'], 'the process died with status %d\n%s'
                % (res['rc'], log[-2500:])]
    if s == 'timeout':
        return ['hang', 'the run does not finish\n' + res.get('log', '')[-2500:]]
    if s == 'harness':
        raise HarnessFailure(res['error'])
    if s == 'lost':
        raise HarnessFailure('worker lost: ' + res.get('error', ''))
    raise HarnessFailure(repr(res))


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def is_known(known, prop, key):
    for k in known:
        if k['property'] == prop and k.get('status') == 'open' and k['key'] == key:
            return k
    return None


def minimise(pool, mod, case, key, budget, timeout):
    """Greedy minimisation: accept any smaller case that still shows the same violation."""
    t0 = time.monotonic()
    tried = 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        cands = mod.shrinks(case)
        while time.monotonic() - t0 < budget:
            batch = []
            for c in cands:
                batch.append(c)
                if len(batch) == len(pool.ws):
                    break
            if not batch:
                break
            good = {}

            def got(msg, res):
                if res['status'] in ('harness', 'lost'):
                    return
                try:
                    v = outcome(res)
                except HarnessFailure:
                    return
                if v is not None and v[0] == key:
                    good[msg['id']] = 1
            pool.map([{'op': 'case', 'case': c, 'id': j, 'timeout': timeout}
                      for j, c in enumerate(batch)], got)
            tried += len(batch)
            if good:
                case = batch[min(good)]
                improved = True
                break
    return case, tried, time.monotonic() - t0


def write_replay(prop, key, msg, case, extra):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha256(json.dumps([key, case], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, key=key, message=msg, case=case, **extra), f, indent=1)
        f.write('\n')
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('TCSIM_WORKERS', '8')))
    ap.add_argument('--replay')
    ap.add_argument('--show', type=int, help='print the case and result of one run')
    ap.add_argument('--digests', help='write the digest of every run to this file')
    ap.add_argument('--hashseed', default='0')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-minimise', action='store_true')
    a = ap.parse_args(argv)
    prop = a.property
    modname = 'checks.%s' % prop.lower()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    t0 = time.monotonic()
    try:
        so = build.build_extension()
        shim = build.build_simio() if getattr(mod, 'USES_SIMIO', False) else None
    except build.BuildError as e:
        print('cannot build: %s' % e, file=sys.stderr)
        return 2
    t_build = time.monotonic() - t0
    base = tempfile.mkdtemp(prefix='tcsim-')
    try:
        return _main(a, prop, modname, mod, so, shim, base, t_build)
    except HarnessFailure as e:
        print('HARNESS ERROR: %s' % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(a, prop, modname, mod, so, shim, base, t_build):
    budget = dict(mod.QUICK if a.tier == 'quick' else mod.THOROUGH)
    if a.runs:
        budget['runs'] = a.runs
    if a.wall:
        budget['wall'] = a.wall
    timeout = budget.get('timeout', 60)

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        pool = Pool(modname, so, shim, 0, base)
        res = pool.fresh({'op': 'case', 'case': rp['case'], 'timeout': 3 * timeout})
        v = outcome(res)
        if v is None:
            print('no violation on replay of %s' % a.replay)
            return 0
        print(v[1])
        print('key: %s%s' % (v[0], '' if v[0] == rp['key'] else ' (recorded: %s)' % rp['key']))
        print('VIOLATION property=%s replay=%s' % (prop, a.replay))
        return 1
    if a.show is not None:
        pool = Pool(modname, so, shim, 0, base)
        g = pool.fresh({'op': 'gen', 'seed': a.seed, 'i': a.show, 'tier': a.tier, 'timeout': timeout})
        print(json.dumps(g.get('case', g), indent=1))
        r = pool.fresh({'op': 'run', 'seed': a.seed, 'i': a.show, 'tier': a.tier,
                        'timeout': timeout})
        if 'result' in r:
            r['result'].pop('case', None)
        print(json.dumps(r, indent=1)[:6000])
        return 0

    t1 = time.monotonic()
    pool = Pool(modname, so, shim, a.workers, base)
    known = load_known()
    known_lines = []
    for k in known:
        if k['property'] == prop and k.get('status') == 'open':
            v = outcome(pool.fresh({'op': 'case', 'case': k['case'], 'timeout': timeout}))
            if v is not None and v[0] == k['key']:
                known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    stats = collections.Counter()
    states = set()
    cases_seen = set()
    digests = {}
    samples = []
    found = {}            # key -> (index, msg)
    known_hits = collections.Counter()
    suspects = []         # died / timed out
    evals = [0]
    nontrivial = set()
    harness = []
    end = t1 + budget['wall']
    slow = [0.]

    def stop():
        return bool(harness) or (bool(found) and not a.keep_going) or time.monotonic() > end

    def on_result(msg, res):
        i = msg['i']
        if res['status'] in ('died', 'timeout'):
            if res['status'] == 'died' and ('SIMOMP-' in res.get('log', '')
                                            and res['rc'] in (90, 91) or res['rc'] == 77):
                harness.append('run %d: %s' % (i, res.get('log', '')[-3000:]))
                return
            suspects.append((i, res))
            found.setdefault('?%s' % res['status'], (i, res.get('log', '')))
            return
        if res['status'] != 'ok':
            harness.append('run %d: %s' % (i, res.get('error', repr(res))))
            return
        r = res['result']
        evals[0] += 1
        digests[i] = r.get('digest')
        slow[0] = max(slow[0], r.get('dt', 0))
        for k, n in r.get('stats', {}).items():
            if k.startswith('max_'):
                stats[k] = max(stats[k], n)
            else:
                stats[k] += n
        states.update(r.get('states', []))
        if not r.get('trivial'):
            nontrivial.add(json.dumps(r.get('ident', r['case']), sort_keys=True)[:20000])
        if len(samples) < 3 and not r.get('trivial'):
            samples.append({'run': i, 'case': r['case'], 'stats': r.get('stats', {})})
        v = r.get('viol')
        if v:
            if is_known(known, prop, v[0]):
                known_hits[v[0]] += 1
            elif v[0] not in found or i < found[v[0]][0]:
                found[v[0]] = (i, v[1])

    def msgs():
        for i in range(a.first, a.first + budget['runs']):
            yield {'op': 'run', 'seed': a.seed, 'i': i, 'tier': a.tier, 'timeout': timeout}

    pool.map(msgs(), on_result, stop)
    t_search = time.monotonic() - t1
    if harness:
        raise HarnessFailure(harness[0])

    # Death and hanging are confirmed in fresh processes, with a longer limit.
    unconfirmed = []
    for i, res in suspects:
        key0 = '?%s' % res['status']
        found.pop(key0, None)
    for i, res in sorted(suspects, key=lambda t: t[0])[:4]:
        m = {'op': 'run', 'seed': a.seed, 'i': i, 'tier': a.tier, 'timeout': 3 * timeout}
        v = outcome(pool.fresh(m))
        if v is None or is_known(known, prop, v[0]):
            if v is None:
                unconfirmed.append((i, res['status'], res.get('log', '')[-1500:]))
            else:
                known_hits[v[0]] += 1
            continue
        found.setdefault(v[0], (i, v[1]))

    # Determinism: a sample of runs again, in a fresh interpreter with another hash seed.
    redone, mismatched = 0, []
    if not found:
        for i in sorted(digests)[:budget.get('recheck', 2)]:
            res = pool.fresh({'op': 'run', 'seed': a.seed, 'i': i, 'tier': a.tier,
                              'timeout': 3 * timeout},
                             hashseed=getattr(mod, 'HASHSEED', '4242'))
            if res['status'] == 'ok':
                redone += 1
                if res['result'].get('digest') != digests[i]:
                    mismatched.append(i)

    lines = []
    nviol = 0
    reported = []
    for key, (i, msg) in sorted(found.items(), key=lambda t: t[1][0]):
        if len(reported) >= MAXREPLAY:
            break
        res = pool.fresh({'op': 'run', 'seed': a.seed, 'i': i, 'tier': a.tier,
                          'timeout': 3 * timeout})
        v = outcome(res)
        if v is None:
            unconfirmed.append((i, key, msg[-1500:]))
            continue
        key, msg = v
        if is_known(known, prop, key):
            continue
        # First the case as generated (schedules drawn from their seed), then, once it is small,
        # the resolved one (every choice that was made written out).
        case = pool.fresh({'op': 'gen', 'seed': a.seed, 'i': i, 'tier': a.tier,
                           'timeout': timeout})['case']
        small, tried, tmin = case, 0, 0.
        budget_s = budget.get('minimise', 60 if a.tier == 'quick' else 300)

        def confirm(c):
            rv = outcome(pool.fresh({'op': 'case', 'case': c, 'timeout': 3 * timeout}))
            return rv if rv is not None and rv[0] == key else None
        if not a.no_minimise and not reported:
            small, tried, tmin = minimise(pool, mod, case, key, budget_s / 2., timeout)
            if not confirm(small):
                small = case
            res = pool.fresh({'op': 'case', 'case': small, 'timeout': 3 * timeout})
            if res['status'] == 'ok' and res['result']['case'] != small:
                full = res['result']['case']
                if confirm(full):
                    full2, n2, t2 = minimise(pool, mod, full, key, budget_s / 2., timeout)
                    tried += n2
                    tmin += t2
                    small = full2 if confirm(full2) else full
        rv = confirm(small)
        if rv:
            msg = rv[1]
        path = write_replay(prop, key, msg, small, {
            'seed': a.seed, 'run': i, 'tier': a.tier, 'minimised': not a.no_minimise,
            'candidates_tried': tried,
            'replay_cmd': 'python3 run.py --property %s --replay <this file>' % prop})
        reported.append(key)
        nviol += 1
        lines.append('violation %s (run %d of seed %d; minimised in %d attempts, %.0f s):\n%s\n'
                     'VIOLATION property=%s replay=%s' % (key, i, a.seed, tried, tmin, msg, prop,
                                                          path))
    pool.close()
    wall = time.monotonic() - t1 + t_build
    cov = {
        'evaluations': evals[0],
        'distinct_nontrivial': len(nontrivial),
        'rule': mod.RULE,
        'samples': samples[:2],
        'runs_per_hour': round(evals[0] / max(t_search, 1e-9) * 3600),
        'seeds_per_hour': round(evals[0] / max(t_search, 1e-9) * 3600),
        'search_s': round(t_search, 1),
        'build_s': round(t_build, 1),
        'slowest_run_s': round(slow[0], 2),
        'counters': dict(sorted(stats.items())),
        'simulated_time': mod.SIMTIME % stats if getattr(mod, 'SIMTIME', None) else
            'the code under test reads no clock for this property; simulated steps are in counters',
        'distinct_states': len(states),
        'state_measure': mod.STATES,
        'real_components': mod.REAL,
        'stub_components': mod.STUB,
        'determinism_recheck': {'runs': redone, 'mismatches': mismatched,
                                'how': 'same run in a fresh interpreter with '
                                       + ('the same' if hasattr(mod, 'HASHSEED') else 'another')
                                       + ' PYTHONHASHSEED'},
        'known_finding_hits': dict(known_hits),
        'unconfirmed': [list(u) for u in unconfirmed],
        'workers': a.workers,
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 1), 'violations': nviol}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if a.digests:
        with open(a.digests, 'w') as f:
            json.dump({str(k): v for k, v in sorted(digests.items())}, f, indent=0)
    for l in known_lines:
        print(l)
    print('%s: %d runs (%d distinct non-trivial, %d states) in %.0f s, %d violation(s)%s%s'
          % (prop, evals[0], len(nontrivial), len(states), wall, nviol,
             ', %d known-finding hits' % sum(known_hits.values()) if known_hits else '',
             ', NONDETERMINISM in runs %s' % mismatched if mismatched else ''))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if nviol:
        return 1
    if unconfirmed:
        print('HARNESS ERROR: not reproduced in a fresh process: %s' % unconfirmed[:2],
              file=sys.stderr)
        return 2
    return 0
