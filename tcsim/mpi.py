"""Simulated MPI: cooperating ranks, of which exactly one runs at a time.

Every rank is a forked process (its own memory, as real ranks have), connected to the scheduler in
the parent by one socket.  A rank runs only when the scheduler has granted it, until its next
communication call -- or, with the I/O shim, its next file operation -- where it hands back
control.  The scheduler picks the next action (let a ready rank run, let a message in flight
arrive) with a seeded policy; every choice is recorded and can be replayed literally.

What is modelled: eager or rendezvous sends per message, arbitrary delay of every message with the
order between two ranks kept (MPI's non-overtaking rule), slow and stalled ranks and links,
collectives that release some ranks early, reductions in any order, and the death of the whole job.
MPI guarantees delivery, so messages are not lost or duplicated.
"""
import os
import pickle
import random
import select
import signal
import socket
import struct
import sys
import traceback
import types
import zlib

ANY_SOURCE = -1
ANY_TAG = -1
HDR = struct.Struct('<cq')


class _InPlace:
    def __repr__(self):
        return 'IN_PLACE'


IN_PLACE = _InPlace()
OPS = {'SUM': lambda a, b: a + b, 'PROD': lambda a, b: a * b,
       'MAX': lambda a, b: _np().maximum(a, b), 'MIN': lambda a, b: _np().minimum(a, b),
       'LOR': lambda a, b: a or b, 'LAND': lambda a, b: a and b}


def _np():
    import numpy
    return numpy


class Op:
    def __init__(self, name):
        self.name = name


SUM, PROD, MAX, MIN, LOR, LAND = [Op(n) for n in ('SUM', 'PROD', 'MAX', 'MIN', 'LOR', 'LAND')]


def install_stub(comm=None):
    """A module mpi4py for code that imports it."""
    m = types.ModuleType('mpi4py')
    M = types.ModuleType('mpi4py.MPI')
    for k in ('ANY_SOURCE', 'ANY_TAG', 'IN_PLACE', 'SUM', 'PROD', 'MAX', 'MIN', 'LOR', 'LAND'):
        setattr(M, k, globals()[k])
    M.COMM_WORLD = comm
    M.Comm = M.Intracomm = Comm
    m.MPI = M
    sys.modules['mpi4py'] = m
    sys.modules['mpi4py.MPI'] = M


def _recv_exact(s, n):
    b = b''
    while len(b) < n:
        d = s.recv(n - len(b))
        if not d:
            raise EOFError
        b += d
    return b


def _read_frame(s):
    k, n = HDR.unpack(_recv_exact(s, HDR.size))
    return k, (_recv_exact(s, n) if n > 0 else b'')


def _write_frame(s, k, b=b''):
    s.sendall(HDR.pack(k, len(b)) + b)


# ------------------------------------------------------------------------------------ rank side
class Request:
    def __init__(self, f):
        self._f = f

    def wait(self):
        if self._f is not None:
            self._v = self._f()
            self._f = None
        return self._v

    def test(self):
        return True, self.wait()

    Wait = wait


class Comm:
    """What mpi4py's communicator offers (the parts a program like this can be expected to use)."""

    def __init__(self, sock, rank, size):
        self._s, self.rank, self.size = sock, rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def __bool__(self):
        return True

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator')

    def _call(self, name, *args):
        _write_frame(self._s, b'C', pickle.dumps((name,) + args, -1))
        k, b = _read_frame(self._s)
        r = pickle.loads(b) if b else None
        if isinstance(r, tuple) and r and r[0] == '!raise':
            raise RuntimeError(r[1])
        return r

    def send(self, obj, dest, tag=0):
        self._call('send', dest, tag, pickle.dumps(obj, -1), False)

    def ssend(self, obj, dest, tag=0):
        self._call('send', dest, tag, pickle.dumps(obj, -1), True)

    def isend(self, obj, dest, tag=0):
        self._call('isend', dest, tag, pickle.dumps(obj, -1))
        return Request(lambda: None)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, data = self._call('recv', source, tag)
        if status is not None:
            status.source, status.tag = src, t
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG,
                 status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag, status)

    def Send(self, buf, dest, tag=0):
        self.send(_np().array(buf), dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        buf[...] = self.recv(None, source, tag, status)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._call('iprobe', source, tag)

    def _coll(self, name, root, obj=None, op=None):
        data = pickle.dumps(obj, -1)
        r = self._call('coll', name, root, data, op.name if op else 'SUM')
        return pickle.loads(r) if isinstance(r, bytes) else r

    def Barrier(self):
        self._coll('barrier', 0)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        r = self._coll('bcast', root, obj if self.rank == root else None)
        return obj if self.rank == root else r

    def Bcast(self, buf, root=0):
        r = self._coll('bcast', root, _np().array(buf) if self.rank == root else None)
        if self.rank != root:
            buf[...] = r

    def gather(self, sendobj, root=0):
        return self._coll('gather', root, sendobj)

    def allgather(self, sendobj):
        return self._coll('allgather', 0, sendobj)

    def scatter(self, sendobj=None, root=0):
        return self._coll('scatter', root, sendobj)

    def alltoall(self, sendobj):
        return self._coll('alltoall', 0, sendobj)

    def reduce(self, sendobj, op=SUM, root=0):
        return self._coll('reduce', root, sendobj, op)

    def allreduce(self, sendobj, op=SUM):
        return self._coll('allreduce', 0, sendobj, op)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        v = recvbuf if isinstance(sendbuf, _InPlace) else sendbuf
        recvbuf[...] = self._coll('allreduce', 0, _np().array(v), op)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        v = recvbuf if isinstance(sendbuf, _InPlace) else sendbuf
        r = self._coll('reduce', root, _np().array(v), op)
        if self.rank == root:
            recvbuf[...] = r

    def Gather(self, sendbuf, recvbuf, root=0):
        r = self._coll('gather', root, _np().array(sendbuf))
        if self.rank == root:
            recvbuf[...] = _np().array(r).reshape(_np().shape(recvbuf))

    def Allgather(self, sendbuf, recvbuf):
        r = self._coll('allgather', 0, _np().array(sendbuf))
        recvbuf[...] = _np().array(r).reshape(_np().shape(recvbuf))

    def Abort(self, errorcode=0):
        self._call('abort')

    def yield_(self):
        """A point where other ranks may run (file operations without the shim)."""
        self._call('yield')


# ------------------------------------------------------------------------------------ scheduler
def random_schedule(r, n):
    s = {'seed': r.getrandbits(40), 'mode': r.choice(['uniform', 'uniform', 'speeds', 'speeds',
                                                      'stall', 'pct', 'serial'])}
    s['eager'] = r.choice([0., 0.3, 0.7, 1.])
    if s['mode'] == 'stall':
        s['victim'] = r.randrange(n)
    if s['mode'] == 'pct':
        s['depth'] = r.choice([0, 1, 2, 4])
        s['range'] = r.choice([10, 50, 300])
    return s


class Chooser:
    def __init__(self, s, n):
        self.s = s
        self.mode = s['mode']
        self.rng = random.Random(s.get('seed', 0))
        self.plan = list(s.get('choices', []))
        self.k = 0
        self.trace = []
        self.n = n
        r = self.rng
        self.speed = {}
        if self.mode == 'pct':
            self.change = {r.randrange(1, s['range']) for _ in range(s['depth'])}
            self.prio = {}

    def _done(self, i):
        self.trace.append(i)
        return i

    def flag(self, p):
        """A yes/no choice (0 = no is the quiet one)."""
        if self.mode == 'explicit':
            i = self.plan[self.k] % 2 if self.k < len(self.plan) else 0
            self.k += 1
            return bool(self._done(i))
        return bool(self._done(int(self.rng.random() < p)))

    def order(self, n):
        """A permutation of n things, as one number."""
        if self.mode == 'explicit':
            seed = self.plan[self.k] if self.k < len(self.plan) else 0
            self.k += 1
        else:
            seed = self.rng.randrange(1000)
        self._done(seed)
        p = list(range(n))
        if seed:
            random.Random(seed).shuffle(p)
        return p

    def pick(self, acts):
        n = len(acts)
        if n == 1:
            return acts[0]
        if self.mode == 'explicit':
            i = self.plan[self.k] % n if self.k < len(self.plan) else 0
            self.k += 1
            return acts[self._done(i)]
        m, r = self.mode, self.rng
        if m == 'uniform':
            i = r.randrange(n)
        elif m == 'serial':
            i = 0
        elif m == 'speeds':
            for a in acts:
                if a not in self.speed:
                    self.speed[a] = 10. ** r.uniform(-2, 2)
            i = r.choices(range(n), [self.speed[a] for a in acts])[0]
        elif m == 'stall':
            v = self.s['victim']
            ok = [j for j, a in enumerate(acts) if a[1] != v and (len(a) < 3 or a[2] != v)]
            i = r.choice(ok) if ok else r.randrange(n)
        else:
            for a in acts:
                if a not in self.prio:
                    self.prio[a] = r.random()
            i = max(range(n), key=lambda j: self.prio[acts[j]])
            if len(self.trace) in self.change:
                self.prio[acts[i]] = -len(self.trace)
        return acts[self._done(i)]


class Job:
    """One simulated parallel run: program(comm) on n ranks."""

    def __init__(self, n, program, sched, rank_setup=None, kill_at=None, max_steps=200000):
        self.n, self.program = n, program
        self.ch = Chooser(sched, n)
        self.eager = sched.get('eager', 1.)
        self.socks = [None] * n
        self.pids = [None] * n
        self.state = ['ready'] * n        # ready, blocked, done
        self.reply = [b''] * n
        self.kind = [b'R'] * n
        self.wait = [None] * n            # what a blocked rank waits for
        self.flight = {}                  # (src, dst) -> list of messages
        self.arrived = [[] for _ in range(n)]
        self.coll = {}                    # sequence number -> {rank: call}
        self.collseq = [0] * n
        self.outcome = [None] * n
        self.rank_setup = rank_setup
        self.kill_at = kill_at
        self.max_steps = max_steps
        self.stats = {k: 0 for k in ('steps', 'messages', 'rendezvous', 'delayed', 'reordered',
                                     'collectives', 'file_yields', 'switches', 'killed')}
        self.hash = 0
        self.msgno = 0
        self.error = None

    # -- processes
    def start(self):
        sys.stdout.flush()
        sys.stderr.flush()
        for r in range(self.n):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    for s in self.socks:
                        if s is not None:
                            s.close()
                    a.close()
                    self._rank_main(r, b)
                except BaseException:
                    traceback.print_exc()
                    code = 78
                finally:
                    os._exit(code)
            b.close()
            self.socks[r] = a
            self.pids[r] = pid

    def _rank_main(self, r, sock):
        from .worker import _die_with_parent, blame
        _die_with_parent()
        comm = Comm(sock, r, self.n)
        install_stub(comm)
        _read_frame(sock)                 # wait for the first grant
        if self.rank_setup:
            self.rank_setup(r, sock)
        try:
            out = ('ok', self.program(comm))
        except BaseException as e:
            out = ('exc', type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:],
                   blame(e.__traceback__))
        if self.rank_setup:
            self.rank_setup(-1, sock)
        _write_frame(sock, b'D', pickle.dumps(out, -1))
        try:
            sock.recv(1)
        except OSError:
            pass

    def _kill_all(self):
        for p in self.pids:
            if p:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for p in self.pids:
            if p:
                os.waitpid(p, 0)
        for s in self.socks:
            if s:
                s.close()
        self.pids = [None] * self.n
        self.socks = [None] * self.n

    # -- semantics
    def _ready(self, r, obj=None, raw=False):
        self.state[r] = 'ready'
        self.wait[r] = None
        self.reply[r] = b'' if obj is None else pickle.dumps(obj, -1)

    def _try_match(self, dst):
        w = self.wait[dst]
        if self.state[dst] != 'blocked' or w[0] != 'recv':
            return
        _, src, tag = w
        ok = []
        seen = set()
        for m in self.arrived[dst]:
            if (src in (ANY_SOURCE, m['src'])) and tag in (ANY_TAG, m['tag']) \
                    and (m['src'], m['tag']) not in seen:
                seen.add((m['src'], m['tag']))
                ok.append(m)
        if not ok:
            return
        m = ok[0] if len(ok) == 1 else self.ch.pick([('match', dst, x['src'], x['tag'], x['no'])
                                                     for x in ok])
        if isinstance(m, tuple):
            m = [x for x in ok if x['no'] == m[4]][0]
        self.arrived[dst].remove(m)
        if m['rdv'] and self.state[m['src']] == 'blocked':
            self._ready(m['src'])
        self._ready(dst, (m['src'], m['tag'], m['data']))

    def _handle(self, r, call):
        name = call[0]
        if name in ('send', 'isend'):
            dest, tag, data = call[1:4]
            if not 0 <= dest < self.n:
                self._ready(r, ('!raise', 'invalid destination rank'))
                return
            rdv = name == 'send' and (call[4] or not self.ch.flag(self.eager))
            self.msgno += 1
            self.flight.setdefault((r, dest), []).append(
                {'src': r, 'tag': tag, 'data': data, 'rdv': rdv, 'no': self.msgno})
            self.stats['messages'] += 1
            if rdv:
                self.stats['rendezvous'] += 1
                self.state[r] = 'blocked'
                self.wait[r] = ('send', dest, tag)
            else:
                self._ready(r)
        elif name == 'recv':
            if not -1 <= call[1] < self.n:
                self._ready(r, ('!raise', 'invalid source rank'))
                return
            self.state[r] = 'blocked'
            self.wait[r] = ('recv', call[1], call[2])
            self._try_match(r)
        elif name == 'iprobe':
            ok = any(call[1] in (ANY_SOURCE, m['src']) and call[2] in (ANY_TAG, m['tag'])
                     for m in self.arrived[r])
            self._ready(r, ok)
        elif name == 'yield':
            self._ready(r)
        elif name == 'abort':
            self.error = ('abort', 'rank %d aborted the job' % r)
        else:
            self._collective(r, call)

    def _collective(self, r, call):
        k = self.collseq[r]
        self.collseq[r] += 1
        g = self.coll.setdefault(k, {'calls': {}, 'done': set(), 'order': None})
        g['calls'][r] = call
        sig = {(c[1], c[2], c[4]) for c in g['calls'].values()}
        if len(sig) > 1:
            self.error = ('mismatch', 'ranks disagree about collective %d: %s' % (k, sorted(sig)))
            return
        self.state[r] = 'blocked'
        self.wait[r] = ('coll', k, call[1])
        self._progress(k)

    def _progress(self, k):
        g = self.coll[k]
        calls = g['calls']
        name, root, opname = [calls[min(calls)][i] for i in (1, 2, 4)]
        full = len(calls) == self.n
        obj = {r: c[3] for r, c in calls.items()}
        res = None
        if full:
            self.stats['collectives'] += 1
            if name in ('reduce', 'allreduce'):
                vals = [pickle.loads(obj[r]) for r in self.ch.order(self.n)]
                v = vals[0]
                for u in vals[1:]:
                    v = OPS[opname](v, u)
                res = {r: pickle.dumps(v if name == 'allreduce' or r == root else None, -1)
                       for r in range(self.n)}
            elif name in ('gather', 'allgather'):
                v = [pickle.loads(obj[r]) for r in range(self.n)]
                res = {r: pickle.dumps(v if name == 'allgather' or r == root else None, -1)
                       for r in range(self.n)}
            elif name == 'scatter':
                v = pickle.loads(obj[root])
                res = {r: pickle.dumps(v[r], -1) for r in range(self.n)}
            elif name == 'alltoall':
                v = [pickle.loads(obj[r]) for r in range(self.n)]
                res = {r: pickle.dumps([x[r] for x in v], -1) for r in range(self.n)}
            elif name == 'bcast':
                res = {r: obj[root] for r in range(self.n)}
            else:
                res = {r: pickle.dumps(None) for r in range(self.n)}
            for r in range(self.n):
                if r not in g['done']:
                    g['done'].add(r)
                    self._ready(r, res[r])
            return
        # early release, where the meaning of the collective allows it
        for r in sorted(calls):
            if r in g['done']:
                continue
            early = None
            if name == 'bcast' and root in calls:
                early = obj[root]
            elif name in ('gather', 'reduce') and r != root:
                early = pickle.dumps(None)
            if early is not None and self.ch.flag(0.5):
                g['done'].add(r)
                self._ready(r, early)

    # -- the loop
    def run(self):
        self.start()
        try:
            self._loop()
        finally:
            self._kill_all()
        return self

    def _loop(self):
        last = None
        while self.error is None:
            acts = [('run', r) for r in range(self.n) if self.state[r] == 'ready']
            fl = [('arrive', dst, src) for (src, dst), q in sorted(self.flight.items()) if q]
            acts += fl
            if not acts:
                if all(s == 'done' for s in self.state):
                    return
                dead = [(r, self.wait[r]) for r in range(self.n) if self.state[r] == 'blocked']
                exc = [r for r in range(self.n) if self.outcome[r] and self.outcome[r][0] != 'ok']
                if exc:
                    return                # the others wait for a rank that failed
                self.error = ('deadlock', 'no rank can proceed: ' + ', '.join(
                    'rank %d in %s' % d for d in dead))
                return
            self.stats['steps'] += 1
            if self.stats['steps'] > self.max_steps:
                self.error = ('livelock', 'no end after %d steps' % self.max_steps)
                return
            if self.kill_at is not None and self.stats['steps'] >= self.kill_at:
                self.stats['killed'] = 1
                self.error = ('killed', 'job killed at step %d' % self.kill_at)
                return
            a = self.ch.pick(acts)
            self.hash = zlib.crc32(repr(a).encode(), self.hash)
            if fl and a[0] == 'run':
                self.stats['delayed'] += 1
            if a[0] == 'arrive':
                _, dst, src = a
                m = self.flight[(src, dst)].pop(0)
                if any(q and q[0]['no'] < m['no'] for q in self.flight.values()):
                    self.stats['reordered'] += 1
                self.arrived[dst].append(m)
                self._try_match(dst)
                continue
            r = a[1]
            if last is not None and r != last:
                self.stats['switches'] += 1
            last = r
            b, self.reply[r] = self.reply[r], b''
            try:
                _write_frame(self.socks[r], b'R', b)
                k, data = _read_frame(self.socks[r])
            except (EOFError, OSError):
                _, st = os.waitpid(self.pids[r], 0)
                self.pids[r] = None
                self.error = ('died', 'rank %d ended with %s' % (
                    r, os.waitstatus_to_exitcode(st)))
                return
            if k == b'D':
                self.state[r] = 'done'
                self.outcome[r] = pickle.loads(data)
            elif k == b'Y':
                self.stats['file_yields'] += 1
            else:
                self._handle(r, pickle.loads(data))

    def leftovers(self):
        return sum(len(q) for q in self.flight.values()) + sum(len(q) for q in self.arrived)


def explicit(sched, trace):
    return {'mode': 'explicit', 'choices': list(trace), 'eager': sched.get('eager', 1.)}


def shrink_schedule(s):
    from .gen import chunks_removed, with_
    if s['mode'] == 'explicit':
        c = s['choices']
        for d in chunks_removed(c):
            yield with_(s, choices=d)
        nz = [i for i, v in enumerate(c) if v]
        for keep in chunks_removed(nz):
            k = set(keep)
            yield with_(s, choices=[v if i in k else 0 for i, v in enumerate(c)])
