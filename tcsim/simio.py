"""Python side of the I/O shim (native/simio.c): plans of faults, logs of operations, processes that
are killed at an operation, and the choice of the operation a fault falls on."""
import ctypes
import os
import pickle
import signal
import sys
import time
import traceback

KINDS = {1: 'open', 2: 'read', 3: 'write', 4: 'close', 5: 'truncate', 6: 'unlink', 7: 'rename',
         8: 'mkdir', 9: 'sync'}
KNUM = {v: k for k, v in KINDS.items()}
ACTS = {'eio': 1, 'enospc': 2, 'full': 3, 'eintr': 4, 'short': 5, 'crash': 6, 'eios': 7,
        'eacces': 8, 'emfile': 9}
ANAME = {v: k for k, v in ACTS.items()}
# Which kinds of operation a fault can fall on.
FITS = {'eio': ('open', 'read', 'write', 'close', 'truncate', 'unlink', 'rename', 'mkdir', 'sync'),
        'enospc': ('write', 'mkdir', 'create', 'grow', 'sync'),
        'full': ('write', 'mkdir', 'create', 'grow'),
        'eintr': ('read', 'write', 'open'), 'short': ('read', 'write'),
        'crash': tuple(KNUM), 'eios': ('read',), 'eacces': ('open',), 'emfile': ('open',)}


class Entry(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int32) for n in ('kind', 'path', 'req', 'res', 'err', 'act', 'fd',
                                              'extra')]


_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        L.simio_reset                                 # AttributeError: not preloaded
        L.simio_log.restype = ctypes.POINTER(Entry)
        L.simio_path.restype = ctypes.c_char_p
        L.simio_nops.restype = L.simio_count.restype = L.simio_nyields.restype = ctypes.c_long
        L.simio_plan.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
        L.simio_random.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
        L.simio_track.argtypes = [ctypes.c_char_p]
        _lib = L
    return _lib


class Op:
    __slots__ = ('kind', 'path', 'req', 'res', 'err', 'act', 'i')

    def __init__(self, i, e, L):
        self.i = i
        self.kind = KINDS.get(e.kind, '?')
        self.path = L.simio_path(e.path).decode()
        self.req, self.res, self.err = e.req, e.res, e.err
        self.act = ANAME.get(e.act)

    def __repr__(self):
        return '%d %s %s %d -> %d%s%s' % (self.i, self.kind, self.path, self.req, self.res,
                                          ' errno %d' % self.err if self.err else '',
                                          ' [%s]' % self.act if self.act else '')

    def tuple(self):
        return (self.kind, self.path, self.req, self.res, self.err, self.act)


def log():
    L = lib()
    n = min(L.simio_nops(), 65536)
    p = L.simio_log()
    return [Op(i, p[i], L) for i in range(n)]


def fits(act, op):
    """Can this fault fall on this operation?"""
    if op.kind not in KNUM:
        return False
    if op.kind == 'close' and act != 'crash':
        return act in ('eio', 'enospc') and bool(op.req)      # only if it was open for writing
    if op.kind in FITS[act]:
        return True
    return bool(op.req) and ((op.kind == 'open' and 'create' in FITS[act])
                             or (op.kind == 'truncate' and 'grow' in FITS[act]))


class io:
    """with io(plan, random=(seed, short, eintr)): operations below the scratch directory are
    counted, logged and failed as planned.  plan: list of [operation, fault, per mille]."""

    def __init__(self, plan=(), rnd=None, root=None):
        self.plan, self.rnd, self.root = plan, rnd, root
        self.ops = []

    def __enter__(self):
        L = lib()
        L.simio_reset()
        L.simio_track((self.root or os.getcwd()).encode())
        for op, act, arg in self.plan:
            L.simio_plan(op, ACTS[act], arg)
        if self.rnd:
            L.simio_random(*self.rnd)
        L.simio_enable(1)
        return self

    def __exit__(self, *exc):
        lib().simio_enable(0)
        self.ops = log()
        return False

    @property
    def hit(self):
        return [o for o in self.ops if o.act]


def count_faults(ops, stats):
    for o in ops:
        if o.act:
            k = 'fault_%s_%s' % (o.act, o.kind)
            stats[k] = stats.get(k, 0) + 1
    stats['io_ops'] = stats.get('io_ops', 0) + len(ops)


class Outcome:
    """How a simulated process ended."""

    def __init__(self, status, value=None, error=None, tb='', ops=(), own=True):
        self.status, self.value, self.error, self.tb = status, value, error, tb
        self.ops = ops
        self.own = own

    def __repr__(self):
        return '%s %s' % (self.status, self.error or '')


def process(fn, plan=(), rnd=None, timeout=60, root=None):
    """Run fn() in a forked process of its own, under the shim.  Returns an Outcome: 'ok' with the
    value, 'exc' with the exception, or 'killed' when a crash was injected (only what it had
    written is left)."""
    from .worker import _die_with_parent, blame, HarnessError
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            _die_with_parent()
            os.close(rfd)
            j = io(plan, rnd, root)
            try:
                with j:
                    v = fn()
                out = ('ok', v, None, '', True)
            except BaseException as e:
                out = ('exc', None, '%s: %s' % (type(e).__name__, str(e)[:300]),
                       traceback.format_exc()[-3000:], blame(e.__traceback__) == 'treecorr')
            out += ([(o.i,) + o.tuple() for o in j.ops],)
            data = memoryview(pickle.dumps(out, -1))
            while data:
                n = os.write(wfd, data)
                data = data[n:]
        except BaseException:
            traceback.print_exc()
            code = 78
        finally:
            os._exit(code)
    os.close(wfd)
    buf = bytearray()
    while True:
        d = os.read(rfd, 1 << 20)
        if not d:
            break
        buf += d
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    if rc == 137:
        return Outcome('killed')
    if rc != 0 or not buf:
        return Outcome('died', error='exit status %s' % rc)
    status, v, err, tb, own, ops = pickle.loads(buf)
    o = Outcome(status, v, err, tb, own=own)
    o.ops = [_op(*x) for x in ops]
    return o


def _op(i, kind, path, req, res, err, act):
    o = Op.__new__(Op)
    o.i, o.kind, o.path, o.req, o.res, o.err, o.act = i, kind, path, req, res, err, act
    return o


def resolve(fault, ops, writes_only=False):
    """Turn {'act', 'at' (any integer), 'arg'} into a plan entry on one of ops that the fault can
    fall on, or None."""
    if 'op' in fault:
        return [fault['op'], fault['act'], fault.get('arg', 0)]
    can = [o for o in ops if fits(fault['act'], o)]
    pref = fault.get('kind')
    if pref:
        sub = [o for o in can if o.kind == pref]
        can = sub or can
    if not can:
        return None
    o = can[fault['at'] % len(can)]
    return [o.i, fault['act'], fault.get('arg', 0)]
