"""One worker: imports the system once, then runs every simulated execution in a forked child.

The child starts from the same memory image whatever was run before, so an execution is a function
of its case alone; its death or hang is seen from here and attributed to it.
Protocol: JSON lines on stdin / on the descriptor given as argv[2].
"""
import faulthandler
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


class HarnessError(Exception):
    pass


def rng_for(seed, prop, i):
    return random.Random('%d/%s/%d' % (seed, prop, i))


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def blame(tb):
    """'treecorr' if the exception came out of the code under test, else 'harness'."""
    frames = traceback.extract_tb(tb)
    own = [('/treecorr/' in f.filename or '/scripts/' in f.filename) for f in frames]
    return 'treecorr' if any(own) else 'harness'


def child_main(mod, msg, wfd, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    out = os.open('../log.%s' % os.path.basename(scratch), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(out, 1)
    os.dup2(out, 2)
    os.close(out)
    faulthandler.enable(file=sys.stderr)
    res = {}
    try:
        if 'case' in msg:
            case = msg['case']
        else:
            case = mod.generate(rng_for(msg['seed'], mod.PROPERTY, msg['i']), msg['i'], msg['tier'])
        if msg.get('op') == 'gen':
            res = {'status': 'case', 'case': case}
        else:
            random.seed(12345)
            import numpy as np
            np.random.seed(54321)
            t0 = time.time()
            r = mod.run(case)
            r.setdefault('case', case)
            r['dt'] = time.time() - t0
            res = {'status': 'ok', 'result': r}
    except BaseException as e:
        tb = traceback.format_exc()
        if blame(e.__traceback__) == 'treecorr' and not isinstance(e, HarnessError) \
                and 'case' in locals():
            tail = traceback.extract_tb(e.__traceback__)
            last = [f for f in tail if '/treecorr/' in f.filename or '/scripts/' in f.filename][-1]
            res = {'status': 'ok', 'result': {
                'viol': ['unexpected-exception:%s:%s:%s' % (
                    type(e).__name__, os.path.basename(last.filename), last.name),
                    'unexpected exception\n' + tb[-3000:]],
                'case': case, 'stats': {}, 'states': [], 'digest': 'exc', 'dt': 0.}}
        else:
            res = {'status': 'harness', 'error': tb[-6000:]}
    data = json.dumps(res, default=_js).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os.close(wfd)


def _js(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, set):
        return sorted(o)
    return repr(o)


def run_forked(mod, msg, scratch):
    shutil.rmtree(scratch, ignore_errors=True)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            _die_with_parent()
            os.setpgid(0, 0)
            os.close(rfd)
            child_main(mod, msg, wfd, scratch)
        except BaseException:
            traceback.print_exc()
            code = 77
        finally:
            os._exit(code)
    os.close(wfd)
    deadline = time.monotonic() + msg.get('timeout', 60)
    buf = b''
    timeout = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timeout = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timeout = True
            break
        d = os.read(rfd, 1 << 20)
        if not d:
            break
        buf += d
    os.close(rfd)
    if timeout:
        try:
            os.kill(pid, signal.SIGABRT)      # faulthandler writes where it hangs
            time.sleep(0.3)
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    rc = os.waitstatus_to_exitcode(status)
    log = ''
    try:
        with open(os.path.join(os.path.dirname(scratch), 'log.%s' % os.path.basename(scratch)),
                  'rb') as f:
            log = f.read()[-5000:].decode('utf8', 'replace')
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timeout:
        return {'status': 'timeout', 'log': log}
    if rc == 0 and buf:
        try:
            return json.loads(buf)
        except ValueError:
            pass
    return {'status': 'died', 'rc': rc, 'log': log}


def main():
    modname, fd, scratch = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    _die_with_parent()
    sys.path.insert(0, os.path.dirname(HERE))
    out = os.fdopen(fd, 'w', buffering=1)
    try:
        mod = importlib.import_module(modname)
        mod.setup()
    except BaseException:
        out.write(json.dumps({'status': 'harness', 'error': traceback.format_exc()}) + '\n')
        return
    out.write(json.dumps({'status': 'ready'}) + '\n')
    os.makedirs(scratch, exist_ok=True)
    for line in sys.stdin:
        msg = json.loads(line)
        res = run_forked(mod, msg, os.path.join(scratch, 'run'))
        res['id'] = msg.get('id')
        out.write(json.dumps(res) + '\n')


if __name__ == '__main__':
    main()
