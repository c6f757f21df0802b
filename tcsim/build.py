"""Builds, from /repo's current working tree, the simulated extension and the simulated I/O shim.

The extension is TreeCorr's own C++ sources, compiled with its own flags plus -fsanitize=thread
instrumentation, and linked with native/simomp.cpp in place of libgomp and the sanitizer runtime.
Results are cached in /verif/build under a hash of every input, so nothing stale can be used.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TCSIM_REPO', '/repo')
BUILD = os.environ.get('TCSIM_BUILD', os.path.join(VERIF, 'build'))

CXXFLAGS = ['-fPIC', '-DNDEBUG', '-O1', '-fno-tree-vectorize', '-fopenmp', '-fsanitize=thread',
            '-std=c++11', '-ffast-math', '-w', '-g0']
NATIVE_FLAGS = ['-fPIC', '-O2', '-std=c++14', '-w', '-g0']


class BuildError(Exception):
    pass


def _includes():
    import pybind11
    return [os.path.join(REPO, 'include'), pybind11.get_include(),
            sysconfig.get_paths()['include']]


def _digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(cmd), p.stdout[-4000:]))


def _parallel(cmds):
    procs = []
    for what, cmd in cmds:
        procs.append((what, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                                  stderr=subprocess.STDOUT, text=True)))
    bad = []
    for what, cmd, p in procs:
        out = p.communicate()[0]
        if p.returncode != 0:
            bad.append('%s:\n%s' % (what, out[-4000:]))
    if bad:
        raise BuildError('\n'.join(bad))


def _prune(prefix, keep, nkeep=6):
    ds = [d for d in glob.glob(os.path.join(BUILD, prefix + '*')) if os.path.isdir(d) and d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-nkeep] if len(ds) > nkeep else []:
        shutil.rmtree(d, ignore_errors=True)


def _locked(fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return fn()


def build_extension(verbose=True):
    """Return the path of the simulated _treecorr extension for the current tree."""
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    hdrs = sorted(glob.glob(os.path.join(REPO, 'include', '*')))
    hdrs = [h for h in hdrs if os.path.isfile(h)]
    native = os.path.join(VERIF, 'native', 'simomp.cpp')
    inc = _includes()
    key = _digest(srcs + hdrs + [native], (CXXFLAGS, NATIVE_FLAGS, sys.version, inc[1:]))

    def do():
        d = os.path.join(BUILD, 'ext-' + key)
        so = os.path.join(d, '_treecorr.so')
        if os.path.isfile(so):
            os.utime(d)
            return so
        t0 = time.time()
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # Objects are cached one by one too: a change to one .cpp file recompiles that file only.
        hkey = _digest(hdrs, (CXXFLAGS, sys.version, inc[1:]))
        ocache = os.path.join(BUILD, 'objs')
        os.makedirs(ocache, exist_ok=True)
        cmds, objs, fresh = [], [], []
        for s in srcs:
            ok = os.path.join(ocache, _digest([s], hkey) + '.o')
            if not os.path.isfile(ok):
                cmds.append((s, ['g++', '-c'] + CXXFLAGS + ['-I' + i for i in inc]
                             + [s, '-o', ok + '.tmp%d' % os.getpid()]))
                fresh.append(ok)
            objs.append(ok)
        nobj = os.path.join(tmp, 'simomp.o')
        cmds.append((native, ['g++', '-c'] + NATIVE_FLAGS + [native, '-o', nobj]))
        _parallel(cmds)
        for ok in fresh:
            os.rename(ok + '.tmp%d' % os.getpid(), ok)
        _run(['g++', '-shared', '-Wl,-Bsymbolic', '-o', os.path.join(tmp, '_treecorr.so')]
             + objs + [nobj, '-lpthread', '-ldl'], 'linking the simulated extension')
        os.rename(tmp, d)
        _prune('ext-', d)
        cached = sorted(glob.glob(os.path.join(ocache, '*.o')), key=os.path.getmtime)
        for o in cached[:-60]:
            if o not in objs:
                os.remove(o)
        if verbose:
            print('built simulated extension in %.0f s' % (time.time() - t0), file=sys.stderr)
        return so
    return _locked(do)


def build_simio(verbose=True):
    """Return the path of the LD_PRELOAD shim that owns file I/O."""
    native = os.path.join(VERIF, 'native', 'simio.c')
    key = _digest([native], NATIVE_FLAGS)

    def do():
        so = os.path.join(BUILD, 'simio-%s.so' % key)
        if not os.path.isfile(so):
            tmp = so + '.tmp%d' % os.getpid()
            _run(['gcc', '-shared', '-fPIC', '-O2', '-w', '-o', tmp, native, '-ldl', '-lpthread'],
                 'building the I/O shim')
            os.rename(tmp, so)
            for f in glob.glob(os.path.join(BUILD, 'simio-*.so')):
                if f != so:
                    os.remove(f)
        return so
    return _locked(do)


def build_simpy(verbose=True):
    """Return the path of the library that interrupts the interpreter and fails allocations."""
    import sysconfig
    native = os.path.join(VERIF, 'native', 'simpy.c')
    key = _digest([native], (NATIVE_FLAGS, sys.version))

    def do():
        so = os.path.join(BUILD, 'simpy-%s.so' % key)
        if not os.path.isfile(so):
            tmp = so + '.tmp%d' % os.getpid()
            _run(['gcc', '-shared', '-fPIC', '-O2', '-w', '-I' + sysconfig.get_paths()['include'],
                  '-o', tmp, native], 'building the interrupt library')
            os.rename(tmp, so)
            for f in glob.glob(os.path.join(BUILD, 'simpy-*.so')):
                if f != so:
                    os.remove(f)
        return so
    return _locked(do)
