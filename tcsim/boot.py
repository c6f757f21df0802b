"""Imports treecorr from /repo with the simulated extension in place of the installed one."""
import importlib.machinery
import importlib.util
import os
import sys

from . import build

_loaded = None


def load(so=None):
    """Import and return the treecorr package, running on the simulated OpenMP runtime."""
    global _loaded
    if _loaded is not None:
        return _loaded
    so = so or os.environ.get('TCSIM_EXT') or build.build_extension()
    sys.dont_write_bytecode = True
    if build.REPO not in sys.path[:1]:
        sys.path.insert(0, build.REPO)
    name = 'treecorr._treecorr'
    loader = importlib.machinery.ExtensionFileLoader(name, so)
    spec = importlib.util.spec_from_file_location(name, so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    import treecorr
    treecorr._treecorr = mod
    assert os.path.dirname(os.path.dirname(os.path.abspath(treecorr.__file__))) == \
        os.path.abspath(build.REPO), treecorr.__file__
    from . import omp
    omp.attach(so)
    _loaded = treecorr
    return treecorr
