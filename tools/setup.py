#!/usr/bin/env python3
"""setup_cmd: builds the simulated extension and the I/O shim into /verif/build (cached by hash)."""
import os, sys
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY] + sys.argv)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
from tcsim import build
print(build.build_extension())
if os.path.exists(os.path.join(V, 'native', 'simio.c')):
    print(build.build_simio())
