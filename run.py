#!/usr/bin/env python3
"""Entry point of every check: python3 run.py --property C01 [--tier quick|thorough] [--replay F]"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from tcsim import driver
sys.exit(driver.main())
