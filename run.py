#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
SHIM = len(sys.argv) > 1 and sys.argv[1].upper() in ('C09', 'C10', 'C40')
if os.environ.get('PYTHONHASHSEED') != '0' or \
        os.environ.get('PYTHONDONTWRITEBYTECODE') != '1' or (
            SHIM and not os.environ.get('LD_PRELOAD', '').endswith(
                '/build/shim.so')):
    # own hash randomization
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONWARNINGS'] = 'ignore'
    if SHIM:
        # operations on files are intercepted below the interpreter
        sys.path.insert(0, ROOT)
        from mc import osched
        os.environ['LD_PRELOAD'] = osched.build()
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, ROOT)

from mc import env  # noqa
env.boot()
from mc import engine  # noqa

if __name__ == '__main__':
    check = importlib.import_module('mc.checks.' + sys.argv[1].lower())
    sys.exit(engine.main(check, sys.argv[1:]))
