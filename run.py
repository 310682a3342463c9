#!/usr/bin/env python3
"""python3 run.py <property id> [--thorough]: runs the check of one property."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    # one interpreter, one hash seed: the run is a function of VERIF_SEED
    # (and no compiled code left by anybody: the sources of /repo are what is judged)
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache')
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    prop = sys.argv[1]
    mod = importlib.import_module('nv.checks.' + prop.lower())
    try:
        mod.main()
    except BaseException as e:
        from nv import harness
        harness.uncaught(e)
        raise
