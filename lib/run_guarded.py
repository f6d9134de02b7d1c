# -*- coding: utf-8 -*-
"""run_guarded.py SCRATCH SCRIPT ARGS...: runs a script that may only write below SCRATCH"""
import os
import runpy
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import guard  # noqa: E402

scratch, script = sys.argv[1:3]
sys.argv = sys.argv[2:]
sys.path[0] = os.path.dirname(os.path.abspath(script))
try:
    with guard.scratch(scratch):
        runpy.run_path(script, run_name='__main__')
except guard.Escape as e:
    print('ESCAPE', e)
    sys.exit(77)
