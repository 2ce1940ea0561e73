#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property of /repo's current tree by static analysis."""
import os, sys
VT = '/opt/veriftools/pyvenv/bin/python'
try:
    import numpy
except ImportError:
    if os.path.exists(VT) and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(VT, [VT] + sys.argv)
    raise
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
if len(sys.argv) > 1 and sys.argv[1] == '--selftest':
    import shutil, subprocess
    for t in ('clang++-18', 'opt-18', 'g++'):
        if not shutil.which(t): sys.exit('missing tool ' + t)
    import ir, expr, interp, interval, rint, nf, decide
    print('ok')
    sys.exit(0)
import threading
threading.stack_size(512 * 1024 * 1024)
import harness
rc = [2]


def go(): rc[0] = harness.main(sys.argv[1])


t = threading.Thread(target=go)
t.start(); t.join()
sys.stdout.flush()
sys.exit(rc[0])
