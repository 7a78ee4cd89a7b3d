#!/usr/bin/env python3
"""check.py PROPERTY      decide one property on the current tree of /repo
   check.py --replay F    run one recorded failing case again"""
import os, sys
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VT) and os.path.realpath(sys.prefix) != '/opt/veriftools/pyvenv' and not os.environ.get('VC_INNER'):
    os.environ['VC_INNER'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vc import runner
sys.exit(runner.main(sys.argv[1:]))
