#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property from /repo's current source."""
import importlib, os, sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'engine'))
sys.path.insert(0, here)
if '--thorough' in sys.argv:
    os.environ['VERIF_TIER'] = 'thorough'
prop = sys.argv[1]
import core
try:
    mod = importlib.import_module('checks.' + prop.lower())
    rc = mod.check()
except core.Broken as e:
    print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
    rc = 2
sys.stdout.flush()
sys.exit(rc)
