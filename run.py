#!/usr/bin/env python3
"""run.py PROPERTY -- decide one property on /repo's current tree."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rl import registry
from rl.ir import AnalysisBroken
try:
    sys.exit(registry.run(sys.argv[1]))
except AnalysisBroken as e:
    print('ANALYSIS-BROKEN: %s' % e)
    sys.exit(3)
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(3)
