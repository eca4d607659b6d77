"""The checks, one per property."""
from kv import *

CHECKS = {}
def check(pid, technique, note, level='model_checking', assumptions=()):
    def deco(f):
        CHECKS[pid] = dict(run=f, technique=technique, note=note, level=level, assumptions=list(assumptions))
        return f
    return deco

import importlib, glob
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_*.py'))):
    importlib.import_module(os.path.basename(_f)[:-3])
