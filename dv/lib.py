"""Loading of the contract files and of the translation units."""
import os, importlib, sys
from .cast import Unit
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_units = {}
def unit(src):
    if src not in _units:
        if src.startswith('inst/'):
            _units[src] = Unit(os.path.join(VERIF, 'inc', src[5:]), filters=('levels::', 'onviqt::') + (('ndt2mpi', 'op2mop', 'assert_unequal') if src == 'inst/mpi.cpp' else ()))
        elif src.endswith('.c'):
            _units[src] = Unit(src, filters=None, cxx=False)
        elif src.endswith('cconviqt.cpp'):
            _units[src] = Unit(src, filters=('levels::', 'onviqt::', 'conviqt_'))
        else:
            _units[src] = Unit(src)
    return _units[src]
def load():
    specs, models = {}, {}
    sys.path.insert(0, VERIF)
    d = os.path.join(VERIF, 'specs')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            m = importlib.import_module('specs.' + f[:-3])
            for s in getattr(m, 'SPECS', []):
                specs[getattr(s, 'key', s.name)] = s
            models.update(getattr(m, 'MODELS', {}))
    return specs, models
