"""Sky and beam objects, grid of the convolver."""
from .base import *
from dv.models import SQRT, EXP
SPECS = []
def S(name, params=None, key=None, unit=None, **k):
    s = Spec(name, params, key=key or name, unit=unit, **k); SPECS.append(s); return s
l_, m_ = z3.Ints('l_ m_')
def same_alm(c, f):
    a, b = c[f], c.old[f]
    return And(a.dim(0) == b.dim(0), a.dim(1) == b.dim(1), FA([l_, m_], And(*[a.at(l_, m_, leaf=x) == b.at(l_, m_, leaf=x) for x in ('.re', '.im')])))
def changed_only(c, f, cells):
    """all coefficients keep their value except the listed pairs, which become zero"""
    a, b = c[f], c.old[f]
    hit = Or(*[And(l_ == x, m_ == y) for x, y in cells])
    inr = And(m_ >= 0, m_ <= a.dim(1), m_ <= l_, l_ <= a.dim(0))
    return And(a.dim(0) == b.dim(0), a.dim(1) == b.dim(1), FA([l_, m_], Imp(inr, And(*[a.at(l_, m_, leaf=x) == z3.If(hit, rv(0), b.at(l_, m_, leaf=x)) for x in ('.re', '.im')]))))

# ---- C10
S('sky::remove_monopole', [], modifies=['this.slmT_'], requires=lambda c: [c['this.slmT_'].dim(1) <= c['this.slmT_'].dim(0), Imp(c['this.slmT_'].dim(0) >= 0, c['this.slmT_'].dim(1) >= 0)],
  ensures=lambda c: [('only the monopole becomes zero', changed_only(c, 'this.slmT_', [(0, 0)]))])
S('sky::remove_dipole', [], modifies=['this.slmT_'], requires=lambda c: [c['this.slmT_'].dim(1) <= c['this.slmT_'].dim(0), Imp(c['this.slmT_'].dim(0) >= 0, c['this.slmT_'].dim(1) >= 0)],
  ensures=lambda c: [('only the dipole becomes zero', changed_only(c, 'this.slmT_', [(1, 0), (1, 1)]))])
C10 = [s.key for s in SPECS]

# ---- C09
def scaled(c, f, k):
    a, b = c[f], c.old[f]
    return And(a.dim(0) == b.dim(0), a.dim(1) == b.dim(1), FA([l_, m_], Imp(And(m_ >= 0, m_ <= a.dim(1), m_ <= l_, l_ <= a.dim(0)), And(*[a.at(l_, m_, leaf=x) == b.at(l_, m_, leaf=x) * k for x in ('.re', '.im')]))))
def b00(c): return c['this.blmT_'].at(0, 0, leaf='.re')
S('beam::normalize', [], modifies=['this.blmT_', 'this.blmG_', 'this.blmC_', 'this.normalized_'],
  requires=lambda c: [Imp(c['this.blmT_'].dim(0) >= 0, And(c['this.blmT_'].dim(1) >= 0, b00(c) != 0))],
  axioms=lambda c: [SQRT(PI) > 0],
  ensures=lambda c: [('normalised afterwards', c['this.normalized_']),
     ('a second time changes nothing', Imp(c.old['this.normalized_'], And(c.res == 1, same_alm(c, 'this.blmT_'), same_alm(c, 'this.blmG_'), same_alm(c, 'this.blmC_')))),
     ('intensity integrates to one', Imp(And(Not(c.old['this.normalized_']), c['this.blmT_'].dim(0) >= 0), 2 * SQRT(PI) * c.old['this.blmT_'].at(0, 0, leaf='.re') * c.res == 1)),
     ('one common factor', Imp(And(Not(c.old['this.normalized_']), c['this.blmT_'].dim(0) >= 0), And(scaled(c, 'this.blmT_', c.res), Imp(c['this.pol'], And(scaled(c, 'this.blmG_', c.res), scaled(c, 'this.blmC_', c.res))), Imp(Not(c['this.pol']), And(same_alm(c, 'this.blmG_'), same_alm(c, 'this.blmC_'))))))])
C09 = ['beam::normalize']

# ---- C13
def member(name): return lambda c: c._thislv('this.' + name)
for cls, p in (('beam', 'blm'), ('sky', 'slm')):
    S('%s::%sT' % (cls, p), [], unit=['src/conviqt_io.cpp'], result_lv=member('%sT_' % p), ensures=lambda c, p=p: [('the intensity component', z3.BoolVal(getattr(c.res, 'path', None) == c._thislv('this.%sT_' % p).path and not c.res.idx))])
    for x in 'GC':
        S('%s::%s%s' % (cls, p, x), [], unit=['src/conviqt_io.cpp'], result_lv=member('%s%s_' % (p, x)), ensures=lambda c, p=p, x=x: [('the requested component', z3.BoolVal(getattr(c.res, 'path', None) == c._thislv('this.%s%s_' % (p, x)).path and not c.res.idx)), ('only for polarised expansions', c['this.pol'])],
          exsures=lambda c: [('refused only without polarisation', Not(c['this.pol']))])
C13 = [s.key for s in SPECS if s.unit == ['src/conviqt_io.cpp']]

PROPS = dict(C09=C09, C10=C10, C13=C13)
