"""Shared vocabulary of the contracts."""
import z3
from dv.engine import *
from dv.spec import *
from dv.execu import View
i, j, k, m, n, q = z3.Ints('i j k m n q')
def pat_ok(e):
    if isinstance(e, z3.PatternRef): return all(pat_ok(x) for x in e.children())
    if z3.is_quantifier(e): return False
    if z3.is_app(e):
        kd = e.decl().kind()
        if kd in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ): return False
        return all(pat_ok(x) for x in e.children())
    return True
def covers(p, vs):
    """the pattern mentions every bound variable, also after simplification"""
    seen, ids = set(), {v.get_id() for v in vs}
    stack = [z3.simplify(x) for x in (p.children() if isinstance(p, z3.PatternRef) else [p])]
    for x in stack:
        if z3.is_const(x): return False
    while stack:
        x = stack.pop()
        if x.get_id() in ids: seen.add(x.get_id())
        if z3.is_app(x): stack += x.children()
    return seen == ids
def FA(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    pats = [p for p in pats if pat_ok(p) and covers(p, vs)]
    if pats: return z3.ForAll(vs, body, patterns=list(pats))
    return z3.ForAll(vs, body)
def EX(vs, body):
    return z3.Exists(vs if isinstance(vs, (list, tuple)) else [vs], body)
def rng(x, lo, hi): return And(x >= lo, x < hi)
import fractions
def flt(x):
    f = fractions.Fraction(x); return z3.Q(f.numerator, f.denominator)
PI = flt(3.141592653589793238462643383279502884197)
HALFPI = flt(1.570796326794896619231321691639751442099)
def real(x): return z3.ToReal(x) if x.sort() == I else x
