"""Index and range helpers."""
from .base import *
U = ['inst/helpers.cpp']
SPECS = []
def S(name, params, key=None, **k):
    s = Spec(name, params, key=key or name, unit=U, **k); SPECS.append(s); return s

# ---- shares of a range
def share(c, s):
    w = c['ghi'] - c['glo']
    Q, r = w / c['nshares'], w % c['nshares']
    return c['glo'] + s * Q + z3.If(s < r, s, r)
S('calcShareGeneral', ['glo', 'ghi', 'nshares', 'myshare', 'lo', 'hi'], modifies=['lo', 'hi'],
    requires=lambda c: [c['nshares'] >= 1, c['ghi'] >= c['glo'], c['myshare'] >= 0, c['myshare'] < c['nshares']],
    ensures=lambda c: [('starts at its share boundary', c['lo'] == share(c, c['myshare'])), ('ends where the next share starts', c['hi'] == share(c, c['myshare'] + 1)),
        ('first share starts the range', share(c, iv(0)) == c['glo']), ('last share ends the range', share(c, c['nshares']) == c['ghi']),
        ('nearly equal', And(c['hi'] - c['lo'] >= (c['ghi'] - c['glo']) / c['nshares'], c['hi'] - c['lo'] <= (c['ghi'] - c['glo']) / c['nshares'] + 1)),
        ('inside the range', And(c['lo'] >= c['glo'], c['hi'] >= c['lo'], c['hi'] <= c['ghi']))])
S('chunkMaker::nchunks', [], requires=lambda c: [c['this.s_full'] >= 1, c['this.s_chunk'] >= 1],
    ensures=lambda c: [('chunks cover the range', And(c.res * c['this.s_chunk'] >= c['this.s_full'], (c.res - 1) * c['this.s_chunk'] < c['this.s_full']))])
S('chunkMaker::getNext', ['start', 'size'], modifies=['start', 'size', 'this.offset'], requires=lambda c: [c['this.s_full'] >= 0, c['this.s_chunk'] >= 1, c['this.offset'] >= 0],
    ensures=lambda c: [('finished exactly at the end', c.res == (c.old['this.offset'] < c['this.s_full'])),
        ('next chunk', Imp(c.res, And(c['start'] == c.old['this.offset'], c['size'] >= 1, c['size'] <= c['this.s_chunk'], c['start'] + c['size'] <= c['this.s_full'],
            Or(c['this.offset'] == c['start'] + c['size'], And(c['start'] + c['size'] == c['this.s_full'], c['this.offset'] >= c['this.s_full']))))),
        ('nothing changes at the end', Imp(Not(c.res), And(c['this.offset'] == c.old['this.offset'], c['start'] == c.old['start'], c['size'] == c.old['size'])))])

from dv.models import FMODQ
def quots(c):
    w = FMODQ(c.old['v1'], c.old['v2'])
    return [iv(0), w, w - 1, w + 1, z3.ToInt(c.old['v1'] / c.old['v2'])]

def iquots(c):
    a, b = c.old['v1'], c.old['v2']
    return [iv(0), iv(1), iv(-1), a / b, -((-a) / b), -((-a) / b) - 1, -((-a) / b) + 1]
# ---- modulo, sign, power of minus one
for t in ('int', 'long'):
    S('imodulo', ['v1', 'v2'], key='imodulo<%s>' % t, type='%s (%s, %s)' % (t, t, t), requires=lambda c: [c['v2'] > 0],
      ensures=lambda c: [('in range', And(c.res >= 0, c.res < c['v2'])), ('same residue', Or(*[c.res == c.old['v1'] - c.old['v2'] * x for x in iquots(c)]))])
FMD = z3.Function('fmodulo', R, R, R)
fx, fy, fr = z3.Reals('fx fy fr')
FMDEF = FA([fx, fy], Imp(fy > 0, FMD(fx, fy) == fx - fy * z3.ToReal(z3.ToInt(fx / fy))), FMD(fx, fy))
CAND = z3.Function('candidate quotient', I, I)      # identity; only steers instantiation
CANDEF = FA([k], CAND(k) == k, CAND(k))
FMUNIQ = FA([fx, fy, k], Imp(And(fy > 0, fx - fy * z3.ToReal(k) >= 0, fx - fy * z3.ToReal(k) < fy), k == z3.ToInt(fx / fy)))
FMK = FA([fx, fy, k], Imp(And(fy > 0, fx - fy * z3.ToReal(CAND(k)) >= 0, fx - fy * z3.ToReal(CAND(k)) < fy), FMD(fx, fy) == fx - fy * z3.ToReal(CAND(k))), MP(FMD(fx, fy), CAND(k)))
def fm_cases(c):
    return [Imp(And(c['v2'] > 0, c['v1'] - c['v2'] * z3.ToReal(CAND(x)) >= 0, c['v1'] - c['v2'] * z3.ToReal(CAND(x)) < c['v2']), FMD(c['v1'], c['v2']) == c['v1'] - c['v2'] * z3.ToReal(CAND(x))) for x in quots(c)]
S('fmodulo', ['v1', 'v2'], key='fmodulo', requires=lambda c: [c['v2'] > 0], axioms=lambda c: [FMDEF, CANDEF],
  lemmas=lambda c: [Fact('the quotient is unique', FMUNIQ, only=[])] + [Fact('remainder of a candidate', FMK, only=['the quotient is unique', FMDEF, CANDEF])]
    + [x for z, f in enumerate(fm_cases(c)) for x in (Fact('candidate %d' % z, f, only=['remainder of a candidate']), Fact('quotient %d' % z, CAND(quots(c)[z]) == quots(c)[z], only=[CANDEF]))],
  ensures=lambda c: [('in range', And(c.res >= 0, c.res < c['v2'])), ('same residue', Or(*[c['v1'] - c.res == z3.ToReal(x) * c['v2'] for x in quots(c)])),
     ('remainder', c.res == FMD(c['v1'], c['v2']))])
S('fmodulo', ['v1', 'v2'], key='fmodulo<double>', opts={'fp': True}, requires=lambda c: [c['v2'] > 0],
  ensures=lambda c: [('in range, also after rounding', And(c.res >= 0, c.res < c['v2']))])
S('sign', ['signvalue'], key='sign<int>', type='int (const int &)', ensures=lambda c: [('sign', c.res == z3.If(c['signvalue'] < 0, -1, 1))])
S('sign', ['signvalue'], key='sign<double>', type='double (const double &)', ensures=lambda c: [('sign', c.res == z3.If(c['signvalue'] < 0, rv(-1), rv(1)))])
for a, b in (('double', 'int'), ('double', 'long'), ('int', 'int')):
    S('xpow', ['m', 'val'], key='xpow<%s,%s>' % (a, b), type='%s (%s, %s)' % (a, b, a), ensures=lambda c: [('sign of the power', c.res == z3.If(c['m'] % 2 == 0, c['val'], -c['val']))])

# ---- square root and logarithm
for t, nm in (('int', 'isqrt_helper__<int, 0>'), ('long', 'isqrt_helper__<long, -1>'), ('unsigned long', 'isqrt_helper__<unsigned long, -1>')):
    S('isqrt', ['arg'], key='isqrt<%s>' % t, callable=True, type='uint32 (%s)' % t, opts={'fp': True, 'ranges': True, 'casts': False}, requires=lambda c: [c['arg'] >= 0],
      ensures=lambda c: [('largest whole number whose square fits', And(c.res >= 0, c.res * c.res <= c['arg'], c['arg'] < (c.res + 1) * (c.res + 1)))])
for t, bits in (('int', 31), ('long', 63), ('unsigned int', 32), ('unsigned long', 64)):
    def ens(c, bits=bits): return [('2^res <= arg < 2^(res+1)', Or(*[And(c.res == r, c['arg'] >= 2**r, c['arg'] < 2**(r + 1)) for r in range(bits)]))]
    def pre(L, bits=bits): return [('shifted', Or(*[And(L['res'] == r, L['arg'] == L.old['arg'] / 2**r) for r in range(0, bits, 16)])), ('left', L['arg'] >= 1)]
    S('ilog2', ['arg'], key='ilog2<%s>' % t, type='int (%s)' % t, opts={'ranges': True, 'unroll': 0}, modifies=['arg'], requires=lambda c: [c['arg'] >= 1],
      ensures=lambda c, ens=ens: [(a, z3.substitute(b)) if False else (a, b) for a, b in ens(OldArg(c))], loops={0: Loop(inv=pre, variant=lambda L: L['arg'])}, nloops=1)
class OldArg:
    """postconditions speak about the argument as it was passed"""
    def __init__(self, c): self.c = c
    def __getitem__(self, k): return self.c.old[k]
    @property
    def res(self): return self.c.res

# ---- checked conversions
LIM = {'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1)}
for a in ('int', 'unsigned int'):
    for b in ('long', 'unsigned long'):
        lo, hi = LIM[a]
        S('safe_cast', ['arg'], key='safe_cast<%s,%s>' % (a, b), type='%s (const %s &)' % (a, b), opts={'wrap': True, 'ranges': True},
          ensures=lambda c, lo=lo, hi=hi: [('value kept', c.res == c['arg']), ('accepted only if representable', And(c['arg'] >= lo, c['arg'] <= hi))],
          exsures=lambda c, lo=lo, hi=hi: [('refused only if not representable', Or(c['arg'] < lo, c['arg'] > hi))])
PROPS = dict(C20=[s.key for s in SPECS])
