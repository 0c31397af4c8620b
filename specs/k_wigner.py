"""C17: the generator of rotation matrix elements (levels/cxxsupport/wigner.cc)."""
from .base import *
from dv.models import EXP, LOG, SQRT, COS, SIN
U = ['levels/cxxsupport/wigner.cc']
SPECS = []
def S(name, params, key=None, **k):
    s = Spec(name, params, key=key or name, unit=U, **k); SPECS.append(s); return s
def iabs(e): return z3.If(e >= 0, e, -e)
def lo_(a, b): return z3.If(iabs(a) <= iabs(b), iabs(a), iabs(b))
def hi_(a, b): return z3.If(iabs(a) <= iabs(b), iabs(b), iabs(a))
NEVER = iv(-1234567890)
l_ = z3.Int('l_')
def sizes(c):
    N = c['this.lmax']
    return [N >= 1, N <= 100000000, c['this.flm1'].n == 2 * N + 1, c['this.flm2'].n == 2 * N + 1, c['this.xl'].n == N + 1, c['this.fx'].n == N + 2, c['this.logsum'].n == 2 * N + 1]
def FX(c, q): return lambda l: sel(c['this.fx'].a.d['.%d' % q], [l])
# the coefficients of the recurrence in the degree, from the orders
AR = z3.ArraySort(I, R)
XX = z3.Function('order_term', AR, I, I, R)           # order product, degree
f_ = z3.Const('f_', AR); a_, b_ = z3.Ints('a_ b_')
def prod4(f, l, a, b): return sel(f, [l + a]) * sel(f, [l - a]) * sel(f, [l + b]) * sel(f, [l - b])
HERE = z3.Function('here', I, B)                      # the degrees at which products are multiplied out
HERED = FA([l_], HERE(l_), HERE(l_))
XXD = FA([f_, a_, l_], XX(f_, a_, l_) == real(a_) * sel(f_, [l_]) * sel(f_, [l_ + 1]), XX(f_, a_, l_))
W0 = z3.Function('step_factor', AR, I, I, I, R)
W2 = z3.Function('step_back_factor', AR, AR, I, I, I, R)
g_ = z3.Const('g_', AR)
def w0(f, l, a, b): return real(l + 1) * real(2 * l + 1) * prod4(f, l, a, b)
def w2(f, g, l, a, b): return prod4(f, l, a, b) * real(l + 1) * sel(g, [l])
WDEF = [FA([f_, l_, a_, b_], Imp(HERE(l_), W0(f_, l_, a_, b_) == w0(f_, l_, a_, b_)), MP(W0(f_, l_, a_, b_), HERE(l_))),
        FA([f_, g_, l_, a_, b_], Imp(HERE(l_), W2(f_, g_, l_, a_, b_) == w2(f_, g_, l_, a_, b_)), MP(W2(f_, g_, l_, a_, b_), HERE(l_)))]
def tab(c, x): return c['this.' + x].a.d['']
def want(c, m1, m2, l, q):
    """coefficient q of the step from degree l to l+1"""
    if q == 1: return XX(tab(c, 'xl'), m1 * m2, l)
    lo, hi = lo_(m1, m2), hi_(m1, m2)
    return W0(tab(c, 'flm1'), l, lo, hi) if q == 0 else W2(tab(c, 'flm2'), tab(c, 'xl'), l, lo, hi)
def prep_lemmas(c):
    out = []
    x, y = c['m1_'], c['m2_']
    f1, f2, xl = tab(c, 'flm1'), tab(c, 'flm2'), tab(c, 'xl')
    for A in (x, -x):
        for Bq in (y, -y):
            for u, v in ((A, Bq), (Bq, A)):
                for l, r in ((W0(f1, l_, u, v), w0(f1, l_, x, y)), (W2(f2, xl, l_, u, v), w2(f2, xl, l_, x, y))):
                    out.append(Fact('product of the factors does not depend on signs and order', FA([l_], Imp(HERE(l_), l == r), MP(l, HERE(l_))), only=WDEF))
    xl = tab(c, 'xl')
    out.append(Fact('order term is odd', FA([a_, l_], XX(xl, -a_, l_) == -XX(xl, a_, l_), XX(xl, a_, l_)), only=[XXD]))
    p, w = c['this.m1'] * c['this.m2'], x * y
    sim = And(hi_(c['this.m1'], c['this.m2']) == hi_(x, y), lo_(c['this.m1'], c['this.m2']) == lo_(x, y))
    out.append(Fact('product of the orders up to sign', Imp(sim, Or(p == w, p == -w)), only=[]))
    return out
def power(c, m1, m2):
    """powers of cos and sin of the half angle and the sign of the element of the lowest degree"""
    hi = hi_(m1, m2)
    first = iabs(m1) == hi
    cp = z3.If(first, z3.If(m1 >= 0, hi + m2, hi - m2), z3.If(m2 < 0, hi - m1, hi + m1))
    neg = z3.If(first, And(m1 >= 0, (hi - m2) % 2 == 1), And(m2 < 0, (hi + m1) % 2 == 1))
    return cp, 2 * hi - cp, neg
def prepared(c, m1, m2):
    hi, lo = hi_(m1, m2), lo_(m1, m2)
    ls = c['this.logsum']
    cp, sp, neg = power(c, m1, m2)
    out = [('orders', And(c['this.m1'] == m1, c['this.m2'] == m2, c['this.am1'] == iabs(m1), c['this.am2'] == iabs(m2), c['this.mlo'] == lo, c['this.mhi'] == hi))]
    for q in range(3):
        out.append(('coefficient %d' % q, FA([l_], Imp(rng(l_, hi, c['this.lmax']), FX(c, q)(l_ + 1) == want(c, m1, m2, l_, q)), FX(c, q)(l_ + 1))))
    out.append(('normalisation', c['this.prefactor'] == (ls[2 * hi] - ls[hi + lo] - ls[hi - lo]) / 2))
    out.append(('powers and sign', And(c['this.cosPow'] == cp, c['this.sinPow'] == sp, c['this.preMinus'] == neg)))
    return out
def legal(c, m1, m2): return And(iabs(m1) <= c['this.lmax'], iabs(m2) <= c['this.lmax'])
def state(c):
    """either never prepared, or prepared for its orders"""
    m1, m2 = c['this.m1'], c['this.m2']
    never = And(*[c['this.' + x] == NEVER for x in ('m1', 'm2', 'am1', 'am2', 'mlo', 'mhi')])
    return Or(never, And(legal(c, m1, m2), *[f for _, f in prepared(c, m1, m2)]))
def flip_inv(L):
    P, Q = FX(L.before, 1), FX(L, 1)
    v = L['l']
    return [v >= L['this.mhi'], FA([l_], Imp(rng(l_, L['this.mhi'], v), Q(l_ + 1) == -P(l_ + 1)), Q(l_ + 1)), FA([l_], Imp(l_ >= v, Q(l_ + 1) == P(l_ + 1)), Q(l_ + 1))]
def fill_inv(L):
    v = L['l']
    return [v >= L['this.mhi']] + [('coefficient %d' % q, FA([l_], Imp(rng(l_, L['this.mhi'], v), FX(L, q)(l_ + 1) == want(L, L['m1_'], L['m2_'], l_, q)), FX(L, q)(l_ + 1))) for q in range(3)]
def fill_end(L):
    v = L['l'] - 1; x, y = L['m1_'], L['m2_']
    out = []
    for q in (0, 2):
        w = w0(tab(L, 'flm1'), v, x, y) if q == 0 else w2(tab(L, 'flm2'), tab(L, 'xl'), v, x, y)
        out.append(('coefficient %d, factors' % q, FX(L, q)(v + 1) == w))
        out.append(('coefficient %d, earlier degrees' % q, FA([l_], Imp(rng(l_, L['this.mhi'], v), FX(L, q)(l_ + 1) == FX(L.start, q)(l_ + 1)), FX(L, q)(l_ + 1))))
        out.append(('coefficient %d of this degree' % q, And(HERE(v), FX(L, q)(v + 1) == want(L, x, y, v, q))))
    return out
PREP = S('wignergen_scalar::prepare', ['m1_', 'm2_'], key='wignergen_scalar::prepare generator', modifies=['this.' + x for x in ('m1', 'm2', 'am1', 'am2', 'mlo', 'mhi', 'cosPow', 'sinPow', 'prefactor', 'fx', 'preMinus')],
  requires=lambda c: sizes(c) + [legal(c, c['m1_'], c['m2_']), state(c)], ensures=lambda c: prepared(c, c['m1_'], c['m2_']) + sizes(c),
  axioms=lambda c: [XXD, HERED] + WDEF, lemmas=prep_lemmas, loops={0: Loop(inv=flip_inv), 1: Loop(inv=fill_inv, at_end=fill_end)}, nloops=2)
# ---- the elements at one angle
LE2, MINS = 90, -4
D = z3.Function('element', I, R)                       # the elements at this angle, by the recurrence from the lowest degree
SC = z3.Function('scale', I, R)                        # 2^(90 (s-4))
x_ = z3.Real('x_'); s_, j_ = z3.Ints('s_ j_')
def LV_(c):
    """binary logarithm of the size of the element of the lowest degree"""
    return (c['this.prefactor'] + c['this.lc05'][c['nth']] * real(c['this.cosPow']) + c['this.ls05'][c['nth']] * real(c['this.sinPow'])) * flt(1.4426950408889634)
NX = z3.Function('next_element', I, R, R, R)           # degree, the element before it, the one before that
GO = z3.Function('multiply_out', I, R, R, B)
u_, v_ = z3.Reals('u_ v_')
def nx(c, l, u, v):
    F = [FX(c, q) for q in range(3)]
    return (c['this.costh'][c['nth']] - F[1](l)) * F[0](l) * u - F[2](l) * v
def calc_defs(c):
    hi = c['this.mhi']
    neg = c['this.preMinus'] != And(c['this.thetaflip'][c['nth']], (c['this.am1'] + c['this.am2']) % 2 == 1)
    start = EXP(z3.simplify(flt(0.6931471805599453) * LV_(c), som=True))
    return [D(hi - 1) == 0, D(hi) == z3.If(neg, -start, start), FA([l_], Imp(And(l_ > hi, l_ <= c['this.lmax']), D(l_) == NX(l_, D(l_ - 1), D(l_ - 2))), D(l_)),
        nxd(c), GOD]
GOD = FA([l_, u_, v_], GO(l_, u_, v_), GO(l_, u_, v_))
def nxd(c): return FA([l_, u_, v_], Imp(GO(l_, u_, v_), NX(l_, u_, v_) == nx(c, l_, u_, v_)), MP(NX(l_, u_, v_), GO(l_, u_, v_)))
def calc_req(c):
    N = c['this.lmax']
    return sizes(c) + [legal(c, c['this.m1'], c['this.m2'])] + [f for _, f in prepared(c, c['this.m1'], c['this.m2'])] + [c['resx'].n == N + 1] + [rng(c['nth'], 0, c['this.' + x].n) for x in ('costh', 'lc05', 'ls05', 'thetaflip')] + [
        c['this.cf'].n == 19, FA([s_], Imp(rng(s_, 0, 19), c['this.cf'][s_] == SC(s_)), c['this.cf'][s_]), c['this.fbig'] > 1, c['this.fsmall'] * c['this.fbig'] == 1, c['this.eps'] >= 0,
        FA([s_], And(SC(s_) > 0, SC(s_ + 1) == SC(s_) * c['this.fbig']), SC(s_))]
def calc_math(c):
    """facts about the exponential and the elements (at most 1 in size)"""
    return [SC(iv(4)) == 1, FA([l_], Imp(And(l_ >= c['this.mhi'], l_ <= c['this.lmax']), And(D(l_) <= 1, D(l_) >= -1)), D(l_)), LV_(c) <= 0]
def rel(L): return And(L['rec2'] * SC(L['scale']) == D(L['l']), L['rec1'] * SC(L['scale']) == D(L['l'] - 1))
def c0(L): return [L['l'] >= L['this.mhi'], L['l'] <= L['this.lmax'] + 1, L['scale'] <= 18, Imp(L['l'] > L['this.lmax'], L['scale'] < 0), Imp(L['l'] <= L['this.lmax'], rel(L))]
def c1(L): return [L['scale'] <= 18, rel(L)]
def here(L): return And(L['rec2'] == D(L['l']), L['rec1'] == D(L['l'] - 1))
def c2(L): return [L['l'] >= L.before['l'], L['l'] <= L['this.lmax'], here(L)]
def done(L): return FA([j_], Imp(And(j_ >= L['firstl'], j_ <= L['l']), L['resx'][j_] == D(j_)), L['resx'][j_])
def c3(L): return [L['l'] >= L['firstl'], L['l'] <= L['this.lmax'], here(L), done(L)]
def mentions(f, x):
    seen, todo = set(), [f]
    while todo:
        e = todo.pop()
        if e.eq(x): return True
        if e.get_id() not in seen: seen.add(e.get_id()); todo += e.children()
    return False
def named(L, x):
    """the equation that gave the variable its value (possibly made under a condition)"""
    eqs = [f for f in L.st.facts if z3.is_eq(f) and f.arg(0).eq(x)]
    return (eqs or [f for f in L.st.facts if mentions(f, x)])[-1:]
def step(name, L, x, l, u, v):
    e = x == NX(l, u, v)
    return ('%s is the next element' % name, And(GO(l, u, v), e), named(L, x) + [nxd(L.E.calc_c), GOD], [e])
def two_end(L):
    h = L.start; l = h['l']
    return [step('the first', L, L['rec1'], l + 1, h['rec2'], h['rec1']), step('the second', L, L['rec2'], l + 2, L['rec1'], h['rec2']),
        ('first is the element', L['rec1'] == D(l + 1)), ('second is the element', L['rec2'] == D(l + 2))]
def c0_defs(L):
    if L.phase != 'init': return []
    c = L.E.calc_c
    return [EXP(z3.simplify(flt(0.6931471805599453) * (LV_(c) - real(L['scale'] + MINS) * 90), som=True)) * SC(L['scale']) == EXP(z3.simplify(flt(0.6931471805599453) * LV_(c), som=True))]
def head0(L):
    L.E.ghost['h0'] = dict(r1=L['rec1'], r2=L['rec2'], S=SC(L['scale']))
    return []
def c1_begin(L):
    if L.E.quiet or 'h0' not in L.E.ghost: return []
    h = L.E.ghost['h0']; l = L['l']; r1, r2, S_ = h['r1'], h['r2'], h['S']
    def sc(l, u, v):
        e = NX(l, u * S_, v * S_) == NX(l, u, v) * S_
        return ('scaled', And(GO(l, u * S_, v * S_), GO(l, u, v), e), [nxd(L.E.calc_c), GOD], [e])
    out = []
    for nm, x, ll, u, v in (('first', L['rec1'], l - 1, r2, r1), ('second', L['rec2'], l, L['rec1'], r2)):
        e1, e2, e3 = step(nm, L, x, ll, u, v), sc(ll, u, v), D(ll) == NX(ll, u * S_, v * S_)
        out += [e1, e2, (nm + ' from the elements before', e3), (nm + ' is the element', x * S_ == D(ll), e1[3] + e2[3] + [e3])]
    return out
def c1_end(L):
    h = L.start; S_ = SC(h['scale']); r = h['rec2']
    return [('size', And(r * S_ <= 1, r * S_ >= -1)), ('larger', Or(r * S_ > L['this.fbig'] * S_, -r * S_ > L['this.fbig'] * S_)), ('below one', SC(h['scale'] + 1) < 1)]
def head(k):
    def f(L):
        L.E.ghost[k] = dict(r1=L['rec1'], r2=L['rec2'], l=L['l'])
        return []
    return f
def one_more(name, L, x, l, u, v, g=None):
    """x is the next element: steps"""
    st = step(name, L, x, l, u, v)
    return [st, (name + ' from the elements before', D(l) == NX(l, u, v)), (name + ' is the element', x == D(l))]
def c2_after(L):
    h = L.E.ghost.get('h2')
    if L.E.quiet or h is None: return []
    out = [] if L['rec1'].eq(h['r1']) else one_more('after the break', L, L['rec2'], L['l'], L['rec1'], h['r1'])
    return out + [('elements', here(L))]
def c3_begin(L):
    if L.E.quiet: return []
    x1, x2, l = L['rec1'], L['rec2'], L['l']
    if not (z3.is_app_of(x2, z3.Z3_OP_ITE) and z3.is_app_of(x1, z3.Z3_OP_ITE) and x1.arg(0).eq(x2.arg(0))): return []
    cnd, X, E2, E1 = x2.arg(0), x2.arg(1), x2.arg(2), x1.arg(2)
    e = Imp(cnd, X == NX(l, E2, E1))
    return [('degree', Imp(cnd, And(E2 == D(l - 1), E1 == D(l - 2), l <= L['this.lmax'], l > L['this.mhi']))),
        ('one more', And(GO(l, E2, E1), e), named(L, X) + [nxd(L.E.calc_c), GOD], [e]),
        ('from the elements before', Imp(cnd, D(l) == NX(l, E2, E1))), ('the last one', Imp(cnd, x2 == D(l))), ('the last two', here(L))]
def c4_after(L):
    h = L.E.ghost.get('h4')
    if L.E.quiet or h is None or L['rec1'].eq(h['r1']): return []
    return one_more('the last', L, L['rec1'], h['l'] + 1, h['r2'], h['r1'])
def calc_lemmas(c):
    c.E.calc_c = c
    M = z3.Int('M')
    return [Induct('scales from the fourth on are at least one', M, SC(M) >= 1, lo=4, pats=[SC(M)])]
CALC = S('wignergen_scalar::calc', ['nth', 'firstl', 'resx'], key='wignergen_scalar::calc generator', nargs=3, opts=dict(name_assign=True), modifies=['firstl', 'resx'], keep_dims=['resx'], requires=lambda c: calc_req(c) + calc_math(c), axioms=lambda c: calc_defs(c), lemmas=calc_lemmas,
  ensures=lambda c: [('first element', And(c['firstl'] >= c['this.mhi'], c['firstl'] <= c['this.lmax'] + 1)),
     ('elements from the first on', FA([j_], Imp(And(j_ >= c['firstl'], j_ <= c['this.lmax']), c['resx'][j_] == D(j_)), c['resx'][j_]))],
  loops={0: Loop(inv=c0, defs=c0_defs, body_hints=head0), 1: Loop(inv=c1, at_begin=c1_begin, at_end=c1_end), 2: Loop(inv=c2, at_end=two_end, body_hints=head('h2'), after=c2_after), 3: Loop(inv=c3, at_begin=c3_begin, at_end=two_end), 4: Loop(inv=c3, body_hints=head('h4'), after=c4_after)}, nloops=5)
# ---- the tables, and the angles
TWO = z3.Function('two_to_the', I, R)
LF = z3.Function('log_factorial', I, R)
ii = z3.Int('ii')
MODELS = {}
def m_ldexp(E, st, n, this, args):
    """ldexp: the argument times a power of two"""
    from dv.models import val
    return coerce(val(E, args[0], st), R) * TWO(z3.simplify(coerce(val(E, args[1], st), I), som=True))
MODELS['ldexp'] = m_ldexp
def two_defs(c):
    return [TWO(iv(0)) == 1, LF(iv(0)) == 0, FA([ii, l_], Imp(And(l_ >= 1, l_ == ii + 1), LF(l_) == LF(ii) + LOG(real(l_))), MP(LF(ii), LF(l_)))]
def t_log(L, n): return FA([ii], Imp(rng(ii, 0, n), L['this.logsum'][ii] == LF(ii)), L['this.logsum'][ii])
def t_flm(L, n):
    f, g = L['this.flm1'], L['this.flm2']
    return [('first factor', FA([ii], Imp(rng(ii, 0, n), And(f[ii] >= 0, f[ii] * f[ii] == 1 / (real(ii) + 1))), f[ii])), ('second factor', FA([ii], Imp(rng(ii, 0, n), And(g[ii] >= 0, g[ii] * g[ii] == real(ii) / (real(ii) + 1))), g[ii]))]
def t_cf(L, n): return FA([ii], Imp(rng(ii, 0, n), L['this.cf'][ii] == TWO((ii - 4) * 90)), L['this.cf'][ii])
def t_xl(L, n): return FA([ii], Imp(rng(ii, 1, n), L['this.xl'][ii] == 1 / real(ii)), L['this.xl'][ii])
def t_ang(L, n):
    t = L['thetas'][ii]; co, lc, ls, fl = (L['this.' + x] for x in ('costh', 'lc05', 'ls05', 'thetaflip'))
    def at(x): return And(co[ii] == COS(x), lc[ii] == LOG(COS(x / 2)), ls[ii] == LOG(SIN(x / 2)))
    ps = (co[ii], lc[ii], ls[ii], fl[ii])
    return [('angles of the upper half', FA([ii], Imp(And(rng(ii, 0, n), t > 0, t < PI - flt(1e-15)), And(Not(fl[ii]), at(t))), *ps)),
            ('negative angles', FA([ii], Imp(And(rng(ii, 0, n), t < 0, t > -PI + flt(1e-15)), And(fl[ii], at(-t))), *ps)),
            ('poles', FA([ii], Imp(And(rng(ii, 0, n), Or(t == 0, t == PI)), Not(fl[ii])), *ps))]
def ang_end(L):
    i0 = L['i'] - 1; t, x, fl = L['thetas'][i0], L['theta'], L['this.thetaflip'][i0]
    tp, e = 2 * PI, flt(1e-15)
    names = ('costh', 'lc05', 'ls05', 'thetaflip')
    out = [('earlier angles', FA([ii], Imp(rng(ii, 0, i0), L['this.' + z][ii] == L.start['this.' + z][ii]), L['this.' + z][ii])) for z in names]
    for nm, cnd, y, f in (('upper half', And(t > 0, t < PI - e), t, False), ('negative', And(t < 0, t > -PI + e), -t, True), ('north pole', t == 0, None, False), ('south pole', t == PI, None, False)):
        if y is not None:
            out.append(('angle, ' + nm, Imp(cnd, x == y)))
            here_ = [Imp(cnd, x == y)]
            out.append(('cosine, ' + nm, Imp(cnd, L['this.costh'][i0] == COS(y)), here_))
            for z, F in (('lc05', COS), ('ls05', SIN)): out.append(('logarithm %s, ' % z + nm, Imp(cnd, L['this.' + z][i0] == LOG(F(y / 2))), here_))
        out.append(('flip, ' + nm, Imp(cnd, fl == z3.BoolVal(f))))
    return out
CTOR = S('wignergen_scalar::wignergen_scalar', ['lmax_', 'thetas', 'epsilon'], key='wignergen_scalar::wignergen_scalar generator', nargs=3, modifies=['this.*'], opts=dict(inline_self=True, name_assign=True), requires=lambda c: [c['lmax_'] <= 100000000, rng(c['thetas'].n, 0, 2**31)],
  throws_ok=lambda w: 'alloc' in w, exsures=lambda c: [('only without degrees', c['lmax_'] <= 0)], axioms=two_defs,
  ensures=lambda c: sizes(c) + [('limits', And(c['this.lmax'] == c['lmax_'], c['this.eps'] == c['epsilon'], c['this.fbig'] == TWO(iv(90)), c['this.fsmall'] == TWO(iv(-90)))),
     ('logarithms of factorials', t_log(c, 2 * c['this.lmax'] + 1))] + t_flm(c, 2 * c['this.lmax'] + 1) + [('scales', t_cf(c, 19)), ('reciprocals', t_xl(c, c['this.lmax'] + 1))] + t_ang(c, c['thetas'].n) + [state(c)],
  loops={0: Loop(inv=lambda L: [t_log(L, L['m']), L['m'] >= 1]), 1: Loop(inv=lambda L: t_flm(L, L['lm'])), 2: Loop(inv=lambda L: [t_cf(L, L['i'])]), 3: Loop(inv=lambda L: t_ang(L, L['i']), at_end=ang_end), 4: Loop(inv=lambda L: [t_xl(L, L['l']), L['l'] >= 1]), 5: Loop(inv=lambda L: [L['l'] >= 0])}, nloops=6)
PROPS = dict(C17=[PREP.key, CALC.key, CTOR.key])
