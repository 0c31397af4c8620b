"""Sorting of the samples."""
from .base import *

def perm(c):
    """the permutation a sort applied: from std::sort while the body is verified, arbitrary at a call"""
    if c.E.cur_spec is not None and c.E.cur_spec.name in NAMES and c.E.cur_spec is c.spec_ and c.E.ghost.get('perm'):
        return c.E.ghost['perm'][-1]
    t = next(EN_ctr)
    p = z3.Function('prm!%d' % t, I, I), z3.Function('prminv!%d' % t, I, I)
    c.E.ghost['perm'] = c.E.ghost.get('perm', []) + [p]
    return p
import itertools
EN_ctr = itertools.count()
NAMES = set()

def is_perm(P, Q, n):
    return [('a permutation of the rows', And(FA([k], Imp(rng(k, 0, n), And(rng(P(k), 0, n), Q(P(k)) == k)), P(k)), FA([k], Imp(rng(k, 0, n), And(rng(Q(k), 0, n), P(Q(k)) == k)), Q(k))))]

def pair_sort(name, tmp):
    S = None
    def req(c): return [c['ra'].n < 2**62]
    def ens(c):
        c.spec_ = S
        P, Q = perm(c)
        n = c.old['ra'].n
        ra, rb, oa, ob = c['ra'], c['brr'], c.old['ra'], c.old['brr']
        return [('sizes', And(ra.n == n, rb.n == n, ob.n == n))] + is_perm(P, Q, n) + [
            ('keys in order', FA([j, k], Imp(And(j >= 0, j < k, k < n), ra[j] <= ra[k]), MP(ra[j], ra[k]))),
            ('every key keeps its companion', FA([k], Imp(rng(k, 0, n), And(ra[k] == oa[P(k)], rb[k] == ob[P(k)])), ra[k]))]
    def inv_pairs(L):
        a = L['pairs']
        return [('pairs', FA([k], Imp(rng(k, 0, L['i']), And(a[k]['first'] == L.old['ra'][k], a[k]['second'] == k)), a[k]['first']))]
    if name == 'hpsort_DL':
        loops = {0: Loop(inv=inv_pairs),
            1: Loop(inv=lambda L: [('keys', FA([k], Imp(rng(k, 0, L['i']), L['ra'][k] == L['pairs'][k]['first']), L['ra'][k]))]),
            2: Loop(inv=lambda L: [('companions', FA([k], Imp(rng(k, 0, L['i']), L['temp'][k] == L['brr'][L['pairs'][k]['second']]), L['temp'][k]))])}
    else:
        loops = {0: Loop(inv=inv_pairs),
            1: Loop(inv=lambda L: [('companions', FA([k], Imp(rng(k, 0, L['i']), L['ra'][k] == L['brr'][L['pairs'][k]['second']]), L['ra'][k]))]),
            2: Loop(inv=lambda L: [('keys', FA([k], Imp(rng(k, 0, L['i']), L['ra'][k] == L['pairs'][k]['first']), L['ra'][k]))])}
    S = Spec(name, ['ra', 'brr'], unit=['src/conviqt_util.cpp'], modifies=['ra', 'brr'], requires=req, ensures=ens,
        exsures=lambda c: [('refused only for different sizes, untouched', And(c['ra'].n != c['brr'].n, same_arr(c['ra'], c.old['ra']), same_arr(c['brr'], c.old['brr'])))],
        modifies_throw=[], loops=loops, nloops=3)
    NAMES.add(name)
    return S

def same_arr(a, b):
    return And(a.n == b.n, FA([k], Imp(rng(k, 0, a.n), a[k] == b[k])))

DL, DD = pair_sort('hpsort_DL', 'temp'), pair_sort('hpsort_DDcm', 'ra')

def rows_ens(col):
    def ens(c):
        c.spec_ = None
        for s in (ARR,) + tuple(COLS.values()):
            if c.E.cur_spec is s: c.spec_ = s
        P, Q = perm(c)
        n = z3.ToInt(z3.ToReal(c.old['ra'].n) / 5) if False else c.old['ra'].n / 5
        sc = c['sortcol'] if col is None else iv(col)
        a, o = c['ra'], c.old['ra']
        return [('size', a.n == o.n)] + is_perm(P, Q, n) + [
            ('rows in order', And(*[Imp(sc == r, FA([j, k], Imp(And(j >= 0, j < k, k < n, P(j) >= 0, P(k) >= 0), a[5 * j + r] <= a[5 * k + r]), MP(P(j), P(k)))) for r in ([col] if col is not None else range(5))])),
            ('rows move whole', FA([k], Imp(rng(k, 0, n), And(*[a[5 * k + r] == o[5 * P(k) + r] for r in range(5)])), P(k))),
            ('the rest stays', FA([k], Imp(And(k >= 5 * n, k < a.n), a[k] == o[k])))]
    return ens
def arr_inv0(L):
    a = L['pairs']
    return [('pairs', FA([k], Imp(rng(k, 0, L['i']), And(a[k]['first'] == L['ra'][5 * k + L['sortcol']], a[k]['second'] == k)), a[k]['first']))]
def cols(L, upto, extra=None):
    """columns below `upto` are sorted, the others still as given"""
    p, a, o, N = L['pairs'], L['ra'], L.old['ra'], L['n']
    out = [('size', a.n == o.n), ('rest', FA([k], Imp(And(k >= 5 * N, k < a.n), a[k] == o[k])))]
    for r in range(5):
        out.append(('column %d' % r, FA([k], Imp(rng(k, 0, N), a[5 * k + r] == z3.If(r < upto, o[5 * p[k]['second'] + r], o[5 * k + r])), p[k]['second'])))
    return out
def col_write(L):
    p, a, o, N, cc, ii = L['pairs'], L['ra'], L.old['ra'], L['n'], L['col'], L['i']
    out = [('size', a.n == o.n), ('rest', FA([k], Imp(And(k >= 5 * N, k < a.n), a[k] == o[k])))]
    for r in range(5):
        out.append(('column %d' % r, FA([k], Imp(rng(k, 0, N), a[5 * k + r] == z3.If(Or(r < cc, And(r == cc, k < ii)), o[5 * p[k]['second'] + r], o[5 * k + r])), p[k]['second'])))
    return out
ARR = Spec('hpsort_arr', ['ra', 'sortcol'], unit=['src/conviqt_util.cpp'], modifies=['ra'], modifies_throw=[],
    ensures=lambda c: rows_ens(None)(c),
    exsures=lambda c: [('refused only for a column that does not exist, untouched', And(Or(c['sortcol'] < 0, c['sortcol'] > 4), same_arr(c['ra'], c.old['ra'])))],
    loops={0: Loop(inv=arr_inv0), 1: Loop(inv=lambda L: [('col', And(L['col'] >= 0, L['col'] <= 5))] + cols(L, L['col'])),
           2: Loop(inv=col_write),
           3: Loop(inv=lambda L: cols(L, L['col']) + [('work', FA([k], Imp(rng(k, 0, L['i']), L['temp'][k] == L['ra'][5 * L['pairs'][k]['second'] + L['col']]), L['temp'][k]))]),
           4: Loop(inv=col_write)}, nloops=5)
NAMES.update(['hpsort_arr', 'hpsort_arrTheta', 'hpsort_arrTOD', 'hpsort_arrTime'])
# ---------------------------------------------------------------- how many co-latitudes lie below a bound
A1 = z3.ArraySort(I, R); AF = z3.ArraySort(I, I)
CB = z3.Function('count_below', A1, R, I, I)          # rows among the first i whose co-latitude is below x
NTHB = z3.Function('nth_below', A1, R, I, I)          # the t-th of them
aa_, bb_ = z3.Const('aa_', A1), z3.Const('bb_', A1); xx_ = z3.Real('xx_'); ff_ = z3.Const('ff_', AF); nn_, pp_, tt_ = z3.Ints('nn_ pp_ tt_')
COL1 = z3.Function('colatitude_of_row', A1, I, R)
COLD = FA([aa_, i], COL1(aa_, i) == sel(aa_, [5 * i + 1]), COL1(aa_, i), sel(aa_, [5 * i + 1]))
def below(a, x, i): return COL1(a, i) < x
CBD = [FA([aa_, xx_], CB(aa_, xx_, iv(0)) == 0, CB(aa_, xx_, iv(0))),
       FA([aa_, xx_, i], Imp(i >= 0, CB(aa_, xx_, i + 1) == CB(aa_, xx_, i) + z3.If(below(aa_, xx_, i), 1, 0)), CB(aa_, xx_, i + 1))]
BELOW = z3.Function('is_below', A1, R, I, B)
NTHD = FA([aa_, xx_, i], Imp(And(i >= 0, below(aa_, xx_, i)), NTHB(aa_, xx_, CB(aa_, xx_, i)) == i), CB(aa_, xx_, i))
INJ = z3.Function('injective', AF, I, I, B); WI = z3.Function('inj_witness', AF, I, I, I); WJ = z3.Function('inj_witness2', AF, I, I, I)
TRG, TRG0 = z3.Function('try', AF, I, I, B), z3.Function('try0', AF, I, I, B)      # true everywhere
_f, _w, _v = [ff_, nn_, pp_], WI(ff_, nn_, pp_), WJ(ff_, nn_, pp_)
INJD = [FA(_f + [k], Imp(And(INJ(*_f), rng(k, 0, nn_)), rng(sel(ff_, [k]), 0, pp_)), MP(INJ(*_f), sel(ff_, [k]))),
        FA(_f, Imp(And(INJ(*_f), nn_ > 0), rng(sel(ff_, [iv(0)]), 0, pp_)), INJ(*_f)),
        FA(_f + [j, k], Imp(And(INJ(*_f), j >= 0, j < k, k < nn_), sel(ff_, [j]) != sel(ff_, [k])), MP(INJ(*_f), sel(ff_, [j]), sel(ff_, [k]))),
        FA(_f, And(TRG(*_f), Or(INJ(*_f), And(rng(_w, 0, nn_), Not(rng(sel(ff_, [_w]), 0, pp_))), And(_v >= 0, _v < _w, _w < nn_, sel(ff_, [_v]) == sel(ff_, [_w])))), TRG(*_f)),
        FA(_f, And(TRG0(*_f), TRG(*_f), TRG(sto(ff_, [_w], sel(ff_, [nn_ - 1])), nn_ - 1, pp_)), TRG0(*_f))]
SORTD = z3.Function('rows_sorted', A1, I, B)
SORTDD = [FA([aa_, nn_, j, k], Imp(And(SORTD(aa_, nn_), j >= 0, j < k, k < nn_), COL1(aa_, j) <= COL1(aa_, k)), MP(SORTD(aa_, nn_), COL1(aa_, j), COL1(aa_, k))),
          FA([aa_, nn_], Imp(FA([j, k], Imp(And(j >= 0, j < k, k < nn_), COL1(aa_, j) <= COL1(aa_, k))), SORTD(aa_, nn_)), SORTD(aa_, nn_))]
def count_lemmas(c):
    N, Pp = z3.Ints('N Pp')
    f2 = [ff_, nn_, Pp]
    return [Induct('pigeonhole, guarded', Pp, ([ff_, nn_], Imp(And(INJ(*f2), TRG0(ff_, nn_, Pp - 1)), nn_ <= Pp)), pats=[INJ(*f2)], only=INJD),
        Fact('pigeonhole', FA(_f, Imp(And(INJ(*_f), pp_ >= 0), nn_ <= pp_), INJ(*_f)), only=['pigeonhole, guarded', INJD[4]]),
        Induct('counts below grow', N, ([aa_, xx_, j], Imp(And(j >= 0, j <= N), And(CB(aa_, xx_, j) <= CB(aa_, xx_, N), CB(aa_, xx_, j) >= 0))), pats=[MP(CB(aa_, xx_, j), CB(aa_, xx_, N))], only=CBD),
        Fact('a row below is counted', FA([aa_, xx_, j, N], Imp(And(j >= 0, j < N, below(aa_, xx_, j)), CB(aa_, xx_, j) + 1 <= CB(aa_, xx_, N)), MP(CB(aa_, xx_, j), CB(aa_, xx_, N))), only=CBD + ['counts below grow']),
        Induct('every counted row below exists', N, ([aa_, xx_, j], Imp(And(j >= 0, j < CB(aa_, xx_, N)), And(rng(NTHB(aa_, xx_, j), 0, N), below(aa_, xx_, NTHB(aa_, xx_, j)), CB(aa_, xx_, NTHB(aa_, xx_, j)) == j))),
               pats=[MP(NTHB(aa_, xx_, j), CB(aa_, xx_, N))], only=CBD + [NTHD, 'counts below grow']),
        Induct('no more than the rows', N, ([aa_, xx_], CB(aa_, xx_, N) <= N), pats=[CB(aa_, xx_, N)], only=CBD),
        Induct('all rows up to one below', N, ([aa_, xx_, nn_], Imp(And(SORTD(aa_, nn_), N <= nn_, Or(N == 0, below(aa_, xx_, N - 1))), CB(aa_, xx_, N) == N)), pats=[MP(SORTD(aa_, nn_), CB(aa_, xx_, N))], only=CBD + SORTDD[:1]),
        Induct('none from the first not below', N, ([aa_, xx_, nn_, k], Imp(And(SORTD(aa_, nn_), N <= nn_, k >= 0, k < N, Not(below(aa_, xx_, k))), CB(aa_, xx_, N) <= k)), pats=[MP(SORTD(aa_, nn_), CB(aa_, xx_, N), COL1(aa_, k))], only=CBD + SORTDD[:1] + ['no more than the rows']),
        Fact('sorted rows below come first', FA([N, aa_, xx_, k, nn_, j], Imp(And(SORTD(aa_, nn_), N <= nn_, k >= 0, k < N, j == k + 1, CB(aa_, xx_, j) >= 0), (k < CB(aa_, xx_, N)) == below(aa_, xx_, k)), MP(SORTD(aa_, nn_), CB(aa_, xx_, N), CB(aa_, xx_, j), COL1(aa_, k))),
             only=['counts below grow', 'all rows up to one below', 'none from the first not below'])]
MAPA, MAPB = z3.Function('map_ab', R, AF), z3.Function('map_ba', R, AF)
TP = z3.Function('permuted', I, B); TQ = z3.Function('next_count', A1, R, I, B)     # true everywhere
TP2 = z3.Function('permuted2', I, B); TQ2 = z3.Function('next_count2', I, B)     # true everywhere
TB = z3.Function('below_bound', R, B)     # true everywhere
def theta_perm(c): return c.E.ghost['perm'][-1]
def theta_hints(c):
    P, Q = theta_perm(c); a, b = c.old['ra'].raw(), c['ra'].raw()
    return [FA([xx_, tt_], sel(MAPA(xx_), [tt_]) == CB(b, xx_, Q(NTHB(a, xx_, tt_))), sel(MAPA(xx_), [tt_])),
            FA([xx_, tt_], sel(MAPB(xx_), [tt_]) == CB(a, xx_, P(NTHB(b, xx_, tt_))), sel(MAPB(xx_), [tt_])),
            FA([xx_], And(TB(xx_), TRG(MAPA(xx_), CB(a, xx_, c['ra'].n / 5), CB(b, xx_, c['ra'].n / 5)), TRG(MAPB(xx_), CB(b, xx_, c['ra'].n / 5), CB(a, xx_, c['ra'].n / 5))), TB(xx_)),
            FA([k], And(TP(k), TP2(P(k))), TP(k)), FA([aa_, xx_, k], And(TQ(aa_, xx_, k), TQ2(CB(aa_, xx_, k + 1))), TQ(aa_, xx_, k))]
def theta_steps(c):
    P, Q = theta_perm(c); a, b, n = c.old['ra'].raw(), c['ra'].raw(), c['ra'].n / 5
    ca, cb = CB(a, xx_, n), CB(b, xx_, n)
    na, nb = NTHB(a, xx_, tt_), NTHB(b, xx_, tt_)
    return [('sorted companion', FA([k], Imp(rng(k, 0, n), And(rng(P(k), 0, n), Q(P(k)) == k, COL1(b, k) == COL1(a, P(k)))), P(k))),
        ('original companion', FA([k], Imp(rng(k, 0, n), And(rng(Q(k), 0, n), P(Q(k)) == k, COL1(a, k) == COL1(b, Q(k)))), Q(k))),
        ('image a', FA([xx_, tt_], Imp(rng(tt_, 0, ca), And(rng(Q(na), 0, n), below(b, xx_, Q(na)), P(Q(na)) == na, CB(a, xx_, na) == tt_)), na)),
        ('image b', FA([xx_, tt_], Imp(rng(tt_, 0, cb), And(rng(P(nb), 0, n), below(a, xx_, P(nb)), Q(P(nb)) == nb, CB(b, xx_, nb) == tt_)), nb)),
        ('range a', FA([xx_, tt_], Imp(rng(tt_, 0, ca), rng(sel(MAPA(xx_), [tt_]), 0, cb)), sel(MAPA(xx_), [tt_]))),
        ('range b', FA([xx_, tt_], Imp(rng(tt_, 0, cb), rng(sel(MAPB(xx_), [tt_]), 0, ca)), sel(MAPB(xx_), [tt_]))),
        ('source a', FA([xx_, tt_], Imp(rng(tt_, 0, ca), NTHB(b, xx_, sel(MAPA(xx_), [tt_])) == Q(na)), sel(MAPA(xx_), [tt_]))),
        ('source b', FA([xx_, tt_], Imp(rng(tt_, 0, cb), NTHB(a, xx_, sel(MAPB(xx_), [tt_])) == P(nb)), sel(MAPB(xx_), [tt_]))),
        ('injective a', FA([xx_], Imp(TB(xx_), INJ(MAPA(xx_), ca, cb)), TB(xx_))),
        ('injective b', FA([xx_], Imp(TB(xx_), INJ(MAPB(xx_), cb, ca)), TB(xx_))),
        ('as many below before and after', FA([xx_], Imp(TB(xx_), ca == cb), TB(xx_))),
        ('sorted pairs', FA([j, k], Imp(And(j >= 0, j < k, k < n, TP(j), TP(k)), COL1(b, j) <= COL1(b, k)), MP(COL1(b, j), COL1(b, k)))),
        ('sorted', SORTD(b, n)),
        ('first rows', FA([xx_, k, j], Imp(And(TB(xx_), rng(k, 0, n), j == k + 1, CB(b, xx_, j) >= 0), (k < cb) == below(b, xx_, k)), MP(TB(xx_), CB(b, xx_, j), COL1(b, k)))),
        ('rows below first', FA([xx_, k], Imp(And(TB(xx_), rng(k, 0, n), TQ(b, xx_, k)), (k < cb) == below(b, xx_, k)), MP(TB(xx_), COL1(b, k))))]
def below_first(c):
    a, o, n = c['ra'], c.old['ra'], c['ra'].n / 5
    return ('rows below a bound come first', FA([xx_, k], Imp(And(TB(xx_), rng(k, 0, n), TQ(a.raw(), xx_, k)), (k < CB(o.raw(), xx_, n)) == (COL1(a.raw(), k) < xx_)), MP(TB(xx_), COL1(a.raw(), k))))
COLS = {nm: Spec(nm, ['ra'], unit=['src/conviqt_util.cpp'], modifies=['ra'], ensures=rows_ens(cc)) for nm, cc in (('hpsort_arrTheta', 1), ('hpsort_arrTOD', 3), ('hpsort_arrTime', 4))}
TH = COLS['hpsort_arrTheta']
TH.axioms, TH.lemmas, TH.hints = (lambda c: CBD + [NTHD] + INJD + SORTDD + [COLD]), count_lemmas, theta_hints
from dv.spec import _lst
TH.steps = _lst(theta_steps)
_th0 = TH.ensures
TH.ensures = lambda c: _th0(c) + [below_first(c)]
SPECS = [DL, DD, ARR] + list(COLS.values())
PROPS = dict(C15=[s.key for s in SPECS], C01=['hpsort_arrTheta'], C02=['hpsort_arrTheta'])
