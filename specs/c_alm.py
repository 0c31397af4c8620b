"""Storage of the expansion coefficients: one cell for every (l,m)."""
from .base import *
U = ['inst/alm.cpp']
A_ = 'Alm<xcomplex<float>>'
SPECS = []
def S(name, params=None, key=None, real=True, **k):
    o = dict(k.pop('opts', {})); 
    if real: o['real_alm'] = True
    r = k.pop('requires', None) or (lambda c: [])
    def req(c):
        l = r(c)
        if 'Alm<' in name: l = list(l) + [c['this.alm'].n >= 0]
        return l
    s = Spec(name, params, key=key or name, unit=U, opts=o, requires=req, **k); SPECS.append(s); return s

# START(L, m): cells taken by the orders below m of an expansion up to degree L
START = z3.Function('start', I, I, I)
CELL = z3.Function('cell', I, I, I, I)
x_, l1, m1, l2, m2 = z3.Ints('x_ l1 m1 l2 m2')
def start_defs(L):
    return [START(L, iv(0)) == 0, FA([m], Imp(m >= 0, START(L, m + 1) == START(L, m) + (L - m + 1)), START(L, m + 1)),
            FA([l1, m], CELL(L, l1, m) == START(L, m) + l1 - m, CELL(L, l1, m))]
def start_lemmas(L, M):
    d0, d1, dc = start_defs(L)
    K = z3.Int('K')
    return [Induct('start in closed form', K, 2 * START(L, K) == K * (2 * L + 3 - K), hi=L + 1, pats=[START(L, K)], only=[d0, d1]),
            Induct('later orders start later', K, ([m1], Imp(And(m1 >= 0, m1 < K), START(L, m1) + L - m1 + 1 <= START(L, K))), hi=M + 1, pats=[MP(START(L, m1), START(L, K))], only=[d0, d1, M <= L]),
            Induct('starts are not negative', K, START(L, K) >= 0, hi=M + 1, pats=[START(L, K)], only=[d0, d1, M <= L]),
            Fact('cells are inside', FA([l1, m1], Imp(And(m1 >= 0, m1 <= M, m1 <= l1, l1 <= L), And(CELL(L, l1, m1) >= 0, CELL(L, l1, m1) < START(L, M + 1))), CELL(L, l1, m1)),
                 only=['later orders start later', 'starts are not negative', dc, M <= L]),
            Fact('cells are distinct', FA([l1, m1, l2, m2], Imp(And(m1 >= 0, m1 <= M, m1 <= l1, l1 <= L, m2 >= 0, m2 <= M, m2 <= l2, l2 <= L, CELL(L, l1, m1) == CELL(L, l2, m2)), And(l1 == l2, m1 == m2)),
                 MP(CELL(L, l1, m1), CELL(L, l2, m2))), only=['later orders start later', dc, M <= L])]
# WHO(L, x): the order whose block holds cell x
WHO = z3.Function('order_of_cell', I, I, I)
def who_defs(L, M):
    return [FA([x_, m], Imp(And(m >= 0, m <= M, START(L, m) <= x_, x_ < START(L, m + 1)), WHO(L, x_) == m), MP(WHO(L, x_), START(L, m)))]
def who_lemmas(L, M):
    d0, d1, dc = start_defs(L); w, = who_defs(L, M)
    K = z3.Int('K')
    return [Induct('every cell belongs to a pair', K, ([x_], Imp(And(x_ >= 0, x_ < START(L, K)), And(WHO(L, x_) >= 0, WHO(L, x_) < K, START(L, WHO(L, x_)) <= x_, x_ < START(L, WHO(L, x_)) + L - WHO(L, x_) + 1))), hi=M + 1,
                   pats=[MP(WHO(L, x_), START(L, K))], only=[d0, d1, w, M <= L])]
LIM = 32767
def closed(L):
    K = z3.Int('K')
    return [Induct('start in closed form', K, 2 * START(L, K) == K * (2 * L + 3 - K), only=start_defs(L)[:2], pats=[START(L, K)])]
def inv(c):
    L, M = c['this.lmax'], c['this.mmax']
    return [M >= 0, M <= L, L <= LIM, c['this.tval'] == 2 * L + 1]
def stored(c):
    return inv(c) + start_defs(c['this.lmax']) + who_defs(c['this.lmax'], c['this.mmax']) + [c['this.alm'].n == START(c['this.lmax'], c['this.mmax'] + 1)]
def lem(c): return start_lemmas(c['this.lmax'], c['this.mmax'])
def lemw(c): return lem(c) + who_lemmas(c['this.lmax'], c['this.mmax'])
def pair(c, l='l', m='m'): return [c[m] >= 0, c[m] <= c['this.mmax'], c[m] <= c[l], c[l] <= c['this.lmax']]

S('Alm_Base::Num_Alms', ['l', 'm'], opts=dict(overflow=True), requires=lambda c: [c['m'] >= 0, c['l'] <= LIM] + start_defs(c['l']),
  lemmas=lambda c: closed(c['l']),
  ensures=lambda c: [('as many cells as pairs', c.res == START(c['l'], c['m'] + 1)), ('accepted only if m <= l', c['m'] <= c['l'])],
  exsures=lambda c: [('refused only if m > l', c['m'] > c['l'])])
S('Alm_Base::index_l0', ['m'], opts=dict(overflow=True), requires=lambda c: inv(c) + [c['m'] >= 0, c['m'] <= c['this.mmax']] + start_defs(c['this.lmax']), lemmas=lem,
  ensures=lambda c: [('offset of the order', c.res == START(c['this.lmax'], c['m']) - c['m'])])
S('Alm_Base::index', ['l', 'm'], opts=dict(overflow=True), requires=lambda c: inv(c) + pair(c) + start_defs(c['this.lmax']) + who_defs(c['this.lmax'], c['this.mmax']), lemmas=lemw,
  ensures=lambda c: [('own cell', c.res == CELL(c['this.lmax'], c['l'], c['m'])),
     ('inside the storage', And(c.res >= 0, c.res < START(c['this.lmax'], c['this.mmax'] + 1))),
     ('no other pair has this cell', FA([l1, m1], Imp(And(m1 >= 0, m1 <= c['this.mmax'], m1 <= l1, l1 <= c['this.lmax'], CELL(c['this.lmax'], l1, m1) == c.res), And(l1 == c['l'], m1 == c['m'])), CELL(c['this.lmax'], l1, m1))),
     ('every cell has a pair', FA([x_], Imp(rng(x_, 0, START(c['this.lmax'], c['this.mmax'] + 1)), And(rng(WHO(c['this.lmax'], x_), 0, c['this.mmax'] + 1), CELL(c['this.lmax'], x_ - START(c['this.lmax'], WHO(c['this.lmax'], x_)) + WHO(c['this.lmax'], x_), WHO(c['this.lmax'], x_)) == x_)), WHO(c['this.lmax'], x_)))])
S('Alm_Base::conformable', ['other'], ensures=lambda c: [('same limits', c.res == And(c['this.lmax'] == other(c, 'lmax'), c['this.mmax'] == other(c, 'mmax')))])
def other(c, f): return c['other.' + f]
S('Alm_Base::swap', ['other'], modifies=['this.lmax', 'this.mmax', 'this.tval', 'other'],
  ensures=lambda c: [(f, And(c['this.' + f] == other(c.old, f), other(c, f) == c.old['this.' + f])) for f in ('lmax', 'mmax', 'tval')])
S('Alm_Base::Set', ['lmax_', 'mmax_'], modifies=['this.lmax', 'this.mmax', 'this.tval'], requires=lambda c: [c['lmax_'] <= LIM, c['lmax_'] >= 0],
  ensures=lambda c: [('limits', And(c['this.lmax'] == c['lmax_'], c['this.mmax'] == c['mmax_'], c['this.tval'] == 2 * c['lmax_'] + 1))])
W = ['this.lmax', 'this.mmax', 'this.tval', 'this.alm']
S(A_ + '::Set', ['lmax_', 'mmax_'], key='Alm::Set(l,m)', nargs=2, modifies=W, requires=lambda c: [c['lmax_'] >= 0, c['lmax_'] <= LIM, c['mmax_'] >= 0] + start_defs(c['lmax_']), lemmas=lambda c: closed(c['lmax_']),
  ensures=lambda c: [('limits', And(c['this.lmax'] == c['lmax_'], c['this.mmax'] == c['mmax_'], c['this.tval'] == 2 * c['lmax_'] + 1)), ('storage', c['this.alm'].n == START(c['lmax_'], c['mmax_'] + 1))],
  exsures=lambda c: [('refused only if m > l', c['mmax_'] > c['lmax_'])])
S(A_ + '::Set', ['data', 'lmax_', 'mmax_'], key='Alm::Set(data)', nargs=3, modifies=W + ['data'], requires=lambda c: [c['lmax_'] >= 0, c['lmax_'] <= LIM, c['mmax_'] >= 0] + start_defs(c['lmax_']), lemmas=lambda c: closed(c['lmax_']),
  ensures=lambda c: [('limits', And(c['this.lmax'] == c['lmax_'], c['this.mmax'] == c['mmax_'], c['this.tval'] == 2 * c['lmax_'] + 1)), ('storage', c['this.alm'].n == START(c['lmax_'], c['mmax_'] + 1)),
     ('contents taken over', FA([x_], Imp(rng(x_, 0, c['this.alm'].n), And(*[c['this.alm'][x_][f] == c.old['data'][x_][f] for f in ('re', 'im')])))), ('source emptied', c['data'].n == 0)],
  exsures=lambda c: [('refused only if m > l or the size is wrong', Or(c['mmax_'] > c['lmax_'], c['data'].n != START(c['lmax_'], c['mmax_'] + 1)))])
for q, t in (('read', ' const'), ('write', ')')):
    S(A_ + '::operator()', ['l', 'm'], key='Alm::operator() ' + q, type=('(int, int) const' if q == 'read' else None), requires=lambda c: stored(c) + pair(c), lemmas=lem,
      ensures=lambda c: [('own cell', deref_cell(c))])
def deref_cell(c):
    r = c.res
    if isinstance(r, LV) or hasattr(r, 'idx'):
        return And(z3.BoolVal(r.path == 'this.alm'), r.idx[0] == CELL(c['this.lmax'], c['l'], c['m']))
    a, x = c['this.alm'], CELL(c['this.lmax'], c['l'], c['m'])
    return And(r['re'] == a[x]['re'], r['im'] == a[x]['im'])
def same_at(c, x): return And(*[c['this.alm'][x][f] == c.old['this.alm'][x][f] for f in ('re', 'im')])
def times(c, x, f): return And(*[c['this.alm'][x][g] == c.old['this.alm'][x][g] * f for g in ('re', 'im')])
pos = lambda c, x: rng(x, 0, c['this.alm'].n)
S(A_ + '::Scale', ['factor'], key='Alm::Scale', modifies=['this.alm'], keep_dims=['this.alm'],
  ensures=lambda c: [('size kept', c['this.alm'].n == c.old['this.alm'].n), ('every coefficient times the factor', FA([x_], Imp(pos(c, x_), times(c, x_, c['factor']))))],
  loops={0: Loop(inv=lambda L: [('size', And(L['this.alm'].n == L.old['this.alm'].n, L['m'] >= 0, L['m'] <= L['this.alm'].n)),
     ('done', FA([x_], Imp(rng(x_, 0, L['m']), times(L, x_, L['factor'])))), ('rest', FA([x_], Imp(And(x_ >= L['m'], x_ < L['this.alm'].n), same_at(L, x_))))])}, nloops=1)
def scale_lm(name, which):
    def c_(c, l, m): return CELL(c['this.lmax'], l, m)
    f = lambda c, l, m: c['factor'][l if which == 'l' else m]
    valid = lambda c, l, m: And(m >= 0, m <= c['this.mmax'], m <= l, l <= c['this.lmax'])
    def inv_(L, inner):
        M, l = L['m'], (L['l'] if inner else None)
        done = And(m1 < M) if not inner else Or(m1 < M, And(m1 == M, l1 < l))
        out = [('size', And(L['this.alm'].n == L.old['this.alm'].n, M >= 0, M <= L['this.mmax'] + 1, *([M <= L['this.mmax'], l >= M, l <= L['this.lmax'] + 1] if inner else [])))]
        out += [('done', FA([l1, m1], Imp(And(valid(L, l1, m1), done), times(L, c_(L, l1, m1), f(L, l1, m1))), c_(L, l1, m1))),
                ('rest', FA([l1, m1], Imp(And(valid(L, l1, m1), Not(done)), same_at(L, c_(L, l1, m1))), c_(L, l1, m1)))]
        return out
    S(A_ + '::' + name, ['factor'], key='Alm::' + name, modifies=['this.alm'], requires=stored, lemmas=lem,
      ensures=lambda c: [('size kept', c['this.alm'].n == c.old['this.alm'].n), ('every coefficient times its own factor', FA([l1, m1], Imp(valid(c, l1, m1), times(c, c_(c, l1, m1), f(c, l1, m1))), c_(c, l1, m1)))],
      exsures=lambda c: [('refused only if the factors are too few', c['factor'].n <= c['this.lmax' if which == 'l' else 'this.mmax']), ('nothing changed', FA([x_], Imp(pos(c, x_), same_at(c, x_))))],
      loops={0: Loop(inv=lambda L: inv_(L, False)), 1: Loop(inv=lambda L: inv_(L, True), body_hints=lambda L: [c_(L, L['l'], L['m']) == c_(L, L['l'], L['m'])])}, nloops=2)
scale_lm('ScaleL', 'l'); scale_lm('ScaleM', 'm')
def oalm(c): return c['other.alm']
S(A_ + '::Add', ['other'], key='Alm::Add', type='const Alm', modifies=['this.alm'],
  requires=lambda c: stored(c) + [Imp(And(c['this.lmax'] == other(c, 'lmax'), c['this.mmax'] == other(c, 'mmax')), oalm(c).n == c['this.alm'].n)],
  ensures=lambda c: [('accepted only for the same limits', And(c['this.lmax'] == other(c, 'lmax'), c['this.mmax'] == other(c, 'mmax'))), ('size kept', c['this.alm'].n == c.old['this.alm'].n),
     ('sum', FA([x_], Imp(pos(c, x_), And(*[c['this.alm'][x_][g] == c.old['this.alm'][x_][g] + oalm(c)[x_][g] for g in ('re', 'im')]))))],
  exsures=lambda c: [('refused only for other limits', Or(c['this.lmax'] != other(c, 'lmax'), c['this.mmax'] != other(c, 'mmax'))), ('nothing changed', FA([x_], Imp(pos(c, x_), same_at(c, x_))))],
  loops={0: Loop(inv=lambda L: [('size', And(L['this.alm'].n == L.old['this.alm'].n, L['m'] >= 0, L['m'] <= L['this.alm'].n)),
     ('done', FA([x_], Imp(rng(x_, 0, L['m']), And(*[L['this.alm'][x_][g] == L.old['this.alm'][x_][g] + L['other.alm'][x_][g] for g in ('re', 'im')])))), ('rest', FA([x_], Imp(And(x_ >= L['m'], x_ < L['this.alm'].n), same_at(L, x_))))])}, nloops=1)
S(A_ + '::SetToZero', [], key='Alm::SetToZero', modifies=['this.alm'], ensures=lambda c: [('size kept', c['this.alm'].n == c.old['this.alm'].n), ('all zero', FA([x_], Imp(pos(c, x_), And(c['this.alm'][x_]['re'] == 0, c['this.alm'][x_]['im'] == 0))))])
S(A_ + '::swap', ['other'], key='Alm::swap', modifies=W + ['other'],
  ensures=lambda c: [(f, And(c['this.' + f] == other(c.old, f), other(c, f) == c.old['this.' + f])) for f in ('lmax', 'mmax', 'tval')] +
     [('coefficients', And(c['this.alm'].n == oalm(c.old).n, oalm(c).n == c.old['this.alm'].n, FA([x_], And(*[And(c['this.alm'][x_][g] == oalm(c.old)[x_][g], oalm(c)[x_][g] == c.old['this.alm'][x_][g]) for g in ('re', 'im')]))))])
S(A_ + '::mstart', ['m'], key='Alm::mstart', type='(int) const', requires=lambda c: stored(c) + [c['m'] >= 0, c['m'] <= c['this.mmax']], lemmas=lem,
  ensures=lambda c: [('start of the order', And(z3.BoolVal(c.res.path == 'this.alm'), c.res.off == START(c['this.lmax'], c['m']) - c['m']))])
PROPS = dict(C18=[s.key for s in SPECS])
