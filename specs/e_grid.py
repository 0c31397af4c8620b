"""The convolver object: limits and grid (C12), latitude and longitude indices (C06), interpolation weights (C05)."""
from .base import *
from dv.models import model, val
SPECS, MODELS = [], {}
def S(name, params=None, key=None, unit=None, **k):
    s = Spec(name, params, key=key or name, unit=unit, **k); SPECS.append(s); return s

NRANKS = z3.Int('number_of_processes')
RANK = z3.Int('rank_of_this_process')
def m_nr(E, st, n, this, args): st.assume(NRANKS >= 1); return NRANKS
def m_rk(E, st, n, this, args): st.assume(And(RANK >= 0, RANK < NRANKS)); return RANK
MODELS['MPI_Manager::num_ranks'] = m_nr
MODELS['MPI_Manager::rank'] = m_rk

def T(e): return z3.ToReal(e)
def mn(*a):
    r = a[0]
    for x in a[1:]: r = z3.If(x < r, x, r)
    return r

def grid(c):
    """the relations between the grid constants that every later step relies on"""
    t = lambda f: c['this.' + f]
    return [('nodes of a stencil', t('npoints') == t('order') + 1), ('centre of a stencil', t('ioffset') == z3.ToInt(T(t('order')) / 2)),
        ('beam orders', t('npsi') == t('beammmax') + 1), ('longitudes', t('nphi') == 2 * t('lmax') + 1),
        ('margin', And(t('halfmargin') == z3.ToInt(T(t('npoints')) / 2) + 1, t('margin') == 2 * t('halfmargin'))),
        ('latitudes', t('ntheta') == t('lmax') + 1 + t('margin')),
        ('longitude step', And(t('dphi') * T(t('nphi')) == 2 * PI, t('inv_delta_phi') * t('dphi') == 1)),
        ('longitude offset', And(t('phi0') == HALFPI, t('phioffset') * t('dphi') == HALFPI)),
        ('latitude step', And(t('dtheta') * T(t('lmax') + 1) == -PI, t('inv_delta_theta') * t('dtheta') == 1)),
        ('latitude offset', t('theta0') == PI - T(t('halfmargin')) * t('dtheta'))]

def limits(c):
    return Or(And(c['lmax'] >= 0, Or(c['lmax'] > c['s.lmax'], c['lmax'] > c['b.lmax'])), And(c['beammmax'] >= 0, c['beammmax'] > c['b.mmax']))
BIG = 32767
CTOR = S('convolver::convolver', ['s', 'b', 'd', 'pol', 'lmax', 'beammmax', 'order', 'verbosity', 'comm'], nargs=9,
  requires=lambda c: [c['s.lmax'] >= 0, c['s.lmax'] <= BIG, c['b.lmax'] >= 0, c['b.lmax'] <= BIG, c['b.mmax'] >= 0, c['b.mmax'] <= c['b.lmax'], c['order'] >= 0, c['order'] <= BIG],
  opts=dict(noframe=True),
  ensures=lambda c: [('limits inside both expansions', And(c['this.lmax'] <= c['s.lmax'], c['this.lmax'] <= c['b.lmax'], c['this.beammmax'] <= c['b.mmax'], c['this.beammmax'] <= c['this.lmax'], c['this.lmax'] >= 0, c['this.beammmax'] >= 0)),
     ('requested or available limit', And(c['this.lmax'] == z3.If(c['lmax'] < 0, mn(c['s.lmax'], c['b.lmax']), c['lmax']), c['this.beammmax'] == mn(z3.If(c['beammmax'] < 0, c['b.mmax'], c['beammmax']), c['this.lmax']))),
     ('accepted only within the limits', Not(limits(c))), ('processes', And(c['this.cores'] == NRANKS, c['this.corenum'] == RANK)), ('settings kept', And(c['this.order'] == c['order'], c['this.pol'] == c['pol']))] + grid(c),
  exsures=lambda c: [('refused only beyond the limits', limits(c))])
def same_ptr(c, f, p):
    E = c.E
    v = E.rd(c.st, c._thislv('this.' + f)); w = E.rd(c.st, c.vals[p])
    return z3.BoolVal(getattr(v, 'path', 1) == getattr(w, 'path', 2))
for f, p in (('sky', 's'), ('beam', 'b'), ('detector', 'd')):
    S('convolver::set_' + f, [p], modifies=['this.' + p], opts=dict(noframe=True),
      ensures=lambda c, p=p: [('the object given', same_ptr(c, p, p)), ('status', c.res == 0)])

C12 = [s.key for s in SPECS]

# ---- C05: Lagrange weights of the nodes 0..npoints-1
MID = z3.Function('product', R, I, I, R)        # MID(x, a, n) = (x-a)(x-a-1)...(x-n+1)
x_, y_ = z3.Reals('x_ y_'); a_, n_ = z3.Ints('a_ n_')
MID0 = FA([x_, a_], MID(x_, a_, a_) == 1, MID(x_, a_, a_))
MIDS = FA([x_, a_, n_], Imp(n_ >= a_, MID(x_, a_, n_ + 1) == MID(x_, a_, n_) * (x_ - T(n_))), MID(x_, a_, n_ + 1))
def den(m_, np): return MID(T(m_), iv(0), m_) * MID(T(m_), m_ + 1, np)
def base_ok(a, np): return FA([m], Imp(rng(m, 0, np), a[m] * den(m, np) == 1), a[m])
LW = z3.Function('lagrange_weight', R, I, I, R)
LWDEF = FA([x_, m, n_], Imp(den(m, n_) != 0, LW(x_, m, n_) * den(m, n_) == MID(x_, iv(0), m) * MID(x_, m + 1, n_)), LW(x_, m, n_))
CANCEL = [Fact('a common factor cancels', FA(list(z3.Reals('ca cb cd')), Imp(And(z3.Real('ca') * z3.Real('cd') == z3.Real('cb') * z3.Real('cd'), z3.Real('cd') != 0), z3.Real('ca') == z3.Real('cb'))), only=[])]
def mid_lemmas(c):
    N = z3.Int('N')
    return [Induct('first factor apart', N, ([x_, a_], Imp(And(a_ >= 0, a_ < N), MID(x_, a_, N) == (x_ - T(a_)) * MID(x_, a_ + 1, N))), lo=0, pats=[MP(MID(x_, a_, N), MID(x_, a_ + 1, N))], only=[MID0, MIDS]),
            Induct('no zero factor, no zero product', N, ([x_, a_], Imp(And(a_ >= 0, a_ <= N, FA([k], Imp(And(k >= a_, k < N), x_ != T(k)))), MID(x_, a_, N) != 0)), lo=0, pats=[MID(x_, a_, N)], only=[MID0, MIDS])]
def node_lemma(c):
    N = z3.Int('N')
    return [Induct('zero factor, zero product', N, ([a_, q], Imp(And(a_ >= 0, a_ <= q, q < N), MID(T(q), a_, N) == 0)), lo=0, pats=[MID(T(q), a_, N)], only=[MID0, MIDS])]
mid_defs = lambda c: [MID0, MIDS]
INITW = S('convolver::weight_ncm_initialize', [], modifies=['this.base_wgt'], modifies_throw=[], axioms=mid_defs, lemmas=lambda c: mid_lemmas(c)[1:],
  requires=lambda c: [c['this.npoints'] >= 1, Imp(c['this.base_wgt'].n == c['this.npoints'], base_ok(c['this.base_wgt'], c['this.npoints']))],
  ensures=lambda c: [('one denominator per node', c['this.base_wgt'].n == c['this.npoints']), ('reciprocal of the product of distances', base_ok(c['this.base_wgt'], c['this.npoints']))],
  exsures=lambda c: [('refused only if the number of nodes changed', And(c['this.base_wgt'].n != 0, c['this.base_wgt'].n != c['this.npoints']))],
  loops={0: Loop(inv=lambda L: [('dims', And(L['this.base_wgt'].n == L['this.npoints'], L['m'] >= 0, L['m'] <= L['this.npoints'])),
            ('done', FA([k], Imp(rng(k, 0, L['m']), L['this.base_wgt'][k] == den(k, L['this.npoints'])), L['this.base_wgt'][k])),
            ('todo', FA([k], Imp(And(k >= L['m'], k < L['this.npoints']), L['this.base_wgt'][k] == 1), L['this.base_wgt'][k]))]),
         1: Loop(inv=lambda L: [('dims', And(L['this.base_wgt'].n == L['this.npoints'], L['n'] >= 0, L['n'] <= L['m'])),
            ('product', L['this.base_wgt'][L['m']] == MID(T(L['m']), iv(0), L['n'])),
            ('rest', FA([k], Imp(And(rng(k, 0, L['this.npoints']), k != L['m']), L['this.base_wgt'][k] == L.before['this.base_wgt'][k]), L['this.base_wgt'][k]))]),
         2: Loop(inv=lambda L: [('dims', And(L['this.base_wgt'].n == L['this.npoints'], L['n'] >= L['m'] + 1, L['n'] <= L['this.npoints'])),
            ('product', L['this.base_wgt'][L['m']] == MID(T(L['m']), iv(0), L['m']) * MID(T(L['m']), L['m'] + 1, L['n'])),
            ('rest', FA([k], Imp(And(rng(k, 0, L['this.npoints']), k != L['m']), L['this.base_wgt'][k] == L.before['this.base_wgt'][k]), L['this.base_wgt'][k]))]),
         3: Loop(inv=lambda L: [('dims', And(L['this.base_wgt'].n == L['this.npoints'], L['m'] >= 0)),
            ('inverted', FA([k], Imp(And(rng(k, 0, L['m']), k < L['this.npoints']), L['this.base_wgt'][k] * den(k, L['this.npoints']) == 1), L['this.base_wgt'][k])),
            ('rest', FA([k], Imp(And(k >= L['m'], k < L['this.npoints']), L['this.base_wgt'][k] == den(k, L['this.npoints'])), L['this.base_wgt'][k]))],
            body_hints=lambda L: [])}, nloops=4)
def wgt(b, x, m_, np): return b[m_] * MID(x, iv(0), m_) * MID(x, m_ + 1, np)
WEIGHT = S('convolver::weight_ncm', ['x', 'wgt'], modifies=['wgt'], keep_dims=['wgt'], axioms=lambda c: mid_defs(c) + [LWDEF], lemmas=lambda c: mid_lemmas(c)[:1] + node_lemma(c),
  requires=lambda c: [c['this.npoints'] >= 1, c['this.base_wgt'].n == c['this.npoints'], c['wgt'].n == c['this.npoints'], base_ok(c['this.base_wgt'], c['this.npoints'])],
  ensures=lambda c: [('product of distances to the other nodes', FA([m], Imp(rng(m, 0, c['this.npoints']), c['wgt'][m] == wgt(c['this.base_wgt'], c['x'], m, c['this.npoints'])), c['wgt'][m])),
     ('times the denominator', FA([m], Imp(rng(m, 0, c['this.npoints']), And(den(m, c['this.npoints']) != 0, c['wgt'][m] * den(m, c['this.npoints']) == MID(c['x'], iv(0), m) * MID(c['x'], m + 1, c['this.npoints']))), c['wgt'][m])),
     ('the Lagrange weight', FA([m], Imp(rng(m, 0, c['this.npoints']), c['wgt'][m] == LW(c['x'], m, c['this.npoints'])), c['wgt'][m])),
     ('a single node is picked on a node', FA([m, q], Imp(And(rng(m, 0, c['this.npoints']), rng(q, 0, c['this.npoints']), c['x'] == T(q)), c['wgt'][m] == z3.If(m == q, rv(1), rv(0))), MP(c['wgt'][m], MID(T(q), iv(0), c['this.npoints']))))],
  loops={0: Loop(inv=lambda L: [('range', And(L['m'] >= 1, L['m'] <= L['this.npoints'], L['wgt'].n == L['this.npoints'])), ('factor', L['mul1'] == MID(L['x'], iv(0), L['m'])),
            ('done', FA([k], Imp(And(k >= 0, k < L['m']), L['wgt'][k] == L['this.base_wgt'][k] * MID(L['x'], iv(0), k)), L['wgt'][k])),
            ('todo', FA([k], Imp(And(k >= L['m'], k < L['this.npoints']), L['wgt'][k] == L['this.base_wgt'][k]), L['wgt'][k]))]),
         1: Loop(inv=lambda L: [('range', And(L['m'] >= 1, L['m'] <= L['this.npoints'], L['wgt'].n == L['this.npoints'])), ('factor', L['mul2'] == MID(L['x'], L['this.npoints'] - L['m'], L['this.npoints'])),
            ('done', FA([k], Imp(And(k >= L['this.npoints'] - L['m'], k < L['this.npoints']), L['wgt'][k] == wgt(L['this.base_wgt'], L['x'], k, L['this.npoints'])), L['wgt'][k])),
            ('todo', FA([k], Imp(And(k >= 0, k < L['this.npoints'] - L['m']), L['wgt'][k] == L['this.base_wgt'][k] * MID(L['x'], iv(0), k)), L['wgt'][k]))])}, nloops=2)
C05 = [INITW.key, WEIGHT.key]

# ---- C06: latitude index
ITH = z3.Function('latitude_index', R, I)
def fold(b): return z3.If(b > HALFPI, PI - b, b)
def ith_defs(c):
    return [FA([x_], ITH(x_) == z3.ToInt((x_ - c['this.theta0']) * c['this.inv_delta_theta']) - c['this.ioffset'], ITH(x_))]
def ith_lemmas(c):
    t = lambda f: c['this.' + f]
    hm = T(t('halfmargin')); F = lambda x: (x - t('theta0')) * t('inv_delta_theta')
    leg = And(x_ >= 0, x_ <= HALFPI)
    g = dict(grid(c))
    return [Fact('step is negative', And(t('dtheta') < 0, t('inv_delta_theta') < 0), only=[g['latitude step'], t('lmax') >= 0]),
        Fact('position', FA([x_], Imp(leg, (F(x_) - hm) * t('dtheta') == x_ - PI)), only=[g['latitude step'], g['latitude offset']]),
        Fact('position is on the grid', FA([x_], Imp(leg, And(F(x_) - hm <= T(t('lmax') + 1), 2 * (F(x_) - hm) >= T(t('lmax') + 1)))), only=['position', 'step is negative', g['latitude step']]),
        Fact('index is on the grid', FA([x_], Imp(leg, And(ITH(x_) >= 0, ITH(x_) <= t('ntheta') - t('npoints'))), ITH(x_)), only=['position is on the grid', g['nodes of a stencil'], g['centre of a stencil'], g['margin'], g['latitudes'], t('order') >= 0, t('lmax') >= 0] + ith_defs(c)),
        Fact('index falls with the angle', FA([x_, y_], Imp(And(x_ >= 0, x_ <= y_, y_ <= HALFPI), ITH(x_) >= ITH(y_)), MP(ITH(x_), ITH(y_))), only=['step is negative'] + ith_defs(c))]
def grid_req(c): return grid(c) + [c['this.lmax'] >= 0, c['this.order'] >= 0, c['this.beammmax'] >= 0, c['this.beammmax'] <= c['this.lmax']]
BTI = S('convolver::beta_to_itheta', ['beta'], axioms=ith_defs, lemmas=ith_lemmas,
  requires=lambda c: grid_req(c) + [c['beta'] >= 0, c['beta'] <= PI],
  ensures=lambda c: [('stencil inside the grid', And(c.res >= 0, c.res + c['this.npoints'] <= c['this.ntheta'])),
     ('sample between the middle nodes', And(T(c.res + c['this.ioffset']) <= (fold(c.old['beta']) - c['this.theta0']) * c['this.inv_delta_theta'], (fold(c.old['beta']) - c['this.theta0']) * c['this.inv_delta_theta'] < T(c.res + c['this.ioffset'] + 1))),
     ('function of the angle', c.res == ITH(fold(c.old['beta'])))])
S('convolver::itheta_to_beta1', ['itheta'], ensures=lambda c: [('angle of a latitude', c.res == c['this.theta0'] + T(c['itheta']) * c['this.dtheta'])])
S('convolver::itheta_to_beta2', ['itheta'], ensures=lambda c: [('mirrored angle', c.res == PI - c['this.theta0'] - T(c['itheta']) * c['this.dtheta'])])
ICALC = S('convolver::ithetacalc', ['itheta0', 'outpntarr', 'ntod'], modifies=['itheta0'], keep_dims=['itheta0'],
  requires=lambda c: grid_req(c) + [c['ntod'] >= 0, c['itheta0'].n >= c['ntod'], c['outpntarr'].n >= 5 * c['ntod'],
     FA([k], Imp(rng(k, 0, c['ntod']), And(c['outpntarr'][5 * k + 1] >= 0, c['outpntarr'][5 * k + 1] <= PI)))],
  ensures=lambda c: [('one index per sample', FA([k], Imp(rng(k, 0, c['ntod']), c['itheta0'][k] == ITH(fold(c['outpntarr'][5 * k + 1]))), c['itheta0'][k]))],
  loops={0: Loop(inv=lambda L: [('range', And(L['ii'] >= 0, L['itheta0'].n == L.old['itheta0'].n)), ('done', FA([k], Imp(rng(k, 0, L['ii']), L['itheta0'][k] == ITH(fold(L['outpntarr'][5 * k + 1]))), L['itheta0'][k]))])}, nloops=1)
def sorted_theta(a, n):
    return FA([j, k], Imp(And(j >= 0, j <= k, k < n), a[5 * j + 1] <= a[5 * k + 1]))
def thetas(a, n, hi=HALFPI): return FA([k], Imp(rng(k, 0, n), And(a[5 * k + 1] >= 0, a[5 * k + 1] <= hi)))
def lower_ok(L, jj, base, n): return FA([k], Imp(rng(k, 0, n), (k <= L['lowerIndex'][jj]) == (L['itheta0'][k] > base + jj - L['this.npoints'])))
def low(c, jj, base):
    t = c['itheta0']; lo = c['lowerIndex'][jj]
    return And(lo >= 0, lo < c['ntod'], t[lo] > base + jj - c['this.npoints'], FA([k], Imp(And(k > lo, k < c['ntod']), t[k] <= base + jj - c['this.npoints']), t[k]))
def upp(c, jj, base):
    t = c['itheta0']; u = c['upperIndex'][jj]
    return And(u >= 0, u < c['ntod'], t[u] <= base + jj, FA([k], Imp(And(k >= 0, k < u), t[k] > base + jj), t[k]))
def falling(c): return FA([j, k], Imp(And(j >= 0, j <= k, k < c['ntod']), c['itheta0'][j] >= c['itheta0'][k]), MP(c['itheta0'][j], c['itheta0'][k]))
def setup_common(L): return [('indices', And(L['itheta0'].n == L['ntod'], L['lowerIndex'].n == L['NThetaIndex'], L['NThetaIndex'] == L['itheta0'][0] - L['itheta0'][L['ntod'] - 1] + L['this.npoints'], L['NThetaIndex'] >= 1))]
SETUP = S('convolver::itheta0SetUp', ['outpntarr', 'ntod', 'NThetaIndex', 'itheta0', 'lowerIndex', 'upperIndex', 'TODAsym'],
  modifies=['NThetaIndex', 'itheta0', 'lowerIndex', 'upperIndex', 'TODAsym'], axioms=ith_defs, lemmas=ith_lemmas,
  requires=lambda c: grid_req(c) + [c['ntod'] >= 1, c['outpntarr'].n >= 5 * c['ntod'], thetas(c['outpntarr'], c['ntod']), sorted_theta(c['outpntarr'], c['ntod'])],
  ensures=lambda c: [('one index per sample', And(c['itheta0'].n == c['ntod'], FA([k], Imp(rng(k, 0, c['ntod']), c['itheta0'][k] == ITH(c['outpntarr'][5 * k + 1])), c['itheta0'][k]))),
     ('indices fall', falling(c)),
     ('every stencil on the grid', FA([k], Imp(rng(k, 0, c['ntod']), And(c['itheta0'][k] >= 0, c['itheta0'][k] <= c['this.ntheta'] - c['this.npoints'])), c['itheta0'][k])),
     ('latitudes of all stencils', And(c['NThetaIndex'] == c['itheta0'][0] - c['itheta0'][c['ntod'] - 1] + c['this.npoints'], c['NThetaIndex'] >= c['this.npoints'])),
     ('latitudes on the grid', And(c['itheta0'][c['ntod'] - 1] >= 0, c['itheta0'][c['ntod'] - 1] + c['NThetaIndex'] <= c['this.ntheta'])),
     ('sizes', And(c['lowerIndex'].n == c['NThetaIndex'], c['upperIndex'].n == c['NThetaIndex'], c['TODAsym'].dim(0) == c['this.nphi'], c['TODAsym'].dim(1) == c['this.npsi'], c['TODAsym'].dim(2) == c['NThetaIndex'])),
     ('last sample whose stencil reaches a latitude', FA([j], Imp(rng(j, 0, c['NThetaIndex']), low(c, j, c['itheta0'][c['ntod'] - 1])), c['lowerIndex'][j])),
     ('first sample whose stencil reaches a latitude', FA([j], Imp(rng(j, 0, c['NThetaIndex']), upp(c, j, c['itheta0'][c['ntod'] - 1])), c['upperIndex'][j]))],
  loops={0: Loop(inv=lambda L: setup_common(L) + [('range', L['jj'] >= 0), ('falling', falling(L)), ('done', FA([j], Imp(And(j >= 0, j < L['jj'], j < L['NThetaIndex']), low(L, j, L['itheta0'][L['ntod'] - 1])), L['lowerIndex'][j]))]),
         1: Loop(inv=lambda L: setup_common(L) + [('range', And(L['ii'] >= -1, L['ii'] < L['ntod'])), ('passed', FA([k], Imp(And(k > L['ii'], k < L['ntod']), L['itheta0'][k] <= L['itheta0'][L['ntod'] - 1] + L['jj'] - L['this.npoints']), L['itheta0'][k])),
             ('kept', FA([j], Imp(rng(j, 0, L['NThetaIndex']), L['lowerIndex'][j] == L.before['lowerIndex'][j]), L['lowerIndex'][j]))]),
         2: Loop(inv=lambda L: setup_common(L) + [('range', And(L['jj'] >= 0, L['upperIndex'].n == L['NThetaIndex'])), ('falling', falling(L)), ('done', FA([j], Imp(And(j >= 0, j < L['jj'], j < L['NThetaIndex']), upp(L, j, L['itheta0'][L['ntod'] - 1])), L['upperIndex'][j]))]),
         3: Loop(inv=lambda L: setup_common(L) + [('range', And(L['ii'] >= 0, L['ii'] <= L['ntod'], L['upperIndex'].n == L['NThetaIndex'])), ('passed', FA([k], Imp(And(k >= 0, k < L['ii']), L['itheta0'][k] > L['itheta0'][L['ntod'] - 1] + L['jj']), L['itheta0'][k])),
             ('kept', FA([j], Imp(rng(j, 0, L['NThetaIndex']), L['upperIndex'][j] == L.before['upperIndex'][j]), L['upperIndex'][j]))])}, nloops=4)
C06 = [BTI.key, 'convolver::itheta_to_beta1', 'convolver::itheta_to_beta2', ICALC.key, SETUP.key]
PROPS = dict(C12=C12, C05=C05, C06=C06)
