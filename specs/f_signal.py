"""From the data cube to the signal: conviqt_tod_loop (C02, C06)."""
from .base import *
from . import e_grid as G
from .e_grid import T, ITH, LW, grid_req, low, upp, falling, base_ok, BIG
from .c_helpers import FMD, FMDEF, FMK, FMUNIQ, CANDEF, CAND
from dv.models import SIN, COS
SPECS, MODELS = [], {}
def S(name, params=None, key=None, unit=None, **k):
    s = Spec(name, params, key=key or name, unit=unit, **k); SPECS.append(s); return s
A3 = z3.ArraySort(I, I, I, R)
CA = z3.Function('cos_multiple', R, I, R)          # real and imaginary part of exp(i k o), by powers
SA = z3.Function('sin_multiple', R, I, R)
XS = z3.Function('beam_sum', A3, A3, I, R, I, I, R)
WR = z3.Function('wrapped', I, I, I)
PS = z3.Function('node_sum', A3, A3, I, R, R, I, R, I, I, I, I, R)
re_, im_ = z3.Const('re_', A3), z3.Const('im_', A3)
o_, f_, w_ = z3.Reals('o_ f_ w_'); lat_, r_, K_, N_, S_, P_, a_, i0_ = z3.Ints('lat_ r_ K_ N_ S_ P_ a_ i0_')
def CW(o, kk): return z3.If(kk == 0, rv('0.5'), CA(o, kk))
ANG = [FA([o_], And(CA(o_, iv(0)) == 1, SA(o_, iv(0)) == 0), CA(o_, iv(0)), SA(o_, iv(0))),
       FA([o_, K_], Imp(K_ >= 0, And(CA(o_, K_ + 1) == CA(o_, K_) * COS(o_) - SA(o_, K_) * SIN(o_), SA(o_, K_ + 1) == SA(o_, K_) * COS(o_) + CA(o_, K_) * SIN(o_))), CA(o_, K_ + 1), SA(o_, K_ + 1))]
XSD = [FA([re_, im_, lat_, o_, r_], XS(re_, im_, lat_, o_, r_, iv(0)) == 0, XS(re_, im_, lat_, o_, r_, iv(0))),
       FA([re_, im_, lat_, o_, r_, K_], Imp(K_ >= 0, XS(re_, im_, lat_, o_, r_, K_ + 1) == XS(re_, im_, lat_, o_, r_, K_) + (CW(o_, K_) * sel(re_, [r_, K_, lat_]) - SA(o_, K_) * sel(im_, [r_, K_, lat_]))), XS(re_, im_, lat_, o_, r_, K_ + 1))]
MARK = z3.Function('unwrap', I, B)      # true everywhere; only steers instantiation
# wrapped(N, a): a modulo N
WRD = [FA([N_, a_], Imp(And(N_ >= 1, a_ >= 0, a_ < N_), WR(N_, a_) == a_), WR(N_, a_)),
       FA([N_, a_], Imp(And(N_ >= 1, a_ >= N_), WR(N_, a_) == WR(N_, a_ - N_)), MP(WR(N_, a_), MARK(a_))),
       FA([N_, a_], Imp(And(N_ >= 1, a_ < 0), WR(N_, a_) == WR(N_, a_ + N_)), MP(WR(N_, a_), MARK(a_))), FA([a_], MARK(a_), MARK(a_))]
def PSa(n, re=re_, im=im_, lat=lat_, o=o_, f=f_, i0=i0_, w=w_, N=N_, S=S_, P=P_): return PS(re, im, lat, o, f, i0, w, N, S, P, n)
PSD = [FA([re_, im_, lat_, o_, f_, i0_, w_, N_, S_, P_], PSa(iv(0)) == 0, PSa(iv(0))),
       FA([re_, im_, lat_, o_, f_, i0_, w_, N_, S_, P_, n], Imp(n >= 0, PSa(n + 1) == PSa(n) + LW(f_, n, P_) * w_ * XS(re_, im_, lat_, o_, WR(N_, i0_ + n), S_)), PSa(n + 1))]
def sample(c, row, lat, node):
    """contribution of latitude `lat` of the cube to a sample; node: number of that latitude in the sample's stencil"""
    t = lambda f: c['this.' + f]
    phi, theta, psi = row
    f = FMD(phi * t('inv_delta_phi') - t('phioffset'), T(t('nphi')))
    i0 = z3.ToInt(f) - t('ioffset')
    w1 = LW((theta - t('theta0')) * t('inv_delta_theta') - T(ITH(theta)), node, t('npoints'))
    cube = c['TODAsym']
    return PSa(t('npoints'), cube.raw('.re'), cube.raw('.im'), lat, psi + HALFPI, f - T(i0), WR(t('nphi'), i0), 2 * w1, t('nphi'), t('npsi'), t('npoints'))
def row(c, q): a = c['outpntarr']; return a[5 * q], a[5 * q + 1], a[5 * q + 2]
def base(c): return c['itheta0'][c['ntod'] - 1]
def tnode(c, q): return c['thetaIndex'] + base(c) - c['itheta0'][q]
def newval(c, q): return c.old['TODValue'][q] + z3.If(And(tnode(c, q) >= 0, tnode(c, q) < c['this.npoints']), sample(c, row(c, q), c['lat'], tnode(c, q)), 0)
def weights_or_none(c): return Or(c['this.base_wgt'].n == 0, And(c['this.base_wgt'].n == c['this.npoints'], base_ok(c['this.base_wgt'], c['this.npoints'])))
def tl_dims(L): return [('sizes', And(L['conviqtarr'].dim(0) == L['this.nphi'], L['conviqtarr'].dim(1) == L['this.npsi']))]
def copied(L, lim):
    return ('copied', FA([i, j], Imp(And(i >= 0, i < lim, j >= 0, j < L['this.npsi']), And(*[L['conviqtarr'].at(i, j, leaf=x) == L['TODAsym'].at(i, j, L['lat'], leaf=x) for x in ('.re', '.im')])), *[L['conviqtarr'].at(i, j, leaf=x) for x in ('.re', '.im')]))
def omega(L): return L['outpntarr'][5 * L['ii'] + 2] + HALFPI
def vecs(L): return ('vectors', And(L['cosang'].n == L['this.npsi'], L['sinang'].n == L['this.npsi'], L['wgt1'].n == L['this.npoints'], L['wgt2'].n == L['this.npoints']))
def frac0(L): return FMD(L['outpntarr'][5 * L['ii']] * L['this.inv_delta_phi'] - L['this.phioffset'], T(L['this.nphi']))
def i00(L): return z3.ToInt(frac0(L)) - L['this.ioffset']
def w1of(L):
    phi, theta, psi = row(L, L['ii'])
    return LW((theta - L['this.theta0']) * L['this.inv_delta_theta'] - T(ITH(theta)), tnode(L, L['ii']), L['this.npoints'])
def part(L, nn):
    ii = L['ii']; cube = L['TODAsym']
    phi, theta, psi = row(L, ii)
    w1 = LW((theta - L['this.theta0']) * L['this.inv_delta_theta'] - T(ITH(theta)), tnode(L, ii), L['this.npoints'])
    return PSa(nn, cube.raw('.re'), cube.raw('.im'), L['lat'], psi + HALFPI, frac0(L) - T(i00(L)), WR(L['this.nphi'], i00(L)), 2 * w1, L['this.nphi'], L['this.npsi'], L['this.npoints'])
X0, Y0, Z0, QY, QZ = z3.Reals('some_longitude its_grid_position the_turned_position qy qz'); K0 = z3.Int('turns_taken')
def turn_defs(c):
    """X0: any longitude, K0: any number of turns; Y0, Z0: grid positions of X0 and of X0 + 2 pi K0"""
    N, inv, off = T(c['this.nphi']), c['this.inv_delta_phi'], c['this.phioffset']
    return [Y0 == X0 * inv - off, Z0 == (X0 + 2 * PI * T(K0)) * inv - off, QY == Y0 / N, QZ == Z0 / N]
def turns(c):
    g = dict(grid_req_named(c)); N = T(c['this.nphi']); inv = c['this.inv_delta_phi']
    dy, dz, qy, qz = turn_defs(c)
    return [Fact('ring has nodes', N >= 1, only=[g['longitudes'], c['this.lmax'] >= 0]),
        Fact('a turn is the whole ring', 2 * PI * inv == N, only=[g['longitude step']]),
        Fact('turns in grid units', Z0 == Y0 + (2 * PI * inv) * T(K0), only=[dy, dz]),
        Fact('turns in nodes', Z0 == Y0 + N * T(K0), only=['turns in grid units', 'a turn is the whole ring']),
        Fact('turns in rings', QZ == QY + T(K0), only=['turns in nodes', 'ring has nodes', qy, qz]),
        Fact('whole rings', z3.ToInt(QZ) == z3.ToInt(QY) + K0, only=['turns in rings']),
        Fact('remainder before', FMD(Y0, N) == Y0 - N * T(z3.ToInt(QY)), only=[FMDEF, qy, 'ring has nodes']),
        Fact('remainder after', FMD(Z0, N) == Z0 - N * T(z3.ToInt(QZ)), only=[FMDEF, qz, 'ring has nodes']),
        Fact('remainder after, expanded', FMD(Z0, N) == Z0 - N * (T(z3.ToInt(QY)) + T(K0)), only=['remainder after', 'whole rings']),
        Fact('whole turns do not move a sample', FMD(Z0, N) == FMD(Y0, N), only=['turns in nodes', 'remainder before', 'remainder after, expanded'])]
def grid_req_named(c): return G.grid(c)
TODLOOP = S('convolver::conviqt_tod_loop', ['lowerIndex', 'upperIndex', 'outpntarr', 'TODAsym', 'thetaIndex', 'itheta0', 'ntod', 'TODValue', 'lat'],
  modifies=['TODValue', 'this.base_wgt'], keep_dims=['TODValue'], axioms=lambda c: ANG + XSD + WRD + PSD, throws_ok=lambda w: 'alloc' in w,
  requires=lambda c: grid_req(c) + [c['ntod'] >= 1, c['outpntarr'].n >= 5 * c['ntod'], c['itheta0'].n >= c['ntod'], c['TODValue'].n >= c['ntod'],
     FA([k], Imp(rng(k, 0, c['ntod']), c['itheta0'][k] == ITH(c['outpntarr'][5 * k + 1])), c['itheta0'][k]),
     falling(c), rng(c['thetaIndex'], 0, c['lowerIndex'].n), c['upperIndex'].n == c['lowerIndex'].n,
     low(c, c['thetaIndex'], base(c)), upp(c, c['thetaIndex'], base(c)),
     c['TODAsym'].dim(0) == c['this.nphi'], c['TODAsym'].dim(1) == c['this.npsi'], rng(c['lat'], 0, c['TODAsym'].dim(2)), weights_or_none(c)],
  ensures=lambda c: [('weights ready', And(c['this.base_wgt'].n == c['this.npoints'], base_ok(c['this.base_wgt'], c['this.npoints']))),
     ('each sample gains the contribution of this latitude', FA([q], Imp(rng(q, 0, c['ntod']), c['TODValue'][q] == newval(c, q)), c['TODValue'][q]))],
  loops={0: Loop(inv=lambda L: tl_dims(L) + [('range', And(L['ii'] >= 0, L['ii'] <= L['this.nphi'])), copied(L, L['ii'])]),
     1: Loop(inv=lambda L: tl_dims(L) + [('range', And(L['jj'] >= 0, L['jj'] <= L['this.npsi'])), copied(L, L['ii']),
         ('row', FA([j], Imp(rng(j, 0, L['jj']), And(*[L['conviqtarr'].at(L['ii'], j, leaf=x) == L['TODAsym'].at(L['ii'], j, L['lat'], leaf=x) for x in ('.re', '.im')])), *[L['conviqtarr'].at(L['ii'], j, leaf=x) for x in ('.re', '.im')]))]),
     2: Loop(inv=lambda L: [vecs(L), ('range', And(L['ii'] <= L['lowerIndex'][L['thetaIndex']], L['ii'] >= L['upperIndex'][L['thetaIndex']] - 1)), ('size', L['TODValue'].n == L.old['TODValue'].n),
         ('done', FA([q], Imp(And(q > L['ii'], q <= L['lowerIndex'][L['thetaIndex']]), L['TODValue'][q] == L.old['TODValue'][q] + sample(L, row(L, q), L['lat'], tnode(L, q))), L['TODValue'][q])),
         ('todo', FA([q], Imp(And(rng(q, 0, L['ntod']), Or(q <= L['ii'], q > L['lowerIndex'][L['thetaIndex']])), L['TODValue'][q] == L.old['TODValue'][q]), L['TODValue'][q]))],
         after=lambda L: [('samples reached', FA([q], Imp(rng(q, 0, L['ntod']), And(tnode(L, q) >= 0, tnode(L, q) < L['this.npoints']) == And(q >= L['upperIndex'][L['thetaIndex']], q <= L['lowerIndex'][L['thetaIndex']])), L['itheta0'][q]))]),
     3: Loop(inv=lambda L: [('same residue', WR(L['this.nphi'], L['iphi0']) == WR(L['this.nphi'], i00(L)))], variant=lambda L: L['iphi0'], body_hints=lambda L: [MARK(L['iphi0'])]),
     4: Loop(inv=lambda L: [('same residue', WR(L['this.nphi'], L['iphi0']) == WR(L['this.nphi'], i00(L))), ('below', L['iphi0'] < L['this.nphi'])], variant=lambda L: -L['iphi0'], body_hints=lambda L: [MARK(L['iphi0'])],
         after=lambda L: [('first node', And(L['iphi0'] == WR(L['this.nphi'], i00(L)), rng(L['iphi0'], 0, L['this.nphi']))),
             ('index of the sample', L['itheta0'][L['ii']] == ITH(L['outpntarr'][5 * L['ii'] + 1])),
             ('position', (L['outpntarr'][5 * L['ii'] + 1] - L['this.theta0']) * L['this.inv_delta_theta'] - T(L['itheta0'][L['ii']]) == (L['outpntarr'][5 * L['ii'] + 1] - L['this.theta0']) * L['this.inv_delta_theta'] - T(ITH(L['outpntarr'][5 * L['ii'] + 1]))),
             ('node of the stencil', rng(tnode(L, L['ii']), 0, L['this.npoints'])),
             ('latitude weight', L['wgt1'][tnode(L, L['ii'])] == w1of(L))]),
     5: Loop(inv=lambda L: [('vectors', And(L['cosang'].n == L['this.npsi'], L['sinang'].n == L['this.npsi'])), ('range', And(L['ipsi'] >= 0, L['ipsi'] < L['this.npsi'])), ('terms', And(L['cosomg'] == COS(omega(L)), L['sinomg'] == SIN(omega(L)))),
         ('powers', FA([k], Imp(And(k >= 0, k <= L['ipsi']), And(L['cosang'][k] == CA(omega(L), k), L['sinang'][k] == SA(omega(L), k))), L['cosang'][k], L['sinang'][k]))],
         at_end=lambda L: [('earlier power', And(L['cosang'][L['ipsi'] - 1] == CA(omega(L), L['ipsi'] - 1), L['sinang'][L['ipsi'] - 1] == SA(omega(L), L['ipsi'] - 1))),
             ('definition', And(CA(omega(L), L['ipsi']) == CA(omega(L), L['ipsi'] - 1) * COS(omega(L)) - SA(omega(L), L['ipsi'] - 1) * SIN(omega(L)), SA(omega(L), L['ipsi']) == SA(omega(L), L['ipsi'] - 1) * COS(omega(L)) + CA(omega(L), L['ipsi'] - 1) * SIN(omega(L)))),
             ('stored', And(L['cosang'][L['ipsi']] == L['cosang'][L['ipsi'] - 1] * L['cosomg'] - L['sinang'][L['ipsi'] - 1] * L['sinomg'], L['sinang'][L['ipsi']] == L['sinang'][L['ipsi'] - 1] * L['cosomg'] + L['cosang'][L['ipsi'] - 1] * L['sinomg'])),
             ('terms', And(L['cosomg'] == COS(omega(L)), L['sinomg'] == SIN(omega(L)))),
             ('kept', FA([k], Imp(rng(k, 0, L['ipsi']), And(L['cosang'][k] == CA(omega(L), k), L['sinang'][k] == SA(omega(L), k))))),
             ('next power', And(L['cosang'][L['ipsi']] == CA(omega(L), L['ipsi']), L['sinang'][L['ipsi']] == SA(omega(L), L['ipsi'])))]),
     6: Loop(inv=lambda L: [vecs(L), ('range', And(L['iphi'] >= 0, L['iphi'] <= L['this.npoints'], L['TODValue'].n == L.old['TODValue'].n)),
         ('first node', And(L['iphi0'] == WR(L['this.nphi'], i00(L)), rng(L['iphi0'], 0, L['this.nphi']))),
         ('beam angles', FA([k], Imp(rng(k, 0, L['this.npsi']), And(L['cosang'][k] == CW(omega(L), k), L['sinang'][k] == SA(omega(L), k))), L['cosang'][k], L['sinang'][k])),
         ('latitude weight', L['weight1'] == 2 * w1of(L)), ('longitude weights', FA([k], Imp(rng(k, 0, L['this.npoints']), L['wgt2'][k] == LW(frac0(L) - T(i00(L)), k, L['this.npoints'])), L['wgt2'][k])),
         ('sum so far', L['TODValue'][L['ii']] == L.before['TODValue'][L['ii']] + part(L, L['iphi'])),
         ('others', FA([q], Imp(And(rng(q, 0, L['ntod']), q != L['ii']), L['TODValue'][q] == L.before['TODValue'][q]), L['TODValue'][q]))],
         after=lambda L: [('complete', L['TODValue'][L['ii']] == L.old['TODValue'][L['ii']] + sample(L, row(L, L['ii']), L['lat'], tnode(L, L['ii'])))]),
     7: Loop(inv=lambda L: [('same residue', WR(L['this.nphi'], L['iphinew']) == WR(L['this.nphi'], L['iphi0'] + L['iphi'])), ('not negative', L['iphinew'] >= 0)], variant=lambda L: L['iphinew'], body_hints=lambda L: [MARK(L['iphinew'])],
         after=lambda L: [('node', And(L['iphinew'] == WR(L['this.nphi'], L['iphi0'] + L['iphi']), rng(L['iphinew'], 0, L['this.nphi'])))]),
     8: Loop(inv=lambda L: [('range', And(L['ipsi'] >= 0, L['ipsi'] <= L['this.npsi'])),
         ('sum over the beam', L['x'] == XS(L['TODAsym'].raw('.re'), L['TODAsym'].raw('.im'), L['lat'], omega(L), L['iphinew'], L['ipsi']))],
         after=lambda L: [('beam sum of the node', L['x'] == XS(L['TODAsym'].raw('.re'), L['TODAsym'].raw('.im'), L['lat'], omega(L), WR(L['this.nphi'], WR(L['this.nphi'], i00(L)) + L['iphi']), L['this.npsi'])),
             ('next term', part(L, L['iphi'] + 1) == part(L, L['iphi']) + LW(frac0(L) - T(i00(L)), L['iphi'], L['this.npoints']) * (2 * w1of(L)) * XS(L['TODAsym'].raw('.re'), L['TODAsym'].raw('.im'), L['lat'], omega(L), WR(L['this.nphi'], WR(L['this.nphi'], i00(L)) + L['iphi']), L['this.npsi'])),
             ('the term added', L['weight'] * L['x'] == part(L, L['iphi'] + 1) - part(L, L['iphi']))])}, nloops=9)
PROPS = dict(C06=[TODLOOP.key], C02=[TODLOOP.key])

# a lemma over the grid relations only; attached to the accessor of a latitude so that it has a home
S('convolver::itheta_to_beta1', ['itheta'], key='longitude turns', requires=lambda c: grid_req(c), axioms=lambda c: [FMDEF] + turn_defs(c), lemmas=turns, ensures=lambda c: [])
PROPS['C06'].append('longitude turns')
