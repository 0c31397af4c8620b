"""From the pointing to the signals of all samples: arrFillingcm, interpolTOD, todgen (C01, C02)."""
from .base import *
from . import b_sort as BS
from .e_grid import T, ITH, LW, RANK, NRANKS, grid_req, base_ok, fold, thetas, sorted_theta, ith_defs, ith_lemmas
from .f_signal import A3, XS, PS, PSa, WR, WRD, PSD, XSD, ANG, MARK, re_, im_, lat_, o_, f_, w_, r_, K_, N_, S_, P_, a_, i0_, weights_or_none, CW, SA
from .c_helpers import FMD
SPECS, MODELS = [], {}
def S(name, params=None, key=None, unit=None, **k):
    s = Spec(name, params, key=key or name, unit=unit, **k); SPECS.append(s); return s

ROW, ROWQ = z3.Function('row_term', I, B), z3.Function('row_origin_term', I, B)      # true everywhere; only steer instantiation
ROWS = [FA([k], ROW(k), ROW(k)), FA([k], ROWQ(k), ROWQ(k))]
# ---------------------------------------------------------------- one hemisphere, folded and sorted
def rows_from(x, o, P, n, off):
    """row k of x is row off + P(k) of o, folded to the northern hemisphere"""
    return FA([k], Imp(rng(k, 0, n), And(ROW(P(k) + off), *[x[5 * k + r] == (fold(o[5 * (P(k) + off) + r]) if r == 1 else o[5 * (P(k) + off) + r]) for r in range(5)])), P(k), *[x[5 * k + r] for r in range(5)])
def arrf_ens(c):
    c.spec_ = ARRF
    P, Q = BS.perm(c)
    n, off, x, o = c['ntod'], c['offindex'], c['outpntarrx'], c['outpntarr']
    return [('size', x.n == 5 * n)] + BS.is_perm(P, Q, n) + [('origin', FA([k], ROW(Q(k)), ROWQ(k))), ('folded rows move whole', rows_from(x, o, P, n, off)),
        ('rows in order', FA([j, k], Imp(And(j >= 0, j < k, k < n, P(j) >= 0, P(k) >= 0), x[5 * j + 1] <= x[5 * k + 1]), MP(P(j), P(k)))),
        ('sorted', sorted_theta(x, n)),
        ('co-latitudes of the hemisphere', thetas(x, n))]
def arrf_inv(L):
    x, o, off, ii = L['outpntarrx'], L['outpntarr'], L['offindex'], L['ii']
    return [('size', And(x.n == 5 * L['ntod'], ii >= 0, ii <= L['ntod'])),
            ('copied', FA([k], Imp(rng(k, 0, ii), And(*[x[5 * k + r] == (fold(o[5 * (k + off) + r]) if r == 1 else o[5 * (k + off) + r]) for r in range(5)])), *[x[5 * k + r] for r in range(5)]))]
ARRF = S('convolver::arrFillingcm', ['ntod', 'outpntarrx', 'outpntarr', 'offindex'], modifies=['outpntarrx'], throws_ok=lambda w: 'alloc' in w, axioms=lambda c: ROWS,
  requires=lambda c: [c['ntod'] >= 0, c['offindex'] >= 0, c['outpntarr'].n >= 5 * (c['offindex'] + c['ntod']),
     FA([k], Imp(And(rng(k, 0, c['ntod']), ROW(k + c['offindex'])), And(c['outpntarr'][5 * (k + c['offindex']) + 1] >= 0, c['outpntarr'][5 * (k + c['offindex']) + 1] <= PI)), c['outpntarr'][5 * (k + c['offindex']) + 1])],
  ensures=arrf_ens, loops={0: Loop(inv=arrf_inv)}, nloops=1)
BS.NAMES.add('convolver::arrFillingcm')
# ---------------------------------------------------------------- the cube, and sums over a stencil
# CUBE_RE(h), CUBE_IM(h): the data cube of hemisphere h (0: north, 1: south), indexed by longitude, beam m and latitude of the whole grid
CUBE_RE, CUBE_IM = z3.Function('cube_re', I, A3), z3.Function('cube_im', I, A3)
AGREE = z3.Function('same_latitude', A3, A3, I, A3, A3, I, I, I, B)
rb_, ib_ = z3.Const('rb_', A3), z3.Const('ib_', A3); lb_ = z3.Int('lb_'); h_, t_ = z3.Ints('h_ t_'); ph_, th_, ps_ = z3.Reals('ph_ th_ ps_')
AG = AGREE(re_, im_, lat_, rb_, ib_, lb_, N_, S_)
ABND = [re_, im_, lat_, rb_, ib_, lb_, N_, S_]
def same_cell(r, kk): return And(sel(re_, [r, kk, lat_]) == sel(rb_, [r, kk, lb_]), sel(im_, [r, kk, lat_]) == sel(ib_, [r, kk, lb_]))
AGREE_ELIM = FA(ABND + [r_, K_], Imp(And(AG, rng(r_, 0, N_), rng(K_, 0, S_)), same_cell(r_, K_)), MP(AG, sel(re_, [r_, K_, lat_])), MP(AG, sel(im_, [r_, K_, lat_])))
AGREE_INTRO = FA(ABND, Imp(FA([r_, K_], Imp(And(rng(r_, 0, N_), rng(K_, 0, S_)), same_cell(r_, K_))), AG), AG)
ND = z3.Function('node_of_stencil', I, R, R, R, I, R)    # contribution of node t of the stencil of a sample
NS = z3.Function('nodes_of_stencil', I, R, R, R, I, R)   # sum over the first t nodes
SIG = z3.Function('signal', I, R, R, R, R)               # the signal of a sample: hemisphere, longitude, folded co-latitude, beam angle
def node_defs(c):
    t = lambda f: c['this.' + f]
    f = FMD(ph_ * t('inv_delta_phi') - t('phioffset'), T(t('nphi')))
    i0 = z3.ToInt(f) - t('ioffset')
    w1 = LW((th_ - t('theta0')) * t('inv_delta_theta') - T(ITH(th_)), t_, t('npoints'))
    v = [h_, ph_, th_, ps_]
    nd = ND(*v, t_); ns = NS(*v, t_)
    return [FA(v + [t_], nd == PSa(t('npoints'), CUBE_RE(h_), CUBE_IM(h_), ITH(th_) + t_, ps_ + HALFPI, f - T(i0), WR(t('nphi'), i0), 2 * w1, t('nphi'), t('npsi'), t('npoints')), nd),
            FA(v, NS(*v, iv(0)) == 0, NS(*v, iv(0))),
            FA(v + [t_, n], Imp(And(t_ >= 0, n == t_ + 1), NS(*v, n) == ns + ND(*v, t_)), MP(ns, NS(*v, n))),
            FA(v, SIG(*v) == NS(*v, t('npoints')), SIG(*v))]
def wr_range(N, a): return And(WR(N, a) >= 0, WR(N, a) < N)
def cube_lemmas(c):
    Bd, K, NN = z3.Ints('Bd K NN')
    xs1, xs2 = XS(re_, im_, lat_, o_, r_, K), XS(rb_, ib_, lb_, o_, r_, K)
    p1, p2 = PSa(NN), PSa(NN, re=rb_, im=ib_, lat=lb_)
    return [Induct('residues up to a bound', Bd, ([N_, a_], Imp(And(N_ >= 1, a_ >= -Bd, a_ < N_ + Bd, MARK(a_)), wr_range(N_, a_))), only=WRD),
        Fact('residues', FA([N_, a_], Imp(N_ >= 1, wr_range(N_, a_)), WR(N_, a_)), only=['residues up to a bound', WRD[3]]),
        Induct('beam sums agree', K, (ABND + [o_, r_], Imp(And(AG, rng(r_, 0, N_), K <= S_), xs1 == xs2)), pats=[MP(AG, xs1)], only=XSD + [AGREE_ELIM]),
        Induct('node sums agree', NN, (ABND + [o_, f_, i0_, w_, P_], Imp(And(AG, N_ >= 1, S_ >= 0), p1 == p2)), pats=[MP(AG, p1)], only=PSD + ['beam sums agree', 'residues'])]

def hemi_ens(c):
    out = []
    for h in (0, 1):
        t = c['tod%d' % (h + 1)]
        out.append(('the latitudes of the cube', FA([k], Imp(rng(k, 0, c['NThetaIndex%d' % (h + 1)]), AGREE(t.raw('.re'), t.raw('.im'), k, CUBE_RE(iv(h)), CUBE_IM(iv(h)), c['ithetaoffset%d' % (h + 1)] + k, c['this.nphi'], c['this.npsi'])), *[AGREE(t.raw('.re'), t.raw('.im'), k, rb_, ib_, lb_, N_, S_)][:0])))
    return out
def cube_req(c, comps=None):
    """what building the data cube needs: the process grid, and expansions that reach the orders of the convolver"""
    lm, mm = c['this.lmax'], c['this.beammmax']
    def ok(x):
        s, b = c['this.s.slm%s_' % x], c['this.b.blm%s_' % x]
        return And(s.dim(0) >= lm, s.dim(1) >= lm, s.dim(1) <= s.dim(0), b.dim(0) >= lm, b.dim(1) >= mm, b.dim(1) <= b.dim(0))
    out = [c['this.cores'] == NRANKS, c['this.corenum'] == RANK, NRANKS >= 1, RANK >= 0, RANK < NRANKS, lm >= 1]
    if comps: return out + [ok(x) for x in comps]
    return out + [ok('T'), Imp(c['this.pol'], And(c['this.s.pol'], c['this.b.pol'], ok('G'), ok('C')))]
def irow(a, q): return a[5 * q], a[5 * q + 1], a[5 * q + 2]
def clampn(e, hi): return z3.If(e < 0, 0, z3.If(e > hi, hi, e))
def stencil_term(c, row, lat, node, re, im):
    t = lambda f: c['this.' + f]
    phi, theta, psi = row
    f = FMD(phi * t('inv_delta_phi') - t('phioffset'), T(t('nphi')))
    i0 = z3.ToInt(f) - t('ioffset')
    w1 = LW((theta - t('theta0')) * t('inv_delta_theta') - T(ITH(theta)), node, t('npoints'))
    return PSa(t('npoints'), re, im, lat, psi + HALFPI, f - T(i0), WR(t('nphi'), i0), 2 * w1, t('nphi'), t('npsi'), t('npoints'))
def interp_end(h):
    def end(L):
        s = str(h + 1)
        ti, it0, nt, npt = L['thetaIndex'] - 1, L['itheta0_' + s], L['ntod' + s], L['this.npoints']
        base = it0[nt - 1]
        tv, t0, a, cube = L['TODValue' + s], L.start['TODValue' + s], L['outpntarr' + s], L['TODAsym' + s]
        row = lambda q: irow(a, q)
        node = lambda q: ti + base - it0[q]
        inn = lambda q: And(node(q) >= 0, node(q) < npt)
        ag = AGREE(cube.raw('.re'), cube.raw('.im'), ti, CUBE_RE(iv(h)), CUBE_IM(iv(h)), base + ti, L['this.nphi'], L['this.npsi'])
        mine = lambda q: stencil_term(L, row(q), ti, node(q), cube.raw('.re'), cube.raw('.im'))
        glob = lambda q: stencil_term(L, row(q), base + ti, node(q), CUBE_RE(iv(h)), CUBE_IM(iv(h)))
        x = lambda q, f: FA([q], Imp(rng(q, 0, nt), f), tv[q], it0[q])
        return [('latitude of the cube', ag),
            ('index', x(q, it0[q] == ITH(a[5 * q + 1]))),
            ('gain', x(q, tv[q] == t0[q] + z3.If(inn(q), mine(q), 0))),
            ('latitude', x(q, ITH(a[5 * q + 1]) + node(q) == base + ti)),
            ('the same in the whole cube', x(q, mine(q) == glob(q))),
            ('node', x(q, ND(iv(h), *row(q), node(q)) == glob(q))),
            ('gain of a node', x(q, tv[q] == t0[q] + z3.If(inn(q), ND(iv(h), *row(q), node(q)), 0))),
            ('one node more', x(q, NS(iv(h), *row(q), clampn(node(q) + 1, npt)) == NS(iv(h), *row(q), clampn(node(q), npt)) + z3.If(inn(q), ND(iv(h), *row(q), node(q)), 0))),
            ('nodes before', x(q, t0[q] == L.old['TODValue' + s][q] + NS(iv(h), *row(q), clampn(node(q), npt))))]
    return end
def interp_inv(h):
    def inv(L):
        s = str(h + 1)
        ti, it0, nt = L['thetaIndex'], L['itheta0_' + s], L['ntod' + s]
        base = it0[nt - 1]
        tv, a = L['TODValue' + s], L['outpntarr' + s]
        return [('range', And(ti >= 0, ti <= L['NThetaIndex' + s])), ('size', tv.n == L.old['TODValue' + s].n), ('weights', weights_or_none(L)),
            ('nodes so far', FA([q], Imp(rng(q, 0, nt), tv[q] == L.old['TODValue' + s][q] + NS(iv(h), *irow(a, q), clampn(ti + base - it0[q], L['this.npoints']))), tv[q]))]
    return inv
def interp_req(c):
    out = grid_req(c) + cube_req(c) + [weights_or_none(c)]
    for h in '12':
        n, a, t = c['ntod' + h], c['outpntarr' + h], c['TODValue' + h]
        out += [n >= 0, Imp(n > 0, And(a.n >= 5 * n, t.n >= n, thetas(a, n), sorted_theta(a, n)))]
    return out
def interp_ens(c):
    out = [('weights', weights_or_none(c))]
    for h in (0, 1):
        s = str(h + 1); n, a, t, o = c['ntod' + s], c['outpntarr' + s], c['TODValue' + s], c.old['TODValue' + s]
        out.append(('every sample gains its signal', FA([q], Imp(rng(q, 0, n), t[q] == o[q] + SIG(iv(h), *irow(a, q))), t[q])))
    return out
INTERP = S('convolver::interpolTOD', ['outpntarr1', 'outpntarr2', 'TODValue1', 'TODValue2', 'ntod1', 'ntod2'], modifies=['TODValue1', 'TODValue2', 'this.base_wgt'], keep_dims=['TODValue1', 'TODValue2'], opts=dict(merge_arrays=True),
  throws_ok=lambda w: 'alloc' in w or w.startswith('contract:convolver::conviqt_hemiscm'), exsures=lambda c: [('with what it needs, only the data cube refuses', z3.BoolVal(c.E.cur_spec.name != 'convolver::interpolTOD'))], axioms=lambda c: ith_defs(c) + ANG + XSD + WRD + PSD + [AGREE_ELIM] + node_defs(c), lemmas=cube_lemmas,
  requires=interp_req, ensures=interp_ens,
  loops={1: Loop(inv=interp_inv(0), at_end=interp_end(0)), 2: Loop(inv=interp_inv(1), at_end=interp_end(1))}, nloops=3)
# ---------------------------------------------------------------- todgen
def hrow(a, q): return a[5 * q], fold(a[5 * q + 1]), a[5 * q + 2]
def others_same(a, o, n):
    return FA([j], Imp(rng(j, 0, n), And(*[a[5 * j + r] == o[5 * j + r] for r in (0, 1, 2, 4)])), *[a[5 * j + r] for r in (0, 1, 2, 4)], ROW(j))
def todgen_req(c):
    a, N = c['outpntarr'], c['ntod1'] + c['ntod2']
    return grid_req(c) + cube_req(c) + [weights_or_none(c), c['ntod1'] >= 0, c['ntod2'] >= 0, a.n >= 5 * N,
        FA([k], Imp(rng(k, 0, N), And(a[5 * k + 1] >= 0, a[5 * k + 1] <= PI)), a[5 * k + 1], ROW(k))]
def todgen_ens(c):
    a, o, n1, n2 = c['outpntarr'], c.old['outpntarr'], c['ntod1'], c['ntod2']
    return [('weights', weights_or_none(c)), ('size', a.n == o.n), ('pointing stays', others_same(a, o, n1 + n2)),
        ('signals of the first rows from the north', FA([k], Imp(rng(k, 0, n1), a[5 * k + 3] == SIG(iv(0), *hrow(o, k))), a[5 * k + 3], ROW(k))),
        ('signals of the other rows from the south', FA([k], Imp(rng(k, n1, n1 + n2), a[5 * k + 3] == SIG(iv(1), *hrow(o, k))), a[5 * k + 3], ROW(k)))]
def tperm(L, h): return L.E.ghost['perm'][h]
def tg_names(L, h):
    s = '2' if h else ''
    return L['outpntarr%d' % (h + 1)], L['todTest_arr' + s], L['ntod%d' % (h + 1)], (L['ntod1'] if h else iv(0))
def tg_inv(h):
    def inv(L):
        a, ii = L['outpntarr'], L['ii']
        b, o = L.before['outpntarr'], L.old['outpntarr']
        P, Q = tperm(L, h)
        x, tv, nh, off = tg_names(L, h)
        n1, n2 = L['ntod1'], L['ntod2']
        out = [('range', And(ii >= 0, ii <= nh)), ('size', a.n == b.n), ('pointing stays', others_same(a, o, n1 + n2)),
            ('number of the row', FA([k], Imp(rng(k, 0, nh), And(rng(P(k), 0, nh), Q(P(k)) == k, x[5 * k + 3] == T(P(k) + off))), P(k), x[5 * k + 3])),
            ('signals', FA([k], Imp(rng(k, 0, nh), tv[k] == SIG(iv(h), *irow(x, k))), tv[k])),
            ('placed', FA([k], Imp(rng(k, 0, ii), a[5 * (P(k) + off) + 3] == tv[k]), P(k)))]
        if h == 1: out.append(('northern signals', FA([k], Imp(rng(k, 0, n1), a[5 * k + 3] == SIG(iv(0), *hrow(o, k))), a[5 * k + 3], ROW(k))))
        return out
    return inv
def tg_after(h):
    def after(L):
        a, o = L['outpntarr'], L.old['outpntarr']
        P, Q = tperm(L, h)
        x, tv, nh, off = tg_names(L, h)
        return [('placed signals', FA([k], Imp(rng(k, 0, nh), a[5 * (P(k) + off) + 3] == SIG(iv(h), *irow(x, k))), P(k))),
            ('folded row', FA([k], Imp(rng(k, 0, nh), And(*[u == v for u, v in zip(irow(x, k), hrow(o, P(k) + off))])), P(k))),
            ('signals of rows', FA([k], Imp(And(rng(k, 0, nh), ROWQ(k)), a[5 * (k + off) + 3] == SIG(iv(h), *hrow(o, k + off))), ROWQ(k))),
            ('signals of the hemisphere', FA([k], Imp(And(rng(k, off, off + nh), ROWQ(k - off)), a[5 * k + 3] == SIG(iv(h), *hrow(o, k))), a[5 * k + 3], ROW(k)))]
    return after
TODGEN = S('convolver::todgen', ['ntod1', 'ntod2', 'outpntarr'], modifies=['outpntarr', 'this.base_wgt'], keep_dims=['outpntarr'], opts=dict(merge_arrays=True), throws_ok=lambda w: 'alloc' in w or w == 'contract:convolver::interpolTOD', exsures=lambda c: [('with what it needs, only the data cube refuses', z3.BoolVal(c.E.cur_spec.name != 'convolver::todgen'))],
  axioms=lambda c: ROWS, requires=todgen_req, ensures=todgen_ens,
  loops={0: Loop(inv=lambda L: [('range', And(L['ii'] >= 0, L['ii'] <= L['ntod1'] + L['ntod2'])), ('size', L['outpntarr'].n == L.old['outpntarr'].n),
            ('numbered', FA([k], Imp(rng(k, 0, L['ii']), L['outpntarr'][5 * k + 3] == T(k)), L['outpntarr'][5 * k + 3], ROW(k))), ('pointing stays', others_same(L['outpntarr'], L.old['outpntarr'], L['ntod1'] + L['ntod2']))]),
         1: Loop(inv=tg_inv(0), after=tg_after(0)), 2: Loop(inv=tg_inv(1), after=tg_after(1))}, nloops=3)
# ---------------------------------------------------------------- messages that only carry totals
from dv.execu import strip_casts, LV, ArrVal, fresh_arr, lineof, Opaque, Throw, View, Ty
from dv.engine import Unsupported, coerce, fresh
from dv.models import val
def m_allreduceraw(E, st, n, this, args):
    """MPI_Allreduce of single numbers: some number"""
    E.oblige(st, 'precondition', 'allreduceRaw:one number', coerce(val(E, args[2], st), I) == 1, n)
    o = strip_casts(args[1])
    if o['kind'] != 'UnaryOperator': raise Unsupported('allreduceRaw target')
    lv = E.lv(o['inner'][0], st)
    E.wr(st, lv, E.unknown('total', lv.t))
def m_allreduce(E, st, n, this, args):
    """MPI_Allreduce of an array: an array of the same size"""
    a, b = E.lv(args[0], st), E.lv(args[1], st)
    if a.path == b.path: raise Unsupported('allreduce in place')
    x, y = E.container(st, a.path, a.t), E.container(st, b.path, b.t)
    if E.log is not None: E.log.append(('w', b.path, '*', (), st.facts[:]))
    st.v[b.path] = fresh_arr(E.uid('totals'), y.t, x.dims)
MODELS['MPI_Manager::allreduceRaw'] = m_allreduceraw; MODELS['MPI_Manager::allreduce'] = m_allreduce
NBIN = 100000
def limits_ok(a, n): return FA([k], Imp(rng(k, 0, n), And(a[k] >= 0, a[k] <= HALFPI)), a[k])
DISTR = S('convolver::distribute_colatitudes', ['pntarr', 'totsize', 'corethetaarr'], modifies=['corethetaarr'], keep_dims=['corethetaarr'], throws_ok=lambda w: 'alloc' in w,
  requires=lambda c: [c['this.cores'] >= 1, c['corethetaarr'].n == c['this.cores'], c['totsize'] >= 0, c['pntarr'].n >= 5 * c['totsize'],
     FA([k], Imp(rng(k, 0, c['totsize']), And(c['pntarr'][5 * k + 1] >= 0, c['pntarr'][5 * k + 1] <= PI)), c['pntarr'][5 * k + 1])],
  ensures=lambda c: [('the first process starts at the pole', c['corethetaarr'][0] == 0), ('limits on the northern hemisphere', limits_ok(c['corethetaarr'], c['this.cores']))],
  loops={0: Loop(inv=lambda L: [('sizes', And(L['ii'] >= 0, L['my_hits'].n == NBIN))]),
         1: Loop(inv=lambda L: [('range', And(L['corenum'] >= 1, L['ibin'] >= -1, L['ibin'] <= NBIN, L['corethetaarr'].n == L['this.cores'], L['corethetaarr'][0] == 0)), ('limits so far', limits_ok(L['corethetaarr'], z3.If(L['corenum'] <= L['this.cores'], L['corenum'], L['this.cores'])))]),
         2: Loop(inv=lambda L: [('range', And(L['ibin'] >= -1, L['ibin'] <= NBIN))], variant=lambda L: NBIN - L['ibin'])}, nloops=3)
# ---------------------------------------------------------------- convolve, run by process RANK of NRANKS
# C5(s, t): rows process s sends to process t.  A0(s, t, x, r): column r of the x-th of them; A1(t, s, x, r): of the x-th row sent back.
# Every process runs the same code: what this process guarantees about the rows it sends is what it may rely on for the rows it receives.
from .e_grid import RANK, NRANKS
from .a_partition import CNT, SC, BLK, SRC, CELL, PRE, PREFIX, AI, MARK as AMARK
from .g_load import here
ME = RANK
C5 = z3.Function('rows_sent', I, I, I)
A0, A1 = z3.Function('row_sent', I, I, I, I, R), z3.Function('row_sent_back', I, I, I, I, R)
RC, RB = z3.Function('rows_received_before', I, I), z3.Function('block_of_received_row', I, I)
SW, RW = z3.Function('packed_row', I, I, R), z3.Function('received_row', I, I, R)
S1, R1 = z3.Function('computed_row', I, I, R), z3.Function('returned_row', I, I, R)
FIVES = z3.Function('announced_by_others', AI, B); ai_ = z3.Const('ai_', AI)
SR = z3.Function('signal_of_pointing', R, R, R, R)
SRD = FA([ph_, th_, ps_], SR(ph_, th_, ps_) == SIG(z3.If(th_ < HALFPI, iv(0), iv(1)), ph_, fold(th_), ps_), SR(ph_, th_, ps_))
def five(a): return FA([k], Imp(rng(k, 0, NRANKS), sel(a, [k]) == 5 * C5(k, ME)), sel(a, [k]))
FIVED = [FA([ai_, k], Imp(And(FIVES(ai_), rng(k, 0, NRANKS)), sel(ai_, [k]) == 5 * C5(k, ME)), MP(FIVES(ai_), sel(ai_, [k]))), FA([ai_], Imp(five(ai_), FIVES(ai_)), FIVES(ai_))]
C5N = FA([j, k], C5(j, k) >= 0, C5(j, k))
RCD = [RC(iv(0)) == 0, FA([k, n], Imp(And(k >= 0, n == k + 1), RC(n) == RC(k) + C5(k, ME)), MP(RC(k), RC(n)))]
RCS = FA([k], Imp(k >= 0, RC(k + 1) == RC(k) + C5(k, ME)), C5(k, ME))
RBD = FA([i, k], Imp(And(rng(k, 0, NRANKS), RC(k) <= i, i < RC(k) + C5(k, ME)), RB(i) == k), MP(RB(i), RC(k)))
SAME = z3.Function('same_colatitudes', BS.A1, BS.A1, I, B)
aa_, bb_, xx_, nn_ = BS.aa_, BS.bb_, BS.xx_, BS.nn_
SAMED = [FA([aa_, bb_, nn_, k], Imp(And(SAME(aa_, bb_, nn_), rng(k, 0, nn_)), BS.COL1(aa_, k) == BS.COL1(bb_, k)), MP(SAME(aa_, bb_, nn_), BS.COL1(aa_, k)), MP(SAME(aa_, bb_, nn_), BS.COL1(bb_, k))),
         FA([aa_, bb_, nn_], Imp(FA([k], Imp(rng(k, 0, nn_), BS.COL1(aa_, k) == BS.COL1(bb_, k)), BS.COL1(aa_, k)), SAME(aa_, bb_, nn_)), SAME(aa_, bb_, nn_))]
TQD = [FA([xx_], BS.TB(xx_), BS.TB(xx_)), FA([aa_, xx_, k], BS.TQ(aa_, xx_, k), BS.COL1(aa_, k))]
def conv_axioms(c):
    return ROWS + PREFIX + FIVED + [C5N] + RCD + [RCS, RBD, SRD] + SAMED + TQD + BS.CBD + [BS.COLD]
def conv_lemmas(c):
    K, N = z3.Ints('K N')
    cores = [NRANKS >= 1]
    return [Induct('received rows never decrease', K, ([j], Imp(And(j >= 0, j <= K), And(RC(j) <= RC(K), RC(j) >= 0))), pats=[MP(RC(j), RC(K))], only=RCD + [RCS, C5N]),
        Induct('every received row is in a block', K, ([i], Imp(And(i >= 0, i < RC(K)), And(rng(RB(i), 0, K), RC(RB(i)) <= i, i < RC(RB(i)) + C5(RB(i), ME)))), hi=NRANKS, pats=[MP(RB(i), RC(K))], only=RCD + [RCS, RBD, C5N]),
        Induct('prefix sums of what is received', K, ([ai_], Imp(FIVES(ai_), PRE(ai_, K) == 5 * RC(K))), hi=NRANKS, pats=[MP(FIVES(ai_), PRE(ai_, K))], only=RCD + PREFIX + [RCS, FIVED[0]]),
        Fact('blocks received do not overlap', FA([j, k], Imp(And(j >= 0, j < k, k < NRANKS), RC(j) + C5(j, ME) <= RC(k)), MP(C5(j, ME), C5(k, ME))), only=['received rows never decrease', RCS]),
        Fact('blocks received lie inside', FA([k], Imp(rng(k, 0, NRANKS), And(RC(k) >= 0, RC(k) + C5(k, ME) <= RC(NRANKS))), C5(k, ME)), only=['received rows never decrease', RCS, C5N]),
        Induct('same co-latitudes, same counts', N, ([aa_, bb_, nn_, xx_], Imp(And(SAME(aa_, bb_, nn_), N <= nn_), BS.CB(aa_, xx_, N) == BS.CB(bb_, xx_, N))), pats=[MP(SAME(aa_, bb_, nn_), BS.CB(aa_, xx_, N), BS.CB(bb_, xx_, N))], only=BS.CBD + SAMED[:1])]
def exchange(L, r):
    """what is sent and received in the two exchanges of samples: offset, count and block of a row, in rows"""
    N = L['totsize']
    mine = (lambda t: SC(N, t), lambda t: CNT(N, t), BLK, N)
    theirs = (lambda t: RC(t), lambda t: C5(t, ME), RB, RC(NRANKS))
    if r == 0:
        return dict(send=mine, recv=theirs, announced=lambda t: C5(ME, t), A=A0, S=SW, Rr=RW,
            G=lambda s, t, x: [('co-latitudes on the sphere', And(A0(s, t, x, iv(1)) >= 0, A0(s, t, x, iv(1)) <= PI))],
            result=lambda u: [('received on the sphere', And(RW(u, iv(1)) >= 0, RW(u, iv(1)) <= PI))])
    return dict(send=theirs, recv=mine, announced=lambda t: C5(t, ME), A=A1, S=S1, Rr=R1,
            G=lambda s, t, x: [('the pointing comes back, column %d' % z, A1(s, t, x, iv(z)) == A0(t, s, x, iv(z))) for z in (0, 1, 2, 4)] + [
                ('with its signal', A1(s, t, x, iv(3)) == SR(*[A0(t, s, x, iv(z)) for z in (0, 1, 2)]))],
            result=lambda u: [('the pointing is back, column %d' % z, R1(u, iv(z)) == SW(u, iv(z))) for z in (0, 1, 2, 4)] + [('with its own signal', R1(u, iv(3)) == SR(*[SW(u, iv(z)) for z in (0, 1, 2)]))])
def m_scan(E, st, n, this, args):
    """MPI_Scan: on success some number not below this process's own"""
    out = E.ev(args[1], st)
    E.oblige(st, 'precondition', 'MPI_Scan:one number', coerce(val(E, args[2], st), I) == 1, n)
    v = fresh('scanned', I)
    E.wr(st, out if hasattr(out, 'idx') and not hasattr(out, 'off') else E.deref(out, st), v)
    e = fresh('mpi_error', I); st.v['ghost.scan_error'] = e; E.ghost['scan_error'] = e
    return e
def vw(E, st, lv): return View(E.container(st, lv.path, lv.t.a[0] if lv.t.k == 'ref' else lv.t))
def m_all2all(E, st, n, this, args):
    """every process receives from s the number s put at its place"""
    if 'exchange' not in E.opts: raise Unsupported('exchange without a protocol')
    L = here(E, st)
    a, b = E.lv(args[0], st), E.lv(args[1], st)
    x = vw(E, st, a)
    cnt = exchange(L, 0)['send'][1]
    E.oblige(st, 'guarantee', 'one announcement per process', x.n == NRANKS, n)
    E.oblige(st, 'guarantee', 'announcements are five numbers per row', FA([k], Imp(rng(k, 0, NRANKS), And(x[k] == 5 * cnt(k), cnt(k) >= 0)), x[k]), n)
    st.assume(FA([k], Imp(rng(k, 0, NRANKS), C5(ME, k) == cnt(k)), C5(ME, k), cnt(k)))
    if E.log is not None: E.log.append(('w', b.path, '*', (), st.facts[:]))
    st.v[b.path] = fresh_arr(E.uid('announced'), b.t, [x.n])
    y = vw(E, st, b)
    st.assume(five(y.raw())); st.assume(FIVES(y.raw()))
def m_all2allv(E, st, n, this, args):
    """rows announced are rows received: what s sends to this process arrives whole, in order, at its offset"""
    if 'exchange' not in E.opts: raise Unsupported('exchange without a protocol')
    rounds = E.ghost.setdefault('rounds', [])
    if n.get('id') not in rounds: rounds.append(n.get('id'))
    r = rounds.index(n.get('id'))
    if r > 1: raise Unsupported('third exchange of samples')
    h = exchange(here(E, st), r)
    lv = [E.lv(a, st) for a in args[:6]]
    x, nin, din, nout, dout = [vw(E, st, lv[z]) for z in (0, 1, 2, 4, 5)]
    size = coerce(val(E, args[6], st), I)
    names = ('send', 'receive')
    for side, num, dis in (('send', nin, din), ('recv', nout, dout)):
        off, cnt, blk, rows = h[side]; w = 'sent' if side == 'send' else 'received'
        E.oblige(st, 'guarantee', 'one count and offset per process, %s, exchange %d' % (w, r), And(num.n == NRANKS, dis.n == NRANKS), n)
        E.oblige(st, 'guarantee', 'counts %s, exchange %d' % (w, r), FA([k], Imp(rng(k, 0, NRANKS), num[k] == 5 * cnt(k)), num[k]), n)
        E.oblige(st, 'guarantee', 'offsets %s, exchange %d' % (w, r), FA([k], Imp(rng(k, 0, NRANKS), dis[k] == 5 * off(k)), dis[k]), n)
        E.oblige(st, 'guarantee', 'blocks %s lie inside, exchange %d' % (w, r), FA([k], Imp(rng(k, 0, NRANKS), And(off(k) >= 0, cnt(k) >= 0, off(k) + cnt(k) <= rows)), cnt(k)), n)
        E.oblige(st, 'guarantee', 'every row %s is in its block, exchange %d' % (w, r), FA([k], Imp(rng(k, 0, rows), And(rng(blk(k), 0, NRANKS), off(blk(k)) <= k, k < off(blk(k)) + cnt(blk(k)))), blk(k)), n)
    off, cnt, blk, rows = h['send']
    E.oblige(st, 'guarantee', 'rows sent exist, exchange %d' % r, x.n >= 5 * rows, n)
    E.oblige(st, 'guarantee', 'rows sent are those announced, exchange %d' % r, FA([k], Imp(rng(k, 0, NRANKS), cnt(k) == h['announced'](k)), cnt(k)), n)
    A, Sf, Rf = h['A'], h['S'], h['Rr']
    one = lambda a, F, u: And(*[a[5 * u + z] == F(u, iv(z)) for z in range(5)])
    st.assume(FA([k], Imp(rng(k, 0, rows), one(x, Sf, k)), *[x[5 * k + z] for z in range(5)], *[Sf(k, iv(z)) for z in range(5)]))
    st.assume(FA([k], Imp(rng(k, 0, rows), And(*[A(ME, blk(k), k - off(blk(k)), iv(z)) == Sf(k, iv(z)) for z in range(5)])), *[Sf(k, iv(z)) for z in range(5)]))
    for lab, g in h['G'](ME, blk(k), k - off(blk(k))):
        E.oblige(st, 'guarantee', 'rows sent: %s' % lab, FA([k], Imp(rng(k, 0, rows), g), *[Sf(k, iv(z)) for z in range(5)]), n)
    off, cnt, blk, rows = h['recv']
    E.oblige(st, 'guarantee', 'receive buffer holds the rows received, exchange %d' % r, size == 5 * rows, n)
    if E.log is not None: E.log.append(('w', lv[3].path, '*', (), st.facts[:]))
    st.v[lv[3].path] = fresh_arr(E.uid('received'), lv[3].t, [size])
    y = vw(E, st, lv[3])
    st.assume(FA([k], Imp(rng(k, 0, rows), one(y, Rf, k)), *[y[5 * k + z] for z in range(5)], *[Rf(k, iv(z)) for z in range(5)]))
    st.assume(FA([k], Imp(rng(k, 0, rows), And(*([A(blk(k), ME, k - off(blk(k)), iv(z)) == Rf(k, iv(z)) for z in range(5)] + [g for _, g in h['G'](blk(k), ME, k - off(blk(k)))]))), *[Rf(k, iv(z)) for z in range(5)]))
    for lab, g in h['result'](k):
        f = FA([k], Imp(rng(k, 0, rows), g), *[Rf(k, iv(z)) for z in range(5)])
        E.oblige(st, 'lemma', lab, f, n); st.assume(f)
MODELS['MPI_Scan'] = m_scan; MODELS['MPI_Manager::all2all'] = m_all2all; MODELS['MPI_Manager::all2allv'] = m_all2allv
for nm in ('reduceRaw',): MODELS['MPI_Manager::' + nm] = m_allreduceraw
S('convolver::timing_line', ['label', 'timer', 'counter'], requires=lambda c: [c['this.cores'] >= 1], throws_ok=lambda w: 'alloc' in w)
S('convolver::report_timing', [], requires=lambda c: [c['this.cores'] >= 1], throws_ok=lambda w: 'alloc' in w)
COLS0 = (0, 1, 2, 4)
def cols_are(a, F, lo, hi, cols=COLS0, extra=lambda k: []):
    return FA([k], Imp(rng(k, lo, hi), And(*([a[5 * k + r] == F(k, r) for r in cols] + extra(k)))), *[a[5 * k + r] for r in cols])
def cv0(L):
    a, o, N, ii = L['pntarr'], L.old['pntarr'], L['totsize'], L['ii']
    return [('range', And(ii >= 0, ii <= N, a.n == o.n)), ('numbered', FA([k], Imp(rng(k, 0, ii), a[5 * k + 4] == T(L['my_offset'] + k)), a[5 * k + 4])),
            ('the rest stays', cols_are(a, lambda k, r: o[5 * k + r], 0, N, (0, 1, 2)))]
def legal_rows(a, n): return FA([k], Imp(rng(k, 0, n), And(a[5 * k + 1] >= 0, a[5 * k + 1] <= PI)), a[5 * k + 1])
def cv1(L): return [('range', And(L['i'] >= 0, L['i'] <= L['totsize'])), ('legal so far', legal_rows(L['pntarr'], L['i']))]
def cv2(L):
    a, b, o, N, ii = L['pntarr'], L.before['pntarr'], L.old['pntarr'], L['totsize'], L['ii']
    return [('range', And(ii >= 0, ii <= N, a.n == o.n)), ('numbered', FA([k], Imp(rng(k, 0, ii), a[5 * k + 3] == T(k)), a[5 * k + 3])),
            ('pointing stays', cols_are(a, lambda k, r: o[5 * k + r], 0, N, (0, 1, 2))), ('running index', FA([k], Imp(rng(k, 0, N), a[5 * k + 4] == T(L['my_offset'] + k)), a[5 * k + 4]))]
def cv3(L):
    a, o, N, ii, od = L['pntarr2'], L.old['pntarr'], L['totsize'], L['ii'], L['orig_order']
    return [('range', And(ii >= 0, ii <= N)), ('size', od.n == N),
        ('packed samples', FA([k], Imp(rng(k, 0, N), And(rng(SRC(k), 0, N), *([a[5 * k + r] == o[5 * SRC(k) + r] for r in (0, 1, 2)] + [a[5 * k + 3] == T(SRC(k)), a[5 * k + 4] == T(L['my_offset'] + SRC(k))]))), SRC(k), *[a[5 * k + r] for r in range(5)])),
        ('origin', FA([k], Imp(rng(k, 0, ii), od[k] == SRC(k)), od[k]))]
def cperm(L): return L.E.ghost['perm'][-1]
def rw(u): return [RW(u, iv(z)) for z in (0, 1, 2)]
def cv4(L):
    a, b, N, ii = L['outpntarr'], L.before['outpntarr'], L['ntod'], L['ii']
    return [('range', And(ii >= 0, ii <= N, a.n == b.n)), ('numbered', FA([k], Imp(rng(k, 0, ii), a[5 * k + 3] == T(k)), a[5 * k + 3])),
        ('rows received', cols_are(a, lambda k, r: RW(k, iv(r)), 0, N)),
        ('co-latitudes received', FA([k], Imp(rng(k, 0, N), BS.COL1(b.raw(), k) == RW(k, iv(1))), BS.COL1(b.raw(), k), RW(k, iv(1)))),
        ('northern rows', And(L['ntod1'] == BS.CB(b.raw(), HALFPI, ii), L['ntod1'] >= 0, L['ntod1'] <= ii, L['ntod2'] == ii - L['ntod1']))]
def cv4_after(L):
    a, b, N = L['outpntarr'], L.before['outpntarr'], L['ntod']
    return [('same co-latitudes', SAME(a.raw(), b.raw(), N)), ('northern rows counted', L['ntod1'] == BS.CB(a.raw(), HALFPI, N))]
def frow(u): return RW(u, iv(0)), fold(RW(u, iv(1))), RW(u, iv(2))
def hemisphere(L):
    P, Q = cperm(L)
    return FA([k], Imp(rng(k, 0, L['ntod']), (k < L['ntod1']) == (RW(P(k), iv(1)) < HALFPI)), P(k))
def cv5(L):
    a, N, ii, od = L['outpntarr'], L['ntod'], L['ii'], L['old_order']
    P, Q = cperm(L)
    return [('range', And(ii >= 0, ii <= N)), ('size', od.n == N),
        ('sorted rows', FA([k], Imp(rng(k, 0, N), And(rng(P(k), 0, N), Q(P(k)) == k, *([a[5 * k + r] == RW(P(k), iv(r)) for r in COLS0] + [a[5 * k + 3] == T(P(k))]))), P(k), *[a[5 * k + r] for r in range(5)])),
        ('hemisphere', hemisphere(L)),
        ('origin', FA([k], Imp(rng(k, 0, ii), od[k] == P(k)), od[k]))]
def cv5_begin(L):
    a, N = L['outpntarr'], L['ntod']
    P, Q = cperm(L)
    return [('northern rows', FA([k], Imp(And(rng(k, 0, N), BS.TB(HALFPI)), (k < L['ntod1']) == (BS.COL1(a.raw(), k) < HALFPI)), BS.COL1(a.raw(), k), P(k))),
        ('co-latitudes of the sorted rows', FA([k], Imp(rng(k, 0, N), And(rng(P(k), 0, N), BS.COL1(a.raw(), k) == RW(P(k), iv(1)))), BS.COL1(a.raw(), k), P(k)))]
def cv6(L):
    a, t, N, ii, od = L['outpntarr'], L['outpntarr_temp'], L['ntod'], L['new_row'], L['old_order']
    P, Q = cperm(L)
    return [('range', And(ii >= 0, ii <= N, a.n == L.before['outpntarr'].n)),
        ('rows sorted', FA([k], Imp(rng(k, 0, N), And(rng(P(k), 0, N), Q(P(k)) == k, od[k] == P(k), *[t[5 * k + r] == RW(P(k), iv(r)) for r in COLS0])), P(k), *[t[5 * k + r] for r in COLS0])),
        ('hemisphere', hemisphere(L)),
        ('north', FA([k], Imp(rng(k, 0, L['ntod1']), t[5 * k + 3] == SIG(iv(0), *frow(P(k)))), P(k), t[5 * k + 3])),
        ('south', FA([k], Imp(rng(k, L['ntod1'], N), t[5 * k + 3] == SIG(iv(1), *frow(P(k)))), P(k), t[5 * k + 3])),
        ('signals', FA([k], Imp(rng(k, 0, N), t[5 * k + 3] == SR(*rw(P(k)))), P(k), t[5 * k + 3])),
        ('placed', FA([k], Imp(rng(k, 0, ii), And(*[a[5 * P(k) + r] == t[5 * k + r] for r in range(5)])), P(k)))]
def cv6_after(L):
    a, N = L['outpntarr'], L['ntod']
    P, Q = cperm(L)
    t = L['outpntarr_temp']
    return [('rank', FA([k], Imp(rng(k, 0, N), And(P(Q(k)) == k, rng(Q(k), 0, N))), Q(k))),
        ('placed by rank', FA([k], Imp(rng(k, 0, N), And(rng(Q(k), 0, N), P(Q(k)) == k, *[a[5 * k + r] == t[5 * Q(k) + r] for r in range(5)])), Q(k), *[a[5 * k + r] for r in range(5)])),
        ('rows computed, in the order received', FA([k], Imp(rng(k, 0, N), And(*([a[5 * k + r] == RW(k, iv(r)) for r in COLS0] + [a[5 * k + 3] == SR(*rw(k))]))), *[a[5 * k + r] for r in range(5)], RW(k, iv(0))))]
def cv7(L):
    a, t, N, ii, od = L['pntarr'], L['pntarr_temp'], L['totsize'], L['new_row'], L['orig_order']
    o = L.old['pntarr']
    return [('range', And(ii >= 0, ii <= N, a.n == 5 * N)),
        ('returned rows', FA([k], Imp(rng(k, 0, N), And(rng(SRC(k), 0, N), CELL(SRC(k)) == k, od[k] == SRC(k), *([t[5 * k + r] == o[5 * SRC(k) + r] for r in (0, 1, 2)] + [t[5 * k + 4] == T(L['my_offset'] + SRC(k)), t[5 * k + 3] == SR(*[o[5 * SRC(k) + r] for r in (0, 1, 2)])]))), SRC(k), *[t[5 * k + r] for r in range(5)])),
        ('placed', FA([k], Imp(rng(k, 0, ii), And(*[a[5 * SRC(k) + r] == t[5 * k + r] for r in range(5)])), SRC(k)))]
def final_rows(a, o, n, off, cal):
    return FA([k], Imp(rng(k, 0, n), And(*([a[5 * k + r] == o[5 * k + r] for r in (0, 1, 2)] + [a[5 * k + 4] == T(off + k), a[5 * k + 3] == SR(*[o[5 * k + r] for r in (0, 1, 2)]) * cal]))), *[a[5 * k + r] for r in range(5)])
def cv7_after(L):
    a, o, N = L['pntarr'], L.old['pntarr'], L['totsize']
    return [('cells', FA([k], Imp(rng(k, 0, N), And(SRC(CELL(k)) == k, rng(CELL(k), 0, N))), CELL(k))),
        ('placed by cell', FA([k], Imp(rng(k, 0, N), And(rng(CELL(k), 0, N), SRC(CELL(k)) == k, *[a[5 * k + r] == L['pntarr_temp'][5 * CELL(k) + r] for r in range(5)])), CELL(k), *[a[5 * k + r] for r in range(5)])),
        ('rows in the order of the caller', final_rows(a, o, N, L['my_offset'], 1))]
def cv8(L):
    a, b, o, N, ii = L['pntarr'], L.before['pntarr'], L.old['pntarr'], L['totsize'], L['ii']
    return [('range', And(ii >= 0, ii <= N, a.n == b.n)), ('calibrated so far', final_rows(a, o, N, L['my_offset'], z3.If(k < ii, L['calibration'], 1)))]
def conv_ens(c):
    a, o = c['pntarr'], c.old['pntarr']
    cal = z3.If(And(c['calibrate'], Not(c['this.b.normalized_'])), 2 / (1 + c['this.d.epsilon_']), 1)
    N = o.n / 5
    return [('size', a.n == 5 * N), ('every sample has its pointing', FA([k], Imp(rng(k, 0, N), And(*[a[5 * k + r] == o[5 * k + r] for r in (0, 1, 2)])), *[a[5 * k + r] for r in (0, 1, 2)])),
        ('every sample has its own signal', FA([k], Imp(rng(k, 0, N), a[5 * k + 3] == SR(*[o[5 * k + r] for r in (0, 1, 2)]) * cal), a[5 * k + 3])),
        ('only legal co-latitudes are accepted', legal_rows(o, N)), ('status', c.res == 0)]
CONV = S('convolver::convolve', ['pntarr', 'calibrate'], modifies=['pntarr', 'this.base_wgt'], opts=dict(merge_arrays=True, exchange=True, noframe=True), axioms=conv_axioms, lemmas=conv_lemmas,
  requires=lambda c: grid_req(c) + cube_req(c) + [weights_or_none(c), 1 + c['this.d.epsilon_'] != 0],
  throws_ok=lambda w: 'alloc' in w or w == 'contract:convolver::todgen',
  ensures=lambda c: conv_ens(c), exsures=lambda c: [('refused only for an illegal co-latitude, or if the number of samples is unknown', Or(c.E.ghost['scan_error'] != 0, Not(legal_rows(c.old['pntarr'], c.old['pntarr'].n / 5))))],
  loops={0: Loop(inv=cv0), 1: Loop(inv=cv1), 2: Loop(inv=cv2), 3: Loop(inv=cv3), 4: Loop(inv=cv4, after=cv4_after, at_end=lambda L: [('counted', BS.CB(L.before['outpntarr'].raw(), HALFPI, L['ii']) == BS.CB(L.before['outpntarr'].raw(), HALFPI, L['ii'] - 1) + z3.If(RW(L['ii'] - 1, iv(1)) < HALFPI, 1, 0)),
       ('northern', L['ntod1'] == L.start['ntod1'] + z3.If(RW(L['ii'] - 1, iv(1)) < HALFPI, 1, 0))]), 5: Loop(inv=cv5, at_begin=cv5_begin), 6: Loop(inv=cv6, after=cv6_after), 7: Loop(inv=cv7, after=cv7_after), 8: Loop(inv=cv8)}, nloops=9)
_A = [s.key for s in SPECS if not s.trusted]
_C = [CONV.key, DISTR.key]
PROPS = dict(C01=_A, C02=_A, C03=_C, C04=_C[:1], C09=_C[:1])
