"""The data cube: rotation and transform of the orders (todAnnulus), the sum over multipoles (conviqt_hemiscm, _pol),
the split of the latitudes (get_latitude_tables) and their delivery (alltoall_datacube): C01, C02, C03, C07, C08."""
from .base import *
from .e_grid import T, grid_req, RANK, NRANKS
from .f_signal import A3, re_, im_, N_, S_
from .i_chain import here, vw, h_, t_, cube_req
from dv.execu import strip_casts, LV, ArrVal, fresh_arr, lineof, Opaque, Throw, View, Ty
from dv.engine import Unsupported, coerce, fresh
from dv.models import val, SIN, COS
SPECS, MODELS = [], {}
def S(name, params=None, key=None, unit=None, **k):
    s = Spec(name, params, key=key or name, unit=unit, **k); SPECS.append(s); return s
A1 = z3.ArraySort(I, R)
# ---------------------------------------------------------------- the transform over the orders
# TC(N, j, m), TS(N, j, m): cosine and sine of 2 pi j m / N
TC, TS = z3.Function('cos_twiddle', I, I, I, R), z3.Function('sin_twiddle', I, I, I, R)
FBR, FBI = [z3.Function('transform_' + x, A1, A1, I, I, I, R) for x in ('re', 'im')]     # first m terms of cell j of the unnormalised backward transform of length N
x1, y1, cs_, sn_ = z3.Consts('x1 y1 cs_ sn_', A1); k_, j_, m_ = z3.Ints('k_ j_ m_')
def FBD():
    out = []
    for F, g in ((FBR, lambda a, b: a * TC(N_, j_, m_) - b * TS(N_, j_, m_)), (FBI, lambda a, b: b * TC(N_, j_, m_) + a * TS(N_, j_, m_))):
        out += [FA([x1, y1, N_, j_], F(x1, y1, N_, j_, iv(0)) == 0, F(x1, y1, N_, j_, iv(0))),
                FA([x1, y1, N_, j_, m_, n], Imp(And(m_ >= 0, n == m_ + 1), F(x1, y1, N_, j_, n) == F(x1, y1, N_, j_, m_) + g(sel(x1, [m_]), sel(y1, [m_]))), MP(F(x1, y1, N_, j_, m_), F(x1, y1, N_, j_, n)))]
    return out
def rot(c, s, a, b): return c * a + s * b, c * b - s * a
# the same for one beam order and latitude of a cube whose order r is first rotated by (cs[r], sn[r])
FSR, FSI = [z3.Function('annulus_' + x, A3, A3, A1, A1, I, I, I, I, I, R) for x in ('re', 'im')]
FV = [re_, im_, cs_, sn_, N_, k_, t_, j_]
def turned(r): return rot(sel(cs_, [r]), sel(sn_, [r]), sel(re_, [r, k_, t_]), sel(im_, [r, k_, t_]))
def FSD():
    out = []
    a, b = turned(m_)
    for F, e in ((FSR, a * TC(N_, j_, m_) - b * TS(N_, j_, m_)), (FSI, b * TC(N_, j_, m_) + a * TS(N_, j_, m_))):
        out += [FA(FV, F(*FV, iv(0)) == 0, F(*FV, iv(0))), FA(FV + [m_, n], Imp(And(m_ >= 0, n == m_ + 1), F(*FV, n) == F(*FV, m_) + e), MP(F(*FV, m_), F(*FV, n)))]
    return out
ROTD = z3.Function('rotated_orders', A1, A1, A3, A3, A1, A1, I, I, I, B)
RV = [x1, y1, re_, im_, cs_, sn_, N_, k_, t_]
def rotcell(r):
    a, b = turned(r)
    return And(sel(x1, [r]) == a, sel(y1, [r]) == b)
ROTDEF = [FA(RV + [m_], Imp(And(ROTD(*RV), rng(m_, 0, N_)), rotcell(m_)), MP(ROTD(*RV), sel(x1, [m_]))), FA(RV + [m_], Imp(And(ROTD(*RV), rng(m_, 0, N_)), rotcell(m_)), MP(ROTD(*RV), sel(y1, [m_]))),
          FA(RV, Imp(FA([m_], Imp(rng(m_, 0, N_), rotcell(m_))), ROTD(*RV)), ROTD(*RV))]
def m_cfft(E, st, path, args, n):
    """a plan for transforms of the given length"""
    sz = coerce(val(E, args[0], st), I) if len(args) else iv(0)
    E.oblige(st, 'precondition', 'cfft: positive length', sz >= 1, n)
    E.ghost.setdefault('plan', {})[path] = sz
def m_backward(E, st, n, this, args):
    """the unnormalised transform with positive exponents"""
    lv = E.lv(args[0], st)
    a = E.container(st, lv.path, lv.t.a[0] if lv.t.k == 'ref' else lv.t)
    N = E.ghost.get('plan', {}).get(this.path)
    if N is None: raise Unsupported('transform without a plan')
    x = View(a)
    E.oblige(st, 'precondition', 'transform: as long as the plan', x.n == N, n)
    if E.log is not None: E.log.append(('w', lv.path, '*', (), st.facts[:]))
    old = (x.raw('.re'), x.raw('.im'))
    new = fresh_arr(E.uid('transformed'), a.t, a.dims)
    st.v[lv.path] = new
    y = View(new)
    for F, l in ((FBR, '.re'), (FBI, '.im')):
        st.assume(FA([k], Imp(rng(k, 0, N), sel(y.raw(l), [k]) == F(*old, N, k, N)), sel(y.raw(l), [k])))
    E.ghost['transformed'] = old
MODELS['ctor:cfft'] = m_cfft; MODELS['cfft::backward'] = m_backward

def ta_lemmas(c):
    M = z3.Int('M')
    v = RV + [j_]; f = [re_, im_, cs_, sn_, N_, k_, t_, j_]
    return [Induct('transform of the rotated orders, ' + l, M, (v, Imp(And(ROTD(*RV), M <= N_), A(x1, y1, N_, j_, M) == F(*f, M))), pats=[MP(ROTD(*RV), A(x1, y1, N_, j_, M))], only=FBD() + FSD() + ROTDEF[:2]) for l, A, F in (('re', FBR, FSR), ('im', FBI, FSI))]
def dims_ok(a, c, t='NThetaIndex'): return And(a.dim(0) == c['this.nphi'], a.dim(1) == c['this.npsi'], a.dim(2) == (c[t] if isinstance(t, str) else t))
def rkt(c, N): return And(rng(i, 0, c['this.nphi']), rng(k, 0, c['this.npsi']), rng(q, 0, N))
def at(a, l, *ix): return a.at(*(ix or (i, k, q)), leaf=l)
def cellrot(c, r, a, b): return rot(c['cs'][r], c['sn'][r], a, b)
def FS(c, o, r=None, kk=None, tt=None, m=None):
    a = (o.raw('.re'), o.raw('.im'), c.old['cs'].raw(), c.old['sn'].raw(), c['this.nphi'], k if kk is None else kk, q if tt is None else tt, i if r is None else r)
    N = c['this.nphi'] if m is None else m
    return FSR(*a, N), FSI(*a, N)
def phase(c, r, kk, a, b):
    """longitude and beam phases of a cell"""
    a, b = rot(c['cs0'][r], c['sn0'][r], a, b)
    return rot(c['cs'][kk + c['this.lmax']], c['sn'][kk + c['this.lmax']], a, b)
def ta_done(*lim):
    """cells the nested loops have passed: lim = (row, beam, latitude)"""
    ix = (i, k, q); d = z3.BoolVal(False); eq = z3.BoolVal(True)
    for x, l in zip(ix, lim):
        d = Or(d, And(eq, x < l)); eq = And(eq, x == l)
    return z3.simplify(d)
def ta_base(L): return [('sizes', And(dims_ok(L['tod'], L), dims_ok(L['Cmm'], L)))]
def ta_rot(depth):
    def inv(L):
        lim = [L['msky'] + L['this.lmax'], L['mbeam'] if depth > 0 else None, L['lat'] if depth > 1 else None][:depth + 1]
        a, o = L['Cmm'], L.old['Cmm']
        d = ta_done(*lim); N = L['NThetaIndex']
        new = cellrot(L, i, at(o, '.re'), at(o, '.im'))
        hi = [2 * L['this.lmax'] + 1, L['this.npsi'], N]
        out = ta_base(L) + [('range', And(*[And(x >= 0, Or(x <= h, (h < 0 if hi.index(h) == 2 else z3.BoolVal(False)))) for x, h in zip(lim, hi)]))]
        for z, l in enumerate(('.re', '.im')):
            out += [('rotated so far, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, N), d), at(a, l) == new[z]), at(a, l))),
                    ('not yet rotated, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, N), Not(d)), at(a, l) == at(o, l)), at(a, l)))]
        return out
    return inv
def all_rotated(L):
    a, o = L['Cmm'], L.old['Cmm']
    new = cellrot(L, i, at(o, '.re'), at(o, '.im'))
    return [('rotated, ' + l[1:], FA([i, k, q], Imp(rkt(L, L['NThetaIndex']), at(a, l) == new[z]), at(a, l))) for z, l in enumerate(('.re', '.im'))]
def ta_fft(depth):
    def inv(L):
        N = L['NThetaIndex']
        lim = [L['mbeam']] + ([L['lat']] if depth > 0 else []) + ([L['msky']] if depth > 1 else [])
        ix = (k, q, i); d = z3.BoolVal(False); eq = z3.BoolVal(True)
        for x, l in zip(ix, lim): d = Or(d, And(eq, x < l)); eq = And(eq, x == l)
        f = FS(L, L.old['Cmm'])
        out = ta_base(L) + [('range', And(L['mbeam'] >= 0, *([L['lat'] >= 0] if depth else []), *([L['msky'] >= 0, L['msky'] <= L['this.nphi']] if depth > 1 else []), L['Cmsky'].n == L['this.nphi']))] + all_rotated(L)
        for z, l in enumerate(('.re', '.im')): out.append(('transformed so far, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, N), d), at(L['tod'], l) == f[z]), at(L['tod'], l))))
        if depth > 1:
            g = FS(L, L.old['Cmm'], kk=L['mbeam'], tt=L['lat'])
            for z, l in enumerate(('.re', '.im')): out.append(('transform of this latitude, ' + l[1:], FA([i], Imp(rng(i, 0, L['this.nphi']), L['Cmsky'].at(i, leaf=l) == g[z]), L['Cmsky'].at(i, leaf=l))))
        return out
    return inv
def ta_copy(L):
    ii = L['msky'] + L['this.lmax']
    return [('range', And(ii >= 0, ii <= L['this.nphi'], L['Cmsky'].n == L['this.nphi']))] + [('copied, ' + l[1:], FA([i], Imp(rng(i, 0, ii), L['Cmsky'].at(i, leaf=l) == L['Cmm'].at(i, L['mbeam'], L['lat'], leaf=l)), L['Cmsky'].at(i, leaf=l))) for l in ('.re', '.im')]
def ta_copied(L):
    o = L.old['Cmm']
    g = ROTD(L['Cmsky'].raw('.re'), L['Cmsky'].raw('.im'), o.raw('.re'), o.raw('.im'), L.old['cs'].raw(), L.old['sn'].raw(), L['this.nphi'], L['mbeam'], L['lat'])
    new = cellrot(L, i, at(o, '.re', i, L['mbeam'], L['lat']), at(o, '.im', i, L['mbeam'], L['lat']))
    return [('copy is rotated, ' + l[1:], FA([i], Imp(rng(i, 0, L['this.nphi']), L['Cmsky'].at(i, leaf=l) == new[z]), L['Cmsky'].at(i, leaf=l))) for z, l in enumerate(('.re', '.im'))] + [('orders of this latitude are rotated', g)]
def ta_phase(depth):
    def inv(L):
        lim = [L['msky'] + L['this.lmax'], L['mbeam'] if depth > 0 else None, L['lat'] if depth > 1 else None][:depth + 1]
        d = ta_done(*lim); N = L['NThetaIndex']; a = L['tod']
        f = FS(L, L.old['Cmm']); new = phase(L, i, k, *f)
        out = ta_base(L) + [('range', And(*[x >= 0 for x in lim], lim[0] <= L['this.nphi']))]
        for z, l in enumerate(('.re', '.im')):
            out += [('turned so far, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, N), d), at(a, l) == new[z]), at(a, l))),
                    ('not yet turned, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, N), Not(d)), at(a, l) == f[z]), at(a, l)))]
        return out
    return inv
def ta_cell(L):
    r, kk, lt = L['msky'] + L['this.lmax'], L['mbeam'], L['lat'] - 1
    a, b = L['tod'], L.start['tod']
    f = FS(L, L.old['Cmm'], r, kk, lt); new = phase(L, r, kk, *f)
    return [('before, ' + l[1:], b.at(r, kk, lt, leaf=l) == f[z]) for z, l in enumerate(('.re', '.im'))] + [('this cell, ' + l[1:], a.at(r, kk, lt, leaf=l) == new[z]) for z, l in enumerate(('.re', '.im'))] + [
        ('other cells, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, L['NThetaIndex']), Or(i != r, k != kk, q != lt)), at(a, l) == at(b, l)), at(a, l))) for l in ('.re', '.im')]
def ta_req(c):
    return [c['this.lmax'] >= 0, c['this.nphi'] == 2 * c['this.lmax'] + 1, c['this.npsi'] >= 1, c['this.npsi'] <= c['this.lmax'] + 1, c['NThetaIndex'] >= 0, dims_ok(c['tod'], c), dims_ok(c['Cmm'], c),
            *[c[x].n == c['this.nphi'] for x in ('cs', 'sn', 'cs0', 'sn0')]]
def ta_ens(c):
    f = FS(c, c.old['Cmm']); new = phase(c, i, k, *f)
    return [('cell of the data cube, ' + l[1:], FA([i, k, q], Imp(rkt(c, c['NThetaIndex']), at(c['tod'], l) == new[z]), at(c['tod'], l))) for z, l in enumerate(('.re', '.im'))]
TODANN = S('convolver::todAnnulus', ['tod', 'Cmm', 'cs', 'sn', 'cs0', 'sn0', 'NThetaIndex'], modifies=['tod', 'Cmm'], keep_dims=['tod', 'Cmm'], axioms=lambda c: FBD() + FSD() + ROTDEF, lemmas=ta_lemmas,
  throws_ok=lambda w: 'alloc' in w, requires=ta_req, ensures=ta_ens,
  loops={0: Loop(inv=ta_rot(0)), 1: Loop(inv=ta_rot(1)), 2: Loop(inv=ta_rot(2)), 3: Loop(inv=ta_fft(0)), 4: Loop(inv=ta_fft(1)), 5: Loop(inv=ta_copy, after=ta_copied), 6: Loop(inv=ta_fft(2)),
         7: Loop(inv=ta_phase(0)), 8: Loop(inv=ta_phase(1)), 9: Loop(inv=ta_phase(2), at_end=ta_cell)}, nloops=10)
# ---------------------------------------------------------------- which process computes which latitude
# NEED(h, p, t): process p asks for latitude t of hemisphere h.  ANYN(t): some process asks for it.
NEED, ANYH, ANYN = z3.Function('needs_latitude', I, I, I, B), z3.Function('needed_in_hemisphere', I, I, B), z3.Function('needed', I, B)
WHO = z3.Function('who_needs', I, I, I)
p_, c_, x_ = z3.Ints('p_ c_ x_')
ANYD = [FA([h_, p_, t_], Imp(And(rng(p_, 0, NRANKS), NEED(h_, p_, t_)), ANYH(h_, t_)), NEED(h_, p_, t_)),
        FA([h_, t_], Imp(ANYH(h_, t_), And(rng(WHO(h_, t_), 0, NRANKS), NEED(h_, WHO(h_, t_), t_))), ANYH(h_, t_)),
        FA([t_], ANYN(t_) == Or(ANYH(iv(0), t_), ANYH(iv(1), t_)), ANYN(t_))]
CT = z3.Function('latitudes_needed_before', I, I)
CTD = [CT(iv(0)) == 0, FA([t_, n], Imp(And(t_ >= 0, n == t_ + 1), CT(n) == CT(t_) + z3.If(ANYN(t_), 1, 0)), MP(CT(t_), CT(n)))]
# the assignment, latitude by latitude: process, latitudes it has, latitudes left, latitudes it gets
LC, LA, LL, LN = [z3.Function(x, I, I) for x in ('process_at', 'assigned_at', 'left_at', 'share_at')]
def ceild(a, b): return -z3.ToInt(-(T(a) / T(b)))
def LCD(c):
    N = c['this.ntheta']
    full = LA(t_) + 1 == LN(t_)
    return [And(LC(iv(0)) == 0, LA(iv(0)) == 0, LL(iv(0)) == CT(N), LN(iv(0)) == ceild(CT(N), NRANKS)),
        FA([t_, n], Imp(And(t_ >= 0, n == t_ + 1), And(LL(n) == LL(t_) - z3.If(ANYN(t_), 1, 0), LA(n) == z3.If(ANYN(t_), z3.If(full, 0, LA(t_) + 1), LA(t_)),
            LC(n) == z3.If(And(ANYN(t_), full), LC(t_) + 1, LC(t_)), LN(n) == z3.If(And(ANYN(t_), full, LC(n) < NRANKS), ceild(LL(n), NRANKS - LC(n)), LN(t_)))), MP(LC(t_), LC(n)))]
OWN = z3.Function('owner_of_latitude', I, I)
OWND = [FA([t_], OWN(t_) == z3.If(ANYN(t_), LC(t_), -1), OWN(t_))]
NO, NTH = z3.Function('owned_before', I, I, I), z3.Function('owned_latitude', I, I, I)
NOD = [FA([p_], NO(p_, iv(0)) == 0, NO(p_, iv(0))), FA([p_, t_, n], Imp(And(t_ >= 0, n == t_ + 1), NO(p_, n) == NO(p_, t_) + z3.If(OWN(t_) == p_, 1, 0)), MP(NO(p_, t_), NO(p_, n))),
       FA([p_, t_], Imp(And(t_ >= 0, OWN(t_) == p_), NTH(p_, NO(p_, t_)) == t_), NO(p_, t_))]
def lat_axioms(c): return ANYD + CTD + LCD(c) + OWND + NOD
def lat_lemmas(c):
    N, M = z3.Ints('N M'); a_ = z3.Int('a_'); NT = c['this.ntheta']
    return [Induct('counts of needed latitudes grow', N, ([t_], Imp(And(t_ >= 0, t_ <= N), And(CT(t_) <= CT(N), CT(t_) >= 0))), pats=[MP(CT(t_), CT(N))], only=CTD),
        Fact('shares of nothing', FA([a_, c_], Imp(And(a_ >= 0, c_ >= 1), And(ceild(a_, c_) >= 0, Imp(a_ > 0, ceild(a_, c_) >= 1), Imp(c_ == 1, ceild(a_, c_) == a_))), ceild(a_, c_)), only=[]),
        Induct('left is what is to come', N, LL(N) == CT(NT) - CT(N), hi=NT, pats=[LL(N)], only=CTD + LCD(c)[:1] + LCD(c)[1:]),
        Induct('shares', N, And(LL(N) >= 0, LA(N) >= 0, LC(N) >= 0, LC(N) <= NRANKS, Imp(LL(N) > 0, And(LC(N) < NRANKS, LA(N) < LN(N))), Imp(LC(N) == NRANKS - 1, LL(N) + LA(N) == LN(N)), Imp(LC(N) == NRANKS, LL(N) == 0)), hi=NT, pats=[LC(N)],
            only=CTD + LCD(c) + ['counts of needed latitudes grow', 'left is what is to come', 'shares of nothing', NT >= 0, NRANKS >= 1]),
        Fact('latitudes to come', FA([t_], Imp(rng(t_, 0, NT), And(CT(t_ + 1) == CT(t_) + z3.If(ANYN(t_), 1, 0), CT(t_ + 1) <= CT(NT))), LC(t_)), only=CTD + ['counts of needed latitudes grow']),
        Fact('every needed latitude has one existing owner', FA([t_], Imp(And(rng(t_, 0, NT), ANYN(t_)), rng(OWN(t_), 0, NRANKS)), OWN(t_)), only=OWND + ['left is what is to come', 'shares', 'latitudes to come']),
        Induct('owned latitudes', N, ([p_], NO(p_, N) >= 0), pats=[NO(p_, N)], only=NOD)]

def round_of(E, n, kind, name):
    """hemisphere of a collective operation: by the number in the name of the table sent, else by its place"""
    l = E.ghost.setdefault('rounds ' + kind, [])
    if n.get('id') not in l: l.append(n.get('id'))
    d = [x for x in name if x in '12']
    return int(d[0]) - 1 if len(d) == 1 else l.index(n.get('id'))
def ptr(E, st, a):
    p = E.ev(a, st)
    o = a
    while o['kind'] not in ('DeclRefExpr',) and o.get('inner'): o = o['inner'][0]
    return p, E.container(st, p.path, None), o.get('referencedDecl', {}).get('name', '')
def replace(E, st, p, a, dims):
    if E.log is not None: E.log.append(('w', p.path, '*', (), st.facts[:]))
    new = fresh_arr(E.uid('from others'), a.t, dims)
    st.v[p.path] = new
    return View(new)
def is_need(x, h, N): return FA([t_], Imp(rng(t_, 0, N), And(Or(x[t_] == 0, x[t_] == 1), (x[t_] != 0) == NEED(iv(h), RANK, t_))), x[t_])
def mpi_error(E):
    e = fresh('mpi_error', I)
    E.ghost.setdefault('mpi errors', []).append(e)
    return e
def refused(c):
    l = c.E.ghost.get('mpi errors')
    return [('refused only if an exchange failed', Or(*[e != 0 for e in l]) if l else z3.BoolVal(True))]
def no_room(w): return 'alloc' in w
def collective(E, st, n, what, args):
    if 'latitudes' not in E.opts: raise Unsupported('%s without a protocol' % what)
    (p, a, nm), (q_, b, _) = ptr(E, st, args[0]), ptr(E, st, args[1])
    h = round_of(E, n, what, nm)
    N = here(E, st)['this.ntheta']
    E.oblige(st, 'guarantee', '%s %d: one flag per latitude' % (what, h + 1), And(coerce(val(E, args[2], st), I) == N, View(a).n >= N, p.off == 0, q_.off == 0), n)
    E.oblige(st, 'guarantee', '%s %d: the latitudes this process needs' % (what, h + 1), is_need(View(a), h, N), n)
    e = mpi_error(E)
    return p, a, q_, b, h, N, e
def m_mpi_allreduce(E, st, n, this, args):
    """on success every process has the disjunction of what all processes gave"""
    p, a, q_, b, h, N, e = collective(E, st, n, 'MPI_Allreduce', args)
    E.oblige(st, 'guarantee', 'MPI_Allreduce: room for the result', View(b).n >= N, n)
    y = replace(E, st, q_, b, b.dims)
    st.assume(FA([t_], Imp(And(e == 0, rng(t_, 0, N)), And(Or(y[t_] == 0, y[t_] == 1), (y[t_] != 0) == ANYH(iv(h), t_))), y[t_]))
    return e
TRG = z3.Function('flag_term', I, I, B)
def table_is(y, h, N): return FA([p_, t_], Imp(And(rng(p_, 0, NRANKS), rng(t_, 0, N)), (y[p_ * N + t_] != 0) == NEED(h, p_, t_)), TRG(p_, t_), NEED(h, p_, t_))
def m_mpi_allgather(E, st, n, this, args):
    """on success every process has what each process gave, in the order of the processes"""
    cnt = coerce(val(E, args[4], st), I)
    p, a, q_, b, h, N, e = collective(E, st, n, 'MPI_Allgather', [args[0], args[3], args[1]])
    E.oblige(st, 'guarantee', 'MPI_Allgather %d: room for all flags' % (h + 1), And(cnt == N, View(b).n >= NRANKS * N), n)
    y = replace(E, st, q_, b, b.dims)
    st.assume(Imp(e == 0, table_is(y, iv(h), N)))
    return e
MODELS['MPI_Allreduce'] = m_mpi_allreduce; MODELS['MPI_Allgather'] = m_mpi_allgather
def own_list(a, n, upto):
    """a: the first n latitudes of this process, all before latitude upto"""
    return FA([x_], Imp(rng(x_, 0, n), And(a[x_] == NTH(RANK, x_), rng(a[x_], 0, upto), OWN(a[x_]) == RANK, NO(RANK, a[x_]) == x_)), a[x_])
def mine(c, h):
    s = str(h + 1)
    return FA([t_], Imp(rng(t_, 0, c['this.ntheta']), NEED(iv(h), RANK, t_) == And(t_ >= c['ithetaoffset' + s], t_ < c['ithetaoffset' + s] + c['NThetaIndex' + s])), NEED(iv(h), RANK, t_))
def lat_req(c):
    out = [c['this.ntheta'] >= 0, c['this.cores'] == NRANKS, c['this.corenum'] == RANK, NRANKS >= 1, RANK >= 0, RANK < NRANKS, c['itheta_core'].n == 0, c['my_itheta'].n == 0]
    for h in '12': out += [c['NThetaIndex' + h] >= 0, c['ithetaoffset' + h] >= 0, c['ithetaoffset' + h] + c['NThetaIndex' + h] <= c['this.ntheta']]
    return out
def tables(c, need='need_itheta%d_core'):
    N = c['this.ntheta']
    return [('who needs which latitude, hemisphere %d' % h, And(c[need % h].n == N * NRANKS, table_is(c[need % h], iv(h - 1), N))) for h in (1, 2)] + owners(c)
def owners(c):
    N = c['this.ntheta']
    return [('owner of each latitude', And(c['itheta_core'].n == N, FA([t_], Imp(rng(t_, 0, N), c['itheta_core'][t_] == OWN(t_)), c['itheta_core'][t_]))),
        ('latitudes of this process', And(c['my_itheta'].n == NO(RANK, N), own_list(c['my_itheta'], c['my_itheta'].n, N)))]
def lat_ens(c):
    N = c['this.ntheta']
    return tables(c) + [('every latitude needed has one existing owner', FA([h_, p_, t_], Imp(And(Or(h_ == 0, h_ == 1), rng(p_, 0, NRANKS), rng(t_, 0, N), NEED(h_, p_, t_)), rng(OWN(t_), 0, NRANKS)), NEED(h_, p_, t_)))]
def flags(x, h, s, upto):
    def f(L): return [('flags set', FA([t_], Imp(rng(t_, 0, L['this.ntheta']), x(L)[t_] == z3.If(And(t_ >= L['ithetaoffset' + s], t_ < L['ithetaoffset' + s] + L['itheta']), 1, 0)), x(L)[t_])), ('range', And(L['itheta'] >= 0, Or(L['itheta'] <= L['NThetaIndex' + s]), x(L).n == L['this.ntheta']))]
    return f
def lat_cnt(L):
    return [('range', And(L['itheta'] >= 0, L['itheta'] <= L['this.ntheta'], L['need_itheta'].n == L['this.ntheta'])), ('counted', L['ntheta_need'] == CT(L['itheta'])),
        ('needed at all', FA([t_], Imp(rng(t_, 0, L['this.ntheta']), (L['need_itheta'][t_] != 0) == And(t_ < L['itheta'], ANYN(t_))), L['need_itheta'][t_]))]
def lat_own(L):
    t, N = L['itheta'], L['this.ntheta']
    return [('range', And(t >= 0, t <= N)), ('state', And(L['core'] == LC(t), L['nassigned'] == LA(t), L['nleft'] == LL(t), L['ntheta_core'] == LN(t))), ('size', L['itheta_core'].n == N),
        ('owners so far', FA([t_], Imp(rng(t_, 0, N), L['itheta_core'][t_] == z3.If(t_ < t, OWN(t_), -1)), L['itheta_core'][t_])),
        ('number of own latitudes', L['my_itheta'].n == NO(RANK, t)), ('own latitudes', own_list(L['my_itheta'], NO(RANK, t), t))]
LAT = S('convolver::get_latitude_tables', ['NThetaIndex1', 'NThetaIndex2', 'ithetaoffset1', 'ithetaoffset2', 'need_itheta1_core', 'need_itheta2_core', 'my_itheta', 'itheta_core'],
  modifies=['need_itheta1_core', 'need_itheta2_core', 'my_itheta', 'itheta_core'], opts=dict(latitudes=True), axioms=lambda c: lat_axioms(c), defs=lambda c: [mine(c, 0), mine(c, 1)], lemmas=lat_lemmas,
  requires=lat_req, ensures=lat_ens, throws_ok=no_room, exsures=refused,
  loops={0: Loop(inv=flags(lambda L: L['my_need_itheta1'], 0, '1', None)), 1: Loop(inv=flags(lambda L: L['my_need_itheta2'], 1, '2', None)), 2: Loop(inv=lat_cnt), 3: Loop(inv=lat_own)}, nloops=4)
# ---------------------------------------------------------------- every latitude goes to the processes that need it
from .i_chain import CUBE_RE, CUBE_IM, AGREE, AGREE_INTRO, hemi_ens, rb_, ib_, lb_
HEMI = z3.Int('hemisphere')
def hemi(c):
    """which hemisphere a call is about: in the caller, by the number in the name of the cube it fills, else by the order of the calls; in the body, any"""
    p = getattr(c.vals['tod'], 'path', '').replace(':', '.').rsplit('.', 1)[-1].split('@')[0]
    if p == 'tod': return HEMI
    l = c.E.ghost.setdefault('cubes filled', [])
    if p not in l: l.append(p)
    d = [x for x in p if x in '12']
    h = int(d[0]) - 1 if len(d) == 1 else l.index(p)
    return iv(h) if h in (0, 1) else HEMI
s_, r_ = z3.Ints('s_ r_')
XC = z3.Function('sent_before', I, I, I, I, I)     # (h, s, r, t): latitudes before t that s computes and r needs
XT = z3.Function('sent_latitude', I, I, I, I, I)   # (h, s, r, x): the x-th of them
CQ = z3.Function('sent_of_own', I, I, I, I, I)     # (h, s, r, x): those among the first x latitudes of s
SO, RO = z3.Function('send_offset', I, I), z3.Function('receive_offset', I, I)      # in latitudes, of this process
SB, VB = z3.Function('block_sent', I, I), z3.Function('block_received', I, I)
ST, RT = z3.Function('latitude_sent_at', I, I), z3.Function('latitude_received_at', I, I)
VP = z3.Function('row_of_latitude', I, I)
AD = z3.Function('address', I, I, I, I)            # place of cell (j, k) of the b-th latitude of a buffer
b_ = z3.Int('b_')
def goes(s, r, t): return And(OWN(t) == s, NEED(HEMI, r, t))
def xc(s, r, t): return XC(HEMI, s, r, t)
def a2a_axioms(c):
    NT = c['this.ntheta']; S, P = c['this.npsi'], c['this.nphi']
    xsr = lambda t: xc(s_, r_, t)
    return [FA([s_, r_], xsr(iv(0)) == 0, xsr(iv(0))), FA([s_, r_, t_, n], Imp(And(t_ >= 0, n == t_ + 1), xsr(n) == xsr(t_) + z3.If(goes(s_, r_, t_), 1, 0)), MP(xsr(t_), xsr(n))),
        FA([s_, r_, t_], Imp(And(rng(t_, 0, NT), goes(s_, r_, t_)), XT(HEMI, s_, r_, xsr(t_)) == t_), xsr(t_)),
        FA([s_, r_], CQ(HEMI, s_, r_, iv(0)) == 0, CQ(HEMI, s_, r_, iv(0))), FA([s_, r_, x_, n], Imp(And(x_ >= 0, n == x_ + 1), CQ(HEMI, s_, r_, n) == CQ(HEMI, s_, r_, x_) + z3.If(NEED(HEMI, r_, NTH(s_, x_)), 1, 0)), MP(CQ(HEMI, s_, r_, x_), CQ(HEMI, s_, r_, n))),
        SO(iv(0)) == 0, FA([c_, n], Imp(And(c_ >= 0, n == c_ + 1), SO(n) == SO(c_) + xc(RANK, c_, NT)), MP(SO(c_), SO(n))),
        RO(iv(0)) == 0, FA([c_, n], Imp(And(c_ >= 0, n == c_ + 1), RO(n) == RO(c_) + xc(c_, RANK, NT)), MP(RO(c_), RO(n))),
        FA([u_, c_], Imp(And(rng(c_, 0, NRANKS), SO(c_) <= u_, u_ < SO(c_) + xc(RANK, c_, NT)), SB(u_) == c_), MP(SB(u_), SO(c_))),
        FA([u_, c_], Imp(And(rng(c_, 0, NRANKS), RO(c_) <= u_, u_ < RO(c_) + xc(c_, RANK, NT)), VB(u_) == c_), MP(VB(u_), RO(c_))),
        FA([u_], ST(u_) == XT(HEMI, RANK, SB(u_), u_ - SO(SB(u_))), ST(u_)), FA([u_], RT(u_) == XT(HEMI, VB(u_), RANK, u_ - RO(VB(u_))), RT(u_)),
        FA([t_], VP(t_) == RO(OWN(t_)) + xc(OWN(t_), RANK, t_), VP(t_)),
        AD(iv(0), iv(0), iv(0)) == 0, FA([b_, j_, k_, n], Imp(And(k_ >= 0, n == k_ + 1), AD(b_, j_, n) == AD(b_, j_, k_) + 2), MP(AD(b_, j_, k_), AD(b_, j_, n))),
        FA([b_, j_, n], Imp(And(j_ >= 0, n == j_ + 1), AD(b_, n, iv(0)) == AD(b_, j_, iv(0)) + 2 * S), MP(AD(b_, j_, iv(0)), AD(b_, n, iv(0)))),
        FA([b_, n], Imp(And(b_ >= 0, n == b_ + 1), AD(n, iv(0), iv(0)) == AD(b_, iv(0), iv(0)) + 2 * (S * P)), MP(AD(b_, iv(0), iv(0)), AD(n, iv(0), iv(0))))] + OWND + NOD
u_ = z3.Int('u_')
def a2a_lemmas(c):
    ax = a2a_axioms(c); NT = c['this.ntheta']; S, P = c['this.npsi'], c['this.nphi']; off, NI = c['ithetaoffset'], c['NThetaIndex']
    XD, XTD, CQD, SOD, ROD, SBD, VBD, STD, RTD, VPD = ax[0:2], ax[2], ax[3:5], ax[5:7], ax[7:9], ax[9], ax[10], ax[11], ax[12], ax[13]
    AD0, ADK, ADJ, ADB = ax[14:18]
    M = z3.Int('M'); z = iv(0)
    needs = c.E.ghost.get('x')
    own = need_own(c)
    J = z3.Int('J')
    return [Induct('sent latitudes never decrease', M, ([s_, r_, t_], Imp(And(t_ >= 0, t_ <= M), And(xc(s_, r_, t_) <= xc(s_, r_, M), xc(s_, r_, t_) >= 0))), pats=[MP(xc(s_, r_, t_), xc(s_, r_, M))], only=XD),
        Fact('room for a sent latitude', FA([s_, r_, t_], Imp(And(rng(t_, 0, NT), goes(s_, r_, t_)), And(xc(s_, r_, t_) >= 0, xc(s_, r_, t_ + 1) == xc(s_, r_, t_) + 1, xc(s_, r_, t_ + 1) <= xc(s_, r_, NT))), xc(s_, r_, t_)), only=['sent latitudes never decrease'] + XD),
        Induct('nothing negative', M, ([p_], NO(p_, M) >= 0), pats=[NO(p_, M)], only=NOD),
        Induct('sent latitudes among the own ones', M, ([s_, r_], CQ(HEMI, s_, r_, NO(s_, M)) == xc(s_, r_, M)), hi=NT, pats=[MP(xc(s_, r_, M), NO(s_, M))], only=XD + CQD + NOD + ['nothing negative']) ,
        Induct('nothing before the first latitude', M, ([s_], Imp(M <= off, xc(s_, RANK, M) == 0)), hi=NT, pats=[xc(s_, RANK, M)], only=XD + [own]),
        Induct('nothing after the last latitude', M, ([s_], Imp(And(M >= off + NI), xc(s_, RANK, M) == xc(s_, RANK, off + NI))), hi=NT, pats=[xc(s_, RANK, M)], only=XD + [own, off >= 0, NI >= 0]),
        Induct('send offsets grow', M, ([c_], Imp(And(c_ >= 0, c_ <= M), And(SO(c_) <= SO(M), SO(c_) >= 0))), pats=[MP(SO(c_), SO(M))], only=SOD + ['sent latitudes never decrease', NT >= 0] + XD),
        Induct('receive offsets grow', M, ([c_], Imp(And(c_ >= 0, c_ <= M), And(RO(c_) <= RO(M), RO(c_) >= 0))), pats=[MP(RO(c_), RO(M))], only=ROD + ['sent latitudes never decrease', NT >= 0] + XD),
        Induct('every latitude sent is in a block', M, ([u_], Imp(And(u_ >= 0, u_ < SO(M)), And(rng(SB(u_), 0, M), SO(SB(u_)) <= u_, u_ < SO(SB(u_)) + xc(RANK, SB(u_), NT)))), hi=NRANKS, pats=[MP(SB(u_), SO(M))], only=SOD + [SBD]),
        Induct('every latitude received is in a block', M, ([u_], Imp(And(u_ >= 0, u_ < RO(M)), And(rng(VB(u_), 0, M), RO(VB(u_)) <= u_, u_ < RO(VB(u_)) + xc(VB(u_), RANK, NT)))), hi=NRANKS, pats=[MP(VB(u_), RO(M))], only=ROD + [VBD]),
        Fact('latitude at its place, sent', FA([c_, t_], Imp(And(rng(t_, 0, NT), rng(c_, 0, NRANKS), goes(RANK, c_, t_)), ST(SO(c_) + xc(RANK, c_, t_)) == t_), MP(SO(c_), xc(RANK, c_, t_))), only=[STD, SBD, XTD, 'room for a sent latitude']),
        Fact('latitude at its place, received', FA([t_], Imp(And(rng(t_, 0, NT), rng(OWN(t_), 0, NRANKS), NEED(HEMI, RANK, t_)), And(RT(VP(t_)) == t_, VP(t_) >= 0)), VP(t_)), only=[RTD, VBD, VPD, XTD, 'room for a sent latitude', 'receive offsets grow'] + ROD),
        Fact('every latitude needed is received', FA([t_], Imp(And(rng(t_, 0, NT), rng(OWN(t_), 0, NRANKS), NEED(HEMI, RANK, t_)), And(RO(OWN(t_) + 1) == RO(OWN(t_)) + xc(OWN(t_), RANK, NT), RO(OWN(t_) + 1) <= RO(NRANKS), VP(t_) < RO(OWN(t_) + 1))), VP(t_)), only=[VPD, 'room for a sent latitude', 'receive offsets grow'] + ROD),
        Induct('cells of a row', M, ([b_, j_], AD(b_, j_, M) == AD(b_, j_, z) + 2 * M), pats=[AD(b_, j_, M)], only=[ADK]),
        Induct('rows of a latitude', M, ([b_], AD(b_, M, z) == AD(b_, z, z) + 2 * (M * S)), pats=[AD(b_, M, z)], only=[ADJ]),
        Induct('latitudes of a buffer', M, AD(M, z, z) == M * (2 * (S * P)), pats=[AD(M, z, z)], only=[AD0, ADB]),
        Fact('rows fit', FA([j_, k_], Imp(And(rng(j_, 0, P), rng(k_, 0, S)), j_ * S + k_ + 1 <= S * P), j_ * S + k_), only=[S >= 1, P >= 1]),
        Fact('next row', FA([b_, j_], Imp(And(j_ >= 0), AD(b_, j_, S) == AD(b_, j_ + 1, z)), AD(b_, j_, S)), only=['cells of a row', ADJ, S >= 1]),
        Fact('next latitude', FA([b_], Imp(And(b_ >= 0), AD(b_, P, z) == AD(b_ + 1, z, z)), AD(b_, P, z)), only=['rows of a latitude', ADB, P >= 1]),
        Fact('cells inside their latitude', FA([b_, j_, k_], Imp(And(b_ >= 0, rng(j_, 0, P), rng(k_, 0, S)), And(AD(b_, j_, k_) >= AD(b_, z, z), AD(b_, j_, k_) + 2 <= AD(b_, z, z) + 2 * (S * P))), AD(b_, j_, k_)), only=['cells of a row', 'rows of a latitude', 'rows fit', S >= 1]),
        Fact('a latitude has cells', S * P >= 1, only=[S >= 1, P >= 1]),
        Induct('cells inside the buffer', M, ([b_, j_, k_], Imp(And(b_ >= 0, b_ < M, rng(j_, 0, P), rng(k_, 0, S)), And(AD(b_, j_, k_) >= 0, AD(b_, j_, k_) + 2 <= AD(M, z, z)))), pats=[MP(AD(b_, j_, k_), AD(M, z, z))], only=['cells inside their latitude', 'latitudes of a buffer', ADB, AD0, 'a latitude has cells'])]
def need_own(c): return FA([t_], Imp(rng(t_, 0, c['this.ntheta']), NEED(hemi(c), RANK, t_) == And(t_ >= c['ithetaoffset'], t_ < c['ithetaoffset'] + c['NThetaIndex'])), NEED(hemi(c), RANK, t_))
def cubez(h): return [('.re', CUBE_RE(h)), ('.im', CUBE_IM(h))]
def a2a_req(c):
    h = hemi(c); NT, NI, off = c['this.ntheta'], c['NThetaIndex'], c['ithetaoffset']
    my, tod = c['my_tod'], c['tod']
    return [NT >= 0, c['this.cores'] == NRANKS, c['this.corenum'] == RANK, NRANKS >= 1, RANK >= 0, RANK < NRANKS, c['this.nphi'] >= 1, c['this.npsi'] >= 1, NI >= 0, off >= 0, off + NI <= NT, need_own(c),
        c['need_itheta_core'].n == NT * NRANKS, table_is(c['need_itheta_core'], h, NT), *[f for _, f in owners(c)],
        ('every latitude needed has one existing owner', FA([t_], Imp(And(rng(t_, 0, NT), NEED(h, RANK, t_)), rng(OWN(t_), 0, NRANKS)), NEED(h, RANK, t_))),
        dims_ok(my, c, c['my_itheta'].n), Imp(NI > 0, And(tod.dim(0) == c['this.nphi'], tod.dim(1) == c['this.npsi'], tod.dim(2) == NI)),
        *[('own latitudes are those of the cube, ' + l[1:], FA([i, k, q], Imp(rkt(c, c['my_itheta'].n), at(my, l) == sel(C, [i, k, c['my_itheta'][q]])), at(my, l))) for l, C in cubez(h)]]
def a2a_ens(c):
    h = hemi(c)
    return [('latitudes of the cube, ' + l[1:], FA([i, k, q], Imp(rkt(c, c['NThetaIndex']), at(c['tod'], l) == sel(C, [i, k, c['ithetaoffset'] + q])), at(c['tod'], l))) for l, C in cubez(h)]
def counts(L, cc): return FA([c_], Imp(rng(c_, 0, NRANKS), And(L['sendcounts_lat'][c_] == z3.If(c_ < cc, xc(RANK, c_, L['this.ntheta']), 0), L['recvcounts_lat'][c_] == z3.If(c_ < cc, xc(c_, RANK, L['this.ntheta']), 0))), L['sendcounts_lat'][c_], L['recvcounts_lat'][c_], SO(c_))
def slist(L): return FA([u_], Imp(rng(u_, 0, L['itheta_send'].n), And(rng(L['itheta_send'][u_], 0, L['my_itheta'].n), L['my_itheta'][L['itheta_send'][u_]] == ST(u_))), L['itheta_send'][u_], ST(u_))
def rlist(L): return FA([u_], Imp(rng(u_, 0, L['itheta_recv'].n), And(rng(L['itheta_recv'][u_], 0, L['NThetaIndex']), L['itheta_recv'][u_] + L['ithetaoffset'] == RT(u_), VP(RT(u_)) == u_)), L['itheta_recv'][u_], RT(u_))
def a2a_sizes(L): return ('sizes', And(L['sendcounts_lat'].n == NRANKS, L['recvcounts_lat'].n == NRANKS))
def a2a0(L):
    cc = L['core']
    return [('range', And(cc >= 0, cc <= NRANKS)), a2a_sizes(L), ('counts', counts(L, cc)), ('latitudes listed', And(L['itheta_send'].n == SO(cc), L['itheta_recv'].n == RO(cc))), ('send list', slist(L)), ('receive list', rlist(L))]
def a2a1(L):
    cc, pos, NT = L['core'], L['pos'], L['this.ntheta']
    return [('range', And(pos >= 0, pos <= L['my_itheta'].n)), a2a_sizes(L), ('count', L['sendcounts_lat'][cc] == CQ(HEMI, RANK, cc, pos)),
        ('other counts', FA([c_], Imp(And(rng(c_, 0, NRANKS), c_ != cc), L['sendcounts_lat'][c_] == L.before['sendcounts_lat'][c_]), L['sendcounts_lat'][c_])),
        ('listed', L['itheta_send'].n == SO(cc) + CQ(HEMI, RANK, cc, pos)), ('send list', slist(L))]
def a2a1_end(L):
    cc, pos, NT = L['core'], L['pos'] - 1, L['this.ntheta']
    t = L['my_itheta'][pos]
    return [('own latitude', And(rng(t, 0, NT), OWN(t) == RANK, NO(RANK, t) == pos, t == NTH(RANK, pos))), ('place', xc(RANK, cc, t) == CQ(HEMI, RANK, cc, pos)),
        ('counted', CQ(HEMI, RANK, cc, pos + 1) == CQ(HEMI, RANK, cc, pos) + z3.If(NEED(HEMI, cc, t), 1, 0)),
        ('sent there', Imp(NEED(HEMI, cc, t), ST(SO(cc) + xc(RANK, cc, t)) == t))]
def a2a1_after(L):
    cc, NT = L['core'], L['this.ntheta']
    return [('all counted', And(L['my_itheta'].n == NO(RANK, NT), CQ(HEMI, RANK, cc, NO(RANK, NT)) == xc(RANK, cc, NT)))]
def a2a2(L):
    cc, pos, NT = L['core'], L['pos'], L['this.ntheta']
    x = xc(cc, RANK, L['ithetaoffset'] + pos)
    return [('range', And(pos >= 0, pos <= L['NThetaIndex'])), a2a_sizes(L), ('count', L['recvcounts_lat'][cc] == x),
        ('other counts', FA([c_], Imp(And(rng(c_, 0, NRANKS), c_ != cc), L['recvcounts_lat'][c_] == L.before['recvcounts_lat'][c_]), L['recvcounts_lat'][c_])),
        ('listed', L['itheta_recv'].n == RO(cc) + x), ('receive list', rlist(L))]
def a2a2_end(L):
    cc, pos = L['core'], L['pos'] - 1
    t = L['ithetaoffset'] + pos; g = OWN(t) == cc
    return [('needed', NEED(HEMI, RANK, t)), ('counted', xc(cc, RANK, t + 1) == xc(cc, RANK, t) + z3.If(g, 1, 0)), ('received there', Imp(g, And(VP(t) == RO(cc) + xc(cc, RANK, t), RT(VP(t)) == t)))]
def a2a2_after(L): return [('all counted', xc(L['core'], RANK, L['ithetaoffset'] + L['NThetaIndex']) == xc(L['core'], RANK, L['this.ntheta']))]
def ptr_off(L, nm): return L.ptr(nm)
def lex(b, j, k, lim):
    d = z3.BoolVal(False); eq = z3.BoolVal(True)
    for x, l in zip((b, j, k), lim): d = Or(d, And(eq, x < l)); eq = And(eq, x == l)
    return z3.simplify(d)
def gist(L, buf, names, src, b, lim, P):
    """cells of buffer `buf` that come before `lim` hold the cube at latitude src(b)"""
    z = L[buf]
    return [('%s, %s' % (names, l[1:]), FA([b_, j_, k_], Imp(And(b_ >= 0, rng(j_, 0, L['this.nphi']), rng(k_, 0, L['this.npsi']), lex(b_, j_, k_, lim)), z[AD(b_, j_, k_) + o] == sel(C, [j_, k_, src(b_)])), AD(b_, j_, k_))) for o, (l, C) in enumerate(cubez(HEMI))]
def walks(L, lim, sz, buf):
    """the pointer stands at the next cell; all cells before lie below it"""
    p = L['p']
    return [('place in the buffer', And(p.off == AD(*lim), L[buf].n == AD(sz, iv(0), iv(0)))),
            ('cells passed', FA([b_, j_, k_], Imp(And(b_ >= 0, rng(j_, 0, L['this.nphi']), rng(k_, 0, L['this.npsi']), lex(b_, j_, k_, lim)), AD(b_, j_, k_) + 2 <= p.off), AD(b_, j_, k_)))]
def known(L):
    return [('lists', And(L['nsend'] == SO(NRANKS), L['nrecv'] == RO(NRANKS), L['itheta_send'].n == L['nsend'], L['itheta_recv'].n == L['nrecv']))]
def pack(depth):
    def inv(L):
        v = [L[x] for x in ('isend', 'iphi', 'ipsi')[:depth + 1]]
        lim = v + [iv(0)] * (2 - depth)
        hi = [L['nsend'], L['this.nphi'], L['this.npsi']]
        return [('range', And(*[And(x >= 0, x <= h) for x, h in zip(v, hi)]))] + walks(L, lim, L['nsend'], 'sendbuf') + gist(L, 'sendbuf', 'packed', ST, b_, lim, None)
    return inv
def pack_end(L):
    b, jj, kk = L['isend'], L['iphi'], L['ipsi'] - 1
    return [('this cell', And(L['sendbuf'][AD(b, jj, kk)] == sel(CUBE_RE(HEMI), [jj, kk, ST(b)]), L['sendbuf'][AD(b, jj, kk) + 1] == sel(CUBE_IM(HEMI), [jj, kk, ST(b)])))]
def disp(L):
    cc = L['core']; B = 2 * (L['this.npsi'] * L['this.nphi']); NT = L['this.ntheta']
    one = lambda a, f: FA([c_], Imp(rng(c_, 0, cc), L[a][c_] == B * f(c_)), L[a][c_])
    return [('range', And(cc >= 0, cc <= NRANKS)), ('sizes', And(*[L[x].n == NRANKS for x in ('sendcounts', 'recvcounts', 'sdispls', 'rdispls')])), ('block', L['bufsize'] == B),
        ('counts sent', one('sendcounts', lambda x: xc(RANK, x, NT))), ('counts received', one('recvcounts', lambda x: xc(x, RANK, NT))), ('offsets sent', one('sdispls', SO)), ('offsets received', one('rdispls', RO))]
def unpack(depth):
    def inv(L):
        v = [L[x] for x in ('irecv', 'iphi', 'ipsi')[:depth + 1]]
        lim = v + [iv(0)] * (2 - depth)
        hi = [L['nrecv'], L['this.nphi'], L['this.npsi']]; off = L['ithetaoffset']
        tod = L['tod']
        done = lex(VP(off + q), i, k, lim)
        out = [('range', And(*[And(x >= 0, x <= h) for x, h in zip(v, hi)])), ('place in the buffer', L['p'].off == AD(*lim)), ('size', And(*[tod.dim(z) == L.old['tod'].dim(z) for z in range(3)]))]
        for l, C in cubez(HEMI): out.append(('unpacked, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, L['NThetaIndex']), done), at(tod, l) == sel(C, [i, k, off + q])), at(tod, l))))
        return out
    return inv
def unpack_end(L):
    b, jj, kk = L['irecv'], L['iphi'], L['ipsi'] - 1
    pos, tod, old = L['pos'], L['tod'], L.start['tod']
    return [('row', And(rng(pos, 0, L['NThetaIndex']), pos + L['ithetaoffset'] == RT(b), VP(pos + L['ithetaoffset']) == b))] + [('this cell, ' + l[1:], tod.at(jj, kk, pos, leaf=l) == sel(C, [jj, kk, L['ithetaoffset'] + pos])) for l, C in cubez(HEMI)] + [
        ('only this latitude, ' + l[1:], FA([i, k, q], Imp(And(rkt(L, L['NThetaIndex']), Or(i != jj, k != kk, q != pos)), at(tod, l) == at(old, l)), at(tod, l))) for l in ('.re', '.im')] + [
        ('the row of another latitude', FA([q], Imp(And(rng(q, 0, L['NThetaIndex']), q != pos), VP(L['ithetaoffset'] + q) != b), VP(L['ithetaoffset'] + q)))]
def m_mpi_alltoallv(E, st, n, this, args):
    """on success every process has, at its offset, the block each process put at the offset meant for it"""
    if 'latitudes' not in E.opts: raise Unsupported('MPI_Alltoallv without a protocol')
    L = here(E, st)
    ps = [E.ev(args[z], st) for z in (0, 1, 2, 4, 5, 6)]
    x, sc, sd, y, rc, rd = [View(E.container(st, p.path, None)) for p in ps]
    B = 2 * (L['this.npsi'] * L['this.nphi']); NT = L['this.ntheta']; P, Sn = L['this.nphi'], L['this.npsi']
    O = lambda lab, f: E.oblige(st, 'guarantee', 'MPI_Alltoallv: ' + lab, f, n)
    O('whole arrays', And(*[p.off == 0 for p in ps]))
    O('one count and offset per process', And(*[z.n >= NRANKS for z in (sc, sd, rc, rd)]))
    for lab, a, f in (('counts sent', sc, lambda c: xc(RANK, c, NT)), ('counts received', rc, lambda c: xc(c, RANK, NT)), ('offsets sent', sd, SO), ('offsets received', rd, RO)):
        O(lab, FA([c_], Imp(rng(c_, 0, NRANKS), a[c_] == B * f(c_)), a[c_]))
    O('everything sent exists', x.n >= AD(SO(NRANKS), iv(0), iv(0)))
    O('room for everything received', y.n >= AD(RO(NRANKS), iv(0), iv(0)))
    for side, off, blk, cnt in (('sent', SO, SB, lambda c: xc(RANK, c, NT)), ('received', RO, VB, lambda c: xc(c, RANK, NT))):
        O('every latitude %s is in a block' % side, FA([u_], Imp(rng(u_, 0, off(NRANKS)), And(rng(blk(u_), 0, NRANKS), off(blk(u_)) <= u_, u_ < off(blk(u_)) + cnt(blk(u_)))), blk(u_)))
        O('blocks %s lie inside' % side, FA([c_], Imp(rng(c_, 0, NRANKS), And(off(c_) >= 0, cnt(c_) >= 0, off(c_ + 1) == off(c_) + cnt(c_), off(c_ + 1) <= off(NRANKS))), cnt(c_)))
    ok = lambda u, N: And(u >= 0, u < N, rng(j_, 0, P), rng(k_, 0, Sn))
    for o, (l, C) in enumerate(cubez(HEMI)):
        O('the x-th latitude for a process is the x-th it waits for, ' + l[1:], FA([u_, j_, k_], Imp(ok(u_, SO(NRANKS)), x[AD(u_, j_, k_) + o] == sel(C, [j_, k_, XT(HEMI, RANK, SB(u_), u_ - SO(SB(u_)))])), AD(u_, j_, k_)))
    e = mpi_error(E)
    new = replace(E, st, ps[3], E.container(st, ps[3].path, None), [y.n])
    for o, (l, C) in enumerate(cubez(HEMI)):
        st.assume(FA([u_, j_, k_], Imp(And(e == 0, ok(u_, RO(NRANKS))), new[AD(u_, j_, k_) + o] == sel(C, [j_, k_, XT(HEMI, VB(u_), RANK, u_ - RO(VB(u_)))])), AD(u_, j_, k_)))
    return e
MODELS['MPI_Alltoallv'] = m_mpi_alltoallv
A2A = S('convolver::alltoall_datacube', ['need_itheta_core', 'itheta_core', 'my_itheta', 'my_tod', 'tod', 'ithetaoffset', 'NThetaIndex'], modifies=['tod'], keep_dims=['tod'], opts=dict(latitudes=True),
  axioms=a2a_axioms, lemmas=a2a_lemmas, requires=a2a_req, ensures=a2a_ens, throws_ok=no_room, exsures=refused,
  loops={0: Loop(inv=a2a0), 1: Loop(inv=a2a1, at_end=a2a1_end, after=a2a1_after, body_hints=lambda L: [TRG(L['core'], L['my_itheta'][L['pos']])]), 2: Loop(inv=a2a2, at_end=a2a2_end, after=a2a2_after),
     3: Loop(inv=pack(0)), 4: Loop(inv=pack(1)), 5: Loop(inv=pack(2), at_end=pack_end), 6: Loop(inv=disp), 7: Loop(inv=unpack(0)), 8: Loop(inv=unpack(1)), 9: Loop(inv=unpack(2), at_end=unpack_end)}, nloops=10)
# ---------------------------------------------------------------- the sum over multipoles
def SGN(e): return z3.If(e % 2 == 0, rv(1), rv(-1))
WD = z3.Function('wigner_d', I, I, R, I, R)          # d^l_{k mu}(angle)
FIRST = z3.Function('first_significant', I, I, R, I) # the degree from which the generator delivers d^l_{k mu}(angle)
an_ = z3.Real('an_'); l_, u1_ = z3.Ints('l_ u1_')
WIG_PI = FA([k_, m_, an_, l_], WD(k_, m_, PI - an_, l_) == SGN(l_) * SGN(k_) * WD(k_, -m_, an_, l_), WD(k_, m_, PI - an_, l_))
def iabs(e): return z3.If(e >= 0, e, -e)
def mx2(a, b): return z3.If(a >= b, a, b)
def fields_of(E, st, this, *nm):
    lv = this if isinstance(this, LV) else LV(this, (), '', None)
    return [LV(lv.path + '.' + x, (), '', Ty('int', 'int')) for x in nm]
def m_wctor(E, st, path, args, n):
    """generator of rotation matrix elements up to a degree, for a list of angles"""
    L_ = coerce(val(E, args[0], st), I)
    a = E.lv(args[1], st)
    x = E.container(st, a.path, a.t.a[0] if a.t.k == 'ref' else a.t)
    E.oblige(st, 'precondition', 'wignergen: largest degree', L_ >= 1, n)
    E.ghost.setdefault('wigner', {})[path] = (L_, View(x))
    for f in ('m1', 'm2'): st.v['%s.ghost_%s' % (path, f)] = iv(-1234567890)
def wig(E, this):
    g = E.ghost.get('wigner', {}).get(this.path)
    if g is None: raise Unsupported('rotation matrix elements without a generator')
    return g
def m_wprepare(E, st, n, this, args):
    """selects the orders"""
    L_, _ = wig(E, this)
    for f, a in zip(('m1', 'm2'), args):
        v = coerce(val(E, a, st), I)
        E.oblige(st, 'precondition', 'wignergen::prepare: order within the degree', iabs(v) <= L_, n)
        if E.log is not None: E.log.append(('w', '%s.ghost_%s' % (this.path, f), '', (), st.facts[:]))
        st.v['%s.ghost_%s' % (this.path, f)] = v
def m_wcalc(E, st, n, this, args):
    """the elements of the selected orders at the nth angle, from the first significant degree on"""
    L_, ang = wig(E, this)
    nth = coerce(val(E, args[0], st), I)
    E.oblige(st, 'precondition', 'wignergen::calc: number of the angle', rng(nth, 0, ang.n), n)
    k1, m1 = st.v.get(this.path + '.ghost_m1'), st.v.get(this.path + '.ghost_m2')
    if k1 is None or m1 is None: raise Unsupported('orders of the generator unknown')
    E.oblige(st, 'precondition', 'wignergen::calc: orders selected', And(iabs(k1) <= L_, iabs(m1) <= L_), n)
    f = FIRST(k1, m1, ang[nth])
    st.assume(And(f >= iabs(k1), f >= iabs(m1), f <= L_ + 1))
    E.wr(st, E.lv(args[1], st), f)
    p = this.path + '.ghost_result'
    t = Ty('arr', 'arr', [Ty('real', 'double')])
    if E.log is not None: E.log.append(('w', p, '*', (), st.facts[:]))
    new = fresh_arr(E.uid('elements'), t, [L_ + 1])
    st.v[p] = new
    y = View(new)
    st.assume(FA([l_], Imp(And(l_ >= f, l_ <= L_), y[l_] == WD(k1, m1, ang[nth], l_)), y[l_]))
    return LV(p, (), '', t)
for c_n in ('wignergen', 'wignergen_scalar'):
    MODELS['ctor:' + c_n] = m_wctor; MODELS[c_n + '::prepare'] = m_wprepare; MODELS[c_n + '::calc'] = m_wcalc
THN = z3.Function('angle_of_latitude', I, R)         # northern angle of a latitude of the grid
def ANGLE(h, t): return z3.If(h == 0, THN(t), PI - THN(t))
def first_l(mu, kk, t): return mx2(FIRST(kk, iabs(mu), THN(t)), FIRST(kk, -iabs(mu), THN(t)))
PRR, PRI = z3.Function('product_re', I, I, I, R), z3.Function('product_im', I, I, I, R)     # (l, mu, k): s_{l mu} times the conjugate of b_{l k}, all components
SPR, SPI = z3.Function('sky_re', I, I, I, R), z3.Function('sky_im', I, I, I, R)             # (component, l, mu): sky coefficient, any sign of mu
mu_ = z3.Int('mu_')
COMP = 'TGC'
def sky_of(c, x, l, mu, leaf):
    a = c.old['this.s.slm%s_' % x].at(l, iabs(mu), leaf=leaf)
    return z3.If(mu >= 0, a, SGN(mu) * a if leaf == '.re' else -(SGN(mu) * a))
def beam_of(c, x, l, kk, leaf): return c.old['this.b.blm%s_' % x].at(l, kk, leaf=leaf)
def prods(c, x):
    sr, si = sky_of(c, x, l_, mu_, '.re'), sky_of(c, x, l_, mu_, '.im')
    br, bi = beam_of(c, x, l_, k_, '.re'), beam_of(c, x, l_, k_, '.im')
    return sr * br + si * bi, si * br - sr * bi
CSR, CSI = [z3.Function('order_sum_' + x, I, I, I, I, I, R) for x in ('re', 'im')]   # (h, mu, k, t, n): sum over the degrees below n
TRM = z3.Function('weighted_element', I, I, I, I, I, R)                           # (h, mu, k, t, l)
QC, QS, PC, PS_ = [z3.Function(x, I, R) for x in ('cos_order', 'sin_order', 'cos_longitude', 'sin_longitude')]
FGR, FGI = [z3.Function('cube_sum_' + x, I, I, I, I, I, R) for x in ('re', 'im')]    # (h, k, t, j, n): sum over the first n orders
def som(e): return z3.simplify(e, som=True)
def cube_axioms(c, comps):
    lm, N, S_n, NT = c['this.lmax'], c['this.nphi'], c['this.npsi'], c['this.ntheta']
    lmi = (2 * PI * T(lm)) / T(2 * lm + 1)
    out = [WIG_PI, FA([t_], THN(t_) == c['this.theta0'] + T(t_) * c['this.dtheta'], THN(t_))]
    pr = [prods(c, x) for x in comps]
    out += [FA([l_, mu_, k_], And(PRR(l_, mu_, k_) == sum([p[0] for p in pr[1:]], pr[0][0]), PRI(l_, mu_, k_) == sum([p[1] for p in pr[1:]], pr[0][1])), PRR(l_, mu_, k_), PRI(l_, mu_, k_))]
    out += [FA([h_, mu_, k_, t_, l_], TRM(h_, mu_, k_, t_, l_) == SGN(mu_) * SGN(k_) * WD(k_, mu_, ANGLE(h_, t_), l_), TRM(h_, mu_, k_, t_, l_))]
    for F, Pz in ((CSR, PRR), (CSI, PRI)):
        out += [FA([h_, mu_, k_, t_, n], Imp(n <= first_l(mu_, k_, t_), F(h_, mu_, k_, t_, n) == 0), F(h_, mu_, k_, t_, n)),
                FA([h_, mu_, k_, t_, l_, n], Imp(And(l_ >= first_l(mu_, k_, t_), n == l_ + 1), F(h_, mu_, k_, t_, n) == F(h_, mu_, k_, t_, l_) + TRM(h_, mu_, k_, t_, l_) * Pz(l_, mu_, k_)), MP(F(h_, mu_, k_, t_, l_), F(h_, mu_, k_, t_, n)))]
    out += [FA([m_], And(QC(m_) == COS(som(-HALFPI * T(m_))), QS(m_) == SIN(som(-HALFPI * T(m_)))), QC(m_), QS(m_)), FA([j_], And(PC(j_) == COS(som(T(j_) * lmi)), PS_(j_) == SIN(som(T(j_) * lmi))), PC(j_), PS_(j_))]
    a, b = rot(QC(m_ - lm), QS(m_ - lm), CSR(h_, m_ - lm, k_, t_, lm + 1), CSI(h_, m_ - lm, k_, t_, lm + 1))
    for F, e in ((FGR, a * TC(N, j_, m_) - b * TS(N, j_, m_)), (FGI, b * TC(N, j_, m_) + a * TS(N, j_, m_))):
        out += [FA([h_, k_, t_, j_], F(h_, k_, t_, j_, iv(0)) == 0, F(h_, k_, t_, j_, iv(0))), FA([h_, k_, t_, j_, m_, n], Imp(And(m_ >= 0, n == m_ + 1), F(h_, k_, t_, j_, n) == F(h_, k_, t_, j_, m_) + e), MP(F(h_, k_, t_, j_, m_), F(h_, k_, t_, j_, n)))]
    a, b = rot(PC(j_), PS_(j_), FGR(h_, k_, t_, j_, N), FGI(h_, k_, t_, j_, N))
    a, b = rot(QC(k_), QS(k_), a, b)
    out += [FA([h_, j_, k_, t_], Imp(And(rng(j_, 0, N), rng(k_, 0, S_n), rng(t_, 0, NT)), sel(C(h_), [j_, k_, t_]) == e), sel(C(h_), [j_, k_, t_])) for C, e in ((CUBE_RE, a), (CUBE_IM, b))]
    return out
ORD = z3.Function('orders_of_latitude', I, A3, A3, A1, A1, I, I, B)
tl_, tg_ = z3.Ints('tl_ tg_')
OV = [h_, re_, im_, cs_, sn_, tl_, tg_]
def ord_defs(c):
    lm, N, S_n = c['this.lmax'], c['this.nphi'], c['this.npsi']
    cell = lambda r, kk: And(sel(re_, [r, kk, tl_]) == CSR(h_, r - lm, kk, tg_, lm + 1), sel(im_, [r, kk, tl_]) == CSI(h_, r - lm, kk, tg_, lm + 1), sel(cs_, [r]) == QC(r - lm), sel(sn_, [r]) == QS(r - lm))
    dom = And(rng(m_, 0, N), rng(k_, 0, S_n))
    return [FA(OV + [m_, k_], Imp(And(ORD(*OV), dom), cell(m_, k_)), MP(ORD(*OV), sel(re_, [m_, k_, tl_]))), FA(OV + [m_, k_], Imp(And(ORD(*OV), dom), cell(m_, k_)), MP(ORD(*OV), sel(im_, [m_, k_, tl_]))),
        FA(OV, Imp(FA([m_, k_], Imp(dom, cell(m_, k_)), sel(re_, [m_, k_, tl_]), sel(im_, [m_, k_, tl_])), ORD(*OV)), ORD(*OV))]
def cube_lemmas_(comps):
    def lem(c):
        M = z3.Int('M'); N = c['this.nphi']
        ax = cube_axioms(c, comps); od = ord_defs(c)
        fg = [ax[-6:-4], ax[-4:-2]]
        out = []
        for l, A, F, D in (('re', FSR, FGR, fg[0]), ('im', FSI, FGI, fg[1])):
            out.append(Induct('sum over the orders of a latitude, ' + l, M, (OV + [k_, j_], Imp(And(ORD(*OV), M <= N, rng(k_, 0, c['this.npsi'])), A(re_, im_, cs_, sn_, N, k_, tl_, j_, M) == F(h_, k_, tg_, j_, M))), pats=[MP(ORD(*OV), A(re_, im_, cs_, sn_, N, k_, tl_, j_, M))], only=FSD() + D + od[:2]))
        return out
    return lem
def hm_req(pol, comps):
    def req(c):
        out = grid_req(c) + cube_req(c, comps) + [c['this.pol'] == z3.BoolVal(pol)] + ([c['this.s.pol'], c['this.b.pol']] if pol else [])
        for h in '12':
            N, o, t = c['NThetaIndex' + h], c['ithetaoffset' + h], c['tod' + h]
            out += [N >= 0, o >= 0, o + N <= c['this.ntheta'], Imp(N > 0, And(t.dim(0) == c['this.nphi'], t.dim(1) == c['this.npsi'], t.dim(2) == N))]
        return out
    return req
CM = [(0, 'my_Cmm1'), (1, 'my_Cmm2')]
LEAFS = [('.re', CSR), ('.im', CSI)]
def nth_own(L, x): return L['my_itheta'][x]
def hm_sizes(L):
    n = L['my_itheta'].n
    return [('sizes', And(*[dims_ok(L[nm], L, n) for _, nm in CM], n >= 0, L['my_ntheta'] == n))]
def hm_cells(L, done):
    out = []
    n = L['my_itheta'].n; lm = L['this.lmax']
    for h, nm in CM:
        for l, F in LEAFS:
            a = L[nm]
            out.append(('orders summed, %s %s' % (nm[-1], l[1:]), FA([i, k, q], Imp(rkt(L, n), at(a, l) == z3.If(done(i - lm, k, q), F(iv(h), i - lm, k, nth_own(L, q), lm + 1), 0)), at(a, l))))
    return out
def hm_angles(L):
    n = L['my_itheta'].n; r = L['rthetas']
    return [('angles', And(r.n == n, FA([x_], Imp(rng(x_, 0, n), r[x_] == THN(nth_own(L, x_))), r[x_])))]
def hm_loops(latname, comps):
    def l0(L):
        v = L['itheta_local']; r = L['rthetas']; n = L['my_itheta'].n
        return [('range', And(v >= 0, v <= n, r.n == n)), ('angles so far', FA([x_], Imp(rng(x_, 0, v), r[x_] == THN(nth_own(L, x_))), r[x_]))]
    def l1(L):
        mb = L['mbeam']
        return hm_sizes(L) + [('range', And(mb >= 0, mb <= L['this.npsi']))] + hm_cells(L, lambda mu, kk, x: kk < mb)
    def l2(L):
        mb, ms = L['mbeam'], L['msky']
        return hm_sizes(L) + [('range', And(ms >= 0, ms <= L['this.lmax'] + 1))] + hm_cells(L, lambda mu, kk, x: Or(kk < mb, And(kk == mb, iabs(mu) < ms)))
    def l3(L):
        mb, ms, la = L['mbeam'], L['msky'], L[latname]
        return hm_sizes(L) + [('range', And(la >= 0, la <= L['my_ntheta']))] + hm_cells(L, lambda mu, kk, x: Or(kk < mb, And(kk == mb, iabs(mu) < ms), And(kk == mb, iabs(mu) == ms, x < la)))
    def l4(L):
        mb, ms, la, ii, lm = L['mbeam'], L['msky'], L[latname], L['ii'], L['this.lmax']
        t = nth_own(L, la)
        out = hm_sizes(L) + [('range', And(ii >= L['firstl'], ii <= lm + 1)), ('sign of the degree', L['dlb'] == -(SGN(ii) * SGN(mb)))]
        for h, nm in CM:
            for l, F in LEAFS:
                a, b = L[nm], L.before[nm]
                out += [('positive order, %s %s' % (nm[-1], l[1:]), a.at(ms + lm, mb, la, leaf=l) == F(iv(h), ms, mb, t, ii)),
                    ('negative order, %s %s' % (nm[-1], l[1:]), a.at(lm - ms, mb, la, leaf=l) == F(iv(h), -ms, mb, t, ii)),
                    ('other cells, %s %s' % (nm[-1], l[1:]), FA([i, k, q], Imp(And(rkt(L, L['my_itheta'].n), Not(And(k == mb, q == la, Or(i == ms + lm, i == lm - ms)))), at(a, l) == at(b, l)), at(a, l)))]
        return out
    def l4_end(L):
        mb, ms, la, lm = L['mbeam'], L['msky'], L[latname], L['this.lmax']; l = L['ii'] - 1
        t = nth_own(L, la)
        d1, d2 = L['dmm'], L['dmmneg']
        out = [('elements', And(d1[l] == WD(mb, ms, THN(t), l), d2[l] == WD(mb, -ms, THN(t), l)))]
        names = {(0, 1): 'dMatrixElementmskypos', (0, -1): 'dMatrixElementmskyneg', (1, 1): 'dMatrixElementmskypos2', (1, -1): 'dMatrixElementmskyneg2'}
        for (h, sg), nm in names.items(): out.append(('weighted element, hemisphere %d, order %+d' % (h + 1, sg), L[nm] == TRM(iv(h), ms * sg, mb, t, l)))
        out += [('product of the coefficients', And(L['tmp_1'] == PRR(l, ms, mb), L['tmp_2'] == PRI(l, ms, mb))),
            ('product for the negative order', Imp(ms != 0, And(L['dsign'] * (L['prod1'] - L['prod2']) == PRR(l, -ms, mb), -L['dsign'] * (L['prod3'] + L['prod4']) == PRI(l, -ms, mb))))]
        for h, nm in CM:
            for lf, F in LEAFS:
                Pz = PRR if lf == '.re' else PRI
                a, b = L[nm], L.start[nm]
                for sg in (1, -1):
                    r = lm + ms * sg
                    out.append(('gain, %s %s %+d' % (nm[-1], lf[1:], sg), a.at(r, mb, la, leaf=lf) == b.at(r, mb, la, leaf=lf) + TRM(iv(h), ms * sg, mb, t, l) * Pz(l, ms * sg, mb)))
        return out
    def l5(L):
        r = L['msky'] + L['this.lmax']; lm = L['this.lmax']
        o = [('range', And(r >= 0, r <= L['this.nphi'], *[L[x].n == L['this.nphi'] for x in ('cs', 'sn', 'cs0', 'sn0')]))]
        for nm, F in (('cs', lambda x: QC(x - lm)), ('sn', lambda x: QS(x - lm)), ('cs0', PC), ('sn0', PS_)): o.append(('phases ' + nm, FA([x_], Imp(rng(x_, 0, r), L[nm][x_] == F(x_)), L[nm][x_])))
        return o
    def l5_end(L):
        ms = L['msky'] - 1; r = ms + L['this.lmax']
        return [('phase of this order', And(L['cs'][r] == QC(ms), L['sn'][r] == QS(ms), L['cs0'][r] == PC(r), L['sn0'][r] == PS_(r)))]
    def l5_after(L):
        n = L['my_itheta'].n; lm = L['this.lmax']
        o = []
        for h, nm in CM:
            o.append(('orders of each latitude, %d' % (h + 1), FA([x_], Imp(rng(x_, 0, n), ORD(iv(h), L[nm].raw('.re'), L[nm].raw('.im'), L['cs'].raw(), L['sn'].raw(), x_, nth_own(L, x_))), nth_own(L, x_))))
        return o
    return {0: Loop(inv=l0), 1: Loop(inv=l1), 2: Loop(inv=l2), 3: Loop(inv=l3), 4: Loop(inv=l4, at_end=l4_end), 5: Loop(inv=l5, at_end=l5_end, after=l5_after)}
def hm_defs(c): return [mine(c, 0), mine(c, 1)]
for x, pol, comps, latname in (('', False, 'T', 'lat'), ('_pol', True, 'TGC', 'itheta')):
    S('convolver::conviqt_hemiscm' + x, ['tod1', 'tod2', 'NThetaIndex1', 'NThetaIndex2', 'ithetaoffset1', 'ithetaoffset2'], modifies=['tod1', 'tod2'], keep_dims=['tod1', 'tod2'], opts=dict(name_locals=True), unit=['src/conviqt_math.cpp', 'src/conviqt_io.cpp'],
      requires=hm_req(pol, comps), ensures=hemi_ens, throws_ok=lambda w: no_room(w) or w in ('contract:convolver::get_latitude_tables', 'contract:convolver::alltoall_datacube'), exsures=lambda c: [('with what it needs, only get_latitude_tables and alltoall_datacube refuse', z3.BoolVal('convolver::conviqt_hemiscm' not in c.E.cur_spec.name))], axioms=lambda c, comps=comps: FSD() + cube_axioms(c, comps) + ord_defs(c) + [AGREE_INTRO], defs=hm_defs,
      lemmas=cube_lemmas_(comps), loops=hm_loops(latname, comps), nloops=6)
HEMIS = ['convolver::conviqt_hemiscm', 'convolver::conviqt_hemiscm_pol']
PROPS = dict(C01=[A2A.key], C02=HEMIS + [A2A.key], C03=[LAT.key, A2A.key], C07=HEMIS[:1] + [TODANN.key, 'convolver::interpolTOD', 'convolver::conviqt_tod_loop', 'convolver::todgen'], C08=HEMIS + [TODANN.key])

# data races of the parallel regions (dv/race.py)
from .f_signal import TODLOOP
for S_ in SPECS + [TODLOOP]:
    if S_.key in HEMIS + [TODANN.key, TODLOOP.key]: S_.opts = dict(S_.opts or {}, race=True)
PROPS['C22'] = ['race:' + x for x in HEMIS + [TODANN.key, TODLOOP.key]]
