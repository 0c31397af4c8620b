"""Loading of expansions: smoothing windows (C23), coefficient files and limits (C11)."""
from .base import *
from dv.models import EXP, val

SPECS, MODELS = [], {}
def S(name, params=None, key=None, unit=None, **k):
    s = Spec(name, params, key=key or name, unit=unit, **k); SPECS.append(s); return s
T = z3.ToReal
l_, m_ = z3.Ints('l_ m_')
def m_scale_l(E, st, n, b, t, args):
    """Alm::ScaleL by its contract (C18): every coefficient times the factor of its degree; refused if the factors are too few"""
    f = E.lv(args[0], st); a = E.container(st, b.path, t); g = E.container(st, f.path, f.t)
    E.oblige(st, 'precondition', 'ScaleL:enough factors', g.dims[0] > a.dims[0], n)
    na = fresh_arr(E.uid('scaleL'), t, a.dims)
    for l in na.d:
        st.assume(z3.ForAll([l_, m_], sel(na.d[l], [l_, m_]) == sel(a.d[l], [l_, m_]) * sel(g.d[''], [l_]), patterns=[sel(na.d[l], [l_, m_])]))
    if E.log is not None: E.log.append(('w', b.path, '*', (), st.facts[:]))
    st.v[b.path] = na
MODELS['alm.ScaleL'] = m_scale_l

# ---- C23: WIN(f, l) factor of degree l for a width f: exp(-+ l(l+1) sigma^2/2), sigma = f * fwhm2sigma; WINP for polarisation
SIG = flt(1 / 2.3548200450309493)
WIN = z3.Function('window', R, I, R); WINP = z3.Function('window_polarised', R, I, R); SPIN2 = z3.Function('spin_factor', R, R); f_ = z3.Real('f_')
def sgn(f): return T(z3.If(f >= 0, iv(1), iv(-1)))
def win_exp(f, ll): return EXP(z3.simplify(-sgn(f) * T(ll) * (T(ll) + 1) * (f * SIG) * (f * SIG) / 2, som=True))
def windefs(f):
    return [FA([l_], WIN(f, l_) == win_exp(f, l_), WIN(f, l_)), FA([l_], WINP(f, l_) == WIN(f, l_) * SPIN2(f), WINP(f, l_)), SPIN2(f) == EXP(z3.simplify(2 * sgn(f) * (f * SIG) * (f * SIG), som=True))]
def times(c, a, w):
    x, y = c[a], c.old[a]
    return And(x.dim(0) == y.dim(0), x.dim(1) == y.dim(1), FA([l_, m_], Imp(And(m_ >= 0, m_ <= y.dim(1), m_ <= l_, l_ <= y.dim(0)), And(*[x.at(l_, m_, leaf=f) == y.at(l_, m_, leaf=f) * w(c['fwhm'], l_) for f in ('.re', '.im')])), x.at(l_, m_, leaf='.re'), x.at(l_, m_, leaf='.im')))
def gb_inv(a, w, w0=None):
    def inv(L):
        g, L0 = L['gb'], L[a]
        out = [('range', And(L['l'] >= 0, L['l'] <= L0.dim(0) + 1, g.n == L0.dim(0) + 1)), ('factors so far', FA([l_], Imp(rng(l_, 0, L['l']), g[l_] == w(L['fwhm'], l_)), g[l_]))]
        if w0 is not None: out += [('factors not yet changed', FA([l_], Imp(rng(l_, L['l'], g.n), g[l_] == w0(L['fwhm'], l_)), g[l_]))]
        return out
    return inv
def factor(w): return lambda L: [('factor', L['gb'][L['l'] - 1] == w(L['fwhm'], L['l'] - 1))]
AS = 'levels/Healpix_cxx/alm_powspec_tools.cc'
EXP0 = EXP(rv(0)) == 1
def unchanged(c, a):
    return Imp(c['fwhm'] == 0, FA([l_, m_], Imp(And(m_ >= 0, m_ <= c.old[a].dim(1), m_ <= l_, l_ <= c.old[a].dim(0)), And(*[c[a].at(l_, m_, leaf=f) == c.old[a].at(l_, m_, leaf=f) for f in ('.re', '.im')]))))
def zerow(c): return [Fact('zero width', Imp(c['fwhm'] == 0, FA([l_], And(WIN(c['fwhm'], l_) == 1, WINP(c['fwhm'], l_) == 1), MP(WIN(c['fwhm'], l_), WINP(c['fwhm'], l_)))), only=windefs(c['fwhm']) + [EXP0])]
S('smoothWithGauss', ['alm', 'fwhm'], key='smoothWithGauss intensity', unit=[AS], nargs=2, type='float', callable=True, modifies=['alm'], axioms=lambda c: windefs(c['fwhm']) + [EXP0],
  requires=lambda c: [c['alm'].dim(0) >= 0], throws_ok=lambda w: 'alloc' in w,
  ensures=lambda c: [('every degree times its window', times(c, 'alm', WIN)), ('a zero width changes nothing', unchanged(c, 'alm'))],
  loops={0: Loop(inv=gb_inv('alm', WIN), at_end=factor(WIN))}, nloops=1)
S('smoothWithGauss', ['almT', 'almG', 'almC', 'fwhm'], key='smoothWithGauss polarised', unit=[AS], nargs=4, type='float', callable=True, modifies=['almT', 'almG', 'almC'], axioms=lambda c: windefs(c['fwhm']) + [EXP0],
  requires=lambda c: [c['almT'].dim(0) >= 0, c['almG'].dim(0) == c['almT'].dim(0), c['almC'].dim(0) == c['almT'].dim(0)], throws_ok=lambda w: 'alloc' in w,
  ensures=lambda c: [('every intensity degree times its window', times(c, 'almT', WIN)), ('every gradient degree times the window of spin 2', times(c, 'almG', WINP)), ('every curl degree times the window of spin 2', times(c, 'almC', WINP)),
     ('a zero width changes nothing', And(unchanged(c, 'almT'), unchanged(c, 'almG'), unchanged(c, 'almC')))],
  loops={0: Loop(inv=gb_inv('almT', WIN), at_end=factor(WIN)), 1: Loop(inv=lambda L: gb_inv('almT', WINP, WIN)(L) + [('spin factor', L['fact_pol'] == SPIN2(L['fwhm']))], at_end=lambda L: [('unscaled', L.start['gb'][L['l'] - 1] == WIN(L['fwhm'], L['l'] - 1)), ('scaled', L['gb'][L['l'] - 1] == L.start['gb'][L['l'] - 1] * SPIN2(L['fwhm']))] + factor(WINP)(L))}, nloops=2)
PROPS = dict(C23=[s.key for s in SPECS if s.name == 'smoothWithGauss'] + ['Alm::ScaleL'])

# ---- C11: coefficient files.  Table h has NROWS(h) rows (index, re, im); a row's index is IX(l,m) of its pair LL(h,r), MM(h,r)
from dv.execu import Opaque
from dv.engine import Throw
NROWS = z3.Function('rows', I, I)
FIDX = z3.Function('file_index', I, I, I); FRE = z3.Function('file_re', I, I, R); FIM = z3.Function('file_im', I, I, R)
LL = z3.Function('row_l', I, I, I); MM = z3.Function('row_m', I, I, I); ROW = z3.Function('row_of', I, I, I)
IX = z3.Function('index_of_pair', I, I, I)
HASL, HASM = z3.Function('has_lmax_key', I, B), z3.Function('has_mmax_key', I, B)
KEYL, KEYM = z3.Function('lmax_key', I, I), z3.Function('mmax_key', I, I)
HDU0 = z3.Int('current_table')
l1, m1, l2, m2, x_, h_, r_ = z3.Ints('l1 m1 l2 m2 x_ h_ r_')
def hdu(st): return st.v.get('ghost.hdu', HDU0)
def literal(a):
    if isinstance(a, dict):
        if a.get('kind') == 'StringLiteral': return a['value'].strip('"')
        for c in a.get('inner', []):
            r = literal(c)
            if r is not None: return r
    return None
def may_fail(E, st, what): E.throws[-1].append(Throw(st.copy(), 'fits ' + what))
def m_open(E, st, n, this, args): may_fail(E, st, 'open'); st.v['ghost.hdu'] = fresh('table', I)
def m_goto(E, st, n, this, args):
    may_fail(E, st, 'goto'); st.v['ghost.hdu'] = coerce(val(E, args[0], st), I)
def m_nelems(E, st, n, this, args): st.assume(NROWS(hdu(st)) >= 0); return NROWS(hdu(st))
def m_chunk(E, st, n, this, args):
    r = fresh('chunk', I); st.assume(r >= 1); return r
def m_haskey(E, st, n, this, args):
    k = literal({'inner': args})
    if k not in ('MAX-LPOL', 'MAX-MPOL'): raise Unsupported('key ' + str(k))
    return (HASL if k == 'MAX-LPOL' else HASM)(hdu(st))
def m_getkey(E, st, n, this, args):
    k = literal({'inner': args[:1]})
    if k not in ('MAX-LPOL', 'MAX-MPOL'): raise Unsupported('key ' + str(k))
    E.oblige(st, 'precondition', 'the key exists', (HASL if k == 'MAX-LPOL' else HASM)(hdu(st)), n)
    E.wr(st, E.lv(args[1], st), (KEYL if k == 'MAX-LPOL' else KEYM)(hdu(st)))
def m_readcol(E, st, n, this, args):
    may_fail(E, st, 'read')
    c = z3.simplify(coerce(val(E, args[0], st), I)); b = E.lv(args[1], st); off = coerce(val(E, args[2], st), I)
    a = E.container(st, b.path, b.t)
    if not z3.is_int_value(c) or c.as_long() not in (1, 2, 3): raise Unsupported('column')
    F = {1: FIDX, 2: FRE, 3: FIM}[c.as_long()]; h = hdu(st)
    E.oblige(st, 'bounds', 'rows exist@L%s' % lineno(n), And(off >= 0, off + a.dims[0] <= NROWS(h)), n)
    na = fresh_arr(E.uid('column'), a.t, a.dims)
    st.assume(z3.ForAll([i], Imp(And(i >= 0, i < a.dims[0]), sel(na.d[''], [i]) == F(h, off + i)), patterns=[sel(na.d[''], [i])]))
    if E.log is not None: E.log.append(('w', b.path, '*', (), st.facts[:]))
    st.v[b.path] = na
from dv.execu import lineof as lineno, fresh_arr
for nm, f in (('open', m_open), ('goto_hdu', m_goto), ('nelems', m_nelems), ('efficientChunkSize', m_chunk), ('key_present', m_haskey), ('get_key', m_getkey), ('read_column', m_readcol)): MODELS['fitshandle::' + nm] = f
LIM = 32767
def ixdef(): return FA([l1, m1], IX(l1, m1) == l1 * l1 + l1 + m1 + 1, IX(l1, m1))
def rows_of(h):
    """a legal table: every row belongs to a pair, no pair has two rows"""
    return [NROWS(h) >= 0, NROWS(h) <= 2**31 - 1,
        FA([r_], Imp(rng(r_, 0, NROWS(h)), And(MM(h, r_) >= 0, MM(h, r_) <= LL(h, r_), LL(h, r_) <= LIM, FIDX(h, r_) == IX(LL(h, r_), MM(h, r_)), ROW(h, FIDX(h, r_)) == r_)), FIDX(h, r_)),
        FA([x_], And(ROW(h, x_) >= -1, ROW(h, x_) < NROWS(h), Imp(ROW(h, x_) >= 0, FIDX(h, ROW(h, x_)) == x_)), ROW(h, x_))]
def pair(l, m): return And(m >= 0, m <= l, l <= LIM)
def ix_lemmas():
    d = ixdef()
    return [Fact('index of a pair', FA([l1, m1], Imp(pair(l1, m1), And(IX(l1, m1) - 1 >= l1 * l1, IX(l1, m1) - 1 < (l1 + 1) * (l1 + 1), IX(l1, m1) >= 1, IX(l1, m1) == l1 * l1 + l1 + m1 + 1)), IX(l1, m1)), only=[d]),
        Fact('squares grow', FA([l1, l2], Imp(And(l1 >= 0, l1 < l2), (l1 + 1) * (l1 + 1) <= l2 * l2)), only=[]),
        Fact('degree of an index', FA([l1, m1, l2], Imp(And(pair(l1, m1), l2 >= 0, l2 * l2 <= IX(l1, m1) - 1, IX(l1, m1) - 1 < (l2 + 1) * (l2 + 1)), l2 == l1), MP(IX(l1, m1), l2 * l2)), only=['index of a pair', 'squares grow']),
        Fact('pairs differ in their index', FA([l1, m1, l2, m2], Imp(And(pair(l1, m1), pair(l2, m2), IX(l1, m1) == IX(l2, m2)), And(l1 == l2, m1 == m2)), MP(IX(l1, m1), IX(l2, m2))), only=['index of a pair', 'squares grow'])]
def cellval(h, P, l, m, leaf): return z3.If(And(ROW(h, IX(l, m)) >= 0, ROW(h, IX(l, m)) < P), (FRE if leaf == '.re' else FIM)(h, ROW(h, IX(l, m))), 0)
def loaded(c, a, h, P, lmax, mmax):
    A = c[a]
    return FA([l_, m_], Imp(And(m_ >= 0, m_ <= mmax, m_ <= l_, l_ <= lmax), And(*[A.at(l_, m_, leaf=x) == cellval(h, P, l_, m_, x) for x in ('.re', '.im')])), *[A.at(l_, m_, leaf=x) for x in ('.re', '.im')])
FS = 'levels/Healpix_cxx/alm_fitsio.cc'
def fits_ok(w): return 'fits' in w or 'alloc' in w
def done(L): 
    o, n_ = L['cm.offset'], L['cm.s_full']
    return z3.If(o < n_, o, n_)
def cm_inv(L): return [('chunks', And(L['cm.s_full'] == NROWS(hdu(L.st)), L['cm.offset'] >= 0, L['cm.s_chunk'] >= 1)), ('same table', hdu(L.st) == hdu(L.entry))]
def inner(L): return [('chunk', And(L['offset'] >= 0, L['offset'] + L['ppix'] <= NROWS(hdu(L.st)), L['i'] >= 0, L['i'] <= L['ppix'], L['index'].n == L['ppix'])),
    ('indices', FA([i], Imp(rng(i, 0, L['ppix']), L['index'][i] == FIDX(hdu(L.st), L['offset'] + i)), L['index'][i]))]
def rd_inner(L): return inner(L) + [('sizes', And(L['re'].n == L['ppix'], L['im'].n == L['ppix'])),
    ('values', FA([i], Imp(rng(i, 0, L['ppix']), And(L['re'][i] == FRE(hdu(L.st), L['offset'] + i), L['im'][i] == FIM(hdu(L.st), L['offset'] + i))), L['re'][i], L['im'][i]))]
def limits(L): return ('limits', And(L['alms'].dim(0) == L['lmax'], L['alms'].dim(1) == L['mmax']))
S('read_Alm_from_fits', ['inp', 'alms', 'lmax', 'mmax'], key='read_Alm_from_fits table', unit=[FS], nargs=4, type='float', callable=True, modifies=['alms', 'inp'], throws_ok=fits_ok,
  requires=lambda c: [c['lmax'] >= 0, c['lmax'] <= LIM, c['mmax'] >= 0, c['mmax'] <= c['lmax'], ixdef()] + rows_of(hdu(c.st)), lemmas=lambda c: ix_lemmas(),
  ensures=lambda c: [('limits are the requested ones', And(c['alms'].dim(0) == c['lmax'], c['alms'].dim(1) == c['mmax'])),
     ('every coefficient is the one of the file, or zero', loaded(c, 'alms', hdu(c.st), NROWS(hdu(c.st)), c['lmax'], c['mmax']))],
  loops={0: Loop(inv=lambda L: cm_inv(L) + [limits(L), ('rows so far', loaded(L, 'alms', hdu(L.st), done(L), L['lmax'], L['mmax']))]),
     1: Loop(inv=lambda L: rd_inner(L) + [limits(L), ('rows so far', loaded(L, 'alms', hdu(L.st), L['offset'] + L['i'], L['lmax'], L['mmax']))])}, nloops=2)
PROPS['C11'] = ['read_Alm_from_fits table']

# ---- order of a table
def keyed(h): return And(HASL(h), HASM(h))
TOPL, TOPM = z3.Function('top_l', I, I, I), z3.Function('top_m', I, I, I)      # largest degree / order among the first rows, -1 if there are none
K = z3.Int('K')
def topdefs(h): return [And(TOPL(h, iv(0)) == -1, TOPM(h, iv(0)) == -1),
    FA([r_, x_], Imp(And(r_ >= 0, x_ == r_ + 1), And(TOPL(h, x_) == z3.If(LL(h, r_) > TOPL(h, r_), LL(h, r_), TOPL(h, r_)), TOPM(h, x_) == z3.If(MM(h, r_) > TOPM(h, r_), MM(h, r_), TOPM(h, r_)))), MP(TOPL(h, r_), TOPL(h, x_)), MP(TOPM(h, r_), TOPM(h, x_)))]
def tops(c, lo, hi, P): return [('largest degree', lo == TOPL(hdu(c.st), P)), ('largest order', hi == TOPM(hdu(c.st), P))]
def top_lemmas(h): return [Induct('no row is larger', K, ([r_], Imp(And(r_ >= 0, r_ < K), And(LL(h, r_) <= TOPL(h, K), MM(h, r_) <= TOPM(h, K)))), pats=[MP(TOPL(h, K), FIDX(h, r_))], only=topdefs(h))]
S('get_almsize', ['inp', 'lmax', 'mmax'], key='get_almsize table', unit=[FS], nargs=3, callable=True, modifies=['lmax', 'mmax', 'inp'], throws_ok=fits_ok,
  requires=lambda c: [ixdef()] + rows_of(hdu(c.st)), axioms=lambda c: topdefs(hdu(c.st)), lemmas=lambda c: ix_lemmas() + top_lemmas(hdu(c.st)),
  ensures=lambda c: [('the keywords decide when both are there', Imp(keyed(hdu(c.st)), And(c['lmax'] == KEYL(hdu(c.st)), c['mmax'] == KEYM(hdu(c.st)))))] +
     [(a, Imp(Not(keyed(hdu(c.st))), b)) for a, b in tops(c, c['lmax'], c['mmax'], NROWS(hdu(c.st)))],
  loops={0: Loop(inv=lambda L: cm_inv(L) + tops(L, L['lmax'], L['mmax'], done(L))), 1: Loop(inv=lambda L: inner(L) + tops(L, L['lmax'], L['mmax'], L['offset'] + L['i']),
     at_end=lambda L: [('row', L.start['index'][L['i'] - 1] == FIDX(hdu(L.st), L['offset'] + L['i'] - 1)),
       ('degree and order of the row', And(L['l'] == LL(hdu(L.st), L['offset'] + L['i'] - 1), L['m'] == MM(hdu(L.st), L['offset'] + L['i'] - 1))),
       ('before', And(L.start['lmax'] == TOPL(hdu(L.st), L['offset'] + L['i'] - 1), L.start['mmax'] == TOPM(hdu(L.st), L['offset'] + L['i'] - 1)))])}, nloops=2)
PROPS['C11'] = ['read_Alm_from_fits table', 'get_almsize table']

# ---- files: tables 2, 3 and 4 hold intensity, gradient and curl
def legal(*hs): return [x for h in hs for x in rows_of(iv(h))]
def order_of(h): return (z3.If(keyed(h), KEYL(h), TOPL(h, NROWS(h))), z3.If(keyed(h), KEYM(h), TOPM(h, NROWS(h))))
def mx(*l):
    r = l[0]
    for x in l[1:]: r = z3.If(x > r, x, r)
    return r
def goes(c): return []
S('read_Alm_from_fits', ['filename', 'alms', 'lmax', 'mmax', 'hdunum'], key='read_Alm_from_fits file', unit=[FS], nargs=5, type='float', callable=True, modifies=['alms'], throws_ok=fits_ok, exsures=lambda c: [],
  requires=lambda c: [c['lmax'] >= 0, c['lmax'] <= LIM, c['mmax'] >= 0, c['mmax'] <= c['lmax'], ixdef()] + rows_of(c['hdunum']),
  ensures=lambda c: [('limits are the requested ones', And(c['alms'].dim(0) == c['lmax'], c['alms'].dim(1) == c['mmax'])),
     ('every coefficient is the one of the table, or zero', loaded(c, 'alms', c['hdunum'], NROWS(c['hdunum']), c['lmax'], c['mmax']))])
S('get_almsize', ['filename', 'lmax', 'mmax', 'hdunum'], key='get_almsize file', unit=[FS], nargs=4, callable=True, modifies=['lmax', 'mmax'], throws_ok=fits_ok, exsures=lambda c: [],
  requires=lambda c: [ixdef()] + rows_of(c['hdunum']), axioms=lambda c: topdefs(c['hdunum']),
  ensures=lambda c: [('order of the table', And(c['lmax'] == order_of(c['hdunum'])[0], c['mmax'] == order_of(c['hdunum'])[1]))])
S('get_almsize_pol', ['filename', 'lmax', 'mmax'], key='get_almsize_pol', unit=[FS], nargs=3, callable=True, modifies=['lmax', 'mmax'], throws_ok=fits_ok, exsures=lambda c: [],
  requires=lambda c: [ixdef()] + legal(2, 3, 4), axioms=lambda c: topdefs(iv(2)) + topdefs(iv(3)) + topdefs(iv(4)),
  ensures=lambda c: [('largest order of the three tables', And(*[c[n_] == mx(iv(0), *[order_of(iv(h))[z] for h in (2, 3, 4)]) for z, n_ in enumerate(('lmax', 'mmax'))]))])
PROPS['C11'] = [s.key for s in SPECS if s.unit == [FS]]

# ---- sky::read and beam::read, run by every process of the communicator (process RANK of NRANKS).
# A broadcast is a rely-guarantee step: on the root the value sent must be the expected one (obligation), elsewhere the value received is assumed to be.
from .e_grid import RANK, NRANKS
from dv.execu import strip_casts
def expected(E, name):
    e = E.opts.get('expect', {}).get(name)
    if e is None: raise Unattached('no expectation for the broadcast of ' + name)
    return e
def varname(a):
    a = strip_casts(a)
    return a['referencedDecl']['name'] if a['kind'] == 'DeclRefExpr' else a.get('name')
def here(E, st):
    from dv.execu import LoopCtx
    return LoopCtx(E, st, E.frames[0], E.entry, E.entry)
def m_rank(E, st, n, this, args):
    p = E.ev(args[1], st)
    st.assume(And(RANK >= 0, RANK < NRANKS))
    E.wr(st, p if hasattr(p, 'idx') and not hasattr(p, 'off') else E.deref(p, st), RANK)
    return fresh('mpi', I)
def m_bcast(E, st, n, this, args):
    lv = E.lv(args[0], st); want = expected(E, varname(args[0]))(here(E, st))
    root = coerce(val(E, args[1], st), I) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else iv(0)
    E.oblige(st, 'guarantee', 'the root sends the expected value of ' + varname(args[0]), Imp(RANK == root, E.rd(st, lv) == want), n)
    E.wr(st, lv, want)
def m_bcastraw(E, st, n, this, args):
    a = strip_casts(args[0])
    if a['kind'] != 'UnaryOperator': raise Unsupported('address broadcast')
    lv = E.lv(a['inner'][0], st); cnt = coerce(val(E, args[1], st), I)
    root = coerce(val(E, args[2], st), I) if len(args) > 2 and args[2]['kind'] != 'CXXDefaultArgExpr' else iv(0)
    A = E.container(st, lv.path, None)
    name = lv.path.split('.')[-1]
    E.oblige(st, 'guarantee', 'the broadcast of %s starts at its first cell' % name, And(lv.idx[0] == 0, lv.idx[1] == 0, z3.BoolVal(lv.leaf == '.re')), n)
    L, M = A.dims
    E.oblige(st, 'guarantee', 'the broadcast of %s covers every coefficient' % name, cnt == (M + 1) * (2 * L + 2 - M), n)
    want = expected(E, name)
    for lab, g in want(here(E, st)): E.oblige(st, 'guarantee', 'the root sends the expected %s: %s' % (name, lab), Imp(RANK == root, g), n)
    na = fresh_arr(E.uid('received'), A.t, A.dims)
    st.v[lv.path] = na
    for lab, g in want(here(E, st)): st.assume(g)
MODELS['MPI_Comm_rank'] = m_rank; MODELS['MPI_Manager::bcast'] = m_bcast; MODELS['MPI_Manager::bcastRaw'] = m_bcastraw
MODELS['ctor:MPI_Manager'] = lambda E, st, path, args, n: None
def order(c, z): return z3.If(c['pol'], mx(iv(0), *[order_of(iv(h))[z] for h in (2, 3, 4)]), order_of(iv(2))[z])
HD = dict(T=2, G=3, C=4)
def legal_file(c): return [ixdef()] + legal(2, 3, 4) + [And(order_of(iv(h))[z] <= LIM) for h in (2, 3, 4) for z in (0, 1)] + [order_of(iv(2))[z] >= 0 for z in (0, 1)]
def tdefs(c): return topdefs(iv(2)) + topdefs(iv(3)) + topdefs(iv(4))
A2R = flt(3.141592653589793238462643383279502884197 / 180.0 / 60)
IO = 'src/conviqt_io.cpp'
def exp_alm(p, x, mm):
    return lambda c: [('limits', And(c['this.%s%s_' % (p, x)].dim(0) == c['this.lmax'], c['this.%s%s_' % (p, x)].dim(1) == mm(c))),
        ('contents', loaded(c, 'this.%s%s_' % (p, x), iv(HD[x]), NROWS(iv(HD[x])), c['this.lmax'], mm(c)))]
class Pol:
    """order() needs the flag under the name of the caller's argument"""
    def __init__(self, c, nm): self.c, self.nm = c, nm
    def __getitem__(self, k): return self.c[self.nm if k == 'pol' else k]
def sky_l(c): return z3.If(c['skylmax'] > 0, c['skylmax'], order(Pol(c, 'skypol'), 0))
def sky_small(c): return Or(order(Pol(c, 'skypol'), 0) < c['skylmax'], order(Pol(c, 'skypol'), 1) < sky_l(c))
def deconvolved(c, x, w):
    A = c['this.slm%s_' % x]; L = c['this.lmax']; f = -(A2R * c['fwhm_deconv_sky'])
    return FA([l_, m_], Imp(And(m_ >= 0, m_ <= l_, l_ <= L), And(*[A.at(l_, m_, leaf=y) == cellval(iv(HD[x]), NROWS(iv(HD[x])), l_, m_, y) * w(f, l_) for y in ('.re', '.im')])), A.at(l_, m_, leaf='.re'), A.at(l_, m_, leaf='.im'))
SKYREAD = S('sky::read', ['skylmax', 'skypol', 'infile_sky', 'fwhm_deconv_sky', 'comm'], unit=[IO],
  modifies=['this.' + x for x in ('lmax', 'pol', 'fname', 'fwhm_deconv', 'slmT_', 'slmG_', 'slmC_')],
  opts=dict(expect=dict(lmax_file=lambda c: order(Pol(c, 'skypol'), 0), mmax_file=lambda c: order(Pol(c, 'skypol'), 1), **{'slm%s_' % x: exp_alm('slm', x, lambda c: c['this.lmax']) for x in 'TGC'})),
  requires=lambda c: legal_file(c), axioms=tdefs,
  throws_ok=lambda w: 'contract:' in w or 'alloc' in w,
  ensures=lambda c: [('accepted only if the file is large enough', Not(sky_small(c))), ('order', c['this.lmax'] == sky_l(c)), ('polarisation', c['this.pol'] == c['skypol']),
     ('limits of the intensity', And(c['this.slmT_'].dim(0) == sky_l(c), c['this.slmT_'].dim(1) == sky_l(c))),
     ('limits of the polarisation', Imp(c['skypol'], And(*[c['this.slm%s_' % x].dim(z) == sky_l(c) for x in 'GC' for z in (0, 1)]))),
     ('intensity of the file, deconvolved', deconvolved(c, 'T', WIN)), ('gradient of the file, deconvolved', Imp(c['skypol'], deconvolved(c, 'G', WINP))), ('curl of the file, deconvolved', Imp(c['skypol'], deconvolved(c, 'C', WINP)))],
  exsures=lambda c: [('refused only if the file is too small', sky_small(c))])
PROPS['C11'].append('sky::read'); PROPS['C23'].append('sky::read')
def BP(c): return Pol(c, 'beampol')
def beam_l(c): return z3.If(c['beamlmax'] > 0, c['beamlmax'], order(BP(c), 0))
def beam_m(c): return z3.If(c['beammmax'] > 0, c['beammmax'], z3.If(beam_l(c) < order(BP(c), 1), beam_l(c), order(BP(c), 1)))
def beam_small(c): return Or(order(BP(c), 0) < c['beamlmax'], order(BP(c), 1) < c['beammmax'], beam_m(c) > beam_l(c))
def from_file(c, x):
    A = c['this.blm%s_' % x]
    return And(A.dim(0) == beam_l(c), A.dim(1) == beam_m(c), loaded(c, 'this.blm%s_' % x, iv(HD[x]), NROWS(iv(HD[x])), beam_l(c), beam_m(c)))
BEAMREAD = S('beam::read', ['beamlmax', 'beammmax', 'beampol', 'infile_beam', 'comm'], unit=[IO],
  modifies=['this.' + x for x in ('lmax', 'mmax', 'pol', 'fname', 'normalized_', 'blmT_', 'blmG_', 'blmC_')],
  opts=dict(expect=dict(lmax_file=lambda c: order(BP(c), 0), mmax_file=lambda c: order(BP(c), 1), **{'blm%s_' % x: exp_alm('blm', x, lambda c: c['this.mmax']) for x in 'TGC'})),
  requires=lambda c: legal_file(c), axioms=tdefs, throws_ok=lambda w: 'contract:' in w or 'alloc' in w,
  ensures=lambda c: [('accepted only if the file is large enough', Not(beam_small(c))), ('limits', And(c['this.lmax'] == beam_l(c), c['this.mmax'] == beam_m(c))), ('polarisation', c['this.pol'] == c['beampol']),
     ('not normalised', Not(c['this.normalized_'])), ('intensity of the file', from_file(c, 'T')), ('gradient of the file', Imp(c['beampol'], from_file(c, 'G'))), ('curl of the file', Imp(c['beampol'], from_file(c, 'C')))],
  exsures=lambda c: [('refused only if the file is too small or mmax exceeds lmax', beam_small(c))])
PROPS['C11'].append('beam::read'); PROPS['C09'] = ['beam::read']
