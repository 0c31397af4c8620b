"""Contracts of library functions the code calls (trusted; listed in the evidence)."""
import z3
from .engine import *
from .execu import *

SIN = z3.Function('c_sin', R, R)
COS = z3.Function('c_cos', R, R)
SQRT = z3.Function('c_sqrt', R, R)
EXP = z3.Function('c_exp', R, R)
LOG = z3.Function('c_log', R, R)
POW = z3.Function('c_pow', R, R, R)
FMODQ = z3.Function('fmod_quotient', R, R, I)

TRUSTED = {}
MODELS = {}
def model(*names, doc=''):
    def d(f):
        for n in names:
            MODELS[n] = f
            TRUSTED[n] = doc or (f.__doc__ or '').strip()
        return f
    return d

def val(E, a, st):
    v = E.ev(a, st)
    if isinstance(v, LV): v = E.rd(st, v)
    return v

@model('max', 'min', doc='std::max/min')
def m_max(E, st, n, this, args):
    a, b = val(E, args[0], st), val(E, args[1], st)
    if a.sort() != b.sort(): a, b = coerce(a, R), coerce(b, R)
    name = E.callee(n)[1]
    return z3.If(a >= b, a, b) if name == 'max' else z3.If(a <= b, a, b)

def uf1(F):
    def f(E, st, n, this, args):
        return F(z3.simplify(coerce(val(E, args[0], st), R), som=True))
    return f
for nm, F in (('sin', SIN), ('cos', COS), ('exp', EXP), ('log', LOG)):
    model(nm, doc='real-valued function; only the facts stated as lemmas are known')(uf1(F))

@model('sqrt', doc='non-negative square root of a non-negative real')
def m_sqrt(E, st, n, this, args):
    x = coerce(val(E, args[0], st), R)
    r = SQRT(x)
    if E.opts.get('fp'):
        st.assume(Imp(x >= 0, And(r >= 0, r * r == x)))
        return E.rnd(st, r)
    st.assume(Imp(x >= 0, And(r >= 0, r * r == x)))
    return r

@model('ceil', doc='least integer not below the argument')
def m_ceil(E, st, n, this, args):
    x = coerce(val(E, args[0], st), R)
    return z3.ToReal(-z3.ToInt(-x))
@model('floor', doc='greatest integer not above the argument')
def m_floor(E, st, n, this, args):
    x = coerce(val(E, args[0], st), R)
    return z3.ToReal(z3.ToInt(x))
@model('fabs', 'abs', doc='absolute value')
def m_abs(E, st, n, this, args):
    x = val(E, args[0], st)
    if isinstance(x, FV): x = x.v
    return z3.If(x >= 0, x, -x)
@model('fmod', doc='C fmod on reals: the remainder truncated towards zero')
def m_fmod(E, st, n, this, args):
    x, y = coerce(val(E, args[0], st), R), coerce(val(E, args[1], st), R)
    q = FMODQ(x, y); r = fresh('fmod', R)
    ay = z3.If(y >= 0, y, -y)
    st.assume(Imp(y != 0, And(x == z3.ToReal(q) * y + r, z3.If(x >= 0, And(r >= 0, r < ay), And(r <= 0, -r < ay)))))
    return r

@model('omp_get_thread_num', doc='any non-negative number, constant in a parallel region and different in each of its threads')
def m_tn(E, st, n, this, args):
    if E.tid is not None: return E.tid
    r = fresh('thread', I); st.assume(r >= 0); return r
@model('omp_get_num_threads', 'omp_get_max_threads', doc='any positive number')
def m_tn2(E, st, n, this, args):
    r = fresh('nthreads', I); st.assume(r >= 1); return r

def divs(e, k):
    """e / k for a byte count e that is a multiple of k by construction"""
    e = z3.simplify(e, som=True)
    def term(t):
        if z3.is_int_value(t):
            if t.as_long() % k: raise Unsupported('byte count')
            return iv(t.as_long() // k)
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % k == 0:
            c = t.arg(0).as_long() // k
            rest = t.children()[1:]
            r = rest[0]
            for x in rest[1:]: r = r * x
            return r if c == 1 else iv(c) * r
        raise Unsupported('byte count')
    if z3.is_add(e): return z3.Sum([term(t) for t in e.children()])
    return term(e)

def esize(E, t):
    return E.sizeof(t)

@model('memcpy', 'memmove', doc='copies n bytes; source and destination do not overlap')
def m_memcpy(E, st, n, this, args):
    d, s, nb = E.ev(args[0], st), E.ev(args[1], st), coerce(E.ev(args[2], st), I)
    copy_range(E, st, n, d, s, nb)
    return d

def copy_range(E, st, n, d, s, nb):
    if not (isinstance(d, PtrVal) and isinstance(s, PtrVal)): raise Unsupported('memcpy operands')
    for p in (d, s):
        if p.path not in st.v and p.path not in E.lazy: E.init_of(p.path, Ty('buf', '', [p.t]))
    a, b = E.container(st, d.path, None), E.container(st, s.path, None)
    if len(a.dims) != 1 or len(b.dims) != 1: raise Unsupported('memcpy of multi-dimensional storage')
    cnt = divs(nb, esize(E, a.t.a[0]))
    E.oblige(st, 'bounds', 'memcpy-count@L%s' % lineof(n), cnt >= 0, n)
    g = Imp(cnt > 0, And(d.off >= 0, d.off + cnt <= a.dims[0], s.off >= 0, s.off + cnt <= b.dims[0]))
    E.oblige(st, 'bounds', 'memcpy@L%s' % lineof(n), g, n)
    st.assume(cnt >= 0); st.assume(g)
    if d.path == s.path:
        E.oblige(st, 'bounds', 'memcpy-overlap@L%s' % lineof(n), Or(cnt == 0, d.off + cnt <= s.off, s.off + cnt <= d.off), n)
    if E.log is not None:
        E.log.append(('wr', d.path, '', (d.off, cnt), st.facts[:])); E.log.append(('rr', s.path, '', (s.off, cnt), st.facts[:]))
    c = z3.simplify(cnt)
    nd = dict(a.d)
    if z3.is_int_value(c) and c.as_long() <= 16:
        for k in range(c.as_long()):
            for l in nd:
                nd[l] = sto(nd[l], [d.off + k], sel(b.d[l], [s.off + k]))
    else:
        k = z3.Const('k', I)
        for l in nd:
            x = fresh('memcpy', nd[l].sort())
            st.assume(z3.ForAll([k], sel(x, [k]) == z3.If(And(k >= d.off, k < d.off + cnt), sel(b.d[l], [k - d.off + s.off]), sel(a.d[l], [k])), patterns=[sel(x, [k])]))
            nd[l] = x
    st.v[d.path] = ArrVal(a.t, a.dims, nd)

@model('make_pair', doc='std::make_pair')
def m_pair(E, st, n, this, args):
    return RecVal({'first': val(E, args[0], st), 'second': val(E, args[1], st)})

@model('swap', doc='std::swap')
def m_swap(E, st, n, this, args):
    a, b = E.lv(args[0], st), E.lv(args[1], st)
    t = a.t.a[0] if a.t.k == 'ref' else a.t
    if t.k in CONT and not a.idx:
        x, y = E.container(st, a.path, t), E.container(st, b.path, t)
        st.v[a.path], st.v[b.path] = y, x
        return None
    x, y = E.rd(st, a), E.rd(st, b)
    E.wr(st, a, y); E.wr(st, b, x)
    return None

@model('sort', doc='std::sort: a permutation of the range, ordered by the comparator (a strict weak order, which is an obligation)')
def m_sort(E, st, n, this, args):
    b, e = E.ev(args[0], st), E.ev(args[1], st)
    lam = E.ev(args[2], st) if len(args) > 2 else None
    if not (isinstance(b, PtrVal) and isinstance(e, PtrVal) and b.path == e.path): raise Unsupported('sort range')
    a = E.container(st, b.path, None)
    E.oblige(st, 'bounds', 'sort-range@L%s' % lineof(n), And(b.off >= 0, b.off <= e.off, e.off <= a.dims[0]), n)
    def elem(arr, k):
        if '' in arr.d: return sel(arr.d[''], [k])
        return RecVal({l[1:]: sel(arr.d[l], [k]) for l in arr.d})
    def cmp(x, y):
        s = st.copy()
        E.quiet += 1
        try:
            r = E.call_lambda(lam, [x, y], s) if lam is not None else x < y
        finally: E.quiet -= 1
        return coerce(r, B)
    ls = sorted(a.d)
    def sym(tag):
        d = {l: z3.Const('srt_%s%s' % (tag, l), a.d[l].sort().range()) for l in ls}
        return d[''] if '' in d else RecVal({l[1:]: d[l] for l in ls})
    x, y, z = sym('x'), sym('y'), sym('z')
    cxy, cyx, cxx, cyz, cxz, czy, czx = cmp(x, y), cmp(y, x), cmp(x, x), cmp(y, z), cmp(x, z), cmp(z, y), cmp(z, x)
    E.oblige(st, 'precondition', 'sort:comparator-irreflexive', Not(cxx), n)
    E.oblige(st, 'precondition', 'sort:comparator-asymmetric', Imp(cxy, Not(cyx)), n)
    E.oblige(st, 'precondition', 'sort:comparator-transitive', Imp(And(cxy, cyz), cxz), n)
    E.oblige(st, 'precondition', 'sort:comparator-negatively-transitive', Imp(And(Not(cxy), Not(cyz)), Not(cxz)), n)
    P = z3.Function('perm!%d' % next(EN._ctr), I, I); Q = z3.Function('perminv!%d' % next(EN._ctr), I, I)
    k, j = z3.Const('k', I), z3.Const('j', I)
    lo, hi = b.off, e.off
    nd = {l: fresh('sorted' + l, a.d[l].sort()) for l in ls}
    na = ArrVal(a.t, a.dims, nd)
    inr = lambda q: And(q >= lo, q < hi)
    for l in ls:
        st.assume(z3.ForAll([k], Imp(inr(k), And(inr(P(k)), Q(P(k)) == k, sel(nd[l], [k]) == sel(a.d[l], [P(k)]))), patterns=[sel(nd[l], [k]), P(k)]))
        st.assume(z3.ForAll([k], Imp(Not(inr(k)), sel(nd[l], [k]) == sel(a.d[l], [k])), patterns=[sel(nd[l], [k])]))
    st.assume(z3.ForAll([k], Imp(inr(k), And(inr(P(k)), Q(P(k)) == k)), patterns=[P(k)]))
    st.assume(z3.ForAll([k], Imp(inr(k), And(inr(Q(k)), P(Q(k)) == k)), patterns=[Q(k)]))
    ek, ej = elem(na, k), elem(na, j)
    l0 = ls[0]
    st.assume(z3.ForAll([k, j], Imp(And(inr(k), inr(j), k < j), Not(cmp(ej, ek))), patterns=[MP(sel(nd[l0], [k]), sel(nd[l0], [j]))]))
    st.v[b.path] = na
    E.ghost['perm'] = E.ghost.get('perm', []) + [(P, Q)]
    st.v['ghost.perm'] = Opaque('perm')
    return None

# ---------------------------------------------------------------- MPI
@model('MPI_Manager::Wtime', doc='any real number')
def m_wt(E, st, n, this, args): return fresh('wtime', R)
@model('MPI_Manager::barrier', 'MPI_Manager::comm', doc='no effect on the data of the process')
def m_bar(E, st, n, this, args): return Opaque('mpi')
@model('MPI_Manager::master', doc='rank() == 0')
def m_master(E, st, n, this, args): return fresh('master', B)

@model('strlen', 'printf', 'fprintf', doc='output only')
def m_out(E, st, n, this, args): return fresh('out', I)
