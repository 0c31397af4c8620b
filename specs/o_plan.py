"""C16: plans and storage schemes of the Fourier transforms (levels/libfftpack/ls_fft.c)."""
from .base import *
from dv.execu import PtrView, PtrVal, RawMem, LV, fresh, fresh_arr
from dv.models import val
def m_malloc(E, st, n, this, args):
    """new memory of that many bytes (the program stops if there is none)"""
    return RawMem(coerce(val(E, args[0], st), I))
def m_free(E, st, n, this, args):
    """gives back memory that is in use, from its beginning; nothing happens for a null pointer"""
    p = E.ev(args[0], st)
    if isinstance(p, LV): p = E.rd(st, p)
    if not isinstance(p, PtrVal): raise Unsupported('memory to give back')
    if p.path == 'null': return None
    E.oblige(st, 'precondition', 'util_free_: memory in use', And(st.v.get(p.path + '.live', FALSE), p.off == 0), n)
    st.v[p.path + '.live'] = FALSE
    if isinstance(st.v.get(p.path), ArrVal): st.v[p.path] = fresh_arr(p.path + '.freed', st.v[p.path].t, [iv(0)])
    return None
MODELS = {'util_malloc_': m_malloc, 'util_free_': m_free}
UL = ['levels/libfftpack/ls_fft.c']
SPECS = []
k_, i_, s_ = z3.Ints('k_ i_ s_')
INP = z3.Function('input_sequence', I, R)
FR, FI = z3.Function('spectrum_re', I, R), z3.Function('spectrum_im', I, R)
def S(name, params, key=None, **k):
    o = dict(noframe=True, unsigned_math=True); o.update(k.pop('opts', {}))
    e, key = k.get('ensures'), key or name
    if e and not k.get('trusted') and not k.pop('keeps', False):
        k['ensures'] = lambda c: list(e(c)) + ([('memory given back', And(*[Not(f) for q, f in sorted(c.st.v.items()) if q.startswith('block') and q.endswith('.live')]))] if c.E.cur_spec.key == key else [])
    s = Spec(name, params, key=key, unit=UL, opts=o, **k); SPECS.append(s); return s
def at(pv, x): return sel(pv.v.a.d[''], [pv.off + x])
def symmetric(n): return [FA([k_], Imp(And(k_ >= 1, k_ < n), And(FR(n - k_) == FR(k_), FI(n - k_) == -FI(k_))), FR(k_), FI(k_)), FI(0) == 0, Imp(n % 2 == 0, FI(n / 2) == 0)]
def rest(c, a, n):
    """cells outside the sequence keep their contents"""
    p, o = c[a], c.old[a]; ar, ao = p.v.a.d[''], o.v.a.d['']
    return FA([k_], Imp(Or(k_ < p.off, k_ >= p.off + n), sel(ar, [k_]) == sel(ao, [k_])), sel(ar, [k_]), sel(ao, [k_]))
def packed(pv, n):
    """r0, r1, i1, r2, i2, ..."""
    return [('mean', at(pv, 0) == FR(0)), ('real parts', FA([k_], Imp(And(k_ >= 1, 2 * k_ <= n), at(pv, 2 * k_ - 1) == FR(k_)), FR(k_))), ('imaginary parts', FA([k_], Imp(And(k_ >= 1, 2 * k_ < n), at(pv, 2 * k_) == FI(k_)), FI(k_)))]
def full(pv, n):
    return [('spectrum', FA([k_], Imp(rng(k_, 0, n), And(at(pv, 2 * k_) == FR(k_), at(pv, 2 * k_ + 1) == FI(k_))), FR(k_), FI(k_)))]
def seq(pv, n): return ('sequence', FA([k_], Imp(rng(k_, 0, n), at(pv, k_) == INP(k_)), INP(k_)))
def seq2(pv, n): return ('sequence', FA([k_], Imp(rng(k_, 0, n), at(pv, 2 * k_) == INP(k_)), INP(k_)))
def zero2(pv, n): return ('no imaginary part', FA([k_], Imp(rng(k_, 0, n), at(pv, 2 * k_ + 1) == 0), INP(k_)))
def fits(pv, n): return And(pv.off >= 0, pv.off + n <= pv.n)
INI = z3.Function('input_sequence_im', I, R)
GR, GI = z3.Function('result_re', I, R), z3.Function('result_im', I, R)
WORK = z3.Function('plan_of_length', I, I, z3.ArraySort(I, R), I, B)      # kind (0 real, 1 complex, 2 chirp), length, work space
def full_of(pv, n, a, b, nm): return (nm, FA([k_], Imp(rng(k_, 0, n), And(at(pv, 2 * k_) == a(k_), at(pv, 2 * k_ + 1) == b(k_))), a(k_), b(k_)))
def ready(kind, n, pv): return WORK(iv(kind), n, pv.v.a.d[''], pv.off)
def T(name, params, **k): return S(name, params, trusted=True, callable=True, **k)
T('rfftf', ['n', 'r', 'wsave'], modifies=['r', 'wsave'], keep_dims=['r', 'wsave'], requires=lambda c: [c['n'] >= 1, fits(c['r'], c['n']), ready(0, c['n'], c['wsave']), seq(c['r'], c['n'])],
  ensures=lambda c: packed(c['r'], c['n']) + [rest(c, 'r', c['n']), ready(0, c['n'], c['wsave'])], note='the packed transform of the sequence')
T('rfftb', ['n', 'r', 'wsave'], modifies=['r', 'wsave'], keep_dims=['r', 'wsave'], requires=lambda c: [c['n'] >= 1, fits(c['r'], c['n']), ready(0, c['n'], c['wsave'])] + packed(c['r'], c['n']),
  ensures=lambda c: [FA([k_], Imp(rng(k_, 0, c['n']), at(c['r'], k_) == GR(k_)), GR(k_)), rest(c, 'r', c['n']), ready(0, c['n'], c['wsave'])], note='the sequence with the packed transform')
for nm, sg in (('cfftf', -1), ('cfftb', 1)):
    T(nm, ['n', 'c', 'wsave'], modifies=['c', 'wsave'], keep_dims=['c', 'wsave'], requires=lambda c, sg=sg: [c['n'] >= 1, fits(c['c'], 2 * c['n']), ready(1, c['n'], c['wsave']), full_of(c['c'], c['n'], *((INP, INI) if sg < 0 else (FR, FI)), 'input')],
      ensures=lambda c, sg=sg: [full_of(c['c'], c['n'], *((FR, FI) if sg < 0 else (GR, GI)), 'output'), rest(c, 'c', 2 * c['n']), ready(1, c['n'], c['wsave'])], note='the complex transform')
T('bluestein', ['n', 'data', 'tstorage', 'isign'], modifies=['data', 'tstorage'], keep_dims=['data', 'tstorage'],
  requires=lambda c: [c['n'] >= 1, fits(c['data'], 2 * c['n']), ready(2, c['n'], c['tstorage']), Or(c['isign'] == 1, c['isign'] == -1), ('input of the forward transform', Imp(c['isign'] < 0, full_of(c['data'], c['n'], INP, INI, '')[1])), ('input of the backward transform', Imp(c['isign'] > 0, full_of(c['data'], c['n'], FR, FI, '')[1]))],
  ensures=lambda c: [Imp(c.old['isign'] < 0, full_of(c['data'], c['n'], FR, FI, '')[1]), Imp(c.old['isign'] > 0, full_of(c['data'], c['n'], GR, GI, '')[1]), rest(c, 'data', 2 * c['n']), ready(2, c['n'], c['tstorage'])], note='the complex transform by the chirp algorithm')
def plan(c, kind, extra=0):
    n = c['plan.length']
    return [n >= 1, n <= 2 ** 40, Imp(c['plan.bluestein'] == 0, ready(kind, n, c['plan.work'])), Imp(c['plan.bluestein'] != 0, ready(2, n, c['plan.work']))]
for nm, sg in (('forward', -1), ('backward', 1)):
    S('complex_plan_' + nm, ['plan', 'data'], modifies=['data'], requires=lambda c, sg=sg: plan(c, 1) + [fits(c['data'], 2 * c['plan.length']), full_of(c['data'], c['plan.length'], *((INP, INI) if sg < 0 else (FR, FI)), 'input')],
      ensures=lambda c, sg=sg: [full_of(c['data'], c['plan.length'], *((FR, FI) if sg < 0 else (GR, GI)), 'output')] + plan(c, 1))
def real_axioms(c): return symmetric(c['plan.length']) + [FA([k_], INI(k_) == 0, INI(k_)), FA([k_], GI(k_) == 0, GI(k_))]
def z(f): return (f[0], f[1])
def sym_loop(L):
    """the coefficients up to the counter and their mirror images"""
    n, m, d = L['n'], L['m'], L['data']
    return [m >= 2, m % 2 == 0, m <= n + 1, fits(d, 2 * n)] + full(d, n)
def comp_loop(L):
    n, m, d = L['n'], L['m'], L['data']
    return [rng(m, 0, n + 1), ('moved', FA([k_], Imp(rng(k_, 0, m), at(d, k_ + 1) == INP(k_)), INP(k_))), ('to move', FA([k_], Imp(And(k_ >= m, k_ < n, k_ > 0), at(d, 2 * k_) == INP(k_)), INP(k_))), Imp(m == 0, at(d, 0) == INP(0))]
def fill_loop(L):
    n, m, d = L['n'], L['m'], L['data']; h = m
    return [m >= 2, m % 2 == 0, m <= n + 1, at(d, 0) == FR(0), at(d, 1) == 0,
        ('lower half', FA([k_], Imp(And(k_ >= 1, 2 * k_ <= n), at(d, 2 * k_) == FR(k_)), FR(k_))), ('lower half, imaginary', FA([k_], Imp(And(k_ >= 1, 2 * k_ < n), at(d, 2 * k_ + 1) == FI(k_)), FI(k_))),
        ('mirror images', FA([k_], Imp(And(2 * n - 2 * k_ < m, k_ < n), And(at(d, 2 * k_) == FR(k_), at(d, 2 * k_ + 1) == FI(k_))), FR(k_), FI(k_)))]
def clear_loop(L):
    n, m, d = L['n'], L['m'], L['data']
    return [m >= 1, m % 2 == 1, m <= 2 * n + 1, seq2(d, n), ('cleared', FA([k_], Imp(And(k_ >= 0, 2 * k_ + 1 < m), at(d, 2 * k_ + 1) == 0), INI(k_)))]
S('real_plan_forward_c', ['plan', 'data'], modifies=['data'], requires=lambda c: plan(c, 0) + [fits(c['data'], 2 * c['plan.length']), seq2(c['data'], c['plan.length'])], ensures=lambda c: full(c['data'], c['plan.length']) + plan(c, 0),
  axioms=real_axioms, loops={0: Loop(inv=clear_loop), 1: Loop(inv=sym_loop), 2: Loop(inv=comp_loop), 3: Loop(inv=fill_loop)}, nloops=4)
def out_loop(L):
    n, m, d = L['n'], L['m'], L['data']
    return [rng(m + 1, 0, n + 1), ('to move', FA([k_], Imp(And(k_ >= 0, k_ <= m), at(d, k_ + 1) == GR(k_)), GR(k_))), ('moved', FA([k_], Imp(And(k_ > m, k_ < n), And(at(d, 2 * k_) == GR(k_), at(d, 2 * k_ + 1) == 0)), GR(k_), GI(k_)))]
def clear_out(L):
    n, m, d = L['n'], L['m'], L['data']
    return [m >= 1, m % 2 == 1, m <= 2 * n + 1, ('result', FA([k_], Imp(rng(k_, 0, n), at(d, 2 * k_) == GR(k_)), GR(k_))), ('cleared', FA([k_], Imp(And(k_ >= 0, 2 * k_ + 1 < m), at(d, 2 * k_ + 1) == 0), GI(k_), GR(k_)))]
S('real_plan_backward_c', ['plan', 'data'], modifies=['data'], requires=lambda c: plan(c, 0) + [fits(c['data'], 2 * c['plan.length'])] + full(c['data'], c['plan.length']),
  ensures=lambda c: [('result', FA([k_], Imp(rng(k_, 0, c['plan.length']), And(at(c['data'], 2 * k_) == GR(k_), at(c['data'], 2 * k_ + 1) == 0)), GR(k_)))] + plan(c, 0),
  axioms=real_axioms, loops={0: Loop(inv=sym_loop), 1: Loop(inv=clear_out), 2: Loop(inv=out_loop)}, nloops=3)
def halfc(pv, n): return [('real parts', FA([k_], Imp(And(k_ >= 0, 2 * k_ <= n), at(pv, k_) == FR(k_)), FR(k_))), ('imaginary parts', FA([k_], Imp(And(k_ >= 1, 2 * k_ < n), at(pv, n - k_) == FI(k_)), FI(k_)))]
def to_half(L):
    n, m, t = L['n'], L['m'], L['tmp']
    return [m >= 1, 2 * m <= n + 2, at(t, 0) == FR(0), ('placed', FA([k_], Imp(And(k_ >= 1, k_ < m), And(at(t, k_) == FR(k_), at(t, n - k_) == FI(k_))), FR(k_), FI(k_)))]
def from_half(L):
    n, m, t = L['n'], L['m'], L['tmp']
    return [m >= 1, 2 * m <= n + 2, at(t, 0) == FR(0), ('placed', FA([k_], Imp(And(k_ >= 1, k_ < m), And(at(t, 2 * k_ - 1) == FR(k_), at(t, 2 * k_) == FI(k_))), FR(k_), FI(k_)))]
def sz(c): return [c['n'] >= 1, c['n'] <= 2 ** 40, fits(c['data'], c['n'])]
S('fftpack2halfcomplex', ['data', 'n'], callable=True, modifies=['data'], keep_dims=['data'], requires=lambda c: sz(c) + packed(c['data'], c['n']), ensures=lambda c: halfc(c['data'], c['n']), loops={0: Loop(inv=to_half)}, nloops=1)
S('halfcomplex2fftpack', ['data', 'n'], callable=True, modifies=['data'], keep_dims=['data'], requires=lambda c: sz(c) + halfc(c['data'], c['n']), ensures=lambda c: packed(c['data'], c['n']), loops={0: Loop(inv=from_half)}, nloops=1)
def widen(L):
    n, m, t, d = L['n'], L['m'], L['tmp'], L['data']
    return [rng(m, 0, n + 1), seq(d, n), ('widened', FA([k_], Imp(rng(k_, 0, m), And(at(t, 2 * k_) == INP(k_), at(t, 2 * k_ + 1) == 0)), INP(k_), INI(k_)))]
S('real_plan_forward_fftpack', ['plan', 'data'], callable=True, modifies=['data'], keep_dims=['data'], requires=lambda c: plan(c, 0) + [fits(c['data'], c['plan.length']), seq(c['data'], c['plan.length'])], ensures=lambda c: packed(c['data'], c['plan.length']) + plan(c, 0),
  axioms=real_axioms, loops={0: Loop(inv=widen)}, nloops=1)
def mirror(L):
    n, m, t = L['n'], L['m'], L['tmp']
    return [m >= 2, m % 2 == 0, m <= n + 1, at(t, 0) == FR(0), at(t, 1) == 0, ('lower half', FA([k_], Imp(And(k_ >= 1, 2 * k_ <= n), And(at(t, 2 * k_) == FR(k_), at(t, 2 * k_ + 1) == FI(k_))), FR(k_), FI(k_))),
        ('mirror images', FA([k_], Imp(And(2 * n - 2 * k_ < m, k_ < n), And(at(t, 2 * k_) == FR(k_), at(t, 2 * k_ + 1) == FI(k_))), FR(k_), FI(k_)))]
def narrow(L):
    n, m, t, d = L['n'], L['m'], L['tmp'], L['data']
    return [rng(m, 0, n + 1), full_of(t, n, GR, GI, 'result'), ('kept', FA([k_], Imp(rng(k_, 0, m), at(d, k_) == GR(k_)), GR(k_)))]
S('real_plan_backward_fftpack', ['plan', 'data'], callable=True, modifies=['data'], keep_dims=['data'], requires=lambda c: plan(c, 0) + [fits(c['data'], c['plan.length'])] + packed(c['data'], c['plan.length']),
  ensures=lambda c: [('result', FA([k_], Imp(rng(k_, 0, c['plan.length']), at(c['data'], k_) == GR(k_)), GR(k_)))] + plan(c, 0), axioms=real_axioms, loops={0: Loop(inv=mirror), 1: Loop(inv=narrow)}, nloops=2)
S('real_plan_forward_fftw', ['plan', 'data'], modifies=['data'], keep_dims=['data'], requires=lambda c: plan(c, 0) + [fits(c['data'], c['plan.length']), seq(c['data'], c['plan.length'])], ensures=lambda c: halfc(c['data'], c['plan.length']) + plan(c, 0), axioms=real_axioms)
S('real_plan_backward_fftw', ['plan', 'data'], modifies=['data'], keep_dims=['data'], requires=lambda c: plan(c, 0) + [fits(c['data'], c['plan.length'])] + halfc(c['data'], c['plan.length']),
  ensures=lambda c: [('result', FA([k_], Imp(rng(k_, 0, c['plan.length']), at(c['data'], k_) == GR(k_)), GR(k_)))] + plan(c, 0), axioms=real_axioms)
# ---- plans
T('cffti', ['n', 'wsave'], modifies=['wsave'], keep_dims=['wsave'], requires=lambda c: [c['n'] >= 1, fits(c['wsave'], 4 * c['n'] + 15)], ensures=lambda c: [ready(1, c['n'], c['wsave'])], note='prepares the complex transform')
T('rffti', ['n', 'wsave'], modifies=['wsave'], keep_dims=['wsave'], requires=lambda c: [c['n'] >= 1, fits(c['wsave'], 2 * c['n'] + 15)], ensures=lambda c: [ready(0, c['n'], c['wsave'])], note='prepares the real transform')
def m_chirp(E, st, n, this, args):
    """work space of the chirp algorithm in new memory, and its size"""
    N, p, q = coerce(val(E, args[0], st), I), E.ev(args[1], st), E.ev(args[2], st)
    E.oblige(st, 'precondition', 'bluestein_i: length', N >= 1, n)
    size = fresh('worksize', I); st.assume(size >= 1); st.assume(size <= 2 ** 55)
    w = RawMem(8 * size).typed(E, st, Ty('real', 'double'), n)
    st.assume(E.container(st, w.path, None).dims[0] == size)
    st.assume(WORK(iv(2), N, st.v[w.path].d[''], iv(0)))
    for d, v in ((p, w), (q, size)):
        l = E.deref(d, st, n) if isinstance(d, PtrVal) else d
        E.wr(st, LV(l.path, l.idx, l.leaf, l.t), v, n)
    return None
MODELS['bluestein_i'] = m_chirp
T('prime_factor_sum', ['n'], requires=lambda c: [c['n'] >= 1], ensures=lambda c: [c.res >= 0, c.res <= c['n'] + 2], note='a number that only decides which algorithm is used')
def res_plan(c, kind, want=None):
    """a new plan with its own work space"""
    r = c.res
    if not isinstance(r, PtrVal) or r.path == 'null' or r.path + '.work' not in c.st.v: return [('new plan', FALSE)]
    g = lambda f: c.st.v.get(r.path + '.' + f, c.E.lazy.get(r.path + '.' + f))
    w = g('work'); live = lambda p: c.st.v.get(p + '.live', FALSE)
    if not isinstance(w, PtrVal): return [('work space', FALSE)]
    a = c.E.container(c.st, w.path, None)
    out = [('in use', And(live(r.path), live(w.path), w.off == 0)), ('size', a.dims[0] == g('worksize'))]
    if kind is not None: out += [('length', g('length') == want), ('prepared', If(g('bluestein') == 0, WORK(iv(kind), want, a.d[''], iv(0)), WORK(iv(2), want, a.d[''], iv(0))))]
    return out
def If(a, b, c): return And(Imp(a, b), Imp(Not(a), c))
for nm, kind in (('complex', 1), ('real', 0)):
    S('make_%s_plan' % nm, ['length'], keeps=True, requires=lambda c: [c['length'] >= 1, c['length'] <= 2 ** 30], ensures=lambda c, kind=kind: res_plan(c, kind, c['length']), opts=dict(split=True))
    def copied(c):
        r, o = c.res, path(c)
        if r.path == 'null': return [('null only for null', Not(z3.Const('nonnull:' + o, B)))]
        out = res_plan(c, None)
        g = lambda p, f: c.st.v.get(p + '.' + f, c.E.lazy.get(p + '.' + f))
        a, b = [c.E.container(c.st, g(p, 'work').path, None) for p in (r.path, o)]
        out += [('same ' + f, g(r.path, f) == g(o, f)) for f in ('length', 'worksize', 'bluestein')]
        return out + [('own work space', TRUE if g(r.path, 'work').path != g(o, 'work').path else FALSE), ('same contents', FA([k_], Imp(rng(k_, 0, g(o, 'worksize')), sel(a.d[''], [k_]) == sel(b.d[''], [k_ + g(o, 'work').off])), sel(a.d[''], [k_])))]
    def path(c):
        lv = c.vals['plan']; p = c.E.rd(c.st, lv); return p.path
    S('copy_%s_plan' % nm, ['plan'], keeps=True, requires=lambda c: [c['plan.worksize'] >= 1, c['plan.work'].off == 0, c['plan.work'].n == c['plan.worksize'], c['plan.worksize'] <= 2 ** 50], ensures=copied, opts=dict(split=True))
    def inuse(c):
        c.st.v[path(c) + '.live'] = TRUE; c.st.v[c['plan.work'].p.path + '.live'] = TRUE
        return [c['plan.work'].off == 0]
    S('kill_%s_plan' % nm, ['plan'], keeps=True, requires=inuse, ensures=lambda c: [('all given back', And(*[Not(f) for q, f in c.st.v.items() if q.endswith('.live')]))])
PROPS = {'C16': [s.key for s in SPECS if not s.trusted]}
