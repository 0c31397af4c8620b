"""C16: the Fourier transforms (levels/libfftpack)."""
from .base import *
from dv.models import COS, SIN
UP = ['levels/libfftpack/fftpack.c']
SPECS = []
C72, C144, S72, S144, S60 = z3.Reals('cos72 cos144 sin72 sin144 sin60')
LIT = {0.86602540378443864676: S60, 0.3090169943749474241: C72, 0.8090169943749474241: -C144, 0.95105651629515357212: S72, 0.58778525229247312917: S144}
H = z3.Q(1, 2)
ROOTS = {2: [(rv(1), rv(0)), (rv(-1), rv(0))], 3: [(rv(1), rv(0)), (-H, S60), (-H, -S60)], 4: [(rv(1), rv(0)), (rv(0), rv(1)), (rv(-1), rv(0)), (rv(0), rv(-1))],
         5: [(rv(1), rv(0)), (C72, S72), (C144, S144), (C144, -S144), (C72, -S72)], 6: [(rv(1), rv(0)), (H, S60), (-H, S60), (rv(-1), rv(0)), (-H, -S60), (H, -S60)]}
def root(p, e, s): r = ROOTS[p][e % p]; return (r[0], r[1] if s > 0 else -r[1])
def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def conj(a): return (a[0], -a[1])
def cell(v, x): return (sel(v.d['.r'], [x]), sel(v.d['.i'], [x]))
LOW, ROW = z3.Function('place_in_row', I, I), z3.Function('row_start', I, I)       # of a position in an array of rows of length ido
s_, k_, i_ = z3.Ints('s_ k_ i_')
AT = z3.Function('cell_of_row', I, I, B)
def geometry(c):
    """rows of length ido"""
    d = c['ido']
    return [FA([s_], And(LOW(s_) >= 0, LOW(s_) < d, ROW(s_) == s_ - LOW(s_)), LOW(s_)), FA([k_, i_], Imp(rng(i_, 0, d), LOW(i_ + d * k_) == i_), AT(i_, k_)), FA([k_, i_], AT(i_, k_), AT(i_, k_))]
def butterfly(c, p, s, q, x):
    """sum over j of W_p^(s j q) times input j at position x of the rows"""
    d = c['ido']; cc = c.old['cc'].v.a if False else c.incoming
    t = (rv(0), rv(0))
    for jj in range(p): t = cadd(t, cmul(root(p, jj * q, s), cell(cc, x + (p - 1) * ROW(x) + d * jj)))
    return t
def at(pv, x): return (sel(pv.v.a.d['.r'], [pv.off + x]), sel(pv.v.a.d['.i'], [pv.off + x]))
BR = z3.Function('butterfly_re', I, I, R); BI = z3.Function('butterfly_im', I, I, R)       # output number, position in the rows
GO = z3.Function('multiply_out', I, B)
IN = [[z3.Function('input_%s%d' % (l, jj), I, R) for l in 'ri'] for jj in range(6)]
TW = [[z3.Function('twiddle_%s%d' % (l, q), I, R) for l in 'ri'] for q in range(6)]
MUL = z3.Function('product_re', R, R, R, R, R), z3.Function('product_im', R, R, R, R, R)
a_ = z3.Reals('a_ b_ c_ d_')
MULD = [FA(list(a_), MUL[l](*a_) == cmul(a_[:2], a_[2:])[l], MUL[l](*a_)) for l in range(2)]
def total(p, s, q, ins):
    t = (rv(0), rv(0))
    for jj in range(p): t = cadd(t, cmul(root(p, jj * q, s), ins[jj]))
    return z3.simplify(t[0], som=True), z3.simplify(t[1], som=True)
def cin(c, p, jj, x, row): return at(c['cc'], x + (p - 1) * row + c['ido'] * jj)
def ctw(c, s, q, low): return (at(c['wa'], (q - 1) * c['ido'] + low) if s > 0 else conj(at(c['wa'], (q - 1) * c['ido'] + low)))
TOT = [[z3.Function('total_%s%d' % (l, q), I, R) for l in 'ri'] for q in range(6)]
def pass_defs(c, p, s):
    """axioms and their names: inputs, twiddle factors, totals, outputs"""
    out = {'geometry': geometry(c)}
    for jj in range(p): out['in%d' % jj] = [FA([s_], IN[jj][l](s_) == cin(c, p, jj, s_, ROW(s_))[l], IN[jj][l](s_)) for l in range(2)]
    for q in range(p):
        t = total(p, s, q, [(IN[jj][0](s_), IN[jj][1](s_)) for jj in range(p)])
        out['tot%d' % q] = [FA([s_], TOT[q][l](s_) == t[l], TOT[q][l](s_)) for l in range(2)]
        o = (BR, BI)
        if q == 0: out['out0'] = [FA([s_], o[l](q, s_) == TOT[0][l](s_), o[l](q, s_)) for l in range(2)]
        else:
            out['tw%d' % q] = [FA([s_], TW[q][l](s_) == ctw(c, s, q, LOW(s_))[l], TW[q][l](s_)) for l in range(2)]
            out['out%d' % q] = [FA([s_], o[l](q, s_) == z3.If(c['ido'] == 1, TOT[q][l](s_), MUL[l](TW[q][0](s_), TW[q][1](s_), TOT[q][0](s_), TOT[q][1](s_))), o[l](q, s_)) for l in range(2)]
    return out
def all_defs(c, p, s): return [f for l in pass_defs(c, p, s).values() for f in l]
def pass_req(c, p):
    d, l = c['ido'], c['l1']
    return [d >= 1, l >= 1, c['cc'].off >= 0, c['ch'].off >= 0, c['wa'].off >= 0, c['cc'].off + p * (d * l) <= c['cc'].n, c['ch'].off + p * (d * l) <= c['ch'].n, Imp(d > 1, c['wa'].off + (p - 1) * d <= c['wa'].n)]
def filled(c, p, upto):
    """the first upto positions of every output have been written"""
    P = c['ido'] * c['l1']; ch = c['ch']
    return [('output %d' % q, FA([s_], Imp(rng(s_, q * P, q * P + upto), And(at(ch, s_)[0] == BR(q, s_ - q * P), at(ch, s_)[1] == BI(q, s_ - q * P))), at(ch, s_)[0], at(ch, s_)[1])) for q in range(p)]
def sizes(L, p):
    d, l, k = L['ido'], L['l1'], L['k']
    return And(d * k >= 0, d * k + d <= d * l, d * (k + 1) == d * k + d)
def E_stored(L): return L.E.ghost.get('stored', [])
def scalar(f):
    """no quantifier, no array"""
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_array(x): return False
        st += x.children()
    return True
def pass_spec(p, s):
    def room(L): return [rng(L['k'], 0, L['l1'] + 1), L['ido'] * L['k'] <= L['ido'] * L['l1'], L['ido'] * L['k'] >= 0]
    def rows(L): return room(L) + filled(L, p, L['ido'] * L['k'] + 0)
    def cols(L): return room(L) + [rng(L['i'], 0, L['ido'] + 1), L['k'] < L['l1'], L['ido'] * L['k'] + L['ido'] <= L['ido'] * L['l1']] + filled(L, p, L['ido'] * L['k'] + L['i'])
    def row_room(L, k): return ('room', And(L['ido'] * k >= 0, L['ido'] * (k + 1) <= L['ido'] * L['l1'], L['ido'] * (k + 1) == L['ido'] * k + L['ido']))
    def here(L, i, k, one):
        """the outputs at this position are what the definition says"""
        d = L['ido']; P = d * L['l1']; ch = L['ch']; defs = pass_defs(L, p, s); o = (BR, BI)
        sc = [f for f in L.st.facts if scalar(f)]
        low, row = i, k if one else d * k
        x = row + low
        place = And(LOW(x) == low, ROW(x) == row); lone = d == 1 if one else d > 1
        inr = And(rng(low, 0, d), d * k == row); apart = P >= 1; within = And(x >= 0, x < P)
        out = [('length', lone, sc), ('range', inr, sc), ('cell', AT(low, k), defs['geometry'][2:]), ('place', place, [inr, AT(low, k)] + defs['geometry']), ('distinct', apart, sc), ('within', within, sc)]
        ins, eqs = [], []
        def step(nm, f, only): out.append((nm, f, only)); return f
        def som(e): return z3.simplify(e, som=True)
        for jj in range(p):
            v = [som(e) for e in cin(L, p, jj, x, row)]
            for l in range(2):
                eqs.append(step('input %d' % jj, IN[jj][l](x) == v[l], [place, defs['in%d' % jj][l]]))
            ins.append(v)
        for q in range(p):
            t = total(p, s, q, ins)
            v = [step('total %d' % q, TOT[q][l](x) == t[l], eqs + [defs['tot%d' % q][l]]) for l in range(2)]
            if q == 0 or one: v = [step('output %d' % q, o[l](q, x) == t[l], [lone, v[l], defs['out%d' % q][l]]) for l in range(2)]
            else:
                w = [som(e) for e in ctw(L, s, q, low)]
                u = [step('twiddle %d' % q, TW[q][l](x) == w[l], [place, defs['tw%d' % q][l]]) for l in range(2)]
                y = [step('output %d as a product' % q, o[l](q, x) == MUL[l](TW[q][0](x), TW[q][1](x), TOT[q][0](x), TOT[q][1](x)), [lone, defs['out%d' % q][l]]) for l in range(2)]
                z = [step('output %d as a product of cells' % q, o[l](q, x) == MUL[l](w[0], w[1], t[0], t[1]), u + v + [y[l]]) for l in range(2)]
                pr = cmul(w, t)
                v = [step('output %d' % q, o[l](q, x) == som(pr[l]), [z[l], MULD[l]]) for l in range(2)]
            idx = som(ch.off + q * P + x); val = {}
            for path, leaf, ix, w, f in E_stored(L):
                if path == ch.p.path and z3.eq(ix[0], idx): val[leaf] = (w, f)
            vs = []
            if len(val) == 2: vs = [step('value %d' % q, val['.' + 'ri'[l]][0] == o[l](q, x), [val['.' + 'ri'[l]][1], v[l]]) for l in range(2)]
            h = step('output %d here' % q, And(at(ch, q * P + x)[0] == BR(q, x), at(ch, q * P + x)[1] == BI(q, x)), [apart] + vs if vs else None)
            old, new = [filled(M, p, M['ido'] * M['k'] + (0 if one else M['i']))[q][1] for M in (L.start, L)]
            known = {f.get_id() for f in L.st.facts}
            if old.get_id() in known: step('output %d so far' % q, new, [old, h, apart, within, inr, lone])
        return out
    def one_end(L):
        k = L['k'] - 1
        return [row_room(L, k), ('row length', L['ido'] * k == k)] + here(L, iv(0), k, True)
    def col_end(L):
        i, k = L['i'] - 1, L['k']
        return here(L, i, k, False)
    S_ = Spec('pass%s%d' % ('b' if s > 0 else 'f', p), ['ido', 'l1', 'cc', 'ch', 'wa'], key='pass%s%d' % ('b' if s > 0 else 'f', p), unit=UP, modifies=['ch'], keep_dims=['ch'],
        requires=lambda c: pass_req(c, p), ensures=lambda c: filled(c, p, c['ido'] * c['l1'] + 0), axioms=lambda c: all_defs(c, p, s) + MULD, opts=dict(literals=LIT, unsigned_math=True, noframe=True, name_store=True),
        loops={0: Loop(inv=rows, at_end=one_end), 1: Loop(inv=rows, at_begin=lambda L: [], at_end=lambda L: [row_room(L, L['k'] - 1)]), 2: Loop(inv=cols, at_begin=lambda L: [row_room(L, L['k'])], at_end=col_end)}, nloops=3)
    SPECS.append(S_)
for p in (2, 3, 4, 5, 6):
    pass_spec(p, 1); pass_spec(p, -1)
PROPS = {'C16': [s.key for s in SPECS]}
