"""Array containers: own cells, ownership of the storage, copies, resizing (levels/cxxsupport/ls_arr.h)."""
from .base import *
from dv.execu import PtrView, PtrVal, fresh_arr, fresh
from dv.models import val
U = ['inst/arr.cpp']
SPECS = []
DBL = Ty('real', 'double'); BUF = Ty('buf', '', [DBL])
N_ = 'normalAlloc__<double>'
AT, A2, A3 = 'arrT<double, %s>' % N_, 'arr2T<double, %s>' % N_, 'arr3<double>'
def S(name, params=None, key=None, **k):
    o = dict(real_arr=True, inline_self=True, inline_loops=dict(IL)); o2 = k.pop('opts', {}); modifies_ = k.get('modifies')
    if modifies_ and 'this.*' in modifies_: o['noframe'] = True
    o['inline_loops'].update(o2.pop('inline_loops', {})); o.update(o2)
    s = Spec(name, params, key=(key or name) + ' array', unit=U, opts=o, **k); SPECS.append(s); return s
x_ = z3.Int('x_')
def live(st, path): return st.v.get(path + '.live', FALSE)
def m_alloc(E, st, n, this, args):
    """storage manager: a new block of the given number of elements (allocation succeeds)"""
    sz = coerce(val(E, args[0], st), I)
    E.ghost['blk'] = E.ghost.get('blk', 0) + 1
    path = 'block%d' % E.ghost['blk']
    st.v[path] = fresh_arr(path, BUF, [sz])
    st.v[path + '.live'] = TRUE
    return PtrVal(path, (), iv(0), DBL)
def m_dealloc(E, st, n, this, args):
    """storage manager: frees a block it handed out and that was not freed before; freeing nothing is allowed"""
    p = E.ev(args[0], st)
    if isinstance(p, LV): p = E.rd(st, p)
    if not isinstance(p, PtrVal): raise Unsupported('block to free')
    if p.path == 'null': return None
    E.oblige(st, 'precondition', 'dealloc: block in use, of this storage manager, freed once', And(live(st, p.path), p.off == 0), n)
    E.container(st, p.path, BUF)
    st.v[p.path + '.live'] = FALSE
    st.v[p.path] = fresh_arr(p.path + '.freed', BUF, [iv(0)])
    return None
MODELS = {}
for x in ('alloc', 'dealloc'):
    for y in ('normalAlloc__', N_): MODELS['%s::%s' % (y, x)] = m_alloc if x == 'alloc' else m_dealloc
def ptr(c, o):
    p = c[o + '.d']
    return p.p if isinstance(p, PtrView) else p
def blk(c, o):
    """storage of an array: path, contents"""
    p = ptr(c, o)
    if not isinstance(p, PtrVal): raise Unsupported('storage of %s' % o)
    if p.path == 'null': return 'null', None, iv(0)
    return p.path, c.E.container(c.st, p.path, BUF), p.off
def entry(c, *objs):
    """class invariant on entry, and the state of the storage"""
    out = []
    for o in objs:
        path, a, off = blk(c, o)
        c.st.v[path + '.live'] = c[o + '.own']
        out += [c[o + '.s'] >= 0, Imp(c[o + '.own'], a.dims[0] == c[o + '.s']), a.dims[0] >= c[o + '.s']]
    return out
def ok(c, *objs):
    """class invariant on exit: every array has its storage, none is shared, none is lost"""
    out = []; used = {}
    for o in objs:
        path, a, off = blk(c, o)
        if path == 'null': out.append(('no storage for no elements', c[o + '.s'] == 0)); continue
        out.append(('storage of %s' % o, And(off == 0, a.dims[0] >= c[o + '.s'], Imp(c[o + '.own'], And(a.dims[0] == c[o + '.s'], live(c.st, path))))))
        if path in used: out.append(('own storage each', FALSE))
        used[path] = c[o + '.own']
    for p in sorted(k[:-5] for k in c.st.v if k.endswith('.live')):
        if 'this.' in p or 'block' in p or any(p.startswith(o) for o in objs): out.append(('no block lost', Imp(live(c.st, p), used.get(p, FALSE))))
    return out
def el(c, o, x):
    path, a, off = blk(c, o)
    return sel(a.d[''], [x]) if a is not None else rv(0)
def same(c, o, w, n, o2=None):
    """the first n elements of o are those of o2 in the context w"""
    if blk(c, o)[1] is None: return n <= 0
    e = el(c, o, x_)
    if blk(w, o2 or o)[1] is None: return n <= 0
    return FA([x_], Imp(rng(x_, 0, n), e == el(w, o2 or o, x_)), e)
def all_(c, o, n, v): return FA([x_], Imp(rng(x_, 0, n), el(c, o, x_) == v), el(c, o, x_)) if blk(c, o)[1] is not None else n <= 0
LOOPSIZE = lambda L: L['m'] >= 0
def kept(c, *objs):
    """memory of others stays as it was"""
    out = []
    for o in objs:
        path = ptr(c.old, o).path
        a, b = blk(c.old, o)[1], c.E.container(c.st, path, BUF)
        out.append(('memory of others untouched', Imp(Not(c.old[o + '.own']), And(a.dims[0] == b.dims[0], FA([x_], sel(b.d[''], [x_]) == sel(a.d[''], [x_]), sel(b.d[''], [x_]))))))
    return out
T = 'this'
# loops of members that are executed in place
IL = {('arr_ref<double>::fill', 0): Loop(inv=lambda L: [L['m'] >= 0, all_(L, T, L['m'], L['val'])])}
# ---- views
RR = 'arr_ref<double>'
def rent(c, *objs): return [f for o in objs for f in (c[o + '.s'] >= 0, blk(c, o)[1].dims[0] >= c[o + '.s'])]
S(RR + '::fill', ['val'], modifies=['this.d*'], requires=lambda c: rent(c, T), ensures=lambda c: [('every element', all_(c, T, c['this.s'], c['val'])), ('nothing beyond', FA([x_], Imp(x_ >= c['this.s'], el(c, T, x_) == el(c.old, T, x_)), el(c, T, x_)))],
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, all_(L, T, L['m'], L['val']), FA([x_], Imp(x_ >= L['m'], el(L, T, x_) == el(L.old, T, x_)), el(L, T, x_))])}, nloops=1)
S(RR + '::minmax', ['minv', 'maxv'], modifies=['minv', 'maxv'], requires=lambda c: rent(c, T),
  ensures=lambda c: [('not empty', c['this.s'] > 0), ('bounds', FA([x_], Imp(rng(x_, 0, c['this.s']), And(c['minv'] <= el(c, T, x_), el(c, T, x_) <= c['maxv'])), el(c, T, x_))),
     ('attained', And(*[EX([x_], And(rng(x_, 0, c['this.s']), el(c, T, x_) == c[v])) for v in ('minv', 'maxv')]))], exsures=lambda c: [('only without elements', c['this.s'] == 0)],
  loops={0: Loop(inv=lambda L: [L['m'] >= 1, FA([x_], Imp(rng(x_, 0, L['m']), And(L['minv'] <= el(L, T, x_), el(L, T, x_) <= L['maxv'])), el(L, T, x_))] + [EX([x_], And(rng(x_, 0, L['this.s']), el(L, T, x_) == L[v])) for v in ('minv', 'maxv')])}, nloops=1)
S(RR + '::contains', ['val'], requires=lambda c: rent(c, T), ensures=lambda c: [('found exactly if present', c.res == EX([x_], And(rng(x_, 0, c['this.s']), el(c, T, x_) == c['val'])))],
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, FA([x_], Imp(rng(x_, 0, L['m']), el(L, T, x_) != L['val']), el(L, T, x_))])}, nloops=1)
S(RR + '::find', ['val'], requires=lambda c: rent(c, T), ensures=lambda c: [('first occurrence', And(rng(c.res, 0, c['this.s']), el(c, T, c.res) == c['val'], FA([x_], Imp(rng(x_, 0, c.res), el(c, T, x_) != c['val']), el(c, T, x_))))],
  exsures=lambda c: [('only if absent', FA([x_], Imp(rng(x_, 0, c['this.s']), el(c, T, x_) != c['val']), el(c, T, x_)))],
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, FA([x_], Imp(rng(x_, 0, L['m']), el(L, T, x_) != L['val']), el(L, T, x_))])}, nloops=1)
S(RR + '::contentsEqual', ['other'], requires=lambda c: rent(c, T, 'other'), ensures=lambda c: [('equal exactly if the same', c.res == And(c['this.s'] == c['other.s'], FA([x_], Imp(rng(x_, 0, c['this.s']), el(c, T, x_) == el(c, 'other', x_)), el(c, T, x_))))],
  loops={0: Loop(inv=lambda L: [L['i'] >= 0, FA([x_], Imp(rng(x_, 0, L['i']), el(L, T, x_) == el(L, 'other', x_)), el(L, T, x_))])}, nloops=1)
# ---- arrays
ALL = ['this.*']
def nothing(c, o=T): return [('nothing changed', And(c[o + '.s'] == c.old[o + '.s'], same(c, o, c.old, c[o + '.s'])))]
S(AT + '::alloc', ['sz'], modifies=ALL, requires=lambda c: entry(c, T), ensures=lambda c: [('size', c['this.s'] == c['sz'])] + ok(c, T) + kept(c, T) + [('unchanged if the size is the same', Imp(c['sz'] == c.old['this.s'], And(z3.BoolVal(ptr(c, T).path == ptr(c.old, T).path), c['this.own'] == c.old['this.own']))), ('own storage otherwise', Imp(c['sz'] != c.old['this.s'], c['this.own']))])
S(AT + '::allocAndFill', ['sz', 'inival'], modifies=ALL, requires=lambda c: entry(c, T), ensures=lambda c: [('size', c['this.s'] == c['sz']), ('contents', all_(c, T, c['sz'], c['inival']))] + ok(c, T))
S(AT + '::dealloc', [], modifies=ALL, requires=lambda c: entry(c, T), ensures=lambda c: [('empty', And(c['this.s'] == 0, c['this.own']))] + ok(c, T) + kept(c, T))
S(AT + '::resize', ['sz'], modifies=ALL, requires=lambda c: entry(c, T), ensures=lambda c: [('size', c['this.s'] == c['sz']), ('elements kept', same(c, T, c.old, z3.If(c['sz'] < c.old['this.s'], c['sz'], c.old['this.s'])))] + ok(c, T) + kept(c, T),
  loops={0: Loop(inv=lambda L: [L['m'] >= 0] + [FA([x_], Imp(rng(x_, 0, L['m']), L['tmp'][x_] == el(L.old, T, x_)), L['tmp'][x_])])}, nloops=1)
S(AT + '::operator=', ['orig'], modifies=ALL, requires=lambda c: entry(c, T, 'orig'), ensures=lambda c: [('copy', And(c['this.s'] == c['orig.s'], same(c, T, c, c['this.s'], 'orig'))), ('original untouched', And(*[f for _, f in nothing(c, 'orig')]))] + ok(c, T, 'orig') + kept(c, 'orig'),
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, same(L, T, L, L['m'], 'orig')])}, nloops=1)
S(AT + '::transfer', ['other'], modifies=ALL + ['other.*'], requires=lambda c: entry(c, T, 'other'), ensures=lambda c: [('taken over', And(c['this.s'] == c.old['other.s'], c['this.own'] == c.old['other.own'], same(c, T, c.old, c['this.s'], 'other'))), ('source empty', c['other.s'] == 0)] + ok(c, T, 'other') + kept(c, T, 'other'))
S(AT + '::swap', ['other'], modifies=ALL + ['other.*'], requires=lambda c: entry(c, T, 'other'), ensures=lambda c: [('exchanged', And(c['this.s'] == c.old['other.s'], c['this.own'] == c.old['other.own'], same(c, T, c.old, c['this.s'], 'other'), c['other.s'] == c.old['this.s'], c['other.own'] == c.old['this.own'], same(c, 'other', c.old, c['other.s'], T)))] + ok(c, T, 'other') + kept(c, T, 'other'))
# ---- construction, destruction, copies from and to other storage
def newly(c, n): return [('size', And(c['this.s'] == n, c['this.own']))] + ok(c, T)
CT = AT + '::arrT'
def C(nargs, params, key, type=None, ens=None, req=None, **k):
    S(CT, params, key='%s %s' % (CT, key), nargs=nargs, type=type, modifies=ALL, requires=req or (lambda c: []), ensures=ens, **k)
C(0, [], 'empty', ens=lambda c: newly(c, 0))
C(1, ['sz'], 'size', type='(tsize)', ens=lambda c: newly(c, c['sz']))
C(2, ['sz', 'inival'], 'filled', type='const double &', ens=lambda c: newly(c, c['sz']) + [('contents', all_(c, T, c['sz'], c['inival']))])
C(2, ['ptr', 'sz'], 'view', type='double *', req=lambda c: [c['sz'] >= 0], ens=lambda c: [('a view of the given memory', And(z3.BoolVal(ptr(c, T).path == c['ptr'].p.path), ptr(c, T).off == c['ptr'].p.off, c['this.s'] == c['sz'], Not(c['this.own'])))])
C(1, ['orig'], 'copy', type='const arrT', req=lambda c: entry(c, 'orig'), ens=lambda c: newly(c, c['orig.s']) + [('copy', same(c, T, c, c['this.s'], 'orig'))] + ok(c, 'orig', T) + kept(c, 'orig') + nothing(c, 'orig'),
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, same(L, T, L, L['m'], 'orig')])}, nloops=1)
S(AT + '::~arrT', [], modifies=ALL, requires=lambda c: entry(c, T), ensures=lambda c: [('storage given back exactly if owned', Not(live(c.st, ptr(c, T).path)))] + kept(c, T))
S(AT + '::copyFrom', ['orig'], modifies=ALL, requires=lambda c: entry(c, T), ensures=lambda c: [('size', c['this.s'] == c['orig'].n), ('copy', FA([x_], Imp(rng(x_, 0, c['this.s']), el(c, T, x_) == c['orig'][x_]), el(c, T, x_)))] + ok(c, T),
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, FA([x_], Imp(rng(x_, 0, L['m']), el(L, T, x_) == L['orig'][x_]), el(L, T, x_))])}, nloops=1)
S(AT + '::copyTo', ['vec'], modifies=['vec'], requires=lambda c: entry(c, T), ensures=lambda c: [('size', c['vec'].n == c['this.s']), ('copy', FA([x_], Imp(rng(x_, 0, c['this.s']), c['vec'][x_] == el(c, T, x_)), c['vec'][x_]))] + ok(c, T) + nothing(c),
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, L['vec'].n == L['m'], FA([x_], Imp(rng(x_, 0, L['m']), L['vec'][x_] == el(L, T, x_)), L['vec'][x_])])}, nloops=1)
S(AT + '::copyFromPtr', ['ptr', 'sz'], modifies=ALL, requires=lambda c: entry(c, T) + [c['sz'] >= 0, c['ptr'].v.n >= c['sz'] + c['ptr'].p.off], ensures=lambda c: [('size', c['this.s'] == c['sz']), ('copy', FA([x_], Imp(rng(x_, 0, c['this.s']), el(c, T, x_) == c.old['ptr'][x_]), el(c, T, x_)))] + ok(c, T),
  loops={0: Loop(inv=lambda L: [L['m'] >= 0, FA([x_], Imp(rng(x_, 0, L['m']), el(L, T, x_) == L['ptr'][x_]), el(L, T, x_))])}, nloops=1)
# ---- two and three dimensions: an array of the products of the sizes
D = 'this.d'
def sz2(c, o=T): return c[o + '.s1'] * c[o + '.s2']
def sz3(c, o=T): return c[o + '.s1'] * c[o + '.s2'] * c[o + '.s3']
def ent2(c, *objs): return entry(c, *[o + '.d' for o in objs]) + [f for o in objs for f in (c[o + '.s1'] >= 0, c[o + '.s2'] >= 0, sz2(c, o) <= c[o + '.d.s'], sz2(c, o) >= 0)]
def ok2(c, *objs): return [('cells inside the storage', And(c[o + '.s1'] >= 0, c[o + '.s2'] >= 0, sz2(c, o) <= c[o + '.d.s'])) for o in objs] + ok(c, *[o + '.d' for o in objs])
def is2(c, a, b): return ('sizes', And(c['this.s1'] == a, c['this.s2'] == b))
n1, n2, n3, q1, q2, q3 = z3.Ints('n1 n2 n3 q1 q2 q3')
def R2(name, params, **k): S(A2 + '::' + name, params, modifies=k.pop('modifies', ALL), requires=k.pop('requires', lambda c: ent2(c, T)), **k)
R2('alloc', ['sz1', 'sz2'], requires=lambda c: ent2(c, T) + [c['sz1'] * c['sz2'] >= 0], ensures=lambda c: [is2(c, c['sz1'], c['sz2']), ('exactly as much storage', c['this.d.s'] == c['sz1'] * c['sz2'])] + ok2(c, T) + kept(c, D))
R2('fast_alloc', ['sz1', 'sz2'], requires=lambda c: ent2(c, T) + [c['sz1'] * c['sz2'] >= 0], ensures=lambda c: [is2(c, c['sz1'], c['sz2']), ('storage kept if it suffices', Imp(c['sz1'] * c['sz2'] <= c.old['this.d.s'], z3.BoolVal(ptr(c, D).path == ptr(c.old, D).path)))] + ok2(c, T) + kept(c, D))
R2('allocAndFill', ['sz1', 'sz2', 'inival'], requires=lambda c: ent2(c, T) + [c['sz1'] * c['sz2'] >= 0], ensures=lambda c: [is2(c, c['sz1'], c['sz2']), ('contents', all_(c, D, c['sz1'] * c['sz2'], c['inival']))] + ok2(c, T), opts=dict(inline_loops={(A2 + '::fill', 0): Loop(inv=lambda L: [L['m'] >= 0, all_(L, D, L['m'], L['val'])])}))
R2('dealloc', [], ensures=lambda c: [is2(c, 0, 0)] + ok2(c, T) + kept(c, D))
R2('fill', ['val'], ensures=lambda c: [('contents', all_(c, D, sz2(c), c['val']))] + ok2(c, T), loops={0: Loop(inv=lambda L: [L['m'] >= 0, all_(L, D, L['m'], L['val'])])}, nloops=1)
R2('scale', ['val'], ensures=lambda c: [('contents', FA([x_], Imp(rng(x_, 0, sz2(c)), el(c, D, x_) == el(c.old, D, x_) * c['val']), el(c, D, x_)))] + ok2(c, T),
   loops={0: Loop(inv=lambda L: [L['m'] >= 0, FA([x_], Imp(rng(x_, 0, L['m']), el(L, D, x_) == el(L.old, D, x_) * L['val']), el(L, D, x_)), FA([x_], Imp(x_ >= L['m'], el(L, D, x_) == el(L.old, D, x_)), el(L, D, x_))])}, nloops=1)
R2('operator=', ['orig'], requires=lambda c: ent2(c, T, 'orig') + [], ensures=lambda c: [is2(c, c['orig.s1'], c['orig.s2']), ('copy', same(c, D, c, sz2(c), 'orig.d'))] + ok2(c, T, 'orig') + nothing(c, 'orig.d') + kept(c, 'orig.d'), opts=dict(inline_loops={(AT + '::operator=', 0): Loop(inv=lambda L: [L['m'] >= 0, same(L, T, L, L['m'], 'orig')])}))
R2('swap', ['other'], modifies=ALL + ['other.*'], requires=lambda c: ent2(c, T, 'other'), ensures=lambda c: [is2(c, c.old['other.s1'], c.old['other.s2']), ('other', And(c['other.s1'] == c.old['this.s1'], c['other.s2'] == c.old['this.s2'])), ('exchanged', And(same(c, D, c.old, c['this.d.s'], 'other.d'), same(c, 'other.d', c.old, c['other.d.s'], D)))] + ok2(c, T, 'other'))
R2('minmax', ['minv', 'maxv'], modifies=['minv', 'maxv'],
  ensures=lambda c: [('not empty', sz2(c) > 0), ('bounds', FA([x_], Imp(rng(x_, 0, sz2(c)), And(c['minv'] <= el(c, D, x_), el(c, D, x_) <= c['maxv'])), el(c, D, x_))),
     ('attained', And(*[EX([x_], And(rng(x_, 0, sz2(c)), el(c, D, x_) == c[v])) for v in ('minv', 'maxv')]))], exsures=lambda c: [('only without elements', sz2(c) <= 0)],
  loops={0: Loop(inv=lambda L: [L['m'] >= 1, FA([x_], Imp(rng(x_, 0, L['m']), And(L['minv'] <= el(L, D, x_), el(L, D, x_) <= L['maxv'])), el(L, D, x_))] + [EX([x_], And(rng(x_, 0, sz2(L)), el(L, D, x_) == L[v])) for v in ('minv', 'maxv')])}, nloops=1)
def cell(c):
    """the cell an access designates: of a reference, or of the value read there"""
    r = c.res
    if isinstance(r, LV): return r.path, r.idx[0]
    if isinstance(r, PtrVal): return r.path, r.off
    if z3.is_select(r) and r.arg(0).eq(blk(c, D)[1].d['']): return ptr(c, D).path, r.arg(1)
    raise Unattached('cell of %r' % r)
def own2(c, a, b):
    W = c['this.s2']
    return [('own cell', And(z3.BoolVal(cell(c)[0] == ptr(c, D).path), cell(c)[1] == a * W + b)), ('inside the storage', rng(cell(c)[1], 0, c['this.d.s'])),
      ('no other pair has it', FA([q1, q2], Imp(And(rng(q1, 0, c['this.s1']), rng(q2, 0, W), q1 * W + q2 == cell(c)[1]), And(q1 == a, q2 == b)), q1 * W + q2))]
def lem2(c, a, b):
    W = c['this.s2']
    return [Fact('row after row', Imp(And(rng(a, 0, c['this.s1']), rng(b, 0, W)), And(a * W + b >= 0, a * W + b < c['this.s1'] * W)), only=[]),
      Fact('cells are distinct', FA([q1, q2], Imp(And(rng(a, 0, c['this.s1']), rng(b, 0, W), rng(q1, 0, c['this.s1']), rng(q2, 0, W), q1 * W + q2 == a * W + b), And(q1 == a, q2 == b)), q1 * W + q2), only=[])]
for q, t in (('', ')'), (' const', ') const')):
    S(A2 + '::operator()', ['n1', 'n2'], key=A2 + '::operator()' + q, type=t, requires=lambda c: ent2(c, T) + [rng(c['n1'], 0, c['this.s1']), rng(c['n2'], 0, c['this.s2'])], lemmas=lambda c: lem2(c, c['n1'], c['n2']), opts=dict(noframe=True), ensures=lambda c: own2(c, c['n1'], c['n2']))
for q, t in (('', ')'), (' const', ') const')):
    S(A2 + '::operator[]', ['n1'], key=A2 + '::operator[]' + q, type=t, requires=lambda c: ent2(c, T) + [rng(c['n1'], 0, c['this.s1']), c['this.s2'] > 0], lemmas=lambda c: lem2(c, c['n1'], iv(0)), opts=dict(noframe=True),
      ensures=lambda c: [('first cell of the row', And(z3.BoolVal(cell(c)[0] == ptr(c, D).path), cell(c)[1] == c['n1'] * c['this.s2']))])
C2 = A2 + '::arr2T'
def CC2(nargs, params, key, type=None, ens=None, req=None, **k): S(C2, params, key='%s %s' % (C2, key), nargs=nargs, type=type, modifies=ALL, requires=req or (lambda c: []), ensures=ens, **k)
CC2(0, [], 'empty', ens=lambda c: [is2(c, 0, 0)] + ok2(c, T))
CC2(2, ['sz1', 'sz2'], 'sizes', ens=lambda c: [is2(c, c['sz1'], c['sz2'])] + ok2(c, T), req=lambda c: [c['sz1'] * c['sz2'] >= 0])
CC2(3, ['sz1', 'sz2', 'inival'], 'filled', ens=lambda c: [is2(c, c['sz1'], c['sz2']), ('contents', all_(c, D, c['sz1'] * c['sz2'], c['inival']))] + ok2(c, T), req=lambda c: [c['sz1'] * c['sz2'] >= 0], opts=dict(inline_loops={(A2 + '::fill', 0): Loop(inv=lambda L: [L['m'] >= 0, all_(L, D, L['m'], L['val'])])}))
CC2(1, ['orig'], 'copy', type='const arr2T', req=lambda c: ent2(c, 'orig'), ens=lambda c: [is2(c, c['orig.s1'], c['orig.s2']), ('copy', same(c, D, c, sz2(c), 'orig.d'))] + ok2(c, 'orig', T) + kept(c, 'orig.d') + nothing(c, 'orig.d'),
  opts=dict(inline_loops={(AT + '::arrT', 0): Loop(inv=lambda L: [L['m'] >= 0, same(L, T, L, L['m'], 'orig')])}))
# ---- three dimensions
def ent3(c, *objs): return entry(c, *[o + '.d' for o in objs]) + [f for o in objs for f in [c[o + '.s%d' % x] >= 0 for x in (1, 2, 3)] + [sz3(c, o) == c[o + '.d.s'], c[o + '.s2s3'] == c[o + '.s2'] * c[o + '.s3']]]
def ok3(c, *objs): return [('exactly as much storage', And(sz3(c, o) == c[o + '.d.s'], c[o + '.s2s3'] == c[o + '.s2'] * c[o + '.s3'])) for o in objs] + ok(c, *[o + '.d' for o in objs])
def is3(c, *a): return ('sizes', And(*[c['this.s%d' % (q + 1)] == x for q, x in enumerate(a)]))
def R3(name, params, **k): S(A3 + '::' + name, params, modifies=k.pop('modifies', ALL), requires=k.pop('requires', lambda c: ent3(c, T)), **k)
SZ = ['sz1', 'sz2', 'sz3']
def given(c): return [c[x] for x in SZ]
def legal3(c): return [c[x] >= 0 for x in SZ] + [c['sz1'] * c['sz2'] * c['sz3'] >= 0]
R3('alloc', SZ, requires=lambda c: ent3(c, T) + legal3(c), ensures=lambda c: [is3(c, *given(c))] + ok3(c, T) + kept(c, D))
R3('dealloc', [], ensures=lambda c: [is3(c, 0, 0, 0)] + ok3(c, T) + kept(c, D))
R3('fill', ['val'], ensures=lambda c: [('contents', all_(c, D, sz3(c), c['val']))] + ok3(c, T))
R3('operator=', ['orig'], requires=lambda c: ent3(c, T, 'orig'), ensures=lambda c: [is3(c, *[c['orig.s%d' % x] for x in (1, 2, 3)]), ('copy', same(c, D, c, sz3(c), 'orig.d'))] + ok3(c, T, 'orig') + nothing(c, 'orig.d') + kept(c, 'orig.d'), opts=dict(inline_loops={(AT + '::operator=', 0): Loop(inv=lambda L: [L['m'] >= 0, same(L, T, L, L['m'], 'orig')])}))
R3('swap', ['other'], modifies=ALL + ['other.*'], requires=lambda c: ent3(c, T, 'other'), ensures=lambda c: [is3(c, *[c.old['other.s%d' % x] for x in (1, 2, 3)]), ('other', And(*[c['other.s%d' % x] == c.old['this.s%d' % x] for x in (1, 2, 3)])), ('exchanged', And(same(c, D, c.old, c['this.d.s'], 'other.d'), same(c, 'other.d', c.old, c['other.d.s'], D)))] + ok3(c, T, 'other'))
C3 = A3 + '::arr3'
def CC3(nargs, params, key, type=None, ens=None, req=None, **k): S(C3, params, key='%s %s' % (C3, key), nargs=nargs, type=type, modifies=ALL, requires=req or (lambda c: []), ensures=ens, **k)
CC3(0, [], 'empty', ens=lambda c: [is3(c, 0, 0, 0)] + ok3(c, T))
CC3(3, SZ, 'sizes', ens=lambda c: [is3(c, *given(c))] + ok3(c, T), req=legal3)
CC3(1, ['orig'], 'copy', type='const arr3', req=lambda c: ent3(c, 'orig'), ens=lambda c: [is3(c, *[c['orig.s%d' % x] for x in (1, 2, 3)]), ('copy', same(c, D, c, sz3(c), 'orig.d'))] + ok3(c, 'orig', T) + kept(c, 'orig.d') + nothing(c, 'orig.d'), opts=dict(inline_loops={(AT + '::arrT', 0): Loop(inv=lambda L: [L['m'] >= 0, same(L, T, L, L['m'], 'orig')])}))
ROW = z3.Function('row_offset', I, I, I)
def row_def(c): return [FA([q2, q3], ROW(q2, q3) == q2 * c['this.s3'] + q3, ROW(q2, q3))]
def lem3(c, a, b, d):
    s1, s2, s3 = (c['this.s%d' % x] for x in (1, 2, 3)); P = c['this.s2s3']
    inr = And(rng(a, 0, s1), rng(b, 0, s2), rng(d, 0, s3)); inq = And(rng(q1, 0, s1), rng(q2, 0, s2), rng(q3, 0, s3))
    e = P == s2 * s3; df = row_def(c)[0]; P_ = z3.Int('P_')
    return [Fact('inside a row', FA([q2, q3], Imp(And(rng(q2, 0, s2), rng(q3, 0, s3)), rng(ROW(q2, q3), 0, P)), ROW(q2, q3)), only=[e, df]),
      Fact('row offset', And(ROW(b, d) == b * s3 + d, rng(ROW(b, d), 0, P)), only=['inside a row', df, rng(b, 0, s2), rng(d, 0, s3)]),
      Fact('inside', Imp(inr, And(a * P + ROW(b, d) >= 0, a * P + ROW(b, d) < s1 * P)), only=['row offset']), Fact('storage', s1 * s2 * s3 == s1 * P, only=[e]),
      Fact('columns are distinct', FA([q2, q3], Imp(And(rng(q3, 0, s3), rng(d, 0, s3), ROW(q2, q3) == ROW(b, d)), And(q2 == b, q3 == d)), ROW(q2, q3)), only=[df]),
      Fact('rows are distinct', FA([q1, q2, q3], Imp(And(rng(q2, 0, s2), rng(q3, 0, s3), q1 * P + ROW(q2, q3) == a * P + ROW(b, d)), And(q1 == a, ROW(q2, q3) == ROW(b, d))), MP(ROW(q2, q3), q1 * P)), only=['row offset', 'inside a row']),
      Fact('cells are distinct', FA([q1, q2, q3], Imp(And(inr, inq, q1 * P + ROW(q2, q3) == a * P + ROW(b, d)), And(q1 == a, q2 == b, q3 == d)), MP(ROW(q2, q3), q1 * P)), only=['rows are distinct', 'columns are distinct'])]
for q, t in (('', ')'), (' const', ') const')):
    S(A3 + '::operator()', ['n1', 'n2', 'n3'], key=A3 + '::operator()' + q, type=t, requires=lambda c: ent3(c, T) + [rng(c['n%d' % x], 0, c['this.s%d' % x]) for x in (1, 2, 3)], axioms=row_def, lemmas=lambda c: lem3(c, c['n1'], c['n2'], c['n3']), opts=dict(noframe=True),
      ensures=lambda c: [('own cell', And(z3.BoolVal(cell(c)[0] == ptr(c, D).path), cell(c)[1] == c['n1'] * c['this.s2s3'] + c['n2'] * c['this.s3'] + c['n3'])), ('inside the storage', rng(cell(c)[1], 0, c['this.d.s'])),
        ('no other triple has it', FA([q1, q2, q3], Imp(And(rng(q1, 0, c['this.s1']), rng(q2, 0, c['this.s2']), rng(q3, 0, c['this.s3']), q1 * c['this.s2s3'] + ROW(q2, q3) == cell(c)[1]), And(q1 == c['n1'], q2 == c['n2'], q3 == c['n3'])), MP(ROW(q2, q3), q1 * c['this.s2s3'])))])
for A, nn in ((A2, 2), (A3, 3)):
    S(A + '::conformable', ['other'], opts=dict(noframe=True), ensures=lambda c, nn=nn: [('same sizes', c.res == And(*[c['this.s%d' % (x + 1)] == c['other.s%d' % (x + 1)] for x in range(nn)]))])
PROPS = dict(C19=[s.key for s in SPECS])
