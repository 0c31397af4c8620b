"""Verification-condition generator: symbolic execution of the clang syntax tree
of the real functions, with contracts at calls and invariants at loops."""
import re, itertools, fractions
import z3
from .cast import norm, Func
from . import prof

class Unsupported(Exception):
    """The function cannot be brought within the verifier's reach (as written)."""

class Unattached(Exception):
    """A contract or invariant refers to something the current code does not have."""

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_ctr = itertools.count()
def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)
_keep = []
def MP(*a):
    """multi-pattern; its terms are kept alive (z3 loses them otherwise)"""
    p = z3.MultiPattern(*a)
    _keep.append((a, p))
    return p
def iv(n):
    return z3.IntVal(n)
def rv(x):
    return z3.RealVal(str(x))
def is_z(x):
    return isinstance(x, z3.ExprRef)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def And(*l):
    l = [x for x in l if not z3.is_true(x)]
    if not l: return TRUE
    if len(l) == 1: return l[0]
    return z3.And(*l)
def Or(*l):
    l = [x for x in l if not z3.is_false(x)]
    if not l: return FALSE
    if len(l) == 1: return l[0]
    return z3.Or(*l)
def Not(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    return z3.Not(x)
def Imp(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a): return TRUE
    return z3.Implies(a, b)

# ---------------------------------------------------------------- types
INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'short': (16, True), 'unsigned short': (16, False), 'char': (8, True), 'signed char': (8, True),
        'unsigned char': (8, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'size_t': (64, False), 'tsize': (64, False), 'tdiff': (64, True), 'bool': (1, False),
        'int64': (64, True), 'uint64': (64, False), 'int32': (32, True), 'ptrdiff_t': (64, True),
        'size_type': (64, False), 'unsigned': (32, False), 'uint32': (32, False), 'uint8': (8, False), 'int8': (8, True),
        'uint16': (16, False), 'int16': (16, True), '__int128': (128, True), 'unsigned __int128': (128, False)}
REALS = {'double', 'float', 'long double'}

class Ty:
    __slots__ = ('k', 'n', 'a', 'bits', 'sgn')
    def __init__(self, k, n='', a=(), bits=0, sgn=True):
        self.k, self.n, self.a, self.bits, self.sgn = k, n, tuple(a), bits, sgn
    def __repr__(self):
        return 'Ty(%s,%s,%s)' % (self.k, self.n, self.a)

_tc = {}
def split_targs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '<' or c == '(': d += 1
        if c == '>' or c == ')': d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def ty(t):
    if isinstance(t, dict):
        q = t.get('desugaredQualType') or t['qualType']
        # keep vectors etc. spelled
        r = _ty(norm(q))
        if r.k == 'opaque' and t['qualType'] != q:
            r2 = _ty(norm(t['qualType']))
            if r2.k != 'opaque':
                return r2
        return r
    return _ty(norm(t))

def _ty(s):
    if s in _tc: return _tc[s]
    r = _ty0(s)
    _tc[s] = r
    return r

def _ty0(s):
    s = s.strip()
    s = re.sub(r'\b(const|volatile|restrict|__restrict)\b ?', '', s).strip()
    s = re.sub(r'\s*([<>,*&()])\s*', r'\1', s).replace(',', ', ')
    if s.endswith('&&'): return Ty('ref', a=[_ty(s[:-2])])
    if s.endswith('&'): return Ty('ref', a=[_ty(s[:-1])])
    if s.endswith('*'): return Ty('ptr', a=[_ty(s[:-1])])
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m: return Ty('carr', n=m.group(2), a=[_ty(m.group(1))])
    if s == 'bool': return Ty('bool', 'bool', bits=1, sgn=False)
    if s in INTS: return Ty('int', s, bits=INTS[s][0], sgn=INTS[s][1])
    if s in REALS: return Ty('real', s)
    if s == 'void': return Ty('void')
    if s in prof.ENUMS: return Ty('int', s, bits=32)
    if s.endswith(')') and '(' in s: return Ty('fn', s)
    m = re.match(r'^(\w+)<(.*)>$', s)
    if m:
        nm, args = m.group(1), split_targs(m.group(2))
        if nm in ('arr', 'arr_ref', 'arrT', 'arr_align') and prof.ABSTRACT_ARR: return Ty('arr', s, [_ty(args[0])])
        if nm in ('vector', '_Vector_base'): return Ty('vec', s, [_ty(args[0])])
        if nm in ('arr2', 'arr2T') and prof.ABSTRACT_ARR: return Ty('arr2', s, [_ty(args[0])])
        if nm == 'arr3' and prof.ABSTRACT_ARR: return Ty('arr3', s, [_ty(args[0])])
        if nm == 'Alm' and prof.ABSTRACT_ALM: return Ty('alm', s, [_ty(args[0])])
        if nm in ('xcomplex', 'complex'): return Ty('rec', nm, [_ty(args[0])])
        if nm == 'pair': return Ty('rec', 'pair', [_ty(args[0]), _ty(args[1])])
        return Ty('obj', s)
    if s == 'cmplx': return Ty('rec', 'cmplx', [_ty('double')])
    if s in ('dcomplex',): return Ty('rec', 'xcomplex', [_ty('double')])
    if s in ('fcomplex',): return Ty('rec', 'xcomplex', [_ty('float')])
    if s == 'pointing' and prof.ABSTRACT_ARR: return Ty('arr', s, [_ty('double')])
    if s == 'Alm_Base' and prof.ABSTRACT_ALM: return Ty('alm', s, [_ty('float')])
    if re.match(r'^[A-Za-z_]\w*$', s):
        return Ty('obj', s)
    return Ty('opaque', s)

def fields(t):
    """leaf name -> Ty for record element types"""
    if t.n in ('xcomplex', 'complex'): return [('re', t.a[0]), ('im', t.a[0])]
    if t.n == 'cmplx': return [('r', t.a[0]), ('i', t.a[0])]
    if t.n == 'pair': return [('first', t.a[0]), ('second', t.a[1])]
    raise Unsupported('record ' + repr(t))

def leaves(t):
    if t.k == 'rec':
        out = []
        for f, ft in fields(t):
            out += [('.' + f + l, lt) for l, lt in leaves(ft)]
        return out
    if t.k == 'carr' and t.n: return [('.%d%s' % (k, l), lt) for k in range(int(t.n)) for l, lt in leaves(t.a[0])]     # a fixed array as an element of a container
    return [('', t)]

def sort_of(t):
    if t.k == 'int': return I
    if t.k == 'bool': return B
    if t.k == 'real': return R
    raise Unsupported('sort of %r' % t)

CONT = ('arr', 'vec', 'arr2', 'arr3', 'alm', 'carr', 'buf')
NDIM = {'arr': 1, 'vec': 1, 'arr2': 2, 'arr3': 3, 'alm': 2, 'carr': 1, 'buf': 1}

# ---------------------------------------------------------------- values
class ArrVal:
    """contents of a container: dims (list of Int terms) and one z3 array per leaf"""
    __slots__ = ('t', 'dims', 'd')
    def __init__(self, t, dims, d):
        self.t, self.dims, self.d = t, list(dims), dict(d)
    def key(self):
        return tuple(x.get_id() for x in self.dims) + tuple((k, v.get_id()) for k, v in sorted(self.d.items()))

class PtrVal:
    """pointer into container `path` with leading indices, or to an object path"""
    __slots__ = ('path', 'pre', 'off', 't')
    def __init__(self, path, pre, off, t):
        self.path, self.pre, self.off, self.t = path, tuple(pre), off, t

class RecVal(dict):
    pass

class Opaque:
    def __init__(self, what=''): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what

class LV:
    __slots__ = ('path', 'idx', 'leaf', 't')
    def __init__(self, path, idx, leaf, t):
        self.path, self.idx, self.leaf, self.t = path, tuple(idx), leaf, t
    def __repr__(self): return 'LV(%s,%s,%s,%r)' % (self.path, self.idx, self.leaf, self.t)

class FV:
    """a double that may be NaN (used only when contracts ask for it)"""
    __slots__ = ('v', 'nan')
    def __init__(self, v, nan): self.v, self.nan = v, nan

def asort(nd, s):
    return z3.ArraySort(*([I] * nd + [s]))

def fresh_arr(name, t, dims=None):
    nd = NDIM[t.k]
    d = {}
    for l, lt in leaves(t.a[0]):
        if lt.k in ('ptr', 'obj', 'opaque'):
            raise Unsupported('container of ' + repr(lt))
        d[l] = fresh(name + l, asort(nd, sort_of(lt)))
    if dims is None:
        dims = [fresh('%s.dim%d' % (name, k), I) for k in range(nd)]
    return ArrVal(t, dims, d)

def const_arr(t, dims, val):
    nd = NDIM[t.k]
    d = {}
    for l, lt in leaves(t.a[0]):
        v = getleaf(val, l) if isinstance(val, RecVal) else val
        v = coerce(v, sort_of(lt))
        ks = [z3.Const('k%d' % i, I) for i in range(nd)]
        d[l] = z3.K(I, v) if nd == 1 else z3.Lambda(ks, v)
    return ArrVal(t, dims, d)

def getleaf(v, l):
    for f in l.split('.')[1:]:
        v = v[f]
    return v

def coerce(v, s):
    if isinstance(v, FV): v = v.v
    if not is_z(v): raise Unsupported('coerce %r' % (v,))
    if v.sort() == s: return v
    if s == R and v.sort() == I: return z3.ToReal(v)
    if s == I and v.sort() == B: return z3.If(v, iv(1), iv(0))
    if s == B and v.sort() == I: return v != 0
    if s == R and v.sort() == B: return z3.If(v, rv(1), rv(0))
    if s == B and v.sort() == R: return v != 0
    raise Unsupported('coerce %s to %s' % (v.sort(), s))

def sel(a, idx):
    return z3.Select(a, *idx)
def sto(a, idx, v):
    return z3.Store(a, *idx, v)

# ---------------------------------------------------------------- state
class VDict(dict):
    """the locations of a state; reports writes that are not made through Engine.wr while accesses are recorded"""
    __slots__ = ('E',)
    def __setitem__(s, k, v):
        E = s.E
        if E is not None and E.log is not None and not E.inwr: E.log.append(('w', k, '*', (), []))
        dict.__setitem__(s, k, v)
class State:
    __slots__ = ('v', 'facts', 'E')
    def __init__(self, E):
        self.v, self.facts, self.E = VDict(), [], E
        self.v.E = E
    def copy(self):
        s = State(self.E); s.v = VDict(self.v); s.v.E = self.E; s.facts = list(self.facts); return s
    def assume(self, f, ):
        if not z3.is_true(f): self.facts.append(f)
    def get(self, path):
        if path in self.v: return self.v[path]
        return self.E.lazy_get(path)

def same(a, b):
    if a is b: return True
    if is_z(a) and is_z(b): return a.eq(b)
    if isinstance(a, ArrVal) and isinstance(b, ArrVal):
        return len(a.dims) == len(b.dims) and all(x.eq(y) for x, y in zip(a.dims, b.dims)) and a.d.keys() == b.d.keys() and all(a.d[k].eq(b.d[k]) for k in a.d)
    if isinstance(a, PtrVal) and isinstance(b, PtrVal):
        return a.path == b.path and len(a.pre) == len(b.pre) and all(x.eq(y) for x, y in zip(a.pre, b.pre)) and a.off.eq(b.off)
    if isinstance(a, RecVal) and isinstance(b, RecVal):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, FV) and isinstance(b, FV):
        return a.v.eq(b.v) and a.nan.eq(b.nan)
    return False

def ite(c, a, b):
    if a is None or b is None: return Opaque('undef')
    if same(a, b): return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, FV) or isinstance(b, FV):
        a2 = a if isinstance(a, FV) else FV(a, FALSE); b2 = b if isinstance(b, FV) else FV(b, FALSE)
        return FV(z3.If(c, a2.v, b2.v), z3.If(c, a2.nan, b2.nan))
    if is_z(a) and is_z(b):
        if a.sort() != b.sort():
            if a.sort() == I and b.sort() == R: a = z3.ToReal(a)
            elif a.sort() == R and b.sort() == I: b = z3.ToReal(b)
            else: return Opaque('ite')
        return z3.If(c, a, b)
    if isinstance(a, ArrVal) and isinstance(b, ArrVal) and a.d.keys() == b.d.keys():
        return ArrVal(a.t, [ite(c, x, y) for x, y in zip(a.dims, b.dims)], {k: ite(c, a.d[k], b.d[k]) for k in a.d})
    if isinstance(a, RecVal) and isinstance(b, RecVal):
        return RecVal({k: ite(c, a[k], b[k]) for k in a})
    if isinstance(a, PtrVal) and isinstance(b, PtrVal) and a.path == b.path and len(a.pre) == len(b.pre):
        return PtrVal(a.path, [ite(c, x, y) for x, y in zip(a.pre, b.pre)], ite(c, a.off, b.off), a.t)
    return Opaque('ite')

def merge2(c, s1, s2):
    """state for: if c then s1 else s2 (either may be None)"""
    if s1 is None and s2 is None: return None
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    r = State(s1.E)
    n = 0
    while n < len(s1.facts) and n < len(s2.facts) and s1.facts[n] is s2.facts[n]: n += 1
    r.facts = s1.facts[:n]
    a, b = s1.facts[n:], s2.facts[n:]
    if a: r.facts.append(Imp(c, And(*a)))
    if b: r.facts.append(Imp(Not(c), And(*b)))
    for k in set(s1.v) | set(s2.v):
        x = s1.v.get(k); y = s2.v.get(k)
        if x is None or y is None:
            # lazily created on one side only: take the lazy initial value on the other
            if k in s1.E.lazy:
                x = s1.E.lazy[k] if x is None else x
                y = s1.E.lazy[k] if y is None else y
            else:
                continue   # local of one branch, out of scope
        if s1.E.opts.get('merge_arrays') and isinstance(x, ArrVal) and isinstance(y, ArrVal) and x.d.keys() == y.d.keys() and not same(x, y) and not z3.is_true(c) and not z3.is_false(c):
            # name the merged contents, so that patterns over them stay legal
            d = {}
            for l in x.d:
                if x.d[l].eq(y.d[l]): d[l] = x.d[l]
                else:
                    d[l] = fresh('merged', x.d[l].sort())
                    r.facts.append(Imp(c, d[l] == x.d[l])); r.facts.append(Imp(Not(c), d[l] == y.d[l]))
            dict.__setitem__(r.v, k, ArrVal(x.t, [ite(c, p, q) for p, q in zip(x.dims, y.dims)], d))
            continue
        dict.__setitem__(r.v, k, ite(c, x, y))
    return r

def mergeN(states):
    states = [s for s in states if s is not None]
    if not states: return None
    r = states[0]
    for s in states[1:]:
        c = fresh('sel', B)
        r = merge2(c, r, s)
    return r

class Oblig:
    __slots__ = ('fn', 'kind', 'label', 'facts', 'goal', 'line', 'hints')
    def __init__(self, fn, kind, label, facts, goal, line=None, hints=()):
        self.fn, self.kind, self.label, self.facts, self.goal, self.line = fn, kind, label, facts, goal, line
        self.hints = hints
    def name(self):
        return '%s/%s/%s' % (self.fn, self.kind, self.label)

class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.env = {}        # decl id -> LV binding
        self.names = {}      # name -> list of decl ids in order of declaration
        self.returns = []    # (state, value)
        self.loopctx = []
        self.nloop = 0

class Throw:
    def __init__(self, st, what, code=None): self.st, self.what, self.code = st, what, code
