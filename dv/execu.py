"""Symbolic execution of statements and expressions."""
import re
import z3
from .engine import *
from . import engine as EN
from .cast import norm

NOISE_TYPES = ('ostream', 'basic_ostream', 'ostringstream', 'basic_ostringstream', 'stringstream', 'basic_string')
PASS_CASTS = {'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'FunctionToPointerDecay',
              'UserDefinedConversion', 'BitCast', 'Dependent', 'BuiltinFnToFnPtr', 'LValueBitCast', 'BaseToDerived'}
WRAPS = {'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'ConstantExpr',
         'FullExpr'}

def unwrap(n):
    while n['kind'] in WRAPS or n['kind'] in ('MaterializeTemporaryExpr',):
        n = n['inner'][0]
    return n

def strip_casts(n):
    while n['kind'] in WRAPS or n['kind'] in ('MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'):
        n = n['inner'][0]
    return n

class View:
    """spec-side view of a container value"""
    def __init__(self, a): self.a = a
    @property
    def n(self): return self.a.dims[0]
    def dim(self, k): return self.a.dims[k]
    def raw(self, leaf=''): return self.a.d[leaf]
    def at(self, *idx, leaf=''):
        return sel(self.a.d[leaf], [iv(i) if isinstance(i, int) else i for i in idx])
    def __getitem__(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if '' in self.a.d: return self.at(*i)
        return {k[1:]: self.at(*i, leaf=k) for k in self.a.d}

def lineof(n):
    try:
        b = n['range']['begin']
        return b.get('line') or b.get('expansionLoc', {}).get('line')
    except Exception:
        return None

class Engine:
    def __init__(self, units, specs=None, models=None, opts=None):
        self.units = units
        self.specs = specs or {}
        self.fork_at = None
        self.models = models or {}
        self.opts = opts or {}
        self.obs = []
        self.lazy = {}
        self.lazy_t = {}
        self.frames = []
        self.throws = [[]]
        self.quiet = 0
        self.cur = None
        self.log = None
        self.inwr = 0
        self.region = None
        self.tid = None
        self.notes = []
        self.inlined = set()
        self.called = set()
        self.opaque_calls = set()
        self.nan = set()
        self._n = 0
        self.ghost = {}
        self.loop_used = []
        self.records = {}
        for u in units:
            for k, r in u.records.items():
                if r['fields'] or r['bases'] or k not in self.records:
                    self.records.setdefault(k, r)
                    if r['fields'] and not self.records[k]['fields']: self.records[k] = r

    # ------------------------------------------------------------ helpers
    def uid(self, name):
        self._n += 1
        return '%s@%d' % (name, self._n)

    def lazy_get(self, path):
        return self.lazy.get(path)

    def oblige(self, st, kind, label, goal, n=None, hints=()):
        if self.quiet: return
        if z3.is_true(goal): 
            # still an obligation; trivially discharged
            self.obs.append(Oblig(self.cur, kind, label, [], goal, lineof(n) if n else None)); return
        self.obs.append(Oblig(self.cur, kind, label, list(st.facts), goal, lineof(n) if n else None, hints))

    def init_of(self, path, t):
        """initial (unknown) value of a location"""
        if path in self.lazy: return self.lazy[path]
        v = self.unknown(path, t)
        self.lazy[path] = v
        self.lazy_t[path] = t
        return v

    def unknown(self, name, t):
        if t.k in ('int', 'bool', 'real'):
            return fresh(name, sort_of(t))
        if t.k in CONT and t.k != 'carr' and t.k != 'alm':
            return fresh_arr(name, t)
        if t.k == 'alm':
            return fresh_arr(name, t)
        if t.k == 'carr':
            return fresh_arr(name, t, [iv(int(t.n))])
        if t.k == 'rec':
            return RecVal({f: self.unknown(name + '.' + f, ft) for f, ft in fields(t)})
        if t.k == 'ptr':
            return PtrVal(name + '*', (), iv(0), t.a[0])
        return Opaque(name)

    def type_facts(self, st, v, t):
        """range facts that hold for any value of the type"""
        if t.k == 'int' and is_z(v):
            if not t.sgn: st.assume(v >= 0)
            if self.opts.get('ranges'):
                lo, hi = (-(2**(t.bits-1)), 2**(t.bits-1)-1) if t.sgn else (0, 2**t.bits-1)
                st.assume(And(v >= lo, v <= hi))
        elif isinstance(v, ArrVal):
            for x in v.dims:
                if not (z3.is_int_value(x)): st.assume(x >= (-1 if t.k == 'alm' else 0))
            for l, lt in leaves(t.a[0]):
                if lt.k == 'int' and (not lt.sgn or self.opts.get('ranges')):
                    ks = [z3.Const('k', I)] if len(v.dims) == 1 else [z3.Const('k%d' % i, I) for i in range(len(v.dims))]
                    e = sel(v.d[l], ks)
                    lo, hi = (-(2**(lt.bits-1)), 2**(lt.bits-1)-1) if lt.sgn else (0, 2**lt.bits-1)
                    st.assume(z3.ForAll(ks, And(e >= lo, e <= hi) if self.opts.get('ranges') else e >= 0, patterns=[e]))

    def rd(self, st, lv, n=None):
        t = lv.t
        if t.k == 'ref': t = t.a[0]
        if not lv.idx:
            if lv.path in st.v: v = st.v[lv.path]
            elif lv.path in self.lazy:
                v = self.lazy[lv.path]
            else:
                if t.k == 'rec' and lv.path not in st.v:
                    v = self.init_of(lv.path, t)
                elif t.k == 'obj':
                    return Opaque('obj:' + lv.path) if False else ObjRef(lv.path, t)
                else:
                    v = self.init_of(lv.path, t)
            if lv.leaf:
                v = getleaf(v, lv.leaf)
            if self.log is not None: self.log.append(('r', lv.path, lv.leaf, (), st.facts[:]))
            return v
        a = self.container(st, lv.path, None)
        if t.k == 'rec':
            def build(tt, pre):
                if tt.k == 'rec':
                    return RecVal({f: build(ft, pre + '.' + f) for f, ft in fields(tt)})
                return sel(a.d[pre], lv.idx)
            v = build(t, lv.leaf)
        else:
            if lv.leaf not in a.d: raise Unsupported('leaf %s of %s' % (lv.leaf, lv.path))
            v = sel(a.d[lv.leaf], lv.idx)
            if lv.path in self.nan:
                v = FV(v, sel(a.d['~nan'], lv.idx))
        if self.log is not None: self.log.append(('r', lv.path, lv.leaf, lv.idx, st.facts[:]))
        return v

    def container(self, st, path, t):
        if path in st.v: return st.v[path]
        if path in self.lazy: return self.lazy[path]
        if t is None: raise Unsupported('unknown container ' + path)
        return self.init_of(path, t)

    def wr(self, st, lv, val, n=None):
        self.inwr += 1
        try: self.wr1(st, lv, val, n)
        finally: self.inwr -= 1

    def wr1(self, st, lv, val, n=None):
        t = lv.t
        if t.k == 'ref': t = t.a[0]
        if self.log is not None: self.log.append(('w', lv.path, lv.leaf, lv.idx, st.facts[:]))
        if not lv.idx:
            if lv.leaf:
                cur = self.rd(st, LV(lv.path, (), '', None) if False else LV(lv.path, (), '', self._root_t(lv)))
                cur = self._setleaf(cur, lv.leaf.split('.')[1:], self.conv(val, t))
                st.v[lv.path] = cur
            else:
                st.v[lv.path] = self.conv(val, t)
            return
        a = self.container(st, lv.path, None)
        d = dict(a.d)
        if t.k == 'rec':
            if not isinstance(val, RecVal):
                val = self.torec(val, t)
            for l, lt in leaves(t):
                k = lv.leaf + l
                d[k] = sto(d[k], lv.idx, coerce(getleaf(val, l) if l else val, sort_of(lt)))
        else:
            if isinstance(val, FV) and lv.path in self.nan:
                d['~nan'] = sto(d['~nan'], lv.idx, val.nan)
                val = val.v
            elif lv.path in self.nan:
                d['~nan'] = sto(d['~nan'], lv.idx, FALSE)
            if lv.leaf not in d: raise Unsupported('leaf')
            if self.opts.get('name_store') and is_z(val) and val.sort() == R:
                w = fresh('stored', R); f = w == z3.simplify(val, som=True)
                st.assume(f); val = w
                self.ghost.setdefault('stored', []).append((lv.path, lv.leaf, [z3.simplify(x, som=True) for x in lv.idx], w, f))
            d[lv.leaf] = sto(d[lv.leaf], lv.idx, coerce(val, sort_of(t)))
        st.v[lv.path] = ArrVal(a.t, a.dims, d)

    def _root_t(self, lv):
        v = self.lazy_t.get(lv.path)
        return v or Ty('opaque')

    def _setleaf(self, v, fs, x):
        if not fs: return x
        if not isinstance(v, RecVal): raise Unsupported('setleaf')
        r = RecVal(v); r[fs[0]] = self._setleaf(v[fs[0]], fs[1:], x); return r

    def torec(self, val, t):
        if isinstance(val, RecVal): return val
        if is_z(val) and t.n in ('xcomplex', 'complex'):
            return RecVal({'re': coerce(val, R), 'im': rv(0)})
        raise Unsupported('torec %r' % (val,))

    def conv(self, val, t):
        if t is None: return val
        if t.k in ('int', 'bool', 'real') and (is_z(val) or isinstance(val, FV)):
            if isinstance(val, FV): return val if t.k == 'real' else val.v
            return coerce(val, sort_of(t))
        if t.k == 'rec' and is_z(val): return self.torec(val, t)
        return val

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st):
        k = n['kind']
        if k in WRAPS: return self.lv(n['inner'][0], st)
        if k == 'MaterializeTemporaryExpr':
            return self.temp(n['inner'][0], st)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr'):
            if n.get('castKind') in PASS_CASTS or n.get('castKind') in ('LValueToRValue',):
                if n.get('valueCategory') == 'prvalue' and n.get('castKind') == 'LValueToRValue':
                    return self.temp(n, st)
                r = self.lv(n['inner'][0], st)
                return r
            return self.temp(n, st)
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            f = self.frames[-1]
            for fr in reversed(self.frames):
                if rd['id'] in fr.env:
                    return fr.env[rd['id']]
                if not getattr(fr, 'lexical', False): break
            return self.global_lv(n, rd, st)
        if k == 'CXXThisExpr':
            return self.frames[-1].this
        if k == 'MemberExpr':
            base = n['inner'][0]
            t = ty(n['type'])
            name = n['name']
            if n.get('isArrow'):
                p = self.ev(base, st)
                if isinstance(p, LV): b = p
                else: b = self.deref(p, st)
            else:
                b = self.lv(base, st)
            return self.member(st, b, name, t)
        if k == 'ArraySubscriptExpr':
            b = n['inner'][0]
            if b['kind'] == 'ImplicitCastExpr' and b.get('castKind') == 'ArrayToPointerDecay' and strip_parens(b['inner'][0])['kind'] != 'DeclRefExpr':
                l = self.lv(b['inner'][0], st)
                t = l.t.a[0] if l.t.k == 'ref' else l.t
                if t.k == 'carr' and l.idx:
                    i = z3.simplify(coerce(self.ev(n['inner'][1], st), I))
                    if not z3.is_int_value(i): raise Unsupported('subscript of a fixed array inside a container')
                    self.oblige(st, 'bounds', 'subscript@L%s' % lineof(n), TRUE if 0 <= i.as_long() < int(t.n) else FALSE, n)
                    return LV(l.path, l.idx, l.leaf + '.%d' % i.as_long(), t.a[0])
            p = self.ev(n['inner'][0], st)
            i = coerce(self.ev(n['inner'][1], st), I)
            if not isinstance(p, PtrVal):
                raise Unsupported('subscript of %r' % (p,))
            return self.deref(PtrVal(p.path, p.pre, p.off + i, p.t), st, n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(n['inner'][0], st)
            if isinstance(p, LV): return p
            return self.deref(p, st, n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.ev(n, st); return self.lv(n['inner'][0], st)
        if k in ('CompoundAssignOperator',) or (k == 'BinaryOperator' and n['opcode'] == '='):
            self.ev(n, st); return self.lv(n['inner'][0], st)
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.ev(n['inner'][0], st); return self.lv(n['inner'][1], st)
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
            r = self.call(n, st, want_lv=True)
            if isinstance(r, LV): return r
            return self.mktemp(st, r, ty(n['type']))
        if k == 'ConditionalOperator':
            c = coerce(self.ev(n['inner'][0], st), B)
            a = self.lv(n['inner'][1], st); b = self.lv(n['inner'][2], st)
            if a.path == b.path and len(a.idx) == len(b.idx) and a.leaf == b.leaf:
                return LV(a.path, [ite(c, x, y) for x, y in zip(a.idx, b.idx)], a.leaf, a.t)
            return self.mktemp(st, ite(c, self.rd(st, a), self.rd(st, b)), ty(n['type']))
        return self.temp(n, st)

    def temp(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, LV): return v
        if isinstance(v, ObjRef): return LV(v.path, (), '', v.t)
        return self.mktemp(st, v, ty(n['type']))

    def mktemp(self, st, v, t):
        if t.k == 'ref': t = t.a[0]
        p = self.uid('tmp')
        st.v[p] = v
        return LV(p, (), '', t)

    def member(self, st, b, name, t):
        if b.t is not None and b.t.k == 'ref': b = LV(b.path, b.idx, b.leaf, b.t.a[0])
        if b.t is not None and b.t.k == 'rec':
            return LV(b.path, b.idx, b.leaf + '.' + name, dict(fields(b.t)).get(name, t))
        if b.idx or b.leaf: raise Unsupported('member %s of %r' % (name, b))
        p = b.path + '.' + name
        f = self.fieldtype(b.t, name)
        if f is not None and f.k == 'ref':
            # reference member: bound to a separate object
            return LV(p + '&', (), '', f.a[0])
        return LV(p, (), '', t)

    def fieldtype(self, t, name):
        r = self.records.get(t.n) if t is not None else None
        while r:
            for f, ft in r['fields']:
                if f == name: return ty(ft)
            b = r['bases'][0] if r['bases'] else None
            r = self.records.get(b) if b else None
        return None

    def deref(self, p, st, n=None):
        if isinstance(p, ObjRef): return LV(p.path, (), '', p.t)
        if isinstance(p, LV): return p
        if not isinstance(p, PtrVal): raise Unsupported('deref of %r' % (p,))
        if p.t.k in ('obj', 'opaque') or getattr(p, 'scalar', False) or (p.path in st.v and not isinstance(st.v[p.path], ArrVal)) or (p.path in self.lazy and not isinstance(self.lazy[p.path], ArrVal)):
            return LV(p.path, (), '', p.t)
        if p.path not in st.v and p.path not in self.lazy:
            if p.t.k in CONT:
                return LV(p.path, (), '', p.t)
            self.init_of(p.path, Ty('buf', '', [p.t]))
        a = self.container(st, p.path, None)
        nd = len(a.dims)
        if len(p.pre) + 1 < nd:
            raise Unsupported('partial deref')
        if len(p.pre) >= nd:
            return LV(p.path, p.pre, '', p.t)
        idx = p.pre + (p.off,)
        self.bounds(st, p.path, idx, n)
        return LV(p.path, idx, '', p.t if p.t.k != 'void' else a.t.a[0])

    def bounds(self, st, path, idx, n):
        a = self.container(st, path, None)
        if a.t.k == 'alm':
            goal = And(idx[1] >= 0, idx[1] <= a.dims[1], idx[1] <= idx[0], idx[0] <= a.dims[0])
        else:
            goal = And(*[And(i >= 0, i < d) for i, d in zip(idx, a.dims)])
        if self.opts.get('bounds', True):
            self.oblige(st, 'bounds', '%s@L%s' % (path.split('@')[0], lineof(n) if n else '?'), goal, n)
        if self.opts.get('assume_bounds', True): st.assume(goal)

    def global_lv(self, n, rd, st):
        name = rd.get('name')
        for u in self.units:
            if name in u.vars:
                v = u.vars[name]
                t = ty(v['type'])
                p = 'global.' + name
                if p not in self.lazy:
                    init = v['inner'][-1]
                    self.lazy_t[p] = t
                    if t.k == 'carr':
                        self.lazy[p] = self.unknown(p, t)
                    else:
                        self.frames.append(Frame(None, None))
                        try:
                            self.lazy[p] = self.conv(self.ev(init, State(self)), t)
                        finally:
                            self.frames.pop()
                        # double constants take their rounded value
                        if t.k == 'real':
                            x = z3.simplify(self.lazy[p])
                            if z3.is_rational_value(x):
                                f = float(x.as_fraction())
                                fr = __import__('fractions').Fraction(f)
                                self.lazy[p] = z3.Q(fr.numerator, fr.denominator)
                return LV(p, (), '', t)
        t = ty(n['type'])
        if rd['kind'] == 'EnumConstantDecl':
            for u in self.units:
                if rd.get('id') in u.enums:
                    p = 'enum.%s.%s' % (name, rd['id'])
                    self.lazy[p] = iv(u.enums[rd['id']]); self.lazy_t[p] = Ty('int', 'int', bits=32)
                    return LV(p, (), '', self.lazy_t[p])
            return LV('enum.' + name, (), '', t)
        p = 'global.' + (name or '?')
        self.lazy_t[p] = t
        return LV(p, (), '', t)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n, st)

    def _inner0(self, n, st): return self.ev(n['inner'][0], st)
    ev_ParenExpr = ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_SubstNonTypeTemplateParmExpr = ev_ConstantExpr = _inner0
    ev_MaterializeTemporaryExpr = _inner0

    def ev_IntegerLiteral(self, n, st): return iv(int(n['value']))
    def ev_CharacterLiteral(self, n, st): return iv(int(n['value']))
    def ev_CXXBoolLiteralExpr(self, n, st): return z3.BoolVal(bool(n['value']))
    def ev_FloatingLiteral(self, n, st):
        f = __import__('fractions').Fraction(float(n['value']))
        s = n['value']
        fl = float(s)
        if fl in self.opts.get('literals', {}): return self.opts['literals'][fl]      # the constant is identified with the number it approximates
        fr = __import__('fractions').Fraction(fl)
        return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else rv(fr.numerator)
    def ev_StringLiteral(self, n, st): return Opaque('str')
    def ev_CXXNullPtrLiteralExpr(self, n, st): return PtrVal('null', (), iv(0), Ty('void'))
    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr
    def ev_CXXScalarValueInitExpr(self, n, st):
        t = ty(n['type'])
        return {'int': iv(0), 'real': rv(0), 'bool': FALSE}.get(t.k, Opaque('init'))
    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr
    def ev_CXXThisExpr(self, n, st):
        return self.frames[-1].this
    def ev_CXXDefaultArgExpr(self, n, st):
        if n.get('inner'): return self.ev(n['inner'][0], st)
        return self.default(ty(n['type']))
    def ev_CXXDefaultInitExpr(self, n, st): return self.ev(n['inner'][0], st)
    def default(self, t):
        return Opaque('default')

    def ev_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Opaque('fn:' + rd.get('name', ''))
        l = self.lv(n, st)
        return self.rv_of(l, st, n)
    def rv_of(self, l, st, n):
        t = l.t.a[0] if l.t.k == 'ref' else l.t
        if t.k in CONT and not l.idx:
            if t.k == 'carr': 
                self.container(st, l.path, t)
                return PtrVal(l.path, (), iv(0), t.a[0])
            return ('cont', l)
        if t.k == 'obj': return ObjRef(l.path, t)
        return self.rd(st, l, n)
    def ev_MemberExpr(self, n, st): return self.rv_of(self.lv(n, st), st, n)
    def ev_ArraySubscriptExpr(self, n, st):
        return self.rv_of(self.lv(n, st), st, n)

    def ev_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            l = self.lv(sub, st)
            return self.rv_of(l, st, sub)
        if ck == 'ArrayToPointerDecay':
            s = unwrap(sub)
            if s['kind'] == 'StringLiteral': return Opaque('str')
            if s['kind'] == 'PredefinedExpr': return Opaque('str')
            l = self.lv(sub, st)
            t = l.t.a[0] if l.t.k == 'ref' else l.t
            if t.k == 'carr':
                if l.idx:
                    return PtrVal(l.path, l.idx, iv(0), t.a[0])
                self.container(st, l.path, t)
                return PtrVal(l.path, (), iv(0), t.a[0])
            raise Unsupported('array decay')
        if ck == 'NullToPointer': return PtrVal('null', (), iv(0), Ty('void'))
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean',
                  'FloatingToBoolean', 'BooleanToSignedIntegral', 'PointerToBoolean'):
            v = self.ev(sub, st)
            return self.cast(v, ty(sub['type']), ty(n['type']), st, n, ck)
        if ck == 'ToVoid':
            self.ev(sub, st); return None
        if ck in PASS_CASTS:
            v = self.ev(sub, st)
            if isinstance(v, RawMem): return v.typed(self, st, ty(n['type']).a[0], n)
            if ck == 'BitCast' and isinstance(v, PtrVal):
                t = ty(n['type'])
                if t.k == 'ptr' and t.a and t.a[0].k not in ('void', 'opaque', 'int', 'real', 'bool') and v.t.k in ('void', 'opaque'): return PtrVal(v.path, v.pre, v.off, t.a[0])
            return v
        raise Unsupported('cast ' + str(ck))
    ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXStaticCastExpr = ev_ImplicitCastExpr
    ev_CXXConstCastExpr = ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr

    def cast(self, v, f, t, st, n, ck):
        if isinstance(v, (Opaque,)) or v is None:
            if t.k in ('int', 'real', 'bool'):
                return fresh('opq', sort_of(t))
            return v
        if isinstance(v, PtrVal) and t.k == 'bool':
            return z3.BoolVal(v.path != 'null') if v.path == 'null' or '*' not in v.path else fresh('nonnull', B)
        if t.k == 'bool': return coerce(v, B)
        if t.k == 'real':
            if isinstance(v, FV): return v
            if self.opts.get('fp') and is_z(v) and v.sort() == I and not z3.is_int_value(v):
                r = self.rnd(st, coerce(v, R))
                st.assume(Imp(And(v >= -(2**53), v <= 2**53), r == z3.ToReal(v)))
                return r
            return coerce(v, R)
        if t.k == 'int':
            if isinstance(v, FV):
                self.oblige(st, 'cast', 'no-NaN-to-integer@L%s' % lineof(n), Not(v.nan), n)
                v = v.v
            if v.sort() == R:
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                v0 = v
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: r = v.arg(0)
                v = r
                if self.opts.get('casts'):
                    lo, hi = (-(2**(t.bits-1)), 2**(t.bits-1)-1) if t.sgn else (0, 2**t.bits-1)
                    self.oblige(st, 'cast', 'real-to-%s-in-range@L%s' % (t.n, lineof(n)), And(v >= lo, v <= hi), n)
                return v
            v = coerce(v, I)
            if z3.is_int_value(v):
                x = v.as_long()
                if not t.sgn: x %= 2**t.bits
                return iv(x)
            if f.k == 'int' and t.k == 'int' and self.opts.get('wrap'):
                # conversions exactly as the machine does them
                if t.bits > f.bits and (t.sgn or not f.sgn): return v
                if t.bits == f.bits and t.sgn == f.sgn: return v
                m = 2**t.bits
                u = v % m
                return u if not t.sgn else z3.If(u < m // 2, u, u - m)
            if f.k == 'int' and t.k == 'int':
                if not t.sgn and f.sgn:
                    return z3.If(v >= 0, v, v + 2**t.bits)
                if self.opts.get('casts') and (t.bits < f.bits or (t.bits == f.bits and t.sgn and not f.sgn)):
                    self.oblige(st, 'cast', '%s-to-%s-fits@L%s' % (f.n, t.n, lineof(n)), And(v >= -(2**(t.bits-1)), v <= 2**(t.bits-1)-1) if t.sgn else And(v >= 0, v < 2**t.bits), n)
            return v
        return v

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') != 'sizeof': raise Unsupported(n.get('name'))
        t = ty(n['argType']) if 'argType' in n else ty(n['inner'][0]['type'])
        return iv(self.sizeof(t))
    def sizeof(self, t):
        if t.k == 'int': return t.bits // 8
        if t.k == 'bool': return 1
        if t.k == 'real': return {'double': 8, 'float': 4, 'long double': 16}[t.n]
        if t.k == 'rec': return sum(self.sizeof(ft) for f, ft in fields(t))
        if t.k == 'ptr': return 8
        if t.k == 'carr': return int(t.n) * self.sizeof(t.a[0])
        if t.k == 'obj' and self.records.get(t.n, {}).get('fields') and not self.records[t.n]['bases']:
            off = al = 0
            for _, ft in self.records[t.n]['fields']:
                z = self.sizeof(ty(ft)); al = max(al, min(z, 8)); off = -(-off // min(z, 8)) * min(z, 8) + z
            return -(-off // al) * al
        raise Unsupported('sizeof %r' % t)

    def arith(self, op, a, b, t, st, n):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if t.k in ('int', 'real', 'bool'): return fresh('opq', sort_of(t))
            return Opaque('arith')
        if isinstance(a, RecVal) or isinstance(b, RecVal): raise Unsupported('record arithmetic')
        if isinstance(a, PtrVal) and is_z(b):
            b = coerce(b, I)
            return PtrVal(a.path, a.pre, a.off + b if op == '+' else a.off - b, a.t)
        if isinstance(b, PtrVal) and is_z(a) and op == '+':
            return PtrVal(b.path, b.pre, b.off + coerce(a, I), b.t)
        if isinstance(a, PtrVal) and isinstance(b, PtrVal) and op == '-':
            if a.path != b.path: raise Unsupported('pointer difference')
            return a.off - b.off
        if isinstance(a, FV) or isinstance(b, FV):
            an = a.nan if isinstance(a, FV) else FALSE; bn = b.nan if isinstance(b, FV) else FALSE
            av = a.v if isinstance(a, FV) else coerce(a, R); bv = b.v if isinstance(b, FV) else coerce(b, R)
            return FV(self.arith(op, av, bv, t, st, n), Or(an, bn))
        if t.k == 'real':
            a, b = coerce(a, R), coerce(b, R)
            rd = (lambda x, fl=(): self.rnd(st, x, fl)) if self.opts.get('fp') else (lambda x, fl=(): x)
            if op == '+': return rd(a + b, (a, b))
            if op == '-': return rd(a - b, (a,))
            if op == '*': return rd(a * b)
            if op == '/':
                self.divcheck(st, b != 0, n)
                return rd(a / b)
            raise Unsupported('real op ' + op)
        if t.k in ('int', 'bool'):
            a, b = coerce(a, I), coerce(b, I)
            if op == '+': r = a + b
            elif op == '-':
                r = a - b
                if t.k == 'int' and not t.sgn:
                    if not self.opts.get('unsigned_math'):
                        r = z3.If(r >= 0, r, r + 2**t.bits)
            elif op == '*': r = a * b
            elif op == '/':
                self.divcheck(st, b != 0, n)
                if z3.is_int_value(b) and b.as_long() > 0:
                    r = a / b if (t.k == 'int' and not t.sgn) else z3.If(a >= 0, a / b, -((-a) / b))
                elif not t.sgn: r = a / b
                else: r = z3.If(a >= 0, z3.If(b >= 0, a / b, -(a / -b)), z3.If(b >= 0, -((-a) / b), (-a) / (-b)))
            elif op == '%':
                self.divcheck(st, b != 0, n)
                if not t.sgn: r = a % b
                else: r = z3.If(a >= 0, a % z3.If(b >= 0, b, -b), -((-a) % z3.If(b >= 0, b, -b)))
            elif op in ('&', '|', '<<', '>>', '^'): r = self.bitop(op, a, b, t, st)
            else: raise Unsupported('int op ' + op)
            if self.opts.get('overflow') and t.k == 'int' and t.sgn and op in '+-*' :
                self.oblige(st, 'overflow', '%s@L%s' % (op, lineof(n)), And(r >= -(2**(t.bits-1)), r <= 2**(t.bits-1)-1), n)
            return r
        raise Unsupported('arith on %r' % t)

    def rnd(self, st, x, floats=()):
        """rounding to double: relative error at most 2^-53, monotone with respect to representable values"""
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            fr = __import__('fractions').Fraction(float(x.as_fraction()))
            return z3.Q(fr.numerator, fr.denominator)
        r = fresh('rnd', R)
        u = z3.Q(1, 2**53)
        st.assume(z3.If(x >= 0, And(r >= 0, r - x <= u * x, x - r <= u * x), And(r <= 0, r - x <= -u * x, x - r <= -u * x)))
        for f in floats: st.assume(And(Imp(x <= f, r <= f), Imp(x >= f, r >= f)))
        return r

    def divcheck(self, st, g, n):
        if self.opts.get('div', True):
            self.oblige(st, 'division', 'nonzero-divisor@L%s' % lineof(n), g, n)
            st.assume(g)

    def bitop(self, op, a, b, t, st):
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return iv({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y):
                    m = y.as_long()
                    if m >= 0 and (m & (m + 1)) == 0: return x % (m + 1)
                    if m > 0 and (m & (m - 1)) == 0: return ((x / m) % 2) * m
        if op == '|':
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y):
                    m = y.as_long()
                    if m == 0: return x
                    if m > 0 and (m & (m - 1)) == 0: return z3.If((x / m) % 2 == 0, x + m, x)
        def truth(x):
            # If(c, 1, 0)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(1).eq(iv(1)) and x.arg(2).eq(iv(0)): return x.arg(0)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(1).eq(iv(0)) and x.arg(2).eq(iv(1)): return z3.Not(x.arg(0))
            if z3.is_int_value(x) and x.as_long() in (0, 1): return z3.BoolVal(x.as_long() == 1)
        u, v = truth(a), truth(b)
        if op in '&|^' and u is not None and v is not None:
            return z3.If(z3.And(u, v) if op == '&' else z3.Or(u, v) if op == '|' else u != v, iv(1), iv(0))
        if op == '<<' and z3.is_int_value(b): return a * (2 ** b.as_long())
        if op == '>>' and z3.is_int_value(b): return a / (2 ** b.as_long())
        if op == '<<':
            return a * self.pow2(b)
        if op == '>>':
            return a / self.pow2(b)
        raise Unsupported('bit operation ' + op)
    def pow2(self, b):
        return z3.Function('pow2', I, I)(b)

    def ev_BinaryOperator(self, n, st):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            return self.assign(n, l, r, st)
        if op == ',':
            self.ev(l, st); return self.ev(r, st)
        if op in ('&&', '||'):
            a = coerce(self.toz(self.ev(l, st), B), B)
            s2 = st.copy()
            s2.assume(a if op == '&&' else Not(a))
            nthr = len(self.throws[-1])
            b = coerce(self.toz(self.ev(r, s2), B), B)
            if len(s2.facts) > len(st.facts) + 1 or s2.v != st.v:
                s1 = st.copy(); s1.assume(Not(a) if op == '&&' else a)
                m = merge2(a if op == '&&' else Not(a), s2, s1)
                st.v, st.facts = m.v, m.facts
            return And(a, b) if op == '&&' else Or(a, b)
        a = self.ev(l, st)
        b = self.ev(r, st)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, a, b, st)
        return self.arith(op, a, b, ty(n['type']), st, n)

    def toz(self, v, s):
        if isinstance(v, Opaque) or v is None: return fresh('opq', s)
        if isinstance(v, ObjRef): return fresh('opq', s)
        return v

    def compare(self, op, a, b, st):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return fresh('opq', B)
        if isinstance(a, LV) and isinstance(b, LV) and not a.idx and not b.idx and op in ('==', '!='):    # addresses of objects
            return z3.BoolVal((a.path == b.path and a.leaf == b.leaf) == (op == '=='))
        if {type(a), type(b)} == {LV, PtrVal} and op in ('==', '!='):
            p, o = (a, b) if isinstance(b, PtrVal) else (b, a)
            if p.path != o.path and not p.idx: return z3.BoolVal(op == '!=')
        if isinstance(a, PtrVal) and isinstance(b, PtrVal):
            if a.path == b.path and len(a.pre) == len(b.pre):
                pa = list(zip(list(a.pre) + [a.off], list(b.pre) + [b.off]))
                e = And(*[x == y for x, y in pa])
                if op == '==': return e
                if op == '!=': return Not(e)
                d, e2 = a.off, b.off
                return {'<': d < e2, '>': d > e2, '<=': d <= e2, '>=': d >= e2}[op]
            if op in ('==', '!='):
                if 'null' in (a.path, b.path):
                    o = b if a.path == 'null' else a
                    nn = self.nonnull(o)
                    return Not(nn) if op == '==' else nn
                if a.path != b.path: return z3.BoolVal(op == '!=')
            raise Unsupported('pointer comparison')
        if isinstance(a, FV) or isinstance(b, FV):
            an = a.nan if isinstance(a, FV) else FALSE; bn = b.nan if isinstance(b, FV) else FALSE
            av = a.v if isinstance(a, FV) else coerce(a, R); bv = b.v if isinstance(b, FV) else coerce(b, R)
            c = self.compare(op, av, bv, st)
            if op == '!=': return Or(c, an, bn)
            return And(Not(an), Not(bn), c)
        if isinstance(a, RecVal) or isinstance(b, RecVal): raise Unsupported('record comparison')
        if not (is_z(a) and is_z(b)): raise Unsupported('comparison of %r %r' % (a, b))
        if a.sort() == B and b.sort() == B:
            if op == '==': return a == b
            if op == '!=': return a != b
        if a.sort() == B: a = coerce(a, I)
        if b.sort() == B: b = coerce(b, I)
        if a.sort() != b.sort():
            a, b = coerce(a, R), coerce(b, R)
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]

    def nonnull(self, p):
        if p.path.endswith('*'):
            return z3.Const('nonnull:' + p.path, B)
        return TRUE

    def assign(self, n, l, r, st):
        t = ty(n['type'])
        v = self.ev(r, st)
        lv = self.lv(l, st)
        v = self.assign_lv(st, lv, v, n)
        return v

    def assign_lv(self, st, lv, v, n):
        if isinstance(v, tuple) and v[0] == 'cont':
            src = v[1]
            a = self.container(st, src.path, src.t)
            if lv.idx: raise Unsupported('container element assignment')
            tt = lv.t.a[0] if lv.t.k == 'ref' else lv.t
            if self.log is not None: self.log.append(('r', src.path, '*', (), st.facts[:]))
            st.v[lv.path] = ArrVal(tt, a.dims, a.d)
            return v
        if isinstance(v, ArrVal):
            st.v[lv.path] = v; return v
        if isinstance(v, ObjRef):
            self.copyobj(st, v.path, lv.path, v.t); return v
        if isinstance(v, LV): v = self.rd(st, v)
        if isinstance(v, Opaque):
            t = lv.t.a[0] if lv.t.k == 'ref' else lv.t
            if t.k in ('int', 'real', 'bool'): v = fresh('opq', sort_of(t))
            elif t.k == 'rec': v = self.unknown('opq', t)
            else:
                st.v[lv.path] = v
                return v
        if self.opts.get('name_assign') and is_z(v) and v.sort() == R and v.num_args() and not lv.idx:
            w = fresh(lv.path.split('@')[0], R)
            st.assume(w == v); v = w
        self.wr(st, lv, v, n)
        return v

    def copyobj(self, st, src, dst, t):
        r = self.records.get(getattr(t, 'n', None))
        if r and t.k == 'obj':
            for f, ft in r['fields']:
                if src + '.' + f not in st.v and src + '.' + f not in self.lazy and ty(ft).k in ('int', 'real', 'bool', 'ptr'): self.init_of(src + '.' + f, ty(ft))
        for k in list(self.lazy) + list(st.v):
            if k == src or k.startswith(src + '.'):
                st.v[dst + k[len(src):]] = st.v.get(k, self.lazy.get(k))
        st.v[dst + '%obj'] = Opaque('copy of ' + src)

    def ev_CompoundAssignOperator(self, n, st):
        l, r = n['inner']
        op = n['opcode'][:-1]
        lv = self.lv(l, st)
        cur = self.rd(st, lv, l)
        b = self.ev(r, st)
        ct = ty(n.get('computeResultType') or n['type'])
        lt = lv.t.a[0] if lv.t.k == 'ref' else lv.t
        if isinstance(cur, PtrVal):
            v = self.arith(op, cur, b, ct, st, n)
        else:
            if is_z(cur) and ct.k == 'real': cur = coerce(cur, R)
            v = self.arith(op, cur, b, ct, st, n)
            v = self.cast(v, ct, lt, st, n, '') if ct.k != lt.k else v
        self.wr(st, lv, v, n)
        return v

    def ev_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '&':
            return self.addr(sub, st)
        if op == '*':
            l = self.lv(n, st)
            return self.rv_of(l, st, n)
        if op in ('++', '--'):
            lv = self.lv(sub, st)
            old = self.rd(st, lv, sub)
            t = lv.t.a[0] if lv.t.k == 'ref' else lv.t
            one = rv(1) if t.k == 'real' else iv(1)
            new = self.arith('+' if op == '++' else '-', old, one, t if t.k != 'ptr' else ty('long'), st, n)
            self.wr(st, lv, new, n)
            return old if n.get('isPostfix') else new
        v = self.ev(sub, st)
        if op == '!':
            if isinstance(v, PtrVal): return Not(self.nonnull(v)) if v.path != 'null' else TRUE
            return Not(coerce(self.toz(v, B), B))
        if op == '-':
            if isinstance(v, Opaque): return fresh('opq', sort_of(ty(n['type'])))
            if isinstance(v, FV): return FV(-v.v, v.nan)
            t = ty(n['type'])
            v = coerce(v, R if t.k == 'real' else I)
            return z3.simplify(-v) if (z3.is_int_value(v) or z3.is_rational_value(v)) else -v
        if op == '+': return v
        if op == '~':
            t = ty(n['type'])
            if t.sgn: return -coerce(v, I) - 1
            return (2**t.bits - 1) - coerce(v, I)
        if op in ('__extension__',): return v
        raise Unsupported('unary ' + op)

    def addr(self, sub, st):
        s = strip_parens(sub)
        # &a[i] may point one past the end: no bounds obligation for taking the address
        if s['kind'] in ('CXXOperatorCallExpr', 'ArraySubscriptExpr'):
            save = self.opts; self.opts = dict(save, bounds=False, assume_bounds=False)
            try: l = self.lv(s, st)
            finally: self.opts = save
        else:
            l = self.lv(s, st)
        t = l.t.a[0] if l.t.k == 'ref' else l.t
        if l.idx:
            if l.leaf: return PtrLeaf(l)
            return PtrVal(l.path, l.idx[:-1], l.idx[-1], t)
        if t.k == 'obj':
            if self.opts.get('real_mpi') and l.path.startswith('global.'): return PtrVal(l.path, (), iv(0), t)
            return LV(l.path, (), '', t)
        return LV(l.path, (), l.leaf, t)

    def ev_ConditionalOperator(self, n, st):
        c = coerce(self.toz(self.ev(n['inner'][0], st), B), B)
        c = z3.simplify(c) if not self.quiet else c
        if z3.is_true(c): return self.ev(n['inner'][1], st)
        if z3.is_false(c): return self.ev(n['inner'][2], st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c); s2.assume(Not(c))
        a = self.ev(n['inner'][1], s1); b = self.ev(n['inner'][2], s2)
        t = ty(n['type'])
        if isinstance(a, Opaque) and is_z(b): a = fresh('opq', b.sort())
        if isinstance(b, Opaque) and is_z(a): b = fresh('opq', a.sort())
        m = merge2(c, s1, s2)
        st.v, st.facts = m.v, m.facts
        return ite(c, self.conv(a, t), self.conv(b, t))

    def ev_InitListExpr(self, n, st):
        t = ty(n['type'])
        vals = [self.ev(c, st) for c in n.get('inner', [])]
        if t.k == 'rec':
            return RecVal({f: self.conv(v, ft) for (f, ft), v in zip(fields(t), vals)})
        if t.k == 'carr':
            a = self.unknown('init', t)
            d = dict(a.d)
            for i, v in enumerate(vals): d[''] = sto(d[''], [iv(i)], coerce(v, sort_of(t.a[0])))
            return ArrVal(t, a.dims, d)
        if len(vals) == 1: return vals[0]
        return Opaque('initlist')

    def ev_LambdaExpr(self, n, st):
        return ('lambda', n, self.frames[-1])

    def ev_CXXConstructExpr(self, n, st):
        return self.construct(n, st, ty(n['type']), None)
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_CXXNewExpr(self, n, st):
        h = self.opts.get('cpp_new') or self.models.get('new')
        if h: return h(self, st, n)
        raise Unsupported('new')
    def ev_CXXDeleteExpr(self, n, st):
        h = self.opts.get('cpp_delete') or self.models.get('delete')
        if h: return h(self, st, n)
        raise Unsupported('delete')

    def ev_CXXThrowExpr(self, n, st):
        what = ''
        if n.get('inner'):
            what = norm(strip_casts(n['inner'][0])['type']['qualType'])
        self.throws[-1].append(Throw(st.copy(), what))
        st.assume(FALSE)
        st.facts.append(DEAD)
        return None

    # ------------------------------------------------------------ construction
    def construct(self, n, st, t, path):
        """value of a constructor call; objects are built at `path`"""
        args = [c for c in n.get('inner', [])]
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        ctype = norm(n.get('ctorType', {}).get('qualType', ''))
        if t.k in CONT:
            return self.construct_cont(n, st, t, args)
        if t.k == 'rec':
            vals = [self.ev(a, st) for a in args]
            if len(vals) == 0:
                return RecVal({f: (rv(0) if ft.k == 'real' else iv(0)) if t.n != 'xcomplex' else self.unknown(f, ft) for f, ft in fields(t)}) if t.n != 'xcomplex' else self.unknown('rec', t)
            if len(vals) == 1:
                v = vals[0]
                if isinstance(v, LV): v = self.rd(st, v)
                if isinstance(v, RecVal): return RecVal({f: self.conv(v[f], ft) for f, ft in fields(t)})
                return self.torec(v, t)
            fs = fields(t)
            return RecVal({f: self.conv(v if not isinstance(v, LV) else self.rd(st, v), ft) for (f, ft), v in zip(fs, vals)})
        if t.k in ('int', 'real', 'bool') and len(args) == 1:
            return self.conv(self.ev(args[0], st), t)
        if t.k == 'obj':
            return self.construct_obj(n, st, t, args, path)
        # strings, exceptions, iterators ... : evaluate arguments for effects
        for a in args:
            try: self.ev(a, st)
            except Unsupported: pass
        return Opaque('ctor ' + t.n)

    def construct_cont(self, n, st, t, args):
        av = [self.ev(a, st) for a in args]
        if len(av) == 1 and isinstance(av[0], tuple) and av[0][0] == 'cont':
            a = self.container(st, av[0][1].path, av[0][1].t)
            return ArrVal(t, a.dims, a.d)
        if len(av) == 1 and isinstance(av[0], ArrVal): return av[0]
        nd = NDIM[t.k]
        if not av:
            z = [iv(-1)] * nd if t.k == 'alm' else [iv(0)] * nd
            return fresh_arr(self.uid('new'), t, z)
        av = [a for a in av if not isinstance(a, Opaque)]
        if len(av) >= nd:
            dims = [coerce(x, I) for x in av[:nd]]
            if len(av) > nd:
                v = av[nd]
                if t.a[0].k == 'rec' and is_z(v): v = self.torec(v, t.a[0])
                return const_arr(t, dims, v)
            if t.k == 'vec':
                return const_arr(t, dims, self.zero(t.a[0]))
            return fresh_arr(self.uid('new'), t, dims)
        raise Unsupported('container constructor')

    def zero(self, t):
        if t.k == 'rec': return RecVal({f: self.zero(ft) for f, ft in fields(t)})
        return {'int': iv(0), 'real': rv(0), 'bool': FALSE}[t.k]

    def construct_obj(self, n, st, t, args, path):
        path = path or self.uid('obj')
        h = self.models.get('ctor:' + t.n)
        if h:
            h(self, st, path, args, n); return ObjRef(path, t)
        if len(args) == 1:
            at = ty(args[0]['type'])
            if (at.a[0] if at.k == 'ref' else at).k == 'obj' and (at.a[0] if at.k == 'ref' else at).n == t.n:
                v = self.ev(args[0], st)
                if isinstance(v, LV) and v.t.k == 'obj': v = ObjRef(v.path, v.t)
                if isinstance(v, ObjRef):
                    own = self.find_fn(t.n + '::' + t.n.split('<')[0], n.get('ctorType', {}).get('qualType'), 1) if self.opts.get('real_arr') else None
                    if own is not None and own.body is not None and own.inits is not None:
                        self.inline(own, st, LV(path, (), '', t), args, n)
                    else: self.copyobj(st, v.path, path, t)
                    return ObjRef(path, t)
        cands = self.find_fn(t.n + '::' + t.n.split('<')[0], n.get('ctorType', {}).get('qualType'), len(args))
        if cands is not None:
            self.inline(cands, st, LV(path, (), '', t), args, n)
            return ObjRef(path, t)
        for a in args:
            try: self.ev(a, st)
            except Unsupported: pass
        return ObjRef(path, t)

    # ------------------------------------------------------------ calls
    def find_fn(self, qual, ntype, nargs):
        best = None
        for u in self.units:
            l = u.funcs.get(qual, [])
            if ntype:
                m = [f for f in l if norm(f.type) == norm(ntype)]
                if m: return m[0]
            c = [f for f in l if len(f.params) >= nargs and (len(f.params) == nargs or True)]
            c = [f for f in c if len(f.params) == nargs] or c
            if best is None and len(c) == 1: best = c[0]
        return best

    def callee(self, n):
        """(kind, qualified name, class type or None, this-node or None, args, decl type)"""
        k = n['kind']
        f = n['inner'][0]
        args = n['inner'][1:]
        if k == 'CXXMemberCallExpr':
            m = f
            while m['kind'] in WRAPS or m['kind'] == 'ImplicitCastExpr': m = m['inner'][0]
            if m['kind'] != 'MemberExpr': raise Unsupported('member call through pointer')
            base = m['inner'][0]
            bt = base['type']
            return 'method', m['name'], base, bool(m.get('isArrow')), args, m.get('referencedMemberDecl'), None
        d = strip_casts(f)
        if d['kind'] != 'DeclRefExpr':
            return 'expr', None, f, False, args, None, None
        rd = d['referencedDecl']
        if k == 'CXXOperatorCallExpr' and rd['kind'] == 'CXXMethodDecl':
            return 'method', rd['name'], args[0], False, args[1:], rd['id'], rd['type']['qualType']
        if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
            return 'expr', rd.get('name'), f, False, args, None, None
        return 'function', rd['name'], None, False, args, rd['id'], rd['type']['qualType']

    def ev_CXXMemberCallExpr(self, n, st): return self.rcall(n, st)
    ev_CallExpr = ev_CXXOperatorCallExpr = ev_CXXMemberCallExpr

    def rcall(self, n, st):
        r = self.call(n, st)
        if isinstance(r, LV):
            return self.rv_of(r, st, n)
        return r

    def is_noise(self, n):
        t = norm(n['type']['qualType'])
        return any(x in t for x in NOISE_TYPES)

    def call(self, n, st, want_lv=False):
        kind, name, thisn, arrow, args, did, dtype = self.callee(n)
        rt = ty(n['type'])
        if self.is_noise(n):
            # stream output and string building: no effect on verified state
            self.noise(n, st); return Opaque('stream')
        if kind == 'expr':
            h = self.models.get('indirect')
            fv = self.ev(thisn, st)
            if isinstance(fv, tuple) and fv[0] == 'lambda': return self.call_lambda(fv, args, st)
            raise Unsupported('indirect call')
        if kind == 'method':
            bt = ty(thisn['type'])
            if bt.k == 'ref': bt = bt.a[0]
            if arrow and bt.k == 'ptr': bt = bt.a[0]
            if bt.k in CONT or bt.k == 'rec':
                if arrow: 
                    p = self.ev(thisn, st); b = p if isinstance(p, LV) else self.deref(p, st)
                else: b = self.lv(thisn, st)
                # the static type may be a base class; use the object's own type
                b0 = b.t.a[0] if b.t.k == 'ref' else b.t
                if b0.k not in CONT and b0.k != 'rec': b0 = bt
                b = LV(b.path, b.idx, b.leaf, b0)
                if self.opts.get('cpp_call'):
                    hit, r = self.opts['cpp_call'](self, st, n, bt.n + '::' + name, b, args, rt)
                    if hit: return r
                if b0.k in CONT and not b.idx: self.container(st, b.path, b0)
                return self.cont_method(n, st, b, b0, name, args)
            if bt.k == 'obj':
                if arrow:
                    p = self.ev(thisn, st)
                    b = p if isinstance(p, LV) else self.deref(p, st)
                else:
                    b = self.lv(thisn, st)
                cls = bt.n
                return self.call_fn(n, st, cls + '::' + name, LV(b.path, b.idx, b.leaf, bt), args, did, dtype, want_lv)
            h = self.models.get('method:' + name)
            if h: return h(self, st, n, thisn, args)
            for a in [thisn] + args: self.effects(a, st)
            return Opaque('method ' + name) if rt.k not in ('int', 'real', 'bool') else fresh('opq', sort_of(rt))
        return self.call_fn(n, st, name, None, args, did, dtype, want_lv)

    def noise(self, n, st):
        """walk a stream expression: complain about visible side effects"""
        def walk(x):
            if not isinstance(x, dict): return
            if x.get('kind') in ('CompoundAssignOperator',) or (x.get('kind') == 'UnaryOperator' and x.get('opcode') in ('++', '--')) or (x.get('kind') == 'BinaryOperator' and x.get('opcode') == '='):
                self.ev(x, st); return
            for c in x.get('inner', []): walk(c)
        walk(n)
    effects = noise

    def spec_for(self, qual):
        s = self.specs.get(qual)
        if s is not None: return s
        return None

    def here(self):
        """translation units whose declaration identities apply at this point (identities are local to a unit)"""
        for fr in reversed(self.frames):
            if fr.fn is not None: return [fr.fn.unit] if fr.fn.unit else self.units
        return self.units

    def decl_of(self, did, name):
        for u in self.here():
            f = u.decls.get(did)
            if f is not None and f.name == name: return f
        return None

    def default_arg(self, f, k, st):
        """value of the default of parameter k, from whichever declaration of the function states it"""
        for u in self.units:
            for g in u.decls.values():
                if g.qual == f.qual and len(g.params) == len(f.params) and norm(g.type) == norm(f.type):
                    d = [c for c in g.params[k].get('inner', []) if 'kind' in c]
                    if d: return self.ev(d[0], st)
        raise Unsupported('default argument of ' + f.qual)

    def overload_spec(self, f):
        """contract of one overload: callable contracts are chosen by the number of parameters and the type"""
        for s in self.specs.values():
            if s.callable and s.name == f.qual and (s.nargs is None or s.nargs == len(f.params)) and (not s.type or s.type in f.type): return s
        return None

    def call_fn(self, n, st, qual, this, args, did, dtype, want_lv):
        rt = ty(n['type'])
        if self.opts.get('cpp_call'):
            hit, r = self.opts['cpp_call'](self, st, n, qual, this, args, rt)
            if hit: return r
        sp = self.spec_for(qual)
        h = self.models.get(qual) or self.models.get(qual.split('::')[-1] if this is None else None)
        if h and self.opts.get('real_mpi') and qual.startswith('MPI_Manager::'): h = None
        if h and sp is None:
            return h(self, st, n, this, args)
        f = None
        for u in self.here():
            f = u.byid.get(did)
            if f is not None and f.name == qual.split('::')[-1] and len(f.params) >= len(args): break
            f = None
        if f is None or f.body is None:
            f = self.find_fn(qual, dtype, len(args)) or f
        if f is None and this is not None:
            # inherited method
            r = self.records.get(this.t.n)
            while r and r['bases'] and f is None:
                b = r['bases'][0]
                q2 = b + '::' + qual.split('::')[-1]
                if self.models.get(q2): return self.models[q2](self, st, n, this, args)
                if self.spec_for(q2): sp = self.spec_for(q2); qual = q2
                f = self.find_fn(q2, dtype, len(args))
                r = self.records.get(b)
        if sp is None:
            g = self.decl_of(did, qual.split('::')[-1])
            for x in ((f, g) if f is not None and len(f.params) == len(args) else (g, f)):
                if x is None: continue
                sp = self.overload_spec(x)
                if sp is not None: f = x; break
        if sp is not None and not (self.cur_spec is sp and self.opts.get('inline_self')):
            return self.call_spec(n, st, sp, qual, f, this, args, rt)
        if f is not None and f.body is not None:
            return self.inline(f, st, this, args, n, want_lv)
        # unknown external function: no contract
        self.opaque_calls.add(qual)
        av = []
        for a in args:
            av.append(self.lv_or_val(a, st))
        for a, x in zip(args, av):
            self.havoc_arg(st, a, x)
        if rt.k in ('int', 'real', 'bool'): return fresh(qual, sort_of(rt))
        if rt.k == 'void': return None
        return Opaque(qual)

    def lv_or_val(self, a, st):
        if a.get('valueCategory') == 'lvalue':
            return self.lv(a, st)
        return self.ev(a, st)

    def havoc_arg(self, st, a, x):
        if isinstance(x, LV) and 'const ' not in a['type']['qualType'] and x.path.split('.')[0] != 'global':
            t = x.t.a[0] if x.t.k == 'ref' else x.t
            if t.k in ('int', 'real', 'bool', 'rec') and not x.idx and not x.leaf: st.v[x.path] = self.unknown('havoc', t)
            elif t.k in CONT and not x.idx: st.v[x.path] = self.unknown('havoc', t)
            elif x.idx: self.wr(st, x, self.unknown('havoc', t))
        elif isinstance(x, PtrVal) and x.path != 'null' and 'const ' not in a['type']['qualType']:
            if x.path in st.v or x.path in self.lazy:
                c = self.container(st, x.path, None)
                if isinstance(c, ArrVal):
                    st.v[x.path] = fresh_arr('havoc', c.t, c.dims)

    def bind_args(self, f, args, st, fr):
        for p, a in zip(f.params, args):
            pt = ty(p['type'])
            if pt.k == 'ref':
                if pt.a[0].k in ('int', 'real', 'bool') and 'const' in p['type']['qualType'] and a.get('valueCategory') != 'lvalue':
                    b = self.temp(a, st)
                else:
                    b = self.lv(a, st) if a['kind'] != 'MaterializeTemporaryExpr' else self.temp(a, st)
                fr_b = LV(b.path, b.idx, b.leaf, b.t.a[0] if b.t.k == 'ref' else b.t)
            else:
                v = self.ev(a, st)
                path = self.uid(p.get('name', 'arg'))
                self.store_new(st, path, pt, v)
                fr_b = LV(path, (), '', pt)
            fr.env[p['id']] = fr_b
            fr.names.setdefault(p.get('name'), []).append(p['id'])

    def store_new(self, st, path, t, v):
        if isinstance(v, tuple) and v[0] == 'cont':
            if self.log is not None: self.log.append(('r', v[1].path, '*', (), st.facts[:]))
            a = self.container(st, v[1].path, v[1].t); st.v[path] = ArrVal(t if t.k in CONT else a.t, a.dims, a.d)
        elif isinstance(v, ObjRef):
            self.copyobj(st, v.path, path, t)
        elif isinstance(v, LV) and t.k == 'ptr':
            st.v[path] = v
        elif isinstance(v, LV):
            st.v[path] = self.rd(st, v)
        elif isinstance(v, Opaque) and t.k in ('int', 'real', 'bool'):
            st.v[path] = fresh('opq', sort_of(t))
        else:
            st.v[path] = self.conv(v, t)
        self.lazy_t[path] = t

    def inline(self, f, st, this, args, n, want_lv=False):
        if len(self.frames) > 14: raise Unsupported('inlining depth')
        if any(fr.fn is f for fr in self.frames): raise Unsupported('recursion ' + f.qual)
        self.inlined.add(f.qual)
        fork = self.fork_at[1] if self.fork_at is not None and self.fork_at[0] is n else None
        fr = Frame(f, this)
        nargs = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        # default arguments of the declaration
        self.bind_args(f, nargs, st, fr)
        for p in f.params[len(nargs):]:
            pt = ty(p['type'])
            path = self.uid(p.get('name', 'arg'))
            d = [c for c in p.get('inner', [])]
            v = self.ev(d[0], st) if d else self.unknown(path, pt)
            self.store_new(st, path, pt, v)
            fr.env[p['id']] = LV(path, (), '', pt)
        self.frames.append(fr)
        try:
            for c in f.inits:
                self.ctor_init(c, st, this)
            outs = self.exec(f.body, [st])
            for s in outs: fr.returns.append((s, None))
        finally:
            self.frames.pop()
        return self.finish_call(st, fr, f, fork)

    def ctor_init(self, c, st, this):
        fld = c.get('anyInit')
        inner = c.get('inner', [])
        if not inner: return
        if fld is None:
            b = c.get('baseInit')
            e = inner[0]
            e2 = unwrap(e)
            if e2['kind'] == 'CXXConstructExpr' and b:
                t = ty(b)
                if t.k == 'obj': self.construct(e2, st, t, this.path)
            return
        name, t = fld['name'], ty(fld['type'])
        e = unwrap(inner[0])
        path = this.path + '.' + name
        if e['kind'] == 'CXXConstructExpr' and t.k == 'obj':
            self.construct(e, st, t, path); return
        if t.k == 'ref': return
        v = self.ev(e, st)
        self.store_new(st, path, t, v)

    def finish_call(self, st, fr, f, fork=None):
        """the states in which the call returns, merged; those that do not merge continue on their own if the call is a whole statement (fork)"""
        rets = [(s, v) for s, v in fr.returns if not self.dead(s)]
        if not rets:
            st.facts = list(st.facts) + [FALSE, DEAD]; return None if f is None else self.deadval(f)
        if self.opts.get('real_mpi') and len(rets) > 1 and any(isinstance(v, PtrVal) for _, v in rets): rets = [x for x in rets if self.feasible(x[0])] or rets[:1]
        s0, v0 = rets[0]
        for s, v in rets[1:]:
            c = fresh('sel', B)
            m = merge2(c, s0, s)
            if fork is not None and any(isinstance(y, Opaque) and y.what == 'ite' and not (isinstance(s0.v.get(p), Opaque) or isinstance(s.v.get(p), Opaque)) for p, y in m.v.items()):
                fork.append(s); continue
            s0 = m
            if fork is not None: continue
            if v0 is None and v is None: pass
            elif isinstance(v0, LV) and isinstance(v, LV):
                if v0.path == v.path and v0.leaf == v.leaf and len(v0.idx) == len(v.idx):
                    v0 = LV(v0.path, [ite(c, x, y) for x, y in zip(v0.idx, v.idx)], v0.leaf, v0.t)
                else: raise Unsupported('reference to different objects')
            else:
                if isinstance(v0, LV): v0 = self.rd(st, v0)
                if isinstance(v, LV): v = self.rd(st, v)
                v0 = ite(c, v0, v)
                if isinstance(v0, Opaque) and v0.what == 'ite': raise Unsupported('merge of returned values')
        st.v, st.facts = s0.v, s0.facts
        return v0

    def deadval(self, f):
        rt = ty(f.type.split('(')[0].strip()) if f else Ty('void')
        if rt.k in ('int', 'real', 'bool'): return fresh('dead', sort_of(rt))
        return Opaque('dead')

    def dead(self, s):
        return any(x is DEAD for x in s.facts)

    def call_lambda(self, lam, args, st):
        n = lam[1]
        rec = n['inner'][0]
        op = next(c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()')
        f = Func(op, None, 'lambda', None)
        fr = Frame(f, None)
        fr.env.update(lam[2].env)
        fr.this = lam[2].this
        for p, a in zip(f.params, args):
            pt = ty(p['type'])
            v = a if isinstance(a, RecVal) or not isinstance(a, dict) else self.ev(a, st)
            path = self.uid(p.get('name', 'arg'))
            t = pt.a[0] if pt.k == 'ref' else pt
            self.store_new(st, path, t, v)
            fr.env[p['id']] = LV(path, (), '', t)
        self.frames.append(fr)
        try:
            outs = self.exec(f.body, [st])
            for s in outs: fr.returns.append((s, None))
        finally:
            self.frames.pop()
        return self.finish_call(st, fr, f)

    def call_spec(self, n, st, sp, qual, f, this, args, rt):
        """use the callee's contract"""
        self.called.add(sp.name)
        fr = Frame(f, this)
        names = sp.params if sp.params is not None else ([p.get('name') for p in f.params] if f else [])
        vals = {}
        pf = f.params if f else [None] * len(args)
        real_args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        for i, a in enumerate(real_args):
            nm = names[i] if i < len(names) else 'arg%d' % i
            p = pf[i] if i < len(pf) else None
            pt = ty(p['type']) if p else None
            byref = (pt is not None and pt.k == 'ref') or (pt is None and a.get('valueCategory') == 'lvalue')
            if byref:
                b = self.lv(a, st)
                b = LV(b.path, b.idx, b.leaf, b.t.a[0] if b.t.k == 'ref' else b.t)
                if b.t.k in CONT and not b.idx: self.container(st, b.path, b.t)
            else:
                v = self.ev(a, st)
                if isinstance(v, (LV,)) and pt is not None and pt.k == 'ptr':
                    b = v
                elif isinstance(v, PtrVal):
                    path = self.uid(nm); st.v[path] = v; b = LV(path, (), '', pt or Ty('ptr', a=[v.t]))
                else:
                    path = self.uid(nm)
                    self.store_new(st, path, pt or ty(a['type']), v)
                    b = LV(path, (), '', pt or ty(a['type']))
            vals[nm] = b
        for i in range(len(real_args), len(pf) if f else 0):
            nm = names[i] if i < len(names) else 'arg%d' % i
            path = self.uid(nm); pt = ty(pf[i]['type'])
            self.store_new(st, path, pt, self.default_arg(f, i, st))
            vals[nm] = LV(path, (), '', pt)
        pre = st.copy()
        c = Ctx(self, st, vals, this, pre)
        if sp.defs:
            if any(x.loopctx for x in self.frames) or self.ghost.get('defs:' + sp.key, n.get('id')) != n.get('id'): raise Unsupported('second call of %s, which defines ghost functions' % qual)
            self.ghost['defs:' + sp.key] = n.get('id')
            for g in sp.defs(c): st.assume(g)
        for lab, g in sp.requires(c):
            self.oblige(st, 'precondition', '%s:%s' % (sp.name, lab), g, n)
            st.assume(g)
        # separation of the objects the callee may write
        wr = [vals[m].path for m in sp.modifies if m in vals]
        alls = [b.path for m, b in vals.items()]
        for w in wr:
            if alls.count(w) > 1: raise Unsupported('aliased arguments of ' + qual)
        if self.log is not None:
            # the contract does not say what is read: everything it is given
            for b in vals.values():
                self.log.append(('r', b.path, b.leaf or '*', b.idx, st.facts[:]))
                p = st.v.get(b.path)
                if isinstance(p, PtrVal): self.log.append(('r', p.path, '*', (), st.facts[:]))
            if this is not None: self.log.append(('r', this.path + '.', 'prefix', (), st.facts[:]))
        thr = sp.exsures
        if thr is not None and sp.may_throw:
            ts = st.copy()
            self.spec_havoc(ts, sp, vals, this, throw=True)
            tc = Ctx(self, ts, vals, this, pre)
            for lab, g in sp.exsures(tc): ts.assume(g)
            self.throws[-1].append(Throw(ts, 'contract:' + sp.name))
        self.spec_havoc(st, sp, vals, this)
        res = None
        if rt.k in ('int', 'real', 'bool'): res = fresh('ret_' + sp.name.split('::')[-1], sort_of(rt))
        elif rt.k == 'rec': res = self.unknown('ret', rt)
        elif rt.k == 'ref' or rt.k in ('obj', 'opaque') or rt.k in CONT:
            res = sp.result_lv(Ctx(self, st, vals, this, pre)) if sp.result_lv else Opaque('ret')
        if res is not None and is_z(res): self.type_facts(st, res, rt)
        post = Ctx(self, st, vals, this, pre, res)
        for lab, g in sp.ensures(post): st.assume(g)
        if sp.after: sp.after(post, st)
        return res

    def spec_havoc(self, st, sp, vals, this, throw=False):
        for m in (sp.modifies_throw if throw and sp.modifies_throw is not None else sp.modifies):
            if m.startswith('this.'):
                path = this.path + m[4:]
                t = self.lazy_t.get(path) or self.fieldtype(this.t, m[5:].split('.')[0])
                if t is None and path not in st.v:
                    raise Unattached('modifies ' + m)
                if path in st.v and isinstance(st.v[path], ArrVal): t = st.v[path].t
                st.v[path] = self.unknown(m, t)
                self.type_facts(st, st.v[path], t)
            elif m in vals:
                b = vals[m]
                t = b.t
                if t.k == 'ptr':
                    p = st.v.get(b.path, b)
                    if isinstance(p, PtrVal):
                        c = self.container(st, p.path, Ty('buf', '', [p.t]))
                        st.v[p.path] = fresh_arr(m, c.t, c.dims)
                    elif isinstance(p, LV):
                        self.wr(st, p, self.unknown(m, p.t))
                    continue
                if b.idx or b.leaf:
                    self.wr(st, b, self.unknown(m, t)); continue
                keep = m in sp.keep_dims
                nv = self.unknown(m, t)
                if keep and isinstance(nv, ArrVal):
                    nv.dims = self.container(st, b.path, t).dims
                st.v[b.path] = nv
                self.type_facts(st, nv, t)
            elif m.startswith('path:'):
                p = m[5:]
                t = self.lazy_t.get(p)
                st.v[p] = self.unknown(m, t)
            else:
                raise Unattached('modifies ' + m)

    # ------------------------------------------------------------ containers
    def cont_method(self, n, st, b, t, name, args):
        if t.k == 'rec': return self.rec_method(n, st, b, t, name, args)
        a = self.container(st, b.path, t)
        if name == 'operator[]':
            i = coerce(self.ev(args[0], st), I)
            if t.k == 'arr2':
                return PtrVal(b.path, (i,), iv(0), t.a[0])
            self.bounds(st, b.path, (i,), n)
            return LV(b.path, (i,), '', t.a[0])
        if name == 'operator()':
            idx = tuple(coerce(self.ev(x, st), I) for x in args)
            self.bounds(st, b.path, idx, n)
            return LV(b.path, idx, '', t.a[0])
        if name in ('size', 'size1'): return a.dims[0]
        if name == 'size2': return a.dims[1]
        if name == 'size3': return a.dims[2]
        if name == 'Lmax': return a.dims[0]
        if name == 'Mmax': return a.dims[1]
        if name == 'empty': return a.dims[0] == 0
        if name in ('data', 'begin') and t.k in ('vec', 'arr'): return PtrVal(b.path, (), iv(0), t.a[0])
        if name == 'end': return PtrVal(b.path, (), a.dims[0], t.a[0])
        if name in ('alloc', 'allocAndFill') or (name == 'resize' and t.k == 'arr') or (name == 'Set' and t.k == 'alm' and len(args) == 2):
            av = [coerce(self.ev(x, st), I) for x in args[:NDIM[t.k]]]
            if t.k == 'alm':
                ts = st.copy(); ts.assume(av[1] > av[0])       # Alm::Set refuses m > l (contract: C18)
                self.throws[-1].append(Throw(ts, 'LEVELSError'))
                st.assume(av[1] <= av[0])
            else:
                self.oblige(st, 'alloc', 'nonnegative-size@L%s' % lineof(n), And(*[x >= 0 for x in av]), n)
                st.assume(And(*[x >= 0 for x in av]))
            if name == 'allocAndFill':
                st.v[b.path] = const_arr(t, av, self.ev(args[-1], st))
            else:
                st.v[b.path] = fresh_arr(self.uid('alloc'), t, av)
            if self.log is not None: self.log.append(('w', b.path, '*', (), st.facts[:]))
            return None
        if name == 'dealloc' or (name == 'clear' and t.k == 'vec'):
            st.v[b.path] = fresh_arr(self.uid('dealloc'), t, [iv(0)] * NDIM[t.k]); return None
        if name == 'fill':
            v = self.ev(args[0], st)
            if isinstance(v, LV): v = self.rd(st, v)
            if t.a[0].k == 'rec' and is_z(v): v = self.torec(v, t.a[0])
            st.v[b.path] = const_arr(t, a.dims, v); return None
        if name == 'resize' and t.k == 'vec':
            nn = coerce(self.ev(args[0], st), I)
            v = self.ev(args[1], st) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else self.zero(t.a[0])
            if isinstance(v, LV): v = self.rd(st, v)
            na = fresh_arr(self.uid('resize'), t, [nn])
            k = z3.Const('k', I)
            for l in na.d:
                x = getleaf(v, l) if l else v
                x = coerce(x, na.d[l].range() if False else na.d[l].sort().range())
                st.assume(z3.ForAll([k], sel(na.d[l], [k]) == z3.If(k < a.dims[0], sel(a.d[l], [k]), x), patterns=[sel(na.d[l], [k])]))
            st.v[b.path] = na; return None
        if name == 'reserve' and t.k == 'vec': return None
        if name == 'push_back' and t.k == 'vec':
            v = self.ev(args[0], st)
            if isinstance(v, LV): v = self.rd(st, v)
            d = dict(a.d)
            for l, lt in leaves(t.a[0]):
                d[l] = sto(d[l], [a.dims[0]], coerce(getleaf(v, l) if l else v, sort_of(lt)))
            if self.log is not None: self.log.append(('w', b.path, '', (a.dims[0],), st.facts[:]))
            st.v[b.path] = ArrVal(a.t, [a.dims[0] + 1], d); return None
        if name in ('swap', 'transfer') and t.k != 'alm':
            o = self.lv(args[0], st)
            x, y = self.container(st, b.path, t), self.container(st, o.path, t)
            if name == 'transfer': x = fresh_arr(self.uid('dealloc'), t, [iv(0)] * NDIM[t.k])
            st.v[b.path], st.v[o.path] = y, x
            return None
        if name == 'operator=' :
            v = self.ev(args[0], st)
            return (self.assign_lv(st, b, v, n), b)[1]
        if name == 'SetToZero' and t.k == 'alm':
            st.v[b.path] = const_arr(t, a.dims, RecVal({'re': rv(0), 'im': rv(0)})); return None
        if name == 'Scale' and t.k == 'alm':
            f = coerce(self.ev(args[0], st), R)
            na = fresh_arr(self.uid('scale'), t, a.dims)
            l0, m0 = z3.Const('l', I), z3.Const('m', I)
            for l in na.d:
                st.assume(z3.ForAll([l0, m0], sel(na.d[l], [l0, m0]) == sel(a.d[l], [l0, m0]) * f, patterns=[sel(na.d[l], [l0, m0])]))
            st.v[b.path] = na; return None
        h = self.models.get('%s.%s' % (t.k, name))
        if h: return h(self, st, n, b, t, args)
        raise Unsupported('%s method %s' % (t.k, name))

    def rec_method(self, n, st, b, t, name, args):
        if name == 'operator=':
            v = self.ev(args[0], st)
            if isinstance(v, LV): v = self.rd(st, v)
            v = v if isinstance(v, RecVal) else self.torec(v, t)
            v = RecVal({f: self.conv(v[f], ft) for f, ft in fields(t)})
            self.assign_rec(st, b, v, n)
            return b
        if name in ('operator*=', 'operator/=', 'operator+=', 'operator-='):
            v = self.ev(args[0], st)
            if isinstance(v, LV): v = self.rd(st, v)
            cur = self.rd(st, b)
            if is_z(v) and name in ('operator*=', 'operator/='):
                v = coerce(v, R)
                if name == 'operator/=': self.divcheck(st, v != 0, n)
                nv = RecVal({f: (cur[f] * v if name == 'operator*=' else cur[f] / v) for f in cur})
            elif name in ('operator+=', 'operator-='):
                v = self.torec(v, t)
                nv = RecVal({f: cur[f] + v[f] if name == 'operator+=' else cur[f] - v[f] for f in cur})
            else: raise Unsupported('complex product')
            self.assign_rec(st, b, nv, n); return b
        h = self.models.get('rec.' + name)
        if h: return h(self, st, n, b, t, args)
        f = self.find_fn('%s<%s>::%s' % (t.n, t.a[0].n, name), None, len(args))
        if f is not None: return self.inline(f, st, b, args, n)
        raise Unsupported('record method ' + name)

    def assign_rec(self, st, b, v, n):
        if b.idx: self.wr(st, LV(b.path, b.idx, b.leaf, b.t), v, n)
        elif b.leaf:
            cur = st.v.get(b.path, self.lazy.get(b.path))
            st.v[b.path] = self._setleaf(cur, b.leaf.split('.')[1:], v)
        else:
            if self.log is not None: self.log.append(('w', b.path, '', (), st.facts[:]))
            st.v[b.path] = v

    # ------------------------------------------------------------ statements
    def exec(self, n, states):
        """execute from each state; returns the list of normal successor states"""
        k = n['kind']
        states = [s for s in states if not self.dead(s)]
        if not states: return []
        m = getattr(self, 'st_' + k, None)
        if m: return m(n, states)
        out = []
        for s in states:
            forks = []
            outer, self.fork_at = self.fork_at, (unwrap(n), forks)
            try: self.ev(n, s)
            finally: self.fork_at = outer
            out += [x for x in [s] + forks if not self.dead(x) and (not forks or self.feasible(x))]
        return out

    def feasible(self, st):
        """false only if the quantifier-free facts contradict each other"""
        so = z3.Solver(); so.set('timeout', 300)
        for f in st.facts:
            if not z3.is_quantifier(f): so.add(f)
        return so.check() != z3.unsat

    def st_CompoundStmt(self, n, states):
        for c in n.get('inner', []):
            states = self.exec(c, states)
            if not states: return []
        return states

    def st_NullStmt(self, n, states): return states

    def st_DeclStmt(self, n, states):
        for s in states:
            for d in n.get('inner', []):
                if d['kind'] == 'VarDecl': self.declare(d, s)
        return [s for s in states if not self.dead(s)]

    def declare(self, d, st):
        fr = self.frames[-1]
        t = ty(d['type'])
        name = d.get('name', '_')
        inner = [c for c in d.get('inner', []) if c.get('kind') not in ('FullComment',) and not c.get('kind', '').endswith('Attr')]
        if fr.names.get(name, [None])[-1] != d['id']:
            fr.names.setdefault(name, []).append(d['id'])
        if t.k == 'ref':
            l = self.lv(inner[-1], st)
            fr.env[d['id']] = LV(l.path, l.idx, l.leaf, l.t.a[0] if l.t.k == 'ref' else l.t)
            return
        key = (d['id'], len(self.frames))
        path = fr.env[d['id']].path if d['id'] in fr.env and not fr.env[d['id']].idx and fr.env[d['id']].path.startswith(name + '@') else self.uid(name)
        fr.env[d['id']] = LV(path, (), '', t)
        self.lazy_t[path] = t
        if self.region is not None: self.region.decl.add(path)
        if d.get('storageClass') == 'static' and not d.get('constexpr') and 'const ' not in d['type']['qualType'] + ' ':
            # keeps what earlier calls have left in it; one object for all threads
            if t.k == 'obj': raise Unsupported('static object ' + name)
            if self.region is not None: self.region.shared_static.add(path)
            st.v[path] = self.unknown(path, t)
            return
        if inner:
            e = inner[-1]
            e2 = unwrap(e)
            if e2['kind'] in ('CXXConstructExpr',) and t.k == 'obj':
                for k in [k for k in st.v if k == path or k.startswith(path + '.')]: del st.v[k]
                self.construct(e2, st, t, path)
                return
            v = self.ev(e, st)
            if self.opts.get('name_locals') and is_z(v) and v.sort() == R and v.num_args():
                w = fresh(name, R)
                st.assume(w == v); v = w
            self.store_new(st, path, t, v)
        else:
            st.v[path] = self.unknown(path, t) if t.k not in ('obj',) else None
            if t.k == 'obj': del st.v[path]

    def st_IfStmt(self, n, states):
        inner = list(n['inner'])
        out = []
        if n.get('hasInit') or n.get('hasVar'):
            states = self.exec(inner.pop(0), states)
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        for st in states:
            c = self.toz(self.ev(cond, st), B)
            if isinstance(c, PtrVal): c = self.nonnull(c) if c.path != 'null' else FALSE
            c = coerce(c, B)
            cs = z3.simplify(c)
            if self.dead(st): continue
            if z3.is_true(cs):
                out += self.exec(then, [st]); continue
            if z3.is_false(cs):
                out += self.exec(els, [st]) if els else [st]; continue
            s1, s2 = st.copy(), st.copy()
            s1.assume(c); s2.assume(Not(c))
            r1 = self.exec(then, [s1])
            r2 = self.exec(els, [s2]) if els else [s2]
            r1 = [s for s in r1 if not self.dead(s)]; r2 = [s for s in r2 if not self.dead(s)]
            if self.opts.get('split'):
                out += r1 + r2
            elif len(r1) == 1 and len(r2) == 1:
                m = merge2(c, r1[0], r2[0])
                if any(isinstance(v, Opaque) and v.what == 'ite' and not (isinstance(r1[0].v.get(p), Opaque) or isinstance(r2[0].v.get(p), Opaque)) for p, v in m.v.items()):
                    out += r1 + r2
                else:
                    out.append(m)
            else: out += r1 + r2
        return out

    def st_SwitchStmt(self, n, states):
        cond, body = n['inner'][-2], n['inner'][-1]
        items = []          # (labels or None, statement): None for a statement without a label, 'default' among the labels
        for c in body.get('inner', []):
            labs = []
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                labs.append('default' if c['kind'] == 'DefaultStmt' else c['inner'][0])
                c = c['inner'][-1]
            items.append((labs, c))
        out = []
        for st in states:
            v = coerce(self.toz(self.ev(cond, st), I), I)
            val = [[(l if l == 'default' else coerce(self.toz(self.ev(l, st), I), I)) for l in labs] for labs, _ in items]
            known = [x for l in val for x in l if not isinstance(x, str)]
            ctx = {'break': [], 'continue': []}
            outer = self.frames[-1].loopctx[-1] if self.frames[-1].loopctx else None
            self.frames[-1].loopctx.append(ctx)
            if outer is not None: ctx['continue'] = outer['continue']
            cur, seen = [], False
            try:
                for labs, (_, stmt) in zip(val, items):
                    for l in labs:
                        g = And(*[v != x for x in known]) if isinstance(l, str) else v == l
                        gs = z3.simplify(g)
                        seen = seen or isinstance(l, str)
                        if z3.is_false(gs): continue
                        s = st.copy(); s.assume(g); cur.append(s)
                    cur = self.exec(stmt, cur) if cur else cur
            finally: self.frames[-1].loopctx.pop()
            out += cur + ctx['break']
            if not seen:
                g = z3.simplify(And(*[v != x for x in known]))
                if not z3.is_false(g): st.assume(g); out.append(st)
        return [s for s in out if not self.dead(s)]

    def st_ReturnStmt(self, n, states):
        fr = self.frames[-1]
        for s in states:
            v = None
            if n.get('inner'):
                e = n['inner'][0]
                rt = fr.fn.type.split('(')[0].strip() if fr.fn else ''
                if rt.endswith('&'):
                    v = self.lv(e, s)
                else:
                    v = self.ev(e, s)
                    if isinstance(v, tuple) and v[0] == 'cont':
                        v = self.container(s, v[1].path, v[1].t)
                    if isinstance(v, LV) and not rt.endswith('*'): v = self.rd(s, v)
                    t = ty(rt) if rt else None
                    if t is not None and t.k in ('int', 'real', 'bool'): v = self.conv(self.toz(v, sort_of(t)), t)
            fr.returns.append((s, v))
        return []

    def st_BreakStmt(self, n, states):
        self.frames[-1].loopctx[-1]['break'] += states
        return []
    def st_ContinueStmt(self, n, states):
        self.frames[-1].loopctx[-1]['continue'] += states
        return []

    def st_CXXTryStmt(self, n, states):
        body, handlers = n['inner'][0], n['inner'][1:]
        self.throws.append([])
        outs = self.exec(body, states)
        thrown = self.throws.pop()
        for t in thrown:
            if self.dead(t.st) and not z3.is_true(TRUE): pass
            s = t.st
            s.facts = [f for f in s.facts if f is not DEAD]
            caught = False
            for h in handlers:
                ht = h['inner'][0] if h.get('inner') and h['inner'][0].get('kind') == 'VarDecl' else None
                if self.matches(t.what, ht):
                    self.frames[-1].loopctx.append({'break': [], 'continue': [], 'rethrow': t.what})
                    if ht is not None: self.frames[-1].env[ht['id']] = LV(self.uid('exc'), (), '', Ty('opaque'))
                    self._cur_exc = getattr(self, '_cur_exc', []) + [t.what]
                    r = self.exec(h['inner'][-1], [s])
                    self._cur_exc = self._cur_exc[:-1]
                    self.frames[-1].loopctx.pop()
                    outs = outs + r
                    caught = True
                    break
            if not caught: self.throws[-1].append(t)
        return outs

    def matches(self, what, ht):
        if ht is None: return True
        t = norm(ht['type']['qualType']).replace('const ', '').rstrip('&').strip()
        if what.startswith('contract:') or what == '': 
            return False if t == 'bad_alloc' else None
        if t == what: return True
        H = {'runtime_error': ['exception'], 'bad_alloc': ['exception'], 'LEVELSError': [], 'invalid_argument': ['logic_error', 'exception'], 'logic_error': ['exception'], 'length_error': ['logic_error', 'exception']}
        return t in H.get(what, [])

    # ---- loops
    def st_ForStmt(self, n, states):
        init, _, cond, inc, body = n['inner']
        if init: states = self.exec(init, states)
        return self.loop(n, states, cond or None, inc or None, body)
    def st_WhileStmt(self, n, states):
        return self.loop(n, states, n['inner'][0], None, n['inner'][-1])
    def st_DoStmt(self, n, states):
        return self.loop(n, states, n['inner'][1], None, n['inner'][0], do=True)

    def st_OMPParallelDirective(self, n, states):
        return self.in_region(n, states, lambda: self.exec(self.omp_body(n), states))
    def in_region(self, n, states, go):
        from .race import Region
        old = self.region
        if old is not None: raise Unsupported('nested parallel regions')
        self.region = R_ = Region(self, n, states)
        check = self.opts.get('race') and not self.quiet and self.log is None and states
        if check: self.log = []
        try: r = go()
        finally:
            self.region = None; self.tid = None
            if check: log, self.log = self.log, None
        if check: R_.finish(log)
        return r
    def st_OMPForDirective(self, n, states):
        b = self.omp_body(n)
        self.ompfor = n
        return self.exec(b, states)
    def st_OMPParallelForDirective(self, n, states):
        return self.in_region(n, states, lambda: self.st_OMPForDirective(n, states))
    def st_OMPBarrierDirective(self, n, states): return states
    def omp_body(self, n):
        c = next(x for x in n['inner'] if x.get('kind') == 'CapturedStmt')
        d = next(x for x in c['inner'] if x['kind'] == 'CapturedDecl')
        return next(x for x in d['inner'] if x['kind'].endswith('Stmt') or x['kind'].startswith('OMP') or x['kind'].endswith('Expr'))

    def loop(self, n, states, cond, inc, body, do=False):
        ompfor = getattr(self, 'ompfor', False); self.ompfor = False
        fr = self.frames[-1]
        lid = n.get('id')
        order = self.loop_order(fr)
        outs = []
        if not states: return []
        if len(states) > 1 and not self.opts.get('split'):
            m = mergeN(states)
            if not any(isinstance(v, Opaque) and v.what == 'ite' for v in m.v.values()): states = [m]
        for st in states:
            outs += self.loop1(n, st, cond, inc, body, do, ompfor)
        if len(outs) > 1 and not self.opts.get('split'):
            m = mergeN(outs)
            if not any(isinstance(v, Opaque) and v.what == 'ite' for v in m.v.values()): outs = [m]
        return outs

    def loop_order(self, fr):
        if not hasattr(fr, 'loops'):
            fr.loops = {}
            def walk(x):
                if not isinstance(x, dict): return
                if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt') and not once(x) and x['id'] not in fr.loops:
                    fr.loops[x['id']] = len(fr.loops)
                if x.get('kind') == 'LambdaExpr': return
                if x.get('kind') == 'CapturedStmt':
                    for c in x['inner']:
                        if c['kind'] == 'CapturedDecl': walk(c)
                    return
                for c in x.get('inner', []): walk(c)
            if fr.fn is not None: walk(fr.fn.body)
        return fr.loops

    def unroll_bound(self, n, st, cond, inc, body):
        return None

    def run_body(self, st, inc, body):
        """one iteration from st; returns (continuing states after inc, breaking states)"""
        fr = self.frames[-1]
        ctx = {'break': [], 'continue': []}
        fr.loopctx.append(ctx)
        try: r = self.exec(body, [st])
        finally: fr.loopctx.pop()
        r = r + ctx['continue']
        r = [s for s in r if not self.dead(s)]
        if not self.opts.get('split') and len(r) > 1:
            m = mergeN(r)
            if not any(isinstance(v, Opaque) and v.what == 'ite' for v in m.v.values()): r = [m]
        if inc:
            for s in r: self.ev(inc, s)
        return r, [s for s in ctx['break'] if not self.dead(s)]

    def modified(self, st, cond, inc, body):
        """paths changed by the loop (least fixpoint over quiet symbolic runs)"""
        mod = {}
        for _ in range(12):
            s = st.copy()
            self.havoc(s, mod)
            base = dict(s.v)
            self.quiet += 1
            log, self.log = self.log, None
            thr = self.throws; self.throws = [[] for _ in thr]
            fr = self.frames[-1]
            nret = len(fr.returns)
            env, names = dict(fr.env), {k: list(v) for k, v in fr.names.items()}
            try:
                s0 = s.copy()
                if cond: self.ev(cond, s0)
                ends, brks = self.run_body(s0, inc, body)
            finally:
                self.quiet -= 1; self.log = log; self.throws = thr
                extra = fr.returns[nret:]
                del fr.returns[nret:]
                fr.names = names
            new = {}
            for e in ends + brks + [x for x, _ in extra]:
                for p, v in e.v.items():
                    if p in base:
                        b = base[p]
                    elif p in self.lazy:
                        b = self.lazy[p]
                    else:
                        continue
                    if not same(v, b):
                        kind = 'all'
                        if isinstance(v, ArrVal) and isinstance(b, ArrVal) and all(x.eq(y) for x, y in zip(v.dims, b.dims)) and v.t is b.t:
                            kind = 'data'
                            ks = tuple(sorted(k for k in v.d if not v.d[k].eq(b.d[k])))
                            kind = ('data', ks)
                        new[p] = kind if p not in new or new[p] == kind else self.join_kind(new[p], kind)
            ch = False
            for p, kd in new.items():
                if p not in mod: mod[p] = kd; ch = True
                elif mod[p] != kd:
                    j = self.join_kind(mod[p], kd)
                    if j != mod[p]: mod[p] = j; ch = True
            if not ch: return mod
        raise Unsupported('loop frame')

    def join_kind(self, a, b):
        if a == b: return a
        if isinstance(a, tuple) and isinstance(b, tuple): return ('data', tuple(sorted(set(a[1]) | set(b[1]))))
        return 'all'

    def havoc(self, s, mod):
        self.inwr += 1
        try: self.havoc1(s, mod)
        finally: self.inwr -= 1
    def havoc1(self, s, mod):
        for p, kd in mod.items():
            v = s.v.get(p, self.lazy.get(p))
            nm = p.split('@')[0]
            if isinstance(v, ArrVal):
                if isinstance(kd, tuple):
                    d = dict(v.d)
                    for k in kd[1]: d[k] = fresh(nm + k, v.d[k].sort())
                    nv = ArrVal(v.t, v.dims, d)
                else:
                    nv = ArrVal(v.t, [fresh(nm + '.dim', I) for _ in v.dims], {k: fresh(nm + k, x.sort()) for k, x in v.d.items()})
                s.v[p] = nv
                self.type_facts(s, nv, v.t)
            elif isinstance(v, PtrVal):
                s.v[p] = PtrVal(v.path, v.pre, fresh(nm + '.off', I), v.t)
            elif isinstance(v, FV):
                s.v[p] = FV(fresh(nm, R), fresh(nm + '.nan', B))
            elif is_z(v):
                nv = fresh(nm, v.sort())
                s.v[p] = nv
                t = self.lazy_t.get(p)
                if t is not None: self.type_facts(s, nv, t)
            elif isinstance(v, RecVal):
                s.v[p] = self.havoc_rec(nm, v)
            else:
                s.v[p] = Opaque('havoc')
    def havoc_rec(self, nm, v):
        return RecVal({k: (self.havoc_rec(nm, x) if isinstance(x, RecVal) else fresh(nm + '.' + k, x.sort())) for k, x in v.items()})

    def loop1(self, n, st, cond, inc, body, do, ompfor):
        fr = self.frames[-1]
        order = self.loop_order(fr)
        num = order.get(n['id'], -1)
        fname = fr.fn.qual if fr.fn else '?'
        entry = st.copy()
        if do:
            # first iteration peeled
            r, brk0 = self.run_body(st, inc, body)
            if once(n): return r + brk0
            if not r: return brk0
            outs = list(brk0)
            for s in r:
                outs += self.loop1(n, s, cond, inc, body, False, False)
            return outs
        # constant trip counts: unroll exactly
        u = self.try_unroll(n, st, cond, inc, body)
        if u is not None:
            if len(self.frames) == 1 or fr.fn is self.root_fn: self.cur_spec.used_loops.add(num)
            return u
        mod = self.modified(st, cond, inc, body)
        lspec = None
        cspec = self.specs_inline.get(fname) if hasattr(self, 'specs_inline') else None
        sp = self.cur_spec if (len(self.frames) == 1 or fr.fn is self.root_fn) else cspec
        invs = []
        L = LoopCtx(self, st, fr, entry, self.entry)
        if sp is not None and sp.loops is not None:
            lspec = sp.loop_for(self, fr, num, L, mod)
        elif (fname, num) in self.opts.get('inline_loops', {}): lspec = self.opts['inline_loops'][fname, num]
        autos = self.auto_inv(n, cond, inc, body, st, mod, fr)
        lab = 'loop%d' % num
        def inv_at(s, phase):
            Lc = LoopCtx(self, s, fr, entry, self.entry, phase)
            Lc.mod = mod
            out = []
            for nm, f in autos: out.append((nm, f(s)))
            if lspec is not None:
                for i, x in enumerate(lspec.inv(Lc)):
                    out.append(x if isinstance(x, tuple) else ('inv%d' % i, x))
            return out
        def defs_at(s, phase):
            if lspec is None or lspec.defs is None: return []
            Lc = LoopCtx(self, s, fr, entry, self.entry, phase); Lc.mod = mod
            return lspec.defs(Lc)
        for f in defs_at(st, 'init'): st.assume(f)
        if lspec is not None and lspec.at_begin is not None:
            Lc = LoopCtx(self, st, fr, entry, self.entry, 'init'); Lc.mod = mod
            for it in lspec.at_begin(Lc): self.stone(st, it, fname, lab, n)
        for nm, g in inv_at(st, 'init'):
            if not nm.startswith('auto'): self.oblige(st, 'invariant-established', '%s:%s:%s' % (fname, lab, nm), g, n)
        # arbitrary iteration
        h = st.copy()
        self.havoc(h, mod)
        # prune automatic invariants that are not inductive
        autos[:] = self.houdini(autos, st, h, cond, inc, body, inv_at, defs_at) if autos and not self.quiet else []
        for f in defs_at(h, 'head'): h.assume(f)
        for nm, g in inv_at(h, 'head'): h.assume(g)
        if ompfor:
            # the iterations are shared out among threads: what an earlier one left in the variables of its thread is unknown
            iv = self.loop_var(n, fr)
            self.havoc(h, {p: kd for p, kd in mod.items() if p != iv and self.region is not None and self.region.private(p)})
        b = h.copy()
        if cond:
            c = self.toz(self.ev(cond, b), B)
            c = coerce(c, B)
        else: c = TRUE
        ex = b.copy(); ex.assume(Not(c))
        b.assume(c)
        unitlog = None
        if ompfor and self.log is not None: unitlog, self.log = self.log, []
        if lspec is not None and lspec.body_hints is not None:
            Lc = LoopCtx(self, b, fr, entry, self.entry, 'body'); Lc.mod = mod
            for f in lspec.body_hints(Lc): b.assume(f)
        bstart = b.copy()
        ends, brks = self.run_body(b, inc, body)
        if unitlog is not None:
            log, self.log = self.log, unitlog
            self.region.add_loop(ompfor, n, bstart, log, iv, cond, entry, num)
        for s in ends:
            s.facts = list(s.facts)
            for f in defs_at(s, 'end'): s.assume(f)
            if lspec is not None and lspec.end_hints is not None:
                Lc = LoopCtx(self, s, fr, entry, self.entry, 'end'); Lc.mod = mod; Lc.head = h
                for f in lspec.end_hints(Lc): s.assume(f)
            if lspec is not None and lspec.at_end is not None:
                Lc = LoopCtx(self, s, fr, entry, self.entry, 'end'); Lc.mod = mod
                Lc.start = LoopCtx(self, bstart, fr, entry, self.entry, 'head')
                for it in lspec.at_end(Lc): self.stone(s, it, fname, lab, n)
            for nm, g in inv_at(s, 'end'):
                if not nm.startswith('auto'):
                    self.oblige(s, 'invariant-preserved', '%s:%s:%s' % (fname, lab, nm), g, n)
            if lspec is not None and lspec.variant is not None:
                v0 = lspec.variant(LoopCtx(self, bstart, fr, entry, self.entry, 'head'))
                v1 = lspec.variant(LoopCtx(self, s, fr, entry, self.entry, 'end'))
                self.oblige(s, 'termination', '%s:%s:variant' % (fname, lab), And(v0 >= 0, v1 < v0), n)
        outs = ([ex] if cond else []) + brks
        outs = [s for s in outs if not self.dead(s)]
        if lspec is not None and lspec.exit_hints is not None:
            for s in outs:
                Lc = LoopCtx(self, s, fr, entry, self.entry, 'exit'); Lc.mod = mod
                for f in lspec.exit_hints(Lc): s.assume(f)
        if lspec is not None and lspec.after is not None:
            for s in outs:
                Lc = LoopCtx(self, s, fr, entry, self.entry, 'exit'); Lc.mod = mod
                for it in lspec.after(Lc): self.stone(s, it, fname, lab, n)
        return outs

    def stone(self, s, it, fname, lab, n):
        """a stepping stone: proved here, then used.  (label, formula[, facts it is proved from[, conjuncts to keep]])"""
        lb, f = it[0], it[1]
        only, keep = it[2] if len(it) > 2 else None, it[3] if len(it) > 3 else None
        st = s
        if only is not None:
            known = set(x.get_id() for x in s.facts)
            if not all(x.get_id() in known for x in only): raise Unattached('lemma %s from facts that are not known' % lb)
            st = State(self)
            for x in only: st.assume(x)
        self.oblige(st, 'lemma', '%s:%s:%s' % (fname, lab, lb), f, n)
        if keep is not None:
            parts = set(x.get_id() for x in f.children()) if z3.is_and(f) else {f.get_id()}
            if not all(x.get_id() in parts for x in keep): raise Unattached('lemma %s: not a part' % lb)
            for x in keep: s.assume(x)
        else: s.assume(f)

    def try_unroll(self, n, st, cond, inc, body):
        lim = self.opts.get('unroll', 8)
        if not lim or cond is None: return None
        # quick syntactic test: loop condition must be decidable now
        s = st.copy()
        self.quiet += 1
        try: c = z3.simplify(coerce(self.toz(self.ev(cond, s.copy()), B), B))
        except Exception: c = None
        finally: self.quiet -= 1
        if c is None or not (z3.is_true(c) or z3.is_false(c)): return None
        if z3.is_false(c): return [st]
        # trial run
        cnt = 0
        saved_obs = len(self.obs)
        fr = self.frames[-1]
        nthr = [len(t) for t in self.throws]; nret = len(fr.returns)
        cur, outs = st.copy(), []
        while True:
            c = z3.simplify(coerce(self.toz(self.ev(cond, cur), B), B))
            if z3.is_false(c):
                outs.append(cur); return outs
            if not z3.is_true(c) or cnt >= lim:
                del self.obs[saved_obs:]
                for t, k in zip(self.throws, nthr): del t[k:]
                del fr.returns[nret:]
                return None
            r, brk = self.run_body(cur, inc, body)
            outs += brk
            if not r: return outs
            if len(r) > 1: 
                del self.obs[saved_obs:]
                for t, k in zip(self.throws, nthr): del t[k:]
                del fr.returns[nret:]
                return None
            cur = r[0]
            cnt += 1

    def auto_inv(self, n, cond, inc, body, st, mod, fr):
        """candidate bounds for loop counters; pruned by houdini()"""
        out = []
        for p, kd in mod.items():
            v0 = st.v.get(p)
            if v0 is None or not is_z(v0) or v0.sort() != I: continue
            def mk(p=p, v0=v0):
                return ('auto:%s>=init' % p.split('@')[0], lambda s: s.v[p] >= v0)
            def mk2(p=p, v0=v0):
                return ('auto:%s<=init' % p.split('@')[0], lambda s: s.v[p] <= v0)
            out.append(mk()); out.append(mk2())
        # i <= bound (or i >= bound for descending loops)
        if cond:
            c = strip_parens(cond)
            cands = []
            def conj(x):
                x = strip_parens(x)
                if x['kind'] == 'BinaryOperator' and x['opcode'] == '&&':
                    conj(x['inner'][0]); conj(x['inner'][1])
                elif x['kind'] == 'BinaryOperator' and x['opcode'] in ('<', '<=', '>', '>=', '!='):
                    cands.append(x)
            conj(c)
            for x in cands:
                l, r = x['inner']
                def mkb(l=l, r=r, op=x['opcode']):
                    def f(s):
                        q = s.copy()
                        self.quiet += 1
                        try:
                            a = self.ev(l, q); b = self.ev(r, q)
                            if isinstance(a, PtrVal) and isinstance(b, PtrVal) and a.path == b.path: a, b = a.off, b.off
                            if not (is_z(a) and is_z(b)) or a.sort() != I or b.sort() != I: return TRUE
                        finally: self.quiet -= 1
                        # initial values
                        q0 = st.copy()
                        self.quiet += 1
                        try:
                            a0 = self.ev(l, q0); b0 = self.ev(r, q0)
                            if isinstance(a0, PtrVal) and isinstance(b0, PtrVal): a0, b0 = a0.off, b0.off
                        finally: self.quiet -= 1
                        if op == '<': return Or(a <= b, And(a == a0, b == b0))
                        if op == '<=': return Or(a <= b + 1, And(a == a0, b == b0))
                        if op == '>': return Or(a >= b, And(a == a0, b == b0))
                        if op == '>=': return Or(a >= b - 1, And(a == a0, b == b0))
                        return z3.If(a0 <= b0, a <= b, a >= b) if op == '!=' else TRUE
                    return f
                out.append(('auto:bound' + str(len(out)), mkb()))
        return out

    def houdini(self, autos, st, h, cond, inc, body, inv_at, defs_at):
        """keep the inductive subset of the automatic counter invariants"""
        keep = list(autos)
        fr = self.frames[-1]
        for _ in range(4):
            if not keep: break
            s = h.copy()
            for nm, f in keep: s.assume(f(s))
            # the user's invariants may help but are not needed for counters
            self.quiet += 1
            log, self.log = self.log, None
            thr = self.throws; self.throws = [[] for _ in thr]
            nret = len(fr.returns)
            names = {k: list(v) for k, v in fr.names.items()}
            try:
                if cond: s.assume(coerce(self.toz(self.ev(cond, s), B), B))
                ends, brks = self.run_body(s, inc, body)
            finally:
                self.quiet -= 1; self.log = log; self.throws = thr; del fr.returns[nret:]; fr.names = names
            bad = []
            for nm, f in keep:
                for e in ends:
                    so = z3.Solver(); so.set('timeout', 1500)
                    for x in e.facts:
                        if not z3.is_quantifier(x): so.add(x)
                    so.add(Not(f(e)))
                    if so.check() != z3.unsat:
                        bad.append(nm); break
            if not bad: break
            keep = [x for x in keep if x[0] not in bad]
        return keep

    def loop_var(self, n, fr):
        i = n['inner'][0] if n['kind'] == 'ForStmt' else None
        try:
            if i['kind'] == 'DeclStmt': return fr.env[i['inner'][0]['id']].path
            return fr.env[strip_casts(i['inner'][0])['referencedDecl']['id']].path
        except (KeyError, TypeError, IndexError): raise Unsupported('variable of a worksharing loop')

class RawMem:
    """new memory of a number of bytes, not yet given a type"""
    def __init__(self, size): self.size = size
    def typed(self, E, st, t, n):
        E.ghost['blk'] = E.ghost.get('blk', 0) + 1
        path = 'block%d' % E.ghost['blk']
        sz = E.sizeof(t)
        if t.k in ('int', 'real', 'bool', 'rec'):
            k = z3.simplify(self.size)
            cnt = fresh('count', I); st.assume(cnt * sz == self.size)
            E.oblige(st, 'bounds', 'size of new memory is a multiple@L%s' % lineof(n), self.size % sz == 0, n)
            st.v[path] = fresh_arr(path, Ty('buf', '', [t]), [cnt]); st.assume(cnt >= 0)
        elif t.k == 'obj':
            E.oblige(st, 'bounds', 'new memory holds the record@L%s' % lineof(n), self.size >= sz, n)
            for f, ft in E.records[t.n]['fields']:
                ft = ty(ft); q = path + '.' + f; E.lazy_t[q] = ft; E.lazy[q] = E.unknown(q, ft)
        else: raise Unsupported('new memory of %r' % t)
        st.v[path + '.live'] = TRUE
        return PtrVal(path, (), iv(0), t)

class ObjRef:
    def __init__(self, path, t): self.path, self.t = path, t
    def __repr__(self): return 'ObjRef(%s)' % self.path

class PtrLeaf:
    def __init__(self, l): self.l = l

DEAD = z3.Const('DEAD', B)

def once(n):
    """do { } while (0): not a loop"""
    if n['kind'] != 'DoStmt': return False
    c = strip_casts(n['inner'][1])
    return c['kind'] in ('IntegerLiteral', 'CXXBoolLiteralExpr') and str(c.get('value')) in ('0', 'False', 'false')

def strip_parens(n):
    while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr'): n = n['inner'][0]
    return n

class Ctx:
    """what a contract can talk about"""
    def __init__(self, E, st, vals, this, pre, res=None, isold=False):
        self.E, self.st, self.vals, self.this_, self.pre, self.res = E, st, vals, this, pre, res
    def _val(self, st, lv):
        t = lv.t.a[0] if lv.t.k == 'ref' else lv.t
        if t.k in CONT and not lv.idx:
            return View(self.E.container(st, lv.path, t))
        v = self.E.rd(st, lv)
        if isinstance(v, PtrVal):
            if v.path == 'null': return v
            if v.path in st.v and isinstance(st.v[v.path], ArrVal): return PtrView(View(st.v[v.path]), v)
            return PtrView(View(self.E.container(st, v.path, Ty('buf', '', [v.t]))), v)
        return v
    def __getitem__(self, name):
        return self._get(self.st, name)
    def _get(self, st, name):
        log, self.E.log = self.E.log, None
        try:
            if name.startswith('this.'):
                if self.this_ is None: raise Unattached(name)
                return self._val(st, self._thislv(name))
            if name in self.vals: return self._val(st, self.vals[name])
            if '.' in name and name.split('.')[0] in self.vals: return self._val(st, self._sub(st, self.vals[name.split('.')[0]], name))
            fr = getattr(self, 'fr', None)        # at the end of the function: its own variables
            if fr is not None and fr.names.get(name): return self._val(st, fr.env[fr.names[name][-1]])
        finally: self.E.log = log
        raise Unattached(name)
    def _sub(self, st, lv, name):
        """the member a.b.c of the object a"""
        for q in name.split('.')[1:]:
            tt = lv.t.a[0] if lv.t.k == 'ref' else lv.t
            if tt.k == 'ptr': lv = self.E.deref(self.E.rd(st, lv), st); tt = lv.t
            ft = self.E.fieldtype(tt, q) or self.E.lazy_t.get(lv.path + '.' + q)
            if ft is None: raise Unattached(name)
            lv = self.E.member(st, LV(lv.path, lv.idx, lv.leaf, tt), q, ft)
        return lv
    def _thislv(self, name):
        p = self.this_.path
        t = self.this_.t
        parts = name[5:].split('.')
        lv = LV(p, (), '', t)
        for q in parts:
            tt = lv.t
            if tt.k == 'ptr':
                lv = self.E.deref(self.E.rd(self.st, lv), self.st); tt = lv.t
            ft = self.E.fieldtype(tt, q) or self.E.lazy_t.get(lv.path + '.' + q)
            if ft is None: raise Unattached(name)
            lv = self.E.member(self.st, lv, q, ft)
        return lv
    @property
    def old(self):
        return Ctx(self.E, self.pre, self.vals, self.this_, self.pre, None)

class PtrView:
    def __init__(self, v, p): self.v, self.p = v, p
    @property
    def off(self): return self.p.off
    def __getitem__(self, i): return self.v[self.p.off + i]
    @property
    def n(self): return self.v.n

class LoopCtx(Ctx):
    def __init__(self, E, st, fr, entry, fentry, phase=''):
        self.E, self.st, self.fr, self.entry, self.fentry, self.phase = E, st, fr, entry, fentry, phase
        self.this_ = fr.this
        self.pre_state = entry
    def _get(self, st, name):
        log, self.E.log = self.E.log, None
        try:
            if name.startswith('this.'):
                return self._val(st, self._thislv(name))
            ids = self.fr.names.get(name.split('.')[0])
            if ids:
                for i in reversed(ids):
                    lv = self.fr.env[i]
                    if '.' in name: return self._val(st, self._sub(st, lv, name))
                    if lv.path in st.v or lv.path in self.E.lazy: 
                        return self._val(st, lv)
            if self.fr.this is not None:
                ft = self.E.fieldtype(self.fr.this.t, name)
                if ft is not None:
                    return self._val(st, self._thislv('this.' + name))
        finally: self.E.log = log
        raise Unattached(name)
    @property
    def before(self):
        """values just before the loop"""
        c = LoopCtx(self.E, self.entry, self.fr, self.entry, self.fentry, self.phase); return c
    @property
    def old(self):
        """values at function entry"""
        c = LoopCtx(self.E, self.fentry, self.fr, self.entry, self.fentry, self.phase); return c
