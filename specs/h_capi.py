"""The C interface (C14): what each function does with the objects it is given, and that no exception leaves it.

The C++ operations behind the interface are represented by what can be observed of a call: which operation, on which object, with which
arguments, whether it completed and what it returned; any of them may throw any exception (so nothing is assumed about them)."""
from .base import *
from dv.engine import Throw, PtrVal, LV, Ty, Opaque, fresh, is_z
from dv.execu import strip_casts

SPECS = []
F = 'src/cconviqt.cpp'
ARGS = z3.Function('given', I, R)
IDS = {}
def ID(x): return iv(IDS.setdefault(x, len(IDS) + 1))
THROWN = ('runtime_error', 'LEVELSError', 'bad_alloc', 'anything else')
def observe(E, st, name, obj, args, throws=True):
    """ghost record of a C++ operation; it may also throw"""
    st.v['ghost.count'] = st.v.get('ghost.count', iv(0)) + 1
    st.v['ghost.op'], st.v['ghost.on'] = ID(name), ID(obj)
    for i, a in enumerate(args): st.v['ghost.arg%d' % i] = a
    st.v['ghost.nargs'] = iv(len(args))
    for w in THROWN if throws else ():
        t = st.copy(); t.v['ghost.completed'] = FALSE
        E.throws[-1].append(Throw(t, w))
    st.v['ghost.completed'] = TRUE
def given(E, a, st):
    """an argument as a number: a value, or the identity of the object or string pointed to"""
    b = strip_casts(a)
    while b['kind'] in ('CXXConstructExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and b.get('inner'): b = strip_casts(b['inner'][0])
    v = E.ev(b, st) if b.get('valueCategory') != 'lvalue' else E.lv(b, st)
    if isinstance(v, LV):
        t = v.t.a[0] if v.t.k == 'ref' else v.t
        if t.k in ('int', 'real', 'bool'): v = E.rd(st, v)
        elif t.k == 'ptr': v = E.rd(st, v)
        else: return z3.ToReal(ID(v.path))
    if isinstance(v, PtrVal): return z3.ToReal(ID(v.path))
    if is_z(v): return v if v.sort() == R else z3.ToReal(v) if v.sort() == I else z3.If(v, rv(1), rv(0))
    return z3.ToReal(ID('opaque'))
def call(E, st, n, qual, this, args, rt):
    real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    av = [given(E, a, st) for a in real]
    observe(E, st, qual, this.path if this is not None else 'none', av)
    if rt.k in ('int', 'real', 'bool'):
        from dv.engine import sort_of
        r = fresh('result', sort_of(rt)); st.v['ghost.result'] = r if r.sort() == R else z3.ToReal(r) if r.sort() == I else z3.If(r, rv(1), rv(0))
        return r
    if rt.k == 'ptr': return PtrVal('result of ' + qual, (), iv(0), rt.a[0])
    if rt.k == 'ref' or rt.k in ('alm', 'arr'): return LV('result of ' + qual, (), '', rt.a[0] if rt.k == 'ref' else rt)
    return Opaque('result of ' + qual)
def quiet(E, cls):
    """a default constructor that cannot throw: empty, and so are those of its members (an arr without elements allocates nothing)"""
    r = E.records.get(cls)
    if r is None: return False
    for u in E.units:
        for f in u.funcs.get(cls + '::' + cls, []):
            if not f.params and f.body is not None and f.body.get('inner'): return False
    import re
    ok = lambda t: re.sub(r'\b(std|levels)::', '', t) in ('string', 'basic_string<char>', 'int', 'long', 'bool', 'double', 'float', 'char') or re.match(r'(levels::)?arr<\w+>$', t)
    return all(ok(t) for _, t in r['fields']) and all(ok(b) for b in r['bases'])
def strip_type(n):
    """the class of the object a member call is made on, as written"""
    m = n['inner'][0] if n.get('inner') else {}
    while m.get('kind') not in ('MemberExpr', None) and m.get('inner'): m = m['inner'][0]
    if m.get('kind') != 'MemberExpr': return None
    b = m['inner'][0]
    while b.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and b.get('castKind') in ('LValueToRValue', 'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', None) and b.get('inner'): b = b['inner'][0]
    return norm_cls(b['type']['qualType'])
CLASSES = ('beam', 'sky', 'detector', 'pointing', 'convolver')
def hook(E, st, n, qual, this, args, rt):
    c = qual.split('::')[0]
    if this is not None and qual.endswith('::Alms') and not args: return True, LV(this.path + '.Alms', (), '', rt.a[0] if rt.k == 'ref' else rt)
    if qual.split('::')[-1] in ('strcpy', 'strncpy', 'memcpy', 'snprintf', 'strncat'):
        st.v['ghost.copied'] = given(E, args[0], st)
        for a in args[1:]: E.ev(a, st)
        return True, Opaque('copy')
    if this is not None and isinstance(strip_type(n), str) and strip_type(n) in CLASSES: c = strip_type(n)
    if c in CLASSES or (this is not None and this.t.n in CLASSES): return True, call(E, st, n, (c if c in CLASSES else this.t.n) + '::' + qual.split('::')[-1], this, args, rt)
    return False, None
def new(E, st, n):
    t = strip_casts(n)['type']['qualType']
    cls = t.replace('conviqt::', '').replace('*', '').strip()
    ctor = [c for c in n.get('inner', []) if c['kind'] == 'CXXConstructExpr']
    args = [a for a in (ctor[0].get('inner', []) if ctor else []) if a['kind'] != 'CXXDefaultArgExpr']
    observe(E, st, 'new ' + cls, 'new ' + cls, [given(E, a, st) for a in args], bool(args) or not quiet(E, cls))
    return PtrVal('new ' + cls, (), iv(0), Ty('obj', cls))
def delete(E, st, n):
    v = E.ev(n['inner'][0], st)
    observe(E, st, 'delete ' + norm_cls(n['inner'][0]['type']['qualType']), v.path, [])
    return None
def norm_cls(t): return t.replace('conviqt::', '').replace('*', '').strip()
OPTS = dict(cpp_call=hook, cpp_new=new, cpp_delete=delete, bounds=False, assume_bounds=False, noframe=True)
G = lambda c, x: c.st.v.get('ghost.' + x)
def num(c, nm):
    v = c[nm]
    if hasattr(v, 'ptr'): return z3.ToReal(ID(v.ptr.path))
    return v if v.sort() == R else z3.ToReal(v)
def path_of(c, nm):
    lv = c.vals[nm]; v = c.E.rd(c.st, lv)
    return v.path
def did(c, op, on, args):
    """the operation happened once, on that object, with these arguments"""
    if G(c, 'count') is None: return FALSE
    o = on if on.startswith('new ') else path_of(c, on)
    cl = [G(c, 'count') == 1, G(c, 'op') == ID(op), G(c, 'on') == ID(o), G(c, 'nargs') == len(args)]
    for i, a in enumerate(args):
        g = G(c, 'arg%d' % i)
        if g is None: return FALSE
        v = c.E.rd(c.st, c.vals[a]) if a in c.vals else a
        want = z3.ToReal(ID(v.path)) if isinstance(v, PtrVal) else (v if v.sort() == R else z3.ToReal(v))
        cl.append(Or(g == want, And(want != 0, g == 1)) if a in ('pol', 'calibrate') else g == want)
        if a in ('pol', 'calibrate'): cl.append((g == 0) == (want == 0))
    return And(*cl)
def S(name, params, ens, **k): SPECS.append(Spec(name, params, unit=[F], ensures=ens, opts=OPTS, **k))
def status(name, params, op, on, args, more=lambda c: []):
    S(name, params, lambda c: [('acts once, on the object it is given', did(c, op, on, args)), ('status zero exactly on success', (c.res == 0) == G(c, 'completed') if G(c, 'completed') is not None else FALSE)] + more(c))
def value(name, op, on):
    S(name, [on], lambda c: [('asks the object it is given, once', did(c, op, on, [])), ('hands on the answer, or -1', And(Imp(G(c, 'completed'), (c.res if c.res.sort() == R else z3.ToReal(c.res)) == G(c, 'result')), Imp(Not(G(c, 'completed')), c.res == -1)) if G(c, 'completed') is not None else FALSE)])
def handle(name, params, cls, args):
    S(name, params, lambda c: [('a new object with the given arguments, or none', did(c, 'new ' + cls, 'new ' + cls, args)),
        ('null exactly on failure', And((G(c, 'completed') == z3.BoolVal(c.res.path == 'new ' + cls)), (Not(G(c, 'completed')) == z3.BoolVal(c.res.path == 'null'))) if G(c, 'completed') is not None and isinstance(c.res, PtrVal) else FALSE)])
def data(name, op, on, tail):
    def ens(c):
        r = c.res
        if G(c, 'completed') is None or not isinstance(r, PtrVal): return [('asks the object it is given', FALSE)]
        theirs = And(z3.BoolVal(r.path in ('result of ' + op + tail, 'result of ' + op + tail + '*')), r.off == 0, *[x == 0 for x in r.pre])
        return [('asks the object it is given, once', did(c, op, on, [])), ('the data of that object', Imp(G(c, 'completed'), theirs)), ('null on failure', Imp(Not(G(c, 'completed')), z3.BoolVal(r.path == 'null')))]
    S(name, [on], ens)
for x in ('beam', 'sky', 'detector', 'pointing'): handle('conviqt_%s_new' % x, [], x, [])
for x in ('beam', 'sky', 'detector', 'pointing', 'convolver'): status('conviqt_%s_del' % x, ['ptr'], 'delete ' + x, 'ptr', [])
handle('conviqt_detector_new_with_id', ['det_id'], 'detector', ['det_id'])
status('conviqt_beam_read', ['ptr', 'beamlmax', 'beammmax', 'pol', 'infile', 'comm'], 'beam::read', 'ptr', ['beamlmax', 'beammmax', 'pol', 'infile', 'comm'])
status('conviqt_sky_read', ['ptr', 'skylmax', 'pol', 'infile', 'fwhm', 'comm'], 'sky::read', 'ptr', ['skylmax', 'pol', 'infile', 'fwhm', 'comm'])
value('conviqt_beam_lmax', 'beam::get_lmax', 'ptr'); value('conviqt_beam_mmax', 'beam::get_mmax', 'ptr'); value('conviqt_sky_lmax', 'sky::get_lmax', 'ptr')
value('conviqt_beam_normalize', 'beam::normalize', 'ptr'); value('conviqt_beam_normalized', 'beam::normalized', 'ptr')
for x in 'TGC':
    data('conviqt_beam_%sdata' % x, 'beam::blm' + x, 'ptr', '.Alms'); data('conviqt_sky_%sdata' % x, 'sky::slm' + x, 'ptr', '.Alms')
status('conviqt_sky_remove_monopole', ['ptr'], 'sky::remove_monopole', 'ptr', []); status('conviqt_sky_remove_dipole', ['ptr'], 'sky::remove_dipole', 'ptr', [])
status('conviqt_detector_set_epsilon', ['ptr', 'epsilon'], 'detector::set_epsilon', 'ptr', ['epsilon'])
status('conviqt_detector_set_id', ['ptr', 'det_id'], 'detector::set_id', 'ptr', ['det_id'])
status('conviqt_detector_get_epsilon', ['ptr', 'epsilon'], 'detector::get_epsilon', 'ptr', [], lambda c: [('the value is handed on', Imp(G(c, 'completed'), c['epsilon'][0] == G(c, 'result')))])
status('conviqt_detector_get_id', ['ptr', 'det_id'], 'detector::get_id', 'ptr', [], lambda c: [('the name goes into the given buffer', (Imp(G(c, 'completed'), G(c, 'copied') == z3.ToReal(ID(path_of(c, 'det_id')))) if G(c, 'copied') is not None else Not(G(c, 'completed'))))])
status('conviqt_pointing_alloc', ['ptr', 'n'], 'pointing::alloc', 'ptr', ['n'])
data('conviqt_pointing_data', 'pointing::begin', 'ptr', '')
CARGS = ['skyptr', 'beamptr', 'detptr', 'pol', 'lmax', 'beammmax', 'order', 'verbosity', 'comm']
def convolver_new(c):
    null = z3.BoolVal(isinstance(c.res, PtrVal) and c.res.path == 'null')
    if G(c, 'count') is None: return [('refused at once only for limits beyond any expansion', And(null, Or(c['lmax'] > 32767, c['beammmax'] > 32767)))]
    return [('a new object with the given arguments', did(c, 'new convolver', 'new convolver', CARGS)), ('null exactly on failure', And(G(c, 'completed') == z3.BoolVal(isinstance(c.res, PtrVal) and c.res.path == 'new convolver'), Not(G(c, 'completed')) == null))]
S('conviqt_convolver_new', CARGS, convolver_new)
status('conviqt_convolver_set_sky', ['cnv', 'sky'], 'convolver::set_sky', 'cnv', ['sky'])
status('conviqt_convolver_set_beam', ['cnv', 'beam'], 'convolver::set_beam', 'cnv', ['beam'])
status('conviqt_convolver_set_detector', ['cnv', 'det'], 'convolver::set_detector', 'cnv', ['det'])
status('conviqt_convolver_convolve', ['cnv', 'pnt', 'calibrate'], 'convolver::convolve', 'cnv', ['pnt', 'calibrate'])
PROPS = dict(C14=[s.key for s in SPECS])
