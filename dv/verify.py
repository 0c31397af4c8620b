"""Verification of one function against its contract."""
import os, sys, time, traceback
import z3
from .engine import *
from .execu import *
from . import models as M
from . import prof

class Result:
    def __init__(self, spec):
        self.spec, self.obs, self.error, self.kind = spec, [], None, 'ok'
        self.inlined, self.called, self.opaque = set(), set(), set()
        self.notes = []

class Verifier(Engine):
    def __init__(self, units, specs, models=None, opts=None):
        m = dict(M.MODELS)
        m.update(models or {})
        Engine.__init__(self, units, specs, m, opts)

    def find_root(self, sp):
        l = []
        for u in self.units:
            l += u.funcs.get(sp.name, [])
        if sp.type: l = [f for f in l if sp.type in f.type] 
        if sp.nargs is not None: l = [f for f in l if len(f.params) == sp.nargs]
        seen, out = set(), []
        for f in l:
            if f.type not in seen:
                seen.add(f.type); out.append(f)
        if not out: raise Unattached('function %s not found' % sp.name)
        return out[0]

    def verify(self, sp):
        f = self.find_root(sp)
        self.root_fn, self.cur, self.cur_spec = f, sp.name, sp
        self.opts = dict(self.opts, **sp.opts)
        self.nan = set('p:' + n for n in sp.nan)
        st = State(self)
        cls = f.cls if hasattr(f, 'cls') else None
        this = LV('this', (), '', Ty('obj', f.cls)) if f.cls and not f.node.get('storageClass') == 'static' else None
        fr = Frame(f, this)
        names = sp.params if sp.params is not None else [p.get('name') for p in f.params]
        if sp.params is not None and len(sp.params) != len(f.params):
            raise Unattached('%s has %d parameters, the contract knows %d' % (sp.name, len(f.params), len(sp.params)))
        vals = {}
        for nm, p in zip(names, f.params):
            pt = ty(p['type'])
            t = pt.a[0] if pt.k == 'ref' else pt
            path = 'p:' + nm
            lv = LV(path, (), '', t)
            if t.k != 'obj':
                v = self.init_of(path, t)
                if path in self.nan:
                    if isinstance(v, ArrVal):
                        v.d['~nan'] = fresh(path + '~nan', z3.ArraySort(I, B))
                    else:
                        v = FV(v, fresh(path + '~nan', B)); self.lazy[path] = v
                st.v[path] = v
                self.type_facts(st, v, t)
            vals[nm] = lv
            fr.env[p['id']] = lv
            fr.names.setdefault(p.get('name'), []).append(p['id'])
            if nm != p.get('name'): fr.names.setdefault(nm, []).append(p['id'])
        self.entry = st
        c = Ctx(self, st, vals, this, st)
        for lab, g in sp.requires(c): st.assume(g)
        if sp.axioms:
            for g in sp.axioms(c): st.assume(g)
        if sp.defs:
            for g in sp.defs(c): st.assume(g)
        # vacuity guard: the precondition must not be contradictory
        self.obs.append(Oblig(self.cur, 'vacuity', 'precondition-reachable', list(st.facts), FALSE))
        if sp.lemmas: self.prove_lemmas(st, sp.lemmas(c))
        entry = st.copy()
        self.entry = entry
        self.frames = [fr]
        self.throws = [[]]
        run = st.copy()
        for ci in f.inits: self.ctor_init(ci, run, this)
        outs = self.exec(f.body, [run])
        for s in outs: fr.returns.append((s, None))
        thrown = self.throws[0]
        ex = 0
        for s, v in fr.returns:
            if self.dead(s): continue
            ex += 1
            if isinstance(v, LV):
                try: v2 = self.rd(s, v) if (v.t.k in ('int','real','bool','rec') ) else v
                except Exception: v2 = v
            else: v2 = v
            pc = Ctx(self, s, vals, this, entry, v2)
            pc.fr = fr
            self.obs.append(Oblig(self.cur, 'vacuity', 'exit-reachable', list(s.facts), FALSE))
            if sp.hints:
                for g in sp.hints(pc): s.assume(g)
            for lab, g in (sp.steps(pc) if sp.steps else []):
                self.oblige(s, 'lemma', 'exit:' + lab, g)
                s.assume(g)
            for lab, g in sp.ensures(pc):
                self.oblige(s, 'postcondition', lab, g)
                s.assume(g)
            self.frame_check(s, sp, vals, this, entry, f)
        for t in thrown:
            t.st.facts = [x for x in t.st.facts if x is not DEAD]
            t.st.facts = [x for x in t.st.facts if not z3.is_false(x)] if any(z3.is_false(x) for x in t.st.facts) else t.st.facts
            if sp.throws_ok is not None and sp.throws_ok(t.what): continue
            if sp.exsures is None:
                self.oblige(t.st, 'no-exception', t.what or 'throw', FALSE)
            else:
                tc = Ctx(self, t.st, vals, this, entry)
                for lab, g in sp.exsures(tc):
                    self.oblige(t.st, 'exceptional-postcondition', lab, g)
                if sp.modifies_throw is not None: self.frame_check(t.st, sp, vals, this, entry, f, sp.modifies_throw)
        if ex == 0 and not thrown:
            raise Unsupported('no reachable exit')
        missing = [k for k in sp.loops if isinstance(k, int) and k not in sp.used_loops]
        if missing: raise Unattached('loop contracts %s were not reached' % missing)
        return self.obs

    def prove_lemmas(self, st, items):
        """each lemma is an obligation; `only` names the earlier lemmas and known facts its proof may use"""
        from .spec import Fact, Induct
        known = {}
        base = len(st.facts)
        def ctx(it):
            if it.only is None: return st.copy()
            s = st.copy(); use = []
            for x in it.only:
                if isinstance(x, str): use += known[x]
                elif isinstance(x, (list, tuple)): use += list(x)
                else: use.append(x)
            for x in use:
                if not any(x.eq(y) for y in st.facts): raise Unsupported('lemma %s uses a fact that is not known: %s' % (it.name, str(x)[:200]))
            s.facts = list(use)
            return s
        for it in items:
            s1 = ctx(it)
            if isinstance(it, Fact):
                self.oblige(s1, 'lemma', it.name, it.f)
                f = it.f
            else:
                x = it.var
                lo = iv(it.lo) if isinstance(it.lo, int) else it.lo
                a = fresh('ind', I)
                sub = lambda e: z3.substitute(it.P, (x, e))
                self.oblige(s1, 'lemma', it.name + ':base', sub(lo))
                s2 = ctx(it)
                s2.assume(a >= lo)
                if it.hi is not None: s2.assume(a < it.hi)
                s2.assume(sub(a))
                self.oblige(s2, 'lemma', it.name + ':step', sub(a + 1))
                g = And(x >= lo, x <= it.hi) if it.hi is not None else x >= lo
                if it.vs: f = z3.ForAll([x] + it.vs, Imp(g, it.body), patterns=list(it.pats)) if it.pats else z3.ForAll([x] + it.vs, Imp(g, it.body))
                else: f = z3.ForAll([x], Imp(g, it.P), patterns=list(it.pats)) if it.pats else z3.ForAll([x], Imp(g, it.P))
            st.assume(f)
            known[it.name] = [f]

    def frame_check(self, s, sp, vals, this, entry, f, mods=None):
        """nothing outside `modifies` changed"""
        if sp.opts.get('noframe'): return
        allowed = set()
        for m in (sp.modifies if mods is None else mods):
            if m.startswith('this.'): allowed.add('this' + m[4:])
            elif m in vals:
                allowed.add(vals[m].path)
                v = entry.v.get(vals[m].path)
                if isinstance(v, PtrVal): allowed.add(v.path)
        byval = set(vals[nm].path for nm, p in zip(list(vals), f.params) if ty(p['type']).k != 'ref')
        bad = []
        for p, v in s.v.items():
            if not (p.startswith('p:') or p.startswith('this') or p.startswith('global.')): continue
            if p in byval or any(p == a or p.startswith(a + '.') or p.startswith(a + '*') for a in allowed): continue
            if p.startswith('this.t_') or p.startswith('this.n_'): continue   # profiling counters
            o = entry.v.get(p, self.lazy.get(p))
            if o is None or same(o, v): continue
            if isinstance(v, Opaque) or isinstance(o, Opaque): continue
            bad.append((p, o, v))
        for p, o, v in bad:
            self.oblige(s, 'frame', p, eqval(o, v))

def eqval(a, b):
    if is_z(a) and is_z(b) and a.sort() == b.sort(): return a == b
    if isinstance(a, ArrVal) and isinstance(b, ArrVal):
        out = [x == y for x, y in zip(a.dims, b.dims)]
        ks = [z3.Const('fk%d' % i, I) for i in range(len(a.dims))]
        inb = And(*[And(k >= 0, k < d) for k, d in zip(ks, a.dims)])
        for l in a.d:
            if l in b.d: out.append(z3.ForAll(ks, Imp(inb, sel(a.d[l], ks) == sel(b.d[l], ks))))
        return And(*out)
    if isinstance(a, PtrVal) and isinstance(b, PtrVal):
        return And(z3.BoolVal(a.path == b.path), a.off == b.off)
    if isinstance(a, RecVal) and isinstance(b, RecVal):
        return And(*[eqval(a[k], b[k]) for k in a])
    if isinstance(a, FV) and isinstance(b, FV): return And(a.v == b.v, a.nan == b.nan)
    return FALSE

def run_spec(units, specs, sp, models=None, opts=None):
    r = Result(sp)
    from . import engine as EN
    prof.ABSTRACT_ALM = not sp.opts.get('real_alm')
    prof.ABSTRACT_ARR = not sp.opts.get('real_arr')
    EN._tc.clear()
    E = Verifier(units, specs, models, opts)
    t = time.time()
    try:
        E.verify(sp)
        r.obs = E.obs
    except Unattached as e:
        r.kind, r.error = 'unattached', str(e)
    except Unsupported as e:
        r.kind, r.error = 'unsupported', str(e)
    except z3.Z3Exception as e:
        r.kind, r.error = 'unsupported', 'z3: ' + str(e)[:200]
        r.trace = traceback.format_exc()
    except (KeyError, IndexError, AttributeError, TypeError, StopIteration, RecursionError, ValueError, AssertionError) as e:
        r.kind, r.error = 'unsupported', 'front end: %r' % (e,)
        r.trace = traceback.format_exc()
    r.inlined, r.called, r.opaque = E.inlined, E.called, E.opaque_calls
    r.gen_time = time.time() - t
    r.engine = E
    return r

def generate(units, specs, sp, models=None, race=None):
    """run_spec and the preparation of its queries in a process of its own, so that a contract's queries do not
    depend on the contracts handled before it -> dict with only plain data"""
    from . import smt
    try:
        r = run_spec(units, specs, sp, models)
        d = dict(kind=r.kind, error=r.error, gen_time=r.gen_time, inlined=sorted(map(str, r.inlined)), called=sorted(map(str, r.called)), opaque=sorted(map(str, r.opaque)), trace=getattr(r, 'trace', ''), obs=[], tab=None)
        if r.kind == 'ok':
            obs = r.obs if race is None else [o for o in r.obs if (o.kind == 'race') == race]
            d['obs'], d['tab'] = smt.prepare(obs)
        d['gen_time'] = r.gen_time
        return d
    except Exception as e:
        return dict(kind='unsupported', error='front end: %r' % (e,), gen_time=0, inlined=[], called=[], opaque=[], trace=traceback.format_exc(), obs=[], tab=None)

_job = None
def _gen(i):
    specs, models, todo, units, race = _job
    sp = todo[i]
    return generate(units[i], {k: s for k, s in specs.items() if s is not sp}, sp, models, race[i])

def generate_all(specs, models, todo, units, workers=8, race=None):
    """units: per contract its list of translation units; race: per contract None (all obligations), True (those about
    data races only) or False (the others) -> list of dict"""
    global _job
    import multiprocessing as mp
    if not todo: return []
    _job = (specs, models, todo, units, race or [None] * len(todo))
    with mp.get_context('fork').Pool(min(workers, len(todo)), maxtasksperchild=1) as p:
        return p.map(_gen, range(len(todo)), chunksize=1)
