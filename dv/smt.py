"""Discharging obligations with SMT solvers, in parallel worker processes."""
import os, time, subprocess, tempfile, multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, as_completed
import z3

CVC5 = 'cvc5'

def to_smt2(facts, goal):
    s = z3.Solver()
    for f in facts: s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()

_fc = {}
def funcs(e):
    """names of the uninterpreted functions (not constants) in a formula"""
    k = e.get_id()
    r = _fc.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out, stack, seen = set(), [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            stack += x.children()
    _fc[k] = (e, frozenset(out))
    return _fc[k][1]

_hq = {}
def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is None or not r[0].eq(e): r = _hq[k] = (e, has_quant0(e))
    return r[1]
def has_quant0(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        stack += x.children()
    return False

def focused(facts, goal):
    """sublists of the facts, smallest first: leaving facts out is sound and keeps the solver on the point"""
    q = [(f, funcs(f)) if has_quant(f) else (f, None) for f in facts]
    nq = sum(1 for _, x in q if x is not None)
    if nq < 3: return []
    out, S = [], set(funcs(goal))
    for rnd in range(3):
        keep = [f for f, x in q if x is None or x <= S]
        if len(keep) < len(facts) and (not out or len(keep) > len(out[-1])): out.append(keep)
        S2 = set(S)
        for f, x in q:
            y = x if x is not None else funcs(f)
            if y & S: S2 |= y
        if S2 == S: break
        S = S2
    return out

_nl = {}
def nonlinear(e):
    k = e.get_id()
    r = _nl.get(k)
    if r is not None and r[0].eq(e): return r[1]
    ans, stack, seen = False, [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            kd = x.decl().kind()
            if kd == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1: ans = True; break
            if kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))): ans = True; break
            stack += x.children()
    _nl[k] = (e, ans)
    return ans

def variants(facts, goal):
    """smaller sets of facts to try first; leaving facts out is sound and keeps the solver on the point"""
    out = focused(facts, goal)
    n = len(facts)
    tail = facts[-8:] if n > 12 else []
    res = []
    def add(l):
        ids = tuple(id(x) for x in l)
        if len(l) < n and all(ids != r for r, _ in res): res.append((ids, l))
    if tail: add(tail)
    for l in out[:2]:
        if tail and nonlinear(goal): add([f for f in l if has_quant(f)] + [f for f in facts if not has_quant(f) and not nonlinear(f)])
    for l in out[:2]:
        if tail: add([f for f in l if has_quant(f)] + [f for z, f in enumerate(facts) if not has_quant(f) and (z >= n - 8 or not nonlinear(f))])
    if not nonlinear(goal):
        for l in out + [facts]: add([f for f in l if not nonlinear(f)])
    for l in out: add(l)
    return [l for _, l in res]

def _z3_try(txt, ms, cfg):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx) if not cfg.get('tactic') else z3.Tactic(cfg['tactic'], ctx=ctx).solver()
    s.set('timeout', ms)
    for k, v in cfg.items():
        if k != 'tactic':
            s.set(k, v)
    s.from_string(txt)
    t = time.time()
    r = s.check()
    m = None
    if r == z3.sat:
        try: m = str(s.model())[:6000]
        except Exception: m = ''
    return str(r), s.reason_unknown() if r == z3.unknown else '', m, time.time() - t

def _cli(cmd, txt, sec):
    t = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt); p = f.name
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=sec + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        o = 'unknown'
    finally:
        os.unlink(p)
    return o, time.time() - t

def solve(job):
    """job: (index, smt text, budget scale) -> (index, status, backend, seconds, detail)"""
    idx, txt, scale, vac, small = job
    total = 0.0
    detail = ''
    for cfg, lim in (({}, 700), ({'mbqi': False, 'auto_config': False}, 1500)):
        for st in small:
            try:
                r, why, m, t = _z3_try(st, int(lim * scale), cfg)
                total += t
                if r == 'unsat': return idx, 'proved', 'z3', total, ''
            except Exception: pass
    plan = [('z3', {}, 3000), ('z3', {'mbqi': False, 'auto_config': False}, 5000), ('cvc5', None, 8),
            ('z3', {'arith.solver': 2}, 10000), ('z3', {'mbqi': False, 'auto_config': False, 'random_seed': 7, 'relevancy': 0}, 20000), ('cvc5', None, 30), ('z3', {}, 30000)]
    if scale > 1: plan += [('z3', {'mbqi': b, 'auto_config': False, 'random_seed': sd, 'phase_selection': sd % 6}, 8000) for sd in (1, 2, 3) for b in (False, True)]
    if vac: plan = [('z3', {}, 1500), ('z3', {'mbqi': False, 'auto_config': False}, 2500)]
    for name, cfg, lim in plan:
        try:
            if name == 'z3':
                r, why, m, t = _z3_try(txt, int(lim * scale), cfg)
                total += t
                if r == 'unsat': return idx, 'proved', 'z3', total, ''
                if r == 'sat': return idx, 'refuted', 'z3', total, m
                detail = why
            else:
                r, t = _cli([CVC5, '--tlimit=%d' % int(lim * 1000 * scale), '--lang=smt2'], txt, lim * scale)
                total += t
                if r == 'unsat': return idx, 'proved', 'cvc5', total, ''
                if r == 'sat': return idx, 'refuted', 'cvc5', total, 'sat'
        except Exception as e:
            detail = repr(e)[:300]
    return idx, 'unknown', '', total, detail

def trivial(facts, goal):
    if z3.is_true(goal): return True
    for f in facts:
        if z3.is_false(f) or f.eq(goal): return True
    g = z3.simplify(goal)
    if z3.is_true(g): return True
    return False

def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children(): out += conjuncts(c)
        return out
    if z3.is_quantifier(g) and g.is_forall():
        nv = g.num_vars()
        vs = [z3.Const('%s!g%d' % (g.var_name(x), x), g.var_sort(x)) for x in range(nv)]
        b = z3.substitute_vars(g.body(), *reversed(vs))
        return conjuncts(b)      # universally quantified goal: fresh constants
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), c) for c in conjuncts(g.arg(1))]
    return [g]

def decls(e):
    """declarations of the uninterpreted symbols in a formula"""
    out, stack, seen = set(), [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); stack += [x.pattern(k) for k in range(x.num_patterns())]; continue
        if isinstance(x, z3.PatternRef): stack += x.children(); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().sexpr())
            stack += x.children()
    return frozenset(out)

class Texts:
    """one line of text per formula, shared by the queries of a contract"""
    def __init__(self): self.ids, self.lines, self.decl, self.keep = {}, [], [], []
    def of(self, f):
        k = f.get_id()
        if k not in self.ids:
            self.ids[k] = len(self.lines)
            self.lines.append('(assert %s)' % f.sexpr()); self.decl.append(decls(f)); self.keep.append(f)
        return self.ids[k]

def compose(tab, idx):
    d = set()
    for x in idx: d |= tab[1][x]
    return '\n'.join(sorted(d)) + '\n' + '\n'.join(tab[0][x] for x in idx) + '\n(check-sat)\n'

def prepare(obs):
    """-> picklable description of the queries behind the obligations"""
    out, T, small = [], Texts(), {}
    for i, o in enumerate(obs):
        e = dict(kind=o.kind, label=o.label, line=o.line, goal=str(o.goal)[:1500] if o.kind != 'vacuity' else 'false', texts=[])
        out.append(e)
        if trivial(o.facts, o.goal): continue
        for c in conjuncts(o.goal):
            if trivial(o.facts, c): continue
            ng = T.of(z3.Not(c))
            q = tuple([T.of(f) for f in o.facts] + [ng])
            if q not in small: small[q] = [] if o.kind == 'vacuity' else [tuple([T.of(f) for f in v] + [ng]) for v in variants(o.facts, c)]
            e['texts'].append((q, small[q]))
    tab = (T.lines, T.decl)
    return out, tab

_tabs = None
def _solve(job):
    k, t, q, small, scale, vac = job
    return solve((k, compose(_tabs[t], q), scale, vac, [compose(_tabs[t], s) for s in small]))

def discharge(obs, workers=8, scale=1.0, deadline=None):
    """obs: list of (entry, table) as given by prepare.  returns a list of dict per obligation"""
    global _tabs
    tabs, tid, seen, vac = [], {}, {}, set()
    for i, (o, tab) in enumerate(obs):
        if id(tab) not in tid: tid[id(tab)] = len(tabs); tabs.append(tab)
        t = tid[id(tab)]
        for q, small in o['texts']:
            key = (t, q)
            if key not in seen: seen[key] = ([], small)
            seen[key][0].append(i)
            if o['kind'] == 'vacuity': vac.add(key)
    _tabs = tabs
    texts = list(seen)
    small = {k: v[1] for k, v in seen.items()}
    seen = {k: v[0] for k, v in seen.items()}
    agg = [dict(status='proved', backend=set(), time=0.0, detail='') for o in obs]
    if texts:
        ctx = mp.get_context('fork')
        with ProcessPoolExecutor(workers, mp_context=ctx) as ex:
            futs = {ex.submit(_solve, (k, t[0], t[1], small[t], scale, t in vac)): k for k, t in enumerate(texts)}
            try:
                for f in as_completed(futs, timeout=(deadline - time.time()) if deadline else None):
                    k, status, be, t, det = f.result()
                    done = set()
                    for i in seen[texts[k]]:
                        if i in done: continue
                        done.add(i)
                        a = agg[i]
                        a['time'] += t / len(seen[texts[k]])
                        if be: a['backend'].add(be)
                        if status == 'refuted' or (status == 'unknown' and a['status'] == 'proved'):
                            a['status'] = status; a['detail'] = det
                    futs[f] = None
            except Exception as e:
                for f, k in futs.items():
                    if k is not None:
                        f.cancel()
                        for i in seen[texts[k]]:
                            if agg[i]['status'] == 'proved':
                                agg[i]['status'] = 'unknown'; agg[i]['detail'] = 'deadline'
                for p in list(getattr(ex, '_processes', {}).values()): p.kill()
    for a in agg: a['backend'] = '+'.join(sorted(a['backend'])) or 'simplifier'
    return agg
