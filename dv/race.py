"""Data races in OpenMP regions.

While the body of a parallel region is executed symbolically, every access to a location is recorded with its index
terms and the facts that hold there.  Two accesses to a location of the enclosing scope, at least one of them a
write, by two different threads and not separated by a barrier are an obligation: under the facts of both (the
quantities created inside the region are renamed in the second copy, so they belong to another thread or iteration)
the two index tuples differ.  Locations declared inside the region belong to one thread.
Barriers are only recognised at the end of worksharing loops; all other accesses of a region are taken as concurrent."""
import os, re
import z3
from .cast import REPO
from . import engine as EN
from .engine import And, Or, Not, Imp, I, TRUE, FALSE, is_z, ArrVal, PtrVal, RecVal, Unsupported

OKCLAUSE = re.compile(r'^(default\s*\(\s*shared\s*\)|shared\s*\([^()]*\)|schedule\s*\([^()]*\)|num_threads\s*\([^()]*\)|nowait|proc_bind\s*\([^()]*\))[\s,]*')

def clauses(E, n):
    """the clauses of a directive, from its source text (the syntax tree does not have them)"""
    from .execu import lineof
    ln = lineof(n)
    for u in E.units:
        src = u.src if os.path.isabs(u.src) else os.path.join(REPO, u.src)
        try: text = open(src, errors='replace').read().split('\n')
        except OSError: continue
        if ln is None or ln > len(text): continue
        s = text[ln - 1]
        m = re.match(r'\s*#\s*pragma\s+omp\s+(.*)$', s)
        if not m: continue
        s = m.group(1)
        while s.rstrip().endswith('\\') and ln < len(text):
            s = s.rstrip()[:-1] + ' ' + text[ln]; ln += 1
        s = re.sub(r'//.*|/\*.*?\*/', '', s).strip()
        m = re.match(r'((parallel|for|simd)\b\s*)*', s)
        rest, out = s[m.end():], []
        while rest:
            m = OKCLAUSE.match(rest)
            if not m: raise Unsupported('OpenMP clause ' + rest)
            out.append(re.sub(r'\s+', '', m.group(1))); rest = rest[m.end():]
        return out
    raise Unsupported('text of an OpenMP directive')

def consts(e, acc, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
            stack += x.children()

def leafsof(v):
    if is_z(v): return [v]
    if isinstance(v, ArrVal): return list(v.dims) + list(v.d.values())
    if isinstance(v, PtrVal): return [x for x in list(v.pre) + [v.off] if is_z(x)]
    if isinstance(v, RecVal): return [y for x in v.values() for y in leafsof(x)]
    return []

class Region:
    def __init__(self, E, n, states):
        self.E, self.n = E, n
        self.base = next(EN._ctr)
        self.uid = E._n
        self.start = states[0].copy() if states else None
        self.decl = set()
        self.units = []
        self.nfor = 0
        self.fn = E.frames[-1].fn.name if E.frames[-1].fn is not None else '?'
        E.tid = z3.Int('TID!%d' % next(EN._ctr))
        self.tid = E.tid
        self.clauses = clauses(E, n)
        self.shared_static = set()
    def private(self, path):
        root = path.split('.')[0]
        if root in self.shared_static: return False
        if root in self.decl: return True
        m = re.search(r'@(\d+)', root)
        if m and int(m.group(1)) > self.uid: return True
        return path not in self.start.v and path not in self.E.lazy
    def rename(self):
        """substitution for the second thread"""
        keep = set()
        for p, v in self.E.lazy.items():
            if self.private(p): continue
            for x in leafsof(v):
                acc = {}; consts(x, acc, set()); keep |= set(acc)
        memo = {}
        def f(e):
            i = e.get_id()
            if i not in memo:
                acc = {}; consts(e, acc, set())
                sub = []
                for nm, c in acc.items():
                    m = re.search(r'!(\d+)$', nm)
                    if m and int(m.group(1)) >= self.base and nm not in keep: sub.append((c, z3.Const(nm + "'", c.sort())))
                memo[i] = (z3.substitute(e, *sub) if sub else e, e)
            return memo[i][0]
        return f
    def prune(self, log):
        """shared accesses, without those implied by others"""
        out = {}
        for kind, path, leaf, idx, facts in log:
            if leaf != 'prefix' and self.private(path): continue
            idx = tuple(z3.simplify(x) if is_z(x) else x for x in idx)
            key = (kind, path, leaf, tuple(x.get_id() if is_z(x) else x for x in idx))
            l = out.setdefault(key, [])
            facts = [x for x in (facts or []) if not z3.is_quantifier(x)]
            ids = set(x.get_id() for x in facts)
            if any(o[5] <= ids for o in l): continue
            l[:] = [o for o in l if not ids <= o[5]]
            l.append((kind, path, leaf, idx, facts, ids))
        return [a for l in out.values() for a in l]
    def pairs(self, la, lb, extra, what, ren):
        E = self.E
        from .engine import State
        written = set(a[1] for a in la if a[0] in ('w', 'wr')) | set(b[1] for b in lb if b[0] in ('w', 'wr'))
        cnt, done = {}, set()
        for a in la:
            if a[1] not in written and a[2] != 'prefix': continue
            for b in lb:
                if a[2] == 'prefix' or b[2] == 'prefix':
                    x, y = (a, b) if a[2] == 'prefix' else (b, a)
                    if y[2] == 'prefix' or not y[1].startswith(x[1]): continue
                elif a[1] != b[1]: continue
                if (a[0] in ('r', 'rr') and b[0] in ('r', 'rr')): continue
                sw = (id(b), id(a))
                if la is lb and sw in done: continue
                done.add((id(a), id(b)))
                ka, kb = a[2], b[2]
                if not {'*', 'prefix'} & {ka, kb} and not (ka.startswith(kb) or kb.startswith(ka)): continue
                ib = [ren(x) if is_z(x) else x for x in b[3]]
                if {'*', 'prefix'} & {ka, kb} or not a[3] or not b[3]: hit = TRUE
                elif a[0] in ('wr', 'rr') or b[0] in ('wr', 'rr'):
                    def rng_(z, i): return (i[0], i[0] + i[1]) if z[0] in ('wr', 'rr') else (i[-1], i[-1] + 1)
                    (p0, p1), (q0, q1) = rng_(a, a[3]), rng_(b, ib)
                    hit = And(p0 < q1, q0 < p1)
                elif len(a[3]) != len(ib): hit = TRUE
                else: hit = And(*[x == y for x, y in zip(a[3], ib)])
                s = State(E)
                fb = [ren(x) for x in b[4]]
                seen = set()
                for x in a[4] + fb + extra:
                    if x.get_id() not in seen: seen.add(x.get_id()); s.assume(x)
                nm = a[1].split('@')[0]
                cnt[nm] = cnt.get(nm, 0) + 1
                E.oblige(s, 'race', '%s:%s:%s#%d' % (self.fn, what, nm, cnt[nm]), Not(hit), self.n)
        if not cnt: E.oblige(self.start, 'race', '%s:%s:nothing shared is written' % (self.fn, what), TRUE, self.n)
    def finish(self, log):
        E = self.E
        ren = self.rename()
        other = self.tid != ren(self.tid)
        out = self.prune(log)
        us = [dict(u, acc=self.prune(u['log'])) for u in self.units]
        self.pairs(out, out, [other], 'outside the loops', ren)
        for u in us:
            self.pairs(u['acc'], u['acc'], [other, u['iv'] != ren(u['iv'])], 'loop %d' % u['num'], ren)
            self.pairs(out, u['acc'], [other], 'loop %d and outside' % u['num'], ren)
        for i, u in enumerate(us):
            if 'nowait' not in u['clauses'] or u['last']: continue
            later = us
            if not any(x['inner_loop'] for x in us):
                later = []
                for w in us[i + 1:]:
                    later.append(w)
                    if 'nowait' not in w['clauses']: break
            for w in later:
                same = w['sched'] == u['sched'] and u['sched'].startswith('schedule(static') and all(x.eq(y) for x, y in zip(u['bounds'], w['bounds']))
                if u is w and same: continue
                self.pairs(u['acc'], w['acc'], [other] + ([u['iv'] != ren(w['iv'])] if same else []), 'loops %d and %d without a barrier' % (u['num'], w['num']), ren)
    def add_loop(self, d, n, bstart, log, iv, cond, entry, num):
        cl = clauses(self.E, d)
        b = bstart.v.get(iv)
        if not is_z(b): raise Unsupported('variable of a worksharing loop')
        q = entry.copy()
        E = self.E
        E.quiet += 1; lg, E.log = E.log, None
        try: bounds = [x for x in [entry.v.get(iv), E.toz(E.ev(cond, q), EN.B) if cond else TRUE] if is_z(x)]
        finally: E.quiet -= 1; E.log = lg
        self.units.append(dict(log=log, iv=b, clauses=cl, num=num, sched=next((c for c in cl if c.startswith('schedule')), ''), bounds=bounds, last=self.is_last(d), inner_loop=self.in_loop(d)))
    def is_last(self, d):
        """the region ends right after the loop"""
        if d is self.n: return True
        b = self.E.omp_body(self.n)
        return b is d or (b['kind'] == 'CompoundStmt' and b.get('inner') and b['inner'][-1] is d)
    def in_loop(self, d):
        def walk(x, lp):
            if x is d: return lp
            if not isinstance(x, dict): return None
            lp = lp or x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
            for c in x.get('inner', []):
                r = walk(c, lp)
                if r is not None: return r
            return None
        return d is not self.n and bool(walk(self.E.omp_body(self.n), False))
