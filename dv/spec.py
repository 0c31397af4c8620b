"""Contracts: what a function requires, ensures, may change, and the invariants of its loops."""
from .engine import Unattached

class Loop:
    """contract of one loop: inv(L) -> list of formulas or (name, formula)"""
    def __init__(self, inv=None, defs=None, body_hints=None, end_hints=None, exit_hints=None, after=None, variant=None, uses=(), at_end=None, at_begin=None):
        self.at_begin = at_begin
        self.at_end = at_end
        self.inv = inv or (lambda L: [])
        self.defs, self.body_hints, self.end_hints, self.exit_hints = defs, body_hints, end_hints, exit_hints
        self.after, self.variant = after, variant

def _lst(f):
    def g(c):
        out = []
        for i, x in enumerate(f(c) if f else []):
            out.append(x if isinstance(x, tuple) else ('%d' % i, x))
        return out
    return g

class Spec:
    def __init__(self, name, params=None, requires=None, ensures=None, exsures=None, may_throw=False, modifies=(),
                 modifies_throw=None, keep_dims=(), result_lv=None, after=None, loops=None, nloops=None, opts=None,
                 unit=None, type=None, nargs=None, nan=(), axioms=None, hints=None, exits=None, note='', trusted=False,
                 throws_ok=None, inline_ok=(), lemmas=None, key=None, callable=False, defs=None, steps=None):
        self.steps = _lst(steps) if steps else None     # proved at the exit before the postcondition, not shown to callers
        self.defs = defs     # definitions of ghost functions by the values at one call: assumed in the body and at the call, which may happen once
        self.callable = callable
        self.lemmas = lemmas
        self.key = key or name
        self.name, self.params = name, params
        self.requires, self.ensures, self.exsures = _lst(requires), _lst(ensures), (_lst(exsures) if exsures else None)
        self.may_throw = may_throw or exsures is not None
        self.modifies, self.modifies_throw, self.keep_dims = list(modifies), modifies_throw, list(keep_dims)
        self.result_lv, self.after = result_lv, after
        self.loops = loops if loops is not None else {}
        self.nloops = nloops
        self.opts = opts or {}
        self.unit, self.type, self.nargs, self.nan = unit, type, nargs, nan
        self.axioms, self.hints, self.exits = axioms, hints, exits
        self.note, self.trusted = note, trusted
        self.throws_ok = throws_ok
        self.used_loops = set()
        self.call_nargs = None

    def loop_for(self, E, fr, num, L, mod):
        if fr.fn is not E.root_fn and not self.loops.get('inlined'):
            return None
        n = len(E.loop_order(fr))
        if self.nloops is not None and n != self.nloops and fr.fn is E.root_fn:
            raise Unattached('%s has %d loops, the contract knows %d' % (self.name, n, self.nloops))
        l = self.loops.get(num)
        if l is not None: self.used_loops.add(num)
        return l

class Fact:
    """a lemma proved from the facts at function entry"""
    def __init__(self, name, f, only=None): self.name, self.f, self.only = name, f, only

class Induct:
    """forall x >= lo (and x <= hi): P(x), proved by induction; obligations base and step"""
    def __init__(self, name, var, P, lo=0, hi=None, pats=(), only=None):
        self.only = only
        self.name, self.var, self.lo, self.hi, self.pats = name, var, lo, hi, pats
        if isinstance(P, tuple):
            import z3
            self.vs, self.body = list(P[0]), P[1]
            self.P = z3.ForAll(self.vs, self.body)
        else: self.vs, self.body, self.P = [], P, P
