#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, props.py and specs/."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NA
def main():
    con = {}
    for f in sorted(os.listdir(V + '/specs')):
        if f.endswith('.py') and not f.startswith('_'):
            for k, l in getattr(importlib.import_module('specs.' + f[:-3]), 'PROPS', {}).items(): con.setdefault(k, []).extend(x for x in l if x not in con.get(k, []))
    checks = []
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)['id']
        if p not in PROPS: continue
        c = PROPS[p]; n = con.get(p, [])
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p,
            technique='contract-based deductive verification (function contracts, SMT)' + (' with bounded native replay' if n else '; no contract attached yet: bounded native stand-in'),
            level=c['level'] if n else 'exploration',
            level_note=('Contracts proved from the current source for all inputs: %s. ' % ', '.join(n) if n else '') + c.get('note', '') + ' Bounded, not counted as proved: native harness %s (%s). Assumes doubles behave as reals in the proofs; trusts clang, the obligation generator, z3 and cvc5.' % (c['harness'], c['bound'])))
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
        notes='No hooks: the contracts live in /verif/specs and are attached to the functions of /repo by name on every run. See DESIGN.md.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
