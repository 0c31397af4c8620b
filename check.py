#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property on /repo's current tree.

1. Every function the property depends on that has a contract (specs/) is read from /repo's current source, and
   the verifier (dv/) generates and discharges its obligations.
2. The functions without a contract, and the replay of failed obligations, are covered by a bounded native harness
   (native/), compiled from the same sources.  Its result is reported as bounded and never counted as proved.
"""
import os, sys, json, time, subprocess, tempfile, threading, shutil, signal, traceback, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
PY = '/opt/veriftools/pyvenv/bin/python'
T0 = time.time()
from props import PROPS      # per property: harness, process counts, level, notes

def env():
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1',
        OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/false', OMPI_MCA_rmaps_base_oversubscribe='1',
        OMPI_MCA_mpi_yield_when_idle='1', OMP_NUM_THREADS=e.get('VERIF_THREADS', '2'), ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0')
    e.setdefault('HOME', '/root')
    return e

class Native:
    def __init__(self, pid, cfg, seed, tier):
        self.pid, self.cfg, self.seed, self.tier = pid, cfg, seed, tier
        self.dir = tempfile.mkdtemp(prefix='vn.')
        self.built, self.log, self.runs, self.findings, self.fail = False, '', [], set(), None
        self.thread = threading.Thread(target=self.first, daemon=True)
        self.thread.start()
    def build(self):
        try:
            r = subprocess.run(['bash', os.path.join(VERIF, 'native', 'build.sh'), self.dir + '/b', '-O1', '-g', '-fsanitize=address'],
                capture_output=True, text=True, timeout=600, env=dict(env(), HARNESSES=self.cfg['harness'], REPO='/repo'))
            self.log = (r.stdout + r.stderr)[-6000:]
            self.built = r.returncode == 0
        except Exception as e:
            self.log = repr(e)
    def first(self):
        """build, then the quick part of the plan, next to the proofs"""
        self.build()
        if not self.built: return
        for i in range(self.cfg.get('seeds', 1)):
            for np in self.cfg['np']:
                if time.time() - T0 > 560: return
                self.fail = self.run(np, self.seed * 7919 + i, 'quick', self.cfg.get('timeout', 150))
                if self.fail: return
    def run(self, np, seed, tier, timeout):
        """-> None or a text describing the failing input"""
        tmp = tempfile.mkdtemp(prefix='r', dir=self.dir)
        exe = '%s/b/%s' % (self.dir, self.cfg['harness'])
        cmd = ([] if np == 1 else ['mpirun', '-np', str(np)]) + [exe, self.pid, str(seed), tier, tmp]
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), cwd=tmp, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
            out, _ = p.communicate()
        try: os.killpg(p.pid, signal.SIGKILL)
        except Exception: pass
        shutil.rmtree(tmp, ignore_errors=True)
        o = out.decode('utf8', 'replace')
        m = re.search(r'^OK \S+ cases (\d+)', o, re.M)
        r = dict(np=np, seed=seed, tier=tier, seconds=round(time.time() - t, 2), cases=int(m.group(1)) if m else 0, exit=rc)
        self.findings |= set(x for x in FINDINGS if 'FINDING ' + x in o)
        self.runs.append(r)
        if rc == 0 and m: return None
        f = re.search(r'^FAIL rank.*$', o, re.M)
        a = re.search(r'^==\d+==ERROR: AddressSanitizer.*$', o, re.M)
        x = f or a
        if rc != 'timeout' and not x and ('no slots' in o or 'ORTE' in o or 'PMIX' in o) and 'signal' not in o:
            r['note'] = 'launcher: ' + o[-400:]; r['launcher'] = True
            return None
        r['failure'] = x.group(0) if x else ('no answer after %d s' % timeout if rc == 'timeout' else 'the program ended with %s' % rc)
        return dict(what=r['failure'], command=' '.join(cmd[:-1]).replace(self.dir + '/b/', 'OUT/') + ' TMPDIR', build='HARNESSES=%s REPO=/repo bash %s/native/build.sh OUT -O1 -g -fsanitize=address' % (self.cfg['harness'], VERIF), output=o[-5000:])
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def prove(pid, deadline, thorough, settle=lambda: None):
    """-> list of results per contract"""
    from dv import smt
    from dv.lib import load, unit
    from dv.verify import generate_all
    specs, models = load()
    import importlib
    todo = []
    for f in sorted(os.listdir(os.path.join(VERIF, 'specs'))):
        if f.endswith('.py') and not f.startswith('_'):
            for k in getattr(importlib.import_module('specs.' + f[:-3]), 'PROPS', {}).get(pid, []):
                if k not in todo: todo.append(k)
    out, allobs, todo2, us = [], [], [], []
    for k in todo:
        race, key = k.startswith('race:'), k[5:] if k.startswith('race:') else k
        sp = specs[key]
        d = dict(function=sp.name, key=k, kind='ok', obligations=0, discharged=0, failed=[], seconds=0.0, backends={}, inlined=[], used=[], opaque=[])
        out.append(d)
        try:
            us.append([unit(u) for u in (sp.unit or ['src/conviqt_math.cpp'])])
            todo2.append((d, sp, race))
        except Exception as e:
            d['kind'], d['error'] = 'unsupported', 'front end: %r' % (e,)
    for (d, sp, _), r in zip(todo2, generate_all(specs, models, [sp for _, sp, _ in todo2], us, race=[x for _, _, x in todo2])):
        d['generation_s'] = round(r['gen_time'], 2)
        d['inlined'], d['used'], d['opaque'] = r['inlined'], r['called'], r['opaque']
        if r['kind'] != 'ok':
            d['kind'], d['error'] = r['kind'], r['error']
            continue
        allobs += [(d, o, r['tab']) for o in r['obs']]
    def go(items, scale):
        res = smt.discharge([(o, t) for _, o, t in items], workers=8, scale=scale, deadline=deadline)
        return [(d, o, x, t) for (d, o, t), x in zip(items, res)]
    done = go(allobs, 1.0)
    # a vacuity obligation states `false`: it must not be provable
    bad = [(d, o, t) for d, o, x, t in done if o['kind'] != 'vacuity' and x['status'] != 'proved']
    again = {}
    if bad and time.time() < deadline - 20:
        # the harness no longer competes for the processors; if it has found a failing input the verdict stands
        for d, o, x, t in ([] if settle() else go(bad, 3.0)): again[id(o)] = x
    for d, o, x, t in done:
        x = again.get(id(o), x)
        d['seconds'] += x['time']
        if o['kind'] == 'vacuity':
            if x['status'] == 'proved':
                d.setdefault('vacuous', []).append(o['label'])
            continue
        d['obligations'] += 1
        if x['status'] == 'proved':
            d['discharged'] += 1
            d['backends'][x['backend']] = d['backends'].get(x['backend'], 0) + 1
        else:
            d['failed'].append(dict(obligation='%s: %s: %s' % (d['function'], o['kind'], o['label']), line=o['line'], solver=x['status'], detail=str(x['detail'])[:3000], goal=o['goal']))
    for d in out: d['seconds'] = round(d['seconds'], 2)
    return out

def main(argv):
    pid = argv[1]
    if pid == '--setup':
        for c in ('clang++-18 --version', 'mpicxx --version', 'cvc5 --version'):
            subprocess.run(c, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        from dv.lib import load
        print('%d contracts' % len(load()[0]))
        return 0
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[pid]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', 'replay-%s.json' % pid)
    if os.path.exists(rp): os.unlink(rp)
    nat = Native(pid, cfg, seed, tier)
    limit = 800
    fail, notes, contracts = None, [], []
    try:
        try:
            contracts = prove(pid, T0 + (600 if thorough else 330), thorough, lambda: (nat.thread.join(300), nat.fail)[1])
        except Exception as e:
            notes.append('the verifier did not run: %r' % (e,)); traceback.print_exc()
        failed = [f for d in contracts for f in d['failed']]
        nat.thread.join(max(1, T0 + 700 - time.time()))
        fail = nat.fail
        if nat.built:
            per = cfg.get('timeout', 150)
            plan = []
            if thorough and not fail: plan = [(np, seed * 7919 + 100, 'thorough') for np in cfg['np']] + [(np, seed * 7919 + 200 + i, 'quick') for i in range(40) for np in cfg['np']]
            budget = T0 + limit - per
            for np, s, t in plan:
                if time.time() > budget: notes.append('time is up before the plan of the bounded search is complete'); break
                fail = nat.run(np, s, t, min(limit - (time.time() - T0), per * (4 if t == 'thorough' else 1)))
                if fail: break
            if failed and not fail:
                # search harder for an input that shows the failure
                end, i = min(T0 + limit - per, time.time() + 200), 0
                while time.time() < end and not fail and i < 60:
                    i += 1
                    fail = nat.run(cfg['np'][i % len(cfg['np'])], seed * 7919 + 1000 + i, 'quick', per)
        else: notes.append('the bounded harness does not compile against this tree: ' + nat.log[-1500:])
    finally:
        nat.close()
    for x in sorted(nat.findings):
        print('KNOWN-FINDING: property=%s %s' % (pid, FINDINGS[x]))
    ob, di = sum(d['obligations'] for d in contracts), sum(d['discharged'] for d in contracts)
    cases = sum(r['cases'] for r in nat.runs)
    off = [d for d in contracts if d['kind'] != 'ok']
    cov = dict(obligations=ob, discharged=di, checker_cmd='python3 check.py %s%s' % (pid, ' --thorough' if thorough else ''),
        trusted_base=TRUSTED + cfg.get('trusted', []),
        functions_under_contract=[dict(d, failed=len(d['failed'])) for d in contracts],
        solver_seconds=round(sum(d['seconds'] for d in contracts), 2),
        contracts_not_attached=['%s: %s' % (d['function'], d.get('error')) for d in off],
        bounded_standin=dict(label='bounded, not proved', harness='native/%s.cpp' % cfg['harness'], bound=cfg['bound'], runs=nat.runs, cases=cases),
        evaluations=cases, distinct_nontrivial=cases,
        rule='bounded stand-in: cases drawn from VERIF_SEED as described in bounded_standin.bound; each case compares the real code with an independent oracle',
        samples=[r for r in nat.runs[:3]] + [f['obligation'] for f in [x for d in contracts for x in d['failed']][:3]] + [d['function'] for d in contracts[:3]])
    rc = 0
    if fail:
        rc = 1
        json.dump(dict(property=pid, kind='failing input', **fail, failed_obligations=failed), open(rp, 'w'), indent=1)
        print(fail['what'])
        for f in failed[:5]: print('failed obligation:', f['obligation'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    elif failed:
        rc = 1
        json.dump(dict(property=pid, kind='failed obligation', failed_obligations=failed, searched=nat.runs), open(rp, 'w'), indent=1)
        for f in failed[:8]: print('failed obligation:', f['obligation'], 'line', f['line'], f['solver'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg['level'], coverage=cov,
        assumptions=ASSUME + cfg.get('assume', []) + notes, wall_s=round(time.time() - T0, 2), violations=rc)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d contracts (%d not attached), %d of %d obligations discharged, bounded stand-in %d cases in %d runs, %.0f s' % (pid, len(contracts), len(off), di, ob, cases, len(nat.runs), time.time() - T0))
    for d in off: print('not attached (bounded stand-in only):', d['function'], d.get('error'))
    for n in notes: print('note:', n[:600])
    return rc

FINDINGS = dict(pole='conviqt_hemiscm / conviqt_hemiscm_pol: grid nodes exactly at a pole lose their m=+-k (k>=1) terms because firstl=max(firstl1,firstl2) (known-findings.txt)',
    region='an allocation that fails inside an OpenMP region of the convolution ends the program instead of giving conviqt_convolver_convolve a nonzero status (known-findings.txt)')
TRUSTED = ['clang 18 (syntax tree of the real source)', 'dv/ (obligation generator)', 'z3 (of the Python tooling environment), cvc5 1.1.2']
ASSUME = ['doubles are treated as mathematical reals in the obligations; NaN is tracked where a contract says so',
    'MPI, cfitsio, the C++ library and the functions listed as opaque or trusted meet their documented behaviour']

if __name__ == '__main__':
    if os.path.exists(PY) and os.environ.get('VERIF_REEXEC') != '1':
        os.environ['VERIF_REEXEC'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'      # the same queries on every run
        os.execv(PY, [PY] + sys.argv)
    sys.exit(main(sys.argv))
