"""Developer tool: verify named functions and print every obligation that is not proved."""
import sys, time
sys.path.insert(0, '/verif')
from dv.verify import generate_all
from dv import smt
from dv.lib import load, unit
def main(argv):
    specs, models = load()
    v = '-v' in argv
    names = [a for a in argv if not a.startswith('-')]
    todo = []
    for k, sp in sorted(specs.items()):
        if sp.trusted or sp in todo: continue
        if not names or any(nm == k or nm == sp.name or nm in k for nm in names): todo.append(sp)
    t = time.time()
    gs = generate_all(specs, models, todo, [[unit(u) for u in (sp.unit or ['src/conviqt_math.cpp'])] for sp in todo])
    print('generation %.1fs' % (time.time() - t))
    t = time.time()
    allo = [(o, g['tab']) for g in gs for o in g['obs']]
    allr = smt.discharge(allo)
    print('solving %.1fs, %d obligations' % (time.time() - t, len(allo)))
    p = 0
    for sp, r in zip(todo, gs):
        if r['kind'] != 'ok':
            print('%-45s %s: %s' % (sp.key, r['kind'], r['error']))
            if v: print(r['trace'])
            continue
        obs = r['obs']; res = allr[p:p + len(obs)]; p += len(obs)
        bad = [(o, x) for o, x in zip(obs, res) if (x['status'] != 'proved') != (o['kind'] == 'vacuity')]
        print('%-45s obligations %d, failed %d, gen %.1fs solver %.1fs %s' % (sp.key, len(obs), len(bad), r['gen_time'], sum(x['time'] for x in res), r['opaque'] or ''))
        for o, x in bad:
            print('   ', x['status'], o['kind'], o['label'], 'L%s' % o['line'], '%.1fs' % x['time'], x['detail'][:300].replace('\n', ' ') if v else '')
            if '-s' in argv:
                for q, t in enumerate(o['texts']): open('/tmp/w/ob_%s_%d.smt2' % (o['label'].replace(' ', '_').replace('/', '_')[:80], q), 'w').write(smt.compose(r['tab'], t[0]))
        if v:
            for o, x in sorted(zip(obs, res), key=lambda z: -z[1]['time'])[:5]: print('      slow', o['kind'], o['label'], '%.2f' % x['time'], x['backend'])
if __name__ == '__main__': main(sys.argv[1:])
