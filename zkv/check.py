"""python3 -m zkv.check <property> [--tier quick|thorough] | --gen <property>|all"""
import json, os, sys, time
from .build import VERIF, program, Broken, extractor
from . import props

KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and not l.startswith('#'):
                o = json.loads(l)
                if o['property'] == pid and o.get('status') == 'known':
                    out.append(o)
    return out


def main(argv):
    if argv[:1] == ['--setup']:
        extractor()
        p = program()
        print('analysed %d functions' % len(p.funcs))
        return 0
    if argv[:1] == ['--gen']:
        p = program()
        ids = sorted(props.CHECKS) if argv[1] == 'all' else argv[1:]
        for i in ids:
            c = props.CHECKS[i]
            if hasattr(c, 'gen'):
                print(i, c.gen(p))
        return 0
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        p = program()
        c = props.CHECKS[pid]
        viol, stats, broken = c.run(p, tier, seed)
    except Broken as e:
        print('ERROR %s' % e)
        return 3
    kn = known(pid)
    fresh, seen = [], []
    for v in viol:
        k = next((k for k in kn if matches(k, v)), None)
        if k is None:
            fresh.append(v)
        elif k not in seen:
            seen.append(k)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': c.level, 'wall_s': round(time.time() - t0, 2),
          'coverage': dict(stats, explanation=c.explanation)}
    if c.level == 'proof':
        ev['coverage'].setdefault('checker_cmd', 'python3 -m zkv.check %s' % pid)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', pid + '.violations.json')
    if os.path.exists(rep):
        os.remove(rep)
    if fresh or seen:
        ev['coverage']['violations'] = len(fresh)
        ev['coverage']['known_findings'] = len(seen)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if fresh:
        with open(rep, 'w') as f:
            json.dump(fresh, f, indent=1)
        for v in fresh[:40]:
            print('%s: %s [%s]' % (v.get('loc', ''), v['what'], v.get('unit', '')))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if broken:
        for v in broken[:10]:
            print('ERROR %s: %s' % (v.get('unit'), v['what']))
        return 3
    print('ok property=%s %s' % (pid, json.dumps(stats, sort_keys=True)))
    return 0


def matches(k, v):
    m = k['match']
    return all(x in json.dumps(v.get(f, '')) if f != 'unit' else x == v.get('unit') for f, x in m.items())


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
