#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: confirms planted bugs in a scratch copy and writes them to /verif/seeded.
SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=C++ source)]."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/plant/repo'
DEMO = '''#!/bin/bash
# builds demo.cc against the library in $PWD/_build and runs it: exit 0 when the property held
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
lib=$(find _build -name libzenkit.a | head -1)
g++ -std=c++20 -O0 -g -D_ZK_WITH_MMAP=1 -I include -I vendor "$d/demo.cc" $lib -lsquish -o "$t/demo" || exit 98
cd "$t" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests():
    shutil.rmtree('/tmp/plant/rep', ignore_errors=True)
    os.makedirs('/tmp/plant/rep')
    sh('cd %s/tests && python3 /opt/vp/run_doctest.py %s/_build/test-zenkit /tmp/plant/rep' % (R, R))
    ok = {l[5:].strip() for l in open('/tmp/plant/rep/results.txt') if l.startswith('PASS')}
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (R, R))
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', s['id'])
    sh('git -C %s checkout -q -f .' % R)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cc', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    b = sh('ninja -C %s/_build' % R)
    assert b.returncode == 0, b.stdout[-800:]
    a = sh('bash %s/demo.sh' % d, cwd=R)
    bad = ''
    if a.returncode:
        bad = 'demo fails on the unchanged tree rc=%d\n%s' % (a.returncode, (a.stdout + a.stderr)[-1500:])
    else:
        for f, old, new in s['edits']:
            t = open(os.path.join(R, f)).read()
            if t.count(old) != 1:
                bad = 'edit does not apply once in %s: %d' % (f, t.count(old))
                break
            open(os.path.join(R, f), 'w').write(t.replace(old, new))
    if not bad:
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        b = sh('ninja -C %s/_build' % R)
        if b.returncode:
            bad = 'does not build ' + b.stdout[-600:]
        else:
            m = tests()
            if m:
                bad = 'tests fail: %s' % sorted(m)[:3]
            else:
                c = sh('bash %s/demo.sh' % d, cwd=R)
                if c.returncode in (0, 98, 99):
                    bad = 'demo rc=%d with the change\n%s' % (c.returncode, (c.stdout + c.stderr)[-600:])
    if bad:
        print('REJECT', s['id'], bad)
        shutil.rmtree(d)
    else:
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('kept', s['id'])
sh('git -C %s checkout -q -f .' % R)
