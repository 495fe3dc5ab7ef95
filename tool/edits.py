#!/usr/bin/env python3
"""applies hand-written behaviour-preserving edits (or bugs) to single source files in memory copies and reports what the checks say

usage: tool/edits.py FILE.py [name-substr]     FILE.py defines E = [(name, 'src/X.cc', [(old, new), ...]), ...]
"""
import os, sys, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mutate
from mutate import *

HEADER = {'DaedalusVm.hh': ['/verif/tu/vm.cc', '/repo/src/DaedalusVm.cc'],
          'DaedalusScript.hh': ['/verif/tu/vm.cc', '/repo/src/DaedalusScript.cc', '/repo/src/DaedalusVm.cc'],
          'Stream.hh': ['/repo/src/Font.cc', '/repo/src/Mesh.cc', '/repo/src/Stream.cc', '/repo/src/MultiResolutionMesh.cc']}


def work(arg):
    name, f, subs = arg
    f = '/repo/' + f
    d = os.path.join(W, str(os.getpid()))
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree('/repo/src', d + '/src')
        shutil.copytree('/repo/include', d + '/include')
    t = f.replace('/repo', d)
    src = open(f, encoding='latin1').read()
    s = src
    for a, b in subs:
        a = a.strip('\n'); b = b.strip('\n')
        if s.count(a) != 1:
            return name, 'BADEDIT', '%d matches of %r' % (s.count(a), a[:60])
        s = s.replace(a, b)
    open(t, 'w', encoding='latin1').write(s)
    out = os.path.join(d, 'o.json')
    try:
        new = {}
        for k, src_tu in enumerate(HEADER.get(os.path.basename(f), [f])):
            out = os.path.join(d, 'o%d.json' % k)
            r = subprocess.run([G['exe'], out, '%s/src,%s/include,/verif/tu' % (d, d), src_tu.replace('/repo', d), '--'] + build.CXX + ['-I%s/include' % d, '-I%s/src' % d],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or 'error:' in r.stdout:
                return name, 'nocompile', [l for l in r.stdout.split('\n') if 'error' in l][:1]
            s = open(out).read().replace(d + '/', '/repo/')
            open(out, 'w').write(s)
            new[src_tu] = out
        p = Program()
        for u in list(new) + [u for u in G['outs'] if u not in new]:
            p.load(new.get(u) or G['outs'][u])
        p.finish()
        terms.ENUM_UNDER.clear(); terms.ENUM_UNDER.update(p.enum_under); terms._wcache.clear()
        hit = []
        for pid, us in G['units'].items():
            now = {u.id: u for u in CHECKS[pid].units(p)}
            for uid, fns in us.items():
                if f not in fns and len(fns):
                    continue
                u = now.get(uid)
                if u is None:
                    hit.append((pid, uid, 'gone')); continue
                cur = units.summarise(p, u)
                dd, _ = golden.judge(p, u, cur, G['ref'][pid][uid], SEEDS, 4)
                if dd:
                    hit.append((pid, uid, {k: str(v)[:140] for k, v in dd.items()}))
        return name, 'hit' if hit else 'miss', hit
    except Exception:
        import traceback
        return name, 'crash', traceback.format_exc()[-500:]
    finally:
        open(t, 'w', encoding='latin1').write(src)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    es = [e for e in ns['E'] if len(sys.argv) < 3 or sys.argv[2] in e[0]]
    G['exe'] = build.extractor()
    p = build.program('/repo')
    G['outs'] = p.outs
    G['units'], G['ref'] = {}, {}
    for pid, c in CHECKS.items():
        if not isinstance(c, Golden):
            continue
        G['ref'][pid] = golden.load(pid)
        G['units'][pid] = {}
        for u in c.units(p):
            s = units.summarise(p, u)
            G['units'][pid][u.id] = {p.funcs[k]['loc'].split(':')[0] for k in set(s.inlined) | {u.key} if k in p.funcs} | {k.split('@')[1].split(':')[0] for k in s.inlined if k.startswith('lambda@')}
    shutil.rmtree(W, ignore_errors=True)
    st = {}
    with ProcessPoolExecutor(8) as ex:
        for name, r, h in ex.map(work, es):
            st[r] = st.get(r, 0) + 1
            print(r.upper() if r != 'miss' else 'quiet', name)
            if h:
                for x in (h[:2] if isinstance(h, list) else [h]):
                    print('      ', str(x)[:700])
    print(st)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
