#!/usr/bin/env python3
"""blind-spot search: source-level operator mutants in a scratch copy, judged by the reference-grammar checks.
usage: mutate.py N SEED [file-substring]   (prints the survivors)"""
import sys, os, random, re, json, subprocess, shutil, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from zkv import build, golden, units, terms
from zkv.ir import Program
from zkv.props import CHECKS, Golden
from zkv.fp import compare, unpack

W = '/tmp/mutw'
SEEDS = range(100003, 100003 + 120)
G = {}


def ops(line):
    out = []
    def sub(pat, rep, name):
        for m in re.finditer(pat, line):
            r = rep(m) if callable(rep) else rep
            out.append((name, line[:m.start()] + r + line[m.end():]))
    sub(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1), 'const+1')
    sub(r'0x([0-9a-fA-F]+)', lambda m: hex(int(m.group(1), 16) ^ 1), 'hex^1')
    sub(r' < ', ' <= ', '<'); sub(r' <= ', ' < ', '<='); sub(r' > ', ' >= ', '>'); sub(r' >= ', ' > ', '>=')
    sub(r' == ', ' != ', '=='); sub(r' != ', ' == ', '!=')
    sub(r' && ', ' || ', '&&'); sub(r' \|\| ', ' && ', '||')
    sub(r' \+ ', ' - ', '+'); sub(r' - ', ' + ', '-'); sub(r' \* ', ' + ', '*'); sub(r' / ', ' * ', '/')
    sub(r' \| ', ' & ', '|'); sub(r' & ', ' | ', '&'); sub(r'<<', '>>', '<<'); sub(r'>>', '<<', '>>')
    sub(r'\btrue\b', 'false', 'true'); sub(r'\bfalse\b', 'true', 'false')
    sub(r'\bgothic_1\b', 'gothic_2', 'g1')
    sub(r'\bif \((?!!)(.*)\) \{', lambda m: 'if (!(%s)) {' % m.group(1), 'ifnot')
    sub(r'\+\+', '--', '++')
    sub(r'\bint16_t\b', 'uint8_t', 'narrow'); sub(r'\buint32_t\b', 'uint16_t', 'narrow'); sub(r'\bu?int8_t\b', 'char16_t', 'widen')
    sub(r'read_uint\(', 'read_int(', 'ru'); sub(r'read_ushort\(', 'read_short(', 'rus'); sub(r'read_ubyte\(', 'read_byte(', 'rub')
    sub(r'\bbreak;', ';', 'nobreak'); sub(r'\bcontinue;', ';', 'nocont'); sub(r'\.x\b', '.y', 'xy'); sub(r'min', 'max', 'min')
    sub(r'"(\w+)"', lambda m: '"%sx"' % m.group(1), 'str')
    if re.match(r'^\t{2,}[\w>*(].*;\s*$', line) and not re.match(r'^\t+(return|auto|std::\w+<?.*>? \w+;|u?int\w* \w+|float \w+|bool \w+|throw|using|case)', line) and '(' + '' in line:
        out.append(('del', re.match(r'^\t*', line).group(0) + ';'))
    elif re.match(r'^\t{2,}[\w>*(\[\].-]+ [-+*/|&^]?= .*;\s*$', line):
        out.append(('del', re.match(r'^\t*', line).group(0) + ';'))
    return out


def mutants(n, seed, filt):
    rnd = random.Random(seed)
    fs = [f for f in build.sources('/repo') if filt in f]
    allm = []
    for f in fs:
        ls = open(f, encoding='latin1').read().split('\n')
        for i, l in enumerate(ls):
            if not l.startswith('\t\t') or 'ZKLOG' in l or 'throw ' in l or l.strip().startswith('//') or 'Win32' in f:
                continue
            for nm, nl in ops(l):
                allm.append((f, i, nm, nl))
            # swap with next simple statement
            if i + 1 < len(ls):
                a, b = l.strip(), ls[i + 1].strip()
                if a.endswith(';') and b.endswith(';') and ' = ' in a and ' = ' in b and not a.startswith(('return', 'auto', 'throw')) and not b.startswith(('return', 'auto')):
                    allm.append((f, i, 'swap', ls[i + 1] + '\n' + l))
                    # cross the left sides
                    la, ra = a.split(' = ', 1); lb, rb = b.split(' = ', 1)
                    ind = re.match(r'^\t*', l).group(0)
                    allm.append((f, i, 'cross', '%s%s = %s\n%s%s = %s' % (ind, lb, ra, ind, la, rb)))
    rnd.shuffle(allm)
    # at most one mutant per line and operator class
    seen, out = set(), []
    for m in allm:
        k = (m[0], m[1])
        if k in seen:
            continue
        seen.add(k)
        out.append(m)
    return out[:n]


def base_files():
    exe = build.extractor()
    build.program('/repo')
    return exe


def work(arg):
    idx, (f, i, nm, nl) = arg
    d = os.path.join(W, str(os.getpid()))
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree('/repo/src', d + '/src')
        shutil.copytree('/repo/include', d + '/include')
    t = f.replace('/repo', d)
    src = open(f, encoding='latin1').read()
    ls = src.split('\n')
    if nm in ('swap', 'cross'):
        ls[i:i + 2] = nl.split('\n')
    else:
        ls[i] = nl
    open(t, 'w', encoding='latin1').write('\n'.join(ls))
    out = os.path.join(d, 'o.json')
    try:
        r = subprocess.run([G['exe'], out, '%s/src,%s/include' % (d, d), t, '--'] + build.CXX + ['-I%s/include' % d, '-I%s/src' % d],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or 'error:' in r.stdout:
            return idx, 'nocompile', None
        s = open(out).read().replace(d + '/', '/repo/')
        open(out, 'w').write(s)
        p = Program()
        for u, o in G['outs'].items():
            p.load(out if u == f else o)
        p.finish()
        terms.ENUM_UNDER.clear(); terms.ENUM_UNDER.update(p.enum_under); terms._wcache.clear()
        hit = []
        for pid, us in G['units'].items():
            now = {u.id: u for u in CHECKS[pid].units(p)}
            for uid, fns in us.items():
                if f not in fns and len(fns) and G.get('all') != 2:
                    continue
                u = now.get(uid)
                if u is None:
                    hit.append((pid, uid, 'gone')); break
                cur = units.summarise(p, u)
                dd, _ = golden.judge(p, u, cur, G['ref'][pid][uid], SEEDS, 4)
                if dd:
                    hit.append((pid, uid, dd['what'][:150])); break
            if hit and not G['all']:
                break
        return idx, 'hit' if hit else 'miss', hit
    except Exception as e:
        import traceback
        return idx, 'crash', traceback.format_exc()[-400:]
    finally:
        open(t, 'w', encoding='latin1').write(src)


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    filt = sys.argv[3] if len(sys.argv) > 3 else ''
    G['all'] = False
    G['exe'] = build.extractor()
    p = build.program('/repo')
    G['outs'] = p.outs
    G['units'], G['ref'] = {}, {}
    for pid, c in CHECKS.items():
        if not isinstance(c, Golden):
            continue
        G['ref'][pid] = golden.load(pid)
        G['units'][pid] = {}
        for u in c.units(p):
            s = units.summarise(p, u)
            G['units'][pid][u.id] = {p.funcs[k]['loc'].split(':')[0] for k in set(s.inlined) | {u.key} if k in p.funcs} | {k.split('@')[1].split(':')[0] for k in s.inlined if k.startswith('lambda@')}
    ms = mutants(n, seed, filt) if len(sys.argv) < 6 else [('/repo/' + sys.argv[3], int(sys.argv[4]) - 1, 'one', sys.argv[5])]
    shutil.rmtree(W, ignore_errors=True)
    st = {}
    if len(sys.argv) > 5:
        print(work((0, ms[0])))
        return
    with ProcessPoolExecutor(8) as ex:
        for idx, r, h in ex.map(work, list(enumerate(ms))):
            st[r] = st.get(r, 0) + 1
            f, i, nm, nl = ms[idx]
            if r in ('miss', 'crash'):
                print('%s %s:%d [%s] %s   <- %s %s' % (r, f.replace('/repo/', ''), i + 1, nm, nl.strip()[:110].replace('\n', ' // '), open(f, encoding='latin1').read().split('\n')[i].strip()[:110], h if r == 'crash' else ''))
                sys.stdout.flush()
    print(st)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
