"""Reference effect grammars: writing them (gen) and deciding conformance of the current tree (check)."""
import gzip, json, os
from fractions import Fraction
from concurrent.futures import ProcessPoolExecutor
from .build import VERIF, Broken
from .fp import *
from .units import summarise, api
from .wire import dump

def enc(v):
    if isinstance(v, Fraction):
        return {'q': [v.numerator, v.denominator]}
    if isinstance(v, tuple):
        return {'p': list(v)}
    return v


def dec(v):
    if isinstance(v, dict):
        return Fraction(*v['q']) if 'q' in v else tuple(v['p'])
    return v


SPEC = os.path.join(VERIF, 'spec')
_ctx = {}


def _summ(i):
    p, us = _ctx['p'], _ctx['us']
    u = us[i]
    s = summarise(p, u)
    P = Packer()
    js = P.summary(s)
    rs = unpack(P.tab, js)
    h = hints_of(rs)
    seeds = list(range(100003, 100003 + 40))
    o, info = directed(rs, h, p, seeds, 60)
    o += flips(rs, h, p, [(x, {}) for x in seeds[:10]] + o, 60)
    g, gi = exhibit(rs, h, p, seeds, o, 40)
    o += g
    info.update(gi)
    e, info['undecided'] = edges(rs, h, p, [(x, {}) for x in seeds] + o, 40)
    o += e + stretched(rs, h, p, seeds[:4], o)
    num = [[sd, [[k, enc(v)] for k, v in ov.items()]] for sd, ov in o]
    return u.id, {'s': js, 't': P.tab, 'n': num, 'i': info, 'api': api(p, u)}, s.unsupported, info


def generate(pid, prog, units):
    _ctx.update(p=prog, us=units)
    with ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(_summ, range(len(units))))
    os.makedirs(SPEC, exist_ok=True)
    bad = [(i, u) for i, _, u, _ in rs if u]
    for i, _, _, n in rs:
        if n['reached'] < n['effects']:
            print('   unreached %d/%d in %s' % (n['effects'] - n['reached'], n['effects'], i[:90]))
    print('   undecided order comparisons: %d' % sum(n['undecided'] for _, _, _, n in rs))
    print('   %s: %d of %d goals' % (pid, sum(n['met'] for _, _, _, n in rs), sum(n['goals'] for _, _, _, n in rs)), sum(len(js['n']) for _, js, _, _ in rs), 'numberings')
    for i, _, _, n in rs:
        if n['met'] < n['goals']:
            print('   goals %d/%d in %s' % (n['met'], n['goals'], i[:90]))
    out = {i: js for i, js, _, _ in rs}
    data = json.dumps(out, separators=(',', ':'), sort_keys=True).encode()
    with open(os.path.join(SPEC, pid + '.json.gz'), 'wb') as f:
        f.write(gzip.compress(data, 9, mtime=0))
    return len(rs), bad


def load(pid):
    with gzip.open(os.path.join(SPEC, pid + '.json.gz')) as f:
        return json.loads(f.read())


def judge(p, u, cur, r, seeds, budget):
    """compares the current summary of a unit with its reference -> (difference or None, statistics)"""
    st = {}
    rs = unpack(r['t'], r['s'])
    stored = [(sd, {k: dec(v) for k, v in ov}) for sd, ov in r['n']]
    # the same steering, everything else drawn anew
    again = [(sd + 7919 * j, ov) for j in range(1, _ctx.get('again', 5)) for sd, ov in stored]
    stored = stored + again
    d = compare(rs, cur, p, stored, hints=hints_of(rs))
    if d is None:
        h = hints_of(rs, cur)
        d = compare(rs, cur, p, seeds, hints=h)
    if d is None:
        # steer into what is new in the current tree
        base = list(seeds)[:40]
        o, info = directed(cur, h, p, base, budget, skip=conditions(rs))
        st['reached'], st['conditions'], st['both'] = info['reached'], info['conditions'], info['both']
        if info['conditions']:
            o += flips(cur, h, p, [(x, {}) for x in base[:10]] + o, budget)
            o += edges(cur, h, p, [(x, {}) for x in base] + o, budget, skip=conditions(rs))[0]
        st['numberings'] = len(stored) + len(seeds) + len(o)
        if o:
            d = compare(rs, cur, p, o, hints=h)
    return d, st


def _check(i):
    p, us, ref, seeds = _ctx['p'], _ctx['us'], _ctx['ref'], _ctx['seeds']
    u = us[i]
    try:
        cur = summarise(p, u)
        r = ref.get(u.id)
        n = sum(1 for _ in walk_effs(cur.effs))
        st = {'effects': n, 'functions': sorted(cur.inlined), 'cells': len(cur.store)}
        if r is None:
            return u.id, None, dict(st, new=True)
        d, st2 = judge(p, u, cur, r, seeds, _ctx['budget'])
        st.update(st2)
    except Exception as e:
        import traceback
        return u.id, {'what': 'analysis error ' + traceback.format_exc()[-1500:], 'broken': True}, {}
    if d and not d['loc']:
        d['loc'] = p.funcs[u.key]['loc']
    if d is None and cur.unsupported:
        return u.id, {'what': 'construct not modelled: %r' % (cur.unsupported[:2],), 'broken': True}, st
    return u.id, d, st


def run(pid, prog, units, seeds, budget=5, again=5):
    """-> (violations, stats)"""
    ref = load(pid)
    _ctx.update(p=prog, us=units, ref=ref, seeds=list(seeds), budget=budget, again=again)
    with ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(_check, range(len(units)), chunksize=1))
    viol, broken = [], []
    fns, eff, cells, reached, nums = set(), 0, 0, 0, 0
    for uid, d, st in rs:
        fns |= set(st.get('functions', ()))
        eff += st.get('effects', 0)
        cells += st.get('cells', 0)
        reached += st.get('reached', 0)
        nums += st.get('numberings', 0)
        if d is None:
            continue
        (broken if d.get('broken') else viol).append({'unit': uid, 'what': d['what'], 'loc': d.get('loc', '')})
    have = {u.id for u in units}
    for k in ref:
        if k not in have and ref[k].get('api'):
            viol.append({'unit': k, 'what': 'entry point of the reference is gone or has another signature', 'loc': ''})
    stats = {'entry_points': len(units), 'functions_analysed': len(fns), 'effects_compared': eff, 'memory_cells_compared': cells,
             'effects_reached_by_some_numbering': reached, 'value_numberings': nums}
    return viol, stats, broken
