"""Value numbering of effect summaries.

Two summaries are compared by hashing (numbering) their terms under a family of seeded assignments of the
*inputs of the summary* (symbolic stream results, parameters and fields).  The terms of a loop are numbered for
one generic iteration.  Semantically equal summaries get equal numbers, however they are written.
"""
import itertools, hashlib
from collections import ChainMap
from fractions import Fraction
from .terms import *
from .ir import deref_ty, unq, tname
from .engine import loops_in


class NotExec(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = ('undef',)
M64 = (1 << 64) - 1


def H(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), 'big')


# ---------------------------------------------------------------- summaries
class Summary:
    """effects, exit memory and result of one analysed function"""

    def __init__(self, effs, store, ret, pc, types):
        self.effs, self.store, self.ret, self.pc, self.types = effs, store, ret, pc, types

    @staticmethod
    def of(ip, ret, roots=('p', 'd', 'g', 's', 'h', 'x')):
        st = {l: v for l, v in ip.st.store.items() if isinstance(l[0], tuple) and l[0][0] in roots}
        ty = {l: t for l, t in ip.types.items() if isinstance(l[0], tuple) and l[0][0] == 'h' and len(l) == 1}
        if ret is not None and ret[0] == 'L':
            b = ret[1][0]
            if isinstance(b, tuple) and b[0] in ('p', 'd', 'g', 's', 'h'):
                r = mk('ptr', ret[1])
            else:
                r = ip.load(ret[1])
        else:
            r = ret[1] if ret is not None else VOID
        return Summary(ip.effs, st, r, ip.st.pc, ty)


class Eff2:
    __slots__ = ('uid', 'name', 'args', 'pc', 'ty', 'loc', 'body', 'count', 'mus', 'data')


class Packer:
    """summary <-> JSON (terms as a DAG table)"""

    def __init__(self):
        self.tab, self.ix = [], {}

    def t(self, t):
        i = self.ix.get(t)
        if i is not None:
            return i
        a = [self.x(v) for v in t.a]
        rec = [t.op, a] if t.ty is None else [t.op, a, t.ty]
        self.tab.append(rec)
        self.ix[t] = len(self.tab) - 1
        return self.ix[t]

    def x(self, v):
        if isinstance(v, T):
            return {'t': self.t(v)}
        if isinstance(v, tuple):
            return [self.x(y) for y in v]
        return v

    def eff(self, e):
        o = {'u': e.uid, 'n': e.name, 'a': [self.x(x) for x in e.args], 'p': self.t(e.pc), 'l': e.loc}
        if e.ty:
            o['ty'] = e.ty
        if e.name == 'loop':
            o['b'] = [self.eff(x) for x in e.body]
            if e.count is not None:
                o['c'] = self.t(e.count)
            o['m'] = [[i, self.t(a), self.t(b), [[self.t(x), self.t(y)] for x, y in brk], ty, k] for i, (a, b, brk, ty, k) in (e.mus or {}).items()]
            if e.data and e.data.get('rets'):
                o['r'] = [[self.t(x), self.x(y)] for x, y in e.data['rets']]
        elif e.name == 'try':
            o['b'] = [self.eff(x) for x in e.body]
            o['h'] = [[ty, [self.eff(x) for x in h]] for ty, h in e.data]
        return o

    def summary(self, s):
        return {'e': [self.eff(e) for e in s.effs], 's': [[self.x(l), self.t(v)] for l, v in s.store.items()],
                'r': self.x(s.ret), 'p': self.t(s.pc), 'y': [[self.x(l), t] for l, t in s.types.items()]}


def unpack(tab, js):
    memo = [None] * len(tab)

    def t(i):
        if memo[i] is None:
            r = tab[i]
            memo[i] = mk(r[0], *[x(v) for v in r[1]], ty=r[2] if len(r) > 2 else None)
        return memo[i]

    def x(v):
        if isinstance(v, dict):
            return t(v['t'])
        if isinstance(v, list):
            return tuple(x(y) for y in v)
        return v

    for i in range(len(tab)):
        t(i)

    def eff(o):
        e = Eff2()
        e.uid, e.name, e.args, e.pc, e.ty, e.loc = o['u'], o['n'], tuple(x(v) for v in o['a']), t(o['p']), o.get('ty'), o['l']
        e.body = e.count = e.mus = e.data = None
        if e.name == 'loop':
            e.body = [eff(y) for y in o['b']]
            e.count = t(o['c']) if 'c' in o else None
            e.mus = {m[0]: (t(m[1]), t(m[2]), tuple((t(p), t(q)) for p, q in m[3]), m[4], m[5]) for m in o['m']}
            e.data = {'rets': [(t(p), x(q)) for p, q in o.get('r', [])]}
        elif e.name == 'try':
            e.body = [eff(y) for y in o['b']]
            e.data = [(h[0], [eff(y) for y in h[1]]) for h in o['h']]
        return e
    return Summary([eff(o) for o in js['e']], {x(l): t(v) for l, v in js['s']}, x(js['r']), t(js['p']), {x(l): ty for l, ty in js['y']})


# ---------------------------------------------------------------- hints
def walk_effs(effs):
    for e in effs:
        yield e
        if e.body:
            yield from walk_effs(e.body)
        if e.name == 'try':
            for _, h in e.data:
                yield from walk_effs(h)


def nulls(s):
    """pointer parameters whose nullness the function looks at"""
    r = s.__dict__.get('_nulls')
    if r is None:
        r = s.__dict__['_nulls'] = frozenset(t.a[0] for t in all_terms(s) if t.op == 'sym' and t.ty == 'bool' and str(t.a[0]).endswith(':null'))
    return r


def pure_mus(s, e):
    """(the whole loop is free of effects, indices of the carried values that do not depend on effects of the loop)"""
    c = s.__dict__.setdefault('_pm', {})
    if e.uid in c:
        return c[e.uid]
    bad = {x.uid for x in walk_effs(e.body)}
    whole = all(x.name in ('exit', 'break', 'return') for x in walk_effs(e.body))
    dep = {}
    for i, m in e.mus.items():
        seen, work, d = set(), [m[1]], set()
        while work:
            t = work.pop()
            if isinstance(t, tuple):
                work.extend(t)
                continue
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            if t.op == 'mu' and t.a[0] == e.uid:
                d.add(t.a[1])
            elif t.op in ('res', 'lam', 'mu', 'post', 'k', 'lret', 'lval', 'caught', 'nothrow') and t.a[0] in bad:
                d.add(None)
            work.extend(t.a)
        dep[i] = d
    pure = set(e.mus)
    while True:
        n = {i for i in pure if dep[i] <= pure}
        if n == pure:
            break
        pure = n
    c[e.uid] = (whole and len(pure) == len(e.mus), pure)
    return c[e.uid]


def all_terms(s):
    seen = set()
    work = []

    def add(v):
        if isinstance(v, T):
            if v not in seen:
                seen.add(v)
                work.append(v)
        elif isinstance(v, tuple):
            for y in v:
                add(y)
    for e in walk_effs(s.effs):
        add(e.pc)
        for a in e.args:
            add(a)
        if e.count is not None:
            add(e.count)
        for m in (e.mus or {}).values():
            add(m[0]), add(m[1]), add(m[2])
        if e.name == 'loop' and e.data:
            for p, v in e.data.get('rets') or []:
                add(p), add(v)
    for l, v in s.store.items():
        add(l), add(v)
    add(s.ret), add(s.pc)
    while work:
        t = work.pop()
        for a in t.a:
            add(a)
    return seen


# reads and writes of the same bytes under another name
CANON = {'Read.byte': 'Read.ubyte', 'Read.char': 'Read.ubyte', 'Read.short': 'Read.ushort', 'Read.int': 'Read.uint'}
CANTY = {'Read.byte': 'u8', 'Read.char': 'u8', 'Read.ubyte': 'u8', 'Read.short': 'u16', 'Read.ushort': 'u16', 'Read.int': 'u32', 'Read.uint': 'u32'}
WSIZE = {'Write.char': 1, 'Write.byte': 1, 'Write.ubyte': 1, 'Write.short': 2, 'Write.ushort': 2, 'Write.int': 4, 'Write.uint': 4, 'Write.float': 4}


OBSERVE = ('Read.tell', 'Read.eof', 'Write.tell')


def has_result(name):
    if name.startswith('Write.'):
        return name == 'Write.to'
    if name.startswith('W.'):
        return name == 'W.object_begin'
    return name not in ('Read.seek', 'deref-store', 'break', 'return')


def octets(name, args):
    """what a write puts on the wire: one item per byte where the value is known"""
    s, v = args[0], args[-1]
    if name in WSIZE or name == 'Write.bytes':
        n = WSIZE.get(name)
        if n is None:
            n = args[1]
            if n == 0:
                return []
        if isinstance(v, int) and name != 'Write.float' and n in (1, 2, 4, 8) and not isinstance(v, bool):
            return [('byte', s, v >> 8 * i & 255) for i in range(n)]
        if name == 'Write.bytes' and (isinstance(v, str) or isinstance(v, tuple) and v and v[0] == 'text') and isinstance(n, int) and 0 <= n <= len(v if isinstance(v, str) else v[1]):
            return [('byte', s, ord(c) & 255) for c in (v if isinstance(v, str) else v[1])[:n]]
        return [('bytes', s, n, v)]
    if name in ('Write.string', 'Write.string0', 'Write.line'):
        end = {'Write.string': [], 'Write.string0': [('byte', s, 0)], 'Write.line': [('byte', s, 10)]}[name]
        if v == 0:
            v = ''
        if isinstance(v, str):
            return [('byte', s, ord(c) & 255) for c in v] + end
        return [('bytes', s, ('len', v), v)] + end
    return None


class Hints:
    def __init__(self):
        self.by = {}
        self.ints = set()
        self.strs = set()

    def collect(self, s):
        names = {}
        for e in walk_effs(s.effs):
            names[e.uid] = CANON.get(e.name, e.name)
        for t in all_terms(s):
            if t.op == 'i' and abs(t.a[0]) < 1 << 40:
                self.ints.add(t.a[0])
            elif t.op == 's' and len(t.a[0]) < 40:
                self.strs.add(t.a[0])
            if t.op in ('==', '!=', '<', '<=', '>', '>=', 'ieq', 'ilt'):
                for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if is_c(b) and not is_c(a):
                        for sg in self.leafs(a, names):
                            self.by.setdefault(sg, set()).add(cval(b))

    def leafs(self, t, names, d=0):
        if d > 8:
            return
        if t.op == 'res':
            yield ('res', names.get(t.a[0]), t.a[1:])
        elif t.op in ('init', 'sym', 'glob'):
            yield sig(t)
        elif t.op == 'fld':
            yield ('fld', str(t.a[1]) if not isinstance(t.a[1], tuple) else t.a[1][0])
        elif t.op in ('phi',):
            yield from self.leafs(t.a[1], names, d + 1)
            yield from self.leafs(t.a[2], names, d + 1)
        else:
            if t.op not in ('mu', 'post', 'k'):
                yield ('op', t.op)
            for a in t.a:
                if isinstance(a, T):
                    yield from self.leafs(a, names, d + 1)

    def freeze(self):
        self.ints = sorted(self.ints)
        self.strs = sorted(self.strs)
        self.by = {k: sorted(v, key=lambda c: (str(type(c)), str(c))) for k, v in self.by.items()}
        return self


def sig(t):
    if t.op == 'init':
        return ('init',) + tuple(s if isinstance(s, str) else s[0] if s[0] in ('e', 'd') else s[:2] for s in t.a[0])
    return (t.op, t.a[0])


# ---------------------------------------------------------------- evaluation
def norm(v):
    if v is None or v is False or v == '' or v == 0:
        return 0
    if v is True:
        return 1
    if isinstance(v, Fraction):
        return ('q', v.numerator, v.denominator) if v.denominator != 1 else v.numerator
    return v


PIECES = ('a', 'Bc', ' ', '/', '.', '7', '-3', '  ', 'x/y', '\t', '"', '12', ',', ':', '\n', '_', 'Z.Q', ' 5')


def text(h, strs):
    """a string with separators, digits and the constants the code looks for in it"""
    out = []
    n = 1 + h % 5
    h >>= 3
    for _ in range(n):
        if strs and h % 3 == 0:
            out.append(strs[(h >> 4) % len(strs)])
        else:
            out.append(PIECES[(h >> 4) % len(PIECES)])
        h = (h * 0x9E3779B97F4A7C15 + 0x1234567) & M64
        h ^= h >> 29
    return ''.join(out)[:60]


NPOS = (1 << 64) - 1


def _needle(n):
    return chr(n & 255) if isinstance(n, int) else '' if n is None else n


def _fold(f):
    def g(s, n, p=None, *r):
        n = _needle(n)
        if not isinstance(s, str) or not isinstance(n, str) or r or not (p is None or isinstance(p, int)):
            return None
        i = f(s, n, p)
        return NPOS if i < 0 else i
    return g


def _find(s, n, p):
    return s.find(n, p or 0) if (p or 0) <= len(s) else -1


def _rfind(s, n, p):
    return s.rfind(n) if p is None or p >= len(s) or p < 0 else s.rfind(n, 0, p + len(n))


def _ffo(s, n, p):
    return next((i for i in range(max(0, p or 0), len(s)) if s[i] in n), -1)


def _ffno(s, n, p):
    return next((i for i in range(max(0, p or 0), len(s)) if s[i] not in n), -1)


def _flo(s, n, p):
    return next((i for i in range(len(s) - 1 if p is None or p < 0 else min(p, len(s) - 1), -1, -1) if s[i] in n), -1)


def _flno(s, n, p):
    return next((i for i in range(len(s) - 1 if p is None or p < 0 else min(p, len(s) - 1), -1, -1) if s[i] not in n), -1)


def _substr(s, p, n=NPOS):
    if not isinstance(s, str) or not isinstance(p, int) or not isinstance(n, int) or not 0 <= p <= len(s):
        return None
    return s[p:] if n < 0 else s[p:p + n]


def _resize(s, n, c=0):
    if not isinstance(s, str) or not isinstance(n, int) or not isinstance(c, int) or not 0 <= n <= 4096:
        return None
    return s[:n] if n <= len(s) else s + chr(c & 255) * (n - len(s))


def _set(s, i, c):
    if isinstance(s, str) and isinstance(i, int) and isinstance(c, int) and 0 <= i < len(s):
        return s[:i] + chr(c & 255) + s[i + 1:]
    return None


def _at(s, i):
    if not isinstance(s, str) or not isinstance(i, int) or not 0 <= i <= len(s):
        return None
    return ord(s[i]) if i < len(s) else 0


def _chr(c):
    if c == '':
        c = 0
    return chr(c & 255) if isinstance(c, int) else None


def _concat(a, b):
    return a + b if isinstance(a, str) and isinstance(b, str) else None


def _ctype(f):
    def g(c):
        if c == '':
            c = 0
        return f(c) if isinstance(c, int) and -1 <= c <= 255 else None
    return g


def _isin(chars):
    cs = {ord(c) for c in chars}
    return _ctype(lambda c: 1 if c in cs else 0)


UP, LO, DI = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'abcdefghijklmnopqrstuvwxyz', '0123456789'
STRFN = {
    'str.size': lambda s: len(s) if isinstance(s, str) else None,
    'str.find': _fold(_find), 'str.rfind': _fold(_rfind), 'str.find_first_of': _fold(_ffo), 'str.find_last_of': _fold(_flo),
    'str.find_first_not_of': _fold(_ffno), 'str.find_last_not_of': _fold(_flno),
    'str.substr': _substr, 'str.sub': _substr, 'str.prefix': lambda s, n: _substr(s, 0, n) if isinstance(s, str) and isinstance(n, int) and n <= len(s) else None,
    'str.from': lambda s, i: _substr(s, i), 'str.resize': _resize, 'str.at': _at, 'str.set': _set, 'chr': _chr, 'concat': _concat,
}


def _lower(s):
    s = '' if s is None or s == 0 or s == ('Z',) else s
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s) if isinstance(s, str) else None


def _ieq(x, y):
    x, y = _lower(x), _lower(y)
    return None if x is None or y is None else 1 if x == y else 0


def _ilt(x, y):
    x, y = _lower(x), _lower(y)
    return None if x is None or y is None else 1 if x < y else 0


STRFN['ieq'] = _ieq
STRFN['ilt'] = _ilt
for _q in ('call:', 'call:std::'):
    STRFN[_q + 'isspace'] = _isin(' \t\n\v\f\r')
    STRFN[_q + 'isalpha'] = _isin(UP + LO)
    STRFN[_q + 'isdigit'] = _isin(DI)
    STRFN[_q + 'isalnum'] = _isin(UP + LO + DI)
    STRFN[_q + 'isupper'] = _isin(UP)
    STRFN[_q + 'islower'] = _isin(LO)
    STRFN[_q + 'tolower'] = _ctype(lambda c: c + 32 if 65 <= c <= 90 else c)
    STRFN[_q + 'toupper'] = _ctype(lambda c: c - 32 if 97 <= c <= 122 else c)


class Numbering:
    def __init__(self, s, seed, hints, prog, fixed=None, feed=None, ov=None):
        self.s, self.seed, self.hints, self.p = s, seed, hints, prog
        self.memo = {}
        self.pos = {}        # effect uid -> position key
        self.loops = {}      # loop uid -> (depth, k value or None if skipped, eff)
        self.fixed = fixed or {}
        self.depth = 0
        self.path = ()
        self.used = []
        self.names = {}
        self.effty = {}
        self.objguard = []
        self.feed = feed
        self.ov = ov or {}
        self.drawn = {}
        self.nulls = nulls(s)
        self.sim = None      # (loop uid, memo) while a recurrence is being evaluated
        self.cnts = {}       # loop uid -> number of iterations, if known
        self.simmu = {}      # loop uid -> {index: value in the iteration looked at}
        self.lay = Layout(prog, s) if getattr(s, 'roots', None) else None
        self.simdeps = {}    # loop uid -> what its recurrences depend on in enclosing loops
        self.simpost = {}    # loop uid -> {index: value after the loop}
        self.mix = (seed * 0x9E3779B97F4A7C15) & M64

    # ---- drawing inputs
    def h(self, h0):
        """per-numbering hash of a key hash (splitmix64)"""
        z = (h0 + self.mix) & M64
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        return z ^ (z >> 31)

    def draw(self, key, ty, sg=None, t=None):
        h0 = H(key)
        if t is not None:
            self.drawn[t] = h0
        if h0 in self.ov:
            return self.ov[h0]
        return self.value(h0, ty, sg)

    def value(self, h0, ty, sg):
        """a value of the type, chosen by the numbering; consecutive numberings visit all candidate constants"""
        h = self.h(h0)
        cyc = self.seed + (h0 >> 11)
        hs = self.hints.by.get(sg) if sg is not None else None
        t = deref_ty(ty) if ty else None
        if t == 'bool':
            return h & 1
        w = width(t) if t else None
        if w:
            m = h % 16
            g = h >> 8
            if hs:
                hs = [c for c in hs if isinstance(c, int)]
            if hs and m < (9 if len(hs) < 6 else 13):
                v = hs[cyc % len(hs)]
                if m == 8:
                    v += 1
                if m == 7:
                    v -= 1
                return wrap(v, t)
            if t[:1] == 'E' and m < 14:
                cs = sorted(set(self.p.enums.get(t[1:], {}).values()))
                if cs:
                    return cs[cyc % len(cs)]
            if m < 6:
                return wrap(g % 4, t)
            if m < 9 and self.hints.ints:
                return wrap(self.hints.ints[g % len(self.hints.ints)] + (g >> 20) % 3 - 1, t)
            if m < 12:
                return wrap(g % 300, t)
            return wrap(g, t)
        if t and is_float(t):
            if hs and h % 4 == 0:
                c = hs[(h >> 8) % len(hs)]
                if isinstance(c, (int, float)):
                    return Fraction(c)
            return Fraction((h >> 8) % 2000 - 700, 4)
        if t and (t.startswith('Rstd::basic_string') or t in ('PKc8', 'Pc8')):
            if hs and h % 2 == 0:
                hs2 = [c for c in hs if isinstance(c, str)]
                if hs2:
                    return hs2[cyc % len(hs2)]
            if h % 8 == 1:
                return ''
            if h % 8 == 3 and self.hints.strs:
                return self.hints.strs[(h >> 8) % len(self.hints.strs)]
            if h % 8 in (5, 7):
                return text(h >> 3, self.hints.strs)
            return 's%x' % (h >> 32)
        if t and (t[:1] == 'P' or 'shared_ptr<' in t.split(' ')[0] or t.startswith('Rstd::unique_ptr')):
            if h % 4 == 0:
                return None
            return ('P', h)
        return ('h', h)

    # ---- terms
    def ev(self, t):
        m = self.memo
        if self.sim is not None and self.sim[0] in loops_in(t):
            m = self.sim[1]
        v = m.get(t)
        if v is None and t not in m:
            v = self.ev0(t)
            m[t] = v
        if v is UNDEF_:
            raise NotExec()
        return v

    def ev0(self, t):
        try:
            return self.ev1(t)
        except NotExec:
            return UNDEF_

    def soft(self, t):
        try:
            return self.ev(t)
        except NotExec:
            return UNDEF

    def any(self, v):
        if isinstance(v, T):
            return self.ev(v)
        if isinstance(v, tuple):
            return tuple(self.any(y) for y in v)
        return v

    def ev1(self, t):
        op, a = t.op, t.a
        if op == 'i' or op == 's':
            return a[0]
        if op == 'f':
            return Fraction(a[0]) if a[0] == a[0] and abs(a[0]) != float('inf') else ('f', repr(a[0]))
        if op == 'null' or op == 'void':
            return None
        if op == 'zero':
            return ('Z',)
        if op == 'phi':
            c = self.truth(a[0])
            return self.ev(a[1] if c else a[2])
        if op == '&&':
            return 1 if self.truth(a[0]) and self.truth(a[1]) else 0
        if op == '||':
            return 1 if self.truth(a[0]) or self.truth(a[1]) else 0
        if op == '!':
            return 0 if self.truth(a[0]) else 1
        if op == 'res':
            if a[0] not in self.pos:
                raise NotExec()
            pos = self.pos[a[0]]
            if self.feed is not None:
                r = self.feed(self, a[0], pos, a[1:], t.ty)
                if r is not None:
                    return r[0]
            nm = self.names.get(a[0])
            sg = ('res', CANON.get(nm, nm), a[1:])
            if nm in CANTY and len(a) == 1:
                v = self.draw(('res', pos, a[1:]), CANTY[nm], sg, t=t)
                return wrap(v, t.ty) if isinstance(v, int) and width(t.ty or '') else v
            return self.draw(('res', pos, a[1:]), t.ty, sg, t=t)
        if op == 'uninit':
            return IND
        if op == 'init':
            if a[0][0][0] in ('v', 't') and len(a[0]) == 1:
                return IND
            loc = self.evloc(a[0])
            return self.initial(loc, t.ty, sig(t), t)
        if op == 'sym':
            if t.ty == 'bool' and str(a[0]).endswith(':null') and a[0] not in self.nulls:
                return 0
            if a[0] in self.fixed:
                return self.fixed[a[0]]
            return self.draw(('sym',) + tuple(self.any(x) for x in a), t.ty, sig(t), t=t)
        if op == 'glob':
            return self.draw(('glob',) + tuple(self.any(x) for x in a), t.ty, sig(t), t=t)
        if op in ('k', 'mu', 'post', 'lret', 'lval'):
            return self.loopval(t)
        if op == 'sel':
            # array element read under another index than it was written
            i = self.idx(a[0])
            ws = []
            for j, v in a[1]:
                try:
                    ws.append((self.idx(j), v))
                except NotExec:
                    pass
            for j, v in reversed(ws):
                if j == i:
                    return self.ev(v)
            base = self.soft(a[2])
            ws = {norm(j): norm(self.soft(v)) for j, v in ws}
            ws = {j: v for j, v in ws.items() if v != norm(base) and v != UNDEF}
            if not ws:
                return base
            return self.draw(('sel', norm(i), tuple(sorted(ws.items(), key=repr)), norm(base)), t.ty, t=t)
        if op == 'cast':
            v = self.ev(a[0])
            w = width(t.ty)
            if w and isinstance(v, int):
                return wrap(v, t.ty)
            if w and isinstance(v, Fraction):
                return wrap(int(v), t.ty)
            if is_float(t.ty) and isinstance(v, int):
                return Fraction(v)
            if is_float(t.ty) and isinstance(v, Fraction):
                return v
            return self.draw(('cast', t.ty, norm(v)), t.ty, t=t)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, self.ev(a[0]), self.ev(a[1]))
        if op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^') and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
                try:
                    if is_float(t.ty) or isinstance(x, Fraction) or isinstance(y, Fraction):
                        if op == '/':
                            return Fraction(x) / y if y else ('h', H('div0', x))
                        r = fold(op, Fraction(x), Fraction(y))
                        return r
                    if op in ('<<', '>>') and not 0 <= y < 64:
                        return self.draw(('sh', op, x, y), t.ty, t=t)
                    return wrap(fold(op, x, y), t.ty)
                except Exception:
                    pass
            if op in ('+', '*', '&', '|', '^'):
                k = sorted((repr(norm(x)), repr(norm(y))))
            else:
                k = (norm(x), norm(y))
            return self.draw((op, k), t.ty, t=t)
        if op == 'neg':
            v = self.ev(a[0])
            if isinstance(v, (int, Fraction)):
                return -v
        if op == '~':
            v = self.ev(a[0])
            if isinstance(v, int):
                return wrap(~v, t.ty)
        if op == 'ptr':
            return self.pointer(a[0])
        if op == 'upd':
            items = []
            for p, v in a[1]:
                try:
                    items.append((self.evloc(p), self.soft(v)))
                except NotExec:  # a cell of a loop that made no iteration
                    pass
            return self.struct(self.ev(a[0]), items)
        if op == 'fld':
            b = self.ev(a[0])
            f = self.step(a[1])
            return self.field(b, (f,), t.ty, ('fld', str(a[1]) if not isinstance(a[1], tuple) else a[1][0]), t)
        if op == 'contents' and len(a) == 2:
            x, y = self.soft(a[0]), self.soft(a[1])
            if isinstance(x, str) and isinstance(y, int) and 0 <= y <= len(x):
                return ('text', x[y:])
        if op == 'concat':
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, str) and isinstance(y, str):
                return x + y
        if op in STRFN:
            vs = [self.soft(x) if isinstance(x, T) else x for x in a]
            if any(v == UNDEF for v in vs):
                raise NotExec()
            r = STRFN[op](*[('' if v is None or v == ('Z',) else v) if i == 0 else v for i, v in enumerate(vs)])
            if r is not None:
                return wrap(r, t.ty) if isinstance(r, int) and t.ty and width(t.ty) else r
        if op == 'nothrow':
            return 1 if not self.truth(mk('caught', a[0], 0, ty='bool')) else 0
        if op == 'caught':
            h0 = H('caught', self.pos.get(a[0]), a[1])
            self.drawn[t] = h0
            return self.ov[h0] if h0 in self.ov else 1 if self.h(h0) % 3 == 0 else 0
        if op == 'lam':
            return ('lam',)
        if op == 'map.key' and a[0].op == 'upd':
            ks = [p[0][1] for p, _ in a[0].a[1] if isinstance(p[0], tuple) and p[0][0] == 'e']
            if ks:
                return self.ev(ks[self.h(H('map.key', len(ks))) % len(ks)])
        return self.draw((op,) + tuple(norm(self.anysoft(x)) for x in a), t.ty, ('op', op), t=t)

    def anysoft(self, v):
        if isinstance(v, T):
            return self.soft(v)
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0] in ('h', 'v', 't') and len(v) > 1 and not isinstance(v[1], (T, tuple)):
                return (v[0], '')
            return tuple(self.anysoft(y) for y in v)
        return v

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, tuple):
            if v and v[0] in ('P',):
                return True
            if v == ('Z',):
                return False
            return bool(H('truth', v) & 1)
        return bool(v)

    def compare(self, op, x, y):
        x, y = norm(x) if not isinstance(x, Fraction) else x, norm(y) if not isinstance(y, Fraction) else y
        if x == ('Z',):
            x = 0
        if y == ('Z',):
            y = 0
        if op == '==':
            return 1 if x == y else 0
        if op == '!=':
            return 1 if x != y else 0
        if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) or isinstance(x, str) and isinstance(y, str):
            return 1 if {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op] else 0
        eq = x == y
        lt = (H('ord', x) < H('ord', y))
        return 1 if {'<': lt, '<=': lt or eq, '>': not lt and not eq, '>=': not lt}[op] else 0

    def step(self, s):
        if isinstance(s, tuple):
            return tuple(norm(self.anysoft(y)) if isinstance(y, T) else y for y in s)
        return s

    def idx(self, t):
        """the value of an array index; offsets do not wrap around at 32 bits (no array is that long)"""
        if t.op == 'cast' and t.ty and t.a[0].ty and (width(t.ty) or (0,))[0] >= 32 and width(t.a[0].ty) == (32, False):
            return self.idx(t.a[0])
        if t.op == '+' and t.ty and len(t.a) == 2 and width(t.ty) == (32, False) and all(isinstance(x, T) for x in t.a):
            x, y = self.idx(t.a[0]), self.idx(t.a[1])
            if isinstance(x, int) and isinstance(y, int):
                return x + y
        return self.ev(t)

    def evloc(self, loc):
        out = []
        for s in loc:
            if isinstance(s, tuple):
                o = []
                for y in s:
                    o.append(norm(self.idx(y) if s[0] == 'e' else self.ev(y)) if isinstance(y, T) else y)
                s = tuple(o)
                if s[0] == 'd' and isinstance(s[1], tuple) and s[1] and s[1][0] == 'ptr' and not out:
                    out += list(s[1][1])
                    continue
                if s[0] in ('h', 'v', 't'):
                    s = (s[0], '')
                if s == ('e', 0) and len(out) == 1 and isinstance(out[0], tuple) and out[0][0] == 'd':
                    continue
            out.append(s)
        return tuple(out)

    def initial(self, loc, ty, sg, t=None):
        if loc[-1] == '#size':
            return self.size(H('size', loc), sg, t)
        if ty is None and self.lay is not None:
            u = self.lay.at(loc)
            if u is not None and (width(u) or is_float(u) or u == 'bool' or u.startswith('Rstd::basic_string')):
                ty = u
        return self.draw(('init', loc), ty, sg, t)

    def size(self, h0, sg, t=None):
        if t is not None:
            self.drawn[t] = h0
        if h0 in self.ov:
            return max(0, self.ov[h0]) if isinstance(self.ov[h0], int) else 0
        h = self.h(h0)
        hs = [c for c in self.hints.by.get(sg, []) if isinstance(c, int)]
        if hs and h % 3 == 0:
            return max(0, hs[(h >> 8) % len(hs)] + (h >> 20) % 3 - 1)
        if h % 8 == 1:  # beyond what a byte, or 16 bits, can count
            return (1 << (8 if h & 1 << 40 else 16)) + (h >> 4) % 300
        return (h >> 4) % 5 if h % 8 else (h >> 4) % 200

    def pointer(self, loc):
        b = loc[0]
        if isinstance(b, tuple) and b[0] == 'h':
            return self.object(loc)
        if isinstance(b, tuple) and b[0] in ('v', 't'):
            return ('ptr', ('local',) + self.evloc(loc[1:]))
        l = self.evloc(loc)
        if len(l) == 1 and l[0][0] == 'd':
            return l[0][1]
        return ('ptr', l)

    def object(self, loc):
        root = loc[:1]
        if root in self.objguard:
            return ('cycle',)
        self.objguard.append(root)
        try:
            items = []
            base = ('Z',)
            for l, v in self.s.store.items():
                if l[0] == root[0]:
                    try:
                        p = self.evloc(l[1:])
                    except NotExec:
                        continue
                    if not p:
                        base = self.soft(v)
                    else:
                        items.append((p, self.soft(v)))
            return ('obj', self.s.types.get(root), self.struct(base, items), self.evloc(loc[1:]))
        finally:
            self.objguard.pop()

    def struct(self, base, items):
        d = {}
        for p, v in items:
            d[p] = norm(v)
        return mkstruct(base, d)

    def field(self, b, path, ty, sg, t=None):
        if isinstance(b, tuple) and b and b[0] == 'S':
            r = self.stget(b, path, ty, sg, t)
            return r
        if b == ('Z',) or b == 0 or b is None:
            return self.zero(ty)
        if path[-1] == '#size' and (ty is None or width(ty)):
            return self.size(H('fld', norm(b), path), sg, t)
        return self.draw(('fld', norm(b), path), ty, sg, t)

    def zero(self, ty):
        if ty is None:
            return ('Z',)
        if is_float(ty):
            return Fraction(0)
        if width(ty):
            return 0
        if 'basic_string' in ty:
            return ''
        return ('Z',)

    def stget(self, b, path, ty, sg, t=None):
        d = dict(b[2])
        if path in d:
            return d[path]
        for n in range(len(path) - 1, 0, -1):
            if path[:n] in d:
                return self.field(d[path[:n]], path[n:], ty, sg, t)
        below = {k[len(path):]: v for k, v in d.items() if k[:len(path)] == path}
        base = self.field(b[1], path, ty, sg, t)
        if below:
            return mkstruct(base, below)
        return base

    # ---- loops
    def loopval(self, t):
        uid = t.a[0]
        L = self.loops.get(uid)
        if L is None or L[1] is None:
            if t.op == 'post' and L is not None:
                # the loop was reached but made no iteration
                return self.ev(L[2].mus[t.a[1]][0])
            if t.op == 'lret':
                return 0
            raise NotExec()
        depth, k, e, used = L
        dp = self.simdeps.get(uid)
        if t.op == 'k':
            if dp:
                self.depend(dp)
            return k
        if t.op == 'mu':
            used.add(t.a[1])
            ini = e.mus.get(t.a[1])
            if ini is None:
                raise NotExec()
            sm = self.simmu.get(uid)
            if sm is not None and t.a[1] in sm:
                if dp:
                    self.depend(dp)
                return sm[t.a[1]]
            if ini[1] is t:  # only leaving the loop changes it
                return self.ev(ini[0])
            v0 = self.soft(ini[0])
            return self.muval(v0, t.ty, depth, t)
        if t.op == 'post':
            sp = self.simpost.get(uid)
            if sp is not None and t.a[1] in sp:
                if dp:
                    self.depend(dp)
                return sp[t.a[1]]
            m = e.mus[t.a[1]]
            return self.postval(e, m, t.ty, t)
        if t.op == 'lret':
            return 1 if any(self.soft(p) not in (0, UNDEF, False) for p, _ in e.data['rets']) else 0
        if t.op == 'lval':
            return self.ev(t.a[1])

    def depend(self, dp):
        for u, ms in dp.items():
            if u in self.loops:
                self.loops[u][3].update(ms)

    def muval(self, v0, ty, depth, t=None):
        sg = None
        if v0 == ('Z',):
            v0 = 0
        return self.draw(('mu', depth, norm(v0)), ty, None, t)

    def postval(self, e, m, ty, t=None):
        for c, v in m[2]:  # the loop is left in the iteration looked at
            if self.soft(c) not in (0, UNDEF):
                return self.ev(v)
        cnt, k = self.cnts.get(e.uid), self.loops[e.uid][1]
        if len(m) > 4 and m[4] == 'ind' and isinstance(cnt, int) and isinstance(k, int):
            v0, v1 = self.soft(m[0]), self.soft(m[1])
            if isinstance(v0, int) and isinstance(v1, int) and (v1 - v0) % (k + 1) == 0:
                return wrap(v0 + (v1 - v0) // (k + 1) * cnt, ty or 'u64')
        if isinstance(m[1], T) and m[1].op == 'mu' and m[1].a[0] == e.uid and e.mus.get(m[1].a[1]) is m:
            h0 = H('left', norm(self.soft(m[0])), norm(self.soft(m[2][0][1])) if m[2] else 0)
            if t is not None:
                self.drawn[t] = h0
            return self.ov[h0] if h0 in self.ov else self.ev(m[0])
        return self.draw(('post', norm(self.soft(m[0])), norm(self.soft(m[1]))), ty, None, t)

    # ---- steering: choose inputs so that a condition gets a wanted truth value
    def make(self, t, want, depth=0):
        """adds overrides that (locally) make t evaluate to want; True if something was changed"""
        if depth > 60:
            return False
        try:
            cur = self.truth(t)
        except NotExec:
            cur = None
        if cur == want:
            return False
        op, a = t.op, t.a
        if op == '!':
            return self.make(a[0], not want, depth + 1)
        if op in ('&&', '||'):
            if want == (op == '&&'):  # both sides needed
                for x in a:
                    try:
                        v = self.truth(x)
                    except NotExec:
                        v = None
                    if v != want:
                        return self.make(x, want, depth + 1)
                return False
            return self.make(a[1], want, depth + 1) or self.make(a[0], want, depth + 1)
        if op == 'phi':
            try:
                c = self.truth(a[0])
            except NotExec:
                return False
            if self.make(a[1] if c else a[2], want, depth + 1):
                return True
            return self.make(a[0], not c, depth + 1)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if not want:
                op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
            try:
                x, y = self.ev(a[0]), self.ev(a[1])
            except NotExec:
                return False
            x = x if not isinstance(x, bool) else int(x)
            y = y if not isinstance(y, bool) else int(y)
            if op == '==':
                return self.assign(a[0], y) or self.assign(a[1], x)
            num = isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction))
            if op == '!=':
                other = (lambda v: v + 1) if num else (lambda v: ('P', 77) if v in (None, 0) else (v + '~') if isinstance(v, str) else None)
                return self.assign(a[0], other(y)) or self.assign(a[1], other(x))
            if not num:
                return False
            d = {'<': -1, '<=': 0, '>': 1, '>=': 0}[op]
            return self.assign(a[0], y + d) or self.assign(a[1], x - d)
        if op == 'lret':
            L = self.loops.get(a[0])
            if L is None:
                return False
            e = L[2]
            if L[1] is None:
                return e.count is not None and self.assign(e.count, 3)
            rets = [q for q, _ in e.data['rets']]
            if want:
                return any(self.make(q, True, depth + 1) for q in rets)
            return any(self.make(q, False, depth + 1) for q in rets if self.soft(q) not in (0, UNDEF, False))
        if op in ('ieq', 'ilt'):
            x, y = self.soft(a[0]), self.soft(a[1])
            x, y = x if isinstance(x, str) else '', y if isinstance(y, str) else ''
            if op == 'ieq':
                if want:
                    return self.assign(a[0], y.swapcase()) or self.assign(a[1], x.swapcase())
                return self.assign(a[0], y + 'q') or self.assign(a[1], x + 'q')
            if want:
                return self.assign(a[1], x + 'q') or self.assign(a[0], '')
            return self.assign(a[0], y.swapcase()) or self.assign(a[1], '')
        return self.assign(t, 1 if want else 0)

    def assign(self, t, v, depth=0):
        if depth > 40:
            return False
        op, a = t.op, t.a
        if t in self.drawn:
            if isinstance(v, int) and (v < 0 or v >= 1 << 31) and (op == 'init' and a[0][-1] == '#size' or op == 'fld' and a[-1] in ('#size', ('#size',))):
                return False
            if (op == 'init' and a[0][-1] == '#size' or t.ty and unq(t.ty)[:1] == 'u') and isinstance(v, int) and v < 0:
                return False
            w = width(t.ty) if t.ty else None
            if w and isinstance(v, int) and wrap(v, t.ty) != v:
                return False
            if t.ty and isinstance(v, int) and is_float(t.ty):
                v = Fraction(v)
            if t.ty and isinstance(v, int) and (t.ty[:1] == 'P' or 'shared_ptr<' in t.ty.split(' ')[0]):
                v = ('P', 99) if v else None
            if self.ov.get(self.drawn[t], self) == v:
                return False
            self.ov[self.drawn[t]] = v
            return True
        try:
            if op == 'phi':
                return self.assign(a[1] if self.truth(a[0]) else a[2], v, depth + 1)
            if op == 'cast':
                return self.assign(a[0], v, depth + 1)
            if op in ('+', '-', '*', '&', '>>', '<<', '|', '^') and len(a) == 2 and isinstance(v, (int, Fraction)):
                x, y = self.ev(a[0]), self.ev(a[1])
                if not isinstance(x, (int, Fraction)) or not isinstance(y, (int, Fraction)):
                    return False
                if op == '+':
                    return self.assign(a[0], v - y, depth + 1) or self.assign(a[1], v - x, depth + 1)
                if op == '-':
                    return self.assign(a[0], v + y, depth + 1) or self.assign(a[1], x - v, depth + 1)
                if op == '*':
                    return bool(y) and v % y == 0 and self.assign(a[0], v // y, depth + 1) or bool(x) and v % x == 0 and self.assign(a[1], v // x, depth + 1)
                if isinstance(x, int) and isinstance(y, int) and isinstance(v, int):
                    if op == '&':
                        if v == 1 and y & -y != 1 and y:
                            v = y & -y
                        return v & ~y == 0 and self.assign(a[0], (x & ~y) | v, depth + 1)
                    if op == '|':
                        return self.assign(a[0], v & ~y, depth + 1)
                    if op == '^':
                        return self.assign(a[0], v ^ y, depth + 1)
                    if 0 <= y < 64:
                        return self.assign(a[0], (v << y) if op == '>>' else v >> y, depth + 1)
                return False
            if op == 'str.find' and isinstance(v, int):
                n = _needle(self.ev(a[1]))
                if v == NPOS:
                    return self.assign(a[0], 'xY' if n != 'x' else 'zW', depth + 1)
                if 0 <= v < 500:
                    return self.assign(a[0], ('x' if n != 'x' else 'z') * v + n + 'q', depth + 1)
            if op == 'str.at' and isinstance(v, int) and isinstance(self.ev(a[1]), int) and 0 <= self.ev(a[1]) < 500:
                i = self.ev(a[1])
                x = self.ev(a[0])
                x = x if isinstance(x, str) else ''
                return self.assign(a[0], x[:i].ljust(i, 'x') + chr(v & 255) + x[i + 1:], depth + 1)
            if op == 'str.size' and isinstance(v, int) and 0 <= v < 5000:
                x = self.soft(a[0])
                x = x[:v] if isinstance(x, str) else ''
                return self.assign(a[0], x + 'x' * (v - len(x)), depth + 1)
            if op == 'str.substr' and isinstance(v, str) and len(a) > 1:
                x, p = self.soft(a[0]), self.ev(a[1])
                n = self.ev(a[2]) if len(a) > 2 else NPOS
                x = x if isinstance(x, str) else ''
                if isinstance(p, int) and isinstance(n, int) and p <= len(x):
                    rest = x[p + n:] if n < NPOS else ''
                    if n >= NPOS and len(a) > 2 and a[2].op == 'str.find' and a[2].a[0] is a[0]:
                        rest = _needle(self.ev(a[2].a[1]))
                    return self.assign(a[0], x[:p] + v + rest, depth + 1)
            if op in ('==', '!=', '<', '<=', '>', '>=', '&&', '||', '!', 'ieq', 'ilt'):
                return self.make(t, bool(v), depth + 1)
            if op == 'post':
                L = self.loops.get(a[0])
                if L is not None and L[1] is None:
                    return self.assign(L[2].mus[a[1]][0], v, depth + 1) or (L[2].count is not None and self.assign(L[2].count, 3, depth + 1))
        except NotExec:
            return False
        return False

    # ---- effects
    OBS_SKIP = ('exit', 'break')

    def run(self):
        self.trace = self.block(self.s.effs, ())
        return self.trace

    def block(self, effs, path):
        out = []
        n = 0
        for e in effs:
            try:
                g = self.truth(e.pc)
            except NotExec:
                g = False
            if not g:
                continue
            pos = path + (n,)
            self.pos[e.uid] = pos
            self.names[e.uid] = e.name
            if e.name == 'loop':
                it = self.loop(e, pos)
                if it is not None:
                    out.append((it, e))
                    n += 1
                continue
            if e.name == 'try':
                b = self.block(e.body, pos + ('try',))
                hs = tuple((ty, tuple(strip(x[0]) for x in self.block(h, pos + ('h', i)))) for i, (ty, h) in enumerate(e.data))
                out.append((('try', tuple(strip(x[0]) for x in b), hs), e, b))
                n += 1
                continue
            if e.name in ('break', 'return'):
                out.append((('exit',), e))
                continue
            if e.name in OBSERVE:  # where a stream stands: a function of what was done to it before
                self.pos[e.uid] = path + ('at', len(out), e.name, norm(self.soft(e.args[0])))
                continue
            args = tuple(norm(self.soft(a)) for a in e.args)
            if has_result(e.name):
                n += 1
            bs = octets(e.name, args) if e.name.startswith('Write.') else None
            if bs is not None:
                out.extend((b, e) for b in bs)
            else:
                out.append(((CANON.get(e.name, e.name),) + args, e))
        return out

    def loop(self, e, pos):
        depth = self.depth
        cnt = None
        if e.count is not None:
            try:
                cnt = self.ev(e.count)
            except NotExec:
                cnt = None
            if isinstance(cnt, int) and cnt > 1 << 31:
                cnt = wrap(cnt, 'i64')
            if isinstance(cnt, int) and cnt <= 0:
                self.loops[e.uid] = (depth, None, e, set())
                return None
        self.cnts[e.uid] = cnt
        if isinstance(cnt, int):
            h0 = H('k', depth, cnt)
            k = self.h(h0)
            k = k % min(cnt, 1 << 20) if k >> 40 & 3 == 0 else k % min(cnt, 40)
        else:
            h0 = H('k', depth)
            k = self.h(h0) % 5
        self.simmu.pop(e.uid, None)
        self.simpost.pop(e.uid, None)
        self.simdeps.pop(e.uid, None)
        if self.recurrence(e, cnt, depth, k):
            k = self.simk
        elif h0 in self.ov and isinstance(self.ov[h0], int) and self.ov[h0] >= 0 and (not isinstance(cnt, int) or self.ov[h0] < cnt):
            k = self.ov[h0]
        self.drawn[mk('k', e.uid, ty='u64')] = h0
        used = set()
        self.loops[e.uid] = (depth, k, e, used)
        self.depth += 1
        body = self.block(e.body, pos)
        self.depth -= 1
        if not any(x[0][0] != 'exit' for x in body):
            return None
        carried = []
        done = set()
        while True:
            todo = sorted(used - done)
            if not todo:
                break
            for i in todo:
                done.add(i)
                m = e.mus.get(i)
                if m is None or i in self.simmu.get(e.uid, ()):
                    continue
                carried.append((norm(self.soft(m[0])), norm(self.soft(m[1]))))
        carried = tuple(sorted(set(carried), key=repr))
        return ('loop', norm(cnt), tuple(strip(x[0]) for x in body), carried, body)

    # ---- recurrences
    def recurrence(self, e, cnt, depth, k):
        """values a loop carries, where they follow from its recurrences alone; True if that settles the iteration looked at"""
        if not e.mus:
            return False
        pm = pure_mus(self.s, e)
        if not pm[1]:
            return False
        rets = (e.data or {}).get('rets') or []
        save = self.sim
        if save is not None:
            return False
        snap = {u: set(L[3]) for u, L in self.loops.items() if u != e.uid}
        memo = self.memo
        self.memo = ChainMap({}, memo)
        try:
            vals = {i: self.soft(e.mus[i][0]) for i in pm[1]}
            whole = pm[0]
            hist = []
            done = None
            for j in range(41):
                if isinstance(cnt, int) and j >= cnt:
                    done = ('count', j)
                    break
                hist.append(vals)
                self.sim = (e.uid, {})
                self.loops[e.uid] = (depth, j, e, set())
                self.simmu[e.uid] = vals
                if whole:
                    if any(self.soft(c) not in (0, UNDEF) for c, _ in rets):
                        done = ('ret', j)
                        break
                    n = None
                    for x, (c, _) in enumerate(next(iter(e.mus.values()))[2]):
                        if self.soft(c) not in (0, UNDEF):
                            n = x
                            break
                    if n is not None:
                        self.simpost[e.uid] = {i: self.soft(e.mus[i][2][n][1]) for i in e.mus}
                        done = ('break', j)
                        break
                vals = {i: self.soft(e.mus[i][1]) for i in pm[1]}
                if any(v is UNDEF or v == UNDEF for v in vals.values()):
                    break
        finally:
            self.sim = None
            self.memo = memo
            dp = {}
            for u, old in snap.items():
                now = self.loops[u][3]
                if len(now) > len(old):
                    dp[u] = set(now) - old
                    now.clear()
                    now.update(old)
            self.simdeps[e.uid] = dp
        self.simmu.pop(e.uid, None)
        if done is None or not whole:
            if k < len(hist):
                self.simmu[e.uid] = hist[k]
            if done is not None and not rets and not next(iter(e.mus.values()))[2]:
                self.simpost[e.uid] = dict(vals)
            return False
        if done[0] == 'count':
            self.simpost[e.uid] = dict(vals)
            self.simk = k if k < len(hist) else len(hist) - 1
        else:
            self.simk = done[1]
        self.simmu[e.uid] = hist[self.simk]
        return True

    # ---- exit memory
    def kept(self, el, v):
        """the value of a cell says that it was not written"""
        try:
            while v.op == 'phi':
                v = v.a[1] if self.ev(v.a[0]) else v.a[2]
            return v.op == 'init' and self.evloc(v.a[0]) == el
        except NotExec:
            return False

    def untouched(self, l):
        hit = False
        for k, v in self.s.store.items():
            try:
                if k[0][0] != 'h' and self.evloc(k) == l:
                    hit = True
                    if not self.kept(l, v):
                        return False
            except NotExec:
                pass
        return hit

    def memory(self):
        if self.soft(self.s.pc) in (0, UNDEF, False):
            return None
        out = {}
        for l, v in self.s.store.items():
            if l[0][0] == 'h':
                continue
            try:
                el = self.evloc(l)
            except NotExec:
                continue
            x = self.soft(v)
            if x is UNDEF or x == UNDEF or el in out and self.kept(el, v):
                continue
            out[el] = norm(x)
        # structured values are spread out
        res = {}
        for l in sorted(out, key=lambda l: (len(l), repr(l))):
            v = out[l]
            spread(res, l, v)
        self.mem = res
        return res

    def covers(self, C, lv):
        """was every element of the container at C written, in all its parts, by a loop over all of them?"""
        n = self.mem.get(C + ('#size',))
        if not isinstance(n, int):
            return False
        if n == 0:
            return True
        rests = set()
        m = len(C)
        for l in self.s.store:
            if len(l) <= m or not isinstance(l[m], tuple) or l[m][0] != 'e' or not isinstance(l[m][1], T):
                continue
            i = l[m][1]
            if i.op != 'k' or self.loops.get(i.a[0], (0, None))[1] is None:
                continue
            e = self.loops[i.a[0]][2]
            try:
                if e.count is None or self.ev(e.count) != n or self.evloc(l[:m]) != C:
                    continue
                rests.add(self.evloc(l[m + 1:]))
            except NotExec:
                continue
        return all(any(q[:len(r)] == r for r in rests) for q in lv)

    def value_at(self, loc, like=None):
        m = self.mem
        if loc in m:
            return m[loc]
        for n in range(len(loc) - 1, 0, -1):
            if loc[:n] in m:
                return norm(self.field(m[loc[:n]], loc[n:], like, None))
        return None


UNDEF_ = object()


def mkstruct(base, d):
    if isinstance(base, tuple) and base and base[0] == 'S':
        d2 = dict(base[2])
        d2.update(d)
        base, d = base[1], d2
    flat = {}
    for p in sorted(d, key=lambda p: (len(p), repr(p))):
        v = d[p]
        if isinstance(v, tuple) and v and v[0] == 'S':
            flat[p] = v[1]
            for q, y in v[2]:
                flat[p + q] = y
        else:
            flat[p] = v
    if base == ('Z',) or base == 0 or base is None:
        base = ('Z',)
        flat = {p: v for p, v in flat.items() if v not in (0, ('Z',)) or any(len(q) > 0 and q == p[:len(q)] and flat.get(q, 0) not in (0, ('Z',)) for q in [p[:n] for n in range(1, len(p))])}
    if not flat:
        return base
    return ('S', base, tuple(sorted(flat.items(), key=repr)))


def spread(res, l, v):
    if isinstance(v, tuple) and v and v[0] == 'S':
        res[l] = v[1]
        for p, y in v[2]:
            res[l + p] = y
    else:
        res[l] = v


# ---------------------------------------------------------------- comparison
def strip(it):
    """trace item without the attached effects"""
    if it and it[0] == 'loop':
        return it[:4]
    return it


IND = ('U',)   # indeterminate: never initialised


def part(base, d, k):
    """what a structured value holds at a path"""
    if k in d:
        return d[k]
    for n in range(len(k) - 1, 0, -1):
        if k[:n] in d:
            base = d[k[:n]]
            break
    if base == IND:
        return IND
    return 0 if base in (0, ('Z',)) else None


def same(a, b):
    """do two values agree? what the reference leaves indeterminate may be anything"""
    if a == b or a == IND:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    if a and b and a[0] == 'S' or b and b[0] == 'S':
        if not (a and a[0] == 'S'):
            a = ('S', a, ())
        if not (b and b[0] == 'S'):
            b = ('S', b, ())
        if not same(a[1], b[1]):
            return False
        da, db = dict(a[2]), dict(b[2])
        for k in set(da) | set(db):
            x, y = part(a[1], da, k), part(b[1], db, k)
            if x == IND:
                continue
            if x is None or y is None or not same(0 if x == ('Z',) else x, 0 if y == ('Z',) else y):
                return False
        return True
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def first_diff(a, b):
    """first differing item of two traces: (effect in a or None, effect in b or None)"""
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return (None, b[i][1], i)
        if i >= len(b):
            return (a[i][1], None, i)
        x, y = a[i][0], b[i][0]
        if not same(strip(x), strip(y)):
            if x[0] == 'loop' and y[0] == 'loop' and x[1] == y[1]:
                d = first_diff(x[4], y[4])
                if d is not None:
                    return d
            if x[0] == 'try' and y[0] == 'try':
                d = first_diff(a[i][2], b[i][2])
                if d is not None:
                    return d
            return (a[i][1], b[i][1], i)
    return None


class GiveUp(Exception):
    pass


def iters_in(s, t):
    """loops within whose iterations alone a term has a value"""
    c = s.__dict__.get('_iters')
    if c is None:
        home = {}

        def go(effs, up):
            for e in effs:
                home[e.uid] = up
                if e.name == 'loop':
                    go(e.body, up | {e.uid})
                elif e.name == 'try':
                    go(e.body, up)
                    for _, h in e.data:
                        go(h, up)
        go(s.effs, frozenset())
        c = s.__dict__['_iters'] = (home, {})
    home, memo = c
    r = memo.get(t)
    if r is None:
        r = set()
        if t.op in ('k', 'mu'):
            r.add(t.a[0])
        if t.op in ('k', 'mu', 'post', 'lret', 'res', 'lam'):
            r |= home.get(t.a[0], frozenset())
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                r |= iters_in(s, x)
            elif isinstance(x, tuple):
                st.extend(x)
        memo[t] = r
    return r


class Flat(Numbering):
    """the same numbering, with loops followed iteration by iteration: what happens is one sequence, however it is divided into loops"""
    CAP = 300

    def __init__(self, *a, **k):
        Numbering.__init__(self, *a, **k)
        self.n = 0
        self.steps = 0
        self.active = []
        self.cells = {}
        self.most = 0
        self.under = {}
        self.deps = []
        for l, v in self.s.store.items():
            if l[0][0] == 'h':
                continue
            d = set()
            for x in l:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            d |= iters_in(self.s, y)
            if d:
                self.deps.append((l, v, d))

    def value(self, h0, ty, sg):
        h = self.h(h0 ^ 0x5bd1e995)
        t = deref_ty(ty) if ty else None
        if h % 4 < 2 and t and t != 'bool' and t[:1] != 'E' and width(t):
            return wrap((h >> 8) % 6, t)
        return Numbering.value(self, h0, ty, sg)

    def block(self, effs, path):
        out = []
        for e in effs:
            try:
                g = self.truth(e.pc)
            except NotExec:
                g = False
            if not g:
                continue
            self.steps += 1
            if self.steps > 4000:
                raise GiveUp()
            self.names[e.uid] = e.name
            if e.name == 'loop':
                out += self.loop(e, ())
                continue
            if e.name == 'try':
                n = self.n
                b = self.block(e.body, ())
                m = self.n
                hs = []
                for i, (ty, h) in enumerate(e.data):
                    self.n = n + 1000 * (i + 1)
                    hs.append((ty, tuple(strip(x[0]) for x in self.block(h, ()))))
                self.n = m
                out.append((('try', tuple(strip(x[0]) for x in b), tuple(hs)), e, b))
                continue
            if e.name in ('break', 'return'):
                continue
            if e.name in OBSERVE:
                self.pos[e.uid] = ('at', self.n, e.name, norm(self.soft(e.args[0])))
                continue
            self.pos[e.uid] = ('flat', self.n)
            args = tuple(norm(self.soft(a)) for a in e.args)
            self.n += 1
            bs = octets(e.name, args) if e.name.startswith('Write.') else None
            if bs is not None:
                out.extend((b, e) for b in bs)
            else:
                out.append(((CANON.get(e.name, e.name),) + args, e))
        return out

    def loop(self, e, pos):
        cnt = None
        if e.count is not None:
            try:
                cnt = self.ev(e.count)
            except NotExec:
                pass
            if isinstance(cnt, int) and cnt > 1 << 31:
                cnt = wrap(cnt, 'i64')
            if isinstance(cnt, int) and cnt <= 0:
                self.loops[e.uid] = (self.depth, None, e, set())
                return []
            if isinstance(cnt, int) and cnt > self.CAP:
                raise GiveUp()
        depth = self.depth
        self.simmu.pop(e.uid, None)
        self.simpost.pop(e.uid, None)
        vals = {i: self.soft(m[0]) for i, m in e.mus.items()}
        rets = (e.data or {}).get('rets') or []
        brks = next(iter(e.mus.values()))[2] if e.mus else None
        out = []
        j = 0
        self.under[e.uid] = set(self.active)
        self.active.append(e.uid)
        self.depth += 1
        while True:
            if isinstance(cnt, int) and j >= cnt:
                self.simpost[e.uid] = vals
                break
            if j > self.CAP:
                raise GiveUp()
            self.memo = {}
            self.loops[e.uid] = (depth, j, e, set())
            self.simmu[e.uid] = vals
            out += self.block(e.body, ())
            for l, v, d in self.deps:
                if e.uid in d and all(u in self.active for u in d):
                    try:
                        el = self.evloc(l)
                    except NotExec:
                        continue
                    x = self.soft(v)
                    if x is not UNDEF and x != UNDEF and not self.kept(el, v):
                        self.cells[el] = norm(x)
            if any(self.soft(c) not in (0, UNDEF) for c, _ in rets):
                self.simpost[e.uid] = vals
                break
            if brks is None:
                if any(x.name == 'break' and self.soft(x.pc) not in (0, UNDEF, False) for x in e.body):
                    break
            else:
                n = next((i for i, (c, _) in enumerate(brks) if self.soft(c) not in (0, UNDEF)), None)
                if n is not None:
                    self.simpost[e.uid] = {i: self.soft(m[2][n][1]) for i, m in e.mus.items()}
                    break
            if cnt is None and brks is None and not rets and not any(x.name == 'break' for x in e.body):
                raise GiveUp()
            vals = {i: self.soft(m[1]) for i, m in e.mus.items()}
            j += 1
        self.most = max(self.most, j)
        self.depth -= 1
        self.active.pop()
        self.memo = {}
        return out

    def memory(self):
        if self.soft(self.s.pc) in (0, UNDEF, False):
            return None
        out = {}
        skip = {id(l) for l, _, _ in self.deps}
        for l, v in self.s.store.items():
            if l[0][0] == 'h' or id(l) in skip:
                continue
            try:
                el = self.evloc(l)
            except NotExec:
                continue
            x = self.soft(v)
            if x is UNDEF or x == UNDEF or self.kept(el, v):
                continue
            out[el] = norm(x)
        out.update(self.cells)
        for l, v, d in self.deps:  # overwritten as part of a whole after the loop
            if any(u not in d and not self.under.get(u, d) & d for u in loops_in(v)):
                try:
                    x = self.soft(v)
                    if x is not UNDEF and x != UNDEF:
                        out[self.evloc(l)] = norm(x)
                except NotExec:
                    pass
        res = {}
        for l in sorted(out, key=lambda l: (len(l), repr(l))):
            spread(res, l, out[l])
        self.mem = res
        return res


def limits(s):
    """what a loop followed for some iterations would not show: large constants, narrow arithmetic"""
    out = set()
    for t in all_terms(s):
        if t.op == 'i' and Flat.CAP - 20 <= abs(t.a[0]) < 1 << 62 and t.a[0] != 0xffffffff:
            out.add(t.a[0])
        elif t.op == 'cast' and t.ty and width(t.ty) and width(t.ty)[0] < 32:
            out.add(t.ty)
        elif t.op in ('+', '-', '*') and t.ty and width(t.ty) and width(t.ty)[0] < 32:
            out.add(t.ty)
    return out


def shape(s):
    def tree(effs):
        return tuple((e.name, e.count is None, len(e.mus), tree(e.body)) if e.name == 'loop' else e.name for e in effs if e.name not in ('break', 'return'))
    return tree(s.effs)


def flat_equal(ref, cur, prog, seeds, fixed, ignore, ret, memory, hints, lay):
    """the summaries divide what they do differently into loops: do they agree on the sequence of it?"""
    if shape(ref) == shape(cur) or limits(cur) - limits(ref):
        return False
    full = 0
    for seed in range(7000, 7400):
        A = Flat(ref, seed, hints, prog, fixed)
        B = Flat(cur, seed, hints, prog, fixed)
        A.lay = B.lay = lay
        B.nulls = A.nulls
        try:
            ta = A.run()
        except GiveUp:
            continue
        try:
            tb = B.run()
        except GiveUp:
            return False
        if first_diff(ta, tb) is not None:
            return False
        pa, pb = A.soft(ref.pc), B.soft(cur.pc)
        fa, fb = pa not in (0, UNDEF, False), pb not in (0, UNDEF, False)
        if fa != fb:
            return False
        if A.most > 1:
            full += 1
        if not fa:
            continue
        if ret and not same(norm(A.soft(ref.ret) if isinstance(ref.ret, T) else None), norm(B.soft(cur.ret) if isinstance(cur.ret, T) else None)):
            return False
        if not memory:
            continue
        ma, mb = A.memory(), B.memory()
        for l in set(ma) | set(mb):
            if l[0][0] in ('v', 't') or (ignore and ignore(l)):
                continue
            x, y = A.value_at(l), B.value_at(l)
            x = ('initial', l) if x is None else 0 if x == ('Z',) else x
            y = ('initial', l) if y is None else 0 if y == ('Z',) else y
            if not same(x, y) and not (isinstance(x, tuple) and x[:1] == ('undef',)) and not lay.settled(A, B, l):
                return False
    return full >= 25


def hints_of(*ss):
    hints = Hints()
    for s in ss:
        hints.collect(s)
    return hints.freeze()


def compare(ref, cur, prog, seeds, fixed=None, ignore=None, ret=True, memory=True, hints=None):
    """None if the summaries agree, else a description of the first disagreement"""
    hints = hints or hints_of(ref, cur)
    lay = Layout(prog, cur)
    d = inductive(ref, cur, prog, seeds, fixed, ignore, ret, memory, hints, lay)
    if d is not None and flat_equal(ref, cur, prog, seeds, fixed, ignore, ret, memory, hints, lay):
        return None
    return d


def inductive(ref, cur, prog, seeds, fixed, ignore, ret, memory, hints, lay):
    for seed in seeds:
        seed, ov = seed if isinstance(seed, tuple) else (seed, None)
        A = Numbering(ref, seed, hints, prog, fixed, ov=ov)
        B = Numbering(cur, seed, hints, prog, fixed, ov=ov)
        A.lay = B.lay = lay
        B.nulls = A.nulls  # a pointer the reference never compares with null must not be null
        ta, tb = A.run(), B.run()
        d = first_diff(ta, tb)
        if d is not None:
            return describe(d, ta, tb, seed)
        pa, pb = A.soft(ref.pc), B.soft(cur.pc)
        fa, fb = pa not in (0, UNDEF, False), pb not in (0, UNDEF, False)
        if fa != fb:
            return {'what': 'completes normally' if fb else 'does not complete normally', 'loc': '', 'seed': seed}
        if not fa:
            continue
        if ret and not same(norm(A.soft(ref.ret) if isinstance(ref.ret, T) else None), norm(B.soft(cur.ret) if isinstance(cur.ret, T) else None)):
            return {'what': 'result differs: expected %s, got %s' % (show(ref.ret)[:300], show(cur.ret)[:300]), 'loc': '', 'seed': seed}
        if not memory:
            continue
        ma, mb = A.memory(), B.memory()
        for l in sorted(set(ma) | set(mb), key=repr):
            if l[0][0] in ('v', 't') or (ignore and ignore(l)):
                continue
            x, y = A.value_at(l), B.value_at(l)
            if x is None:
                x = norm(initial_like(A, l, mb[l] if l in mb else None))
            if y is None:
                y = norm(initial_like(B, l, ma[l] if l in ma else None))
            if x == ('Z',):
                x = 0
            if y == ('Z',):
                y = 0
            if not same(x, y) and not (isinstance(x, tuple) and x[:1] == ('undef',)):
                if lay.settled(A, B, l) or l not in ma and B.untouched(l) or l not in mb and A.untouched(l):
                    continue
                if lay.beyond_array(A, l):
                    break  # the reference leaves an array of fixed size here: the numbering says nothing
                return {'what': 'value left in %s differs: expected %s, got %s' % (
                    showl(l), term_at(ref, A, l), term_at(cur, B, l)), 'loc': '', 'seed': seed}
    return None


class Layout:
    """types of memory locations: what a whole object comes down to"""

    def __init__(self, prog, s):
        self.p, self.s, self.lv = prog, s, {}

    def fields(self, cls, seen=()):
        r = self.p.records.get(cls)
        if r is None or cls in seen:
            return {}
        out = {}
        for b in r.get('bases', []):
            b = b if isinstance(b, str) else b.get('ty', b.get('n', ''))
            out.update(self.fields(b[1:] if b[:1] == 'R' and b[1:] in self.p.records else b, seen + (cls,)))
        out.update({f['n']: f['ty'] for f in r['fs']})
        return out

    def elem(self, t):
        if t[:1] == 'A' and 'x' in t:
            return t[1:].split('x', 1)[1]
        if t[:1] == 'R':
            r = self.p.records.get(t[1:])
            if r and r.get('targs') and isinstance(r['targs'][0], str) and t[1:].split('<')[0] in ('std::vector', 'std::array', 'std::span', 'std::deque'):
                return r['targs'][0]
        return None

    def at(self, loc):
        t = getattr(self.s, 'roots', {}).get(loc[0])
        for x in loc[1:]:
            if t is None:
                return None
            t = unq(t)
            if isinstance(x, tuple):
                t = self.elem(t) if x[0] == 'e' else None
            elif t[:1] == 'R':
                t = self.fields(t[1:]).get(x)
            else:
                t = None
        return unq(t) if t else None

    def extent(self, t):
        if t[:1] == 'A' and 'x' in t:
            n = t[1:].split('x', 1)[0]
            return int(n) if n.isdigit() else None
        if t.startswith('Rstd::array<'):
            r = self.p.records.get(t[1:])
            if r and r.get('targs') and isinstance(r['targs'][-1], int):
                return r['targs'][-1]
        return None

    def outside(self, loc):
        """an index the location applies to an array of fixed size lies outside of it"""
        for n, x in enumerate(loc):
            if n and isinstance(x, tuple) and x[0] == 'e' and isinstance(x[1], int):
                t = self.at(loc[:n])
                m = self.extent(t) if t else None
                if m is not None and not 0 <= x[1] < m:
                    return True
        return False

    def cut(self, N, k, el):
        """an index stays inside only because it was cut down to fewer bits"""
        for n, x in enumerate(k):
            if n and isinstance(x, tuple) and x[0] == 'e' and isinstance(x[1], T) and x[1].op == 'cast' and len(el) == len(k):
                t = self.at(el[:n])
                m = self.extent(t) if t else None
                if m is not None:
                    i = x[1]
                    while i.op == 'cast':
                        i = i.a[0]
                    v = N.soft(i)
                    if isinstance(v, int) and not 0 <= v < m:
                        return True
        return False

    def beyond_array(self, N, l):
        """the reference, as numbered, writes beyond an array of fixed size or leaves in l what it read from there"""
        for k, v in N.s.store.items():
            try:
                el = N.evloc(k)
                if k[0][0] == 'h' or not self.outside(el) and not self.cut(N, k, el):
                    continue
                while v.op == 'phi':
                    v = v.a[1] if N.ev(v.a[0]) else v.a[2]
                if not (v.op == 'init' and N.evloc(v.a[0]) == el):
                    return True
            except NotExec:
                pass
        for k, v in N.s.store.items():
            try:
                if N.evloc(k) != l:
                    continue
                while v.op in ('phi', 'sel'):
                    v = v.a[-1] if v.op == 'sel' else v.a[1] if N.ev(v.a[0]) else v.a[2]
                if v.op == 'init':
                    return self.outside(N.evloc(v.a[0]))
                if v.op == 'fld' and isinstance(v.a[1], tuple) and v.a[1][0] == 'e' and v.a[0].ty:
                    n, i = self.extent(unq(v.a[0].ty)), N.soft(v.a[1][1])
                    return n is not None and isinstance(i, int) and not 0 <= i < n
            except NotExec:
                pass
        return False

    def leaves(self, t, depth=0):
        """paths of the scalars (or opaque parts) an object of the type consists of; None if unknown"""
        if t in self.lv:
            return self.lv[t]
        u = unq(t)
        n = self.extent(u)
        out = [()]
        if n is not None:
            el = self.elem(u)
            sub = self.leaves(el, depth + 1) if el and depth < 6 else None
            out = [(('e', i),) + q for i in range(n) for q in sub] if sub is not None and n * len(sub) <= 512 else None
        elif u[:1] == 'R' and u[1:].split('<')[0].startswith('zenkit::') and u[1:] in self.p.records:
            out = []
            for f, ft in self.fields(u[1:]).items():
                sub = self.leaves(ft, depth + 1) if depth < 6 else None
                if sub is None or len(out) > 512:
                    out = None
                    break
                out += [(f,) + q for q in sub]
        self.lv[t] = out
        return out

    def settled(self, A, B, l):
        """two objects whose values differ as a whole agree after all: in every part, or every part was overwritten"""
        t = self.at(l)
        if t is None:
            return False
        if t.startswith(('Rstd::vector<', 'Rstd::deque<')):
            el = self.elem(t)
            lv = self.leaves(el) if el else None
            return lv is not None and all(N.covers(l, lv) for N in (A, B))
        lv = self.leaves(t)
        if not lv or lv == [()]:
            return False
        for q in lv:
            x, y = A.value_at(l + q), B.value_at(l + q)
            x = norm(x) if x is not None else ('initial', l + q)
            y = norm(y) if y is not None else ('initial', l + q)
            x, y = 0 if x == ('Z',) else x, 0 if y == ('Z',) else y
            if not same(x, y):
                qt = self.at(l + q) or ''
                if qt.startswith(('Rstd::vector<', 'Rstd::deque<')) and self.settled(A, B, l + q):
                    continue
                return False
        return True


def initial_like(N, l, v):
    if isinstance(v, int) and not l[-1] == '#size':
        pass
    return ('initial', l)


def showl(l):
    out = []
    for s in l:
        if isinstance(s, tuple):
            out.append('[%s]' % (s[1],) if s[0] == 'e' else str(s[1]))
        else:
            out.append(('.' if out else '') + str(s))
    return ''.join(out)


def term_at(s, N, l):
    for k, v in s.store.items():
        try:
            if N.evloc(k) == l:
                return show(v)[:300]
        except NotExec:
            pass
    return '(unchanged)'


def describe(d, ta, tb, seed):
    a, b, i = d

    def one(e):
        if e is None:
            return 'nothing'
        if e.name == 'loop':
            return 'loop (count %s)' % ('?' if e.count is None else show(e.count)[:120])
        return '%s(%s)' % (e.name, ', '.join(show(x)[:160] for x in e.args))
    w = 'step %d: expected %s, found %s' % (i, one(a), one(b))
    if a is not None and b is not None and one(a) == one(b):
        w += ' under a different condition or operand: expected when %s, found when %s' % (show(a.pc)[:200], show(b.pc)[:200])
    return {'what': w, 'loc': b.loc if b is not None else (a.loc if a is not None else ''), 'seed': seed}


# ---------------------------------------------------------------- directed numberings
def chains(effs, up=()):
    for e in effs:
        c = up + (e,)
        yield c
        if e.name == 'loop':
            yield from chains(e.body, c)
        elif e.name == 'try':
            yield from chains(e.body, c)
            for _, h in e.data:
                yield from chains(h, c)


def atoms(t, out, seen=None):
    """elementary conditions of a boolean term"""
    st = [t]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('&&', '||', '!'):
            st.extend(x.a)
        elif x.op == 'phi' and (x.ty == 'bool'):
            st.extend(x.a)
        elif x.op not in ('i',):
            out[x] = 1
    return out


def conditions(s):
    """all elementary conditions of a summary: in guards, and in choices inside values"""
    out, seen = {}, set()
    for e in walk_effs(s.effs):
        atoms(e.pc, out, seen)
    if isinstance(s.pc, T):
        atoms(s.pc, out, seen)
    for t in all_terms(s):
        if t.op == 'phi':
            atoms(t.a[0], out, seen)
    return out


def full(N, s):
    """evaluates everything the comparison looks at"""
    N.run()
    if N.soft(s.pc) not in (0, UNDEF, False):
        if isinstance(s.ret, T):
            N.soft(s.ret)
        N.memory()


def uids_in(v, out, seen):
    if isinstance(v, T):
        if v in seen:
            return
        seen.add(v)
        if v.op in ('res', 'k', 'mu', 'post', 'lret'):
            out.add(v.a[0])
        for x in v.a:
            uids_in(x, out, seen)
    elif isinstance(v, tuple):
        for x in v:
            uids_in(x, out, seen)


def leaves(t, path=(), depth=0, loc=()):
    """the alternatives of a value with the choices that select them"""
    if isinstance(t, T) and t.op == 'phi' and depth < 40:
        yield from leaves(t.a[1], path + ((t.a[0], True),), depth + 1, loc)
        yield from leaves(t.a[2], path + ((t.a[0], False),), depth + 1, loc)
    elif isinstance(t, T) and t.op == 'upd' and depth < 40:
        yield from leaves(t.a[0], path, depth + 1, loc)
        for p, v in t.a[1]:
            yield from leaves(v, path, depth + 1, loc + p)
    elif isinstance(t, T) and t.op == 'sel' and depth < 40:
        yield path, t, loc
        for j, v in t.a[1]:
            yield from leaves(v, path, depth + 1, loc + (j,))
    elif isinstance(t, T) and t.op in ('cast', '+', '-', '*', '/', '&', '|', '>>', '<<') and depth < 40:
        for x in t.a:
            yield from leaves(x, path, depth + 1, loc)
    else:
        yield path, t, loc


def goals(s):
    """what a set of numberings should exhibit: every alternative of every value that is compared, selected in a completing summary"""
    ch = {c[-1].uid: c for c in chains(s.effs)}
    seen = set()

    def one(v, loc, need, extra):
        for path, leaf, sub in itertools.islice(leaves(v), 3000):
            if not path and not need and not extra:
                continue
            u = set()
            uids_in(leaf, u, set())
            uids_in(loc, u, set())
            uids_in(sub, u, set())
            u |= extra
            key = (path, frozenset(u), need)
            if key in seen:
                continue
            seen.add(key)
            yield [ch[x] for x in sorted(u) if x in ch], path, need
    for l, v in s.store.items():
        if l[0][0] != 'h':
            yield from one(v, l, True, frozenset())
    if isinstance(s.ret, T):
        yield from one(s.ret, None, True, frozenset())
    lr = {t.a[0]: t for t in all_terms(s) if t.op == 'lret'}
    for c in ch.values():
        if c[-1].uid in lr:
            # the loop runs and is left early, or runs to its end
            yield [c], ((lr[c[-1].uid], True),), False
            yield [c], ((lr[c[-1].uid], False),), False
        for a in c[-1].args:
            if isinstance(a, T) and a.op == 'phi':
                yield from one(a, None, False, frozenset((c[-1].uid,)))


def steer(s, hints, prog, goal, sd, ov, iters=60):
    """local search for a numbering that meets a goal -> numbering or None"""
    chs, path, need = goal
    for it in range(iters):
        N = Numbering(s, sd, hints, prog, ov=ov)
        full(N, s)
        ch_ = None
        for ch in chs:
            bad = next((x for x in ch if x.uid not in N.pos or (x.name == 'loop' and N.loops.get(x.uid, (0, None))[1] is None)), None)
            if bad is not None:
                if bad.uid not in N.pos:
                    ch_ = N.make(bad.pc, True)
                else:
                    ch_ = N.assign(bad.count, 3) if bad.count is not None else False
                break
        if ch_ is None and need:
            try:
                ok = N.truth(s.pc)
            except NotExec:
                ok = False
            if not ok:
                ch_ = N.make(s.pc, True)
        if ch_ is None:
            for c, w in path:
                try:
                    v = N.truth(c)
                except NotExec:
                    return None
                if v != w:
                    ch_ = N.make(c, w)
                    break
        if ch_ is None:
            return N
        if not ch_:
            return None
        ov = dict(N.ov)
    return None


def meets(N, s, goal):
    chs, path, need = goal
    for ch in chs:
        for x in ch:
            if x.uid not in N.pos or (x.name == 'loop' and N.loops.get(x.uid, (0, None))[1] is None):
                return False
    try:
        if need and not N.truth(s.pc):
            return False
        return all(N.truth(c) == w for c, w in path)
    except NotExec:
        return False


def exhibit(s, hints, prog, seeds, base, budget):
    """numberings (beyond the base) that meet the goals twice, and how many goals are met"""
    import time
    t0 = time.time()
    gs = list(goals(s))
    cnt = [0] * len(gs)
    starts = list(base)[-60:]
    out = []

    def note(N):
        for i, g in enumerate(gs):
            if cnt[i] < 2 and meets(N, s, g):
                cnt[i] += 1
    for sd, ov in list(base):
        if time.time() - t0 > budget:
            break
        N = Numbering(s, sd, hints, prog, ov=dict(ov))
        full(N, s)
        note(N)
    for rnd in range(2):
        for n, g in enumerate(gs):
            if cnt[n] > rnd:
                continue
            if time.time() - t0 > budget:
                break
            got = None
            for j in range(3):
                got = steer(s, hints, prog, g, seeds[(n + 13 * j + 7 * rnd) % len(seeds)], {})
                if got:
                    break
            if got is None and starts and not rnd:
                for j in range(3):
                    sd, ov = starts[(n + 17 * j) % len(starts)]
                    got = steer(s, hints, prog, g, sd, dict(ov))
                    if got:
                        break
            if got:
                note(got)
                out.append((got.seed, dict(got.ov)))
    return out, {'goals': len(gs), 'met': sum(1 for c in cnt if c)}


def directed(s, hints, prog, seeds, budget, skip=(), effects=True):
    """numberings that reach every effect and give every elementary condition both truth values, as far as local search gets"""
    import time
    t0 = time.time()
    cov, out = set(), []
    vals = {}

    def note(N):
        cov.update(N.pos)
        for t in conds:
            v = N.memo.get(t)
            if v is not None and v is not UNDEF_:
                try:
                    vals.setdefault(t, {}).setdefault(N.truth(t), (N.seed, dict(N.ov)))
                except NotExec:
                    pass
    conds = [c for c in conditions(s) if c not in skip]
    for sd in seeds:
        N = Numbering(s, sd, hints, prog)
        full(N, s)
        note(N)
    failed = set()
    if effects:
        for n, ch in enumerate(list(chains(s.effs))):
            e = ch[-1]
            if e.uid in cov or any(x.uid in failed for x in ch):
                continue
            if time.time() - t0 > budget:
                break
            ov, ok = {}, False
            sd = seeds[n % len(seeds)]
            for it in range(60):
                N = Numbering(s, sd, hints, prog, ov=ov)
                N.run()
                bad = next((x for x in ch if x.uid not in N.pos or (x.name == 'loop' and x is not e and N.loops.get(x.uid, (0, None))[1] is None)), None)
                if bad is None:
                    ok = True
                    break
                if bad.uid not in N.pos:
                    ch_ = N.make(bad.pc, True)
                else:
                    ch_ = N.assign(bad.count, 3) if bad.count is not None else False
                if not ch_:
                    break
                ov = dict(N.ov)
            if ok:
                full(N, s)
                note(N)
                out.append((sd, dict(ov)))
            else:
                failed.add(e.uid)
    # both outcomes of every condition, next to a numbering where it is evaluated
    for t in conds:
        if time.time() - t0 > budget:
            break
        d = vals.get(t)
        if not d or len(d) == 2:
            continue
        (have, (sd, ov)), = d.items()
        ov = dict(ov)
        for it in range(12):
            N = Numbering(s, sd, hints, prog, ov=ov)
            full(N, s)
            try:
                v = N.truth(t)
            except NotExec:
                break
            if v != have:
                note(N)
                out.append((sd, dict(ov)))
                break
            if not N.make(t, not have):
                break
            ov = dict(N.ov)
    tot = sum(1 for _ in chains(s.effs))
    info = {'effects': tot, 'reached': len(cov & {c[-1].uid for c in chains(s.effs)}), 'conditions': len(conds),
            'both': sum(1 for t in conds if len(vals.get(t, ())) == 2), 'time': round(time.time() - t0, 1)}
    return out, info


def flips(s, hints, prog, base, budget):
    """from numberings that reach effects: change one elementary condition at a time"""
    import time
    t0 = time.time()
    out, done = [], set()
    for sd, ov in base:
        N = Numbering(s, sd, hints, prog, ov=dict(ov))
        full(N, s)
        for ch in chains(s.effs):
            e = ch[-1]
            if e.uid not in N.pos:
                continue
            for t in atoms(e.pc, {}):
                if t in done:
                    continue
                done.add(t)
                N2 = Numbering(s, sd, hints, prog, ov=dict(ov))
                full(N2, s)
                try:
                    v = N2.truth(t)
                except NotExec:
                    continue
                if N2.make(t, not v):
                    out.append((sd, dict(N2.ov)))
                if time.time() - t0 > budget:
                    return out
    return out


def outcome(N, s):
    """what the comparison would see of a numbering, condensed"""
    tr = tuple(strip(x[0]) for x in N.trace)
    done = N.soft(s.pc) not in (0, UNDEF, False)
    mem = ret = None
    if done:
        ret = norm(N.soft(s.ret)) if isinstance(s.ret, T) else None
        mem = tuple(sorted(((repr(l), repr(v)) for l, v in N.memory().items())))
    return hash((repr(tr), done, repr(ret), mem))


def edges(s, hints, prog, base, budget, skip=()):
    """pairs of numberings on both sides of the boundary of an order comparison that decides what is observed"""
    import time
    t0 = time.time()
    conds = [c for c in conditions(s) if c.op in ('<', '<=', '>', '>=') and c not in skip]
    out, tries = [], {}
    for sd, ov in reversed(base):
        if time.time() - t0 > budget or not conds:
            break
        N = Numbering(s, sd, hints, prog, ov=dict(ov))
        full(N, s)
        for c in list(conds):
            if c not in N.memo or tries.get(c, 0) > 25:
                continue
            tries[c] = tries.get(c, 0) + 1
            if time.time() - t0 > budget:
                break
            got = []
            for d in (0, -1, 1):
                M = Numbering(s, sd, hints, prog, ov=dict(ov))
                full(M, s)
                try:
                    x, y = M.ev(c.a[0]), M.ev(c.a[1])
                except NotExec:
                    break
                if not isinstance(x, (int, Fraction)) or not isinstance(y, (int, Fraction)):
                    break
                if x != y + d:
                    if not (M.assign(c.a[0], y + d) or M.assign(c.a[1], x - d)):
                        continue
                    M = Numbering(s, sd, hints, prog, ov=dict(M.ov))
                    full(M, s)
                    try:
                        if M.ev(c.a[0]) != M.ev(c.a[1]) + d:
                            continue
                    except NotExec:
                        continue
                try:
                    got.append((d, M.truth(c), outcome(M, s), (sd, dict(M.ov))))
                except NotExec:
                    continue
            eq = next((g for g in got if g[0] == 0), None)
            if eq and any(g[1] != eq[1] and g[2] != eq[2] for g in got):
                out += [g[3] for g in got]
                conds.remove(c)
    return out, len(conds)


def stretched(s, hints, prog, seeds, base=()):
    """numberings with long texts, beyond what one or two octets can count"""
    out = []
    done = set()
    for sd, ov0 in [(sd, {}) for sd in seeds] + list(base):
        N = Numbering(s, sd, hints, prog, ov=dict(ov0))
        full(N, s)
        ks = [h0 for t, h0 in N.drawn.items() if isinstance(N.memo.get(t), str) and h0 not in ov0 and h0 not in done][:6]
        if not ks:
            continue
        done.update(ks)
        for n in (150, 33100):
            ov = dict(ov0)
            for k in ks:
                ov[k] = 'qz' * n
            out.append((sd, ov))
        if len(out) >= 24:
            break
    # loops that run longer than 16 bits can count
    for i, sd in enumerate(seeds):
        ov = {H('k', d, 70000): 65800 + 7 * i for d in range(4)}
        for it in range(6):
            N = Numbering(s, sd, hints, prog, ov=dict(ov))
            full(N, s)
            more = False
            for e in walk_effs(s.effs):
                if e.name == 'loop' and e.uid in N.pos and e.count is not None and N.cnts.get(e.uid) != 70000:
                    more |= N.assign(e.count, 70000)
            if not more:
                break
            ov = dict(N.ov)
        if any(c == 70000 for c in N.cnts.values()):
            out.append((sd, ov))
    return out
