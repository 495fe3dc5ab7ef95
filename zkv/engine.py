"""Gated effect-and-value analysis of C++ functions.

One structured pass over each function (callees inlined, loops summarised once, branches joined with
gating terms) yields the ordered list of observable effects, each guarded by the condition under which it
happens, and the symbolic contents of memory on exit.  Nothing is executed: loop bodies are analysed for one
generic iteration, unknown inputs stay symbolic, and no path is enumerated.
"""
import sys
from .ir import *
from .terms import *
from . import terms

sys.setrecursionlimit(100000)


STREAMS = ('zenkit::Read', 'zenkit::Write', 'zenkit::ReadArchive', 'zenkit::WriteArchive')
STRT = 'Rstd::basic_string<char>'


class Unsupported(Exception):
    pass


class Eff:
    __slots__ = ('uid', 'name', 'args', 'pc', 'ty', 'loc', 'body', 'count', 'mus', 'data', 'outs')

    def __init__(self, uid, name, args, pc, ty=None, loc=''):
        self.uid, self.name, self.args, self.pc, self.ty, self.loc = uid, name, args, pc, ty, loc
        self.body = None
        self.count = None
        self.mus = None
        self.data = None
        self.outs = None


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store, pc):
        self.store, self.pc = store, pc


class Frame:
    def __init__(self, no, fn, this=None, parent=None):
        self.no, self.fn, self.this, self.parent = no, fn, this, parent
        self.vars = {}
        self.exits = []
        self.loops = []      # loop / switch contexts inside this function
        self.alias = {}
        self.dtors = []      # locals whose destructor has a body, innermost last

    def lookup(self, vid):
        f = self
        while f is not None:
            if vid in f.vars:
                return f.vars[vid]
            f = f.parent
        return None


class LoopCtx:
    def __init__(self, kind):
        self.kind = kind
        self.breaks, self.conts, self.rets = [], [], []


def fam(cls):
    c = cls
    if not c.startswith('std::') and not c.startswith('__gnu_cxx::'):
        return None
    c = c.split('<')[0]
    return {
        'std::vector': 'vec', 'std::basic_string': 'str', 'std::basic_string_view': 'sv', 'std::array': 'arr',
        'std::shared_ptr': 'sptr', 'std::__shared_ptr': 'sptr', 'std::__shared_ptr_access': 'sptr',
        'std::unique_ptr': 'sptr', 'std::weak_ptr': 'sptr', 'std::__weak_ptr': 'sptr',
        'std::optional': 'opt', 'std::_Optional_base_impl': 'opt', 'std::variant': 'var',
        'std::unordered_map': 'map', 'std::map': 'map', 'std::set': 'map', 'std::unordered_set': 'map',
        'std::function': 'func', 'std::stack': 'vec', 'std::deque': 'vec', 'std::queue': 'vec',
        'std::span': 'span', 'std::pair': 'pair', 'std::tuple': 'tuple',
        '__gnu_cxx::__normal_iterator': 'iter', 'std::_Rb_tree_const_iterator': 'miter',
        'std::_Rb_tree_iterator': 'miter', 'std::reverse_iterator': 'iter', 'std::initializer_list': 'vec',
        'std::_Bit_reference': 'bitref', 'std::allocator': 'alloc',
    }.get(c, 'miter' if c.startswith('std::__detail::_Node_') else 'ext')


class Interp:
    MAXUNROLL = 64

    def __init__(self, prog, opaque=None, hook=None, inline=None, file_root='/repo/'):
        self.p = prog
        self.opaque = opaque or (lambda *a: None)    # (node, fn, cls, m) -> effect label or None
        self.hook = hook                             # (interp, node, fn, cls, m, obj, args, fr) -> result or None
        self.inline = inline                         # (key) -> bool, None = always
        self.effs = []
        self.nuid = 0
        self.nframe = 0
        self.st = State({}, TRUE)
        self.base = TRUE
        self.stack = []
        self.frames = []
        self.lams = {}
        self.wlog = None
        self.threw = 0
        self.loc = ''
        self.file = ''
        self.types = {}          # loc base -> dynamic record type, if known
        self.unsupported = []
        self.obl = None          # obligation recorder: list or None
        self.inlined = set()
        self.written = set()
        self.discard = 0
        self.loopnest = []
        self.gcache = {}
        self.epoch = {}
        self.strlocs = set()   # locations known to hold a string
        self.loop_hint = {}
        self.fieldcls = {}     # location of a field whose address was taken -> class
        self.havocs = ()
        self.fpath, self.active = {}, {}

    # ------------------------------------------------------------------ basics
    def uid(self):
        self.nuid += 1
        return self.nuid

    def abspc(self):
        return and_(self.base, self.st.pc)

    def here(self):
        return self.loc

    def effect(self, name, args=(), ty=None, **kw):
        e = Eff(self.uid(), name, tuple(args), self.abspc(), ty, self.here())
        self.effs.append(e)
        return e

    def res(self, e, *path, ty=None):
        return mk('res', e.uid, *path, ty=ty or e.ty)

    # ------------------------------------------------------------------ memory
    def children(self, store, loc):
        n = len(loc)
        return [k for k in store if len(k) > n and k[:n] == loc]

    def fldty(self, t, s):
        """type of a part, from the type of the whole"""
        u = unq(deref_ty(t.ty)) if t.ty else ''
        r = self.p.records.get(u[1:]) if u[:1] == 'R' else None
        if r is None:
            return None
        if isinstance(s, str):
            q = next((f['ty'] for f in r.get('fs', ()) if f['n'] == s), None)
            return unq(q) if q and not is_ref(q) else None
        if s[0] == 'e' and fam(u[1:]) in ('vec', 'arr') and r.get('targs') and isinstance(r['targs'][0], str):
            return unq(r['targs'][0])
        return None

    def proj(self, t, path, ty=None):
        for i, s in enumerate(path):
            last = i == len(path) - 1
            if t.op == 'upd':
                # find the longest matching update
                best = None
                rest = path[i:]
                for p, v in t.a[1]:
                    if rest[:len(p)] == p and (best is None or len(p) > len(best[0])):
                        best = (p, v)
                if best is not None:
                    sub = self.proj(best[1], rest[len(best[0]):], ty)
                    return sub
                # updates below the requested path
                below = tuple((p[len(rest):], v) for p, v in t.a[1] if len(p) > len(rest) and p[:len(rest)] == rest)
                b = self.proj(t.a[0], rest, ty)
                if below:
                    return mk('upd', b, below)
                return b
            if t.op == 'phi':
                return phi(t.a[0], self.proj(t.a[1], path[i:], ty), self.proj(t.a[2], path[i:], ty))
            if t.op == 'zero':
                if s == '#size':
                    return I(0)
                return self.zero(ty) if last else mk('zero')
            if t.op == 'init':
                return mk('init', t.a[0] + tuple(path[i:]), ty=ty)
            if t.op == 'uninit':
                return UNINIT
            if t.op == 'null' and s == '#has':
                return FALSE
            t = mk('fld', t, s, ty=ty if last and ty else self.fldty(t, s))
        return t

    def load(self, loc, ty=None, store=None):
        store = self.st.store if store is None else store
        v = store.get(loc)
        if v is None:
            for n in range(len(loc) - 1, 0, -1):
                b = store.get(loc[:n])
                if b is not None:
                    v = self.proj(b, loc[n:], ty)
                    break
            else:
                v = self.initial(loc, ty)
            if self.strlocs and isinstance(loc[-1], tuple) and loc[-1][0] == 'e' and loc[:-1] in self.strlocs and not self.children(store, loc[:-1]):
                return mk('str.at', self.load(loc[:-1], 'Rstd::basic_string<char>', store), loc[-1][1], ty='c8')
            v = self.aliased(loc, ty, store, v)
        if ty is not None and v.ty is not None and v.op != 'i' and (is_float(ty) and width(unq(v.ty)) or is_float(unq(v.ty)) and width(ty)):
            n = {'f32': 4, 'f64': 8}.get(unq(ty) if is_float(ty) else unq(v.ty))
            if n and width(unq(v.ty) if is_float(ty) else ty)[0] == 8 * n:  # the bytes of the one read as the other
                return mk('bits', v, I(n), ty=None)
        if loc[-1] != '#size' and not (ty is not None and self.scalar(ty)):
            ch = self.children(store, loc)
            if ch:
                n = len(loc)
                return mk('upd', v, tuple(sorted(((k[n:], store[k]) for k in ch), key=lambda x: repr_path(x[0]))))
        return v

    def aliased(self, loc, ty, store, base):
        """a read at an index that may coincide with one written before under another name"""
        for p, s in enumerate(loc):
            if isinstance(s, tuple) and s[0] == 'e' and isinstance(s[1], T):
                break
        else:
            return base
        ws = []
        n = len(loc)
        for k, v in store.items():
            if p < len(k) <= n and k[:p] == loc[:p] and k[p] != s and isinstance(k[p], tuple) and k[p][0] == 'e' and k[p + 1:] == loc[p + 1:len(k)]:
                i, j = s[1], k[p][1]
                if i.op == 'i' and j.op == 'i':
                    continue
                d = arith('-', i, j, 'i64')
                if d.op == 'i' and d.a[0] != 0:
                    continue
                ws.append((j, self.proj(v, loc[len(k):], ty) if len(k) < n else v))
        if not ws:
            return base
        return mk('sel', s[1], tuple(ws), base, ty=ty)

    def initial(self, loc, ty):
        b = loc[0]
        if isinstance(b, tuple) and b[0] == 'g':
            return self.gload(loc, ty)
        if isinstance(b, tuple) and b[0] == 'd' and b[1].op == 'null':
            return mk('nullderef', ty=ty)
        if ty is not None and loc[-1] == '#size':
            ty = 'u64'
        return mk('init', loc, ty=ty)

    def gload(self, loc, ty):
        key = loc[0][1]
        g = self.p.globals.get(key)
        if g and g.get('const') and 'init' in g and key not in self.gcache:
            self.gcache[key] = False
            save = (self.effs, self.st, self.base, self.wlog)
            self.effs, self.st, self.base, self.wlog = [], State({}, TRUE), TRUE, None
            try:
                fr = self.frame({'name': key, 'loc': g['loc']})
                self.init_into((('gi', key),), g['init'], g['ty'], fr)
                self.gcache[key] = dict(self.st.store)
            except Unsupported:
                pass
            finally:
                self.effs, self.st, self.base, self.wlog = save
        st = self.gcache.get(key)
        if st and fam(deref_ty(g['ty'])[1:]) == 'map' and len(loc) == 1:
            n = st.get((('gi', key), '#size'))
            if n is not None and n.op == 'i':
                rows = []
                for i in range(n.a[0]):
                    el = (('gi', key), ('e', I(i)))
                    rows.append(tuple(self.load(el + (x,), None, st) for x in ('first', 'second')))
                return mk('table', tuple(rows))
        if st:
            l2 = (('gi', key),) + loc[1:]
            v = st.get(l2)
            if v is not None:
                return v
            ch = self.children(st, l2)
            if ch:
                v = self.load(l2, ty, st)
                return v
            for n in range(len(l2) - 1, 0, -1):
                b = st.get(l2[:n])
                if b is not None:
                    if b.op == 'zero':
                        # symbolic index into a constant table
                        break
                    return self.proj(b, l2[n:], ty)
        return mk('glob', key, *loc[1:], ty=ty)

    def scalar(self, ty):
        t = deref_ty(ty)
        return t[:1] not in 'RA' or t.startswith('Rstd::basic_string')

    def zero(self, ty):
        if ty is None:
            return mk('zero')
        t = deref_ty(ty)
        if t[:1] == 'R':
            f = fam(t[1:])
            if f in ('str', 'sv'):
                return S('')
            if f in ('sptr', 'func'):
                return NULL
            return mk('zero')
        if t[:1] in 'P' or t == 'nullptr':
            return NULL
        if t[:1] == 'A':
            return mk('zero')
        if is_float(t):
            return mk('f', 0.0)
        return I(0)

    def note(self, loc):
        if loc[0] == ('p', 'this'):
            self.written.add(loc)
        if self.wlog is not None:
            self.wlog.add(loc)

    def put(self, loc, v):
        """store a scalar or whole value"""
        store = self.st.store
        if len(loc) > 1 and isinstance(loc[-1], tuple) and loc[-1][0] == 'e' and loc[:-1] in self.strlocs:
            b = loc[:-1]
            return self.put(b, mk('str.set', self.load(b, STRT), loc[-1][1], v, ty=STRT))
        for k in self.children(store, loc):
            del store[k]
            self.note(k)
        if v.op == 'upd':
            store[loc] = v.a[0]
            self.note(loc)
            for p, x in v.a[1]:
                store[loc + p] = x
                self.note(loc + p)
        else:
            store[loc] = v
            self.note(loc)

    def copy(self, dst, src, ty=None):
        self.put(dst, self.load(src, ty))

    # ------------------------------------------------------------------ merging
    def merge_store(self, c, s1, s2):
        if s1 is s2:
            return s1
        out = {}
        for k in s1:
            v1 = s1[k]
            v2 = s2.get(k)
            if v2 is None:
                v2 = self.load_nochild(k, s2, v1)
            out[k] = v1 if v1 is v2 else phi(c, v1, v2)
        for k in s2:
            if k not in s1:
                v2 = s2[k]
                v1 = self.load_nochild(k, s1, v2)
                out[k] = v1 if v1 is v2 else phi(c, v1, v2)
        return out

    def load_nochild(self, loc, store, like):
        if isinstance(loc[0], tuple) and loc[0][0] in ('v', 't', 'h') and not any(
                loc[:n] in store for n in range(1, len(loc))):
            # object does not exist on the other side: its value there is irrelevant
            if not any(k[0] == loc[0] for k in store):
                return like
        for n in range(len(loc) - 1, 0, -1):
            b = store.get(loc[:n])
            if b is not None:
                return self.proj(b, loc[n:], like.ty)
        if isinstance(loc[0], tuple) and loc[0][0] in ('v', 't', 'h'):
            return UNINIT
        return self.initial(loc, like.ty)

    def merge_many(self, items):
        """items: [(pc, store)] with disjoint pcs -> store"""
        items = [x for x in items if x[0] is not FALSE]
        if not items:
            return None
        store = items[-1][1]
        for pc, s in reversed(items[:-1]):
            store = self.merge_store(pc, s, store)
        return store

    def branch(self, c, f1, f2=None):
        if c is TRUE:
            return f1()
        if c is FALSE:
            if f2:
                return f2()
            return
        s0 = self.st
        pct, pce = and_(s0.pc, c), and_(s0.pc, not_(c))
        if pct is FALSE:
            if f2:
                f2()
            return
        if pce is FALSE:
            return f1()
        self.st = State(dict(s0.store), pct)
        f1()
        s1 = self.st
        self.st = State(dict(s0.store), pce)
        if f2:
            f2()
        s2 = self.st
        if s1.pc is FALSE:
            self.st = s2
        elif s2.pc is FALSE:
            self.st = s1
        else:
            pc = s0.pc if (s1.pc is pct and s2.pc is pce) else or_(s1.pc, s2.pc)
            self.st = State(self.merge_store(c, s1.store, s2.store), pc)

    # ------------------------------------------------------------------ statements
    def block(self, b, fr):
        mark = len(fr.dtors)
        for s in b:
            if self.st.pc is FALSE:
                # declarations after a jump are unreachable here
                break
            self.stmt(s, fr)
        if len(fr.dtors) > mark:
            self.leave(fr, mark)
            del fr.dtors[mark:]

    def leave(self, fr, mark):
        """locals declared since mark go out of scope"""
        for loc, f, _ in reversed(fr.dtors[mark:]):
            if self.st.pc is FALSE:
                return
            self.call_fn(f, loc, [], fr, {'k': 'call', 'l': self.loc, 'ty': 'void'})

    def dtor_of(self, ty, fr):
        if ty[:1] != 'R':
            return None
        cls = ty[1:]
        for k in self.p.method_index.get((cls, '~' + cls.split('<')[0].split('::')[-1]), []):
            f = self.p.funcs[k]
            if f.get('b') is not None and not f.get('defaulted') and not k.startswith('lambda@'):
                # types that are copied are destroyed wherever a copy is, which is followed only among their own members
                copied = any(g.get('ctor') and len(g['ps']) == 1 and deref_ty(g['ps'][0]['ty']).lstrip('K') == ty and '&&' not in g['ps'][0]['ty'][:2] and not g.get('defaulted')
                             for g in (self.p.funcs[x] for x in self.p.method_index.get((cls, cls.split('::')[-1]), [])))
                if not copied or fr.fn.get('cls') == cls:
                    return f
        return None

    def setloc(self, n, fr):
        l = n.get('l')
        if l:
            self.loc = fr.file + ':' + l

    def stmt(self, n, fr):
        if n is None or self.st.pc is FALSE:
            return
        k = n['k']
        self.setloc(n, fr)
        if k == 'block':
            self.block(n['b'], fr)
        elif k == 'expr':
            self.ev(n['e'], fr)
        elif k == 'decl':
            for d in n['d']:
                self.vardecl(d, fr)
        elif k == 'if':
            if n.get('init'):
                self.stmt(n['init'], fr)
            if n.get('cv'):
                self.vardecl(n['cv'], fr)
            c = self.cond(n['c'], fr)
            self.branch(c, lambda: self.stmt(n['th'], fr), (lambda: self.stmt(n['el'], fr)) if n.get('el') else None)
        elif k == 'return':
            v = VOID
            if n.get('e') is not None:
                v = self.retval(n['e'], fr)
            self.do_return(v, fr)
        elif k == 'switch':
            self.switch(n, fr)
        elif k in ('for', 'while', 'do', 'rfor'):
            self.loop(n, fr)
        elif k == 'break':
            cx = fr.loops[-1]
            self.leave(fr, next((i for i, d in enumerate(fr.dtors) if d[2] >= len(fr.loops)), len(fr.dtors)))
            if cx.kind == 'loop':
                self.effect('break')
            cx.breaks.append((self.st.pc, self.st.store))
            self.st = State({}, FALSE)
        elif k == 'continue':
            for cx in reversed(fr.loops):
                if cx.kind in ('loop', 'unroll'):
                    break
            at = fr.loops.index(cx) + 1
            self.leave(fr, next((i for i, d in enumerate(fr.dtors) if d[2] >= at), len(fr.dtors)))
            cx.conts.append((self.st.pc, self.st.store))
            self.st = State({}, FALSE)
        elif k == 'try':
            self.trystmt(n, fr)
        elif k in ('null', 'void'):
            pass
        elif k in ('case', 'default'):
            self.stmt(n['s'], fr)
        else:
            self.unsup(k + ':' + n.get('cls', ''))

    def unsup(self, what):
        self.unsupported.append((what, self.loc))

    def do_return(self, v, fr):
        self.leave(fr, 0)
        if self.st.pc is FALSE:
            return
        loops = [c for c in fr.loops if c.kind == 'loop']
        if loops:
            self.effect('return', (v,))
            loops[-1].rets.append((self.st.pc, self.st.store, v))
        else:
            fr.exits.append((self.st.pc, self.st.store, v))
        self.st = State({}, FALSE)

    def retval(self, e, fr):
        r = fr.fn.get('ret', '')
        if is_ref(r):
            return mk('ptr', self.lv(e, fr), ty=r)
        return self.rv(e, fr)

    def vardecl(self, d, fr):
        if d.get('static'):
            loc = (('s', fr.fn.get('key', '?'), d['n'] if d['n'] else str(d['id'])),)
            fr.vars[d['id']] = loc
            if d['ty'][:1] == 'K' and 'init' in d:
                self.init_into(loc, d['init'], d['ty'], fr)
            return
        ty = d['ty']
        if is_ref(ty):
            if 'init' in d:
                fr.vars[d['id']] = self.lv(d['init'], fr)
        else:
            loc = (('v', fr.no, d['id']),)
            fr.vars[d['id']] = loc
            self.set_type(loc, ty)
            if 'init' in d:
                self.init_into(loc, d['init'], ty, fr)
            else:
                self.default_init(loc, ty)
            f = self.dtor_of(unq(ty), fr)
            if f is not None:
                fr.dtors.append((loc, f, len(fr.loops)))
                if fr.fn.get('cls') != unq(ty)[1:]:
                    # an exception from the scope that follows
                    c = cmp('!=', self.res(self.effect('scope', (S(unq(ty)),), 'i32')), I(0))

                    def unwound():
                        self.leave(fr, len(fr.dtors) - 1)
                        self.effect('unwound', ())
                        self.st = State({}, FALSE)
                    self.branch(c, unwound, None)
        for b in d.get('bind', []):
            if 'hold' in b:
                self.vardecl(b['hold'], fr)
                fr.vars[b['id']] = fr.vars[b['hold']['id']]
            elif 'e' in b:
                fr.vars[b['id']] = self.lv(b['e'], fr)

    def set_type(self, loc, ty):
        t = deref_ty(ty)
        if t[:1] == 'R':
            self.types[loc] = t[1:]

    def default_init(self, loc, ty, zero=False):
        t = deref_ty(ty)
        if t[:1] == 'R':
            f = fam(t[1:])
            if f in ('str', 'sv'):
                self.put(loc, S(''))
            elif f in ('sptr', 'func'):
                self.put(loc, NULL)
            elif f in ('vec', 'map', 'span'):
                self.put(loc, mk('zero'))
                self.put(loc + ('#size',), I(0))
            elif f == 'opt':
                self.put(loc, mk('zero'))
                self.put(loc + ('#has',), FALSE)
            elif f is None:
                self.default_record(loc, t[1:], zero)
            else:
                self.put(loc, mk('zero'))
        elif t[:1] == 'A':
            self.put(loc, mk('zero') if zero else UNINIT)
        else:
            self.put(loc, self.zero(t) if zero else UNINIT)

    def default_record(self, loc, cls, zero=False):
        r = self.p.records.get(cls)
        if r is None:
            self.put(loc, mk('zero'))
            return
        for b in r['bases']:
            self.default_init(loc, b, zero)
        for f in r['fs']:
            if 'init' in f:
                fr = self.frame({'name': cls, 'loc': r['loc']}, this=loc)
                self.init_into(loc + (f['n'],), f['init'], f['ty'], fr)
            elif is_ref(f['ty']):
                continue
            else:
                self.default_init(loc + (f['n'],), f['ty'], zero)

    def frame(self, fn, this=None, parent=None):
        self.nframe += 1
        fr = Frame(self.nframe, fn, this, parent)
        path = (tuple(self.stack), fn.get('key', fn.get('name')))
        self.fpath[self.nframe] = path
        self.active[path] = self.nframe
        fr.file = fn.get('loc', '?:0').rsplit(':', 1)[0]
        return fr

    def init_into(self, loc, e, ty, fr):
        """initialise the object at loc of type ty from expression e"""
        k = e['k']
        t = deref_ty(ty)
        if k == 'ilist' and t[:1] == 'R' and fam(t[1:]) is None:
            self.aggregate(loc, t[1:], e['a'], fr, e)
            return
        if k == 'ilist' and (t[:1] == 'A' or fam(t[1:]) == 'arr'):
            if t[:1] == 'R':  # std::array: one nested list for the C array
                a = e['a']
                inner = a[0] if len(a) == 1 and a[0]['k'] == 'ilist' else None
                self.put(loc, mk('zero'))
                if inner is not None:
                    et = self.elemty(t)
                    for i, x in enumerate(inner['a']):
                        self.init_into(loc + (('e', I(i)),), x, et, fr)
                return
            et = t.split('x', 1)[1]
            self.put(loc, mk('zero'))
            for i, x in enumerate(e['a']):
                self.init_into(loc + (('e', I(i)),), x, et, fr)
            return
        if k == 'zero':
            self.default_init(loc, ty, True)
            return
        if k == 'ctor' and t[:1] == 'R':
            self.construct(loc, e, fr)
            return
        if k == 'str' and t[:1] == 'A':
            self.put(loc, S(e['v']))
            return
        if k == 'ailoop':
            src = self.ev(e['e'], fr)
            self.put(loc, self.val(src))
            return
        if k == 'ilist' and t[:1] in 'RA':  # a class the program says nothing about
            self.put(loc, mk('ilist', *[self.argval(x, fr) for x in e['a'] if x['k'] != 'ilist']) if e['a'] else mk('zero'))
            return
        r = self.ev(e, fr)
        if r[0] == 'L' and t[:1] in 'RA':
            self.put(loc, self.load(r[1], ty))
            if r[1] in self.types and t[:1] == 'R':
                self.types[loc] = self.types[r[1]] if r[1][0][0] == 't' else t[1:]
        else:
            self.put(loc, self.val(r, ty))

    def aggregate(self, loc, cls, elems, fr, e=None):
        r = self.p.records.get(cls)
        if r is None:
            self.put(loc, mk('zero'))
            return
        slots = [(None, b) for b in r['bases']] + [(f['n'], f['ty']) for f in r['fs']]
        if e is not None and e.get('uf'):
            slots = [s for s in slots if s[0] == e['uf']]
        for (n, ty), x in zip(slots, elems):
            if n is None:
                self.init_into(loc, x, ty, fr)
            elif is_ref(ty):
                self.put(loc + (n,), mk('ptr', self.lv(x, fr)))
            else:
                self.init_into(loc + (n,), x, ty, fr)

    def elemty(self, t):
        r = self.p.records.get(t[1:])
        if r and r.get('targs'):
            return r['targs'][0]
        return None

    # ------------------------------------------------------------------ construction
    def construct(self, loc, e, fr):
        cls = e['cls']
        f = fam(cls)
        self.types[loc] = cls
        if f is not None:
            return self.std_construct(loc, e, f, cls, fr)
        a = e['a']
        if (e.get('copy') or e.get('move')) and len(a) >= 1:
            fn = self.p.funcs.get(e['f'])
            if fn is None or fn.get('defaulted') or not fn.get('b', {}).get('b') and not any(i.get('w') for i in fn.get('inits', [])):
                src = self.ev(a[0], fr)
                if src[0] == 'L':
                    self.put(loc, self.load(src[1], 'R' + cls))
                    if src[1] in self.types:
                        self.types[loc] = self.types[src[1]]
                else:
                    self.put(loc, src[1])
                return
        h = self.try_hook(e, e.get('fn', ''), cls, cls.split('::')[-1], ('L', loc), a, fr)
        if h is not None:
            return
        fn = self.p.funcs.get(e['f'])
        if fn is None:
            if e.get('dflt'):
                self.default_record(loc, cls, e.get('zero', False))
            else:
                vals = [self.argval(x, fr) for x in a]
                self.put(loc, mk('new:' + cls, *vals))
            return
        if e.get('zero'):
            self.default_record(loc, cls, True)
        self.call_fn(fn, loc, a, fr, e)

    def std_construct(self, loc, e, f, cls, fr):
        a = [x for x in e['a'] if not (x['k'] == 'ctor' and fam(x['cls']) == 'alloc')]
        if f in ('str', 'sv'):
            if not a:
                self.put(loc, S(''))
            elif len(a) == 1 or (len(a) == 2 and width(a[0].get('ty')) is None and width(a[1].get('ty')) is None):
                if len(a) == 2:
                    vs = [self.rv(x, fr) for x in a]
                    r = self.iter_range(vs[0], vs[1])
                    self.put(loc, r if r is not None else mk('str.range', *vs, ty='Rstd::basic_string<char>'))
                else:
                    self.put(loc, self.strval(self.rv(a[0], fr)))
            else:
                vs = [self.rv(x, fr) for x in a]
                if width(a[0].get('ty')):
                    self.put(loc, mk('str.fill', *vs, ty='Rstd::basic_string<char>'))
                elif len(vs) == 2:
                    self.put(loc, self.str_prefix(self.strval(vs[0]), vs[1]))
                else:
                    self.put(loc, mk('str.sub', *[self.strval(v) for v in vs], ty='Rstd::basic_string<char>'))
            return
        if f in ('vec', 'map', 'span'):
            if not a:
                self.default_init(loc, 'R' + cls)
            elif len(a) == 1 and fam(tname(a[0].get('ty', '?'))) in ('vec', 'map', 'span', 'arr') and not e.get('ilist'):
                self.put(loc, self.argval(a[0], fr))
            elif e.get('ilist') or (a and a[0]['k'] == 'ilist'):
                lst = a[0]['a'] if a[0]['k'] == 'ilist' else a
                self.put(loc, mk('zero'))
                et = self.elemty('R' + cls) if f == 'vec' else None
                for i, x in enumerate(lst):
                    if et:
                        self.init_into(loc + (('e', I(i)),), x, et, fr)
                    else:
                        self.put(loc + (('e', I(i)),), self.argval(x, fr))
                self.put(loc + ('#size',), I(len(lst)))
            elif f == 'vec' and len(a) <= 2 and width(a[0].get('ty')):
                n = self.rv(a[0], fr)
                fill = self.argval(a[1], fr) if len(a) == 2 else mk('zero')
                self.put(loc, mk('zero') if len(a) == 1 or is_c(fill) and fill.a[0] == 0 and fill.op == 'i' else mk('fill', fill))
                self.put(loc + ('#size',), n)
            else:
                vs = [self.argval(x, fr) for x in a]
                if len(vs) == 2 and vs[0].op in ('iter', 'ptr') and vs[1].op in ('iter', 'ptr') and self.from_range(e, loc, vs[0], vs[1], fr):
                    pass
                elif len(vs) == 2 and vs[0].op == 'iter' and vs[1].op == 'iter' and vs[0].a[0] == vs[1].a[0]:
                    src, i0, i1 = vs[0].a[0], vs[0].a[1], vs[1].a[1]
                    if i0 is I(0) and i1 is self.size_of(src):
                        self.put(loc, self.load(src))
                    else:
                        self.put(loc, mk('range', self.load(src), i0, i1))
                    self.put(loc + ('#size',), arith('-', i1, i0, 'u64'))
                else:
                    self.put(loc, mk('new:' + f, *vs))
            return
        if f == 'sptr':
            if not a:
                self.put(loc, NULL)
            else:
                v = self.rv(a[0], fr)
                self.put(loc, v)
            return
        if f == 'func':
            self.put(loc, self.rv(a[0], fr) if a else NULL)
            return
        if f == 'opt':
            if not a:
                self.default_init(loc, 'R' + cls)
            else:
                t0 = tname(a[0].get('ty', '?'))
                if 'nullopt' in t0:
                    self.default_init(loc, 'R' + cls)
                elif fam(t0) == 'opt':
                    self.put(loc, self.argval(a[0], fr))
                else:
                    self.put(loc, mk('zero'))
                    self.put(loc + ('#has',), TRUE)
                    self.put(loc + ('#val',), self.argval(a[0], fr))
            return
        if f == 'var':
            if a:
                if fam(tname(a[0].get('ty', '?'))) == 'var':
                    self.put(loc, self.argval(a[0], fr))
                else:
                    self.put(loc, mk('zero'))
                    self.variant_set(loc, cls, a[0], fr)
            else:
                self.put(loc, mk('zero'))
                self.put(loc + ('#alt',), I(0))
            return
        if f == 'pair' and len(a) == 2:
            self.put(loc, mk('zero'))
            for n, x in zip(('first', 'second'), a):
                self.put(loc + (n,), self.argval(x, fr))
            return
        if f in ('iter', 'miter') and len(a) == 1:
            self.put(loc, self.rv(a[0], fr))
            return
        if not a:
            self.put(loc, mk('zero'))
            return
        if e.get('copy') or e.get('move'):
            self.put(loc, self.argval(a[0], fr))
            return
        vs = [self.argval(x, fr) for x in a]
        if cls.startswith('std::tuple<') and len(vs) == 1 and vs[0].op == 'new:std::tuple':
            self.put(loc, vs[0])
            return
        self.put(loc, mk('new:' + cls.split('<')[0], *vs))

    def str_prefix(self, s, n):
        if s.op == 's' and n.op == 'i' and n.a[0] <= len(s.a[0]):
            return S(s.a[0][:n.a[0]])
        return mk('str.prefix', s, n, ty='Rstd::basic_string<char>')

    def iter_range(self, a, b):
        return None

    def strval(self, v):
        """value of a string-ish term (pointers to characters -> contents)"""
        if v.op == 'ptr':
            loc = v.a[0]
            if isinstance(loc[-1], tuple) and loc[-1][0] == 'e':
                if loc[-1][1] is I(0):
                    c = self.load(loc[:-1])
                    d = self.st.store.get(loc[:-1] + ('#data',))
                    if d is not None:
                        return d
                    return c
                return mk('str.from', self.load(loc[:-1]), loc[-1][1], ty='Rstd::basic_string<char>')
            return self.load(loc)
        return v

    def variant_set(self, loc, cls, e, fr):
        r = self.p.records.get(cls)
        alts = (r or {}).get('targs') or []
        t = deref_ty(e.get('ty', '?'))
        idx = None
        for i, x in enumerate(alts):
            if deref_ty(x) == t:
                idx = i
        if idx is None:
            cands = [i for i, x in enumerate(alts) if self.convertible(t, deref_ty(x))]
            idx = cands[0] if cands else 99
        self.put(loc + ('#alt',), I(idx))
        self.put(loc + (('alt', I(idx)),), self.argval(e, fr))

    def convertible(self, a, b):
        if a == b:
            return True
        if a[:1] == 'P' and b[:1] == 'P':
            return True
        fa, fb = fam(a[1:]) if a[:1] == 'R' else None, fam(b[1:]) if b[:1] == 'R' else None
        if fa == 'sptr' and fb == 'sptr':
            ea, eb = tname(self.elemty(a) or '?'), tname(self.elemty(b) or '?')
            return ea == eb or self.p.is_a(ea, eb)
        if width(a) and width(b):
            return True
        if is_float(a) and is_float(b):
            return True
        return False

    def alt_index(self, cls, ta):
        r = self.p.records.get(cls)
        alts = (r or {}).get('targs') or []
        if isinstance(ta, int):
            return ta
        for i, x in enumerate(alts):
            if deref_ty(x) == deref_ty(ta):
                return i
        return 99

    # ------------------------------------------------------------------ switch
    def switch(self, n, fr):
        if n.get('init'):
            self.stmt(n['init'], fr)
        if n.get('cv'):
            self.vardecl(n['cv'], fr)
        v = self.rv(n['c'], fr)
        items = []

        def flat(s):
            if s['k'] == 'case':
                items.append(('case', self.rv(s['v'], fr)))
                flat(s['s'])
            elif s['k'] == 'default':
                items.append(('default', None))
                flat(s['s'])
            else:
                items.append(('s', s))
        body = n['b']
        for s in (body['b'] if body['k'] == 'block' else [body]):
            flat(s)
        cases = [x[1] for x in items if x[0] == 'case']
        conds = {id(c): cmp('==', v, c) for c in cases}
        nomatch = all_([not_(cmp('==', v, c)) for c in cases])
        hasdef = any(x[0] == 'default' for x in items)
        entry = self.st
        cx = LoopCtx('switch')
        fr.loops.append(cx)
        self.st = State({}, FALSE)
        for kind, x in items:
            if kind == 's':
                self.stmt(x, fr)
                continue
            c = cmp('==', v, x) if kind == 'case' else nomatch
            pc = and_(entry.pc, c)
            if pc is FALSE:
                continue
            if self.st.pc is FALSE:
                self.st = State(dict(entry.store), pc)
            else:
                self.st = State(self.merge_store(pc, dict(entry.store), self.st.store), or_(pc, self.st.pc))
        fr.loops.pop()
        outs = list(cx.breaks)
        if self.st.pc is not FALSE:
            outs.append((self.st.pc, self.st.store))
        if not hasdef:
            pc = and_(entry.pc, nomatch)
            if pc is not FALSE:
                outs.append((pc, entry.store))
        if not outs:
            self.st = State({}, FALSE)
            return
        pc = FALSE
        for q, _ in outs:
            pc = or_(pc, q)
        # if nothing jumped away the whole switch is transparent
        ngroups = 0
        self.st = State(dict(self.merge_many(outs)), self.simplify_exit(entry.pc, outs, cases, v, hasdef, pc, items))

    def simplify_exit(self, pc0, outs, cases, v, hasdef, pc, items):
        """the disjunction of all case conditions is the entry condition, if no case left the function"""
        tot = set()
        for q, _ in outs:
            tot.add(q)
        full = set()
        cur = FALSE
        # exit conditions with fallthrough groups merged
        conds = []
        for kind, x in items:
            if kind == 'case':
                conds.append(and_(pc0, cmp('==', v, x)))
            elif kind == 'default':
                conds.append(and_(pc0, all_([not_(cmp('==', v, c)) for c in cases])))
        if not hasdef:
            conds.append(and_(pc0, all_([not_(cmp('==', v, c)) for c in cases])))
        conds = [c for c in conds if c is not FALSE]
        have = set()

        def disj(t):
            if t.op == '||':
                return disj(t.a[0]) + disj(t.a[1])
            return [t]
        for q, _ in outs:
            have.add(q)
            for d in disj(q):
                have.add(d)
        if all(c in have or any(c in disj(q) for q, _ in outs) for c in conds):
            return pc0
        return pc

    # ------------------------------------------------------------------ try
    def trystmt(self, n, fr):
        pre = State(dict(self.st.store), self.st.pc)
        t = self.effect('try')
        outer = self.effs
        self.effs = []
        sb, spc = self.base, self.st.pc
        self.base = TRUE
        self.st = State(self.st.store, TRUE)
        nex = len(fr.exits)
        lrets = [len(c.rets) for c in fr.loops]
        self.stmt(n['b'], fr)
        body, s1 = self.effs, self.st
        outs = []
        hand = []
        t.data = []
        for i, h in enumerate(n['h']):
            self.effs = []
            hty = h.get('ty', '...')
            reached = mk('caught', t.uid, i, ty='bool')
            for x in body:
                if x.name == 'throw' and x.args and x.args[0].op == 's' and self.catches(hty, x.args[0].a[0]):
                    reached = or_(reached, x.pc)
            self.st = State(dict(pre.store), TRUE)
            # whatever the body wrote may or may not have happened
            for k in set(s1.store) | set(pre.store):
                a, b = s1.store.get(k), pre.store.get(k)
                if a is not b and b is not None and s1.pc is not FALSE:
                    self.st.store[k] = mk('maybe', a if a is not None else UNINIT, b, ty=(a or b).ty)
            if 'v' in h:
                fr.vars[h['v']['id']] = (('v', fr.no, h['v']['id']),)
            self.stmt(h['b'], fr)
            t.data.append((hty, self.effs))
            if self.st.pc is not FALSE:
                hand.append((and_(reached, self.st.pc), self.st.store))
        norm = s1.pc
        for c, _ in hand:
            norm = and_(norm, not_(c))
        if norm is not FALSE:
            outs.append((norm, s1.store))
        outs += hand
        t.body = body
        self.effs = outer
        self.base = sb
        # returns from inside the try stay guarded by the surrounding condition
        for j in range(nex, len(fr.exits)):
            pc, s, v = fr.exits[j]
            fr.exits[j] = (and_(spc, pc), s, v)
        if not outs:
            self.st = State({}, FALSE)
            return
        pc = FALSE
        for c, _ in outs:
            pc = or_(pc, c)
        if hand and s1.pc is TRUE:
            pc = TRUE
        self.st = State(dict(self.merge_many(outs)), and_(spc, pc))

    def catches(self, hty, ty):
        h = deref_ty(unq(hty)) if hty != '...' else hty
        h = h[1:] if h[:1] in 'RK' else h
        return h in ('...', 'std::exception') or h == ty or self.p.is_a(ty, h)

    # ------------------------------------------------------------------ loops
    def loop(self, n, fr):
        k = n['k']
        if n.get('init'):
            self.stmt(n['init'], fr)
        if k == 'rfor':
            rng = self.ev(n['r'], fr)
            if rng[0] == 'V':
                tmp = self.temp()
                self.put(tmp, rng[1])
                rng = ('L', tmp)
            rloc = rng[1]
            rty = n['r'].get('ty', '')
            f = fam(tname(rty)) if deref_ty(rty)[:1] == 'R' else None
            if f in ('str', 'sv'):
                self.strlocs.add(rloc)
            cnt = self.size_of(rloc, rty)
            built = None
            if f == 'map' and 'set<' not in tname(rty).split('<')[0] + '<' and rloc[0][0] == 'v':
                # a map filled here: its entries are reached through their keys
                c = self.load(rloc)
                if c.op == 'upd':
                    built, cnt = c, mk('map.size', c, ty='u64')
            kv = (('v', fr.no, 'rk%d' % n['v']['id']),)
            self.put(kv, I(0))
            vd = n['v']

            def cond():
                return cmp('<', self.load(kv, 'u64'), cnt)

            def body():
                idx = self.load(kv, 'u64')
                el = self.elem_loc(rloc, idx, f) if built is None else rloc + (('e', mk('map.key', built, idx)), '#pair')
                if is_ref(vd['ty']):
                    fr.vars[vd['id']] = el
                else:
                    loc = (('v', fr.no, vd['id']),)
                    fr.vars[vd['id']] = loc
                    self.put(loc, self.load(el, vd['ty']))
                for b in vd.get('bind', []):
                    if 'e' in b:
                        fr.vars[b['id']] = self.lv(b['e'], fr)
                    elif 'hold' in b:
                        self.vardecl(b['hold'], fr)
                        fr.vars[b['id']] = fr.vars[b['hold']['id']]
                self.stmt(n['b'], fr)

            def inc():
                self.put(kv, arith('+', self.load(kv, 'u64'), I(1), 'u64'))
            return self.run_loop(n, fr, cond, body, inc, False)

        def cond():
            if n.get('cv'):
                self.vardecl(n['cv'], fr)
            return self.cond(n['c'], fr) if n.get('c') else TRUE

        def body():
            self.stmt(n['b'], fr)

        def inc():
            if n.get('inc'):
                self.ev(n['inc'], fr)
        self.run_loop(n, fr, cond, body, inc, k == 'do')

    def elem_loc(self, rloc, idx, f):
        return rloc + (('e', idx),)

    def size_of(self, loc, ty=None):
        t = ty
        if t is None and loc in self.types:
            t = 'R' + self.types[loc]
        if t:
            t = deref_ty(t)
            if t[:1] == 'A':
                return I(int(t[1:].split('x', 1)[0]))
            if t[:1] == 'R' and fam(t[1:]) == 'arr':
                r = self.p.records.get(t[1:])
                if r and r.get('targs'):
                    return I(r['targs'][1])
            if t[:1] == 'R' and fam(t[1:]) in ('str', 'sv'):
                return self.strsize(self.load(loc, t))
        return self.load(loc + ('#size',), 'u64')

    def strsize(self, s):
        if s.op == 's':
            return I(len(s.a[0]))
        return mk('str.size', s, ty='u64')

    def iteration(self, fr, cond, body, inc, dowhile, cx, counted=False):
        """one generic iteration on the current state; returns the loop condition term"""
        c = TRUE
        if not dowhile:
            c = cond()
            if not counted and c is not TRUE:
                self.exit_if(not_(c), cx)
        if self.st.pc is not FALSE:
            body()
        outs = list(cx.conts)
        if self.st.pc is not FALSE:
            outs.append((self.st.pc, self.st.store))
        if outs:
            pc = FALSE
            for q, _ in outs:
                pc = or_(pc, q)
            self.st = State(dict(self.merge_many(outs)), pc)
            inc()
            if dowhile:
                c = cond()
                if c is not TRUE:
                    self.exit_if(not_(c), cx)
        return c

    def exit_if(self, c, cx):
        def f():
            self.effect('exit')
            cx.breaks.append((self.st.pc, self.st.store))
            self.st = State({}, FALSE)
        self.branch(c, f)

    def try_unroll(self, fr, cond, body, inc, dowhile, guarded=False):
        """complete unrolling while the condition is a constant; None if that does not work out"""
        if self.st.pc is FALSE:
            return True
        snap = (State(dict(self.st.store), self.st.pc), len(self.effs), dict(fr.vars), self.nuid)
        nex = len(fr.exits)
        lens = [(len(c.breaks), len(c.conts), len(c.rets)) for c in fr.loops]
        it = 0
        outs = []
        ok = True
        pc0 = self.st.pc
        while True:
            if not dowhile or it > 0:
                c = cond()
                if c is FALSE:
                    break
                if c is not TRUE:
                    if not guarded or it > 8:
                        ok = False
                        break

                    def leave():
                        outs.append((self.st.pc, self.st.store))
                        self.st = State({}, FALSE)
                    self.branch(not_(c), leave)
            it += 1
            if it > self.MAXUNROLL:
                ok = False
                break
            cx = LoopCtx('switch')   # breaks leave the unrolled loop without a loop effect
            cx.kind = 'unroll'
            fr.loops.append(cx)
            body()
            fr.loops.pop()
            outs += cx.breaks
            ins = list(cx.conts)
            if self.st.pc is not FALSE:
                ins.append((self.st.pc, self.st.store))
            if not ins:
                self.st = State({}, FALSE)
                break
            pc = FALSE
            for q, _ in ins:
                pc = or_(pc, q)
            if len(ins) > 1 or outs:
                if it > 20:
                    ok = False
                    break
            self.st = State(dict(self.merge_many(ins)), pc)
            inc()
        if not ok:
            self.st = snap[0]
            del self.effs[snap[1]:]
            fr.vars = snap[2]
            del fr.exits[nex:]
            for c, (a, b, d) in zip(fr.loops, lens):
                del c.breaks[a:], c.conts[b:], c.rets[d:]
            return None
        if outs:
            if self.st.pc is not FALSE:
                outs.append((self.st.pc, self.st.store))
            pc = FALSE
            for q, _ in outs:
                pc = or_(pc, q)
            self.st = State(dict(self.merge_many(outs)), pc)
        return True

    def run_loop(self, n, fr, cond, body, inc, dowhile):
        if not (n.get('c') is not None and n['c']['k'] == 'int' and n['c']['v']) and (n['k'] == 'rfor' or n.get('c') is not None):
            if self.peek_const(fr, cond, dowhile) and self.try_unroll(
                    fr, cond, body, inc, dowhile, (n.get('c') or {}).get('op') == '&&'):
                return
        uid = self.uid()
        pre = self.st
        outer_effs, outer_base, outer_w = self.effs, self.base, self.wlog
        self.loopnest.append(uid)
        havoc = {}      # loc -> ('mu', idx) | ('ind', step) | None
        result = None
        threw0 = self.threw
        order = []
        hkey = (id(n), tuple(self.stack))
        hint = self.loop_hint.get(hkey)
        if hint is not None:
            havoc, order = self.unhint(hint, pre.store, fr)
        vars0 = dict(fr.vars)
        obl0 = self.obl
        nuid0 = self.nuid
        nopl = set()    # carried pointers and iterators that do not simply move along
        for attempt in range(8):
            # every attempt numbers its effects alike, so that locations found in one are recognised in the next
            self.nuid = nuid0
            self.obl = [] if obl0 is not None else None
            self.wlog = set()
            self.effs = []
            self.base = TRUE
            fr.vars = dict(vars0)
            cx = LoopCtx('loop')
            fr.loops.append(cx)
            store = dict(pre.store)
            for l, h in havoc.items():
                ini = self.load_pre(pre.store, l)
                if plike(ini, h, l, nopl):
                    base, i0 = pbase(ini)
                    store[l] = pwrap(base, mk('mu', uid, h[1], ty='u64') if h[0] == 'mu' else arith('+', i0, arith('*', mk('k', uid, ty='u64'), I(h[1]), 'u64'), 'u64'))
                elif h[0] == 'mu':
                    store[l] = mk('mu', uid, h[1], ty=h[2] or ini.ty)
                elif h[0] == 'ind':
                    store[l] = arith('+', ini, arith('*', mk('k', uid, ty='u64'), I(h[1]), h[2]), h[2])
            self.st = State(store, TRUE)
            nex = len(fr.exits)
            # is this a counted loop?
            cnt = None
            if not dowhile:
                cnt = self.count_of(uid, cond, fr)
            c = self.iteration(fr, cond, body, inc, dowhile, cx, counted=cnt is not None)
            fr.loops.pop()
            written = self.wlog
            end = self.st
            ends = []
            if end.pc is not FALSE:
                ends.append(end)
            if result == 'forced':
                break
            # classify
            new = {}

            def look(st, l, dflt=None):
                v = st.get(l)
                if v is None and any(l[:n] in written for n in range(1, len(l))):
                    v = self.load(l, None, st)  # overwritten as part of a whole
                return dflt if v is None else v
            grew = False
            for l in sorted(written, key=locorder):
                if self.mentions_loop(l, uid):
                    continue
                if not self.preexists(pre.store, l, fr, vars0):
                    continue
                old = havoc.get(l)
                if old is None:
                    idx = len(order)
                    order.append(l)
                    ini = self.load_pre(pre.store, l)
                    nv = look(end.store, l) if end.pc is not FALSE else None
                    new[l] = ('mu', idx, ini.ty or (nv.ty if nv is not None else None) or ('u64' if l[-1] == '#size' else None))
                    grew = True
                elif old[0] == 'mu':
                    ini = self.load_pre(pre.store, l)
                    mu = mk('mu', uid, old[1], ty=old[2] or ini.ty)
                    pl = plike(ini, old, l, nopl)
                    if pl:
                        mu = pwrap(pbase(ini)[0], mk('mu', uid, old[1], ty='u64'))
                    nv = look(end.store, l) if end.pc is not FALSE else mu
                    if pl and nv is not None and pbase(nv)[0] != pbase(ini)[0]:
                        nopl.add(l)
                        new[l] = old
                        grew = True
                        continue
                    brk_same = all(look(s, l, mu) is mu or self.same_step(look(s, l), mu, nv) for _, s in cx.breaks)
                    if nv is None:
                        nv = mu
                    if nv is mu and all(look(s, l) is mu for _, s in cx.breaks) and all(look(s, l) is mu for _, s, _ in cx.rets):
                        new[l] = ('same',)
                    else:
                        st = self.step_of(pbase(nv)[1], pbase(mu)[1]) if pl else self.step_of(nv, mu)
                        if pl and st is not None and old[-1] != 'noind':
                            new[l] = ('ind', st, 'u64', old[1], old[2])
                        elif st is not None and old[-1] != 'noind':
                            new[l] = ('ind', st, nv.ty or 'u64', old[1], old[2])
                        else:
                            new[l] = old
                elif old[0] == 'ind':
                    ini = self.load_pre(pre.store, l)
                    if plike(ini, old, l, nopl):
                        nxt = pwrap(pbase(ini)[0], arith('+', arith('+', pbase(ini)[1], arith('*', mk('k', uid, ty='u64'), I(old[1]), 'u64'), 'u64'), I(old[1]), 'u64'))
                    else:
                        cur = arith('+', ini, arith('*', mk('k', uid, ty='u64'), I(old[1]), old[2]), old[2])
                        nxt = arith('+', cur, I(old[1]), old[2])
                    nv = look(end.store, l) if end.pc is not FALSE else nxt
                    if nv is nxt:
                        new[l] = old
                    else:
                        new[l] = ('mu', old[3], old[4], 'noind')
                        grew = True
                elif old[0] == 'same':
                    mu0 = self.load_pre(pre.store, l)
                    nv = look(end.store, l) if end.pc is not FALSE else mu0
                    if nv is not None and nv is not mu0:
                        idx = len(order)
                        order.append(l)
                        new[l] = ('mu', idx, mu0.ty or nv.ty, 'noind')
                        grew = True
                    else:
                        new[l] = old
            for l, h in havoc.items():
                if l not in new:
                    if h[0] == 'same' or l not in written:
                        if h[0] != 'same':
                            new[l] = ('same',)
                            grew = True
                        else:
                            new[l] = h
            if new == havoc and not grew:
                break
            havoc = new
            if attempt == 6:
                result = 'forced'
            del fr.exits[nex:]
        self.loop_hint[hkey] = self.mkhint(havoc, order)
        if obl0 is not None:
            obl0.extend(self.obl)
        self.obl = obl0
        self.loopnest.pop()
        e = Eff(uid, 'loop', (), TRUE, None, fr.file + ':' + n.get('l', '?'))
        e.body = self.effs
        e.count = cnt
        if cnt is not None and cnt is FALSE:
            pass
        self.effs, self.base, self.wlog = outer_effs, outer_base, outer_w
        e.pc = and_(self.base, pre.pc)
        self.effs.append(e)
        e.mus = {}
        e.data = {'dowhile': dowhile}
        # exit store
        pure = cnt is not None and not cx.breaks and not cx.rets
        src = end.store if end.pc is not FALSE else (cx.breaks[0][1] if cx.breaks else dict(pre.store))
        out = {}
        for l, v in src.items():
            out[l] = v
        for s in [s for _, s in cx.breaks]:
            for l, v in s.items():
                out.setdefault(l, v)
        for l, v in pre.store.items():
            out.setdefault(l, v)
        for l, h in havoc.items():
            ini = self.load_pre(pre.store, l)
            if h[0] == 'same':
                out[l] = ini
                if l not in pre.store:
                    out.pop(l, None)
                continue
            if plike(ini, h, l, nopl):
                base, i0 = pbase(ini)
                idx = h[3] if h[0] == 'ind' else h[1]
                if h[0] == 'ind' and pure:
                    out[l] = pwrap(base, arith('+', i0, arith('*', cnt, I(h[1]), 'u64'), 'u64'))
                    continue
                vs = [self.load_pre(end.store, l)] if end.pc is not FALSE else []
                vs += [self.load_pre(s, l) for _, s in cx.breaks]
                if all(pbase(v)[0] == base for v in vs):
                    cur = arith('+', i0, arith('*', mk('k', uid, ty='u64'), I(h[1]), 'u64'), 'u64') if h[0] == 'ind' else mk('mu', uid, idx, ty='u64')
                    nv = pbase(vs[0])[1] if end.pc is not FALSE else cur
                    e.mus[idx] = (i0, nv, tuple((pc, pbase(self.load_pre(s, l))[1]) for pc, s in cx.breaks), 'u64', h[0])
                    out[l] = pwrap(base, mk('post', uid, idx, ty='u64'))
                    continue
            if h[0] == 'ind' and pure:
                out[l] = arith('+', ini, arith('*', cnt, I(h[1]), h[2]), h[2])
                continue
            if h[0] == 'ind':
                idx, ty = h[3], h[4]
                cur = arith('+', ini, arith('*', mk('k', uid, ty='u64'), I(h[1]), h[2]), h[2])
            else:
                idx, ty = h[1], h[2]
                cur = mk('mu', uid, idx, ty=ty or ini.ty)
            nv = self.load_pre(end.store, l) if end.pc is not FALSE else cur
            brk = tuple((pc, self.load_pre(s, l)) for pc, s in cx.breaks)
            e.mus[idx] = (ini, nv, brk, ty or ini.ty, h[0])
            out[l] = mk('post', uid, idx, ty=ty or ini.ty)
        # locations written inside at loop-dependent indices are kept as written; note the writes for outer loops
        for l in written:
            self.note(l)
        st = State(out, pre.pc)
        if not pure and not cx.breaks and end.pc is FALSE and not cx.conts:
            # never leaves by itself (only returns / throws)
            st.pc = FALSE if not cx.rets else pre.pc
        self.st = st
        if cx.rets:
            r = mk('lret', uid, ty='bool')
            e.data['rets'] = [(pc, v) for pc, _, v in cx.rets]
            store = self.merge_many([(pc, s) for pc, s, _ in cx.rets])
            val = cx.rets[-1][2]
            for pc, _, v in reversed(cx.rets[:-1]):
                val = phi(pc, v, val)

            def ret():
                self.st = State(dict(store), self.st.pc)
                if val.op == 'ptr' or is_c(val) or val.op == 'void':
                    self.do_return(val, fr)
                else:
                    self.do_return(mk('lval', uid, val, ty=val.ty), fr)
            noexit = (not cx.breaks and cnt is None)
            if noexit:
                ret()
            else:
                self.branch(r, ret)

    def mkhint(self, havoc, order):
        return ([(self.canon(l), h) for l, h in havoc.items()], [self.canon(l) for l in order])

    def canon(self, l):
        b = l[0]
        if isinstance(b, tuple) and b[0] == 'v' and b[1] in self.fpath:
            return (('v', self.fpath[b[1]], b[2]),) + l[1:]
        return l

    def unhint(self, hint, store, fr):
        def un(l):
            b = l[0]
            if isinstance(b, tuple) and b[0] == 'v' and isinstance(b[1], tuple):
                no = self.active.get(b[1])
                if no is None:
                    return None
                l = (('v', no, b[2]),) + l[1:]
            elif isinstance(b, tuple) and b[0] in ('t', 'h'):
                return None
            for s in l:
                if isinstance(s, tuple):
                    for x in s:
                        if isinstance(x, T):
                            return None
            return l
        hs, order = {}, []
        for l, h in hint[0]:
            l = un(l)
            if l is not None and self.preexists(store, l, fr, None):
                hs[l] = h
        return hs, [un(l) or l for l in hint[1]]

    def same_step(self, a, mu, nv):
        return a is nv

    def preexists(self, store, l, fr, vars0):
        b = l[0]
        if isinstance(b, tuple) and b[0] in ('v', 't', 'h', 's'):
            if l in store:
                return True
            for n in range(1, len(l)):
                if l[:n] in store:
                    return True
            return any(k[0] == b for k in store)
        return True

    def load_pre(self, store, l):
        v = store.get(l)
        if v is not None:
            return v
        for n in range(len(l) - 1, 0, -1):
            b = store.get(l[:n])
            if b is not None:
                return self.proj(b, l[n:], None)
        return self.initial(l, 'u64' if l[-1] == '#size' else None)

    def mentions_loop(self, l, uid):
        for s in l:
            if isinstance(s, tuple):
                for x in s:
                    if isinstance(x, T) and (depends(x, uid) or maxres(x) > uid):
                        return True
        return False

    def step_of(self, nv, mu):
        t = nv
        if t.op == 'cast':
            t = t.a[0]
        if t.op == '+' and t.a[0] is mu and t.a[1].op == 'i':
            return t.a[1].a[0]
        if t.op == '-' and t.a[0] is mu and t.a[1].op == 'i':
            return -t.a[1].a[0]
        if t.op == 'iter' or t.op == 'ptr':
            return None
        return None

    def peek_const(self, fr, cond, dowhile):
        if dowhile:
            return True
        save = (State(dict(self.st.store), self.st.pc), len(self.effs), dict(fr.vars))
        c = cond()
        self.st = save[0]
        r = len(self.effs) == save[1] and c.op == 'i'
        del self.effs[save[1]:]
        fr.vars = save[2]
        return r

    def count_of(self, uid, cond, fr):
        """trip count of a loop whose condition compares a linear function of the iteration number"""
        save = (State(dict(self.st.store), self.st.pc), len(self.effs), dict(fr.vars), self.wlog)
        self.wlog = set()
        c = cond()
        neff = len(self.effs) - save[1]
        self.st = save[0]
        del self.effs[save[1]:]
        fr.vars = save[2]
        self.wlog = save[3]
        if neff or c.op not in ('<', '<=', '>', '>=', '!=') :
            return None
        kt = mk('k', uid, ty='u64')
        for flip in (0, 1):
            op, a, b = c.op, c.a[0], c.a[1]
            if flip:
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op]
            if depends(b, uid):
                continue
            lin = linear(a, kt)
            if lin is None:
                continue
            s, a0 = lin
            if s == 0 or depends(a0, uid):
                continue
            ty = 'i64'
            if s > 0 and op == '<':
                d = arith('-', b, a0, ty)
            elif s > 0 and op == '<=':
                d = arith('+', arith('-', b, a0, ty), I(1), ty)
            elif s < 0 and op == '>':
                d = arith('-', a0, b, ty)
            elif s < 0 and op == '>=':
                d = arith('+', arith('-', a0, b, ty), I(1), ty)
            elif op == '!=':
                d = arith('-', b, a0, ty) if s > 0 else arith('-', a0, b, ty)
            else:
                return None
            s = abs(s)
            if s != 1:
                d = arith('/', arith('+', d, I(s - 1), ty), I(s), ty)
            return d
        return None

    # ------------------------------------------------------------------ expressions
    def cond(self, e, fr):
        v = self.rv(e, fr)
        t = e.get('ty')
        if t and deref_ty(t) != 'bool':
            v = cast(v, t, 'bool')
        if v.op == 'i':
            return TRUE if v.a[0] else FALSE
        if v.op == 'null':
            return FALSE
        if v.op == 'ptr':
            return not_(nullness(v))
        return v

    def temp(self):
        return (('t', self.uid()),)

    def val(self, r, ty=None):
        if r[0] == 'L':
            return self.load(r[1], ty)
        return r[1]

    def rv(self, e, fr):
        r = self.ev(e, fr)
        return self.val(r, e.get('ty'))

    def lv(self, e, fr):
        r = self.ev(e, fr)
        if r[0] == 'L':
            return r[1]
        v = r[1]
        t = self.temp()
        self.put(t, v)
        if e.get('ty'):
            self.set_type(t, e['ty'])
        return t

    def iterloc(self, v):
        l, i = v.a
        if l[-1] == '#rev':
            l = l[:-1]
            n = self.strsize(self.load(l, STRT)) if l in self.strlocs else self.size_of(l)
            i = arith('-', arith('-', n, I(1), 'u64'), i, 'u64')
        return l + (('e', i),)

    def deref(self, v):
        if v.op == 'ptr':
            return self.sibling(v.a[0])
        if v.op == 'phi':
            # pointer chosen by a condition: keep it symbolic
            a, b = v.a[1], v.a[2]
            if a.op == 'ptr' and b.op == 'null':
                return a.a[0]
            if b.op == 'ptr' and a.op == 'null':
                return b.a[0]
        if v.op == 'iter':
            return self.iterloc(v)
        if v.op == 'mapit':
            return v.a[1] + (('e', v.a[2]), '#pair')
        return (('d', v),)

    def ev(self, e, fr):
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            self.unsup('expr ' + e['k'])
            return ('V', mk('unknown', e['k'], self.uid()))
        if 'l' in e:
            self.setloc(e, fr)
        return m(e, fr)

    def x_int(self, e, fr):
        return ('V', I(num(e['v'])))

    def x_flt(self, e, fr):
        return ('V', mk('f', float(e['v'])))

    def x_str(self, e, fr):
        return ('V', S(e['v']))

    def x_null(self, e, fr):
        return ('V', NULL)

    def x_void(self, e, fr):
        return ('V', VOID)

    def x_zero(self, e, fr):
        t = deref_ty(e['ty'])
        if t[:1] in 'RA':
            l = self.temp()
            self.default_init(l, t, True)
            return ('L', l)
        return ('V', self.zero(t))

    def x_this(self, e, fr):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            return ('V', mk('ptr', (('o', 'this?'),)))
        return ('V', mk('ptr', f.this))

    def x_ref(self, e, fr):
        if 'g' in e:
            return ('L', (('g', e['g']),))
        l = fr.lookup(e['id'])
        if l is None:
            if e.get('static'):
                l = (('s', e['n']),)
            else:
                l = (('v', fr.no, e['id']),)
            fr.vars[e['id']] = l
        return ('L', l)

    def x_fref(self, e, fr):
        return ('V', mk('fn', e['f']))

    def x_mfn(self, e, fr):
        return ('V', mk('fn', e.get('f', '?')))

    def x_mem(self, e, fr):
        b = self.ev(e['b'], fr)
        if e.get('arrow'):
            loc = self.deref(self.val(b, e['b'].get('ty')))
            self.oblige('deref', loc, e)
        else:
            if b[0] == 'V':
                v = self.proj(b[1], (e['n'],), e.get('ty'))
                return ('V', v)
            loc = b[1]
        if loc[-1] == '#pair':
            if e['n'] == 'first':
                return ('V', loc[-2][1])
            return ('L', loc[:-1])
        loc = loc + (e['n'],)
        fty = self.field_ref(e)
        if fty:
            v = self.load(loc)
            return ('L', self.deref(v))
        return ('L', loc)

    def field_ref(self, e):
        r = self.p.records.get(e.get('cls'))
        if r:
            for f in r['fs']:
                if f['n'] == e['n']:
                    return is_ref(f['ty'])
        return False

    def oblige(self, kind, *a):
        if self.obl is not None:
            self.obl.append((kind, self.loc, self.abspc(), tuple(self.loopnest)) + a)

    def x_cast(self, e, fr):
        ck = e['ck']
        if ck == 'ToVoid':
            self.ev(e['e'], fr)
            return ('V', VOID)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic', 'BitCast', 'NullToPointer',
                  'NullToMemberPointer', 'ReinterpretMemberPointer', 'AtomicToNonAtomic'):
            r = self.ev(e['e'], fr)
            if ck == 'Dynamic':
                return ('V', mk('dyncast', self.val(r), ty=e['ty']))
            if ck == 'NullToPointer':
                return ('V', NULL)
            return r
        if ck == 'ArrayToPointerDecay':
            r = self.ev(e['e'], fr)
            if r[0] == 'L':
                return ('V', mk('ptr', r[1] + (('e', I(0)),)))
            return r
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer':
            return ('V', mk('p2i', self.rv(e['e'], fr), ty=deref_ty(e['ty'])))
        v = self.rv(e['e'], fr)
        return ('V', cast(v, e.get('from'), e['ty']))

    def x_bin(self, e, fr):
        op = e['op']
        if op == ',':
            self.ev(e['a'], fr)
            return self.ev(e['b'], fr)
        if op in ('&&', '||'):
            a = self.cond(e['a'], fr)
            box = {}

            def f():
                box['v'] = self.cond(e['b'], fr)
            if op == '&&':
                if a is FALSE:
                    return ('V', FALSE)
                self.branch(a, f)
                b = box.get('v', FALSE)
                return ('V', and_(a, b))
            if a is TRUE:
                return ('V', TRUE)
            self.branch(not_(a), f)
            b = box.get('v', TRUE)
            return ('V', or_(a, b))
        a = self.rv(e['a'], fr)
        b = self.rv(e['b'], fr)
        if op in ('.*', '->*'):
            return ('V', mk('memptr', a, b, ty=e.get('ty')))
        return ('V', self.binop(op, a, b, e.get('ty'), e))

    def binop(self, op, a, b, ty, e=None):
        if op in ('+', '-') and b.op != 'ptr' and (a.op == 'ptr' or isinstance(ty, str) and ty[:1] == 'P' and a.op not in ('null', 'i', 'iter')):
            return padd(a, arith(op, I(0), b, 'i64') if op == '-' else b)
        if op == '+' and b.op == 'ptr' and width(a.ty or ''):
            return padd(b, a)
        if a.op in ('ptr', 'iter') and b.op in ('ptr', 'iter') or op == '-' and (a.op == 'ptr' or b.op == 'ptr'):
            x, y = pidx(a, b)
            if x is not None:
                return cmp(op, x, y) if op in ('==', '!=', '<', '>', '<=', '>=') else arith(op, x, y, 'i64')
        if op in ('/', '%'):
            self.oblige('div', b, e, a, op)
        if op == '<=>':
            return mk('<=>', a, b, ty='i8')
        return arith(op, a, b, ty)

    def x_asg(self, e, fr):
        # right operand is sequenced before the left one (C++17)
        t = deref_ty(e.get('ty', ''))
        r = self.ev(e['b'], fr)
        if t[:1] in 'RA' and r[0] == 'L':
            v = self.load(r[1], t)
        else:
            v = self.val(r, e['b'].get('ty'))
        l = self.lv(e['a'], fr)
        bits = e['a'].get('bits')
        if bits and t[:1] in 'uE' and width(t) and bits < width(t)[0]:
            v = arith('&', v, I((1 << bits) - 1), t)
        self.put(l, v)
        return ('L', l)

    def x_casg(self, e, fr):
        b = self.rv(e['b'], fr)
        l = self.lv(e['a'], fr)
        lt = e['a'].get('ty')
        a = self.load(l, lt)
        op = e['op'][:-1]
        ct = e.get('ct', lt)
        x = a
        if a.op != 'ptr':
            x = cast(a, lt, ct) if (width(ct) or is_float(ct)) else a
        v = self.binop(op, x, b, ct, e)
        if a.op != 'ptr' and v.op not in ('ptr', 'iter'):
            v = cast(v, ct, lt)
        self.put(l, v)
        return ('L', l)

    def x_un(self, e, fr):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(e['e'], fr)
            ty = e['e'].get('ty')
            a = self.load(l, ty)
            if a.op == 'iter':
                v = mk('iter', a.a[0], arith('+' if op == '++' else '-', a.a[1], I(1), 'u64'))
            else:
                v = self.binop('+' if op == '++' else '-', a, I(1), ty, e)
            self.put(l, v)
            if e.get('post'):
                return ('V', a)
            return ('L', l)
        if op == '*':
            v = self.rv(e['e'], fr)
            loc = self.deref(v)
            self.oblige('deref', loc, e)
            if isinstance(loc[-1], tuple) and loc[-1][0] == 'e':
                self.oblige('index', loc[:-1], loc[-1][1], e)
            return ('L', loc)
        if op == '&' and e.get('mem'):
            return ('V', mk('s', 'member ' + e['mem']))
        if op == '&':
            r = self.ev(e['e'], fr)
            if r[0] == 'L':
                if e['e']['k'] == 'mem' and e['e'].get('cls') and r[1][-1] == e['e']['n']:
                    self.fieldcls[r[1]] = e['e']['cls']
                return ('V', mk('ptr', r[1]))
            t = self.temp()
            self.put(t, r[1])
            return ('V', mk('ptr', t))
        v = self.rv(e['e'], fr)
        ty = e.get('ty')
        if op == '!':
            if e['e'].get('ty') and deref_ty(e['e']['ty']) != 'bool':
                v = cast(v, e['e']['ty'], 'bool')
            return ('V', not_(v))
        if op == '-':
            if v.op == 'i':
                return ('V', I(wrap(-v.a[0], ty)))
            if v.op == 'f':
                return ('V', mk('f', -v.a[0]))
            return ('V', arith('-', I(0), v, ty) if width(ty) else mk('neg', v, ty=ty))
        if op == '~':
            if v.op == 'i':
                return ('V', I(wrap(~v.a[0], ty)))
            return ('V', mk('~', v, ty=ty))
        if op == '+':
            return ('V', v)
        return ('V', mk('un' + op, v, ty=ty))

    def x_cond(self, e, fr):
        c = self.cond(e['c'], fr)
        if c is TRUE:
            return self.ev(e['a'], fr)
        if c is FALSE:
            return self.ev(e['b'], fr)
        box = {}

        def f(k):
            def g():
                x = e[k]
                if x['k'] == 'throw':
                    self.ev(x, fr)
                    return
                box[k] = self.rv(x, fr)
            return g
        self.branch(c, f('a'), f('b'))
        if 'a' not in box:
            return ('V', box.get('b', VOID))
        if 'b' not in box:
            return ('V', box['a'])
        return ('V', phi(c, box['a'], box['b']))

    def sibling(self, loc):
        """fields of one type behind each other, addressed as an array"""
        if len(loc) >= 2 and isinstance(loc[0], tuple) and loc[0][0] == 'd' and isinstance(loc[1], tuple) and loc[1][0] == 'e' and loc[1][1].op == 'i':
            b = loc[0][1]
            if b.op == 'ptr' and b.a[0] in self.fieldcls:
                l = b.a[0]
                fs = self.p.records.get(self.fieldcls[l], {}).get('fs', [])
                j = next((n for n, f in enumerate(fs) if f['n'] == l[-1]), None)
                if j is not None and len({f['ty'] for f in fs}) == 1 and 0 <= j + loc[1][1].a[0] < len(fs):
                    return l[:-1] + (fs[j + loc[1][1].a[0]]['n'],) + loc[2:]
        return loc

    def x_sub(self, e, fr):
        a = self.rv(e['a'], fr)
        i = self.rv(e['b'], fr)
        if a.op == 's' and i.op == 'i' and i.a[0] <= len(a.a[0]):
            return ('V', I(ord((a.a[0] + '\0')[i.a[0]])))
        if a.op in ('s', 'fld', 'res', 'init') or a.op.startswith('str.'):
            if e['a'].get('ty') == 'PKc8':
                return ('V', mk('str.at', a, i, ty='c8'))
            loc = (('d', a), ('e', i))
        else:
            loc = self.deref(padd(a, i))
        if isinstance(loc[-1], tuple) and loc[-1][0] == 'e':
            bt = e['a']['e'].get('ty') if e['a']['k'] == 'cast' and e['a'].get('ck') == 'ArrayToPointerDecay' else None
            self.oblige('index', loc[:-1], loc[-1][1], e, bt)
        return ('L', loc)

    def x_throw(self, e, fr):
        self.threw += 1
        self.effect('throw', (S(tname(e.get('ety', 'rethrow'))),))
        self.st = State({}, FALSE)
        return ('V', VOID)

    def x_lambda(self, e, fr):
        u = self.uid()
        cap = {}
        for c in e['caps']:
            if 'id' in c and not c.get('ref'):
                l = (('v', 'lam%d' % u, c['id']),)
                if 'init' in c:
                    v = self.rv(c['init'], fr)
                else:
                    src = fr.lookup(c['id'])
                    v = self.load(src)
                self.put(l, v)
                cap[c['id']] = l
            elif 'id' in c and c.get('ic') and 'init' in c:
                cap[c['id']] = self.lv(c['init'], fr)
        self.lams[u] = (e, fr, cap)
        return ('V', mk('lam', u))

    def x_ctor(self, e, fr):
        if e.get('elide') and len(e['a']) == 1:
            return self.ev(e['a'][0], fr)
        t = self.temp()
        self.construct(t, e, fr)
        f = fam(e['cls'])
        if f in ('str', 'sv', 'sptr', 'func', 'iter', 'miter'):
            return ('V', self.load(t))
        return ('L', t)

    def x_ictor(self, e, fr):
        return ('V', VOID)

    def x_ilist(self, e, fr):
        t = deref_ty(e['ty'])
        if t[:1] in 'RA':
            l = self.temp()
            self.set_type(l, t)
            if t[:1] == 'R' and fam(t[1:]) == 'vec':
                self.put(l, mk('zero'))
                for i, x in enumerate(e['a']):
                    self.put(l + (('e', I(i)),), self.argval(x, fr))
                self.put(l + ('#size',), I(len(e['a'])))
                return ('L', l)
            self.init_into(l, e, t, fr)
            return ('L', l)
        if len(e['a']) == 1:
            return self.ev(e['a'][0], fr)
        if not e['a']:
            return ('V', self.zero(t))
        return ('V', mk('ilist', *[self.argval(x, fr) for x in e['a']]))

    def x_new(self, e, fr):
        l = (('h', self.uid()),)
        at = e['at']
        if 'n' in e:
            n = self.rv(e['n'], fr)
            self.put(l, UNINIT)
            self.put(l + ('#size',), n)
            return ('V', mk('ptr', l + (('e', I(0)),)))
        if e.get('i'):
            self.init_into(l, e['i'], at, fr)
        else:
            self.default_init(l, at)
        self.set_type(l, at)
        return ('V', mk('ptr', l))

    def x_delete(self, e, fr):
        v = self.rv(e['e'], fr)
        self.effect('delete', (v,))
        return ('V', VOID)

    def x_typeid(self, e, fr):
        if 'of' in e:
            return ('V', mk('typeid', e['of']))
        return ('V', mk('typeid', self.rv(e['e'], fr)))

    def x_ailoop(self, e, fr):
        return self.ev(e['e'], fr)

    def x_uexpr(self, e, fr):
        self.unsup('uexpr ' + e['cls'])
        return ('V', mk('unknown', e['cls'], *[self.argval(x, fr) for x in e['a']]))

    def argval(self, e, fr):
        """value of an argument; references and local pointers are looked through"""
        r = self.ev(e, fr)
        return self.flat(r, e.get('ty'))

    def flat(self, r, ty=None):
        if r[0] == 'L':
            return self.load(r[1], ty)
        return r[1]

    def pointee(self, v):
        """for opaque calls: the contents behind a pointer into known memory"""
        if v.op == 'ptr':
            loc = v.a[0]
            if isinstance(loc[-1], tuple) and loc[-1][0] == 'e' and loc[-1][1] is I(0):
                d = self.st.store.get(loc[:-1] + ('#data',))
                if d is not None:
                    return d
                return mk('contents', self.load(loc[:-1]))
            if isinstance(loc[0], tuple) and loc[0][0] in ('v', 't', 'h'):
                return mk('at', self.load(loc))
        if v.op == 'iter':
            return mk('iterof', self.load(v.a[0]), v.a[1])
        return v

    # ------------------------------------------------------------------ calls
    def try_hook(self, n, fn, cls, m, obj, args, fr):
        if self.hook is None:
            return None
        return self.hook(self, n, fn, cls, m, obj, args, fr)

    def x_mcall(self, e, fr):
        cls, m = e.get('cls', ''), e.get('m', '')
        o = self.ev(e['o'], fr)
        oty = e['o'].get('ty', '')
        if e.get('arrow'):
            pv = self.val(o, oty)
            loc = self.deref(pv)
            self.oblige('deref', loc, e)
            obj = ('L', loc)
        else:
            obj = o
        fn = e.get('fn', '')
        h = self.try_hook(e, fn, cls, m, obj, e['a'], fr)
        if h is not None:
            return h
        f = fam(cls)
        if f is not None:
            return self.std_method(e, f, cls, m, obj, e['a'], fr)
        return self.call_method(e, obj, e['a'], fr)

    def call_method(self, e, obj, args, fr):
        key = e['f']
        cls, m = e.get('cls', ''), e.get('m', e.get('fn', '?').split('::')[-1])
        fn = e.get('fn', '')
        loc = obj[1] if obj[0] == 'L' else None
        if loc is None:
            loc = self.temp()
            self.put(loc, obj[1])
        lab = self.opaque(e, fn, cls, m)
        if lab:
            return self.opaque_call(e, lab, loc, args, fr)
        if e.get('virt') and not e.get('nonvirt'):
            dyn = self.types.get(loc)
            if dyn and self.p.is_a(dyn, cls):
                key = self.p.find_override(dyn, key)
            else:
                ov = self.p.overrides(key)
                this_cls = self.this_class(loc)
                if this_cls and self.p.is_a(this_cls, cls):
                    key = self.p.find_override(this_cls, key)
                elif ov:
                    return self.opaque_call(e, 'virt:' + fn, loc, args, fr)
        f = self.p.funcs.get(key)
        if f is None or f.get('b') is None:
            return self.opaque_call(e, 'ext:' + fn, loc, args, fr)
        return self.call_fn(f, loc, args, fr, e)

    def this_class(self, loc):
        return self.types.get(loc)

    def opaque_call(self, e, label, loc, args, fr, rec=None):
        """an observable effect: label(args) -> result; by-reference arguments receive part of the result"""
        vals, outs = [], []
        pts = e.get('pt', [])
        for i, a in enumerate(args):
            r = self.ev(a, fr)
            pt = pts[i] if i < len(pts) else a.get('ty', '')
            v = self.val(r, a.get('ty'))
            if rec is not None and i < len(rec.argv):
                # what a recursion hands on unchanged needs no mention
                was = rec.argv[i]
                if isinstance(was, T) and was is v and not is_ref(pt):
                    continue
                if isinstance(was, tuple) and r[0] == 'L' and was == r[1] and (is_const_ref(pt) or tname(deref_ty(pt)) in STREAMS):
                    continue
            if is_ref(pt) and not is_const_ref(pt) and unq(pt)[:2] != '&&':
                if r[0] == 'L':
                    outs.append((i, r[1], deref_ty(pt)))
                # the callee sees what the caller's own object holds at this point
                vals.append(mk('ref', v) if r[0] == 'L' and r[1][0][0] == 'p' else mk('ref'))
            elif unq(pt)[:1] == 'P' and unq(pt)[1:2] != 'K' and v.op == 'ptr' and isinstance(v.a[0][0], tuple) and v.a[0][0][0] in ('v', 't', 'h'):
                outs.append((i, v.a[0], unq(pt)[1:]))
                vals.append(mk('ref'))
            else:
                vals.append(self.pointee(v))
        if loc is not None:
            ov = self.objkey(loc)
            if ov is not None:
                vals.insert(0, ov)
        if e.get('ta') and not label.startswith(('ext:', 'virt:')):
            vals.append(mk('s', 'template ' + ','.join(str(x) for x in e['ta'])))
        if e.get('cm') and not outs and loc is not None and self.objkey(loc) is not None and self.is_pure(e.get('f')):
            # an observer: its value depends on the object and on what was done to objects of its class before
            return ('V', mk('obs:' + label, self.epoch.get(e.get('cls'), VOID), *vals, ty=deref_ty(e.get('ty', 'void'))))
        ef = self.effect(label, vals, e.get('ty'))
        if not e.get('cm') and e.get('cls'):
            self.epoch[e['cls']] = mk('res', ef.uid, 'epoch')
        for i, (_, l, t) in enumerate(outs):
            self.put(l, mk('res', ef.uid, 'out%d' % i, ty=t))
        if loc is not None and not e.get('cm') and not e.get('st') and label in self.havocs:
            ms = self.modset(label)
            if ms is None:
                self.put(loc, mk('res', ef.uid, 'obj'))
            else:
                ft = {x['n']: x['ty'] for x in self.p.fields(label.rsplit('::', 1)[0])}
                for f in sorted(ms):
                    self.put(loc + (f,), mk('res', ef.uid, 'obj', f, ty=ft.get(f)))
        rt = e.get('ty', 'void')
        if rt == 'void':
            return ('V', VOID)
        if e.get('nr'):
            self.st = State({}, FALSE)
        r = mk('res', ef.uid, ty=deref_ty(rt))
        return ('V', r)

    def is_pure(self, key):
        """has the function neither effects nor writes?"""
        c = self.p.__dict__.setdefault('_pure', {})
        if key in c:
            return c[key]
        c[key] = False
        f = self.p.funcs.get(key)
        if f is None or f.get('b') is None or not f.get('cls') or f.get('virt'):
            return False
        ip = type(self)(self.p)
        g = dict(f, ps=[dict(q, n='a%d' % i) for i, q in enumerate(f['ps'])])
        try:
            from .units import params
            ip.run(key, (('p', 'this'),), f['cls'], params(g, {}))
            c[key] = not ip.effs and not any(l[0][0] in 'pdgx' for l in ip.written)
        except Exception:
            pass
        return c[key]

    def modset(self, name):
        """fields of *this a function may overwrite (None: unknown)"""
        c = self.p.__dict__.setdefault('_modsets', {})
        if name in c:
            return c[name]
        c[name] = None
        out = set()
        for key in self.p.by_name.get(name, []):
            f = self.p.funcs[key]
            if f.get('b') is None or not f.get('cls'):
                out = None
                break
            ip = type(self)(self.p)
            g = dict(f, ps=[dict(q, n='a%d' % i) for i, q in enumerate(f['ps'])])
            try:
                from .units import params
                ip.run(key, (('p', 'this'),), f['cls'], params(g, {}))
            except Exception:
                out = None
                break
            for l in ip.written:
                if l[0] == ('p', 'this'):
                    if len(l) == 1:
                        out = None
                        break
                    out.add(l[1])
            if out is None:
                break
        c[name] = out
        return out

    def objkey(self, loc):
        return None

    def x_ocall(self, e, fr):
        op = e['op']
        a = e['a']
        fn = e.get('fn', '')
        if e.get('memop'):
            cls = e.get('cls', '')
            if op == '()':
                b = FUNCTORS.get(cls.split('<')[0])
                if b is not None and len(a) == 3:
                    x, y = self.rv(a[1], fr), self.rv(a[2], fr)
                    return ('V', self.binop(b, x, y, unq(deref_ty(e.get('ty') or 'i32'))))
                o = self.ev(a[0], fr)
                h = self.try_hook(e, fn, cls, 'operator()', o, a[1:], fr)
                if h is not None:
                    return h
                return self.invoke(self.val(o), a[1:], fr, e)
            if op == '=':
                # right before left
                if fam(cls) is not None:
                    return self.std_assign(e, cls, fr)
                f = self.p.funcs.get(e['f'])
                if f is None or f.get('defaulted') or not f.get('b'):
                    v = self.argval(a[1], fr)
                    l = self.lv(a[0], fr)
                    self.put(l, v)
                    return ('L', l)
            o = self.ev(a[0], fr)
            h = self.try_hook(e, fn, cls, 'operator' + op, o, a[1:], fr)
            if h is not None:
                return h
            f = fam(cls)
            if f is not None:
                return self.std_method(e, f, cls, 'operator' + op, o, a[1:], fr)
            return self.call_method(e, o, a[1:], fr)
        h = self.try_hook(e, fn, '', 'operator' + op, None, a, fr)
        if h is not None:
            return h
        if e.get('repo'):
            f = self.p.funcs.get(e['f'])
            if f is not None:
                return self.call_fn(f, None, a, fr, e)
        return self.std_free_op(e, op, a, fr)

    def invoke(self, v, args, fr, e):
        if v.op == 'lam':
            node, pf, cap = self.lams[v.a[0]]
            f = self.p.funcs.get(e.get('f')) if e.get('f', '').startswith('lambda@') else None
            if f is None:
                f = self.p.funcs.get(node.get('f'))
            if f is None:
                raise Unsupported('lambda without body at ' + self.loc)
            return self.call_fn(f, None, args, fr, e, parent=pf, extra=cap)
        if v.op == 'fn':
            f = self.p.funcs.get(v.a[0])
            if f is not None:
                return self.call_fn(f, None, args, fr, e)
        if v.op == 'phi':
            box = {}

            def g(x, k):
                def h():
                    box[k] = self.val(self.invoke(x, args, fr, e))
                return h
            self.branch(v.a[0], g(v.a[1], 'a'), g(v.a[2], 'b'))
            if 'a' in box and 'b' in box:
                return ('V', phi(v.a[0], box['a'], box['b']))
            return ('V', box.get('a') or box.get('b') or VOID)
        vals = [self.pointee(self.argval(x, fr)) for x in args]
        ef = self.effect('invoke', [v] + vals, e.get('ty'))
        return ('V', self.res(ef) if e.get('ty') != 'void' else VOID)

    def x_call(self, e, fr):
        a = e['a']
        if 'fe' in e:
            v = self.rv(e['fe'], fr)
            return self.invoke(v, a, fr, e)
        fn = e.get('fn', '')
        h = self.try_hook(e, fn, '', fn.split('::')[-1], None, a, fr)
        if h is not None:
            return h
        if e.get('repo'):
            lab = self.opaque(e, fn, '', fn.split('::')[-1])
            if lab:
                return self.opaque_call(e, lab, None, a, fr)
            f = self.p.funcs.get(e['f'])
            if f is not None:
                return self.call_fn(f, None, a, fr, e)
        return self.std_free(e, fn, a, fr)

    def call_fn(self, f, this, args, fr, e, parent=None, extra=None):
        key = f['key']
        lab = self.opaque(e, f['name'], f.get('cls', ''), f.get('m', f['name'].split('::')[-1])) if e is not None and not f.get('ctor') else None
        if lab:
            return self.opaque_call(e, lab, this, args, fr)
        if f['name'] in FOLDED and len(f['ps']) == 2 and self.stack and len(args) == 2:
            vs = []
            for a, q in zip(args, f['ps']):
                v = a if isinstance(a, T) else self.load(a, deref_ty(q['ty'])) if isinstance(a, tuple) else self.argval(a, fr)
                vs.append(self.strval(v))
            return ('V', mk(FOLDED[f['name']], *vs, ty='bool'))
        if self.stack.count(key) >= 1 or len(self.stack) > 40:
            tf = next((x for x in reversed(self.frames) if x.fn.get('key') == key), None)
            return self.opaque_call(e, 'rec' if tf is not None else 'rec:' + f['name'], this, args, fr, rec=tf)
        self.inlined.add(key)
        nf = self.frame(f, this, parent)
        if extra:
            nf.vars.update(extra)
        binds = []
        for i, p in enumerate(f['ps']):
            if i >= len(args):
                break
            a = args[i]
            if isinstance(a, T):
                binds.append((p, 'V', a))
            elif isinstance(a, tuple):
                binds.append((p, 'L', a))
            elif is_ref(p['ty']):
                binds.append((p, 'L', self.lv(a, fr)))
            else:
                loc = (('v', nf.no, p['id']),)
                self.set_type(loc, p['ty'])
                self.init_into(loc, a, p['ty'], fr)
                nf.vars[p['id']] = loc
        for p, k, v in binds:
            if k == 'L':
                nf.vars[p['id']] = v
            else:
                loc = (('v', nf.no, p['id']),)
                self.put(loc, v)
                nf.vars[p['id']] = loc
        return self.run_fn(f, nf)

    def run_fn(self, f, nf):
        pc0, base0 = self.st.pc, self.base
        self.base = and_(self.base, pc0)
        self.st = State(self.st.store, TRUE)
        self.stack.append(f['key'])
        nf.argv = []
        for p in f['ps']:
            l = nf.vars.get(p['id'])
            nf.argv.append(None if l is None else l if is_ref(p['ty']) else self.load(l, deref_ty(p['ty'])))
        self.frames.append(nf)
        saveloc = self.loc
        threw0 = self.threw
        if f.get('ctor'):
            for i in f.get('inits', []):
                if 'm' in i:
                    r = self.p.records.get(f['cls'])
                    fty = next((x['ty'] for x in r['fs'] if x['n'] == i['m']), '?') if r else '?'
                    if is_ref(fty):
                        self.put(nf.this + (i['m'],), mk('ptr', self.lv(i['e'], nf)))
                    else:
                        self.init_into(nf.this + (i['m'],), i['e'], fty, nf)
                elif 'base' in i:
                    t = self.types.get(nf.this)
                    if fam(tname(i['base'])) is None and i['e']['k'] == 'ctor':
                        self.construct(nf.this, i['e'], nf)
                    if t:
                        self.types[nf.this] = t
                elif 'deleg' in i and i['e']['k'] == 'ctor':
                    self.construct(nf.this, i['e'], nf)
        self.stmt(f['b'], nf)
        if self.st.pc is not FALSE:
            nf.exits.append((self.st.pc, self.st.store, VOID))
        self.stack.pop()
        self.frames.pop()
        self.base = base0
        self.loc = saveloc
        ex = [x for x in nf.exits if x[0] is not FALSE]
        if not ex:
            self.st = State({}, FALSE)
            return ('V', VOID)
        live = FALSE
        for pc, _, _ in ex:
            live = or_(live, pc)
        if self.threw == threw0:
            live = TRUE
        ret = ex[-1][2]
        for pc, _, v in reversed(ex[:-1]):
            ret = self.ret_phi(pc, v, ret)
        store = self.merge_many([(pc, s) for pc, s, _ in ex])
        self.st = State(dict(store), and_(pc0, live))
        if is_ref(f.get('ret', '')) and ret.op == 'ptr':
            return ('L', ret.a[0])
        if is_ref(f.get('ret', '')):
            return ('L', self.deref(ret))
        return ('V', ret)

    def ret_phi(self, c, a, b):
        if a is VOID:
            return b
        if b is VOID:
            return a
        return phi(c, a, b)

    # ------------------------------------------------------------------ standard library
    def mutate(self, loc, name, vals, ty=None):
        old = self.load(loc)
        self.put(loc, mk('mut:' + name, old, *vals))

    def std_assign(self, e, cls, fr):
        f = fam(cls)
        a = e['a']
        rhs = a[1]
        if f == 'opt':
            t0 = tname(rhs.get('ty', '?'))
            v = self.argval(rhs, fr)
            l = self.lv(a[0], fr)
            if 'nullopt' in t0:
                self.put(l, mk('zero'))
                self.put(l + ('#has',), FALSE)
            elif fam(t0) == 'opt':
                self.put(l, v)
            else:
                self.put(l, mk('zero'))
                self.put(l + ('#has',), TRUE)
                self.put(l + ('#val',), v)
            return ('L', l)
        if f == 'var':
            t0 = tname(rhs.get('ty', '?'))
            if fam(t0) == 'var':
                v = self.argval(rhs, fr)
                l = self.lv(a[0], fr)
                self.put(l, v)
            else:
                l = self.lv(a[0], fr)
                self.variant_set(l, cls, rhs, fr)
            return ('L', l)
        v = self.argval(rhs, fr)
        if f in ('str', 'sv'):
            v = self.strval(v)
        l = self.lv(a[0], fr)
        if f in ('vec', 'map') and rhs['k'] == 'ilist' and not rhs['a']:
            self.put(l, mk('zero'))
            self.put(l + ('#size',), I(0))
            return ('L', l)
        self.put(l, v)
        return ('L', l)

    def std_method(self, e, f, cls, m, obj, args, fr):
        m = m.replace('operator ', 'operator ')
        ty = e.get('ty')
        loc = obj[1] if obj[0] == 'L' else None

        def L():
            nonlocal loc
            if loc is None:
                loc = self.temp()
                self.put(loc, obj[1])
                self.set_type(loc, 'R' + cls)
            return loc

        def V():
            return self.val(obj, 'R' + cls)
        if f in ('vec', 'arr', 'span'):
            r = self.vec_method(e, f, cls, m, L(), args, fr)
            if r is not None:
                return r
        elif f in ('str', 'sv'):
            r = self.str_method(e, m, obj, L, V, args, fr)
            if r is not None:
                return r
        elif f == 'sptr':
            if m in ('get', 'lock'):
                return ('V', V())
            if m == 'operator->':
                return ('V', V())
            if m == 'operator*':
                l = self.deref(V())
                self.oblige('deref', l, e)
                return ('L', l)
            if m.startswith('operator bool'):
                return ('V', cast(V(), 'Pvoid', 'bool'))
            if m == 'operator[]':
                i = self.rv(args[0], fr)
                lo = self.deref(padd(V(), i))
                self.oblige('index', lo[:-1], i, e)
                return ('L', lo)
            if m == 'reset':
                v = self.argval(args[0], fr) if args else NULL
                self.put(L(), v)
                return ('V', VOID)
            if m == 'release':
                v = V()
                self.put(L(), NULL)
                return ('V', v)
            if m in ('use_count', 'expired', 'owner_before'):
                return ('V', mk('sptr.' + m, V(), ty=ty))
        elif f == 'opt':
            if m in ('has_value',) or m.startswith('operator bool'):
                return ('V', self.load(L() + ('#has',), 'bool'))
            if m in ('operator*', 'value'):
                self.oblige('opt', L(), e, m)
                if m == 'value':
                    pass
                return ('L', L() + ('#val',))
            if m == 'operator->':
                self.oblige('opt', L(), e, m)
                return ('V', mk('ptr', L() + ('#val',)))
            if m == 'value_or':
                d = self.argval(args[0], fr)
                if d.op == 'ptr':
                    d = self.strval(d)
                return ('V', phi(self.load(L() + ('#has',), 'bool'), self.load(L() + ('#val',), ty), d))
            if m == 'reset':
                self.put(L() + ('#has',), FALSE)
                return ('V', VOID)
            if m == 'emplace':
                vs = [self.argval(x, fr) for x in args]
                self.put(L() + ('#has',), TRUE)
                self.put(L() + ('#val',), vs[0] if len(vs) == 1 else mk('zero') if not vs else mk('emplace', *vs))
                return ('L', L() + ('#val',))
        elif f == 'var':
            if m == 'index':
                return ('V', self.load(L() + ('#alt',), 'u64'))
        elif f == 'func':
            if m == 'operator()':
                return self.invoke(V(), args, fr, e)
            if m.startswith('operator bool'):
                return ('V', cast(V(), 'Pvoid', 'bool'))
        elif f == 'iter':
            v = V()
            if m in ('operator*', 'operator->') and v.op == 'iter':
                l = self.iterloc(v)
                self.oblige('index', l[:-1], l[-1][1], e)
                return ('L', l) if m == 'operator*' else ('V', mk('ptr', l))
            if m in ('operator*', 'operator->'):
                return ('L', (('d', v),)) if m == 'operator*' else ('V', v)
            if m == 'base' and not args and v.op == 'iter' and v.a[0][-1] == '#rev':
                l = v.a[0][:-1]
                n = self.strsize(self.load(l, STRT)) if l in self.strlocs else self.size_of(l)
                return ('V', mk('iter', l, arith('-', n, v.a[1], 'u64')))
            if m in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator+', 'operator-'):
                post = m in ('operator++', 'operator--') and len(args) == 1
                d = I(1) if m in ('operator++', 'operator--') else self.rv(args[0], fr)
                op = '+' if '+' in m else '-'
                if v.op == 'iter':
                    if d.op == 'iter':
                        return ('V', arith('-', v.a[1], d.a[1], 'i64'))
                    nv = mk('iter', v.a[0], arith(op, v.a[1], d, 'u64'))
                else:
                    nv = mk('iter' + op, v, d)
                if m in ('operator+', 'operator-'):
                    return ('V', nv)
                self.put(L(), nv)
                return ('V', v) if post else ('L', L())
            if m == 'operator[]':
                return ('L', self.deref(mk('iter', v.a[0], arith('+', v.a[1], self.rv(args[0], fr), 'u64'))) if v.op == 'iter' else (('d', v), ('e', self.rv(args[0], fr))))
        elif f == 'miter':
            v = V()
            if m == 'operator->':
                return ('V', v)
            if m == 'operator*':
                l = self.deref(v)
                self.oblige('deref', l, e)
                return ('L', l)
            if m == 'operator++':
                nv = mk('next', v)
                self.put(L(), nv)
                return ('L', L())
        elif f == 'map':
            r = self.map_method(e, cls, m, L(), args, fr)
            if r is not None:
                return r
        elif f == 'pair' or f == 'tuple':
            pass
        # generic
        outs, vals = self.gen_args(e, args, fr)
        name = cls.split('<')[0].replace('std::', '') + '.' + m
        old = V()
        r = mk('m:' + name, old, *vals, ty=ty)
        if not e.get('cm') and not e.get('st') and loc is not None:
            self.put(loc, mk('mut:' + name, old, *vals))
        for i, l, t in outs:
            self.put(l, mk('out:%s%d' % (name, i), old, *vals, ty=t))
        if ty and (is_ref(ty) or 'stream' in cls) and tname(ty).split('<')[0] == cls.split('<')[0] and loc is not None:
            return ('L', loc)
        return ('V', r)

    def gen_args(self, e, args, fr):
        outs, vals = [], []
        pts = e.get('pt', [])
        off = len(args) - len(pts) if len(args) > len(pts) else 0
        for i, a in enumerate(args):
            r = self.ev(a, fr)
            pt = pts[i - off] if 0 <= i - off < len(pts) else a.get('ty', '')
            v = self.val(r, a.get('ty'))
            if is_ref(pt) and not is_const_ref(pt) and unq(pt)[:2] != '&&' and r[0] == 'L':
                outs.append((i, r[1], deref_ty(pt)))
            elif unq(pt)[:1] == 'P' and unq(pt)[1:2] != 'K' and v.op == 'ptr':
                outs.append((i, v.a[0], unq(pt)[1:]))
            if v.op in ('lam', 'fn'):
                v = self.lambda_value(v, e)
            vals.append(self.pointee(v))
        return outs, vals

    def lambda_value(self, v, e):
        """a callable handed to a library algorithm: its result as a function of its arguments; its effects and
        writes are those of a loop that calls it"""
        if v.op == 'lam':
            node, pf, cap = self.lams[v.a[0]]
            f = self.p.funcs.get(node.get('f'))
            if f is None:
                for k in node.get('fs', []):
                    f = self.p.funcs.get(k) or f
        else:
            f = self.p.funcs.get(v.a[0])
            pf, cap = None, None
        if f is None or f.get('b') is None or self.stack.count(f['key']):
            return v
        uid = self.uid()
        outer_effs, outer_w, base, st0 = self.effs, self.wlog, self.base, self.st
        self.effs, self.wlog, self.base = [], set(), TRUE
        self.st = State(dict(st0.store), TRUE)
        args = []
        for i, q in enumerate(f['ps']):
            if is_ref(q['ty']):
                args.append((('la', i),))
            else:
                args.append(mk('sym', 'larg%d' % i, ty=deref_ty(q['ty'])))
        try:
            r = self.call_fn(f, None, args, pf, e, parent=pf, extra=cap)
            rv = self.val(r)
        finally:
            body, written, st1 = self.effs, self.wlog, self.st
            self.effs, self.wlog, self.base, self.st = outer_effs, outer_w, base, st0
        if body:
            ef = Eff(uid, 'loop', (), self.abspc(), None, self.here())
            ef.body, ef.mus, ef.data = body, {}, {}
            self.effs.append(ef)
        for l in written:
            if l[0][0] == 'la' or not self.preexists(st0.store, l, pf, None):
                continue
            if l in st1.store:
                self.put(l, mk('fold', st1.store[l], ty=st1.store[l].ty))
        return mk('lambda', rv)

    def vec_method(self, e, f, cls, m, loc, args, fr):
        ty = e.get('ty')
        sl = loc + ('#size',)

        def size():
            return self.size_of(loc, 'R' + cls)
        if m in ('size', 'length'):
            return ('V', size())
        if m == 'empty':
            return ('V', cmp('==', size(), I(0)))
        if m in ('operator[]', 'at'):
            i = self.rv(args[0], fr)
            self.oblige('at' if m == 'at' else 'index', loc, i, e, 'R' + cls)
            return ('L', loc + (('e', i),))
        if m == 'data':
            return ('V', mk('ptr', loc + (('e', I(0)),)))
        if m in ('begin', 'cbegin'):
            return ('V', mk('iter', loc, I(0)))
        if m in ('end', 'cend'):
            return ('V', mk('iter', loc, size()))
        if m in ('rbegin', 'crbegin'):
            return ('V', mk('iter', loc + ('#rev',), I(0)))
        if m in ('rend', 'crend'):
            return ('V', mk('iter', loc + ('#rev',), size()))
        if m in ('front',):
            self.oblige('index', loc, I(0), e, 'R' + cls)
            return ('L', loc + (('e', I(0)),))
        if m in ('back', 'top'):
            i = arith('-', size(), I(1), 'u64')
            self.oblige('index', loc, i, e, 'R' + cls)
            return ('L', loc + (('e', i),))
        if m in ('reserve', 'shrink_to_fit'):
            if args:
                self.rv(args[0], fr)
            return ('V', VOID)
        if m == 'clear':
            self.put(loc, mk('zero'))
            self.put(sl, I(0))
            return ('V', VOID)
        if m == 'resize':
            n = self.rv(args[0], fr)
            for a in args[1:]:
                self.argval(a, fr)
            self.put(sl, n)
            return ('V', VOID)
        if m in ('push_back', 'emplace_back', 'push', 'emplace'):
            et = self.elemty('R' + cls)
            i = size()
            el = loc + (('e', i),)
            if m in ('push_back', 'push') or (len(args) == 1 and deref_ty(args[0].get('ty', '?')) == deref_ty(et or '!')):
                v = self.argval(args[0], fr)
                i = size()
                el = loc + (('e', i),)
                if et and tname(et) and fam(tname(et)) == 'opt' and fam(tname(args[0].get('ty', '?'))) != 'opt':
                    self.put(el, mk('zero'))
                    self.put(el + ('#has',), TRUE)
                    self.put(el + ('#val',), v)
                else:
                    self.put(el, v)
            elif not args:
                self.construct_default(el, et)
            else:
                self.emplace(el, et, args, fr)
            self.put(sl, arith('+', i, I(1), 'u64'))
            return ('L', el)
        if m in ('pop_back', 'pop'):
            self.oblige('pop', loc, size(), e)
            self.put(sl, arith('-', size(), I(1), 'u64'))
            return ('V', VOID)
        if m == 'operator=':
            return None
        if m == 'subspan' or m == 'first':
            return None
        if m == 'fill':
            v = self.argval(args[0], fr)
            self.put(loc, mk('zero') if v.op == 'i' and v.a[0] == 0 else mk('fill', v))
            return ('V', VOID)
        if m == 'assign' and len(args) == 2 and not width(args[0].get('ty')):
            vs = [self.rv(x, fr) for x in args]
            if self.from_range(e, loc, vs[0], vs[1], fr):
                return ('V', VOID)
        if m == 'insert' and len(args) == 3 and not width(args[1].get('ty')):
            vs = [self.rv(x, fr) for x in args]
            n = size()
            if vs[0].op == 'iter' and vs[0].a[0] == loc and vs[0].a[1] is n and self.from_range(e, loc, vs[1], vs[2], fr, n):
                return ('V', mk('iter', loc, n))
        if m == 'assign' and len(args) == 2 and width(args[0].get('ty')):
            n, v = self.rv(args[0], fr), self.argval(args[1], fr)
            self.put(loc, mk('zero') if v.op == 'i' and v.a[0] == 0 else mk('fill', v))
            self.put(sl, n)
            return ('V', VOID)
        if m == 'erase' and len(args) == 1:
            i = self.rv(args[0], fr)
            old, n = self.load(loc), size()
            self.put(loc, mk('mut:erase', old, i))
            self.put(sl, arith('-', n, I(1), 'u64'))
            return ('V', mk('iter', loc, i.a[1] if i.op == 'iter' else i))
        return None

    def construct_default(self, loc, ty):
        if ty is None:
            self.put(loc, mk('zero'))
            return
        t = deref_ty(ty)
        self.set_type(loc, t)
        if t[:1] == 'R' and fam(t[1:]) is None:
            self.default_ctor(loc, t[1:])
        else:
            self.default_init(loc, t, True)

    def default_ctor(self, loc, cls):
        """run the default constructor, if one is known, else default member initialisers"""
        self.types[loc] = cls
        for k in self.p.method_index.get((cls, cls.split('::')[-1]), []):
            f = self.p.funcs[k]
            if f.get('ctor') and len(f['ps']) == 0:
                if self.stack.count(k):
                    break
                nf = self.frame(f, loc)
                self.run_fn(f, nf)
                return
        self.default_record(loc, cls, True)

    def emplace(self, loc, et, args, fr):
        t = deref_ty(et) if et else '?'
        if t[:1] == 'R' and fam(t[1:]) is None:
            cls = t[1:]
            self.types[loc] = cls
            for k in self.p.method_index.get((cls, cls.split('::')[-1]), []):
                f = self.p.funcs[k]
                if f.get('ctor') and len(f['ps']) == len(args):
                    self.call_fn(f, loc, args, fr, None)
                    return
            r = self.p.records.get(cls)
            if r and len(r['fs']) >= len(args):
                self.aggregate(loc, cls, args, fr)
                return
        f = fam(t[1:]) if t[:1] == 'R' else None
        if f in ('vec', 'str') and args and all(isinstance(x, dict) for x in args) and deref_ty(args[0].get('ty', '?')) != t and (f == 'vec' or len(args) > 1):
            self.std_construct(loc, {'a': args, 'cls': t[1:], 'k': 'ctor', 'ty': t}, f, t[1:], fr)
            return
        if len(args) == 1:
            self.put(loc, self.argval(args[0], fr))
            return
        if f == 'pair' and len(args) == 2:
            self.put(loc, mk('zero'))
            for n, x in zip(('first', 'second'), args):
                self.put(loc + (n,), self.argval(x, fr))
            return
        self.put(loc, mk('emplace', *[self.argval(x, fr) for x in args]))

    def str_method(self, e, m, obj, L, V, args, fr):
        ty = e.get('ty')
        STR = 'Rstd::basic_string<char>'
        if m in ('size', 'length'):
            return ('V', self.strsize(V()))
        if m == 'empty':
            v = V()
            return ('V', cmp('==', v, S('')) if v.op != 's' else (TRUE if v.a[0] == '' else FALSE))
        if m in ('c_str', 'str') or m.startswith('operator basic_string_view') or m.startswith('operator std::basic_string_view'):
            return ('V', V())
        if m == 'data':
            if e.get('cm') or fam(e['cls']) == 'sv':
                return ('V', V())
            return ('V', mk('ptr', L() + (('e', I(0)),)))
        if m in ('operator[]', 'at'):
            i = self.rv(args[0], fr)
            v = V()
            self.oblige('at' if m == 'at' else 'index', L(), i, e, STR)
            return self.strat(e, L, V, i)
        if m in ('begin', 'cbegin'):
            self.strlocs.add(L())
            return ('V', mk('iter', L(), I(0)))
        if m in ('end', 'cend'):
            self.strlocs.add(L())
            return ('V', mk('iter', L(), self.strsize(V())))
        if m in ('rbegin', 'crbegin'):
            self.strlocs.add(L())
            return ('V', mk('iter', L() + ('#rev',), I(0)))
        if m in ('rend', 'crend'):
            self.strlocs.add(L())
            return ('V', mk('iter', L() + ('#rev',), self.strsize(V())))
        if m in ('back',):
            return self.strat(e, L, V, arith('-', self.strsize(V()), I(1), 'u64'))
        if m in ('front',):
            return self.strat(e, L, V, I(0))
        if m in ('push_back', 'append', 'operator+='):
            vs = [self.strval(self.argval(x, fr)) for x in args]
            v = V()
            if m == 'push_back' or (len(vs) == 1 and width(args[0].get('ty'))):
                vs = [mk('chr', vs[0], ty=STR) if vs[0].op != 'i' else S(chr(vs[0].a[0] & 255))]
            if len(vs) == 1:
                self.put(L(), self.concat(v, vs[0]))
            else:
                self.put(L(), mk('str.append', v, *vs, ty=STR))
            return ('L', L())
        if m == 'clear':
            self.put(L(), S(''))
            return ('V', VOID)
        if m == 'resize':
            n = self.rv(args[0], fr)
            fill = self.rv(args[1], fr) if len(args) > 1 else I(0)
            self.put(L(), mk('str.resize', V(), n, fill, ty=STR))
            return ('V', VOID)
        if m == 'reserve':
            return ('V', VOID)
        vs = []
        for x in args:
            vs.append(self.strval(self.argval(x, fr)))
        v = V()
        name = 'str.' + m
        NPOS = I((1 << 64) - 1)
        if m == 'remove_prefix':
            self.put(L(), self.substr(v, vs[0], NPOS))
            return ('V', VOID)
        if m == 'remove_suffix' or m == 'pop_back':
            n = vs[0] if vs else I(1)
            self.put(L(), self.substr(v, I(0), arith('-', self.strsize(v), n, 'u64')))
            return ('V', VOID)
        if m == 'erase' and args and width(args[0].get('ty')) and (len(vs) == 1 or vs[1].op == 'i' and vs[1].a[0] in (-1, NPOS.a[0])):
            self.put(L(), self.substr(v, I(0), vs[0]))
            return ('L', L())
        if m == 'substr':
            return ('V', self.substr(v, vs[0] if vs else I(0), vs[1] if len(vs) > 1 else NPOS))
        if e.get('cm'):
            if m == 'substr' and v.op == 's' and all(x.op == 'i' for x in vs):
                s = v.a[0]
                p = vs[0].a[0] if vs else 0
                n = vs[1].a[0] if len(vs) > 1 else len(s)
                if 0 <= p <= len(s):
                    return ('V', S(s[p:p + n] if n >= 0 else s[p:]))
            rt = ty if width(ty) else (STR if 'string' in (ty or '') else ty)
            return ('V', mk(name, v, *vs, ty=rt))
        self.put(L(), mk('mut:' + name, v, *vs, ty=STR))
        if ty and is_ref(ty):
            return ('L', L())
        return ('V', mk('r:' + name, v, *vs, ty=ty))

    def strat(self, e, L, V, i):
        v = V()
        if v.op == 's' and i.op == 'i' and 0 <= i.a[0] < len(v.a[0]):
            return ('V', I(ord(v.a[0][i.a[0]])))
        if (e.get('cm') or fam(e['cls']) == 'sv') and v.op != 'upd':
            return ('V', mk('str.at', v, i, ty='c8'))
        self.strlocs.add(L())
        return ('L', L() + (('e', i),))

    def substr(self, v, p, n):
        if n.op == 'i' and n.a[0] < 0:
            n = I(n.a[0] & (1 << 64) - 1)
        if v.op == 's' and p.op == 'i' and n.op == 'i' and 0 <= p.a[0] <= len(v.a[0]):
            return S(v.a[0][p.a[0]:p.a[0] + n.a[0]])
        if p is I(0) and n.op == 'i' and n.a[0] == (1 << 64) - 1:
            return v
        return mk('str.substr', v, p, n, ty='Rstd::basic_string<char>')

    def concat(self, a, b):
        if a.op == 's' and b.op == 's':
            return S(a.a[0] + b.a[0])
        if a.op == 's' and a.a[0] == '':
            return b
        if b.op == 's' and b.a[0] == '':
            return a
        return mk('concat', a, b, ty='Rstd::basic_string<char>')

    def map_method(self, e, cls, m, loc, args, fr):
        ty = e.get('ty')
        if m == 'size':
            return ('V', mk('map.size', self.load(loc), ty='u64'))
        if m == 'empty':
            return ('V', cmp('==', mk('map.size', self.load(loc), ty='u64'), I(0)))
        if m == 'clear':
            self.put(loc, mk('zero'))
            self.put(loc + ('#size',), I(0))
            return ('V', VOID)
        if m in ('find', 'count', 'contains', 'at', 'operator[]') and fam(cls) == 'map' and 'set<' not in cls.split('<')[0] + '<':
            k = self.strval(self.argval(args[0], fr))
            c = self.load(loc)
            if c.op == 'table':
                absent, val = TRUE, NULL
                for kk, vv in reversed(c.a[0]):
                    eq = cmp('==', k, kk)
                    absent = and_(not_(eq), absent)
                    val = phi(eq, vv, val)
                loc = self.temp()
                self.put(loc + (('e', k),), val)
            else:
                absent = mk('map.absent', c, k, ty='bool')
            if m == 'find':
                return ('V', mk('mapit', absent, loc, k))
            if m == 'contains':
                return ('V', not_(absent))
            if m == 'count':
                return ('V', phi(absent, I(0), I(1)))
            return ('L', loc + (('e', k),))
        if m in ('find', 'count', 'contains', 'lower_bound', 'upper_bound'):
            k = self.argval(args[0], fr)
            k = self.strval(k)
            r = mk('map.' + m, self.load(loc), k, ty=ty if width(ty) else None)
            return ('V', r)
        if m in ('end', 'cend'):
            return ('V', mk('map.end'))
        if m in ('begin', 'cbegin'):
            return ('V', mk('map.begin', self.load(loc), loc))
        if m in ('operator[]', 'at'):
            k = self.strval(self.argval(args[0], fr))
            return ('L', loc + (('e', k),))
        if m in ('insert_or_assign', 'emplace', 'try_emplace') and len(args) == 2:
            k = self.strval(self.argval(args[0], fr))
            v = self.argval(args[1], fr)
            l = loc + (('e', k),)
            if m != 'insert_or_assign':
                v = mk('ifabsent', self.load(loc), k, v)
            self.put(l, v)
            return ('V', mk('map.inserted', k))
        return None

    def std_free_op(self, e, op, a, fr):
        ty = e.get('ty')
        vs = [self.strval(self.argval(x, fr)) if op in ('==', '!=', '+', '<', '>') else self.argval(x, fr) for x in a]
        fa = fam(tname(a[0].get('ty', '?')))
        if op in ('==', '!='):
            x, y = vs
            for p, q in ((x, y), (y, x)):
                if q.op == 'map.end' and p.op == 'mapit':
                    return ('V', p.a[0] if op == '==' else not_(p.a[0]))
                if q.op == 'map.end' and p.op == 'iter':
                    r = cmp('==', p.a[1], self.load(p.a[0] + ('#size',), 'u64'))
                    return ('V', r if op == '==' else not_(r))
                if q.op == 'map.end':
                    r = mk('map.absent', p, ty='bool')
                    return ('V', r if op == '==' else not_(r))
                if q.op == 'new:std::nullopt_t' or 'nullopt' in str(a[1].get('ty')):
                    pass
            if x.op == 'iter' and y.op == 'iter' and x.a[0] == y.a[0]:
                return ('V', cmp(op, x.a[1], y.a[1]))
            if fa == 'opt':
                l = self.lv(a[0], fr)
                if 'nullopt' in (a[1].get('ty') or ''):
                    h = self.load(l + ('#has',), 'bool')
                    return ('V', not_(h) if op == '==' else h)
            return ('V', cmp(op, x, y))
        if op in ('<', '>', '<=', '>='):
            if vs[0].op == 'iter' and vs[1].op == 'iter':
                return ('V', cmp(op, vs[0].a[1], vs[1].a[1]))
            return ('V', cmp(op, vs[0], vs[1]))
        if op == '+' and len(vs) == 2 and 'string' in (ty or ''):
            out = []
            for v, x in zip(vs, a):
                if width(x.get('ty')):
                    v = S(chr(v.a[0] & 255)) if v.op == 'i' else mk('chr', v, ty='Rstd::basic_string<char>')
                out.append(v)
            return ('V', self.concat(*out))
        if op == '-' and vs[0].op == 'iter' and len(vs) == 2 and vs[1].op == 'iter':
            return ('V', arith('-', vs[0].a[1], vs[1].a[1], 'i64'))
        if fa is None and width(a[0].get('ty')) and len(vs) == 2 and op in ('&', '|', '^', '<<', '>>'):
            return ('V', arith(op, vs[0], vs[1], ty))
        if len(vs) == 1 and op == '~' and width(a[0].get('ty')):
            return ('V', mk('~', vs[0], ty=ty))
        # stream operators: left operand is mutated, right operand may be
        r = self.ev(a[0], fr)
        name = 'op' + op
        res = mk(name, *vs, ty=ty)
        pts = e.get('pt', [])
        for i, x in enumerate(a):
            pt = pts[i] if i < len(pts) else ''
            if is_ref(pt) and not is_const_ref(pt) and unq(pt)[:2] != '&&':
                l = self.lv(x, fr)
                self.put(l, mk('out:%s%d' % (name, i), *vs, ty=deref_ty(pt)))
                if i == 0 and ty and is_ref(ty):
                    ret = ('L', l)
        if ty and is_ref(ty) and r[0] == 'L':
            return r
        return ('V', res)

    def std_free(self, e, fn, a, fr):
        ty = e.get('ty')
        if fn in ('std::move', 'std::forward', 'std::as_const', 'std::cref', 'std::ref') and len(a) == 1:
            return self.ev(a[0], fr)
        if fn in ('std::make_shared', 'std::make_unique'):
            at = (e.get('ta') or ['?'])[0]
            if unq(at)[:1] == 'A' or unq(at)[:1] == '?' or (fn == 'std::make_unique' and len(a) == 1 and 'unique_ptr<' in ty and '[]' in ty):
                l = (('h', self.uid()),)
                n = self.rv(a[0], fr) if a else I(0)
                self.put(l, mk('zero'))
                self.put(l + ('#size',), n)
                return ('V', mk('ptr', l + (('e', I(0)),)))
            l = (('h', self.uid()),)
            t = deref_ty(at)
            if t[:1] == 'R' and fam(t[1:]) is None:
                if a:
                    if len(a) == 1 and deref_ty(a[0].get('ty', '?')) == t:
                        self.put(l, self.argval(a[0], fr))
                        self.types[l] = t[1:]
                    else:
                        self.emplace(l, t, a, fr)
                else:
                    self.default_ctor(l, t[1:])
                self.types[l] = t[1:]
            elif a:
                self.put(l, self.argval(a[0], fr))
            else:
                self.default_init(l, t, True)
            return ('V', mk('ptr', l))
        if fn in ('std::static_pointer_cast', 'std::const_pointer_cast', 'std::reinterpret_pointer_cast') and len(a) == 1:
            return ('V', self.rv(a[0], fr))
        if fn == 'std::dynamic_pointer_cast':
            return ('V', mk('dyncast', self.rv(a[0], fr), ty=(e.get('ta') or ['?'])[0]))
        if fn == 'std::holds_alternative':
            l = self.lv(a[0], fr)
            cls = tname(a[0].get('ty', '?'))
            i = self.alt_index(cls, e['ta'][0])
            return ('V', cmp('==', self.load(l + ('#alt',), 'u64'), I(i)))
        if fn in ('std::get', 'std::get_if'):
            if fn == 'std::get_if':
                l = self.deref(self.rv(a[0], fr))
            else:
                l = self.lv(a[0], fr)
            cls = tname(a[0].get('ty', '?'))
            if fn == 'std::get_if':
                cls = tname(unq(deref_ty(a[0].get('ty', '?')))[1:])
            f = fam(cls)
            if f == 'var':
                i = self.alt_index(cls, e['ta'][0])
                self.oblige('vget', l, I(i), e)
                if fn == 'std::get_if':
                    return ('V', phi(cmp('==', self.load(l + ('#alt',), 'u64'), I(i)), mk('ptr', l + (('alt', I(i)),)), NULL))
                return ('L', l + (('alt', I(i)),))
            if f in ('pair',):
                if l[-1] == '#pair' and isinstance(e['ta'][0], int):
                    return ('L', l[:-1]) if e['ta'][0] else ('V', l[-2][1])
                return ('L', l + (('first', 'second')[e['ta'][0]] if isinstance(e['ta'][0], int) else '?',))
            if f == 'arr':
                return ('L', l + (('e', I(e['ta'][0])),))
            return ('L', l + (('get', str(e['ta'][0])),))
        if fn in ('std::min', 'std::max') and len(a) == 2:
            x, y = self.argval(a[0], fr), self.argval(a[1], fr)
            if x.op == 'i' and y.op == 'i':
                return ('V', I((min if fn == 'std::min' else max)(x.a[0], y.a[0])))
            return ('V', phi(cmp('<', y, x), y, x) if fn == 'std::min' else phi(cmp('<', x, y), y, x))
        if fn == 'std::to_string' and len(a) == 1:
            v = self.argval(a[0], fr)
            if v.op == 'i':
                return ('V', S(str(v.a[0])))
            return ('V', mk('to_string', v, ty='Rstd::basic_string<char>'))
        if fn in ('std::tolower', 'tolower', 'toupper', 'isspace', 'isdigit', 'std::isspace'):
            return ('V', mk(fn.replace('std::', ''), self.rv(a[0], fr), ty='i32'))
        if fn in ('std::swap',):
            la, lb = self.lv(a[0], fr), self.lv(a[1], fr)
            va, vb = self.load(la), self.load(lb)
            self.put(la, vb)
            self.put(lb, va)
            return ('V', VOID)
        if fn in ('std::make_tuple', 'std::forward_as_tuple'):
            return ('V', mk('new:std::tuple', *[self.argval(x, fr) for x in a]))
        if fn == 'std::tuple_cat':
            ts = [self.argval(x, fr) for x in a]
            if all(t.op == 'new:std::tuple' for t in ts):
                return ('V', mk('new:std::tuple', *[y for t in ts for y in t.a]))
            return ('V', mk('call:std::tuple_cat', *ts))
        if fn == 'std::apply' and len(a) == 2:
            v = self.argval(a[0], fr)
            t = self.argval(a[1], fr)
            if t.op == 'new:std::tuple' and v.op in ('lam', 'fn', 'phi'):
                return self.invoke(v, list(t.a), fr, e)
            vals = [self.pointee(x) for x in t.a] if t.op == 'new:std::tuple' else [t]
            ef = self.effect('invoke', [v] + vals, ty)
            return ('V', self.res(ef) if ty != 'void' else VOID)
        if fn == 'std::invoke' and a and unq(deref_ty(a[0].get('ty') or ''))[:1] not in ('M',):
            return self.invoke(self.rv(a[0], fr), a[1:], fr, e)
        if fn in ('std::make_pair',):
            l = self.temp()
            self.put(l, mk('zero'))
            self.put(l + ('first',), self.argval(a[0], fr))
            self.put(l + ('second',), self.argval(a[1], fr))
            return ('L', l)
        if fn in ('std::next', 'std::prev') and a:
            v = self.rv(a[0], fr)
            d = self.rv(a[1], fr) if len(a) > 1 else I(1)
            if v.op == 'iter':
                return ('V', mk('iter', v.a[0], arith('+' if fn == 'std::next' else '-', v.a[1], d, 'u64')))
            return ('V', mk(fn[5:], v, d))
        if fn in ('std::size', 'std::ssize') and len(a) == 1:
            return ('V', self.size_of(self.lv(a[0], fr), a[0].get('ty')))
        if fn in ('memcpy', '__builtin_memcpy', 'std::memcpy', 'memmove', 'std::memmove') or (fn in ('std::copy_n', 'std::copy') and bytewise(a[0]) and bytewise(a[2] if fn == 'std::copy_n' else a[-1])):
            if fn == 'std::copy_n':
                s, n, d = (self.rv(x, fr) for x in a)
            elif fn == 'std::copy':
                s, z, d = (self.rv(x, fr) for x in a)
                n = self.binop('-', z, s, 'i64')
            else:
                d, s, n = (self.rv(x, fr) for x in a)
            n = cast(n, n.ty or 'u64', 'u64')
            self.oblige('memcpy', d, s, n, e)
            src = self.pointee(s)
            if s.op == 'ptr' and not (isinstance(s.a[0][-1], tuple) and s.a[0][-1][0] == 'e'):
                src = self.load(s.a[0])
            if d.op == 'ptr':
                dl = d.a[0]
                if isinstance(dl[-1], tuple) and dl[-1][0] == 'e':
                    self.put(dl[:-1] + ('#data',), mk('memcpy', self.load(dl[:-1] + ('#data',)), dl[-1][1], src, n))
                else:
                    self.put(dl, mk('bits', src, n, ty=None))
            else:
                self.effect('memcpy', (d, src, n))
            return ('V', d)
        if fn in ('memset', 'std::memset'):
            d, v, n = (self.rv(x, fr) for x in a)
            if d.op == 'ptr':
                dl = d.a[0]
                tgt = dl[:-1] if isinstance(dl[-1], tuple) and dl[-1][0] == 'e' else dl
                self.put(tgt, mk('memset', v, n))
            return ('V', d)
        if fn in ALGO:
            r = self.algo(e, fn[5:], a, fr)
            if r is not None:
                return r
        if fn == 'std::back_inserter':
            return ('V', mk('binsert', self.lv(a[0], fr)))
        outs, vals = self.gen_args(e, a, fr)
        name = fn
        if fn.replace('std::', '') in SYSTEM:
            # calls whose number and order the system sees
            for i, l, t in outs:
                if isinstance(l[0], tuple) and l[0][0] in ('v', 't'):
                    vals[i] = S('local')
            ef = self.effect(fn.replace('std::', ''), vals, ty if ty and ty != 'void' else 'i32')
            r = self.res(ef)
            vals = [r]
        else:
            r = mk('call:' + name, *vals, ty=ty)
        for i, l, t in outs:
            if isinstance(l[-1], tuple) and l[-1][0] == 'e':
                self.put(l[:-1] + ('#data',), mk('out:%s%d' % (name, i), *vals))
            else:
                self.put(l, mk('out:%s%d' % (name, i), *vals, ty=t))
        if e.get('nr'):
            self.effect('noreturn', (S(fn),))
            self.st = State({}, FALSE)
        if ty and is_ref(ty):
            if a and deref_ty(ty) == deref_ty(a[0].get('ty', '?')):
                return ('L', self.lv(a[0], fr))
            return ('L', (('d', r),))
        return ('V', r)

    def from_range(self, e, loc, b, z, fr, start=None):
        """container filled from (or, with start, extended by) the elements of a range, as the loop it stands for"""
        if b.op not in ('iter', 'ptr') or pidx(z, b)[0] is None or pbase(b)[0][-1:] == ('#rev',):
            return False
        if pbase(b)[0][-len(loc):] == loc:
            return False
        cnt = arith('-', *pidx(z, b), 'u64')
        cnt = cast(cnt, cnt.ty or 'u64', 'u64')
        if start is None:
            self.put(loc, mk('zero'))
            start = I(0)
        self.put(loc + ('#size',), arith('+', start, cnt, 'u64'))
        et = self.elemty('R' + e.get('cls', ''))
        kv = (('v', fr.no, 'rng%d' % self.uid()),)
        self.put(kv, I(0))

        def cond():
            return cmp('<', self.load(kv, 'u64'), cnt)

        def body():
            j = self.load(kv, 'u64')
            self.put(loc + (('e', arith('+', start, j, 'u64')),), self.load(self.deref(padd(b, j)), et))

        def inc():
            self.put(kv, arith('+', self.load(kv, 'u64'), I(1), 'u64'))
        self.run_loop(e.setdefault('_alg', {'k': 'rfor', 'l': e.get('l', '?')}), fr, cond, body, inc, False)
        return True

    def itemty(self, t):
        """what an iterator or pointer of the type points to"""
        t = unq(deref_ty(t or ''))
        if t[:1] == 'R':
            r = self.p.records.get(t[1:])
            t = unq(r['targs'][0]) if r and r.get('targs') and isinstance(r['targs'][0], str) else ''
            if t[:1] == 'R':
                return self.itemty(t)
        return unq(t[1:]) if t[:1] == 'P' else None

    def callee(self, v):
        """function a callable stands for: (function, parent frame, captures), or the name of a C function"""
        if v.op == 'lam':
            node, pf, cap = self.lams[v.a[0]]
            f = self.p.funcs.get(node.get('f'))
            if f is None or f.get('b') is None:
                for k in node.get('fs', []):
                    f = self.p.funcs.get(k) or f
            return (f, pf, cap) if f is not None and f.get('b') is not None else None
        if v.op == 'fn':
            f = self.p.funcs.get(v.a[0])
            if f is not None and f.get('b') is not None:
                return f, None, None
            n = str(v.a[0]).split('|')[0].split('(')[0].replace('std::', '')
            if n in ('tolower', 'toupper', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'ispunct', 'isprint', 'isxdigit'):
                return n
        return None

    def algo(self, e, m, a, fr):
        """a library algorithm over a range, as the loop it stands for"""
        vs = []
        for i, x in enumerate(a):
            r = self.ev(x, fr)
            vs.append(self.val(r, x.get('ty')) if i else self.val(r, x.get('ty')))
        nform = m.endswith('_n')
        if vs[0].op == 'map.begin' and not nform and vs[1].op == 'map.end':
            l = vs[0].a[1]
            vs[:2] = mk('iter', l, I(0)), mk('iter', l, self.load(l + ('#size',), 'u64'))
        raw = set()
        for i, v in enumerate(vs):
            if v.op == 'ptr' and len(v.a[0]) == 1 and v.a[0][0][0] == 'd':
                v = vs[i] = v.a[0][0][1]
            if v.op not in ('iter', 'ptr', 'lam', 'fn') and unq(deref_ty(a[i].get('ty') or ''))[:1] == 'P':
                raw.add(i)
        b = vs[0]
        if m == 'copy_n' and 0 in raw and (2 in raw or vs[2].op in ('iter', 'ptr', 'binsert')):
            pass
        elif b.op not in ('iter', 'ptr') or (not nform and (vs[1].op not in ('iter', 'ptr') or pidx(vs[1], b)[0] is None)):
            return None
        if b.op == 'ptr' and not (isinstance(b.a[0][-1], tuple) and b.a[0][-1][0] == 'e'):
            return None
        f = None
        if m in ('equal', 'lexicographical_compare'):
            return self.algo2(e, m, vs, fr)
        if m in ('for_each', 'for_each_n', 'generate', 'generate_n', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if',
                 'copy_if') or m == 'accumulate' and len(a) == 4:
            f = self.callee(vs[-1])
            if f is None or not isinstance(f, str) and self.stack.count(f[0]['key']):
                return None
        if m == 'transform' and len(a) != 4:
            return None
        out = {'transform': 2, 'copy': 2, 'copy_n': 2, 'copy_if': 2}.get(m)
        if out is not None and out not in raw and vs[out].op not in ('iter', 'ptr', 'binsert'):
            return None
        cnt = vs[1] if nform else arith('-', *pidx(vs[1], b), 'u64')
        cnt = cast(cnt, cnt.ty or 'u64', 'u64')
        u = self.uid()
        kv = (('v', fr.no, 'alg%d' % u),)
        kr = (('v', fr.no, 'alr%d' % u),)
        self.put(kv, I(0))
        if m in ('any_of', 'count_if', 'count'):
            self.put(kr, I(0))
        elif m in ('all_of', 'none_of'):
            self.put(kr, I(1))
        elif m == 'accumulate':
            self.put(kr, vs[2])
        elif m == 'copy_if':
            self.put(kr, I(0))

        et = self.itemty(a[0].get('ty'))

        def call(*ls):
            if isinstance(f, str):
                return mk(f, cast(self.load(ls[0], 'c8'), 'c8', 'i32'), ty='i32')
            fn, pf, cap = f
            xs = []
            for p, l in zip(fn['ps'], ls):
                xs.append(l if is_ref(p['ty']) else self.load(l, deref_ty(p['ty'])))
            return self.val(self.call_fn(fn, None, xs, pf, None, parent=pf, extra=cap))

        def emit(j, v):
            o = vs[out]
            if o.op == 'binsert':
                l = o.a[0]
                if l in self.strlocs or fam(self.types.get(l, '')) == 'str':
                    self.put(l, self.concat(self.load(l, STRT), mk('chr', v, ty=STRT)))
                else:
                    n = self.load(l + ('#size',), 'u64')
                    self.put(l + (('e', n),), v)
                    self.put(l + ('#size',), arith('+', n, I(1), 'u64'))
            else:
                d = self.deref(padd(o, j))
                t = 'c8' if d[:-1] in self.strlocs else None
                self.put(d, cast(v, v.ty, t) if t and v.ty else v)

        def cond():
            return cmp('<', self.load(kv, 'u64'), cnt)

        def leave():
            self.stmt({'k': 'break'}, fr)

        def body():
            j = self.load(kv, 'u64')
            el = self.deref(padd(b, j))
            if m in ('for_each', 'for_each_n'):
                call(el)
            elif m in ('generate', 'generate_n'):
                v = call()
                self.put(self.deref(padd(b, j)), v)
            elif m == 'transform':
                emit(j, call(el))
            elif m in ('copy', 'copy_n'):
                emit(j, self.load(el, et))
            elif m in ('fill', 'fill_n'):
                self.put(el, vs[2])
            elif m in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'find', 'count_if', 'count', 'copy_if'):
                if m in ('find', 'count'):
                    c = cmp('==', self.load(el, et or a[2].get('ty')), vs[2])
                else:
                    c = call(el)
                    c = cast(c, c.ty or 'bool', 'bool')
                if m in ('all_of', 'find_if_not'):
                    c = not_(c)

                def hit():
                    if m in ('count_if', 'count'):
                        self.put(kr, arith('+', self.load(kr, 'i64'), I(1), 'i64'))
                    elif m == 'copy_if':
                        emit(self.load(kr, 'u64'), self.load(el, et))
                        self.put(kr, arith('+', self.load(kr, 'u64'), I(1), 'u64'))
                    else:
                        if m in ('any_of', 'all_of', 'none_of'):
                            self.put(kr, I(1 if m == 'any_of' else 0))
                        leave()
                self.branch(c, hit)
            elif m == 'accumulate':
                if f is not None:
                    v = call(kr, el)
                else:
                    x, y = self.load(kr, a[2].get('ty')), self.load(el, et)
                    v = self.concat(x, self.strval(y)) if 'basic_string' in a[2].get('ty', '') else arith('+', x, y, deref_ty(a[2].get('ty', 'i64')))
                self.put(kr, v)

        def inc():
            self.put(kv, arith('+', self.load(kv, 'u64'), I(1), 'u64'))
        self.run_loop(e.setdefault('_alg', {'k': 'rfor', 'l': e.get('l', '?')}), fr, cond, body, inc, False)
        if m in ('find_if', 'find_if_not', 'find'):
            return ('V', padd(b, self.load(kv, 'u64')))
        if m in ('any_of', 'all_of', 'none_of'):
            return ('V', cast(self.load(kr, 'i32'), 'i32', 'bool'))
        if m in ('count_if', 'count', 'accumulate'):
            return ('V', self.load(kr))
        if out is not None:
            o = vs[out]
            return ('V', o if o.op == 'binsert' else padd(o, self.load(kr if m == 'copy_if' else kv, 'u64')))
        return ('V', VOID if m == 'generate' or m == 'fill' else vs[-1] if m.startswith('for_each') else padd(b, cnt))

    def algo2(self, e, m, vs, fr):
        """comparison of two ranges of characters"""
        if len(vs) not in (4, 5) or any(v.op not in ('iter', 'ptr') for v in vs[:4]) or pidx(vs[3], vs[2])[0] is None:
            return None
        f = self.callee(vs[4]) if len(vs) == 5 else None
        if len(vs) == 5 and (f is None or isinstance(f, str) or self.stack.count(f[0]['key'])):
            return None
        n1 = cast(arith('-', *pidx(vs[1], vs[0]), 'u64'), 'u64', 'u64')
        n2 = cast(arith('-', *pidx(vs[3], vs[2]), 'u64'), 'u64', 'u64')

        def call(x, y):
            if f is None:
                return cmp('==' if m == 'equal' else '<', self.load(x), self.load(y))
            fn, pf, cap = f
            xs = [l if is_ref(p['ty']) else self.load(l, deref_ty(p['ty'])) for p, l in zip(fn['ps'], (x, y))]
            c = self.val(self.call_fn(fn, None, xs, pf, None, parent=pf, extra=cap))
            return cast(c, c.ty or 'bool', 'bool')
        u = self.uid()
        kv = (('v', fr.no, 'alg%d' % u),)
        kr = (('v', fr.no, 'alr%d' % u),)
        self.put(kv, I(0))
        if m == 'equal':
            self.put(kr, phi(cmp('==', n1, n2), I(1), I(0)))
            cnt = phi(cmp('==', n1, n2), n1, I(0))
        else:
            self.put(kr, phi(cmp('<', n1, n2), I(1), I(0)))
            cnt = phi(cmp('<', n1, n2), n1, n2)

        def leave(v):
            def g():
                self.put(kr, I(v))
                self.stmt({'k': 'break'}, fr)
            return g

        def body():
            j = self.load(kv, 'u64')
            x, y = self.deref(padd(vs[0], j)), self.deref(padd(vs[2], j))
            if m == 'equal':
                self.branch(not_(call(x, y)), leave(0))
            else:
                self.branch(call(x, y), leave(1))
                self.branch(call(y, x), leave(0))

        def inc():
            self.put(kv, arith('+', self.load(kv, 'u64'), I(1), 'u64'))
        self.run_loop(e.setdefault('_alg', {'k': 'rfor', 'l': e.get('l', '?')}), fr, lambda: cmp('<', self.load(kv, 'u64'), cnt), body, inc, False)
        return ('V', cast(self.load(kr, 'i32'), 'i32', 'bool'))

    # ------------------------------------------------------------------ entry
    def run(self, key, this=None, this_cls=None, args=()):
        f = self.p.funcs[key]
        nf = self.frame(f, this)
        if this is not None and this_cls:
            self.types[this] = this_cls
        self.inlined.add(key)
        for p, a in zip(f['ps'], args):
            if isinstance(a, T):
                loc = (('v', nf.no, p['id']),)
                self.put(loc, a)
                nf.vars[p['id']] = loc
            else:
                nf.vars[p['id']] = a
        r = self.run_fn(f, nf)
        self.ret = r
        self.probe(nf)
        return r

    def probe(self, nf):
        """callables left in memory the caller can see are called once, afterwards: what they do is part of the behaviour"""
        self.probes = {}
        cells = [(l, v) for l, v in self.st.store.items() if isinstance(l[0], tuple) and l[0][0] in ('p', 'd', 'g', 's', 'h', 'x')]
        for l, v in cells:
            self.probe_cell(l, v, nf)

    def probe_cell(self, l, v, nf):
        def has(x):
            return x.op in ('lam', 'fn') or x.op == 'phi' and (has(x.a[1]) or has(x.a[2]))

        def call(x):
            if x.op == 'phi':
                if has(x):
                    self.branch(x.a[0], lambda: call(x.a[1]), lambda: call(x.a[2]))
                return
            if not has(x):
                return
            if x.op == 'lam':
                f = self.p.funcs.get(self.lams[x.a[0]][0].get('f'))
            else:
                f = self.p.funcs.get(x.a[0])
            if f is None or f.get('b') is None or self.stack.count(f['key']) or len(self.probes) > 12:
                return
            self.effect('stored callback', [mk('ptr', l)], 'void')
            args = []
            for i, q in enumerate(f['ps']):
                t = deref_ty(q['ty'])
                root = ('p', 'cb%d' % len(self.probes))
                self.probes[root] = unq(t[1:]) if t[:1] == 'P' else t
                if is_ref(q['ty']):
                    args.append((root,))
                elif t[:1] == 'P':
                    args.append(mk('ptr', (root,)) if t[1:2] != 'F' else mk('sym', root[1], ty=t))
                else:
                    args.append(mk('sym', root[1], ty=t))
            r = self.invoke(x, args, nf, {'k': 'call', 'l': f['loc'], 'ty': f.get('ret', 'void')})
            if f.get('ret', 'void') != 'void':
                self.effect('callback result', [self.val(r)], 'void')
        if has(v):
            call(v)


# case-insensitive comparisons, by contract; the functions themselves are checked against it as units of their own
SYSTEM = {'open', 'close', 'mmap', 'munmap', 'fstat', 'fopen', 'fclose', 'fread', 'fwrite', 'fseek', 'ftell', 'fputs', 'fputc', 'fgetc', 'fflush', 'fprintf', 'printf',
          'read', 'write', 'lseek', 'remove', 'rename', 'filesystem::create_directories', 'filesystem::create_directory', 'filesystem::remove',
          'filesystem::remove_all', 'filesystem::rename', 'filesystem::copy'}
FOLDED = {'zenkit::iequals': 'ieq', 'zenkit::icompare': 'ilt'}


def locorder(l):
    return tuple(str(x) if not isinstance(x, tuple) else ':'.join(str(y.uid) if isinstance(y, T) else str(y) for y in x) for x in l)


def repr_path(p):
    out = []
    for s in p:
        if isinstance(s, tuple):
            out.append((1, s[0], s[1].uid if isinstance(s[1], T) else str(s[1])))
        else:
            out.append((0, str(s), 0))
    return tuple((a, b, str(c)) for a, b, c in out)


def bytewise(x):
    t = unq(deref_ty(x.get('ty') or ''))
    if t[:1] != 'P':
        return False
    t = unq(t[1:])
    t = t[1:] if t[:1] == 'K' else t
    return t in ('u8', 'i8', 'c8', 'Estd::byte')


ALGO = {'std::' + x for x in ('for_each', 'for_each_n', 'generate', 'generate_n', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'find',
                              'count_if', 'count', 'copy_if', 'accumulate', 'fill', 'fill_n', 'copy', 'copy_n', 'equal', 'lexicographical_compare')}


def plike(ini, h, l, nopl):
    """is a carried value an address or iterator that moves along one object?"""
    if h[0] not in ('mu', 'ind') or l in nopl:
        return False
    return ini.op in ('iter', 'ptr') or bool(ini.ty) and isinstance(ini.ty, str) and ini.ty[:1] == 'P' and ini.ty[1:2] != 'F' and ini.op not in ('null', 'phi')


def pwrap(base, i):
    if base and base[0] == 'iter':
        return mk('iter', base[1:], i)
    return pat(base, i)


FUNCTORS = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/', 'std::modulus': '%', 'std::bit_and': '&',
            'std::bit_or': '|', 'std::bit_xor': '^', 'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>=',
            'std::equal_to': '==', 'std::not_equal_to': '!='}


def padd(a, i):
    """address i elements behind a"""
    if i is I(0):
        return a
    if a.op == 'ptr':
        loc = a.a[0]
        if isinstance(loc[-1], tuple) and loc[-1][0] == 'e':
            i = arith('+', loc[-1][1], i, 'u64')
            return pat(loc[:-1], i)
    if a.op == 'iter':
        return mk('iter', a.a[0], arith('+', a.a[1], i, 'u64'))
    if a.op == 'phi' and i.op == 'i':
        return phi(a.a[0], padd(a.a[1], i), padd(a.a[2], i))
    return mk('ptr', (('d', a), ('e', i)), ty=a.ty)


def pat(base, i):
    if i is I(0) and len(base) == 1 and base[0][0] == 'd':
        return base[0][1]
    return mk('ptr', base + (('e', i),))


def pbase(v):
    """(object pointed into, index) of an address"""
    if v.op == 'ptr' and isinstance(v.a[0][-1], tuple) and v.a[0][-1][0] == 'e':
        return v.a[0][:-1], v.a[0][-1][1]
    if v.op == 'iter':
        return ('iter',) + v.a[0], v.a[1]
    return (('d', v),), I(0)


def pidx(a, b):
    (x, i), (y, j) = pbase(a), pbase(b)
    return (i, j) if x == y else (None, None)


_dep = {}


def depends(t, uid):
    """does the term mention the loop uid (its iteration number, carried values or results)?"""
    s = loops_in(t)
    return uid in s


def loops_in(t):
    r = _dep.get(t)
    if r is not None:
        return r
    s = set()
    if t.op in ('k', 'mu', 'post', 'lret'):
        s.add(t.a[0])
    for a in t.a:
        s |= _li(a)
    _dep[t] = frozenset(s)
    return _dep[t]


_mr = {}


def maxres(t):
    r = _mr.get(t)
    if r is None:
        r = t.a[0] if t.op in ('res', 'lam', 'k', 'mu', 'post', 'lret') else 0
        for a in t.a:
            r = max(r, _mra(a))
        _mr[t] = r
    return r


def _mra(a):
    if isinstance(a, T):
        return maxres(a)
    if isinstance(a, tuple):
        return max([_mra(x) for x in a] or [0])
    return 0


def _li(a):
    if isinstance(a, T):
        return loops_in(a)
    if isinstance(a, tuple):
        s = set()
        for x in a:
            s |= _li(x)
        return s
    return set()


def linear(t, k):
    """t = s*k + rest -> (s, rest)"""
    if t is k:
        return (1, I(0))
    if k.a[0] not in loops_in(t):
        return (0, t)
    if t.op == '+':
        a, b = linear(t.a[0], k), linear(t.a[1], k)
        if a and b:
            return (a[0] + b[0], arith('+', a[1], b[1], t.ty))
    if t.op == '-':
        a, b = linear(t.a[0], k), linear(t.a[1], k)
        if a and b:
            return (a[0] - b[0], arith('-', a[1], b[1], t.ty))
    if t.op == '*' and t.a[1].op == 'i':
        a = linear(t.a[0], k)
        if a:
            return (a[0] * t.a[1].a[0], arith('*', a[1], t.a[1], t.ty))
    if t.op == 'cast':
        return linear(t.a[0], k)
    return None
