"""The type-checked program, as dumped by tool/extract.cc."""
import json, os, re


class Program:
    def __init__(self):
        self.funcs = {}      # key -> function
        self.records = {}    # name -> record
        self.enums = {}      # name -> {const: value}
        self.enum_under = {}
        self.enum_loc = {}
        self.globals = {}    # key -> var
        self.by_name = {}    # qualified name -> [key]
        self.units = []

    def load(self, path):
        self.units.append(path)
        for line in open(path, encoding='utf-8'):
            o = json.loads(line)
            t = o['t']
            if t == 'F':
                if o['key'] not in self.funcs:
                    self.funcs[o['key']] = o
                    self.by_name.setdefault(o['name'], []).append(o['key'])
            elif t == 'R':
                cur = self.records.get(o['name'])
                if cur is None or (not cur['fs'] and o['fs']):
                    self.records[o['name']] = o
            elif t == 'E':
                if o['name'] not in self.enums:
                    self.enums[o['name']] = {c: num(v) for c, v in o['cs']}
                    self.enum_under[o['name']] = o['under']
                    self.enum_loc[o['name']] = o['loc']
            elif t == 'G':
                cur = self.globals.get(o['key'])
                if cur is None or ('init' not in cur and 'init' in o):
                    self.globals[o['key']] = o

    def finish(self):
        self.derived = {}
        for r in self.records.values():
            for b in r['bases']:
                self.derived.setdefault(tname(b), []).append(r['name'])
        self.method_index = {}
        for k, f in self.funcs.items():
            if 'cls' in f:
                self.method_index.setdefault((f['cls'], f['m']), []).append(k)
        return self

    def bases(self, cls):
        """cls and all its base classes, most derived first."""
        out = []
        work = [cls]
        while work:
            c = work.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                work += [tname(b) for b in r['bases']]
        return out

    def is_a(self, cls, base):
        return base in self.bases(cls)

    def subclasses(self, cls):
        out = []
        work = [cls]
        while work:
            c = work.pop()
            for d in self.derived.get(c, []):
                if d not in out:
                    out.append(d)
                    work.append(d)
        return sorted(out)

    def method(self, cls, name, nparams=None, own=False):
        """definitions of a method, looked up through the bases"""
        for c in ([cls] if own else self.bases(cls)):
            ks = [k for k in self.method_index.get((c, name), [])
                  if nparams is None or len(self.funcs[k]['ps']) == nparams]
            if ks:
                return ks
        return []

    def overrides(self, key):
        """transitively, the functions overriding the method `key`"""
        if not hasattr(self, '_over'):
            self._over = {}
            for r in self.records.values():
                for m in r['ms']:
                    for o in m.get('over', []):
                        self._over.setdefault(o, []).append((r['name'], m['key']))
        out, work = [], [key]
        while work:
            k = work.pop()
            for cn, mk in self._over.get(k, []):
                if (cn, mk) not in out:
                    out.append((cn, mk))
                    work.append(mk)
        return out

    def find_override(self, cls, key):
        """the final overrider of virtual method `key` for dynamic type cls"""
        ok = {key} | {k for _, k in self.overrides(key)}
        for c in self.bases(cls):
            r = self.records.get(c)
            if not r:
                continue
            for m in r['ms']:
                if m['key'] in ok:
                    return m['key']
        return key

    def fields(self, cls):
        r = self.records.get(cls)
        if not r:
            return []
        out = []
        for b in r['bases']:
            out += self.fields(tname(b))
        return out + r['fs']


def num(v):
    if isinstance(v, str):
        return int(v[2:])
    return v


def unq(t):
    return t[1:] if t[:1] == 'K' else t


def deref_ty(t):
    """strip references"""
    t = unq(t)
    while t[:1] == '&':
        t = unq(t.lstrip('&'))
    return t


def tname(t):
    t = deref_ty(t)
    return t[1:] if t[:1] in 'RE' else t


_INT = re.compile(r'^([iu])(\d+)$')


def is_ref(t):
    return unq(t)[:1] == '&'


def is_const_ref(t):
    t = unq(t)
    return t[:1] == '&' and t[:2] != '&&' and t[1:2] == 'K'


def is_ptr(t):
    return deref_ty(t)[:1] == 'P'
