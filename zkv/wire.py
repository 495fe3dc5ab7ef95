"""Effect model of the library's streams and archives (which calls are observable I/O)."""
from .ir import *
from .terms import *
from .engine import Interp, fam, State

PRIM = {  # Read/Write primitive -> value type
    'char': 'c8', 'byte': 'i8', 'ubyte': 'u8', 'short': 'i16', 'ushort': 'u16', 'int': 'i32', 'uint': 'u32', 'float': 'f32',
}
VEC = {'vec2': ('x', 'y'), 'vec3': ('x', 'y', 'z')}
LOGGING = ('zenkit::Logger::log',)


class WireInterp(Interp):
    """observable effects: operations on zenkit::Read, Write, ReadArchive and WriteArchive"""

    def __init__(self, prog, save_game=None, prim=True, opaque_fns=(), keep_virtual=(), **kw):
        super().__init__(prog, opaque=self._opaque, hook=self._hook, **kw)
        self.save_game = save_game
        self.prim = prim
        self.opaque_fns = set(opaque_fns)

    def objkey(self, loc):
        b = loc[0]
        if isinstance(b, tuple) and b[0] == 'd':
            t = b[1]
            return t if len(loc) == 1 else mk('sub', t, loc[1:])
        if isinstance(b, tuple) and b[0] == 'p':
            return mk('sym', b[1]) if len(loc) == 1 else mk('sub', mk('sym', b[1]), loc[1:])
        return None

    def _opaque(self, n, fn, cls, m):
        if fn in self.opaque_fns:
            return fn
        return None

    def out_result(self, e, label, args, outty):
        ef = self.effect(label, args, outty)
        return mk('res', ef.uid, ty=outty)

    def _hook(self, ip, n, fn, cls, m, obj, args, fr):
        if fn in LOGGING:
            return ('V', VOID)
        if fn == 'zenkit::ReadArchive::is_save_game' or fn == 'zenkit::WriteArchive::is_save_game':
            if self.save_game is not None:
                return ('V', I(1 if self.save_game else 0))
            return ('V', mk('sym', 'is_save_game', ty='bool'))
        if cls == 'zenkit::Read' or (cls in ('zenkit::ReadArchive', 'zenkit::WriteArchive', 'zenkit::Write')):
            loc = obj[1] if obj is not None and obj[0] == 'L' else None
            if loc is None:
                return None
            if isinstance(loc[0], tuple) and loc[0][0] in ('h', 'v', 't') and len(loc) == 1 and self.types.get(loc) not in (None, 'zenkit::Read', 'zenkit::Write', 'zenkit::ReadArchive', 'zenkit::WriteArchive'):
                return None
            s = self.objkey(loc) or mk('sym', 'stream')
            if cls == 'zenkit::Read':
                return self.h_read(n, m, s, args, fr)
            if cls == 'zenkit::Write':
                return self.h_write(n, m, s, args, fr)
            if cls == 'zenkit::ReadArchive':
                return self.h_rarch(n, m, s, args, fr)
            return self.h_warch(n, m, s, args, fr)
        if fn in ('zenkit::Read::from', 'zenkit::Write::to'):
            vs = []
            for a in args:
                v = self.rv(a, fr)
                vs.append(v)
            l = None
            if fn == 'zenkit::Write::to' and vs and vs[0].op == 'ptr':
                l = vs[0].a[0]
                ef = self.effect('Write.to', (mk('mem'),), n.get('ty'))
                r = mk('res', ef.uid, ty=None)
                self.put(l, mk('written', r))
                self.put(l + ('#size',), mk('written.size', r, ty='u64'))
                return ('V', r)
            ef = self.effect(fn.split('::')[-2] + '.' + fn.split('::')[-1], [self.pointee(v) for v in vs], n.get('ty'))
            return ('V', mk('res', ef.uid, ty=None))
        return None

    # ---- binary streams
    def h_read(self, n, m, s, args, fr):
        if m == 'read' and len(args) == 2:
            d = self.rv(args[0], fr)
            cnt = self.rv(args[1], fr)
            ty = None
            if d.op == 'ptr':
                l = d.a[0]
                last = l[-1]
                if isinstance(last, tuple) and last[0] == 'e':
                    r = self.out_result(n, 'Read.bytes', (s, cnt), 'bytes')
                    base = l[:-1]
                    cur = self.st.store.get(base)
                    if last[1] is I(0):
                        if cur is not None and (cur.op == 's' or cur.op.startswith('str.')):
                            self.put(base, mk('str.bytes', r, ty='Rstd::basic_string<char>'))
                        else:
                            self.put(base + ('#data',), r)
                    else:
                        self.put(base + ('#data',), mk('splice', self.load(base + ('#data',)), last[1], r, cnt))
                else:
                    ty = self.types.get(l)
                    cur = self.st.store.get(l)
                    sty = self.ptr_type(args[0])
                    r = self.out_result(n, 'Read.bytes', (s, cnt), sty)
                    self.put(l, r)
            else:
                r = self.out_result(n, 'Read.bytes', (s, cnt), 'bytes')
                self.effect('deref-store', (d, r))
            return ('V', cnt if self.__dict__.get('assume_full', True) else mk('got', r, ty='u64'))
        if m.startswith('read_'):
            k = m[5:]
            if k in PRIM:
                return ('V', self.out_result(n, 'Read.' + k, (s,), PRIM[k]))
            if k in VEC:
                t = self.temp()
                self.put(t, mk('zero'))
                for f in VEC[k]:
                    self.put(t + (f,), self.out_result(n, 'Read.float', (s,), 'f32'))
                self.set_type(t, n['ty'])
                return ('L', t)
            if k in ('mat3', 'mat4'):
                return ('V', self.out_result(n, 'Read.' + k, (s,), deref_ty(n['ty'])))
            if k == 'string':
                return ('V', self.out_result(n, 'Read.string', (s, self.rv(args[0], fr)), 'Rstd::basic_string<char>'))
            if k in ('line', 'line_then_ignore'):
                return ('V', self.out_result(n, 'Read.' + k, (s, self.strval(self.rv(args[0], fr))), 'Rstd::basic_string<char>'))
        if m in ('tell', 'eof', 'seek'):
            vs = [self.rv(a, fr) for a in args]
            ef = self.effect('Read.' + m, [s] + vs, n.get('ty'))
            return ('V', self.res(ef) if m != 'seek' else VOID)
        return None

    def ptr_type(self, e):
        """pointee type of the argument, looking through the conversion to void*"""
        while e['k'] == 'cast':
            e = e['e']
        t = e.get('ty', '')
        t = unq(t)
        if t[:1] == 'P':
            return unq(t[1:])
        return None

    def h_write(self, n, m, s, args, fr):
        if m == 'write' and len(args) == 2:
            p = self.rv(args[0], fr)
            cnt = self.rv(args[1], fr)
            v = p
            if p.op == 'ptr':
                l = p.a[0]
                if isinstance(l[-1], tuple) and l[-1][0] == 'e':
                    d = self.st.store.get(l[:-1] + ('#data',))
                    v = mk('contents', self.load(l[:-1]) if d is None else d, l[-1][1])
                else:
                    v = self.load(l, self.ptr_type(args[0]))
            self.effect('Write.bytes', (s, cnt, v))
            return ('V', cnt)
        if m.startswith('write_'):
            k = m[6:]
            if k in PRIM:
                self.effect('Write.' + k, (s, self.rv(args[0], fr)))
                return ('V', VOID)
            if k in VEC:
                l = self.lv(args[0], fr)
                for f in VEC[k]:
                    self.effect('Write.float', (s, self.load(l + (f,), 'f32')))
                return ('V', VOID)
            if k in ('mat3', 'mat4', 'string', 'string0', 'line'):
                self.effect('Write.' + k, (s, self.strval(self.argval(args[0], fr))))
                return ('V', VOID)
        if m in ('tell', 'seek'):
            vs = [self.rv(a, fr) for a in args]
            ef = self.effect('Write.' + m, [s] + vs, n.get('ty'))
            return ('V', self.res(ef) if m != 'seek' else VOID)
        return None

    # ---- archives
    def h_rarch(self, n, m, s, args, fr):
        if m == 'read_object_begin':
            l = self.lv(args[0], fr)
            ef = self.effect('R.object_begin', (s,), 'bool')
            for f, t in (('object_name', 'Rstd::basic_string<char>'), ('class_name', 'Rstd::basic_string<char>'), ('version', 'u16'), ('index', 'u32')):
                self.put(l + (f,), mk('res', ef.uid, f, ty=t))
            return ('V', mk('res', ef.uid, ty='bool'))
        if m == 'read_object':
            ta = n.get('ta')
            t = tname(ta[0]) if ta else 'Object'
            vs = [self.rv(a, fr) for a in args]
            ef = self.effect('R.object', [s, S(t)] + vs, n.get('ty'))
            return ('V', mk('res', ef.uid, ty=n.get('ty')))
        if m in ('read_object_end', 'read_string', 'read_int', 'read_float', 'read_byte', 'read_word', 'read_enum', 'read_bool', 'read_color',
                 'read_vec3', 'read_vec2', 'read_bbox', 'read_mat3x3', 'read_raw', 'skip_object', 'skip_entry'):
            vs = [self.rv(a, fr) for a in args]
            ef = self.effect('R.' + m.replace('read_', ''), [s] + vs, deref_ty(n.get('ty', 'void')))
            return ('V', self.res(ef) if n.get('ty') != 'void' else VOID)
        if m == 'get_stream':
            return ('V', mk('stream_of', s))
        if m == 'get_header':
            return ('L', (('d', mk('header_of', s)),))
        return None

    def h_warch(self, n, m, s, args, fr):
        if m == 'write_object':
            vs = []
            for a in args:
                v = self.rv(a, fr)
                vs.append(v)
            ts = [deref_ty(a.get('ty', '')) for a in args]
            name = S('')
            vals = []
            for v, t in zip(vs, ts):
                if 'string' in t or v.op == 's' or v.op == 'concat':
                    name = v
                elif t.startswith('E'):
                    vals.append(v)
                else:
                    vals.append(v)
            self.effect('W.object', [s, name] + vals)
            return ('V', VOID)
        if m == 'get_stream':
            return ('V', mk('stream_of', s))
        if m in ('write_object_begin', 'write_object_end', 'write_ref', 'write_string', 'write_int', 'write_float', 'write_byte', 'write_word', 'write_enum',
                 'write_bool', 'write_color', 'write_vec3', 'write_vec2', 'write_bbox', 'write_mat3x3', 'write_raw', 'write_raw_float', 'write_header'):
            vs = []
            for a in args:
                v = self.argval(a, fr)
                vs.append(self.pointee(v) if v.op == 'ptr' else v)
            ef = self.effect('W.' + m.replace('write_', ''), [s] + vs, deref_ty(n.get('ty', 'void')))
            return ('V', self.res(ef) if n.get('ty') != 'void' else VOID)
        return None


def dump(effs, ind=0, out=None):
    out = [] if out is None else out
    for e in effs:
        pc = '' if e.pc is TRUE else '  when ' + show(e.pc)
        line = e.loc.rsplit('/', 1)[-1]
        if e.name == 'loop':
            out.append('%s#%d loop count=%s%s   @%s' % ('  ' * ind, e.uid, 'None' if e.count is None else show(e.count), pc, line))
            dump(e.body, ind + 1, out)
            for i, (a, b, brk, ty, kind) in (e.mus or {}).items():
                out.append('%s  carry %d: %s -> %s %s' % ('  ' * ind, i, show(a), show(b), [(show(x), show(y)) for x, y in brk]))
        elif e.name == 'try':
            out.append('%s#%d try%s' % ('  ' * ind, e.uid, pc))
            dump(e.body, ind + 1, out)
            for ty, h in e.data:
                out.append('%s catch %s' % ('  ' * ind, ty))
                dump(h, ind + 1, out)
        else:
            out.append('%s#%d %s(%s)%s   @%s' % ('  ' * ind, e.uid, e.name, ', '.join(show(a) for a in e.args), pc, line))
    return out
