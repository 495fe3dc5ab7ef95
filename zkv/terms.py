"""Hash-consed value terms and their arithmetic."""
import re
from .ir import unq, deref_ty

ENUM_UNDER = {}


class T:
    __slots__ = ('op', 'a', 'ty', 'uid')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a, ty=None):
    k = (op, a, ty)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.ty, t.uid = op, a, ty, len(_tab)
        _tab[k] = t
    return t


_INT = re.compile(r'^([iu])(\d+)$')
_wcache = {}


def width(ty):
    """(bits, signed) of an integer-like type descriptor, else None"""
    if ty is None:
        return None
    r = _wcache.get(ty, 0)
    if r != 0:
        return r
    t = deref_ty(ty)
    r = None
    if t == 'bool':
        r = (1, False)
    elif t == 'c8':
        r = (8, True)
    elif t[:1] == 'E':
        u = ENUM_UNDER.get(t[1:])
        r = width(u) if u else (8, False) if t == 'Estd::byte' else (32, True)
    else:
        m = _INT.match(t)
        if m:
            r = (int(m.group(2)), m.group(1) == 'i')
    _wcache[ty] = r
    return r


def is_float(ty):
    return ty is not None and deref_ty(ty) in ('f32', 'f64', 'f128', 'f80')


def wrap(v, ty):
    w = width(ty)
    if w is None or not isinstance(v, int):
        return v
    bits, sg = w
    if bits == 1:
        return 1 if v else 0
    v &= (1 << bits) - 1
    if sg and v >> (bits - 1):
        v -= 1 << bits
    return v


def I(v):
    return mk('i', int(v))


def S(v):
    return mk('s', v)


TRUE = I(1)
FALSE = I(0)
NULL = mk('null')
VOID = mk('void')
UNINIT = mk('uninit')


def is_c(t):
    return t.op in ('i', 's', 'f', 'null')


def cval(t):
    return None if t.op == 'null' else t.a[0]


def neg_lit(t):
    return t.a[0] if t.op == '!' else None


CMP_NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == '!':
        return c.a[0]
    if c.op in CMP_NEG and not (is_float(c.a[0].ty) or is_float(c.a[1].ty)):
        return mk(CMP_NEG[c.op], c.a[0], c.a[1], ty='bool')
    if c.op == 'i':
        return FALSE if c.a[0] else TRUE
    return mk('!', c, ty='bool')


def conj(c):
    """set of conjuncts"""
    if c.op == '&&':
        return conj(c.a[0]) + conj(c.a[1])
    return [c]


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    ca = conj(a)
    if b in ca:
        return a
    nb = not_(b)
    if nb in ca:
        return FALSE
    return mk('&&', a, b, ty='bool')


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if not_(a) is b:
        return TRUE
    ca, cb = conj(a), conj(b)
    common = [x for x in ca if x in cb]
    ra = [x for x in ca if x not in common]
    rb = [x for x in cb if x not in common]
    if not ra or not rb:
        r = TRUE
    elif len(ra) == 1 and len(rb) == 1 and not_(ra[0]) is rb[0]:
        r = TRUE
    elif len(ra) == 1 and not_(ra[0]) in rb:
        # a | (!a & x)  ->  a | x
        rb = [x for x in rb if x is not not_(ra[0])]
        r = mk('||', ra[0], all_(rb), ty='bool')
    elif common:
        r = mk('||', all_(ra), all_(rb), ty='bool')
    else:
        return mk('||', a, b, ty='bool')
    return and_(all_(common), r)


def all_(cs):
    r = TRUE
    for c in cs:
        r = and_(r, c)
    return r


def phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == '!':
        return phi(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if b.op == 'phi' and b.a[0] is c:
        b = b.a[2]
    if a.op == 'phi' and a.a[0] is c:
        a = a.a[1]
    if a is b:
        return a
    ty = a.ty if a.ty == b.ty else (a.ty or b.ty)
    return mk('phi', c, a, b, ty=ty)


def cast(t, frm, to):
    """integral / floating / enum conversion"""
    tu = deref_ty(to)
    if tu == 'bool':
        if width(frm) == (1, False) or t.ty == 'bool':
            return t
        if t.op == 'i':
            return TRUE if t.a[0] else FALSE
        if t.op == 'null':
            return FALSE
        if t.op == 'ptr' or t.op == 'lam':
            return not_(nullness(t))
        if frm and (deref_ty(frm)[:1] == 'P' or deref_ty(frm) == 'nullptr'):
            return cmp('!=', t, NULL)
        return cmp('!=', t, I(0))
    w = width(to)
    if w:
        if t.op == 'i':
            return I(wrap(t.a[0], to))
        if t.op == 'f':
            return I(wrap(int(t.a[0]), to))
        f = width(frm)
        if f:
            if f == w:
                return t
            if w[0] > f[0] and (w[1] or not f[1]):
                return t  # value preserving
            if t.op == 'cast' and width(t.ty) and w[0] <= width(t.ty)[0]:
                return cast(t.a[0], None, to)
        return mk('cast', t, ty=tu)
    if is_float(to):
        if t.op == 'i':
            return mk('f', float(t.a[0]))
        if t.op == 'f':
            return t
        if is_float(frm):
            return t if tu == 'f64' else mk('cast', t, ty=tu) if deref_ty(frm) != 'f32' else t
        return mk('cast', t, ty=tu)
    return t


COMM = {'+', '*', '&', '|', '^', '==', '!='}


def nullness(x):
    """is this address null? only a pointer the caller passed in can be"""
    if x.op == 'ptr' and len(x.a[0]) == 1 and x.a[0][0][0] == 'p' and x.a[0][0][1] != 'this':
        return mk('sym', '%s:null' % x.a[0][0][1], ty='bool')
    return FALSE


def cmp(op, a, b):
    if a is b and op in ('==', '<=', '>='):
        return TRUE
    if a is b and op in ('!=', '<', '>'):
        return FALSE
    if is_c(a) and is_c(b):
        x, y = cval(a), cval(b)
        try:
            r = {'==': x == y, '!=': x != y}.get(op)
            if r is None:
                r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
            return TRUE if r else FALSE
        except TypeError:
            pass
    if op in ('==', '!='):
        for x, y in ((a, b), (b, a)):
            if x.op in ('ptr', 'lam') and y.op == 'null':
                n = nullness(x)
                return n if op == '==' else not_(n)
            if y.op == 'i' and x.ty == 'bool':
                if y.a[0] == 0:
                    return not_(x) if op == '==' else x
                if y.a[0] == 1:
                    return x if op == '==' else not_(x)
    if op in COMM and (is_c(a) and not is_c(b)):
        a, b = b, a
    if op == '>' and is_c(a) is False:
        pass
    return mk(op, a, b, ty='bool')


def fold(op, x, y):
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if op == '/':
        if isinstance(x, float) or isinstance(y, float):
            return x / y if y else 0.0
        if y == 0:
            return 0
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q
    if op == '%':
        if y == 0:
            return 0
        return x - fold('/', x, y) * y
    if op == '<<':
        return x << (y & 63)
    if op == '>>':
        return x >> (y & 63)
    if op == '&':
        return x & y
    if op == '|':
        return x | y
    if op == '^':
        return x ^ y
    raise KeyError(op)


def arith(op, a, b, ty):
    if op in ('==', '!=', '<', '<=', '>', '>='):
        return cmp(op, a, b)
    if op == '&&':
        return and_(a, b)
    if op == '||':
        return or_(a, b)
    if a.op in ('i', 'f') and b.op in ('i', 'f'):
        try:
            v = fold(op, a.a[0], b.a[0])
            if isinstance(v, float):
                return mk('f', v)
            return I(wrap(v, ty))
        except Exception:
            pass
    if op == '+':
        if b.op == 'i' and b.a[0] == 0:
            return a
        if a.op == 'i' and a.a[0] == 0:
            return b
        if a.op == 'i':
            a, b = b, a
        if b.op == 'i' and a.op == '+' and a.a[1].op == 'i':
            return arith('+', a.a[0], I(wrap(a.a[1].a[0] + b.a[0], ty)), ty)
        if b.op == 'i' and a.op == '-' and a.a[1].op == 'i':
            return arith('+', a.a[0], I(b.a[0] - a.a[1].a[0]), ty)
    elif op == '-':
        if b.op == 'i':
            if b.a[0] == 0:
                return a
            return arith('+', a, I(-b.a[0]), ty)
        if a is b and width(ty):
            return I(0)
        if a.op == '+' and a.a[0] is b:
            return a.a[1]
        if a.op == '+' and a.a[1] is b:
            return a.a[0]
    elif op == '*':
        if b.op == 'i' and b.a[0] == 1:
            return a
        if a.op == 'i' and a.a[0] == 1:
            return b
        if (b.op == 'i' and b.a[0] == 0) or (a.op == 'i' and a.a[0] == 0):
            return I(0)
        if a.op == 'i':
            a, b = b, a
    elif op in ('<<', '>>', '|', '^') and b.op == 'i' and b.a[0] == 0:
        return a
    elif op == '|' and a.op == 'i' and a.a[0] == 0:
        return b
    elif op == '&' and ((a.op == 'i' and a.a[0] == 0) or (b.op == 'i' and b.a[0] == 0)):
        return I(0)
    if op in COMM and a.op == 'i':
        a, b = b, a
    return mk(op, a, b, ty=deref_ty(ty) if ty else None)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, tuple) else showloc(t)
    if t.op == 'i':
        return str(t.a[0])
    if t.op == 's':
        return repr(t.a[0])
    if t.op == 'f':
        return repr(t.a[0])
    if d > 7:
        return '…'
    if t.op in ('null', 'void', 'uninit'):
        return t.op
    if t.op == 'res':
        return '#%s' % '.'.join(map(str, t.a))
    if t.op == 'ptr':
        return '&' + showloc(t.a[0], d)
    if t.op == 'init':
        return showloc(t.a[0], d)
    if t.op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '==', '!=', '<', '<=', '>', '>=', '&&', '||') and len(t.a) == 2:
        return '(%s %s %s)' % (show(t.a[0], d + 1), t.op, show(t.a[1], d + 1))
    if t.op == '!':
        return '!' + show(t.a[0], d + 1)
    if t.op == 'phi':
        return '(%s ? %s : %s)' % tuple(show(x, d + 1) for x in t.a)
    if t.op == 'cast':
        return '(%s)%s' % (t.ty, show(t.a[0], d + 1))
    if t.op == 'k':
        return 'k%s' % t.a[0]
    if t.op == 'mu':
        return 'mu%s.%s' % (t.a[0], t.a[1])
    if t.op == 'post':
        return 'post%s.%s' % (t.a[0], t.a[1])
    return '%s(%s)' % (t.op, ', '.join(show(x, d + 1) for x in t.a))


def showloc(loc, d=0):
    out = []
    for s in loc:
        if isinstance(s, tuple) and s and s[0] == 'e':
            out.append('[%s]' % show(s[1], d + 1))
        elif isinstance(s, tuple) and s and s[0] == 'd':
            out.append('*(%s)' % show(s[1], d + 1))
        elif isinstance(s, tuple):
            out.append('<%s>' % ':'.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in s))
        else:
            out.append(('.' if out else '') + str(s))
    return ''.join(out)
