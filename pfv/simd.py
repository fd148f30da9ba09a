"""SIMD values and instructions.

A vector value V(w, l) carries its lanes in the width they were produced with; every instruction re-reads it in the
lane width of its own type (relane). A lane is an integer term, a bool (mask vectors), UNDEF, a Part (some bits of a wider
term) or a Cat (narrower lanes side by side), so that pure data movement of any granularity stays exact."""
import re
from .core import *
from .core import Unsupported, V, UNDEF
from .terms import *


class Part:
    """bits [off, off+w) of the W-bit term t"""
    __slots__ = ('t', 'W', 'off', 'w')

    def __init__(self, t, W, off, w):
        self.t, self.W, self.off, self.w = t, W, off, w

    def __repr__(self):
        return 'Part(%s,%d+%d/%d)' % (self.t, self.off, self.w, self.W)


class Cat:
    """lanes of width w, least significant first"""
    __slots__ = ('w', 'l')

    def __init__(self, w, l):
        self.w, self.l = w, l

    def __repr__(self):
        return 'Cat%d%r' % (self.w, self.l)


def sgn(c, w):
    return (c + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))


def split(x, w, n):
    """one lane of width w as w//n lanes of width n"""
    if x is UNDEF:
        return [UNDEF] * (w // n)
    if isinstance(x, Cat):
        if x.w < n:
            return group(x.l, x.w, n)
        r = []
        for y in x.l:
            if x.w == n:
                r.append(y)
            elif x.w > n:
                r += split(y, x.w, n)
            else:
                raise Unsupported('lane regrouping')
        return r
    if is_c(x):
        return [sgn(x >> (n * i), n) for i in range(w // n)]
    if isinstance(x, Part):
        return [Part(x.t, x.W, x.off + n * i, n) for i in range(w // n)]
    return [Part(x, w, n * i, n) for i in range(w // n)]


def group(l, w, n):
    """lanes of width w joined to lanes of width n"""
    m = n // w
    if len(l) % m:
        raise Unsupported('vector lanes do not divide')
    out = []
    for i in range(0, len(l), m):
        g = l[i:i + m]
        if all(x is UNDEF for x in g):
            out.append(UNDEF)
        elif all(is_c(x) for x in g):
            out.append(sgn(sum((x % (1 << w)) << (w * k) for k, x in enumerate(g)), n))
        elif all(isinstance(x, Part) and x.t is g[0].t or (isinstance(x, Part) and isinstance(g[0], Part) and same(x.t, g[0].t)) for x in g) \
                and all(x.W == g[0].W and x.off == g[0].off + w * k for k, x in enumerate(g)):
            p = g[0]
            out.append(p.t if p.off == 0 and p.W == n else Part(p.t, p.W, p.off, n))
        else:
            out.append(Cat(w, list(g)))
    return out


def relane(ex, st, v, w):
    """re-read a vector value with lanes of width w"""
    if v is UNDEF:
        return v
    if not isinstance(v, V):
        raise Unsupported('vector value %r' % (v,))
    if v.w == w:
        return v
    if v.w > w:
        if v.w % w:
            raise Unsupported('vector lane width change %d -> %d' % (v.w, w))
        r = []
        for x in v.l:
            r += split(x, v.w, w)
        return V(w, r)
    if w % v.w:
        raise Unsupported('vector lane width change %d -> %d' % (v.w, w))
    return V(w, group(v.l, v.w, w))


def lanes(ex, st, fr, ty, v):
    """the lanes of v as the vector type ty reads them"""
    rt = fr.mod.resolve(ty)
    w = ex.lanew(rt.b)
    if v is UNDEF:
        return w, [UNDEF] * rt.a
    r = relane(ex, st, v, w)
    if len(r.l) != rt.a:
        raise Unsupported('vector shape')
    return w, list(r.l)


def num(x, w):
    """a lane as an integer term"""
    if x is UNDEF or isinstance(x, (Cat, Part)):
        if isinstance(x, Part):
            u = (Z(x.t) / (1 << x.off)) % (1 << w)
            return If(u >= (1 << (w - 1)), u - (1 << w), u)
        raise Unsupported('vector lane %r' % (x,))
    if isinstance(x, (P, It, O, Fp)) or x is NULL:
        raise Unsupported('vector lane %r' % (x,))
    return x


def instr(ex, fr, st, ins):
    if ins.op == 'shufflevector':
        rt = fr.mod.resolve(ins.ty)
        w, a = lanes(ex, st, fr, ins.ty, ex.val(st, fr, ins.ty, ins.a))
        w, b = lanes(ex, st, fr, ins.ty, ex.val(st, fr, ins.ty, ins.b))
        m = ex.val(st, fr, ins.x, ins.c)
        n = fr.mod.resolve(ins.x).a
        idx = [UNDEF] * n if m is UNDEF else m.l
        ab = a + b
        out = []
        for i in idx:
            if i is UNDEF:
                out.append(UNDEF)
            elif not is_c(i) or not 0 <= i < len(ab):
                raise Unsupported('shuffle mask')
            else:
                out.append(ab[i])
        return V(w, out)
    if ins.op == 'extractelement':
        w, a = lanes(ex, st, fr, ins.ty, ex.val(st, fr, ins.ty, ins.a))
        i = ex.val(st, fr, Ty('int', 64), ins.b)
        if not is_c(i):
            raise Unsupported('symbolic lane index')
        if not 0 <= i < len(a):
            ex.oblige(st, 'memory', False, 'lane index out of range')
            raise DeadPath()
        x = a[i]
        return num(x, w) if isinstance(x, (Part, Cat)) else x
    if ins.op == 'insertelement':
        rt = fr.mod.resolve(ins.ty)
        w, a = lanes(ex, st, fr, ins.ty, ex.val(st, fr, ins.ty, ins.a))
        x = ex.val(st, fr, rt.b, ins.b)
        i = ex.val(st, fr, Ty('int', 64), ins.c)
        if not is_c(i) or not 0 <= i < len(a):
            raise Unsupported('symbolic lane index')
        a[i] = x
        return V(w, a)
    raise Unsupported('instruction %s' % ins.txt[:100])


def cmp_lane(ex, st, pr, a, b, w):
    a, b = num(a, w), num(b, w)
    if pr == 'eq':
        return eq(a, b)
    if pr == 'ne':
        return Not(eq(a, b))
    if pr[0] == 'u':
        a, b = ex.uns(st, a, w), ex.uns(st, b, w)
    return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[pr[1:]]


def icmp(ex, st, fr, ins, a, b):
    w, x = lanes(ex, st, fr, ins.ty, a)
    w, y = lanes(ex, st, fr, ins.ty, b)
    return V(1, [cmp_lane(ex, st, ins.c, p, q, w) for p, q in zip(x, y)])


def bin(ex, st, fr, ins, rt, op, a, b):
    if rt.k != 'vec' or op[0] == 'f':
        raise Unsupported('vector/float arithmetic %s' % op)
    w, x = lanes(ex, st, fr, rt, a)
    w, y = lanes(ex, st, fr, rt, b)
    if w == 1:
        f = {'and': And, 'or': Or, 'xor': lambda p, q: Not(Iff(p, q))}.get(op)
        if f is None:
            raise Unsupported('mask arithmetic %s' % op)
        return V(1, [f(ex.asbool(p), ex.asbool(q)) for p, q in zip(x, y)])
    if op in ('and', 'or', 'xor'):
        # all-zero and all-one operands are exact for every lane representation
        out = []
        for p, q in zip(x, y):
            if is_c(p):
                p, q = q, p
            if is_c(q) and q == 0:
                out.append(0 if op == 'and' else p)
            elif is_c(q) and q == -1 and op == 'and':
                out.append(p)
            elif is_c(q) and q == -1 and op == 'or':
                out.append(-1)
            else:
                out.append(ex.iop(st, op, num(p, w), num(q, w), w))
        return V(w, out)
    return V(w, [ex.iop(st, op, num(p, w), num(q, w), w) for p, q in zip(x, y)])


def cast(ex, st, fr, ins, s, d, op, v):
    if op == 'bitcast' and s.k == 'vec' and d.k == 'vec':
        if ex.lanew(s.b) == 1 or ex.lanew(d.b) == 1:
            raise Unsupported('mask bitcast')
        return v
    if op == 'bitcast' and s.k == 'int' and d.k == 'vec':
        w = ex.lanew(d.b)
        if w == 1:
            if is_c(v):
                return V(1, [bool((v >> i) & 1) for i in range(d.a)])
            raise Unsupported('mask from a variable')
        return V(w, split(v, s.a, w)) if w != s.a else V(w, [v])
    if op == 'bitcast' and s.k == 'vec' and d.k == 'int':
        w, l = lanes(ex, st, fr, s, v)
        if w == 1:
            if all(isinstance(x, bool) for x in l):
                return sgn(sum(1 << i for i, x in enumerate(l) if x), d.a)
            t = 0
            for i, x in enumerate(l):
                t = add(t, If(ex.asbool(x), 1 << i if i < d.a - 1 else -(1 << i), 0))
            return t
        g = group(l, w, d.a)
        return num(g[0], d.a)
    if op in ('sext', 'zext') and s.k == 'vec':
        w, l = lanes(ex, st, fr, s, v)
        W = ex.lanew(d.b)
        if w == 1:
            return V(W, [If(ex.asbool(x), -1 if op == 'sext' else 1, 0) for x in l])
        return V(W, [num(x, w) if op == 'sext' else ex.uns(st, num(x, w), w) for x in l])
    if op == 'trunc' and s.k == 'vec':
        w, l = lanes(ex, st, fr, s, v)
        W = ex.lanew(d.b)
        if W == 1:
            return V(1, [ex.tobool(num(x, w)) for x in l])
        return V(W, [split(x, w, W)[0] if not is_c(x) else sgn(x, W) for x in l])
    raise Unsupported('cast %s' % op)


def permvar(ex, st, fr, ins, a, name):
    w = {'si': 32, 'di': 64, 'hi': 16, 'qi': 8}[name.split('.')[-2]]
    v, i = relane(ex, st, a[0], w), relane(ex, st, a[1], w)
    if not all(is_c(x) for x in i.l):
        raise Unsupported('symbolic permutation')
    return V(w, [v.l[x % len(v.l)] for x in i.l])


def pshufb(ex, st, fr, ins, a, name):
    v, i = relane(ex, st, a[0], 8), relane(ex, st, a[1], 8)
    if not all(is_c(x) for x in i.l):
        raise Unsupported('symbolic shuffle')
    return V(8, [0 if x < 0 else v.l[k // 16 * 16 + x % 16] for k, x in enumerate(i.l)])


def minmax(ex, st, fr, ins, a, name):
    m = re.match(r'llvm\.([su])(min|max)\.v(\d+)i(\d+)', name)
    w = int(m.group(4))
    x, y = relane(ex, st, a[0], w), relane(ex, st, a[1], w)
    out = []
    for p, q in zip(x.l, y.l):
        c = cmp_lane(ex, st, m.group(1) + 'lt', p, q, w)
        out.append(If(c, p, q) if m.group(2) == 'min' else If(c, q, p))
    return V(w, out)


def bswap(ex, st, fr, ins, a, name):
    w = int(name.rsplit('i', 1)[1])
    x = a[0]
    if isinstance(x, V):
        # a register read across several bytes of an array
        return V(8, relane(ex, st, x, 8).l[::-1])
    if is_c(x):
        return sgn(int.from_bytes((x % (1 << w)).to_bytes(w // 8, 'little'), 'big'), w)
    f = func('bswap%d' % w, 1, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    return f(Z(x))


SIMD_INTRIN = [
    (r'llvm\.x86\.(avx512|avx2)\.permvar\.(si|di|hi|qi)\.(512|256)$', permvar),
    (r'llvm\.x86\.avx2\.permd$', lambda ex, st, fr, ins, a, n: permvar(ex, st, fr, ins, a, 'x.permvar.si.256')),
    (r'llvm\.x86\.(avx512\.pshuf\.b\.512|avx2\.pshuf\.b|ssse3\.pshuf\.b\.128)$', pshufb),
    (r'llvm\.[su](min|max)\.v\d+i\d+$', minmax),
    (r'llvm\.bswap\.i(16|32|64)$', bswap),
]


def intrinsic(name):
    for rx, h in SIMD_INTRIN:
        if re.match(rx, name):
            return h

    def h(ex, st, fr, ins, a, nm):
        raise Unsupported('intrinsic %s' % name)
    return h
