"""Contracts of the SIMD module: block copies and reversals of every element type, vector initialisers, CPU flags."""
from .raw import *
from .raw import U64
from .units import unit

C = 'SIMD'
G = ('simdmod',)
LIM = 2 ** 43
SIZES = dict(Int=4, UnsignedInt=4, Long=8, UnsignedLong=8, LongLong=8, UnsignedLongLong=8, Short=2, UnsignedShort=2, Float=4, Double=8, LongDouble=16,
             Char=1, UnsignedChar=1, WChar=4, Char16=2, Char32=4, Bool=1, Int8=1, UInt8=1, Int16=2, UInt16=2, Int32=4, UInt32=4, Int64=8, UInt64=8,
             VoidPtr=8, IntPtr=8, FloatPtr=8, PyObjectPtr=8)
ISP = ('VoidPtr', 'IntPtr', 'FloatPtr', 'PyObjectPtr')


def m(name, label=''):
    return method(C, name, label, G)


def count(cx):
    t, n = cx.num('count', assume=LIM)
    cx.st.assume(Implies(isint(t), le(n, LIM)))
    return t, n, If(And(isint(t), lt(0, n)), n, 0)


def mem(cx, name, k, tn, align=None):
    es = SIZES[tn]
    p = cx.arr(name, es, k, isp=tn in ISP, align=align or min(es, 16))
    if tn == 'Bool':
        # objects of type bool hold 0 or 1
        p.b.seq0 = Base('a!%s%d' % (name, p.b.bid), 0, 1)
        cx.st.set(p.b.bid, 'cont', p.b.seq0)
    cx.mems.append(p.b)
    return p.b


def copyfn(tn, align):
    def f(cx):
        t, n, k = count(cx)
        src, dst = mem(cx, 'from', k, tn, align), mem(cx, 'to', k, tn, align)
        a, b = cx.addr('from', src), cx.addr('to', dst)

        def post(st, v):
            cx.none(st, v)
            cx.holds(st, P(dst, 0), n, lambda i: src.seq0.at(i), 'every element is copied')
            cx.unchanged(st, src, 'the source is unchanged')
        return [a, b, t], post
    return f


def revfn(tn):
    def f(cx):
        t, n, k = count(cx)
        b = mem(cx, 'block', k, tn)
        a = cx.addr('address', b)

        def post(st, v):
            cx.none(st, v)
            cx.holds(st, P(b, 0), n, lambda i: b.seq0.at(sub(sub(n, 1), i)), 'element k is the old element count-1-k')
        return [a, t], post
    return f


def arity(name, k):
    def f(cx):
        cx.never = 'a wrong number of arguments is rejected'
        if not cx.flags & 128:
            return [cx.obj('a%d' % i) for i in range(k + 1)], lambda st, v: None
        cx.nargs = cx.int('nargs', 0, 2 ** 31)
        cx.st.assume(Not(eq(cx.nargs, k)))
        return [], lambda st, v: None
    m(name, 'nargs')(f)


def setfn(total, es):
    n = total // es
    lo, hi = -(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1

    def f(cx):
        b = cx.mem('vector', total, es=es, align=total)
        a = cx.addr('address', b)
        # at most one argument (number `bad`, chosen arbitrarily) is no int of the element type
        bad = cx.int('bad', -1, n)
        cx.st.assume(Or(isint(a), eq(bad, n)))
        xs = []
        for i in range(n):
            t, x = cx.num('q%d' % i, lo, hi)
            good = And(isint(t), le(lo, x), le(x, hi))
            # the conversion of short and char elements does not check its argument
            cx.st.assume(Or(good, eq(bad, i)) if es == 4 else good)
            xs.append((t, x))

        def post(st, v):
            cx.none(st, v)
            c = st.get(b.bid, 'cont')
            for i in range(n):
                cx.ob(st, eq(c.at(i), xs[n - 1 - i][1]), 'element %d of the vector is argument %d' % (i, n - i))
        return [a] + [t for t, _ in xs], post
    return f


def flagfn(sym):
    def f(cx):
        def post(st, v):
            g = cx.gflag(sym)
            if g is None:
                raise Unsupported('flag %s' % sym)
            # an object of type bool holds 0 or 1
            st.assume(And(le(0, g), le(g, 1)))
            isT = isinstance(v, P) and v.b.name == '_Py_TrueStruct' or isinstance(v, O) and v.t == gid('_Py_TrueStruct')
            isF = isinstance(v, P) and v.b.name == '_Py_FalseStruct' or isinstance(v, O) and v.t == gid('_Py_FalseStruct')
            cx.ob(st, isT or isF, 'returns a bool')
            cx.ob(st, Iff(isT, Not(eq(g, 0))), 'returns whether the CPU has the feature')
        return [], post
    return f


for _n in SIZES:
    m('memcpy' + _n)(copyfn(_n, None))
    arity('memcpy' + _n, 3)
    m('memcpy%sAligned' % _n)(copyfn(_n, 64))
    arity('memcpy%sAligned' % _n, 3)
    m('reverse' + _n)(revfn(_n))
    arity('reverse' + _n, 2)
for _t, _e in ((64, 4), (64, 2), (64, 1), (32, 4), (32, 2), (32, 1)):
    _n = 'set%sVector%d' % ('AVX512' if _t == 64 else 'AVX2', _e * 8)
    m(_n)(setfn(_t, _e))
    arity(_n, _t // _e + 1)
for _n, _s in (('isSSE41Supported', 'IS_SSE41_SUPPORTED'), ('isAVX2Supported', 'IS_AVX2_SUPPORTED'), ('isAVX512Supported', 'IS_AVX512_SUPPORTED'),
               ('isSSSE3Supported', 'IS_SSSE3_SUPPORTED'), ('isArmNeonSupported', 'IS_ARM_NEON_SUPPORTED')):
    m(_n)(flagfn(_s))


# ---- the helpers behind the methods, for every element type they are instantiated with


@unit('reverse', ['unsafe/SIMD.cpp'], r'void qReverse<(\d+)ul>\(void\*, unsigned long\)$', G)
def u_qrev(cx):
    return u_rev(cx, int(cx.m.group(1)), False)


@unit('reverse', ['unsafe/SIMD.cpp'], r'void simd::simdReverse<(.*)>\(\1\*, unsigned long\)$', G)
def u_simdrev(cx):
    return u_rev(cx, stl.csize(cx.m.group(1)), '*' in cx.m.group(1))


def u_rev(cx, es, isp):
    n = cx.int('n', 0, LIM)
    p = cx.arr('array', es, n, isp=isp, align=min(es, 16))
    return [p, n], lambda cx, st, v: cx.holds(st, p, n, lambda k: p.b.seq0.at(sub(sub(n, 1), k)), 'element k is the old element n-1-k')


@unit('memcpy', ['unsafe/SIMD.cpp'], r'fast_memcpy\(void\*, void const\*, unsigned long\)$', G)
@unit('memcpy', ['unsafe/Unsafe.cpp'], r'fast_memcpy\(void\*, void const\*, unsigned long\)$', ('unsafe',))
def u_fm(cx):
    return u_cp(cx, 1, 1, False, True)


@unit('memcpy', ['unsafe/SIMD.cpp'], r'void simd::(simdMemCpy|simdMemCpyAligned)<(.*)>\(\2\*, \2\*, unsigned long\)$', G)
@unit('memcpy', ['unsafe/Unsafe.cpp'], r'void simd::(simdMemCpy|simdMemCpyAligned)<(.*)>\(\2\*, \2\*, unsigned long\)$', ('unsafe',))
def u_smc(cx):
    t = cx.m.group(2)
    es = stl.csize(t)
    return u_cp(cx, es, 64 if 'Aligned' in cx.m.group(1) else min(es, 16), t.endswith('*'), False)


def u_cp(cx, es, al, isp, dst_first):
    n = cx.int('n', 0, (1 << 46) // es)
    d, s = cx.arr('dst', es, n, align=al, isp=isp), cx.arr('src', es, n, align=al, isp=isp)
    if cx.m.lastindex == 2 and cx.m.group(2) == 'bool':
        # objects of type bool hold 0 or 1
        s.b.seq0 = Base('a!bool%d' % s.b.bid, 0, 1)
        cx.st.set(s.b.bid, 'cont', s.b.seq0)
    return ([d, s, n] if dst_first else [s, d, n]), lambda cx, st, v: (
        cx.holds(st, d, n, lambda k: s.b.seq0.at(k), 'every element is copied'),
        cx.holds(st, s, n, lambda k: s.b.seq0.at(k), 'the source is unchanged'))


@unit('conversion', ['unsafe/SIMD.cpp'], r'PyFast_As(Short|Char)\(', G)
def u_conv(cx):
    w = 15 if cx.m.group(1) == 'Short' else 7
    t = cx.int('o', 2000, 10 ** 6 - 1)
    x = ival(t)
    cx.st.assume(And(isint(t), le(-(1 << w), x), lt(x, 1 << w)))
    return [O(t)], lambda cx, st, v: cx.ob(st, eq(v, x), 'an int in range is converted to its value')
