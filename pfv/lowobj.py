"""Contracts of the module objects themselves: context managers that hand out the object and never swallow an exception,
and the ASM methods, which refuse to run on this platform."""
from .raw import *

G = ('lowobj',)
SRC['ASM'] = 'unsafe/ASM.cpp'


def enter(cx):
    def post(st, v):
        s = cx.args[0]
        cx.ob(st, isinstance(v, O) and T.same(Z(v.t), Z(s.t)), 'returns the object itself')
        cx.events(st)
    return [], post


def leave(n):
    def f(cx):
        # for every exception (type, value, traceback): the result is None, so the exception continues
        def post(st, v):
            cx.none(st, v)
            cx.events(st)
        return [cx.obj('a%d' % i) for i in range(n)], post
    return f


def refuses(cx):
    cx.never = 'the method is not supported on this platform'
    cx.nargs = cx.int('nargs', 0, 2 ** 31) if cx.flags & 128 else None
    cx.onfail = lambda st: (cx.ob(st, st.g('err') == 'PyExc_NotImplementedError', 'the exception is NotImplementedError'), cx.events(st),
                            cx.ob(st, not st.g('heap'), 'nothing is allocated', 'leak'))
    return [] if cx.flags & 128 else [cx.obj('a0')] if cx.flags & 8 else [], lambda st, v: None


for _c in ('Unsafe', 'SIMD', 'SIMDLowAVX512', 'ASM'):
    method(_c, '__enter__', 'self', G)(enter)
    method(_c, '__exit__', 'exception', G)(leave(3))
for _n in ('run', 'runFast', 'makeFunction', 'makeFunctionFast', 'freeFunction', 'freeFunctionFast'):
    method('ASM', _n, 'refused', G)(refuses)
