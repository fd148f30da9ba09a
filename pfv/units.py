"""Verification units for helper functions that other functions rely on by contract: the body of the real helper is
verified against the very contract its callers use."""
import re
import time
import traceback
import z3
from .world import *
from .core import PathBudget
from . import core, spec
from .spec import Result, ledger_zero
from . import terms as T

UNITS = []


class Unit:
    def __init__(self, name, src, rx, f, grp):
        self.name, self.src, self.rx, self.f, self.grp = name, src, re.compile(rx), f, grp


def unit(name, srcs, rx, grp):
    def d(f):
        for s in srcs:
            UNITS.append(Unit(name, s, rx, f, grp))
        return f
    return d


class UCtx:
    def __init__(self, ex, st, m):
        self.ex, self.st, self.m = ex, st, m

    def arr(self, name, es, n, isp=False, align=None):
        b = Block('arr', name, es=es, isp=isp, align=align or es)
        w = es * 8
        q = Base('a!%s%d' % (name, b.bid), 1 if isp else -(1 << (w - 1)), None if isp else (1 << (w - 1)) - 1)
        self.st.m[b.bid] = {'size': mul(n, es), 'cont': q}
        b.seq0, b.n0 = q, n
        return P(b, 0)

    def int(self, name, lo=0, hi=1 << 43):
        i = z3.Int('%s!%d' % (name, T.uid()))
        T.RANGE[i.decl().name()] = (lo, hi)
        self.st.assume(And(i >= lo, i <= hi))
        return i

    def ob(self, st, c, msg, kind='functional', weak=False):
        return self.ex.oblige(st, kind, c, msg, assume=False, weak=weak)

    def holds(self, st, p, n, want, msg):
        """every element k in [0, n) of the array is want(k)"""
        q = st.m[p.b.bid]['cont']
        k = z3.Int('k!%d' % T.uid())
        s = st.copy()
        s.assume(And(k >= 0, lt(k, n)))
        self.ob(s, eq(q.at(k), want(k)), msg)


def run_unit(loader, u, fname, budget=120):
    """verify one function; the module is loaded on its own"""
    m = loader.mod(u.src)
    prog = Program([m])
    con = Contracts()
    ex = Exec(prog, con)
    ex.world = None
    ex.roots = []
    ex.blocks = {}
    t0 = time.time()
    dem = core.demangle(fname)
    res = Result(u.src, dem.split('(')[0], dem)
    old = Block.__init__

    def reg(self, kind, name='', **kw):
        old(self, kind, name, **kw)
        ex.blocks[self.bid] = self
    Block.__init__ = reg
    try:
        st = State()
        cx = UCtx(ex, st, re.match(u.rx, dem))
        r = u.f(cx)
        args, check = r[:2]
        onthrow = r[2] if len(r) > 2 else None
        ex.deadline = time.time() + budget
        f = m.funcs[fname]
        if ex.pv.check(st.pc, [], True) == z3.unsat:
            ex.obl.append(core.Oblig('vacuity', dem, 'precondition is satisfiable', 'failed'))
        for o in ex.run(st.copy(), m, f, args):
            ex.cur_fn[:] = [dem.split('(')[0]]
            if o.kind == UNW and onthrow is not None:
                onthrow(cx, o.st)
                cx.ob(o.st, not o.st.g('heap'), 'no heap block is leaked', 'leak')
                continue
            if o.kind == UNW:
                cx.ob(o.st, False, 'no C++ exception escapes', 'exception')
                continue
            if o.kind != RET:
                continue
            res.success += 1
            check(cx, o.st, o.val)
            cx.ob(o.st, not o.st.g('heap'), 'no heap block is leaked', 'leak')
            cx.ob(o.st, o.st.g('gil') is not False, 'the GIL state is unchanged', 'gil')
            ok_, rest = ledger_zero(ex, o.st, tok(o.st))
            cx.ob(o.st, bool(ok_), 'no reference is gained or lost: residue %r' % (rest if not ok_ else '',), 'refcount', weak=not ok_ and core.weak_tok(rest))
        if not res.success:
            ex.obl.append(core.Oblig('vacuity', dem, 'some execution succeeds', 'failed'))
    except DeadPath:
        res.status, res.why = 'unsupported', 'dead'
    except Unsupported as e:
        res.status, res.why = 'unsupported', str(e) + ' [' + ' > '.join(ex.cur_fn[-4:]) + ']'
    except PathBudget as e:
        res.status, res.why = 'budget', str(e)
    except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError, AssertionError) as e:
        res.status, res.why = 'unsupported', 'engine: %s: %s' % (type(e).__name__, e)
        if spec.DEBUG:
            traceback.print_exc()
    finally:
        Block.__init__ = old
    res.obl, res.fns, res.contracts = ex.obl, ex.fn_used, ex.contract_used
    res.time, res.queries, res.loops, res.solver = time.time() - t0, ex.pv.nq, ex.loops_done, ex.pv.time
    return res


def instances(m, u):
    """the functions of module m that unit u covers"""
    return [n for n in m.funcs if u.rx and u.rx.match(core.demangle(n))]


AL = ['ints/IntArrayList.cpp', 'ints/BigIntArrayList.cpp', 'objects/ObjectArrayList.cpp']


# ---- reversal and block copies -----------------------------------------------------------------------------
@unit('reverse', AL, r'void qReverse<(\d+)ul>\(void\*, unsigned long\)$', ('reverse',))
def u_qreverse(cx):
    es = int(cx.m.group(1))
    n = cx.int('n')
    p = cx.arr('array', es, n)
    return [p, n], lambda cx, st, v: cx.holds(st, p, n, lambda k: p.b.seq0.at(sub(sub(n, 1), k)), 'element k is the old element n-1-k')


@unit('reverse', AL, r'void simd::simdReverse<(.*)>\(\1\*, unsigned long\)$', ('reverse',))
def u_simdreverse(cx):
    es = {'int': 4, 'long long': 8, '_object*': 8}[cx.m.group(1)]
    n = cx.int('n')
    p = cx.arr('array', es, n, isp='*' in cx.m.group(1))
    return [p, n], lambda cx, st, v: cx.holds(st, p, n, lambda k: p.b.seq0.at(sub(sub(n, 1), k)), 'element k is the old element n-1-k')


@unit('memcpy', ['objects/ObjectArrayList.cpp'], r'fast_memcpy\(void\*, void const\*, unsigned long\)$', ('bulk', 'build'))
def u_fastmemcpy(cx):
    n = cx.int('n', 0, 1 << 46)
    d, s = cx.arr('dst', 1, n), cx.arr('src', 1, n)
    return [d, s, n], lambda cx, st, v: (cx.holds(st, d, n, lambda k: s.b.seq0.at(k), 'every byte is copied'),
                                         cx.holds(st, s, n, lambda k: s.b.seq0.at(k), 'the source is unchanged'))


@unit('memcpy', ['objects/ObjectArrayList.cpp'], r'void simd::(simdMemCpy|simdMemCpyAligned)<char>\(char\*, char\*, unsigned long\)$', ('bulk', 'build'))
def u_simdmemcpy(cx):
    n = cx.int('n', 0, 1 << 46)
    al = 64 if 'Aligned' in cx.m.group(1) else 1
    d, s = cx.arr('dst', 1, n, align=al), cx.arr('src', 1, n, align=al)
    return [s, d, n], lambda cx, st, v: (cx.holds(st, d, n, lambda k: s.b.seq0.at(k), 'every element is copied'),
                                         cx.holds(st, s, n, lambda k: s.b.seq0.at(k), 'the source is unchanged'))


# ---- sorting -------------------------------------------------------------------------------------------------
@unit('simdsort', ['utils/simd/BitonicSort.cpp'], r'simd::simdsort\(std::vector<(int|long long), .*>&, bool\)$', ('sort',))
def u_simdsort(cx):
    es = {'int': 4, 'long long': 8}[cx.m.group(1)]
    n = cx.int('n')
    b = Block('cells', 'vector')
    w = es * 8
    q = Base('a!vec%d' % b.bid, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    cx.st.m[b.bid] = {(0, 'len'): n, (0, 'cont'): q, (0, 'et'): (es, False, 64), (0, 'gen'): Gen()}
    rev = z3.Bool('reverse!%d' % T.uid())

    def same_at(cx, st, f, g):
        k = z3.Int('k!%d' % T.uid())
        s = st.copy()
        s.assume(And(k >= 0, lt(k, n)))
        return cx.ex.proves(s, eq(f(k), g(k)))

    def check(cx, st, v):
        d = st.m[b.bid]
        cx.ob(st, eq(d[(0, 'len')], n), 'the length is unchanged')
        c = d[(0, 'cont')]
        good = cx.ex.proves(st, le(n, 1)) and same_at(cx, st, c.at, q.at)
        for (s0, lo, m, desc, res, _) in st.g('sorts') or ():
            good = good or (s0 is q and is_c(lo) and lo == 0 and cx.ex.proves(st, eq(m, n)) and cx.ex.proves(st, rev if desc else Not(rev))
                            and same_at(cx, st, c.at, res.at))
        cx.ob(st, good, 'the elements are sorted in the requested order')

    def thrown(cx, st):
        d = st.m[b.bid]
        c = d[(0, 'cont')]
        cx.ob(st, eq(d[(0, 'len')], n), 'the length is unchanged')
        cx.ob(st, any(same_at(cx, st, c.at, lambda k: q.at(p.f(Z(k)))) for p in st.g('perms') or ()) or same_at(cx, st, c.at, q.at),
              'on failure the elements are a rearrangement of the old ones')
    return [P(b, 0), rev], check, thrown


# ---- reference counts ------------------------------------------------------------------------------------------
OBJ_SRC = ['ints/IntArrayList.cpp', 'ints/BigIntArrayList.cpp', 'ints/IntLinkedList.cpp', 'objects/ObjectArrayList.cpp', 'objects/ObjectLinkedList.cpp']


def u_count(cx, which):
    """one reference is added / removed; immortal objects (sign bit of the low word) are left alone, and the
    object is destroyed exactly when the count reaches zero"""
    r = cx.int('refcnt', -(1 << 63), (1 << 63) - 1)
    low = Z(r) % (1 << 32)
    immortal = low >= (1 << 31)
    cx.st.assume(Or(immortal, And(1 <= r, r < (1 << 31) - 1)))
    b = Block('cells', 'object')
    cx.st.m[b.bid] = {0: r}
    arg = P(b, 0)

    def check(cx, st, _):
        n = st.m[b.bid][0]
        d = 1 if 'INCREF' in which else -1
        cx.ob(st, If(immortal, eq(n, r), eq(n, add(r, d))), 'the count changes by one, unless the object is immortal', 'refcount')
        cx.ob(st, Iff(st.g('deallocs') == 1, And(Not(immortal), eq(add(r, d), 0))) if d < 0 else not st.g('deallocs'),
              'the object is destroyed exactly when the last reference goes', 'refcount')
    return [arg], check


for _w in ('PyFast_INCREF', 'PyFast_DECREF', 'PyFast_XDECREF'):
    unit('refcount', OBJ_SRC, r'void %s<.*>\(.*\)$' % _w, ('count',))(lambda cx, w=_w: u_count(cx, w))
