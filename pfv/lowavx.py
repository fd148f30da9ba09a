"""Contracts of the SIMDLowAVX512 module: a method named x performs exactly the C intrinsic _x of <immintrin.h> on the
operands its documentation lists (data/avx512.json, the C prototypes of SIMDLowAVX512.pyi).

The vendor header is a trusted dependency: its inline functions, the compiler builtins and all vector instructions are
uninterpreted functions of their operands (sort Bits).  A reference function `ref_x(T a0, ...) { return _x(a0, ...); }`
is generated from the prototype and compiled with the same flags; the post-condition of the method is that it writes,
exactly once, to its result operand the value the reference yields for the same operands, that it touches no other
memory, and that the memory-accessing intrinsics it performs are those of the reference, in the same order."""
import json
import os
from .raw import *
from .raw import U64
from .core import Fp, INTRIN
from .capi import isint
from . import raw as R
from .irparse import Ty

HERE = os.path.dirname(os.path.abspath(__file__))
PROTO = json.load(open(os.path.join(HERE, 'data', 'avx512.json')))
C = 'SIMDLowAVX512'
SOURCE = 'unsafe/SIMDLowAVX512.cpp'
REF = 'gen:avx512'
Bits = z3.DeclareSort('Bits')
SIZE = {'__m512i': 64, '__m512': 64, '__m512d': 64, '__m256i': 32, '__m256': 32, '__m256d': 32, '__m128i': 16, '__m128': 16, '__m128d': 16,
        '__mmask8': 1, '__mmask16': 2, '__mmask32': 4, '__mmask64': 8, 'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
        'unsigned int': 4, 'unsigned': 4, 'long long': 8, 'unsigned long long': 8, '__int64': 8, 'float': 4, 'double': 8, 'void': 0}
INTS = {'int': (4, True), 'const int': (4, True), 'short': (2, True), 'char': (1, True), 'long long': (8, True), 'unsigned': (4, False),
        'unsigned int': (4, False), 'unsigned long long': (8, False)}
dval = z3.Function('dval', z3.IntSort(), Bits)      # the double of a float object


def ref_source():
    out = ['#include <immintrin.h>']
    for n, (c, a, r, st) in PROTO.items():
        if st == 'ok':
            out.append('extern "C" %s ref_%s(%s) { return %s(%s); }' % (r, n, ', '.join('%s a%d' % (t, i) for i, t in enumerate(a)), c,
                                                                        ', '.join('a%d' % i for i in range(len(a)))))
    return '\n'.join(out) + '\n'


class Q:
    """a bit pattern: an uninterpreted term; rd = (block, offset, size) when it was read from an operand"""
    __slots__ = ('e', 'rd')

    def __init__(self, e, rd=None):
        self.e, self.rd = e, rd

    def __repr__(self):
        return 'bits(%s)' % self.e


# an undefined bit pattern: any value is acceptable, so the same choice may be made on both sides
UND = z3.Const('undef', Bits)


def zq(v):
    """operand -> z3 term"""
    if isinstance(v, Q):
        return v.e
    if isinstance(v, z3.ExprRef) and v.sort() == Bits:
        return v
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef):
        return v
    if isinstance(v, V):
        if all(isinstance(x, (int, bool)) for x in v.l):
            return z3.Const('const!v%d!%s' % (v.w, ','.join(str(int(x)) for x in v.l)), Bits)
        if all(x is core.UNDEF for x in v.l):
            return UND
        return uf('vec%d' % v.w, *[UND if x is core.UNDEF else zq(x) for x in v.l])
    if isinstance(v, Fp):
        return z3.Const('const!%s' % v.t, Bits)
    if v is core.UNDEF:
        return UND
    raise Unsupported('bit pattern of %r' % (v,))


def uf(key, *args):
    f = z3.Function('%s/%s' % (key, ''.join('q' if a.sort() == Bits else 'i' for a in args)), *([a.sort() for a in args] + [Bits]))
    return f(*args)


def isq(v):
    return isinstance(v, (Q, V, Fp))


def vecty(t):
    return t is not None and t.k in ('vec', 'float', 'double', 'half', 'fp128', 'x86_fp80', 'bfloat')


class LowExec(Exec):
    """vector operations and intrinsics are uninterpreted; only the data flow between operands and results is tracked"""

    def __init__(self, prog, con, pv=None):
        super().__init__(prog, con, pv)
        self.same = {}

    def simple(self, fr, st, ins):
        op = ins.op
        if op in ('alloca', 'gep', 'landingpad', 'extractvalue', 'insertvalue', 'nop'):
            return super().simple(fr, st, ins)
        rt = fr.mod.resolve(ins.ty) if ins.ty is not None else None
        vs, names = [], []
        if op in ('bin', 'icmp', 'fcmp', 'cast', 'fneg', 'freeze'):
            pairs = [(ins.ty, ins.a)] + ([(ins.ty, ins.b)] if op in ('bin', 'icmp', 'fcmp') else [])
        elif op == 'select':
            pairs = [(ins.x, ins.a), (ins.ty, ins.b), (ins.ty, ins.c)]
        elif op in ('extractelement', 'insertelement', 'shufflevector'):
            pairs = None
        else:
            return super().simple(fr, st, ins)
        if pairs is None:
            if op == 'shufflevector':
                pairs = [(ins.ty, ins.a), (ins.ty, ins.b)]
                mask = repr(ins.c)
                return Q(uf('shufflevector %r %s %s' % (rt, ins.x, mask), *[zq(self.val(st, fr, t, x)) for t, x in pairs]))
            i64 = Ty('int', 64)
            if op == 'extractelement':
                return Q(uf('extractelement %r' % (rt,), zq(self.val(st, fr, ins.ty, ins.a)), zq(self.val(st, fr, i64, ins.b))))
            return Q(uf('insertelement %r' % (rt,), zq(self.val(st, fr, ins.ty, ins.a)), zq(self.val(st, fr, rt.b, ins.b)),
                        zq(self.val(st, fr, i64, ins.c))))
        vs = [self.val(st, fr, t, x) for t, x in pairs]
        d = fr.mod.resolve(ins.b) if op == 'cast' else None
        if not (any(isq(v) for v in vs) or vecty(rt) or vecty(d)):
            return super().simple(fr, st, ins)
        if op == 'freeze':
            return vs[0]
        if op == 'cast':
            v = vs[0]
            if ins.c == 'bitcast':
                return v if isinstance(v, Q) else Q(uf('bitcast %r %r' % (rt, d), zq(v)))
            if ins.c in ('inttoptr', 'ptrtoint') and isinstance(v, Q):
                return v
            if ins.c == 'trunc' and isinstance(v, Q) and v.rd and d.k == 'int' and d.a in (8, 16, 32):
                b, o, _ = v.rd
                return rd(b, o, d.a // 8)
            return Q(uf('%s %r %r' % (ins.c, rt, d), zq(v)))
        if op == 'select' and not isq(vs[0]) and (vs[0] is True or vs[0] is False):
            return vs[1] if vs[0] else vs[2]
        key = '%s %s' % (op, ins.c) if op in ('bin', 'icmp', 'fcmp') else op
        return Q(uf('%s %r' % (key, rt), *[zq(v) for v in vs]))

    def load(self, st, fr, ty, p):
        rt = fr.mod.resolve(ty)
        if isinstance(p, Q):
            v = st.g('memver') or 0
            e = uf('load %r @%d' % (rt, v), p.e)
            R.event(st, 'load', repr(rt), p.e)
            return Q(e)
        v = super().load(st, fr, ty, p)
        if v is core.UNDEF:
            raise Unsupported('uninitialised value')
        return v

    def store(self, st, fr, ty, v, p):
        if isinstance(p, Q):
            R.event(st, 'store', repr(fr.mod.resolve(ty)), p.e, zq(v))
            st.setg('memver', (st.g('memver') or 0) + 1)
            return
        return super().store(st, fr, ty, v, p)

    def opaque(self, st, key, rt, args):
        """an intrinsic: a function of its operands; with memory operands also of the memory, and an event"""
        if any(isinstance(a, (P, O)) or a is NULL for a in args):
            raise Unsupported('intrinsic with an address that is no operand: %s' % key)
        void = rt is None or rt.k == 'void'
        zs = [zq(a) for a in args]
        if void or any(k == 'ptr' for k in self.akinds):
            R.event(st, key, *zs)
            e = None if void else Q(uf('%s @%d' % (key, st.g('memver') or 0), *zs))
            st.setg('memver', (st.g('memver') or 0) + 1)
            return e
        return Q(uf(key, *zs))

    def do_call(self, fr, st, ins):
        cv = ins.a
        if cv[0] == 'g':
            name = cv[1][1:].strip('"')
            rt = fr.mod.resolve(ins.ty) if ins.ty is not None else None
            if name.startswith('llvm.'):
                vals = [self.val(st, fr, t, v) for t, v in ins.b]
                ks = [fr.mod.resolve(t).k for t, _ in ins.b]
                if vecty(rt) or any(isq(v) for v in vals) or any(k in ('vec', 'float', 'double') for k in ks):
                    self.akinds = ks
                    r = self.opaque(st, name, rt, vals)
                    if ins.res:
                        st.regs[ins.res] = r
                    return None
            elif self.intrinsic(fr.mod, name):
                vals = [self.val(st, fr, t, v) for t, v in ins.b]
                self.akinds = [fr.mod.resolve(t).k for t, _ in ins.b]
                b = core.demangle(name).split('(')[0]
                self.contract_used[b] = self.contract_used.get(b, 0) + 1
                r = self.opaque(st, name, rt, vals)
                return [Outcome(st, RET, r)]
        return super().do_call(fr, st, ins)

    def intrinsic(self, mod, name):
        """an inline function of the vendor header, the same text in both translation units"""
        k = self.same.get(name)
        if k is None:
            b = core.demangle(name).split('(')[0]
            k = bool(re.match(r'_(?!Py|_)[a-z]\w*$', b)) and name in mod.funcs
            if k:
                a, c = (m.funcs.get(name) for m in (self.prog.mods[0], self.refmod))
                k = a is not None and c is not None and [norm(x) for x in a.lines] == [norm(x) for x in c.lines]
            self.same[name] = k
        return k


def norm(l):
    return re.sub(r'#\d+|![\w.]+', '', l if isinstance(l, str) else repr(l)).strip().rstrip(',')


def rd(b, off, size):
    return Q(z3.Const('rd!%s!%d!%d' % (b.name, off, size), Bits), (b, off, size))


def bounds(ex, st, fr, rt, p, what):
    n = fr.mod.size(rt)
    if not is_c(p.off):
        raise Unsupported('symbolic offset into an operand')
    if not ex.oblige(st, 'memory', 0 <= p.off and p.off + n <= p.b.size, '%s stays inside the operand' % what):
        raise DeadPath()
    return n


def low_load(ex, st, fr, rt, p):
    n = bounds(ex, st, fr, rt, p, 'read')
    ex.oblige(st, 'functional', not st.g('lw'), 'operands are read before the result is stored', assume=False)
    return rd(p.b, p.off, n)


def low_store(ex, st, fr, rt, v, p):
    n = bounds(ex, st, fr, rt, p, 'write')
    st.setg('lw', (st.g('lw') or ()) + ((p.b, p.off, n, zq(v)),))


core.MEM_LOAD['low'] = low_load
core.MEM_STORE['low'] = low_store


@R.raw('PyFloat_AS_DOUBLE')
def _asdouble(ex, st, fr, a, name):
    t = Z(capi.oid(ex, a[0], name))
    if not isinstance(ex, LowExec):
        raise Unsupported(name)
    ex.oblige(st, 'memory', bool(nrm(t).get_id() in (st.g('floats') or ())), 'the fields of a float are read from an object known to be a float')
    return Q(dval(t))


def same(cx, st, a, b):
    """EUF + linear arithmetic: are the two terms equal?"""
    a, b = zq(a), zq(b)
    if a.sort() != b.sort():
        return False
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 5000)
    names = {n for e in (a, b) for n in core.consts_of(e)}
    s.add(*[f for f in st.pc if not isinstance(f, (core.Forall, bool))])
    for n in names:
        lo, hi = T.RANGE.get(n, (None, None))
        x = z3.Int(n)
        if lo is not None:
            s.add(x >= lo)
        if hi is not None:
            s.add(x <= hi)
    s.add(a != b)
    r = s.check()
    cx.ex.pv.nq += 1
    cx.ex.pv.time += time.time() - t0
    return r == z3.unsat


def operands(cx, name):
    """the argument objects, and for each parameter the value the reference gets"""
    c, ps, ret, st_ = PROTO[name]
    st = cx.st
    objs, vals, rb = [], [], None

    def block(n, size):
        b = Block('low', n, size=size)
        t = cx.addr(n, b)
        st.assume(isint(t))
        objs.append(t)
        return b
    if ret != 'void':
        rb = block('result', SIZE[ret])
    for i, t in enumerate(ps):
        if t in INTS:
            w, sg = INTS[t]
            lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if sg else (0, (1 << 8 * w) - 1)
            o, x = cx.num('a%d' % i, lo, hi)
            st.assume(And(isint(o), le(lo, x), le(x, hi)))
            objs.append(o)
            vals.append(x if sg else If(lt(x, 1 << (8 * w - 1)), x, sub(x, 1 << 8 * w)))
        elif t in ('float', 'double'):
            o = cx.obj('a%d' % i)
            st.setg('floats', (st.g('floats') or frozenset()) | {nrm(Z(o)).get_id()})
            cx.keep = getattr(cx, 'keep', []) + [nrm(Z(o))]
            objs.append(o)
            vals.append(Q(dval(o)) if t == 'double' else Q(uf('fptrunc double float', dval(o))))
        else:
            n = 8 if '*' in t else SIZE.get(t, 1)
            b = block('a%d' % i, n)
            vals.append(rd(b, 0, n))
    return objs, vals, rb


def exactly(name):
    c, ps, ret, _ = PROTO[name]

    def f(cx):
        objs, vals, rb = operands(cx, name)
        cx.valid = []

        def post(st, v):
            ex = cx.ex
            cx.none(st, v)
            ref = cx.ex.refmod.funcs.get('ref_' + name)
            if ref is None:
                raise Unsupported('no reference for %s' % name)
            s = cx.st.copy()
            s.setg('events', None)
            s.setg('memver', None)
            outs = [o for o in ex.run(s, ex.refmod, ref, vals) if o.kind == RET]
            ex.cur_fn[:] = [name]
            if len(outs) != 1:
                raise Unsupported('reference of %s has %d results' % (name, len(outs)))
            rs, rv = outs[0].st, outs[0].val
            w = st.g('lw') or ()
            if rb is None:
                cx.ob(st, not w, 'no operand is written')
            else:
                cx.ob(st, len(w) == 1 and w[0][0] is rb and w[0][1] == 0 and w[0][2] == SIZE[ret], 'the result, and nothing else, is written, once')
                if len(w) == 1:
                    cx.ob(st, same(cx, st, w[0][3], rv),
                          'the result is what %s yields for the operands' % c, weak=NATIVE)
            e, r = st.g('events') or (), rs.g('events') or ()
            good = len(e) == len(r) and all(len(x) == len(y) and all(p == q if isinstance(p, str) or isinstance(q, str) else same(cx, st, p, q) for p, q in zip(x, y))
                                            for x, y in zip(e, r))
            cx.ob(st, good, 'the memory-accessing operations are those of %s' % c, weak=NATIVE)
        return objs, post
    return f


def has_native():
    try:
        return ' avx512f ' in open('/proc/cpuinfo').read().replace('\n', ' ')
    except OSError:
        return False


NATIVE = has_native()


def wrongcount(name):
    c, ps, ret, _ = PROTO[name]
    k = len(ps) + (ret != 'void')

    def f(cx):
        cx.never = 'a wrong number of arguments is rejected'
        if not cx.flags & 128:
            return [cx.obj('a%d' % i) for i in range(k + 1)], lambda st, v: None
        cx.nargs = cx.int('nargs', 0, 2 ** 31)
        cx.st.assume(Not(eq(cx.nargs, k)))
        cx.onfail = lambda st: (cx.ob(st, st.g('err') == 'PyExc_TypeError', 'the exception is TypeError'), cx.ob(st, not st.g('lw'), 'nothing is written'), cx.events(st))
        return [], lambda st, v: None
    return f


def raises(name, k):
    def f(cx):
        cx.never = 'the method is not supported'
        objs = []
        if k is None and cx.flags & 128:
            cx.nargs = cx.int('nargs', 0, 2 ** 31)
        else:
            objs = operands(cx, name)[0]
        cx.onfail = lambda st: (cx.ob(st, st.g('err') == 'PyExc_NotImplementedError', 'the exception is NotImplementedError'), cx.ob(st, not st.g('lw'), 'nothing is written'),
                                cx.events(st))
        return objs, lambda st, v: None
    return f


def scenarios():
    for n, (c, ps, ret, how) in PROTO.items():
        if how == 'ok':
            yield n, 'exactly', exactly(n)
            yield n, 'nargs', wrongcount(n)
        elif how == 'immediate':
            yield n, 'unsupported', raises(n, len(ps))
            yield n, 'nargs', wrongcount(n)
        else:
            yield n, 'unsupported', raises(n, None)


def run_all(loader, names, budget=60):
    """every scenario of the given methods -> results"""
    ref = loader.mod(REF)
    out = []
    for n, label, f in scenarios():
        if n not in names:
            continue
        u = MUnit(SOURCE, C, n, f, ('lowavx',), label)
        u.exec = LowExec
        u.ref = ref
        out.append((u, run_method(loader, u, budget)))
    return out


def ptr_source(names):
    """the reference with every operand passed by address, for the native probe"""
    out = ['#include <immintrin.h>']
    for n in names:
        c, a, r, st = PROTO[n]
        if st == 'ok':
            k = int(r != 'void')
            out.append('extern "C" void refp_%s(void **a) { %s%s(%s); }' % (n, '*(%s*)a[0] = ' % r if k else '', c,
                                                                           ', '.join('*(%s*)a[%d]' % (t.replace('const int', 'int'), i + k) for i, t in enumerate(a))))
    return '\n'.join(out) + '\n'
