"""The low-level modules (Unsafe, SIMD): methods that work on addresses given as integers.  An address argument is an
int object whose value is the address of a block of caller-owned memory; the block has exactly the size the call may
touch, so an access outside it is a failed memory obligation."""
import re
import time
import traceback
import z3
from .world import *
from .core import PathBudget, V
from . import core, spec, units
from .spec import Result, ledger_zero
from .units import UCtx, Unit, UNITS
from . import terms as T
from .stl import arrinfo

RAW = {}
U64 = 1 << 64


def raw(*names):
    def d(f):
        for n in names:
            RAW[n] = f
        return f
    return d


class RawContracts(Contracts):
    def __call__(self, mod, name, dem):
        for rx, f in self.local:
            if rx.match(dem):
                return f
        base = dem.split('(')[0] if not dem.startswith('void ') else dem[5:].split('(')[0]
        f = RAW.get(dem) or RAW.get(base)
        if f is not None:
            def call(ex, st, fr, args, ins, d):
                if st.g('gil') is False and base.startswith('Py'):
                    ex.oblige(st, 'gil', False, '%s called without the GIL' % base)
                return f(ex, st, fr, args, base)
            return call
        g = super().__call__(mod, name, dem)
        if g is not None and TOLERANT.match(base):
            # a conversion does not look at an exception that an earlier conversion left pending
            def tolerant(ex, st, fr, args, ins, d):
                f = API[base][0]
                if st.g('gil') is False:
                    ex.oblige(st, 'gil', False, '%s called without the GIL' % base)
                return f(ex, st, fr, args, base)
            return tolerant if base in API else g
        return g


TOLERANT = re.compile(r'_?PyLong_As\w+$|PyFloat_AsDouble$')


class ModWorld(World):
    """a module with a single type: its method table, as the module initialisation leaves it"""

    def __init__(self, loader, src, cn):
        self.mod = loader.mod(src)
        self.prog = Program([self.mod])
        self.con = RawContracts()
        self.gmem, self.ops, self.types = {}, {}, {}
        ex = Exec(self.prog, self.con)
        st = State()
        f = self.mod.funcs.get('PyInit_' + cn)
        if f is None:
            raise Unsupported('no PyInit_%s' % cn)
        ex.added = []
        outs = [o for o in ex.run(st, self.mod, f, []) if o.kind == RET and o.st.g('err') is None]
        if not outs:
            raise Unsupported('module initialisation of %s' % cn)
        st = outs[0].st
        for nm, p in ex.added:
            if isinstance(p, P) and p.b.kind == 'global':
                self.types[nm] = p.b
        self.gmem = {k: v for k, v in st.m.items() if k != 'G'}
        if cn not in self.types:
            raise Unsupported('type of %s not registered' % cn)
        self.slots(ex, st, self.mod, cn, self.types[cn])


# ---- integers as addresses ----------------------------------------------------------------------------------------
def signed(x):
    """the 64-bit pattern x (0 <= x < 2^64) as the executor keeps it"""
    if is_c(x):
        return x - U64 if x >= U64 // 2 else x
    return If(lt(x, U64 // 2), x, sub(x, U64))


def pv(st, t):
    return (st.g('pv') or {}).get(nrm(t).get_id()) if not isinstance(t, int) else None


def setpv(st, t, p):
    d = dict(st.g('pv') or {})
    d[nrm(t).get_id()] = (t, p)
    st.setg('pv', d)


def conv(ex, st, v, name, good, errof, none):
    """convert an int object; `good` is the condition of success"""
    t = Z(capi.oid(ex, v, name))
    p = pv(st, t)
    x = ival(t)
    g, b = ex.fork(st, good(t, x, p is not None))
    outs = []
    if g is not None:
        outs.append(ok(g, p[1] if p is not None else signed(x) if not is_c(none) or none == -1 else x))
    if b is not None:
        tb, ob = ex.fork(b, Not(isint(t)))
        for s, e in ((tb, 'PyExc_TypeError'), (ob, 'PyExc_OverflowError')):
            if s is not None:
                seterr(s, e)
                outs.append(ok(s, none))
    return outs


@raw('PyLong_AsVoidPtr')
def _asvoid(ex, st, fr, a, name):
    capi.nonnull(ex, st, a[0], name)
    outs = conv(ex, st, a[0], name, lambda t, x, p: And(isint(t), le(-U64 // 2, x), lt(x, U64)), None, NULL)
    for o in outs:
        if o.st.g('err') is None and not isinstance(o.val, (P, O)) and o.val is not NULL:
            o.val = HOOKS['rawptr'](ex, o.st, o.val)
    return outs


@raw('PyLong_AsSize_t', 'PyLong_AsUnsignedLongLong', 'PyLong_AsUnsignedLong')
def _asusz(ex, st, fr, a, name):
    capi.nonnull(ex, st, a[0], name)
    return conv(ex, st, a[0], name, lambda t, x, p: And(isint(t), le(0, x), lt(x, U64)), None, -1)


@raw('PyLong_AsUnsignedLongLongMask', 'PyLong_AsUnsignedLongMask')
def _asmask(ex, st, fr, a, name):
    t = Z(capi.oid(ex, a[0], name))
    if pv(st, t):
        return conv(ex, st, a[0], name, lambda t, x, p: isint(t), None, -1)
    g, b = ex.fork(st, isidx(t))
    outs = []
    if g is not None:
        outs.append(ok(g, ex.wrap(g, ival(t), 64)))
    if b is not None:
        seterr(b, 'PyExc_TypeError')
        outs.append(ok(b, -1))
    return outs


@raw('PyLong_AsLongLong', 'PyLong_AsLong', 'PyLong_AsSsize_t')
def _aslong(ex, st, fr, a, name):
    capi.nonnull(ex, st, a[0], name)
    t = capi.oid(ex, a[0], name)
    if pv(st, t):
        # an address: below 2**63, as every user-space address is
        return conv(ex, st, a[0], name, lambda t, x, p: isint(t), None, -1)
    return API[name][0](ex, st, fr, a, name)


@raw('PyLong_FromSize_t', 'PyLong_FromVoidPtr', 'PyLong_FromUnsignedLongLong', 'PyLong_FromUnsignedLong', 'PyLong_FromLongLong',
     'PyLong_FromSsize_t', 'PyLong_FromLong')
def _fromptr(ex, st, fr, a, name):
    v = a[0]
    if isinstance(v, (P, O, It)) or v is NULL and name == 'PyLong_FromVoidPtr':
        if v is NULL:
            return capi.mkint(ex, st, 0)
        if name in ('PyLong_FromLong',) and False:
            raise Unsupported('address through %s' % name)
        f = fail(st, NULL, 'PyExc_MemoryError', 'PyLong allocation')
        t = ex.fresh(st, 'o!addr', 10 ** 6, None)
        st.assume(isint(t))
        own(ex, st, O(t), 1)
        setpv(st, t, v)
        return [ok(st, O(t)), f]
    if 'Unsigned' in name or 'Size_t' in name or 'Void' in name:
        return capi.mkint(ex, st, ex.uns(st, ex.asint(v, name), 64))
    return capi.mkint(ex, st, ex.asint(v, name))


def _rawptr(ex, st, v):
    m = st.g('memat')
    if m and not is_c(v):
        for t, p in m:
            if T.same(t, v):
                return p
    if is_c(v):
        # a constant such as the error value -1: no object lives there
        return P(Block('dangling', 'address %d' % v), 0)
    raise Unsupported('integer used as address')


HOOKS['rawptr'] = _rawptr


@raw('PyArg_ParseTuple')
def _parsetuple(ex, st, fr, a, name):
    fmt = capi.cstr(ex, a[1]).split(':')[0].split(';')[0]
    args = a[0]
    if not (isinstance(args, P) and args.b.kind == 'argtuple') or not set(fmt) <= set('KkLlniIO'):
        return API[name][0](ex, st, fr, a, name)
    items = args.b.items
    if len(items) != len(fmt):
        seterr(st, 'PyExc_TypeError')
        return [ok(st, 0)]
    live, outs = [st], []
    for c, v, dst in zip(fmt, items, a[2:]):
        nxt = []
        for s in live:
            if c == 'O':
                ex.store(s, fr, PTR, v, dst)
                nxt.append(s)
                continue
            cv = {'K': _asmask, 'k': _asmask}.get(c)
            if cv is None:
                w = {'L': 64, 'l': 64, 'n': 64, 'i': 32, 'I': 32}[c]
                r = _aslong(ex, s, fr, [v], 'PyLong_AsLongLong') if w == 64 else capi.as_c(ex, s, v, capi.INT_MIN, capi.INT_MAX, name)
            else:
                w = 64
                r = cv(ex, s, fr, [v], 'PyLong_AsUnsignedLongLongMask')
            for o in r:
                if o.st.g('err') is None:
                    if isinstance(o.val, (P, O)):
                        ex.store(o.st, fr, PTR, o.val, dst)
                    else:
                        ex.store(o.st, fr, Ty('int', w), o.val, dst)
                    nxt.append(o.st)
                else:
                    outs.append(ok(o.st, 0))
        live = nxt
    return outs + [ok(s, 1) for s in live]


# ---- the C library -------------------------------------------------------------------------------------------------
def heapblk(ex, st, n, cont, how, align=16):
    b = Block('arr', 'heap', es=1, isp=False, align=align)
    b.how = how
    st.m[b.bid] = {'size': n, 'cont': cont}
    st.assume(And(le(0, n), le(n, 2 ** 46)))
    st.setg('heap', (st.g('heap') or ()) + (b.bid,))
    return P(b, 0)


@raw('malloc')
def _malloc(ex, st, fr, a, name):
    n = ex.uns(st, ex.asint(a[0]), 64)
    f = fail(st, NULL, None, 'out of memory')
    return [ok(st, heapblk(ex, st, n, Base('uninit!%d' % T.uid(), -128, 127), 'malloc')), f]


@raw('calloc')
def _calloc(ex, st, fr, a, name):
    x, y = ex.uns(st, ex.asint(a[0]), 64), ex.uns(st, ex.asint(a[1]), 64)
    f = fail(st, NULL, None, 'out of memory')
    p = heapblk(ex, st, mul(x, y), Fn(lambda k: 0, 'zeros'), 'malloc')
    p.b.factors = (x, y)
    return [ok(st, p), f]


@raw('aligned_alloc')
def _aalloc(ex, st, fr, a, name):
    al = ex.uns(st, ex.asint(a[0]), 64)
    n = ex.uns(st, ex.asint(a[1]), 64)
    f = fail(st, NULL, None, 'out of memory or an alignment that is not a power of two')
    p = heapblk(ex, st, n, Base('uninit!%d' % T.uid(), -128, 127), 'malloc')
    p.b.alignto = al
    return [ok(st, p), f]


@raw('posix_memalign')
def _pmem(ex, st, fr, a, name):
    al = ex.uns(st, ex.asint(a[1]), 64)
    n = ex.uns(st, ex.asint(a[2]), 64)
    f = st.copy()
    f.setg('apifail', 'out of memory')
    p = heapblk(ex, st, n, Base('uninit!%d' % T.uid(), -128, 127), 'malloc')
    p.b.alignto = al
    ex.store(st, fr, PTR, p, a[0])
    return [ok(st, 0), ok(f, 12)]


@raw('free')
def _free(ex, st, fr, a, name):
    p = a[0]
    if p is NULL:
        return None
    if isinstance(p, P) and p.b.kind == 'arr':
        h = st.g('heap') or ()
        if p.b.bid not in h or not (is_c(p.off) and p.off == 0):
            ex.oblige(st, 'memory', False, 'double free or free of an interior pointer')
            raise DeadPath()
        if getattr(p.b, 'how', 'malloc') != 'malloc':
            ex.oblige(st, 'memory', False, 'free of a block that %s allocated' % p.b.how)
        st.setg('heap', tuple(x for x in h if x != p.b.bid))
        st.m.pop(p.b.bid, None)
        return None
    raise Unsupported('free of %r' % (p,))


@raw('operator new[]', 'operator new')
def _new(ex, st, fr, a, name):
    f = st.copy()
    n = ex.uns(st, ex.asint(a[0]), 64)
    p = heapblk(ex, st, n, Base('uninit!%d' % T.uid(), -128, 127), name)
    p.b.how = name
    return [ok(st, p), stl.throw(ex, f, 'bad_alloc', 'out of memory')]


@raw('operator delete[]', 'operator delete')
def _delete(ex, st, fr, a, name):
    p = a[0]
    if isinstance(p, P) and p.b.kind == 'arr' and p.b.bid in (st.g('heap') or ()) and is_c(p.off) and p.off == 0:
        if p.b.how != name.replace('delete', 'new'):
            ex.oblige(st, 'memory', False, '%s of a block that %s allocated' % (name, p.b.how))
        st.setg('heap', tuple(x for x in st.g('heap') if x != p.b.bid))
        st.m.pop(p.b.bid, None)
        return None
    if p is NULL:
        return None
    ex.oblige(st, 'memory', False, 'release of something that is no live block')
    raise DeadPath()


@raw('realloc')
def _realloc(ex, st, fr, a, name):
    p, n = a[0], ex.uns(st, ex.asint(a[1]), 64)
    if p is NULL:
        return _malloc(ex, st, fr, [a[1]], name)
    if not (isinstance(p, P) and p.b.kind == 'arr' and is_c(p.off) and p.off == 0 and p.b.bid in (st.g('heap') or ())):
        ex.oblige(st, 'memory', False, 'realloc of something that is no live block')
        raise DeadPath()
    f = fail(st, NULL, None, 'out of memory')
    s0, c0 = st.get(p.b.bid, 'size'), st.get(p.b.bid, 'cont')
    u = Base('uninit!%d' % T.uid(), -128, 127)
    st.setg('heap', tuple(x for x in st.g('heap') if x != p.b.bid))
    st.m.pop(p.b.bid, None)
    q = heapblk(ex, st, n, Pw(u, 0, If(lt(s0, n), s0, n), lambda k: c0.at(k)), 'malloc')
    q.b.prev = p.b.bid
    return [ok(st, q), f]


def event(st, *e):
    st.setg('events', (st.g('events') or ()) + (e,))


@raw('fputs', 'std::fputs')
def _fputs(ex, st, fr, a, name):
    event(st, 'fputs', a[0], a[1])
    return ex.fresh(st, 'fputs', -1, 2 ** 31 - 1)


@raw('fflush', 'std::fflush')
def _fflush(ex, st, fr, a, name):
    event(st, 'fflush', a[0])
    return ex.fresh(st, 'fflush', -1, 0)


@raw('feof', 'ferror')
def _feof(ex, st, fr, a, name):
    if name == 'feof' and st.g('eof') is not None:
        return 1 if st.g('eof') == 'eof' else 0
    if name == 'ferror' and st.g('eof') is not None:
        return 1 if st.g('eof') == 'error' else 0
    return ex.fresh(st, name, 0, 1)


@raw('fgets', 'std::fgets')
def _fgets(ex, st, fr, a, name):
    n = ex.asint(a[1])
    p = a[0]
    if not (isinstance(p, P) and p.b.kind == 'arr'):
        raise Unsupported('fgets into %r' % (p,))
    d = arrinfo(ex, st, p.b, 1, False)
    ex.oblige(st, 'memory', And(lt(0, n), le(0, p.off), le(add(p.off, n), mul(d.n, d.es))), 'fgets stays inside its buffer')
    event(st, 'fgets', p, n, a[2])
    e, x = st.copy(), st.copy()
    e.setg('eof', 'eof')
    x.setg('eof', 'error')
    x.setg('apifail', 'read error')
    st.setg('line', (p.b.bid, p.off))
    outs = [ok(st, p), ok(e, NULL), ok(x, NULL)]
    # glibc also returns NULL, with neither indicator set, when there is only room for the terminator
    z, _ = ex.fork(st.copy(), eq(n, 1))
    if z is not None:
        z.setg('eof', 'short')
        z.setg('line', None)
        outs.append(ok(z, NULL))
    return outs


ustr = func('ustr', 1, 10 ** 6, None)       # the string object with the text of line number k
utf8ok = func('utf8ok', 1, sort=BOOL)


def mkstr(ex, st, p, name):
    ln = st.g('line')
    f = fail(st, NULL, 'PyExc_MemoryError', 'string allocation')
    if isinstance(p, P) and p.b.kind == 'global':
        t = func('lit!%d' % len(capi.cstr(ex, p)), 1, 10 ** 6, None)(Z(0)) if capi.cstr(ex, p) else ustr(Z(0))
        own(ex, st, O(t), 1)
        return [ok(st, O(t)), f]
    if not (isinstance(p, P) and ln == (p.b.bid, p.off)):
        raise Unsupported('%s of %r' % (name, p))
    g, b = ex.fork(st, utf8ok(Z(1)))
    outs = [f]
    if g is not None:
        own(ex, g, O(ustr(Z(1))), 1)
        outs.append(ok(g, O(ustr(Z(1)))))
    if b is not None:
        seterr(b, 'PyExc_UnicodeDecodeError')
        b.setg('apifail', 'the line is not UTF-8')
        outs.append(ok(b, NULL))
    return outs


@raw('Py_BuildValue')
def _build(ex, st, fr, a, name):
    f = capi.cstr(ex, a[0])
    if f in ('s', 'z', 'U'):
        return mkstr(ex, st, a[1], name)
    raise Unsupported('Py_BuildValue %s' % f)


@raw('PyUnicode_FromString')
def _fromstring(ex, st, fr, a, name):
    return mkstr(ex, st, a[0], name)


@raw('PyUnicode_AsUTF8')
def _asutf8(ex, st, fr, a, name):
    t = capi.oid(ex, a[0], name)
    f = fail(st, NULL, 'any', 'the text has no UTF-8 form')
    b = Block('utf8', 'utf8', of=t)
    return [ok(st, P(b, 0)), f]


def bytesblk(ex, st, v, name):
    t = Z(capi.oid(ex, v, name))
    b = (st.g('bytesof') or {}).get(nrm(t).get_id())
    if b is None:
        raise Unsupported('%s of %r' % (name, v))
    return t, b


@raw('PyBytes_AsString', 'PyBytes_AS_STRING')
def _bytes(ex, st, fr, a, name):
    t, b = bytesblk(ex, st, a[0], name)
    isb = capi.feat(typ(t), z3.IntVal(capi.BYTES_BIT))
    if name.isupper():
        return P(b, 0)
    g, x = ex.fork(st, isb)
    outs = []
    if g is not None:
        outs.append(ok(g, P(b, 0)))
    if x is not None:
        seterr(x, 'PyExc_TypeError')
        outs.append(ok(x, NULL))
    return outs


@raw('PyBytes_Size', 'PyBytes_GET_SIZE')
def _bsize(ex, st, fr, a, name):
    t, b = bytesblk(ex, st, a[0], name)
    isb = capi.feat(typ(t), z3.IntVal(capi.BYTES_BIT))
    g, x = ex.fork(st, isb)
    outs = []
    if g is not None:
        outs.append(ok(g, g.get(b.bid, 'size')))
    if x is not None:
        seterr(x, 'PyExc_TypeError')
        outs.append(ok(x, -1))
    return outs


@raw('PyBytes_FromStringAndSize')
def _mkbytes(ex, st, fr, a, name):
    p, n = a[0], ex.asint(a[1])
    g, x = ex.fork(st, le(0, n))
    outs = []
    if x is not None:
        seterr(x, 'PyExc_SystemError')
        outs.append(ok(x, NULL))
    if g is not None:
        outs.append(fail(g, NULL, 'PyExc_MemoryError', 'bytes allocation'))
        t = ex.fresh(g, 'o!bytes', 10 ** 6, None)
        b = Block('arr', 'bytes', es=1, isp=False, align=16)
        if p is NULL:
            g.m[b.bid] = {'size': n, 'cont': Base('uninit!%d' % T.uid(), -128, 127)}
        else:
            if not (isinstance(p, P) and p.b.kind == 'arr'):
                raise Unsupported('bytes of %r' % (p,))
            d = arrinfo(ex, g, p.b, 1, False)
            ex.oblige(g, 'memory', And(le(0, p.off), le(add(p.off, n), d.n)), 'the bytes object is filled from inside the block')
            src, off = d.seq, p.off
            g.m[b.bid] = {'size': n, 'cont': Fn(lambda k: src.at(add(off, k)))}
        m = dict(g.g('bytesof') or {})
        m[nrm(t).get_id()] = b
        g.setg('bytesof', m)
        g.assume(capi.feat(typ(t), z3.IntVal(capi.BYTES_BIT)))
        own(ex, g, O(t), 1)
        outs.append(ok(g, O(t)))
    return outs


refcnt = func('refcnt', 1, 1, 2 ** 62)


@raw('Py_REFCNT')
def _refcnt(ex, st, fr, a, name):
    return refcnt(Z(capi.oid(ex, a[0], name)))


@raw('Py_IncRef', 'Py_INCREF', 'PyFast_INCREF', 'Py_DecRef', 'Py_DECREF', 'PyFast_DECREF')
def _rc(ex, st, fr, a, name):
    capi.nonnull(ex, st, a[0], name)
    own(ex, st, a[0], 1 if 'nc' in name or 'INC' in name else -1)
    return None


# ---- calls through an address --------------------------------------------------------------------------------------
byteof = func('byteof', 2, -128, 127)        # byte k of a 64-bit register


def callptr(ex, st, fr, p, ins):
    if not (isinstance(p, P) and p.b.kind == 'cfunc' and is_c(p.off) and p.off == 0):
        return NotImplemented
    if ins.b:
        raise Unsupported('call of a machine function with arguments')
    n = len([e for e in st.g('events') or () if e[0] == 'call'])
    event(st, 'call', p.b.bid)
    rt = fr.mod.resolve(ins.ty) if ins.ty is not None else None
    if rt is None or rt.k == 'void' or not ins.res:
        return [Outcome(st, RET, None)]
    if n == 0 and p.b.__dict__.get('retp') is not None and (rt.k == 'int' and rt.a == 64 or rt.k == 'ptr'):
        return [Outcome(st, RET, p.b.retp)]
    rax = z3.Int('rax!%d!%d' % (p.b.bid, n))
    T.RANGE[rax.decl().name()] = (-(1 << 63), (1 << 63) - 1)
    if rt.k != 'int':
        raise Unsupported('call of a machine function returning %r' % rt)
    return [Outcome(st, RET, rax if rt.a == 64 else ex.wrap(st, rax, rt.a))]


def rax(b, n=0):
    return z3.Int('rax!%d!%d' % (b.bid, n))


HOOKS['call_ptr'] = callptr


def fastcopy(ex, st, fr, args, ins, dem):
    d, s, n = args
    if isinstance(s, P) and s.b.kind == 'cells' and is_c(s.off) and s.off == 0:
        v = ex.load(st, fr, I64, s)
        if isinstance(v, (P, O)):
            raise Unsupported('bytes of an address')
        v = ex.asint(v)
        un = ex.uns(st, ex.asint(n), 64)
        ex.oblige(st, 'memory', le(un, 8), 'copy source inside the local buffer')
        a = arrinfo(ex, st, d.b, 1, False)
        ex.oblige(st, 'memory', Or(eq(un, 0), And(le(0, d.off), le(add(d.off, un), a.n))), 'copy destination inside the block')
        a.setter(st, Pw(a.seq, d.off, add(d.off, un), lambda k: byteof(Z(v), Z(sub(k, d.off)))))
        return None
    HOOKS['memcpy'](ex, st, fr, d, s, n, False)
    return None


def fastconv(ex, st, fr, args, ins, dem):
    """contract of PyFast_AsShort / PyFast_AsChar; the bodies are verified as units (simdmod)"""
    t = Z(capi.oid(ex, args[0], 'conversion'))
    w = 15 if 'Short' in dem else 7
    ex.oblige(st, 'memory', isint(t), 'the fields of an int are read from an object known to be an int')
    ex.oblige(st, 'functional', And(le(-(1 << w), ival(t)), lt(ival(t), 1 << w)), 'the converted int is in range')
    return ival(t)


# ---- contexts and runner ---------------------------------------------------------------------------------------------
class RCtx(UCtx):
    def __init__(self, w, ex, st):
        super().__init__(ex, st, None)
        self.w, self.valid, self.mems, self.onfail, self.never, self.nargs = w, [], [], None, None, None

    def obj(self, name):
        t = z3.Int('%s!%d' % (name, T.uid()))
        T.RANGE[t.decl().name()] = (2000, 10 ** 6 - 1)
        return t

    def num(self, name, lo=0, hi=U64 - 1, assume=None):
        """an arbitrary object standing for a number: (object, its value); valid when an int in [lo, hi]"""
        t = self.obj(name)
        x = ival(t)
        self.valid.append(And(isint(t), le(lo, x), le(x, hi)))
        if assume is not None:
            self.st.assume(Implies(isint(t), And(le(-U64, x), le(x, assume))))
        return t, x

    def addr(self, name, b):
        """an arbitrary object; when it is an int, it is the address of b"""
        t = self.obj(name)
        self.st.assume(Implies(isint(t), And(lt(0, ival(t)), lt(ival(t), U64 // 2))))
        self.st.assume(Implies(isidx(t), isint(t)))
        setpv(self.st, t, P(b, 0) if isinstance(b, Block) else b)
        self.valid.append(isint(t))
        return t

    def mem(self, name, n, heap=False, es=1, align=None):
        """caller-owned memory of n bytes; elements of es bytes"""
        p = self.arr(name, es, exdiv(n, es) if es > 1 else n, align=align or es)
        b = p.b
        b.how = 'malloc'
        self.mems.append(b)
        if heap:
            self.st.setg('heap', (self.st.g('heap') or ()) + (b.bid,))
        return b

    def gflag(self, sym):
        for b in self.w.prog.gblocks.values():
            if core.demangle(b.name).endswith(sym):
                return z3.Int('g!%s!0' % b.name)
        return None

    def cfunc(self, retp=None):
        b = Block('cfunc', 'cfunc')
        b.retp = retp
        return b

    def intval(self, st, val, want, msg):
        if isinstance(val, O):
            self.ob(st, And(isint(val.t), eq(ival(Z(val.t)), want)), msg)
        else:
            self.ob(st, False, msg)

    def ptrval(self, st, val, msg):
        """the address the returned int denotes"""
        p = pv(st, val.t) if isinstance(val, O) else None
        if p is None:
            self.ob(st, False, msg)
            raise DeadPath()
        return p[1]

    def none(self, st, val):
        self.ob(st, isinstance(val, P) and val.b.kind == 'global' and val.b.name == '_Py_NoneStruct' or
                isinstance(val, O) and val.t == gid('_Py_NoneStruct'), 'returns None')

    def unchanged(self, st, b, msg='the memory is unchanged'):
        if b.bid not in st.m:
            self.ob(st, False, msg + ' (block is gone)')
            return
        self.holds(st, P(b, 0), b.n0, lambda k: b.seq0.at(k), msg)

    def events(self, st, *want):
        ev = st.g('events') or ()
        good = len(ev) == len(want)
        for e, w in zip(ev, want):
            good = good and len(e) == len(w)
            for x, y in zip(e, w):
                if isinstance(x, P) and isinstance(y, P):
                    good = good and x.b is y.b and self.ex.proves(st, eq(x.off, y.off))
                elif isinstance(x, (str, Block)) or isinstance(y, (str, Block)):
                    good = good and x == y
                elif isinstance(y, (int, z3.ArithRef)) and isinstance(x, (int, z3.ArithRef)):
                    good = good and self.ex.proves(st, eq(x, y))
                elif callable(y):
                    good = good and y(x)
                else:
                    good = good and x is y
        self.ob(st, bool(good), 'calls of foreign functions: expected %s' % ', '.join(str(w[0]) for w in want) if want else 'no foreign function is called')


class MUnit(Unit):
    """one method of a low-level module"""

    def __init__(self, src, cn, method, f, grp, label):
        self.name, self.src, self.cn, self.method, self.f, self.grp, self.label = 'method', src, cn, method, f, grp, label
        self.rx = None


SRC = {'Unsafe': 'unsafe/Unsafe.cpp', 'SIMD': 'unsafe/SIMD.cpp', 'SIMDLowAVX512': 'unsafe/SIMDLowAVX512.cpp'}
_MW = {}


def method(cn, name, label='', grp=None):
    def d(f):
        UNITS.append(MUnit(SRC[cn], cn, name, f, grp or (cn,), label or f.__name__.strip('_')))
        return f
    return d


def mworld(loader, src, cn):
    k = (id(loader), cn)
    if cn not in _MW or _MW[cn][0] is not loader.mod(src):
        w = ModWorld(loader, src, cn)
        _MW[cn] = (w.mod, w)
    return _MW[cn][1]


def build_args(cx, st, flags, objs, extra=None):
    """the C arguments for the calling convention the method table declares"""
    self = cx.obj('self')
    if flags & 3 == 3:
        return [O(self), P(Block('argtuple', 'args', items=[O(t) for t in objs], kwnames=None), 0), NULL]
    if flags & 1:
        return [O(self), P(Block('argtuple', 'args', items=[O(t) for t in objs], kwnames=None), 0)]
    if flags & 128:
        b = Block('arr', 'args', es=8, isp=True, align=8)
        q = Base('args!%d' % b.bid, 2000, 10 ** 6 - 1)
        for i, t in enumerate(objs):
            q = Store(q, i, t)
        n = extra if extra is not None else len(objs)
        st.m[b.bid] = {'size': mul(n, 8), 'cont': q}
        return [O(self), P(b, 0), n] + ([NULL] if flags & 2 else [])
    if flags & 8:
        if len(objs) != 1:
            return None
        return [O(self), O(objs[0])]
    if flags & 4:
        if objs:
            return None
        return [O(self), NULL]
    return None


def run_method(loader, u, budget=120):
    t0 = time.time()
    res = Result(u.src, '%s.%s' % (u.cn, u.method), u.label)
    ex = None
    old = Block.__init__
    try:
        w = mworld(loader, u.src, u.cn)
        ex = (getattr(u, 'exec', None) or Exec)(w.prog, w.con)
        ex.refmod = getattr(u, 'ref', None)
        ex.world = None
        ex.roots = []
        ex.blocks = {}
        w.con.local = [(re.compile(r'PyFast_As(Short|Char)\('), fastconv), (re.compile(r'(?:void )?fast_memcpy\('), fastcopy)]

        def reg(self, kind, name='', **kw):
            old(self, kind, name, **kw)
            ex.blocks[self.bid] = self
        Block.__init__ = reg
        st = w.state()
        cx = RCtx(w, ex, st)
        e = w.ops[u.cn].get(u.method)
        if e is None:
            ex.obl.append(core.Oblig('functional', u.cn, 'the module has a method %s' % u.method, 'failed'))
        else:
            fl = cx.flags = e[1] if is_c(e[1]) else None
            objs, post = u.f(cx)
            heap0 = st.g('heap') or ()
            if fl is None:
                raise Unsupported('method flags')
            args = cx.args = build_args(cx, st, fl, objs, cx.nargs)
            m, fn = w.prog.lookup(e[0].mod, e[0].name)
            if fn is None:
                raise Unsupported('method %s has no body' % e[0].name)
            ex.deadline = time.time() + budget
            if ex.pv.check(st.pc, [], True) == z3.unsat:
                ex.obl.append(core.Oblig('vacuity', u.method, 'precondition is satisfiable', 'failed'))
            nm = core.demangle(e[0].name).split('(')[0]
            if args is None:
                # the interpreter itself rejects the call: no path
                if not cx.never:
                    ex.obl.append(core.Oblig('functional', nm, 'the method accepts %d arguments' % len(objs), 'failed'))
                else:
                    ex.obl.append(core.Oblig('functional', nm, 'a wrong number of arguments is rejected', 'proved'))
            else:
                for o in ex.run(st.copy(), m, fn, args):
                    ex.cur_fn[:] = [nm]
                    try:
                        outcome(cx, o, post, res, heap0)
                    except DeadPath:
                        pass
                if not res.success and not cx.never:
                    ex.obl.append(core.Oblig('vacuity', nm, 'some execution succeeds', 'failed'))
    except DeadPath:
        res.status, res.why = 'unsupported', 'dead'
    except Unsupported as e:
        res.status, res.why = 'unsupported', str(e) + ' [' + ' > '.join(ex.cur_fn[-4:] if ex else []) + ']'
    except PathBudget as e:
        res.status, res.why = 'budget', str(e)
    except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError, AssertionError) as e:
        res.status, res.why = 'unsupported', 'engine: %s: %s' % (type(e).__name__, e)
        if spec.DEBUG:
            traceback.print_exc()
    finally:
        Block.__init__ = old
    if ex is not None:
        res.obl, res.fns, res.contracts = ex.obl, ex.fn_used, ex.contract_used
        res.queries, res.loops, res.solver = ex.pv.nq, ex.loops_done, ex.pv.time
    res.time = time.time() - t0
    return res


def outcome(cx, o, post, res, heap0):
    ex, st, val = cx.ex, o.st, o.val
    if o.kind == UNW:
        cx.ob(st, False, 'no C++ exception leaves the method', 'exception')
        return
    if o.kind != RET:
        return
    if isinstance(val, O):
        lo, _ = interval(val.t)
        if lo is None or lo < 1:
            a, b = ex.fork(st, lt(0, val.t))
            if b is not None:
                outcome(cx, Outcome(b, RET, NULL), post, res, heap0)
            if a is None:
                return
            st = a
    failed = val is NULL
    err = st.g('err')
    cx.ob(st, (err is not None) == failed, 'an exception is set exactly when NULL is returned (%s)' % err, 'errproto')
    cx.ob(st, st.g('gil') is not False, 'the GIL is held on return', 'gil')
    tk = tok(st)
    if failed:
        valid = And(*cx.valid) if cx.valid else True
        if not st.g('apifail') and not cx.never:
            cx.ob(st, Not(valid), 'valid arguments are accepted (raises %s)' % err)
        if cx.onfail is not None:
            cx.onfail(st)
        elif st.g('apifail') != 'PyLong allocation':
            for b in cx.mems:
                cx.unchanged(st, b, 'a failing call leaves the memory unchanged')
            cx.events(st)
            cx.ob(st, set(st.g('heap') or ()) == set(heap0), 'a failing call neither allocates nor releases', 'leak')
    else:
        res.success += 1
        if cx.never:
            cx.ob(st, False, cx.never)
        r = post(st, val)
        if isinstance(r, Tok):
            tk = r
        t = ex.to_id(val)
        if t is None:
            raise Unsupported('result %r' % (val,))
        tk = tk.add(t, -1)
    ok_, rest = ledger_zero(ex, st, tk)
    cx.ob(st, bool(ok_), 'no reference is gained or lost: residue %r' % (rest if not ok_ else '',), 'refcount', weak=not ok_ and core.weak_tok(rest))
