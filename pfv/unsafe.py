"""Contracts of the Unsafe module: every method performs exactly the C operation it names."""
from .raw import *
from .raw import U64

C = 'Unsafe'
G = ('unsafe',)
LIM = 2 ** 46


def m(name, label=''):
    return method(C, name, label, G)


def block_result(cx, st, v, n, how):
    p = cx.ptrval(st, v, 'returns the address of a block')
    good = isinstance(p, P) and p.b.kind == 'arr' and p.b.bid in (st.g('heap') or ()) and p.b.bid not in [b.bid for b in cx.mems] and is_c(p.off) and p.off == 0
    cx.ob(st, bool(good), 'returns the address of a new block from %s' % how)
    if not good:
        raise DeadPath()
    f = p.b.__dict__.get('factors')
    if isinstance(n, tuple):
        if f is not None:
            cx.ob(st, Or(And(eq(f[0], n[0]), eq(f[1], n[1])), And(eq(f[1], n[0]), eq(f[0], n[1]))), 'the block has the requested size')
        else:
            cx.ob(st, eq(st.get(p.b.bid, 'size'), mul(*n)), 'the block has the requested size')
    else:
        cx.ob(st, eq(st.get(p.b.bid, 'size'), n), 'the block has the requested size')
    cx.ob(st, len([x for x in st.g('heap') if x not in [b.bid for b in cx.mems]]) == 1, 'exactly one block is allocated', 'leak')
    cx.events(st)
    return p


def mod64(x):
    return Z(x) % U64


@m('malloc')
def _malloc(cx):
    t, n = cx.num('size')
    return [t], lambda st, v: (block_result(cx, st, v, n, 'malloc'), None)[1]


@m('calloc')
def _calloc(cx):
    t, n = cx.num('num')
    u, k = cx.num('size')

    def post(st, v):
        p = block_result(cx, st, v, (mod64(n), mod64(k)), 'calloc')
        i = cx.int('i')
        s = st.copy()
        s.assume(lt(i, s.get(p.b.bid, 'size')))
        cx.ob(s, eq(s.get(p.b.bid, 'cont').at(i), 0), 'every byte is zero')
    return [t, u], post


@m('realloc')
def _realloc(cx):
    o = cx.int('old')
    b = cx.mem('old', o, heap=True)
    a = cx.addr('address', b)
    t, n = cx.num('size')

    def post(st, v):
        p = cx.ptrval(st, v, 'returns the address of a block')
        good = isinstance(p, P) and p.b.kind == 'arr' and p.b.bid in (st.g('heap') or ()) and is_c(p.off) and p.off == 0
        cx.ob(st, bool(good), 'returns the address of a live block')
        if not good:
            raise DeadPath()
        cx.ob(st, len(st.g('heap')) == 1, 'the old block is gone, one block remains', 'leak')
        cx.ob(st, eq(st.get(p.b.bid, 'size'), mod64(n)), 'the block has the requested size')
        i = cx.int('i')
        s = st.copy()
        s.assume(And(lt(i, mod64(n)), lt(i, o)))
        cx.ob(s, eq(s.get(p.b.bid, 'cont').at(i), b.seq0.at(i)), 'the old bytes are kept')
        cx.events(st)
    return [a, t], post


@m('free')
def _free(cx):
    b = cx.mem('block', cx.int('n'), heap=True)
    a = cx.addr('address', b)

    def post(st, v):
        cx.none(st, v)
        cx.ob(st, not st.g('heap'), 'the block is released', 'leak')
        cx.events(st)
    return [a], post


@m('aligned_malloc')
def _amalloc(cx):
    t, n = cx.num('size')
    u, k = cx.num('alignment')

    def post(st, v):
        p = block_result(cx, st, v, mod64(n), 'aligned_alloc')
        al = getattr(p.b, 'alignto', None)
        cx.ob(st, False if al is None else eq(al, mod64(k)), 'the block has the requested alignment')
    return [t, u], post


@m('aligned_free')
def _afree(cx):
    return _free(cx)


@m('get')
def _get(cx):
    t, n = cx.num('size', assume=LIM)
    b = cx.mem('block', If(And(isint(t), lt(0, n)), n, 0))
    cx.st.assume(Implies(isidx(t), isint(t)))
    cx.st.assume(Implies(isint(t), lt(-(U64 // 2), n)))
    a = cx.addr('address', b)

    def post(st, v):
        t, q = bytesblk(cx.ex, st, v, 'result')
        cx.ob(st, eq(st.get(q.bid, 'size'), n), 'as many bytes as asked for')
        i = cx.int('i')
        s = st.copy()
        s.assume(lt(i, n))
        cx.ob(s, eq(s.get(q.bid, 'cont').at(i), b.seq0.at(i)), 'every byte is the one in memory')
        cx.unchanged(st, b)
        cx.events(st)
    return [a, t], post


@m('set')
def _set(cx):
    n = cx.int('n')
    t = cx.obj('bytes')
    src = cx.mem('bytes', n)
    cx.st.setg('bytesof', {t.get_id(): src})
    isb = capi.feat(typ(t), z3.IntVal(capi.BYTES_BIT))
    cx.valid.append(isb)
    b = cx.mem('block', n)
    a = cx.addr('address', b)

    def post(st, v):
        cx.none(st, v)
        cx.holds(st, P(b, 0), n, lambda k: src.seq0.at(k), 'exactly the bytes are written')
        cx.unchanged(st, src)
        cx.events(st)
    return [a, t], post


def called(cx, st, f, ret=True):
    cx.events(st, ('call', f.bid))


@m('callVoid')
def _callvoid(cx):
    f = cx.cfunc()
    a = cx.addr('func', f)

    def post(st, v):
        cx.none(st, v)
        called(cx, st, f)
    return [a], post


@m('callInt')
def _callint(cx):
    f = cx.cfunc()
    a = cx.addr('func', f)

    def post(st, v):
        called(cx, st, f)
        r = rax(f)
        low = Z(r) % (1 << 32)
        cx.intval(st, v, If(low >= 1 << 31, low - (1 << 32), low), 'returns the int result')
    return [a], post


@m('callLongLong')
def _callll(cx):
    f = cx.cfunc()
    a = cx.addr('func', f)

    def post(st, v):
        called(cx, st, f)
        cx.intval(st, v, rax(f), 'returns the long long result')
    return [a], post


@m('call', 'small')
def _call(cx):
    f = cx.cfunc()
    a = cx.addr('func', f)
    t, n = cx.num('size', assume=8)
    cx.st.assume(Implies(isint(t), le(n, 8)))
    res = cx.mem('result', If(And(isint(t), lt(0, n)), n, 0))
    r = cx.addr('result', res)

    def post(st, v):
        cx.none(st, v)
        called(cx, st, f)
        cx.holds(st, P(res, 0), n, lambda k: byteof(rax(f), Z(k)), 'the bytes of the return register are stored')
    return [a, r, t], post


@m('call', 'large')
def _call2(cx):
    t, n = cx.num('size', assume=LIM)
    cx.st.assume(Implies(isint(t), lt(8, n)))
    src = cx.mem('struct', n)
    res = cx.mem('result', n)
    cx.st.assume(lt(8, n))
    cx.st.assume(le(n, LIM))
    f = cx.cfunc(P(src, 0))
    a = cx.addr('func', f)
    r = cx.addr('result', res)

    def post(st, v):
        cx.none(st, v)
        called(cx, st, f)
        cx.holds(st, P(res, 0), n, lambda k: src.seq0.at(k), 'the bytes behind the returned address are stored')
        cx.unchanged(st, src)
    return [a, r, t], post


@m('get_address')
def _getaddress(cx):
    t = cx.obj('object')

    def post(st, v):
        p = cx.ptrval(st, v, 'returns the address of the object')
        x = cx.ex.to_id(p)
        cx.ob(st, x is not None and cx.ex.proves(st, eq(x, t)), 'returns the address of the object')
        cx.events(st)
    return [t], post


@m('as_object')
def _asobject(cx):
    t = cx.obj('object')
    a = cx.addr('address', O(t))

    def post(st, v):
        x = cx.ex.to_id(v)
        cx.ob(st, x is not None and cx.ex.proves(st, eq(x, t)), 'returns the object at the address')
        cx.events(st)
    return [a], post


@m('memcpy')
def _memcpy(cx):
    t, n = cx.num('size', assume=LIM)
    cx.st.assume(Implies(isint(t), le(n, LIM)))
    k = If(And(isint(t), lt(0, n)), n, 0)
    src, dst = cx.mem('from', k), cx.mem('to', k)
    a, b = cx.addr('from', src), cx.addr('to', dst)

    def post(st, v):
        cx.none(st, v)
        cx.holds(st, P(dst, 0), n, lambda k: src.seq0.at(k), 'every byte is copied')
        cx.unchanged(st, src, 'the source is unchanged')
        cx.events(st)
    return [a, b, t], post


@m('memset')
def _memset(cx):
    t, n = cx.num('size', assume=LIM)
    w, x = cx.num('val', 0, 255)
    k = If(And(isint(t), lt(0, n)), n, 0)
    dst = cx.mem('block', k)
    a = cx.addr('address', dst)

    def post(st, v):
        cx.none(st, v)
        low = Z(x) % 256
        cx.holds(st, P(dst, 0), n, lambda k: If(low >= 128, low - 256, low), 'every byte is set to the low byte of the value')
        cx.events(st)
    return [a, w, t], post


def rc(cx, d):
    t = cx.obj('object')

    def post(st, v):
        cx.none(st, v)
        cx.events(st)
        return tok(st).add(t, -d)
    return [t], post


@m('incref')
def _incref(cx):
    return rc(cx, 1)


@m('decref')
def _decref(cx):
    return rc(cx, -1)


@m('refcnt')
def _refcnt(cx):
    t = cx.obj('object')

    def post(st, v):
        cx.intval(st, v, refcnt(t), 'returns the reference count')
        cx.events(st)
    return [t], post


def isstd(name):
    def f(x):
        return isinstance(x, O) and x.t == gid('%s@0' % name)
    return f


@m('fputs')
def _fputs(cx):
    t = cx.obj('text')
    isu = capi.feat(typ(t), z3.IntVal(capi.UNI_BIT))
    cx.valid.append(isu)

    def post(st, v):
        cx.none(st, v)
        cx.events(st, ('fputs', lambda p: isinstance(p, P) and p.b.kind == 'utf8' and T.same(p.b.of, t) and is_c(p.off) and p.off == 0, isstd('stdout')))
    return [t], post


@m('fflush')
def _fflush(cx):
    def post(st, v):
        cx.none(st, v)
        cx.events(st, ('fflush', isstd('stdout')))
    return [], post


@m('fgets')
def _fgets(cx):
    t, n = cx.num('size', 1, 2 ** 31 - 1)
    cx.st.assume(Implies(isint(t), And(lt(-2 ** 31, n), lt(n, 2 ** 31))))

    def post(st, v):
        e = st.g('eof')
        cx.ob(st, e != 'error', 'a read error is reported')
        cx.events(st, ('fgets', lambda p: isinstance(p, P), n, isstd('stdin')))
        x = cx.ex.to_id(v)
        cx.ob(st, x is not None and cx.ex.proves(st, eq(x, ustr(Z(0 if e else 1)))), 'returns the line read, or the empty string at the end of the stream')
        cx.ob(st, not st.g('heap'), 'the line buffer is released', 'leak')

    def onfail(st):
        cx.ob(st, not st.g('heap'), 'the line buffer is released', 'leak')
        if not st.g('apifail'):
            cx.ob(st, st.g('eof') not in ('eof', 'short'), 'the end of the stream is no error')
    cx.onfail = onfail
    return [t], post


# ---- wrong numbers of arguments ---------------------------------------------------------------------------------
ARITY = {'malloc': 1, 'calloc': 2, 'realloc': 2, 'free': 1, 'aligned_malloc': 2, 'aligned_free': 1, 'get': 2, 'set': 2, 'callVoid': 1, 'callInt': 1,
         'callLongLong': 1, 'call': 3, 'get_address': 1, 'as_object': 1, 'memcpy': 3, 'memset': 3, 'incref': 1, 'decref': 1, 'refcnt': 1, 'fputs': 1,
         'fflush': 0, 'fgets': 1}


def arity(name, k):
    def fast(cx):
        cx.never = 'a wrong number of arguments is rejected'
        if not cx.flags & 128:
            return [cx.obj('a%d' % i) for i in range(k + 1)], lambda st, v: None
        cx.nargs = cx.int('nargs', 0, 2 ** 31)
        cx.st.assume(Not(eq(cx.nargs, k)))
        return [], lambda st, v: None

    def fewer(cx):
        cx.never = 'a wrong number of arguments is rejected'
        return [cx.obj('a%d' % i) for i in range(k - 1)], lambda st, v: None
    method(C, name, 'nargs', G)(fast)
    if k:
        method(C, name, 'fewer', G)(fewer)


for _n, _k in ARITY.items():
    arity(_n, _k)
