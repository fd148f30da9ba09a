"""Contracts of text building: std::string, snprintf, str objects of the interpreter.

A text is modelled as  s0 v0  s1 v1 ... tail : `len` values (integers in decimal, or the reprs of objects), each preceded
by a constant separator, and a constant tail.  Constants are interned; appending a constant extends the tail, appending a
value turns the tail into that value's separator."""
import re
import z3
from .terms import *
from . import terms as T
from . import core, capi, stl
from .core import P, O, NULL, UNDEF, Block, Outcome, Unsupported, DeadPath, HOOKS
from .capi import api, fail, ok, own, new_block, cstr, oid, nonnull, seterr
from .stl import con, throw, cget, cset
from .irparse import Ty, PTR, I32, I64

LIT = {'': 0}
TXT = ['']
reprobj = T.func('reprobj', 1, 1, None)


def lit(s):
    if s not in LIT:
        LIT[s] = len(TXT)
        TXT.append(s)
    return LIT[s]


def sset(st, key, **kw):
    cset(st, key, **kw)


def empty(st, key, pre=''):
    sset(st, key, len=0, cont=Fn(lambda k: 0, 'no values'), sep=Fn(lambda k: 0, 'no separators'), tail=lit(pre), strv=stl.Gen())


def touch(st, key):
    sset(st, key, strv=stl.Gen())


def known(t):
    return t if is_c(t) else None


def pyv(e):
    return e.as_long() if z3.is_int_value(e) else e


catlit = T.func('catlit', 2, 0, None)


def cat(t, s):
    """the text t followed by the constant s"""
    if s == '':
        return t
    if is_c(t):
        return lit(TXT[t] + s)
    if t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return If(c, cat(pyv(a), s), cat(pyv(b), s))
    return catlit(t, z3.IntVal(lit(s)))


def lift(t):
    """catlit over a conditional of constants, after a substitution"""
    if not isinstance(t, z3.ArithRef) or z3.is_int_value(t):
        return t
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return If(c, lift(pyv(a)), lift(pyv(b)))
    if t.decl().eq(catlit):
        a, b = t.children()
        return cat(lift(pyv(a)), TXT[b.as_long()])
    return t


HOOKS['lift'] = lift


def chop(ex, st, t, n):
    """the text t without its last n characters"""
    if n == 0:
        return t
    if is_c(t):
        if len(TXT[t]) < n:
            raise Unsupported('characters of a printed value removed')
        return lit(TXT[t][:-n])
    if t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        y, z = ex.fork(st.copy(), c)
        if y is None or z is None:
            return chop(ex, st, pyv(b if y is None else a), n)
        return If(c, chop(ex, y, pyv(a), n), chop(ex, z, pyv(b), n))
    raise Unsupported('characters removed from an unknown text')


def add_lit(ex, st, key, s):
    """append a constant"""
    if s == '':
        return [st]
    touch(st, key)
    sset(st, key, tail=cat(cget(ex, st, key, 'tail'), s))
    return [st]


def add_val(ex, st, key, v, kind):
    if kind == 'repr':
        v = reprobj(Z(v))
    touch(st, key)
    n = cget(ex, st, key, 'len')
    st.assume(le(0, n))                 # the number of values is never negative
    t = cget(ex, st, key, 'tail')
    sset(st, key, cont=Ins(cget(ex, st, key, 'cont'), n, 1, lambda k: v), sep=Ins(cget(ex, st, key, 'sep'), n, 1, lambda k: t), len=add(n, 1), tail=0)
    return [st]


def skey(ex, st, p):
    if isinstance(p, P) and is_c(p.off) and st.m.get(p.b.bid, {}).get((p.off, 'strv')) is not None:
        return (p.b.bid, p.off)
    if isinstance(p, P) and p.b.bid not in st.m and p.b.kind == 'cells':
        ex.oblige(st, 'memory', False, 'string in dead storage')
        raise DeadPath()
    raise Unsupported('string at %r' % (p,))


def copy_into(st, key, d):
    sset(st, key, **d)


def get(ex, st, key):
    return {k: cget(ex, st, key, k) for k in ('len', 'cont', 'sep', 'tail', 'strv')}


def add_text(ex, st, key, src):
    """append a whole text: a constant, or a single value"""
    if is_c(src['len']) and src['len'] == 0 and known(src['tail']) is not None:
        return add_lit(ex, st, key, TXT[src['tail']])
    if is_c(src['len']) and src['len'] == 1 and is_c(src['sep'].at(0)) and known(src['tail']) is not None:
        outs = []
        for s1 in add_lit(ex, st, key, TXT[src['sep'].at(0)]):
            for s in add_val(ex, s1, key, src['cont'].at(0), ''):
                outs += add_lit(ex, s, key, TXT[src['tail']])
        return outs
    if is_c(cget(ex, st, key, 'len')) and cget(ex, st, key, 'len') == 0 and known(cget(ex, st, key, 'tail')) == 0:
        sset(st, key, **dict(src, strv=stl.Gen()))
        return [st]
    raise Unsupported('concatenation of two built texts')


# ---- snprintf
FMT = {'%d': 32, '%i': 32, '%ld': 64, '%li': 64, '%lld': 64, '%lli': 64, '%zd': 64, '%jd': 64}


@api('snprintf', 'sprintf', err_ok=True)
def _snprintf(ex, st, fr, a, name):
    if name == 'snprintf':
        b, size, fmt, va = a[0], ex.asint(a[1]), cstr(ex, a[2]), a[3:]
    else:
        b, size, fmt, va = a[0], 0, cstr(ex, a[1]), a[2:]
    if not (isinstance(b, P) and is_c(b.off) and b.b.kind == 'cells') or not is_c(size):
        raise Unsupported('snprintf into %r (%s)' % (b, size))
    m = re.match(r'^([^%]*)(%[a-z]+)([^%]*)$', fmt)
    if not m or m.group(2) not in FMT or len(va) != 1 or m.group(1):
        raise Unsupported('format %r' % fmt)
    v = ex.wrap(st, ex.asint(va[0]), FMT[m.group(2)])
    most = {32: 11, 64: 20}[FMT[m.group(2)]] + len(m.group(3))
    if len(m.group(3)) > 8:
        raise Unsupported('format %r' % fmt)
    if name == 'sprintf':
        size = most + 1
    elif size < most + 1:
        raise Unsupported('snprintf into %d characters, which may truncate' % size)
    bs = getattr(b.b, 'size', None)
    if bs is not None and is_c(bs):
        ex.oblige(st, 'memory', b.off + size <= bs, 'snprintf stays within its buffer')
    n = ex.fresh(st, 'txtlen', 1 + len(m.group(3)), most)
    d = {k: x for k, x in st.m[b.b.bid].items() if not (isinstance(k, int) and b.off <= k < b.off + most + 1) and not (isinstance(k, tuple) and k[0] == b.off and k[1] == 'txt')}
    d[(b.off, 'txt')] = (v, m.group(3), n)
    st.m[b.b.bid] = d
    return n


def chars(ex, st, p, n=None):
    """the text at a char pointer: constant string or the text printed into a buffer"""
    if isinstance(p, P) and p.b.kind == 'global':
        s = cstr(ex, p)
        if n is not None:
            if not is_c(n) or n > len(s) + 1:
                raise Unsupported('length of a literal')
            s = s[:n]
        return ('lit', s)
    if isinstance(p, P) and is_c(p.off) and p.b.kind == 'cells':
        t = st.m.get(p.b.bid, {}).get((p.off, 'txt'))
        if isinstance(t, tuple):
            if n is not None and not ex.proves(st, eq(n, t[2])):
                raise Unsupported('part of a printed number')
            return ('val', t[0], t[1])
    if isinstance(p, P) and p.b.kind == 'strdata':
        d = st.m.get(p.b.bid)
        k = p.b.key
        cur = st.m.get(k[0], {}).get((k[1], 'strv'))
        if cur is not p.b.strv:
            ex.oblige(st, 'memory', False, 'text of a string used after the string changed')
            raise DeadPath()
        src = get(ex, st, k)
        if n is not None and not (hasattr(p.b, 'n') and same(p.b.n, n)):
            ln = st.m.get(k[0], {}).get((k[1], 'strn'))
            if ln is None or ln[0] is not cur or not same(ln[1], n):
                raise Unsupported('part of a string')
        return ('text', src)
    raise Unsupported('characters at %r' % (p,))


def append(ex, st, key, c):
    if c[0] == 'lit':
        return add_lit(ex, st, key, c[1])
    if c[0] == 'val':
        outs = []
        for s in add_val(ex, st, key, c[1], 'dec'):
            outs += add_lit(ex, s, key, c[2])
        return outs
    return add_text(ex, st, key, c[1])


# ---- std::string
S = r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'


def rets(ex, sts, v, pre):
    return [Outcome(s, core.RET, v) for s in sts] + [throw(ex, pre, 'bad_alloc', 'out of memory')]


@con(S + r'basic_string(<.*>)?\(.*\)$')
def s_ctor(ex, st, fr, a, ins, dem):
    p = a[0]
    if not (isinstance(p, P) and is_c(p.off) and p.b.kind == 'cells'):
        raise Unsupported('string constructed at %r' % (p,))
    key = (p.b.bid, p.off)
    args = dem[dem.index('(') + 1:-1]
    f = st.copy()
    if args in ('', 'std::allocator<char> const&'):
        empty(st, key)
        return None
    empty(st, key)
    if args.startswith('char const*'):
        n = ex.asint(a[2]) if 'unsigned long' in args else None
        sts = append(ex, st, key, chars(ex, st, a[1], n))
    elif '&&' in args or 'const&' in args and 'basic_string' in args:
        k2 = skey(ex, st, a[1])
        sset(st, key, **dict(get(ex, st, k2), strv=stl.Gen()))
        sts = [st]
        if '&&' in args:
            empty(st, k2)
            return None
    else:
        raise Unsupported('string constructor ' + dem)
    return rets(ex, sts, None, f)


@con(S + r'~basic_string\(\)$')
def s_dtor(ex, st, fr, a, ins, dem):
    key = skey(ex, st, a[0])
    d = dict(st.m[key[0]])
    for k in ('len', 'cont', 'sep', 'tail', 'strv', 'strn'):
        d.pop((key[1], k), None)
    st.m[key[0]] = d
    return None


@con(S + r'(reserve|shrink_to_fit)\(.*\)$')
def s_reserve(ex, st, fr, a, ins, dem):
    key = skey(ex, st, a[0])
    f = st.copy()
    touch(st, key)
    outs = [Outcome(st, core.RET, None)]
    if 'reserve' in dem:
        outs.append(throw(ex, f, 'bad_alloc', 'out of memory'))
        outs.append(throw(ex, f.copy(), 'length_error', 'string too long'))
    return outs


@con(S + r'(append|operator\+=|push_back|operator=|assign)\(.*\)$')
def s_append(ex, st, fr, a, ins, dem):
    key = skey(ex, st, a[0])
    f = st.copy()
    what = re.search(r'::(append|operator\+=|push_back|operator=|assign)\(', dem).group(1)
    args = dem[dem.index(what) + len(what) + 1:-1]
    if what in ('operator=', 'assign'):
        src = None
        if 'basic_string' in args:
            src = get(ex, st, skey(ex, st, a[1]))
        empty(st, key)
        if src is not None:
            sset(st, key, **dict(src, strv=stl.Gen()))
            return rets(ex, [st], a[0], f)
    if args == 'char':
        c = ex.asint(a[1])
        if not is_c(c):
            raise Unsupported('unknown character')
        sts = add_lit(ex, st, key, chr(c % 256))
    elif args in ('char const*', 'char const*, unsigned long'):
        sts = append(ex, st, key, chars(ex, st, a[1], ex.uns(st, ex.asint(a[2]), 64) if 'unsigned' in args else None))
    elif args == 'unsigned long, char':
        n, c = ex.asint(a[1]), ex.asint(a[2])
        if not (is_c(n) and is_c(c) and 0 <= n < 64):
            raise Unsupported('unknown characters')
        sts = add_lit(ex, st, key, chr(c % 256) * n)
    elif 'basic_string' in args:
        sts = add_text(ex, st, key, get(ex, st, skey(ex, st, a[1])))
    else:
        raise Unsupported('string append ' + dem[-60:])
    return rets(ex, sts, None if what == 'push_back' else a[0], f)


@con(S + r'(pop_back\(\)|resize\(unsigned long\))$')
def s_pop(ex, st, fr, a, ins, dem):
    key = skey(ex, st, a[0])
    n = 1
    if 'resize' in dem:
        ln = st.m[key[0]].get((key[1], 'strn'))
        d = None if ln is None or ln[0] is not cget(ex, st, key, 'strv') else T.sub(ln[1], ex.asint(a[1]))
        if d is None or not is_c(d) or not 0 <= d < 8:
            raise Unsupported('text cut at an unknown place')
        n = d
    v = cget(ex, st, key, 'tail')
    touch(st, key)
    sset(st, key, tail=chop(ex, st, v, n))
    return None


@con(S + r'empty\(\) const$')
def s_empty(ex, st, fr, a, ins, dem):
    key = skey(ex, st, a[0])
    t = cget(ex, st, key, 'tail')
    return And(eq(cget(ex, st, key, 'len'), 0), eq(t, 0))


@con(S + r'back\(\)( const)?$')
def s_back(ex, st, fr, a, ins, dem):
    raise Unsupported('last character of a text')


@con(S + r'clear\(\)$')
def s_clear(ex, st, fr, a, ins, dem):
    empty(st, skey(ex, st, a[0]))
    return None


@con(S + r'(c_str|data)\(\)( const)?$')
def s_cstr(ex, st, fr, a, ins, dem):
    key = skey(ex, st, a[0])
    b = Block('strdata', 'chars', key=key, strv=cget(ex, st, key, 'strv'))
    return P(b, 0)


@con(S + r'(size|length)\(\) const$')
def s_size(ex, st, fr, a, ins, dem):
    key = skey(ex, st, a[0])
    v = cget(ex, st, key, 'strv')
    ln = st.m[key[0]].get((key[1], 'strn'))
    if ln is None or ln[0] is not v:
        ln = (v, ex.fresh(st, 'strlen', 0, 2 ** 62))
        st.set(key[0], (key[1], 'strn'), ln)
    return ln[1]


@con(r'std::(__cxx11::)?to_string\((int|long|long long)\)$')
def s_tostring(ex, st, fr, a, ins, dem):
    p = a[0]
    if not (isinstance(p, P) and is_c(p.off) and p.b.kind == 'cells'):
        raise Unsupported('to_string')
    key = (p.b.bid, p.off)
    f = st.copy()
    empty(st, key)
    sts = add_val(ex, st, key, ex.asint(a[1]), 'dec')
    if '(int)' in dem:
        # noexcept: any 32-bit value fits into the string object
        return [Outcome(s, core.RET, None) for s in sts]
    return rets(ex, sts, None, f)


@con(r'std::(__cxx11::)?basic_string<.*> std::operator\+<.*>\(.*\)$')
def s_plus(ex, st, fr, a, ins, dem):
    p = a[0]
    if not (isinstance(p, P) and is_c(p.off) and p.b.kind == 'cells'):
        raise Unsupported('operator+')
    key = (p.b.bid, p.off)
    f = st.copy()
    empty(st, key)
    sts = [st]
    for x in a[1:3]:
        nxt = []
        for s in sts:
            if isinstance(x, P) and s.m.get(x.b.bid, {}).get((x.off, 'strv')) is not None:
                nxt += add_text(ex, s, key, get(ex, s, (x.b.bid, x.off)))
            elif isinstance(x, int):
                nxt += add_lit(ex, s, key, chr(x % 256))
            else:
                nxt += append(ex, s, key, chars(ex, s, x))
        sts = nxt
    return rets(ex, sts, None, f)


@con(r'std::(__new_)?allocator<char>::~?(__new_)?allocator\(.*\)$')
def s_alloc(ex, st, fr, a, ins, dem):
    return None


# ---- str objects
def new_str(ex, st):
    b = new_block(ex, st, 'ustr', 'str')
    empty(st, (b.bid, 0))
    return b


@api('PyUnicode_FromString', 'PyUnicode_FromStringAndSize', 'PyUnicode_InternFromString', err_ok=True)
def _fromstring(ex, st, fr, a, name):
    c = chars(ex, st, a[0], ex.asint(a[1]) if name.endswith('Size') else None)
    f = fail(st, NULL, 'PyExc_MemoryError', 'str allocation') if st.g('err') is None else Outcome(st.copy(), core.RET, NULL)
    b = new_str(ex, st)
    return [ok(s, P(b, 0)) for s in append(ex, st, (b.bid, 0), c)] + [f]


@api('PyObject_Repr', 'PyObject_Str')
def _repr(ex, st, fr, a, name):
    if name == 'PyObject_Str':
        raise Unsupported('PyObject_Str')
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    f = fail(st, NULL, 'any', 'repr of an element')
    r = O(reprobj(Z(t)))
    own(ex, st, r, 1)
    return [ok(st, r), f]


def ustr_src(ex, st, v):
    """content of a str object: built here, or the repr of an object"""
    if isinstance(v, P) and v.b.kind == 'ustr':
        if v.b.bid not in st.m:
            ex.oblige(st, 'memory', False, 'str object used after release')
            raise DeadPath()
        return ('text', get(ex, st, (v.b.bid, 0)))
    if isinstance(v, O) and is_c(v.off) and v.off == 0 and z3.is_app(v.t) and v.t.decl().eq(reprobj_decl()):
        return ('repr', v.t.arg(0))
    raise Unsupported('str object %r' % (v,))


def reprobj_decl():
    return reprobj(z3.IntVal(1)).decl()


@api('PyUnicode_AppendAndDel', 'PyUnicode_Append', err_ok=True)
def _uappend(ex, st, fr, a, name):
    cell = a[0]
    left = ex.load(st, fr, PTR, cell)
    right = a[1]
    de = name.endswith('Del')

    def drop(s, v):
        if v is not NULL and v is not None:
            capi._decref(ex, s, fr, [v], 'Py_DECREF')
    if left is NULL or right is NULL:
        if st.g('err') is None:
            seterr(st, 'PyExc_SystemError')
        drop(st, left)
        if de:
            drop(st, right)
        ex.store(st, fr, PTR, NULL, cell)
        return [ok(st, None)]
    if not (isinstance(left, P) and left.b.kind == 'ustr'):
        raise Unsupported('append to %r' % (left,))
    if left.b.bid not in st.m:
        ex.oblige(st, 'memory', False, 'str object used after release')
        raise DeadPath()
    c = ustr_src(ex, st, right)
    f = st.copy()
    seterr(f, 'PyExc_MemoryError')
    f.setg('apifail', 'str allocation')
    drop(f, left)
    if de:
        drop(f, right)
    ex.store(f, fr, PTR, NULL, cell)
    key = (left.b.bid, 0)
    if c[0] == 'repr':
        sts = add_val(ex, st, key, c[1], 'repr')
    else:
        sts = add_text(ex, st, key, c[1])
    for s in sts:
        if de:
            drop(s, right)
    return [ok(s, None) for s in sts] + [ok(f, None)]
