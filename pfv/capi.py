"""Contracts of the CPython C API functions the sources call (TRUSTED; listed in evidence), the ghost exception
state, the ghost GIL and the ghost ledger of owned references."""
import re
import z3
from .terms import *
from . import terms as T
from . import core, stl
from .core import (P, O, It, FnP, NULL, NULLBLOCK, UNDEF, Opaque, V, Agg, Block, Outcome, RET, UNW, ABORT, Unsupported,
                   DeadPath, HOOKS, GID, gid)
from .irparse import Ty, PTR, I32, I64

API = {}


def api(*names, err_ok=False):
    def d(f):
        for n in names:
            API[n] = (f, err_ok)
        return f
    return d


RGID = {}


def gname(t):
    if len(RGID) != len(GID):
        RGID.clear()
        RGID.update({v: k for k, v in GID.items()})
    return RGID.get(t)


# ---- deterministic facts about argument objects ----------------------------------------------------
typ = func('typ', 1, 1, None)
feat = func('feat', 2, sort=BOOL)
isidx = func('isidx', 1, sort=BOOL)
ival = func('ival', 1)
iterable = func('iterable', 1, sort=BOOL)
ilen = func('ilen', 1, 0, 2 ** 40)
item = func('item', 2, 2000, None)
ifail = func('ifail', 1, sort=BOOL)
isseq = func('isseq', 1, sort=BOOL)
pyint = func('pyint', 1, 10 ** 6, None)
pyfloat = func('pyfloat', 1, 10 ** 6, None)
rcb = func('rcb', 3, sort=BOOL)
rcfail = func('rcfail', 3, sort=BOOL)
truth = func('truth', 1, sort=BOOL)
truthfail = func('truthfail', 1, sort=BOOL)
fastof = func('fastof', 1, 10 ** 6, None)
sl_start = func('sl_start', 1, -2 ** 63, 2 ** 63 - 1)
sl_stop = func('sl_stop', 1, -2 ** 63, 2 ** 63 - 1)
sl_step = func('sl_step', 1, -2 ** 63 + 1, 2 ** 63 - 1)
sl_ok = func('sl_ok', 1, sort=BOOL)
sl_len = func('sl_len', 4, 0, 2 ** 62)   # (len, start, stop, step) after adjustment
INT_BIT, LIST_BIT, TUPLE_BIT, BYTES_BIT, UNI_BIT, DICT_BIT = 24, 25, 26, 27, 28, 29
INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1


def isint(t):
    return feat(typ(Z(t)), z3.IntVal(INT_BIT))


def islist(t):
    return feat(typ(Z(t)), z3.IntVal(LIST_BIT))


def istuple(t):
    return feat(typ(Z(t)), z3.IntVal(TUPLE_BIT))


def _ax_feat(e):
    t, b = e.children()
    out = []
    if z3.is_int_value(b) and b.as_long() in (INT_BIT, LIST_BIT, TUPLE_BIT, UNI_BIT, DICT_BIT):
        for o in (INT_BIT, LIST_BIT, TUPLE_BIT):
            if o != b.as_long():
                out.append(z3.Not(z3.And(e, feat(t, z3.IntVal(o)))) if b.as_long() < o else True)
        g = {INT_BIT: 'PyLong_Type', LIST_BIT: 'PyList_Type', TUPLE_BIT: 'PyTuple_Type'}[b.as_long()] if b.as_long() in (INT_BIT, LIST_BIT, TUPLE_BIT) else None
        if g and not z3.is_int_value(t):
            out.append(z3.Implies(t == gid(g), e))
        # the library's own static types carry none of the builtin-subclass flags
        if z3.is_int_value(t):
            out.append(z3.Not(e) if (gname(t.as_long()) or '').endswith('ListType') else True)
        if z3.is_app(t) and t.decl().name() == 'typ':
            x = t.arg(0)
            if b.as_long() == INT_BIT:
                out.append(z3.Implies(e, z3.And(isidx(x), z3.Not(iterable(x)), z3.Not(isseq(x)))))
            elif b.as_long() in (LIST_BIT, TUPLE_BIT):
                out.append(z3.Implies(e, z3.And(iterable(x), isseq(x), z3.Not(ifail(x)), z3.Not(isidx(x)))))
    return [x for x in out if x is not True]


T.AXIOM['feat'] = _ax_feat


def _ax_pyint(e):
    x = e.arg(0)
    return [ival(e) == x, isint(e)]


T.AXIOM['pyint'] = _ax_pyint


def _ax_sl_len(e):
    n, s, p, k = e.children()
    return [z3.Implies(z3.And(k > 0, s >= p), e == 0), z3.Implies(z3.And(k < 0, s <= p), e == 0),
            z3.Implies(z3.And(k == 1, s < p), e == p - s), z3.Implies(z3.And(k == -1, s > p), e == s - p),
            z3.Implies(z3.And(k > 0, s < p), e >= 1), z3.Implies(z3.And(k < 0, s > p), e >= 1), e <= n]


T.AXIOM['sl_len'] = _ax_sl_len


def _ax_isseq(e):
    return [z3.Implies(e, iterable(e.arg(0)))]


T.AXIOM['isseq'] = _ax_isseq


# ---- ledger of owned references --------------------------------------------------------------------
class Tok:
    """formal sum of owned references: singles {key: (coef, id term)}, ranges [(coef, n, bound var, body)],
    plus an opaque symbol for the unknown start of a loop iteration"""
    __slots__ = ('s', 'r', 'sym')

    def __init__(self, s=None, r=(), sym=None):
        self.s, self.r, self.sym = s or {}, r, sym

    def add(self, t, c):
        if isinstance(t, int):
            return self            # statically allocated / immortal objects
        t = nrm(t)
        if isinstance(t, int):
            return self
        k = t.get_id()
        d = dict(self.s)
        c2 = c + (d[k][0] if k in d else 0)
        if c2:
            d[k] = (c2, t)
        else:
            d.pop(k, None)
        return Tok(d, self.r, self.sym)

    def plus(self, o, sgn=1):
        r = self
        for c, t in o.s.values():
            r = r.add(t, sgn * c)
        return Tok(r.s, r.r + tuple((sgn * c, n, v, b) for c, n, v, b in o.r), self.sym)

    def addrange(self, c, n, fn):
        v = z3.Int('rk!%d' % T.uid())
        b = fn(v)
        if isinstance(b, int):
            return self
        return Tok(self.s, self.r + ((c, n, v, b),), self.sym)

    def zero(self):
        return not self.s and not self.r

    def __repr__(self):
        return 'Tok(%s|%s)' % (' '.join('%+d*%s' % (c, t) for c, t in self.s.values()),
                               ' '.join('%+d*sum(%s:%s<%s)' % (c, b, v, n) for c, n, v, b in self.r))


def tok(st):
    return st.g('rc') or Tok()


def own(ex, st, v, c):
    t = ex.to_id(v)
    if t is None:
        raise Unsupported('reference count of %r' % (v,))
    st.setg('rc', tok(st).add(t, c))


def range_void(ex, st, r):
    """every identity in the range is NULL or an immortal object"""
    c, n, v, b = r
    k = z3.Int('vk!%d' % T.uid())
    s = st.copy()
    s.assume(And(k >= 0, lt(k, n)))
    x = subst(b, [(v, k)])
    return ex.proves(s, Or(eq(x, 0), *[eq(x, gid(g)) for g in core.GLOBOBJ]))


def tok_zero(ex, st, tk):
    """prove the formal sum is zero under the path condition; returns (ok, residue)"""
    singles = [(c, t) for c, t in tk.s.values()]
    ranges = [r for r in tk.r if not (is_c(r[1]) and r[1] <= 0)]
    ranges = [r for r in ranges if not ex.proves(st, le(r[1], 0))]
    ranges = [r for r in ranges if not range_void(ex, st, r)]
    # immortal / null ids contribute nothing
    ch = True
    while ch:
        ch = False
        # single-single
        for i in range(len(singles)):
            for j in range(i + 1, len(singles)):
                if singles[i][0] * singles[j][0] < 0 and ex.proves(st, eq(singles[i][1], singles[j][1])):
                    a, b = singles[i], singles[j]
                    c = a[0] + b[0]
                    singles = [x for k, x in enumerate(singles) if k not in (i, j)]
                    if c:
                        singles.append((c, a[1]))
                    ch = True
                    break
            if ch:
                break
        if ch:
            continue
        for i in range(len(ranges)):
            for j in range(i + 1, len(ranges)):
                a, b = ranges[i], ranges[j]
                if a[0] != -b[0]:
                    continue
                if ex.proves(st, eq(a[1], b[1])) and range_eq(ex, st, a, b):
                    ranges = [x for k, x in enumerate(ranges) if k not in (i, j)]
                    ch = True
                    break
            if ch:
                break
        if ch:
            continue
        # split the longer of two opposite ranges
        for i in range(len(ranges)):
            for j in range(len(ranges)):
                a, b = ranges[i], ranges[j]
                if i == j or a[0] != -b[0]:
                    continue
                if ex.proves(st, le(b[1], a[1])):
                    lohi = None
                    if range_eq(ex, st, (a[0], b[1], a[2], a[3]), b):
                        d = sub(a[1], b[1])
                        body = nrm(subst(a[3], [(a[2], add(a[2], b[1]))]))
                        lohi = d, body
                    else:
                        d = sub(a[1], b[1])
                        tail = nrm(subst(a[3], [(a[2], add(a[2], d))]))
                        if range_eq(ex, st, (a[0], b[1], a[2], tail), b):
                            lohi = d, a[3]
                    if lohi is not None:
                        rest = [x for k, x in enumerate(ranges) if k not in (i, j)]
                        if is_c(lohi[0]) and lohi[0] <= 4:
                            for q in range(lohi[0]):
                                t = subst(lohi[1], [(a[2], q)])
                                singles.append((a[0], t))
                        elif not ex.proves(st, le(lohi[0], 0)) and not range_void(ex, st, (a[0], lohi[0], a[2], lohi[1])):
                            rest.append((a[0], lohi[0], a[2], lohi[1]))
                        ranges = rest
                        ch = True
                        break
            if ch:
                break
        if ch:
            continue
        # range of provably constant small length
        for i in range(len(ranges)):
            a = ranges[i]
            if is_c(a[1]) and a[1] <= 4:
                for q in range(a[1]):
                    singles.append((a[0], subst(a[3], [(a[2], q)])))
                ranges = ranges[:i] + ranges[i + 1:]
                ch = True
                break
            if ex.proves(st, eq(a[1], 1)):
                singles.append((a[0], subst(a[3], [(a[2], 0)])))
                ranges = ranges[:i] + ranges[i + 1:]
                ch = True
                break
            # peel the element matching a single of opposite sign from either end
            for k, (c, t) in enumerate(singles):
                if c * a[0] < 0 and ex.proves(st, lt(0, a[1])):
                    last = subst(a[3], [(a[2], sub(a[1], 1))])
                    first = subst(a[3], [(a[2], 0)])
                    sg = 1 if c > 0 else -1
                    hit = None
                    if ex.proves(st, eq(last, t)):
                        hit = (a[0], sub(a[1], 1), a[2], a[3])
                    elif ex.proves(st, eq(first, t)):
                        hit = (a[0], sub(a[1], 1), a[2], subst(a[3], [(a[2], add(a[2], 1))]))
                    if hit:
                        ranges[i] = hit
                        singles = [x for q, x in enumerate(singles) if q != k]
                        if c - sg:
                            singles.append((c - sg, t))
                        ch = True
                        break
            if ch:
                break
        if ch:
            continue
        # a single at an interior position of a range of the opposite sign: split the range there
        for i in range(len(ranges)):
            a = ranges[i]
            for k, (c, t) in enumerate(singles):
                if c * a[0] < 0:
                    pos = match_pos(a[3], a[2], t)
                    if pos is not None and ex.proves(st, And(le(0, pos), lt(pos, a[1]))):
                        sg = 1 if c > 0 else -1
                        nr = [x for q, x in enumerate(ranges) if q != i]
                        nr.append((a[0], pos, a[2], a[3]))
                        nr.append((a[0], sub(sub(a[1], pos), 1), a[2], nrm(subst(a[3], [(a[2], add(add(a[2], pos), 1))]))))
                        ranges = [r for r in nr if not ex.proves(st, le(r[1], 0))]
                        singles = [x for q, x in enumerate(singles) if q != k]
                        if c - sg:
                            singles.append((c - sg, t))
                        ch = True
                        break
            if ch:
                break
    # references to provably immortal objects (None, True, ...) do not count
    singles = [(c, t) for c, t in singles if not ex.proves(st, Or(*[eq(t, gid(n)) for n in core.GLOBOBJ]))]
    return not singles and not ranges, Tok({i: s for i, s in enumerate(singles)}, tuple(ranges))


def match_pos(body, v, t):
    if isinstance(t, int):
        return None
    for (fn, pos, a, b) in index_forms(body, v):
        if body.decl().name() == fn and z3.is_app(t) and t.decl().name() == fn:
            d = sub(t.arg(pos), b)
            if a == 1:
                return d
            if a == -1:
                return mul(-1, d)
    return None


def range_eq(ex, st, a, b):
    k = z3.Int('rq!%d' % T.uid())
    s2 = st.copy()
    s2.assume(And(k >= 0, lt(k, a[1])))
    return ex.proves(s2, eq(subst(a[3], [(a[2], k)]), subst(b[3], [(b[2], k)])))


# ---- helpers -----------------------------------------------------------------------------------------
def seterr(st, name):
    st.setg('err', name)


def fail(st, val, err, why):
    """copy of the state in which the call failed for a reason outside the arguments (allocation, environment)"""
    f = st.copy()
    if err:
        seterr(f, err)
    f.setg('apifail', why)
    return Outcome(f, RET, val)


def ok(st, v):
    return Outcome(st, RET, v)


def oid(ex, v, what):
    t = ex.to_id(v)
    if t is None:
        raise Unsupported('%s of %r' % (what, v))
    return t


def nonnull(ex, st, v, what):
    if v is NULL:
        ex.oblige(st, 'memory', False, 'NULL passed to %s' % what)
        raise DeadPath()
    if isinstance(v, O):
        lo, _ = interval(v.t)
        if lo is None or lo < 1:
            ex.oblige(st, 'memory', lt(0, v.t), 'NULL passed to %s' % what)


def fork2(ex, st, cond):
    return ex.fork(st, cond)


def cstr(ex, p):
    if not (isinstance(p, P) and p.b.kind == 'global' and is_c(p.off)):
        raise Unsupported('format string %r' % (p,))
    gi = p.b.mod.ginit(p.b.name)
    v = gi[1]
    if v[0] == 'str':
        s = v[1][p.off:]
        return s[:s.index(0)].decode('latin1')
    if v[0] == 'zero':
        return ''
    raise Unsupported('format string')


NOGIL = ('PyEval_RestoreThread', 'malloc', 'calloc', 'free', 'abort', '__clang_call_terminate')


def dispatch(ex, st, fr, name, args, ins):
    f, err_ok = API[name]
    if st.g('gil') is False and name not in NOGIL and not name.startswith(('__cxa', 'std::', '@', 'PyMem_Raw')):
        ex.oblige(st, 'gil', False, '%s called without the GIL' % name)
    if not err_ok and st.g('err') is not None and not ex_quiet_err(st):
        ex.oblige(st, 'errproto', False, '%s called with an exception already pending' % name)
    return f(ex, st, fr, args, name)


def ex_quiet_err(st):
    return False


# ---- references
@api('Py_INCREF', 'Py_IncRef', 'PyFast_INCREF', 'Py_NewRef', '_Py_NewRef', 'Py_XINCREF', 'Py_XNewRef', '_Py_XNewRef', err_ok=True)
def _incref(ex, st, fr, a, name):
    if a[0] is NULL and 'X' in name:
        return NULL
    nonnull(ex, st, a[0], name)
    own(ex, st, a[0], 1)
    return a[0] if 'NewRef' in name else None


@api('Py_DECREF', 'Py_DecRef', 'PyFast_DECREF', 'Py_XDECREF', 'PyFast_XDECREF', err_ok=True)
def _decref(ex, st, fr, a, name):
    v = a[0]
    if 'X' in name or name == 'Py_DecRef':
        if v is NULL:
            return None
        if isinstance(v, O) and interval(v.t)[0] is None or isinstance(v, O) and interval(v.t)[0] < 1:
            n, z = ex.fork(st, lt(0, v.t))
            outs = []
            if n is not None:
                own(ex, n, v, -1)
                outs.append(ok(n, None))
            if z is not None:
                outs.append(ok(z, None))
            return outs
    nonnull(ex, st, v, name)
    own(ex, st, v, -1)
    if isinstance(v, P) and getattr(v.b, 'local', False):
        k = v.b.oid.get_id()
        if k not in tok(st).s and v.b.bid in st.m:
            if v.b.kind == 'obj':
                HOOKS['release'](ex, st, v.b)
            elif v.b.kind in ('pylist', 'pytuple'):
                d = st.m[v.b.bid]
                c = d['cont']
                st.setg('rc', tok(st).addrange(-1, d['len'], lambda q: c.at(q)))
            st.m.pop(v.b.bid, None)
    return None


@api('_Py_Dealloc', err_ok=True)
def _dealloc(ex, st, fr, a, name):
    if isinstance(a[0], P) and a[0].b.kind == 'cells':
        st.setg('deallocs', (st.g('deallocs') or 0) + 1)
    return None


@api('_Py_IsImmortal', err_ok=True)
def _immortal(ex, st, fr, a, name):
    return ex.fresh(st, 'immortal', 0, 1)


@api('Py_TYPE', err_ok=True)
def _type(ex, st, fr, a, name):
    v = a[0]
    nonnull(ex, st, v, name)
    return type_of(ex, st, v)


def type_of(ex, st, v):
    if isinstance(v, P):
        if getattr(v.b, 'typ', None) is not None:
            return v.b.typ
        if v.b.kind == 'pylist':
            return O(gid('PyList_Type'))
        if v.b.kind == 'pytuple':
            return O(gid('PyTuple_Type'))
        if v.b.oid is not None:
            return O(typ(Z(v.b.oid)))
        raise Unsupported('type of %r' % (v,))
    if isinstance(v, O):
        return O(typ(Z(v.t)))
    raise Unsupported('type of %r' % (v,))


@api('PyType_HasFeature', err_ok=True)
def _hasfeature(ex, st, fr, a, name):
    t = ex.to_id(a[0])
    if t is None:
        raise Unsupported('type flags of %r' % (a[0],))
    if not is_c(a[1]):
        raise Unsupported('type flags')
    f = a[1] % (1 << 64)
    if f & (f - 1):
        raise Unsupported('type flag mask')
    bit = f.bit_length() - 1
    if is_c(t):
        nm = gname(t) or ''
        if nm == 'PyList_Type':
            return bit == LIST_BIT
        if nm == 'PyTuple_Type':
            return bit == TUPLE_BIT
        if nm == 'PyLong_Type':
            return bit == INT_BIT
        if nm.endswith('ListType') or nm.endswith('IterType'):
            return bit in (0,) and False
    return If(feat(Z(t), z3.IntVal(bit)), 1, 0)


@api('PyObject_TypeCheck', 'PyType_IsSubtype', err_ok=True)
def _subtype(ex, st, fr, a, name):
    raise Unsupported(name)


@api('Py_SIZE', 'PyList_GET_SIZE', 'PyTuple_GET_SIZE', 'PyList_Size', 'PyTuple_Size', err_ok=True)
def _size(ex, st, fr, a, name):
    v = a[0]
    if isinstance(v, P) and v.b.kind in ('pylist', 'pytuple'):
        return st.m[v.b.bid]['len']
    if isinstance(v, P) and v.b.kind == 'argtuple':
        return len(v.b.items)
    t = oid(ex, v, name)
    ex.oblige(st, 'memory', Or(islist(t), istuple(t)), '%s of an object known to be a list or tuple' % name)
    return ilen(Z(t))


def listlike(ex, st, t):
    """contents of an opaque list/tuple"""
    return Fn(lambda k: item(Z(t), Z(k)), 'items(%s)' % t)


_oit = {}


def oitems(ex, t):
    k = t if is_c(t) else t.get_id()
    b = _oit.get(k)
    if b is None:
        b = Block('oitems', 'ob_item', seq=listlike(ex, None, t), n=ilen(Z(t)), t=t)
        _oit[k] = b
    return b


ndigits = func('ndigits', 1, 2, 2 ** 40)


def obj_load(ex, st, fr, rt, p):
    t, off = p.t, p.off
    if is_c(off):
        if off == 8 and rt.k == 'ptr':
            return O(typ(Z(t)))
        if off in (16, 24) and rt.k == 'int' and ex.proves(st, isint(t)):
            # CPython 3.12: lv_tag (number of digits * 8 + sign: 0 positive, 1 zero, 2 negative) and the lowest 30-bit digit
            x = ival(Z(t))
            m = If(lt(x, 0), sub(0, x), x)
            if off == 16 and rt.a == 64:
                return add(mul(8, If(lt(m, 1 << 30), If(eq(x, 0), 0, 1), ndigits(Z(t)))), If(lt(x, 0), 2, If(eq(x, 0), 1, 0)))
            if off == 24 and rt.a == 32:
                return If(lt(m, 1 << 30), m, Z(m) % (1 << 30))
        if off == 16 and rt.k == 'int' and rt.a == 64:
            ex.oblige(st, 'memory', Or(islist(t), istuple(t)), 'ob_size of an object known to be a list or tuple')
            return ilen(Z(t))
        if off == 24 and rt.k == 'ptr' and ex.proves(st, islist(t)):
            return P(oitems(ex, t), 0)
    if rt.k == 'ptr':
        i = exdiv(sub(off, 24), 8)
        if i is not None and ex.proves(st, istuple(t)):
            ex.oblige(st, 'memory', And(le(0, i), lt(i, ilen(Z(t)))), 'tuple item index within bounds')
            return O(item(Z(t), Z(i)))
    ex.oblige(st, 'memory', False, 'field access of an object of unknown type (offset %s)' % (off,))
    raise DeadPath()


HOOKS['obj_load'] = obj_load


def obj_store(ex, st, fr, rt, v, p):
    ex.oblige(st, 'memory', False, 'field store into an object of unknown type (offset %s)' % (p.off,))
    raise DeadPath()


HOOKS['obj_store'] = obj_store


def resolve_obj(ex, st, p):
    ex.oblige(st, 'memory', False, 'object accessed as one of the library containers without a type check')
    raise DeadPath()


HOOKS['resolve_obj'] = resolve_obj


def pylist_load(ex, st, fr, rt, p):
    b = p.b
    d = st.m.get(b.bid)
    if d is None:
        ex.oblige(st, 'memory', False, 'use of a freed %s' % b.kind)
        raise DeadPath()
    if is_c(p.off) and p.off == 8:
        return type_of(ex, st, P(b, 0))
    if is_c(p.off) and p.off == 16:
        return d['len']
    if b.kind == 'pylist' and is_c(p.off) and p.off == 24:
        return P(litems(b), 0)
    if b.kind == 'pytuple':
        return stl.arr_load(ex, st, fr, rt, P(litems(b), sub(p.off, 24)))
    raise Unsupported('list field')


def pylist_store(ex, st, fr, rt, v, p):
    b = p.b
    if b.kind == 'pytuple':
        # direct stores into ob_item steal the reference
        stl.arr_store(ex, st, fr, rt, v, P(litems(b), sub(p.off, 24)))
        return
    if b.kind == 'pylist' and is_c(p.off) and p.off == 32:
        ex.oblige(st, 'memory', eq(ex.asint(v), st.m[b.bid]['len']), 'the allocated field of a new list keeps its value')
        return
    raise Unsupported('list field store')


def litems(b):
    if getattr(b, '_items', None) is None:
        b._items = Block('litems', b.name + '.items', owner=b)
    return b._items


for _k in ('pylist', 'pytuple'):
    core.MEM_LOAD[_k] = pylist_load
    core.MEM_STORE[_k] = pylist_store


def litems_store(ex, st, fr, rt, v, p):
    # slots of live containers are summed separately in the ledger: storing transfers, it does not count
    stl.arr_store(ex, st, fr, rt, v, p)


core.MEM_STORE['litems'] = litems_store


def new_block(ex, st, kind, name, **kw):
    """a freshly allocated object; inside loops its identity is a function of the iteration"""
    b = Block(kind, name, **kw)
    t = ex.fresh(st, 'o!' + name, 10 ** 6, None)
    b.oid = t
    ex.oids[t.get_id()] = b
    b.local = True
    st.m[b.bid] = {}
    own(ex, st, P(b, 0), 1)
    return b


# ---- exceptions
def excname(ex, v):
    t = ex.to_id(v)
    if is_c(t):
        n = gname(t) or '?'
        return n.rstrip('*')
    return 'any'


@api('PyErr_SetString', 'PyErr_SetNone', 'PyErr_SetObject', 'PyErr_Format', err_ok=True)
def _seterr(ex, st, fr, a, name):
    seterr(st, excname(ex, a[0]))
    return NULL if name == 'PyErr_Format' else None


@api('PyErr_NoMemory', err_ok=True)
def _nomem(ex, st, fr, a, name):
    seterr(st, 'PyExc_MemoryError')
    return NULL


@api('PyErr_Occurred', err_ok=True)
def _occurred(ex, st, fr, a, name):
    return NULL if st.g('err') is None else O(gid('errtype'))


@api('PyErr_Clear', err_ok=True)
def _clear(ex, st, fr, a, name):
    seterr(st, None)
    return None


@api('PyErr_ExceptionMatches', err_ok=True)
def _matches(ex, st, fr, a, name):
    e = st.g('err')
    if e is None:
        return 0
    n = excname(ex, a[0])
    if e == n or n in ('PyExc_Exception', 'PyExc_BaseException'):
        return 1
    if e == 'any' or n == 'any':
        return ex.fresh(st, 'excmatch', 0, 1)
    return 0


@api('PyErr_Fetch', 'PyErr_Restore', 'PyErr_GetRaisedException', 'PyErr_SetRaisedException', err_ok=True)
def _fetch(ex, st, fr, a, name):
    raise Unsupported(name)


# ---- GIL
@api('PyEval_SaveThread')
def _save(ex, st, fr, a, name):
    st.setg('gil', False)
    return O(gid('tstate'))


@api('PyEval_RestoreThread', err_ok=True)
def _restore(ex, st, fr, a, name):
    ex.oblige(st, 'gil', st.g('gil') is False, 'PyEval_RestoreThread with the GIL released')
    st.setg('gil', True)
    return None


# ---- integers
def as_c(ex, st, v, lo, hi, name, need_int=False, none=-1):
    nonnull(ex, st, v, name)
    t = oid(ex, v, name)
    okc = isint(t) if need_int else isidx(Z(t))
    if is_c(t):
        pass
    x = ival(Z(t))
    outs = []
    good, bad = ex.fork(st, And(okc, le(lo, x), le(x, hi)))
    if good is not None:
        outs.append(ok(good, x))
    if bad is not None:
        tb, ob = ex.fork(bad, Not(okc))
        if tb is not None:
            seterr(tb, 'PyExc_TypeError')
            outs.append(ok(tb, none))
        if ob is not None:
            seterr(ob, 'PyExc_OverflowError')
            outs.append(ok(ob, none))
    return outs


@api('PyLong_AsLong', 'PyLong_AsLongLong')
def _aslong(ex, st, fr, a, name):
    return as_c(ex, st, a[0], I64MIN, I64MAX, name)


@api('_PyLong_AsInt', 'PyLong_AsInt')
def _asint(ex, st, fr, a, name):
    return as_c(ex, st, a[0], INT_MIN, INT_MAX, name)


@api('PyLong_AsSsize_t')
def _asssize(ex, st, fr, a, name):
    return as_c(ex, st, a[0], I64MIN, I64MAX, name, need_int=True)


@api('PyNumber_AsSsize_t')
def _numasssize(ex, st, fr, a, name):
    outs = as_c(ex, st, a[0], I64MIN, I64MAX, name)
    for o in outs:
        if o.st.g('err') == 'PyExc_OverflowError':
            if a[1] is NULL:
                seterr(o.st, None)
                x = ival(Z(ex.to_id(a[0])))
                o.val = If(lt(x, 0), I64MIN, I64MAX)
            else:
                seterr(o.st, excname(ex, a[1]))
    return outs


@api('PyIndex_Check', err_ok=True)
def _indexcheck(ex, st, fr, a, name):
    t = oid(ex, a[0], name)
    return If(isidx(Z(t)), 1, 0)


def mkint(ex, st, x):
    t = pyint(Z(x))
    f = fail(st, NULL, 'PyExc_MemoryError', 'PyLong allocation')
    own(ex, st, O(t), 1)
    return [ok(st, O(t)), f]


@api('PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t')
def _fromlong(ex, st, fr, a, name):
    return mkint(ex, st, ex.asint(a[0], name))


@api('PyLong_FromSize_t', 'PyLong_FromUnsignedLong', 'PyLong_FromUnsignedLongLong')
def _fromsize(ex, st, fr, a, name):
    return mkint(ex, st, ex.uns(st, ex.asint(a[0], name), 64))


@api('_PyLong_FromDigits')
def _fromdigits(ex, st, fr, a, name):
    n = a[1]
    if not (is_c(n) and n == 1):
        raise Unsupported('_PyLong_FromDigits with %s digits' % (n,))
    d = ex.uns(st, ex.asint(ex.load(st, fr, I32, a[2])), 32)
    neg = ex.asbool(Not(eq(ex.asint(a[0]), 0)))
    if ex.proves(st, And(lt(0, d), lt(d, 2 ** 30))):
        return mkint(ex, st, If(neg, mul(-1, d), d))
    outs = []
    g, b = ex.fork(st, And(lt(0, d), lt(d, 2 ** 30)))
    if g is not None:
        outs += mkint(ex, g, If(neg, mul(-1, d), d))
    if b is not None:
        t = ex.fresh(b, 'denormal_int', 10 ** 6, None)
        own(ex, b, O(t), 1)
        outs.append(ok(b, O(t)))
    return outs


@api('PyBool_FromLong')
def _frombool(ex, st, fr, a, name):
    x = ex.asint(a[0])
    t, f = ex.fork(st, Not(eq(x, 0)))
    outs = []
    if t is not None:
        outs.append(ok(t, ex.from_id(gid('_Py_TrueStruct')) if '_Py_TrueStruct' in GID else O(gid('_Py_TrueStruct'))))
    if f is not None:
        outs.append(ok(f, O(gid('_Py_FalseStruct'))))
    return outs


@api('PyObject_IsTrue')
def _istrue(ex, st, fr, a, name):
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    if is_c(t):
        n = gname(t)
        if n == '_Py_TrueStruct':
            return 1
        if n in ('_Py_FalseStruct', '_Py_NoneStruct'):
            return 0
    outs = []
    g, b = ex.fork(st, Not(truthfail(Z(t))))
    if g is not None:
        outs.append(ok(g, If(truth(Z(t)), 1, 0)))
    if b is not None:
        seterr(b, 'any')
        outs.append(ok(b, -1))
    return outs


@api('PyObject_RichCompareBool')
def _rcb(ex, st, fr, a, name):
    x, y = oid(ex, a[0], name), oid(ex, a[1], name)
    nonnull(ex, st, a[0], name)
    nonnull(ex, st, a[1], name)
    op = a[2]
    if not is_c(op):
        raise Unsupported('symbolic comparison operator')
    outs = []
    if op in (2, 3):
        i, st = ex.fork(st, eq(x, y))
        if i is not None:
            outs.append(ok(i, 1 if op == 2 else 0))
        if st is None:
            return outs
    # == and != of an element type are complementary (assumed)
    b, g = ex.fork(st, rcfail(Z(x), Z(y), z3.IntVal(2 if op == 3 else op)))
    if g is not None:
        r = rcb(Z(x), Z(y), z3.IntVal(2 if op == 3 else op))
        outs.append(ok(g, If(Not(r) if op == 3 else r, 1, 0)))
    if b is not None:
        seterr(b, 'any')
        outs.append(ok(b, -1))
    return outs


# ---- argument parsing
def parse(ex, st, fr, args, kwargs, fmt, kwlist, outp, name):
    """scenario-driven: the argument tuple has a concrete number of (arbitrary) items"""
    if not (isinstance(args, P) and args.b.kind == 'argtuple'):
        raise Unsupported('%s on %r' % (name, args))
    items = list(args.b.items)          # [value or None]
    fmt = fmt.split(':')[0].split(';')[0]
    units = []
    req = None
    i = 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c == '|':
            req = len(units)
            continue
        if c == '$':
            continue
        if c == 'O' and i < len(fmt) and fmt[i] == '!':
            i += 1
            c = 'O!'
        if c in ('s', 'y', 'z') and i < len(fmt) and fmt[i] in '#*':
            c += fmt[i]
            i += 1
        units.append(c)
    if req is None:
        req = len(units)
    npos = len([x for x in items if x is not None])
    if args.b.kwnames is not None and kwlist is not None:
        # items given by position or keyword: map names of the scenario to kwlist positions
        got = [None] * len(units)
        for nm, v in zip(args.b.kwnames, items):
            if v is None:
                continue
            if nm not in kwlist:
                seterr(st, 'PyExc_TypeError')
                return [ok(st, 0)]
            got[kwlist.index(nm)] = v
        if any(x is None for x in got[:req]):
            seterr(st, 'PyExc_TypeError')
            return [ok(st, 0)]
    else:
        if npos < req or npos > len(units):
            seterr(st, 'PyExc_TypeError')
            return [ok(st, 0)]
        got = items[:npos] + [None] * (len(units) - npos)
    live = [st]
    outs = []
    oi = 0
    for c, v in zip(units, got):
        dst = outp[oi]
        dst2 = None
        oi += 1
        if c == 'O!':
            dst2 = dst
            dst = outp[oi]
            oi += 1
        if v is None:
            continue
        nxt = []
        for s in live:
            if c == 'O':
                ex.store(s, fr, PTR, v, dst)
                nxt.append(s)
            elif c == 'O!':
                tt = type_of(ex, s, v)
                good, bad = ex.fork(s, eq(ex.to_id(tt), ex.to_id(dst2)))
                if good is not None:
                    ex.store(good, fr, PTR, v, dst)
                    nxt.append(good)
                if bad is not None:
                    seterr(bad, 'PyExc_TypeError')
                    outs.append(ok(bad, 0))
            elif c in ('n', 'i', 'l', 'L', 'K', 'k', 'I', 'h', 'b'):
                lo, hi, w = {'n': (I64MIN, I64MAX, 64), 'i': (INT_MIN, INT_MAX, 32), 'l': (I64MIN, I64MAX, 64),
                             'L': (I64MIN, I64MAX, 64), 'K': (None, None, 64), 'k': (None, None, 64),
                             'I': (None, None, 32), 'h': (-2 ** 15, 2 ** 15 - 1, 16), 'b': (0, 255, 8)}[c]
                if lo is None:
                    t = oid(ex, v, name)
                    good, bad = ex.fork(s, isidx(Z(t)))
                    if good is not None:
                        ex.store(good, fr, Ty('int', w), ex.wrap(good, ival(Z(t)), w), dst)
                        nxt.append(good)
                    if bad is not None:
                        seterr(bad, 'PyExc_TypeError')
                        outs.append(ok(bad, 0))
                    continue
                for o in as_c(ex, s, v, lo, hi, name):
                    if o.st.g('err') is None:
                        ex.store(o.st, fr, Ty('int', w), o.val, dst)
                        nxt.append(o.st)
                    else:
                        outs.append(ok(o.st, 0))
            elif c == 'p':
                for o in _istrue(ex, s, fr, [v], name):
                    if o.st.g('err') is None:
                        ex.store(o.st, fr, I32, o.val, dst)
                        nxt.append(o.st)
                    else:
                        outs.append(ok(o.st, 0))
            else:
                raise Unsupported('argument format %s' % c)
        live = nxt
    return outs + [ok(s, 1) for s in live]


@api('PyArg_ParseTuple')
def _parsetuple(ex, st, fr, a, name):
    return parse(ex, st, fr, a[0], NULL, cstr(ex, a[1]), None, a[2:], name)


@api('PyArg_UnpackTuple')
def _unpack(ex, st, fr, a, name):
    lo, hi = a[2], a[3]
    return parse(ex, st, fr, a[0], NULL, 'O' * lo + '|' + 'O' * (hi - lo), None, a[4:], name)


@api('PyArg_ParseTupleAndKeywords')
def _parsekw(ex, st, fr, a, name):
    kwl = []
    kp = a[3]
    if not (isinstance(kp, P) and kp.b.kind in ('global', 'cells')):
        raise Unsupported('keyword list')
    i = 0
    while True:
        q = ex.load(st, fr, PTR, P(kp.b, kp.off + 8 * i))
        if q is NULL:
            break
        kwl.append(cstr(ex, q))
        i += 1
    return parse(ex, st, fr, a[0], a[1], cstr(ex, a[2]), kwl, a[4:], name)


@api('_PyArg_CheckPositional', err_ok=False)
def _checkpos(ex, st, fr, a, name):
    raise Unsupported(name)


# ---- iteration and sequences
@api('PyObject_GetIter')
def _getiter(ex, st, fr, a, name):
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    outs = []
    src, n, cond = iter_source(ex, st, a[0], t)
    g, b = ex.fork(st, cond)
    if b is not None:
        seterr(b, 'PyExc_TypeError')
        outs.append(ok(b, NULL))
    if g is not None:
        outs.append(fail(g, NULL, 'PyExc_MemoryError', 'iterator allocation'))
        blk = new_block(ex, g, 'pyiter', 'iter', src=t, seq=src, n=n)
        g.m[blk.bid] = {'pos': 0}
        outs.append(ok(g, P(blk, 0)))
    return outs


def iter_source(ex, st, v, t):
    if isinstance(v, P) and v.b.kind == 'obj':
        c = HOOKS['container_iter'](ex, st, v)
        # iterating one of the containers raises nothing of its own (contract of its iterator)
        st.assume(Not(ifail(Z(t))))
        return c
    return listlike(ex, st, t), ilen(Z(t)), iterable(Z(t))


@api('PyIter_Next')
def _iternext(ex, st, fr, a, name):
    v = a[0]
    if not (isinstance(v, P) and v.b.kind == 'pyiter'):
        raise Unsupported('PyIter_Next on %r' % (v,))
    b = v.b
    if b.bid not in st.m:
        ex.oblige(st, 'memory', False, 'iterator used after it was released')
        raise DeadPath()
    pos = st.m[b.bid]['pos']
    if not isinstance(pos, (int, z3.ArithRef)):
        raise Unsupported('iterator position')
    outs = []
    more, done = ex.fork(st, lt(pos, b.n))
    if more is not None:
        t = b.seq.at(pos)
        more.set(b.bid, 'pos', add(pos, 1))
        own(ex, more, O(t), 1)
        outs.append(ok(more, O(t)))
    if done is not None:
        bad, end = ex.fork(done, ifail(Z(b.src)))
        if end is not None:
            outs.append(ok(end, NULL))
        if bad is not None:
            seterr(bad, 'any')
            outs.append(ok(bad, NULL))
    return outs


@api('PyObject_LengthHint')
def _lenhint(ex, st, fr, a, name):
    f = fail(st, -1, 'any', '__length_hint__ failed')
    h = ex.fresh(st, 'hint', 0, 2 ** 63 - 1)
    st.setg('hints', (st.g('hints') or ()) + (h,))
    return [ok(st, h), f]


@api('PySequence_Check', err_ok=True)
def _seqcheck(ex, st, fr, a, name):
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    if isinstance(a[0], P) and a[0].b.kind in ('obj', 'pylist', 'pytuple'):
        return 1
    return If(isseq(Z(t)), 1, 0)


@api('PySequence_Size', 'PyObject_Size', 'PySequence_Length', 'PyObject_Length')
def _seqsize(ex, st, fr, a, name):
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    if isinstance(a[0], P) and a[0].b.kind == 'pylist':
        return st.m[a[0].b.bid]['len']
    if isinstance(a[0], P) and a[0].b.kind == 'obj':
        return HOOKS['container_iter'](ex, st, a[0])[1]
    outs = []
    g, b = ex.fork(st, isseq(Z(t)))
    if g is not None:
        outs.append(fail(g, -1, 'any', '__len__ failed'))
        outs.append(ok(g, ilen(Z(t))))
    if b is not None:
        seterr(b, 'PyExc_TypeError')
        outs.append(ok(b, -1))
    return outs


@api('PySequence_GetItem', 'PySequence_ITEM')
def _seqget(ex, st, fr, a, name):
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    i = ex.asint(a[1])
    outs = []
    if isinstance(a[0], P) and a[0].b.kind == 'obj':
        src, n, _ = HOOKS['container_iter'](ex, st, a[0])
        el = src.at(i)
    else:
        n = ilen(Z(t))
        el = item(Z(t), Z(i))
    g, b = ex.fork(st, And(le(0, i), lt(i, n)))
    if g is not None:
        f = fail(g, NULL, 'any', '__getitem__ failed')
        outs.append(f)
        own(ex, g, O(el), 1)
        outs.append(ok(g, O(el)))
    if b is not None:
        seterr(b, 'PyExc_IndexError')
        outs.append(ok(b, NULL))
    return outs


@api('PySequence_Fast')
def _seqfast(ex, st, fr, a, name):
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    outs = []
    g, b = ex.fork(st, Or(islist(t), istuple(t)))
    if g is not None:
        own(ex, g, O(t), 1)
        outs.append(ok(g, O(t)))
    if b is not None:
        g2, bad = ex.fork(b, And(iterable(Z(t)), Not(ifail(Z(t)))))
        if bad is not None:
            x, y = ex.fork(bad, iterable(Z(t)))
            if x is not None:
                seterr(x, 'any')
                outs.append(ok(x, NULL))
            if y is not None:
                seterr(y, 'PyExc_TypeError')
                outs.append(ok(y, NULL))
        if g2 is not None:
            outs.append(fail(g2, NULL, 'PyExc_MemoryError', 'list allocation'))
            f = fastof(Z(t))
            g2.assume(And(islist(f), eq(ilen(f), ilen(Z(t)))))
            src = t
            g2.pc.append(Forall(0, ilen(f), lambda j: eq(item(f, Z(j)), item(Z(src), Z(j))), 'PySequence_Fast'))
            own(ex, g2, O(f), 1)
            outs.append(ok(g2, O(f)))
    return outs


@api('PySequence_List', 'PySequence_Tuple')
def _seqlist(ex, st, fr, a, name):
    t = oid(ex, a[0], name)
    src, n, cond = iter_source(ex, st, a[0], t)
    outs = []
    g, b = ex.fork(st, And(cond, Not(ifail(Z(t)))))
    if b is not None:
        seterr(b, 'any')
        outs.append(ok(b, NULL))
    if g is not None:
        outs.append(fail(g, NULL, 'PyExc_MemoryError', 'list allocation'))
        blk = new_block(ex, g, 'pylist' if 'List' in name else 'pytuple', 'list')
        g.m[blk.bid] = {'len': n, 'cont': src}
        g.setg('rc', tok(g).addrange(1, n, lambda k: src.at(k)))
        outs.append(ok(g, P(blk, 0)))
    return outs


@api('PyList_New', 'PyTuple_New')
def _listnew(ex, st, fr, a, name):
    n = ex.asint(a[0])
    outs = []
    g, b = ex.fork(st, le(0, n))
    if b is not None:
        seterr(b, 'PyExc_SystemError')
        outs.append(ok(b, NULL))
    if g is not None:
        outs.append(fail(g, NULL, 'PyExc_MemoryError', 'list allocation'))
        blk = new_block(ex, g, 'pylist' if 'List' in name else 'pytuple', 'list')
        g.m[blk.bid] = {'len': n, 'cont': Fn(lambda k: 0, 'nulls')}
        outs.append(ok(g, P(blk, 0)))
    return outs


@api('PyList_SET_ITEM', 'PyTuple_SET_ITEM', 'PyList_SetItem', 'PyTuple_SetItem', err_ok=True)
def _setitem(ex, st, fr, a, name):
    v = a[0]
    if not (isinstance(v, P) and v.b.kind in ('pylist', 'pytuple')):
        raise Unsupported('%s on %r' % (name, v))
    d = st.m.get(v.b.bid)
    if d is None:
        ex.oblige(st, 'memory', False, 'store into a freed list')
        raise DeadPath()
    i = ex.asint(a[1])
    ex.oblige(st, 'memory', And(le(0, i), lt(i, d['len'])), '%s index within the list' % name)
    t = oid(ex, a[2], name)
    st.set(v.b.bid, 'cont', Store(d['cont'], i, t))
    return 0 if name.endswith('SetItem') else None


@api('PyList_Append')
def _listappend(ex, st, fr, a, name):
    v = a[0]
    if not (isinstance(v, P) and v.b.kind == 'pylist'):
        raise Unsupported('%s on %r' % (name, v))
    d = st.m[v.b.bid]
    t = oid(ex, a[1], name)
    f = fail(st, -1, 'PyExc_MemoryError', 'list append')
    own(ex, st, a[1], 1)
    st.set(v.b.bid, 'cont', Ins(d['cont'], d['len'], 1, lambda k: t))
    st.set(v.b.bid, 'len', add(d['len'], 1))
    return [ok(st, 0), f]


@api('PyList_GET_ITEM', 'PyTuple_GET_ITEM', 'PyList_GetItem', 'PyTuple_GetItem', err_ok=True)
def _getitem(ex, st, fr, a, name):
    v = a[0]
    i = ex.asint(a[1])
    if isinstance(v, P) and v.b.kind in ('pylist', 'pytuple'):
        d = st.m[v.b.bid]
        ex.oblige(st, 'memory', And(le(0, i), lt(i, d['len'])), '%s index within the list' % name)
        return ex.from_id(d['cont'].at(i))
    if isinstance(v, P) and v.b.kind == 'argtuple':
        if is_c(i) and 0 <= i < len(v.b.items):
            return v.b.items[i]
        raise Unsupported('argument index')
    t = oid(ex, v, name)
    ex.oblige(st, 'memory', And(Or(islist(t), istuple(t)), le(0, i), lt(i, ilen(Z(t)))), '%s index within the list' % name)
    return O(item(Z(t), Z(i)))


@api('PySequence_Concat')
def _concat(ex, st, fr, a, name):
    v, w = a
    if not (isinstance(v, P) and v.b.kind == 'pylist'):
        raise Unsupported('PySequence_Concat on %r' % (v,))
    d = st.m[v.b.bid]
    t = oid(ex, w, name)
    outs = []
    if isinstance(w, P) and w.b.kind == 'obj':
        seterr(st, 'PyExc_TypeError')
        return [ok(st, NULL)]
    g, b = ex.fork(st, islist(t))
    if b is not None:
        seterr(b, 'PyExc_TypeError')
        outs.append(ok(b, NULL))
    if g is not None:
        outs.append(fail(g, NULL, 'PyExc_MemoryError', 'list allocation'))
        blk = new_block(ex, g, 'pylist', 'concat')
        g.m[blk.bid] = {'len': add(d['len'], ilen(Z(t))), 'cont': Ins(d['cont'], d['len'], ilen(Z(t)), lambda k: item(Z(t), Z(k)))}
        cc = g.m[blk.bid]
        g.setg('rc', tok(g).addrange(1, cc['len'], lambda k: cc['cont'].at(k)))
        outs.append(ok(g, P(blk, 0)))
    return outs


# ---- slices
@api('PySlice_Unpack')
def _slunpack(ex, st, fr, a, name):
    nonnull(ex, st, a[0], name)
    t = oid(ex, a[0], name)
    ex.oblige(st, 'memory', eq(typ(Z(t)), gid('PySlice_Type')), 'PySlice_Unpack of an object known to be a slice')
    outs = []
    g, b = ex.fork(st, sl_ok(Z(t)))
    if b is not None:
        seterr(b, 'any')
        outs.append(ok(b, -1))
    if g is not None:
        g.assume(Not(eq(sl_step(Z(t)), 0)))
        ex.store(g, fr, I64, sl_start(Z(t)), a[1])
        ex.store(g, fr, I64, sl_stop(Z(t)), a[2])
        ex.store(g, fr, I64, sl_step(Z(t)), a[3])
        outs.append(ok(g, 0))
    return outs


def adjust(n, start, stop, step):
    """PySlice_AdjustIndices on terms -> (start, stop, length)"""
    def one(x):
        neg = lt(step, 0)
        return If(lt(x, 0), If(lt(add(x, n), 0), If(neg, -1, 0), add(x, n)),
                  If(le(n, x), If(neg, sub(n, 1), n), x))
    s, p = one(start), one(stop)
    return s, p, sl_len(Z(n), Z(s), Z(p), Z(step))


@api('PySlice_AdjustIndices', err_ok=True)
def _sladjust(ex, st, fr, a, name):
    n = ex.asint(a[0])
    s = ex.asint(ex.load(st, fr, I64, a[1]))
    p = ex.asint(ex.load(st, fr, I64, a[2]))
    k = ex.asint(a[3])
    s2, p2, L = adjust(n, s, p, k)
    cs, cp = ex.fresh(st, 'sstart'), ex.fresh(st, 'sstop')
    st.assume(eq(cs, s2))
    st.assume(eq(cp, p2))
    L = sl_len(Z(n), Z(s2), Z(p2), Z(k))
    cl = ex.fresh(st, 'slicelen', 0, 2 ** 62)
    st.assume(eq(cl, L))
    st.assume(And(le(0, cs) if False else le(-1, cs), le(cs, n), le(-1, cp), le(cp, n), le(cl, n)))
    st.assume(Implies(And(eq(k, 1), lt(cs, cp)), eq(cl, sub(cp, cs))))
    st.assume(Implies(And(lt(0, k), le(cp, cs)), eq(cl, 0)))
    st.assume(Implies(lt(0, k), And(le(0, cs), le(0, cp))))
    st.pc.append(Forall(0, cl, lambda j: And(le(0, add(cs, mul(j, k))), lt(add(cs, mul(j, k)), n)), 'slice indices'))
    sl = st.g('slices') or ()
    st.setg('slices', sl + ((n, s, p, k, cs, cp, cl),))
    ex.store(st, fr, I64, cs, a[1])
    ex.store(st, fr, I64, cp, a[2])
    return cl


# ---- the vendored list sort (CPythonSort.c): a stable, deterministic rearrangement; runs key and comparisons
sortfails = func('sortfails', 2, sort=BOOL)


@api('CPython_sort')
def _cpsort(ex, st, fr, a, name):
    n = ex.asint(a[1])
    kid = 0 if a[2] is NULL else oid(ex, a[2], name)
    if is_c(kid) and kid == gid('_Py_NoneStruct'):
        kid = 0
    rev = Not(eq(ex.asint(a[3]), 0))
    if isinstance(a[0], P):
        ai = stl.arrinfo(ex, st, a[0].b, 8, True)
        i = exdiv(a[0].off, 8) if ai is not None else None
        if ai is None or i is None or ai.ro or not ai.isp:
            raise Unsupported('CPython_sort of %r' % (a[0],))
        ex.oblige(st, 'memory', And(le(0, n), Or(eq(n, 0), And(le(0, i), le(add(i, n), ai.n)))), 'sorted range inside the array bounds')
        seq, put = ai.seq, ai.setter
        # every slot holds a live object (or the arrangement is vacuous)
    else:
        ex.oblige(st, 'memory', eq(n, 0), 'sort of a null array')
        seq, put, i = Fn(lambda k: 0), (lambda s, q: None), 0
    outs = []

    def arranged(s, okk):
        p = stl.permutation(ex, s, seq, n, i, key=kid, rev=rev, ok=okk)
        put(s, Pw(seq, i, add(i, n), lambda k: seq.at(add(i, p.f(Z(sub(k, i)))))))
    good, bad = ex.fork(st, Not(sortfails(Z(kid), Z(If(rev, 1, 0)))))
    if bad is not None:
        arranged(bad, False)
        seterr(bad, 'any')
        outs.append(ok(bad, NULL))
    if good is not None:
        f = good.copy()
        arranged(good, True)
        outs.append(ok(good, O(gid('_Py_NoneStruct'))))
        arranged(f, False)
        outs.append(fail(f, NULL, 'PyExc_MemoryError', 'sort buffers'))
    return outs


# ---- memory
@api('PyMem_Malloc', 'PyMem_RawMalloc', 'PyObject_Malloc', 'malloc', err_ok=True)
def _malloc(ex, st, fr, a, name):
    n = ex.uns(st, ex.asint(a[0]), 64)
    f = fail(st, NULL, None, 'out of memory')
    b = Block('arr', 'heap', es=None, isp=None, align=16)
    st.m[b.bid] = {'size': n, 'cont': ex.fresh_seq(st, 'uninit')}
    st.assume(le(n, 2 ** 46))
    st.setg('heap', (st.g('heap') or ()) + (b.bid,))
    return [ok(st, P(b, 0)), f]


@api('PyMem_Calloc', 'PyObject_Calloc', 'calloc', err_ok=True)
def _calloc(ex, st, fr, a, name):
    n = mul(ex.asint(a[0]), ex.asint(a[1]))
    f = fail(st, NULL, None, 'out of memory')
    b = Block('arr', 'heap', es=None, isp=None, align=16)
    st.m[b.bid] = {'size': n, 'cont': Fn(lambda k: 0, 'zeros')}
    st.assume(le(n, 2 ** 46))
    st.setg('heap', (st.g('heap') or ()) + (b.bid,))
    return [ok(st, P(b, 0)), f]


@api('PyMem_Free', 'PyMem_RawFree', 'free', err_ok=True)
def _free(ex, st, fr, a, name):
    p = a[0]
    if p is NULL:
        return None
    if isinstance(p, P) and p.b.kind == 'arr':
        h = st.g('heap') or ()
        if p.b.bid not in h or not (is_c(p.off) and p.off == 0):
            ex.oblige(st, 'memory', False, 'double free or free of an interior pointer')
            raise DeadPath()
        st.setg('heap', tuple(x for x in h if x != p.b.bid))
        st.m.pop(p.b.bid, None)
        return None
    raise Unsupported('free of %r' % (p,))


# ---- object creation
@api('PyObject_CallObject', 'PyObject_CallNoArgs')
def _callobject(ex, st, fr, a, name):
    tv = a[0]
    args = a[1] if len(a) > 1 else NULL
    if isinstance(tv, P) and tv.b.kind == 'global' and tv.b.name.endswith('Type'):
        if args is not NULL and not (isinstance(args, P) and args.b.kind == 'pytuple'):
            # PyObject_CallObject requires a tuple
            seterr(st, 'PyExc_TypeError')
            return [ok(st, NULL)]
        h = HOOKS.get('construct')
        if h:
            return h(ex, st, fr, tv, args)
    raise Unsupported('call of object %r' % (tv,))


@api('_PyObject_New')
def _objnew(ex, st, fr, a, name):
    h = HOOKS.get('rawnew')
    if h:
        return h(ex, st, fr, a[0])
    raise Unsupported('_PyObject_New')


@api('PyObject_Free', 'PyObject_Del', err_ok=True)
def _objfree(ex, st, fr, a, name):
    v = a[0]
    if isinstance(v, P) and v.b.kind == 'obj':
        # memory is released without running the destructor: the embedded container must already be destroyed
        d = st.m.get(v.b.bid)
        if d is None:
            ex.oblige(st, 'memory', False, 'double free of an object')
            raise DeadPath()
        live = [k for k in d if isinstance(k, tuple) and k[1] == 'len']
        for k in live:
            ex.oblige(st, 'leak', eq(d[k], 0), 'object memory released while its container still holds storage')
        st.m.pop(v.b.bid, None)
        if v.b.oid is not None and not is_c(v.b.oid):
            own(ex, st, v, -1)
        return None
    if isinstance(v, P) and v.b.kind == 'iterobj' and is_c(v.off) and v.off == 0:
        d = st.m.pop(v.b.bid, None)
        if d is None:
            ex.oblige(st, 'memory', False, 'double free of an object')
            raise DeadPath()
        own(ex, st, v, -1)
        return None
    raise Unsupported('PyObject_Free of %r' % (v,))


@api('__cxa_begin_catch', '__cxa_get_exception_ptr', err_ok=True)
def _begincatch(ex, st, fr, a, name):
    st.setg('caught', (st.g('exc'),) + (st.g('caught') or ()))
    st.setg('exc', None)
    b = Block('exc', 'exception')
    st.m[b.bid] = {}
    return P(b, 0)


def exc_load(ex, st, fr, rt, p):
    b = Block('excvt', 'vtable')
    st.m[b.bid] = {}
    return P(b, 0)


core.MEM_LOAD['exc'] = exc_load
core.MEM_LOAD['excvt'] = lambda ex, st, fr, rt, p: FnP('@what', None)


@api('@what', err_ok=True)
def _what(ex, st, fr, a, name):
    return P(Block('str', 'what'), 0)


@api('__cxa_end_catch', err_ok=True)
def _endcatch(ex, st, fr, a, name):
    st.setg('caught', (st.g('caught') or ())[1:])
    return None


@api('__cxa_rethrow', err_ok=True)
def _rethrow(ex, st, fr, a, name):
    c = st.g('caught')
    if not c:
        raise Unsupported('rethrow without a caught exception')
    st.setg('exc', c[0])
    return [Outcome(st, UNW)]


@api('__cxa_allocate_exception', err_ok=True)
def _allocexc(ex, st, fr, a, name):
    b = Block('cells', 'exception', size=64)
    st.m[b.bid] = {}
    return P(b, 0)


@api('__cxa_throw', err_ok=True)
def _throw(ex, st, fr, a, name):
    n = a[1].b.name if isinstance(a[1], P) else '?'
    for k, v in core.EXC_BASES.items():
        if v[0] == n:
            st.setg('exc', k)
            break
    else:
        st.setg('exc', n)
    st.setg('apifail', 'throw')
    return [Outcome(st, UNW)]


@api('__clang_call_terminate', 'std::terminate()', 'abort', 'std::__throw_length_error(char const*)', err_ok=True)
def _terminate(ex, st, fr, a, name):
    ex.oblige(st, 'exception', False, 'std::terminate: an exception leaves a noexcept function')
    raise DeadPath()


@api('std::bad_alloc::bad_alloc()', 'std::exception::exception()', err_ok=True)
def _nopctor(ex, st, fr, a, name):
    return None


@api('Py_GenericAlias')
def _galias(ex, st, fr, a, name):
    t = ex.fresh_obj(st, 'alias')
    f = fail(st, NULL, 'any', 'Py_GenericAlias')
    own(ex, st, O(t), 1)
    return [ok(st, O(t)), f]


def short(dem):
    """API key of a demangled callee name"""
    if dem in API:
        return dem
    s = dem
    m = re.match(r'^(?:(?:void|bool|int|long|[A-Za-z_]+\*?|decltype\(auto\)) )?(PyFast_(?:X?DECREF|INCREF))<.*>\(', s)
    if m:
        return m.group(1)
    base = s.split('(')[0]
    if base in API:
        return base
    return None


class Contracts:
    """callee -> contract; `local` maps demangled-name regexes to contracts of functions of the repository that are
    verified separately"""

    def __init__(self):
        self.local = []

    def __call__(self, mod, name, dem):
        for rx, f in self.local:
            if rx.match(dem):
                return f
        s = short(dem)
        if s is not None and not dem.startswith('std::') or s == dem:
            if s is not None:
                return lambda ex, st, fr, args, ins, d, s=s: dispatch(ex, st, fr, s, args, ins)
        return stl.lookup(dem)
