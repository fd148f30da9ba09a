"""Contracts of the C++ standard library pieces the sources use (vector, list, algorithms), and the memory model
of element arrays.  These contracts are TRUSTED (listed in every evidence file)."""
import re
import z3
from .terms import *
from . import terms as T
from . import core
from .core import (P, O, It, NULL, NULLBLOCK, UNDEF, Opaque, V, Agg, Block, Outcome, RET, UNW, Unsupported, DeadPath,
                   MEM_LOAD, MEM_STORE, STL, HOOKS, Fp)
from .loops import Gen
from .irparse import Ty, PTR, I32, I64

ADDR = 2 ** 46          # user address space (bytes) available to a single array
CON = []                # (compiled regex, fn)
_cache = {}


def con(rx):
    def d(f):
        CON.append((re.compile(rx), f))
        _cache.clear()
        return f
    return d


def lookup(dem):
    if dem in _cache:
        return _cache[dem]
    r = None
    for rx, f in CON:
        if rx.match(dem):
            r = f
            break
    _cache[dem] = r
    return r


def throw(ex, st, exc, what):
    st.setg('exc', exc)
    st.setg('apifail', what)
    return Outcome(st, UNW)


# ---- element arrays ------------------------------------------------------------------------------
# kinds: vbuf (vector storage), arr (heap array), oitems (ob_item of an opaque list/tuple),
#        litems (ob_item of a list/tuple built here)
def elt_of(dem):
    m = re.search(r'(?:vector|list|_List_iterator|_List_const_iterator)<([^,<>]+?)\s*[,>]', dem)
    t = m.group(1).strip() if m else None
    if t in ('int', 'unsigned int'):
        return 4, False
    if t in ('long long', 'long', 'unsigned long'):
        return 8, False
    if t and t.endswith('*'):
        return 8, True
    if t in ('char', 'unsigned char'):
        return 1, False
    raise Unsupported('element type of %s' % dem[:80])


_vb = {}


def vbuf(ex, st, key, gen):
    b = _vb.get((key, gen))
    if b is None:
        es, isp, al = st.get(key[0], (key[1], 'et'))
        b = Block('vbuf', 'v%s.%s' % key, key=key, gen=gen, es=es, isp=isp, align=al)
        _vb[(key, gen)] = b
    return b


STL['vbuf'] = vbuf


def vkey(ex, st, p):
    if isinstance(p, O):
        p = HOOKS['resolve_obj'](ex, st, p)
    if isinstance(p, P) and is_c(p.off):
        if p.b is NULLBLOCK:
            ex.oblige(st, 'memory', False, 'container accessed through a null pointer')
            raise DeadPath()
        return (p.b.bid, p.off)
    if p is NULL:
        ex.oblige(st, 'memory', False, 'container accessed through a null pointer')
        raise DeadPath()
    raise Unsupported('container at %r' % (p,))


def cget(ex, st, key, k):
    d = st.m.get(key[0])
    if d is None:
        ex.oblige(st, 'memory', False, 'container in dead storage')
        raise DeadPath()
    v = d.get((key[1], k))
    if v is None:
        ex.oblige(st, 'memory', False, 'container used before construction or after destruction')
        raise DeadPath()
    return v


def cset(st, key, **kw):
    d = dict(st.m[key[0]])
    for k, v in kw.items():
        d[(key[1], k)] = v
    st.m[key[0]] = d


def cdel(st, key):
    d = dict(st.m[key[0]])
    for k in ('len', 'cont', 'gen', 'ver', 'et', 'cap'):
        d.pop((key[1], k), None)
    st.m[key[0]] = d


class ArrInfo:
    __slots__ = ('es', 'isp', 'seq', 'n', 'ro', 'setter')


def arrinfo(ex, st, b, width=None, isp=None):
    a = ArrInfo()
    if b.kind == 'vbuf':
        key = b.key
        if st.m.get(key[0]) is None or st.get(key[0], (key[1], 'gen')) is not b.gen:
            ex.oblige(st, 'memory', False, 'use of a pointer/iterator into vector storage that was reallocated or destroyed')
            raise DeadPath()
        a.es, a.isp = b.es, b.isp
        a.seq, a.n = st.get(key[0], (key[1], 'cont')), st.get(key[0], (key[1], 'len'))
        a.ro = False
        a.setter = lambda s, q: cset(s, key, cont=q)
    elif b.kind == 'arr':
        d = st.m.get(b.bid)
        if d is None or d.get('dead'):
            ex.oblige(st, 'memory', False, 'use of freed memory')
            raise DeadPath()
        if b.es is None:
            if width is None:
                raise Unsupported('untyped heap block')
            b.es, b.isp = width, bool(isp)
        a.es, a.isp = b.es, b.isp
        a.seq = d['cont']
        n = exdiv(d['size'], b.es) if not is_c(d['size']) else d['size'] // b.es
        if n is None:
            n = Z(d['size']) / b.es
        a.n = n
        a.ro = False
        a.setter = lambda s, q: s.set(b.bid, 'cont', q)
    elif b.kind == 'oitems':
        a.es, a.isp, a.seq, a.n, a.ro = 8, True, b.seq, b.n, True
        a.setter = None
    elif b.kind == 'litems':
        lb = b.owner
        d = st.m.get(lb.bid)
        if d is None:
            ex.oblige(st, 'memory', False, 'use of a freed list')
            raise DeadPath()
        a.es, a.isp, a.seq, a.n, a.ro = 8, True, d['cont'], d['len'], False
        a.setter = lambda s, q: s.set(lb.bid, 'cont', q)
    else:
        return None
    return a


def chk_align(ex, st, b, off, what):
    ins = getattr(ex, 'cur_ins', None)
    if ins is None:
        return
    m = re.search(r'align (\d+)\s*$', ins.txt) or re.search(r'align (\d+)', ins.txt)
    if not m:
        return
    al = int(m.group(1))
    ba = getattr(b, 'align', 1) or 1
    if al <= 1:
        return
    if al > ba:
        if al <= (getattr(b, 'es', None) or 1):
            return
        ex.oblige(st, 'memory', eq(Z(add(core.addr_of(b), off)) % al, 0), 'aligned %s of %d bytes from storage only aligned to %d' % (what, al, ba))
        return
    if exdiv(off, al) is not None:
        return
    if al <= (getattr(b, 'es', None) or 1):
        return
    ex.oblige(st, 'memory', eq(Z(off) % al, 0), 'aligned %s at a %d-byte boundary' % (what, al))


def arr_load(ex, st, fr, rt, p):
    size = fr.mod.size(rt)
    a = arrinfo(ex, st, p.b, size if rt.k != 'vec' else None, rt.k == 'ptr')
    i = exdiv(p.off, a.es)
    if i is None:
        raise Unsupported('misaligned element access in %r' % (p,))
    n = size // a.es
    if n == 0 or size % a.es:
        raise Unsupported('partial element load')
    ex.oblige(st, 'memory', And(le(0, i), le(add(i, n), a.n)), 'read inside the array bounds')
    if rt.k == 'vec':
        chk_align(ex, st, p.b, p.off, 'load')
        return V(a.es * 8, [a.seq.at(add(i, k)) for k in range(n)])
    if n != 1:
        if a.isp or rt.k != 'int':
            raise Unsupported('wide scalar load')
        # (x86 reads and writes scalars at any address)
        return V(a.es * 8, [a.seq.at(add(i, k)) for k in range(n)])
    t = a.seq.at(i)
    if a.isp:
        return ex.from_id(t)
    if not isinstance(t, (int, z3.ArithRef)):
        raise Unsupported('element %r' % (t,))
    return t


def arr_store(ex, st, fr, rt, v, p):
    size = fr.mod.size(rt)
    a = arrinfo(ex, st, p.b, size if rt.k != 'vec' else None, rt.k == 'ptr')
    if a.ro:
        raise Unsupported('store into a foreign list')
    i = exdiv(p.off, a.es)
    if i is None:
        raise Unsupported('misaligned element access')
    n = size // a.es
    ex.oblige(st, 'memory', And(le(0, i), le(add(i, n), a.n)), 'write inside the array bounds')
    if rt.k == 'vec' or n != 1 and isinstance(v, V):
        if rt.k == 'vec':
            chk_align(ex, st, p.b, p.off, 'store')
        from . import simd
        v = simd.relane(ex, st, v, a.es * 8)
        q = a.seq
        for k in range(n):
            q = Store(q, add(i, k), v.l[k])
        a.setter(st, q)
        return
    if n != 1:
        raise Unsupported('wide scalar store')
    if a.isp:
        t = ex.to_id(v)
        if t is None:
            raise Unsupported('pointer stored into object array: %r' % (v,))
    else:
        t = ex.asint(v, 'element store')
    a.setter(st, Store(a.seq, i, t))


for _k in ('vbuf', 'arr', 'oitems', 'litems'):
    MEM_LOAD[_k] = arr_load
    MEM_STORE[_k] = arr_store


def nullcmp(ex, st, p):
    """is the data pointer of a (possibly empty) vector null?"""
    b = p.b
    if b.kind == 'vbuf':
        key = b.key
        n = st.get(key[0], (key[1], 'len'))
        f = z3.Bool('nulldata!%d' % b.bid)
        st.assume(Implies(f, eq(n, 0)))
        return f
    return False


HOOKS['nullcmp'] = nullcmp


def memcpy(ex, st, fr, d, s, n, move):
    if isinstance(d, P) and isinstance(s, P):
        da = arrinfo(ex, st, d.b, getattr(s.b, 'es', None), getattr(s.b, 'isp', None))
        sa = arrinfo(ex, st, s.b, getattr(d.b, 'es', None), getattr(d.b, 'isp', None))
        if da is not None and sa is not None and da.es == sa.es:
            es = da.es
            cnt, di, si = exdiv(n, es), exdiv(d.off, es), exdiv(s.off, es)
            if cnt is None:
                un = ex.uns(st, n, 64)
                cnt = exdiv(un, es)
            if cnt is None and not is_c(n):
                # wrapped size: n = (k*es) mod 2^64
                q = Z(ex.uns(st, n, 64))
                if ex.proves(st, q % es == 0):
                    cnt = q / es
            if cnt is None or di is None or si is None:
                raise Unsupported('memcpy of partial elements')
            ex.oblige(st, 'memory', Or(le(cnt, 0), And(le(0, si), le(add(si, cnt), sa.n))), 'copy source inside the array bounds')
            ex.oblige(st, 'memory', Or(le(cnt, 0), And(le(0, di), le(add(di, cnt), da.n))), 'copy destination inside the array bounds')
            if not move and d.b is s.b:
                ex.oblige(st, 'memory', Or(le(add(di, cnt), si), le(add(si, cnt), di), And(eq(si, di))), 'memcpy ranges do not overlap')
            if da.ro:
                raise Unsupported('store into a foreign list')
            src = sa.seq
            if is_c(cnt) and 0 < cnt <= 4:
                q = da.seq
                for j in range(cnt):
                    q = Store(q, add(di, j), src.at(add(si, j)))
                da.setter(st, q)
                return
            da.setter(st, Pw(da.seq, di, add(di, cnt), lambda k: src.at(add(sub(k, di), si))))
            return
    if isinstance(d, P) and isinstance(s, P) and is_c(n) and n > 0 and {d.b.kind, s.b.kind} == {'cells', 'arr'} and n % 8 == 0:
        # a struct copied between an array element and a local variable
        if s.b.kind == 'arr':
            a = arrinfo(ex, st, s.b)
            i = exdiv(s.off, a.es)
            if i is not None and n % a.es == 0 and not a.isp and is_c(d.off) and d.b.bid in st.m:
                k = n // a.es
                ex.oblige(st, 'memory', And(le(0, i), le(add(i, k), a.n)), 'read inside the array bounds')
                st.set(d.b.bid, d.off, V(a.es * 8, [a.seq.at(add(i, j)) for j in range(k)]))
                return
        else:
            a = arrinfo(ex, st, d.b)
            i = exdiv(d.off, a.es)
            v = (st.m.get(s.b.bid) or {}).get(s.off) if is_c(s.off) else None
            if i is not None and n % a.es == 0 and not a.isp and isinstance(v, V) and v.w * len(v.l) == 8 * n:
                from . import simd
                ex.oblige(st, 'memory', And(le(0, i), le(add(i, n // a.es), a.n)), 'write inside the array bounds')
                q = a.seq
                for j, x in enumerate(simd.relane(ex, st, v, a.es * 8).l):
                    q = Store(q, add(i, j), x)
                a.setter(st, q)
                return
    raise Unsupported('memcpy %r <- %r' % (d, s))


HOOKS['memcpy'] = memcpy


def memset(ex, st, fr, d, c, n):
    if isinstance(d, P) and d.b.kind not in MEM_LOAD and is_c(n) and is_c(d.off) and is_c(c) and c == 0:
        if d.b.bid not in st.m:
            raise Unsupported('memset')
        dd = dict(st.m[d.b.bid])
        for k in [k for k in dd if isinstance(k, int) and d.off <= k < d.off + n]:
            dd[k] = 0
        dd[('zero', d.off)] = n
        st.m[d.b.bid] = dd
        for o in range(d.off, d.off + n, 8 if n % 8 == 0 else 1):
            st.set(d.b.bid, o, 0)
        return
    if isinstance(d, P) and (is_c(c) or getattr(d.b, 'es', None) == 1):
        a = arrinfo(ex, st, d.b)
        if a is not None:
            cnt, di = exdiv(n, a.es), exdiv(d.off, a.es)
            if cnt is not None and di is not None and (a.es == 1 or is_c(c) and c in (0, -1)):
                ex.oblige(st, 'memory', Or(le(cnt, 0), And(le(0, di), le(add(di, cnt), a.n))), 'memset inside the array bounds')
                a.setter(st, Pw(a.seq, di, add(di, cnt), lambda k: c))
                return
    raise Unsupported('memset')


HOOKS['memset'] = memset


# ---- std::vector ---------------------------------------------------------------------------------
def vlen(ex, st, key):
    return cget(ex, st, key, 'len')


def regen(ex, st, key):
    cset(st, key, gen=Gen())


def idx_of(ex, st, p, key, what):
    """element index of an iterator into vector `key` (checked to be current)"""
    if not (isinstance(p, P) and p.b.kind == 'vbuf'):
        raise Unsupported('%s: iterator %r' % (what, p))
    if p.b.key != key:
        ex.oblige(st, 'memory', False, '%s: iterator of another vector' % what)
        raise DeadPath()
    if p.b.gen is not cget(ex, st, key, 'gen'):
        ex.oblige(st, 'memory', False, '%s: invalidated iterator' % what)
        raise DeadPath()
    i = exdiv(p.off, p.b.es)
    if i is None:
        raise Unsupported('iterator offset')
    return i


def maxn(st, key):
    es = st.get(key[0], (key[1], 'et'))[0]
    return ADDR // es


def incap(ex, st, key, newlen):
    """reserved storage suffices: growing neither throws nor moves the elements"""
    c = st.get(key[0], (key[1], 'cap'))
    return c is not None and st.get(key[0], (key[1], 'gen')) is not None and ex.proves(st, le(newlen, c))


def capset(ex, st, key, n):
    c = st.get(key[0], (key[1], 'cap'))
    if c is None or ex.proves(st, le(c, n)):
        cset(st, key, cap=n)
    elif not ex.proves(st, le(n, c)):
        cset(st, key, cap=If(lt(c, n), n, c))


def alloc2(ex, st, key, newlen, tag):
    """-> (success state or None, [failure outcomes]) for growing to newlen elements"""
    fails = []
    if incap(ex, st, key, newlen):
        return st, fails
    lim = maxn(st, key)
    f = st.copy()
    fails.append(throw(ex, f, 'bad_alloc', 'out of memory (%s)' % tag))
    if not (is_c(newlen)):
        g = st.copy()
        c = Not(le(newlen, lim))
        if ex.feasible(g, c):
            g.assume(c)
            env = g.g('apifail')
            fails.append(throw(ex, g, 'length_error', tag))
            g.setg('apifail', env)              # not an accident: the caller asked for too much
        st.assume(le(newlen, lim))
        if not ex.feasible(st):
            return None, fails
    return st, fails


def vec_elem(ex, st, fr, key, p):
    es, isp, _ = cget(ex, st, key, 'et')
    v = ex.load(st, fr, PTR if isp else Ty('int', es * 8), p)
    return enc(ex, v, isp)


def enc(ex, v, isp):
    if isp:
        t = ex.to_id(v)
        if t is None:
            raise Unsupported('object element %r' % (v,))
        return t
    return ex.asint(v, 'element')


@con(r'std::vector<.*>::vector\(\)$|std::vector<.*>::vector\(std::vector<.*>&&\)$|std::vector<.*>::vector\(std::vector<.*> const&\)$')
def vec_ctor(ex, st, fr, a, ins, dem):
    p = a[0]
    if isinstance(p, O):
        p = HOOKS['resolve_obj'](ex, st, p)
    if not isinstance(p, P) or not is_c(p.off):
        raise Unsupported('vector constructed at %r' % (p,))
    key = (p.b.bid, p.off)
    es, isp = elt_of(dem)
    al = 64 if 'AlignedAllocator' in dem else 16
    old = st.get(key[0], (key[1], 'len'))
    if old is not None:
        # placement-new over a live vector: its storage is lost
        ex.oblige(st, 'leak', eq(old, 0), 'vector constructed over a live non-empty vector (its storage leaks)')
    if dem.endswith('vector()'):
        cset(st, key, len=0, cont=Fn(lambda k: 0, 'empty'), gen=Gen(), et=(es, isp, al), cap=None)
        return None
    k2 = vkey(ex, st, a[1])
    n, c = cget(ex, st, k2, 'len'), cget(ex, st, k2, 'cont')
    if dem.endswith('&&)'):
        g = cget(ex, st, k2, 'gen')
        cset(st, key, len=n, cont=c, gen=Gen(), et=(es, isp, al), cap=None)
        cset(st, k2, len=0, gen=Gen(), cap=None)
        return None
    f = st.copy()
    cset(st, key, len=n, cont=c, gen=Gen(), et=(es, isp, al), cap=None)
    return [Outcome(st, RET, None), throw(ex, f, 'bad_alloc', 'out of memory')]


@con(r'std::vector<.*>::vector\(unsigned long(, .*)?\)$')
def vec_ctor_n(ex, st, fr, a, ins, dem):
    p = a[0]
    if not isinstance(p, P) or not is_c(p.off):
        raise Unsupported('vector constructed at %r' % (p,))
    key = (p.b.bid, p.off)
    es, isp = elt_of(dem)
    al = 64 if 'AlignedAllocator' in dem else 16
    n = ex.uns(st, ex.asint(a[1]), 64)
    fill = 0
    m = re.search(r'vector\(unsigned long, ([^,]*) const&', dem)
    cset(st, key, et=(es, isp, al))
    if m and 'allocator' not in m.group(1).lower():
        fill = vec_elem(ex, st, fr, key, a[2])
    s, fails = alloc2(ex, st, key, n, 'vector')
    for f in fails:
        cdel(f.st, key)
    if s is None:
        return fails
    cset(st, key, len=n, cont=Fn(lambda k: fill, 'fill'), gen=Gen(), cap=None)
    return fails + [Outcome(st, RET, None)]


@con(r'std::vector<.*>::~vector\(\)$')
def vec_dtor(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    cget(ex, st, key, 'len')
    cdel(st, key)
    return None


@con(r'std::vector<.*>::size\(\) const$|std::__cxx11::list<.*>::size\(\) const$')
def vec_size(ex, st, fr, a, ins, dem):
    return cget(ex, st, vkey(ex, st, a[0]), 'len')


@con(r'std::vector<.*>::empty\(\) const$|std::__cxx11::list<.*>::empty\(\) const$')
def vec_empty(ex, st, fr, a, ins, dem):
    return eq(cget(ex, st, vkey(ex, st, a[0]), 'len'), 0)


@con(r'std::vector<.*>::capacity\(\) const$')
def vec_capacity(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    c = ex.fresh(st, 'cap', 0, maxn(st, key))
    st.assume(le(n, c))
    return c


@con(r'std::vector<.*>::max_size\(\) const$')
def vec_maxsize(ex, st, fr, a, ins, dem):
    return (2 ** 63 - 1) // elt_of(dem)[0]


@con(r'std::vector<.*>::(data|begin|cbegin)\(\)( const)?$')
def vec_begin(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    return P(vbuf(ex, st, key, cget(ex, st, key, 'gen')), 0)


@con(r'std::vector<.*>::(end|cend)\(\)( const)?$')
def vec_end(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    b = vbuf(ex, st, key, cget(ex, st, key, 'gen'))
    return P(b, mul(cget(ex, st, key, 'len'), b.es))


@con(r'std::vector<.*>::operator\[\]\(unsigned long\)( const)?$')
def vec_index(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    b = vbuf(ex, st, key, cget(ex, st, key, 'gen'))
    i = ex.asint(a[1])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, i), lt(i, n)), 'vector index within [0, size)')
    return P(b, mul(i, b.es))


@con(r'std::vector<.*>::at\(unsigned long\)( const)?$')
def vec_at(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    b = vbuf(ex, st, key, cget(ex, st, key, 'gen'))
    i = ex.asint(a[1])
    n = cget(ex, st, key, 'len')
    t, f = ex.fork(st, And(le(0, i), lt(i, n)))
    outs = []
    if t is not None:
        outs.append(Outcome(t, RET, P(b, mul(i, b.es))))
    if f is not None:
        f.setg('exc', 'out_of_range')
        outs.append(Outcome(f, UNW))
    return outs


@con(r'std::vector<.*>::(back|front)\(\)( const)?$')
def vec_back(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    b = vbuf(ex, st, key, cget(ex, st, key, 'gen'))
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', lt(0, n), 'back()/front() of a non-empty vector')
    return P(b, mul(sub(n, 1), b.es) if '::back' in dem else 0)


@con(r'.*std::vector<.*>::(push_back\(.*\)|emplace_back<.*)$')
def vec_push(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    v = vec_elem(ex, st, fr, key, a[1])
    n = cget(ex, st, key, 'len')
    s, fails = alloc2(ex, st, key, add(n, 1), 'push_back')
    if s is None:
        return fails
    if fails:
        regen(ex, st, key)
    cset(st, key, len=add(n, 1), cont=Ins(cget(ex, st, key, 'cont'), n, 1, lambda k: v))
    r = None
    if 'emplace_back' in dem:
        r = P(vbuf(ex, st, key, cget(ex, st, key, 'gen')), mul(n, elt_of(dem)[0]))
    return fails + [Outcome(st, RET, r)]


@con(r'std::vector<.*>::pop_back\(\)$')
def vec_pop(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', lt(0, n), 'pop_back() of a non-empty vector')
    cset(st, key, len=sub(n, 1), cont=Del(cget(ex, st, key, 'cont'), sub(n, 1), 1))
    return None


@con(r'std::vector<.*>::clear\(\)$')
def vec_clear(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    cset(st, key, len=0, cont=Del(cget(ex, st, key, 'cont'), 0, n))
    return None


@con(r'std::vector<.*>::reserve\(unsigned long\)$')
def vec_reserve(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = ex.uns(st, ex.asint(a[1]), 64)
    s, fails = alloc2(ex, st, key, n, 'reserve')
    if s is None:
        return fails
    if fails:
        regen(ex, st, key)
    capset(ex, st, key, n)
    return fails + [Outcome(st, RET, None)]


@con(r'std::vector<.*>::shrink_to_fit\(\)$')
def vec_shrink(ex, st, fr, a, ins, dem):
    regen(ex, st, vkey(ex, st, a[0]))
    cset(st, vkey(ex, st, a[0]), cap=None)
    return None


@con(r'std::vector<.*>::resize\(unsigned long(, .*)?\)$')
def vec_resize(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = ex.uns(st, ex.asint(a[1]), 64)
    v = vec_elem(ex, st, fr, key, a[2]) if len(a) > 2 else 0
    old = cget(ex, st, key, 'len')
    c = cget(ex, st, key, 'cont')
    outs = []
    g, s = ex.fork(st, lt(old, n))
    if g is not None:
        s2, fails = alloc2(ex, g, key, n, 'resize')
        outs += fails
        if s2 is not None:
            regen(ex, s2, key)
            cset(s2, key, len=n, cont=Ins(c, old, sub(n, old), lambda k: v))
            outs.append(Outcome(s2, RET, None))
    if s is not None:
        cset(s, key, len=n, cont=Del(c, n, sub(old, n)))
        outs.append(Outcome(s, RET, None))
    return outs


@con(r'std::vector<.*>::operator=\(std::vector<.*> const&\)$')
def vec_assign(ex, st, fr, a, ins, dem):
    key, k2 = vkey(ex, st, a[0]), vkey(ex, st, a[1])
    if key == k2:
        return a[0]
    n, c = cget(ex, st, k2, 'len'), cget(ex, st, k2, 'cont')
    f = st.copy()
    oldn, oldc = cget(ex, st, key, 'len'), cget(ex, st, key, 'cont')
    regen(ex, st, key)
    cset(st, key, len=n, cont=Ins(Del(oldc, 0, oldn), 0, n, c.at))
    return [Outcome(st, RET, a[0]), throw(ex, f, 'bad_alloc', 'out of memory (assignment)')]


@con(r'std::vector<.*>::operator=\(std::vector<.*>&&\)$|std::vector<.*>::swap\(std::vector<.*>&\)$|void std::swap<.*>\(std::vector<.*>&, std::vector<.*>&\)$|std::enable_if<.*>::type std::swap<std::vector.*')
def vec_moveassign(ex, st, fr, a, ins, dem):
    key, k2 = vkey(ex, st, a[0]), vkey(ex, st, a[1])
    if key == k2:
        return a[0]
    n, c = cget(ex, st, k2, 'len'), cget(ex, st, k2, 'cont')
    n0, c0 = cget(ex, st, key, 'len'), cget(ex, st, key, 'cont')
    p1, p2 = st.get(key[0], (key[1], 'cap')), st.get(k2[0], (k2[1], 'cap'))
    cset(st, key, len=n, cont=c, gen=Gen(), cap=p2)
    if 'swap' in dem:
        cset(st, k2, len=n0, cont=c0, gen=Gen(), cap=p1)
        return None
    cset(st, k2, len=0, cont=Fn(lambda k: 0, 'moved'), gen=Gen(), cap=None)
    return a[0]


@con(r'std::vector<.*>::insert\(__gnu_cxx::__normal_iterator<.*>, [^,]*( const&|&&)\)$')
def vec_insert1(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    i = idx_of(ex, st, a[1], key, 'insert')
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, i), le(i, n)), 'insert position within [begin, end]')
    v = vec_elem(ex, st, fr, key, a[2])
    s, fails = alloc2(ex, st, key, add(n, 1), 'insert')
    if s is None:
        return fails
    regen(ex, st, key)
    cset(st, key, len=add(n, 1), cont=Ins(cget(ex, st, key, 'cont'), i, 1, lambda k: v))
    b = vbuf(ex, st, key, cget(ex, st, key, 'gen'))
    return fails + [Outcome(st, RET, P(b, mul(i, b.es)))]


@con(r'std::vector<.*>::insert\(__gnu_cxx::__normal_iterator<.*>, unsigned long, .* const&\)$')
def vec_insertn(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    i = idx_of(ex, st, a[1], key, 'insert')
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, i), le(i, n)), 'insert position within [begin, end]')
    m = ex.uns(st, ex.asint(a[2]), 64)
    v = vec_elem(ex, st, fr, key, a[3])
    s, fails = alloc2(ex, st, key, add(n, m), 'insert')
    if s is None:
        return fails
    regen(ex, st, key)
    cset(st, key, len=add(n, m), cont=Ins(cget(ex, st, key, 'cont'), i, m, lambda k: v))
    b = vbuf(ex, st, key, cget(ex, st, key, 'gen'))
    return fails + [Outcome(st, RET, P(b, mul(i, b.es)))]


def tslot(p):
    """a pointer into a tuple made by this run, as a pointer into its item array"""
    if isinstance(p, P) and p.b.kind == 'pytuple':
        from . import capi
        return P(capi.litems(p.b), sub(p.off, 24))
    return p


def src_range(ex, st, f, l, what):
    """(seq, lo, n, key) of an iterator / pointer range"""
    f, l = tslot(f), tslot(l)
    if isinstance(f, P) and isinstance(l, P):
        if f.b is not l.b and not (f.b.kind == 'vbuf' and l.b.kind == 'vbuf' and f.b.key == l.b.key and f.b.gen is l.b.gen):
            raise Unsupported('%s: range over different arrays' % what)
        a = arrinfo(ex, st, f.b)
        if a is None:
            raise Unsupported('%s: range %r' % (what, f))
        lo, hi = exdiv(f.off, a.es), exdiv(l.off, a.es)
        if lo is None or hi is None:
            raise Unsupported('range offsets')
        ex.oblige(st, 'memory', And(le(0, lo), le(lo, hi), le(hi, a.n)), '%s: [first, last) is a valid range' % what)
        return a.seq, lo, sub(hi, lo), f.b
    if isinstance(f, It) and isinstance(l, It) and f.key == l.key:
        lo, hi = lpos(ex, st, f), lpos(ex, st, l)
        n = cget(ex, st, f.key, 'len')
        ex.oblige(st, 'memory', And(le(0, lo), le(lo, hi), le(hi, n)), '%s: [first, last) is a valid range' % what)
        return cget(ex, st, f.key, 'cont'), lo, sub(hi, lo), ('L', f.key)
    if isinstance(f, core.O) and isinstance(l, core.O) and same(f.t, l.t):
        r = tuple_items(ex, st, f, what)
        if r is not None:
            seq, lo, n = r
            hi = exdiv(sub(l.off, 24), 8)
            if hi is not None:
                ex.oblige(st, 'memory', And(le(0, lo), le(lo, hi), le(hi, n)), '%s: [first, last) is a valid range' % what)
                return seq, lo, sub(hi, lo), ('O', T.Z(f.t).get_id())
    raise Unsupported('%s: range %r..%r' % (what, f, l))


def tuple_items(ex, st, f, what):
    """(items, index, length) of a pointer into the item array of an opaque tuple"""
    from . import capi
    lo = exdiv(sub(f.off, 24), 8)
    t = T.Z(f.t)
    if lo is None or not ex.proves(st, capi.istuple(t)):
        return None
    return Fn(lambda k: capi.item(t, T.Z(k))), lo, capi.ilen(t)


def src_range_n(ex, st, f, n, what):
    if not ex.proves(st, le(0, n)):
        raise Unsupported('%s with a possibly negative count' % what)
    f = tslot(f)
    if isinstance(f, P):
        a = arrinfo(ex, st, f.b)
        lo = exdiv(f.off, a.es) if a is not None else None
        if lo is None:
            raise Unsupported('%s: range %r' % (what, f))
        ex.oblige(st, 'memory', Or(le(n, 0), And(le(0, lo), le(add(lo, n), a.n))), '%s: source inside the array bounds' % what)
        return a.seq, lo, n, f.b
    if isinstance(f, It):
        lo = lpos(ex, st, f)
        ex.oblige(st, 'memory', And(le(0, lo), le(add(lo, n), cget(ex, st, f.key, 'len'))), '%s: source inside the list' % what)
        return cget(ex, st, f.key, 'cont'), lo, n, ('L', f.key)
    if isinstance(f, core.O):
        r = tuple_items(ex, st, f, what)
        if r is not None:
            seq, lo, m = r
            ex.oblige(st, 'memory', Or(le(n, 0), And(le(0, lo), le(add(lo, n), m))), '%s: source inside the tuple' % what)
            return seq, lo, n, ('O', T.Z(f.t).get_id())
    raise Unsupported('%s: range %r' % (what, f))


@con(r'.*std::vector<.*>::(insert<.*>|_M_range_insert<.*>|insert)\(__gnu_cxx::__normal_iterator<.*>, .*, .*\)$')
def vec_insert_range(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    i = idx_of(ex, st, a[1], key, 'insert')
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, i), le(i, n)), 'insert position within [begin, end]')
    if is_self_range(a[2], key):
        ex.oblige(st, 'memory', False, 'insert of a range of the vector into itself')
        raise DeadPath()
    seq, lo, m, _ = src_range(ex, st, a[2], a[3], 'insert')
    s, fails = alloc2(ex, st, key, add(n, m), 'insert')
    if s is None:
        return fails
    regen(ex, st, key)
    cset(st, key, len=add(n, m), cont=Ins(cget(ex, st, key, 'cont'), i, m, lambda k: seq.at(add(lo, k))))
    b = vbuf(ex, st, key, cget(ex, st, key, 'gen'))
    return fails + [Outcome(st, RET, P(b, mul(i, b.es)))]


def is_self_range(p, key):
    return isinstance(p, P) and p.b.kind == 'vbuf' and p.b.key == key or isinstance(p, It) and p.key == key


@con(r'.*std::vector<.*>::assign(<.*>)?\(.*, .*\)$')
def vec_assign_range(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    if 'assign(unsigned long' in dem:
        m = ex.uns(st, ex.asint(a[1]), 64)
        v = vec_elem(ex, st, fr, key, a[2])
        fn = lambda k: v
    else:
        if is_self_range(a[1], key):
            ex.oblige(st, 'memory', False, 'assign of a range of the vector to itself')
            raise DeadPath()
        seq, lo, m, _ = src_range(ex, st, a[1], a[2], 'assign')
        fn = lambda k: seq.at(add(lo, k))
    s, fails = alloc2(ex, st, key, m, 'assign')
    if s is None:
        return fails
    regen(ex, st, key)
    cset(st, key, len=m, cont=Ins(Del(cget(ex, st, key, 'cont'), 0, n), 0, m, fn))
    return fails + [Outcome(st, RET, None)]


@con(r'std::vector<.*>::erase\(__gnu_cxx::__normal_iterator<[^()]*>\)$')
def vec_erase(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    if dem.count('__normal_iterator') >= 2 and len(a) == 3:
        return vec_erase2(ex, st, fr, a, ins, dem)
    i = idx_of(ex, st, a[1], key, 'erase')
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, i), lt(i, n)), 'erase position within [begin, end)')
    cset(st, key, len=sub(n, 1), cont=Del(cget(ex, st, key, 'cont'), i, 1))
    return a[1]


def vec_erase2(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    i, j = idx_of(ex, st, a[1], key, 'erase'), idx_of(ex, st, a[2], key, 'erase')
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, i), le(i, j), le(j, n)), 'erase range within [begin, end]')
    cset(st, key, len=sub(n, sub(j, i)), cont=Del(cget(ex, st, key, 'cont'), i, sub(j, i)))
    return a[1]


con(r'std::vector<.*>::erase\(.*, .*\)$')(vec_erase2)


# ---- algorithms ----------------------------------------------------------------------------------
def deref(ex, st, fr, p, isp, es):
    return enc(ex, ex.load(st, fr, PTR if isp else Ty('int', es * 8), p), isp)


def mk_iter(ex, st, like, lo, r):
    if isinstance(like, It):
        return It(like.key, like.ver, r, like.off)
    return P(like.b, mul(r, like.b.es if like.b.kind == 'vbuf' else 8))


@con(r'.* std::find<.*>\(.*\)$')
def std_find(ex, st, fr, a, ins, dem):
    seq, lo, n, b = src_range(ex, st, a[0], a[1], 'find')
    hi = add(lo, n)
    es, isp = range_elt(ex, st, a[0])
    v = deref(ex, st, fr, a[2], isp, es)
    r = ex.fresh(st, 'find')
    st.assume(And(le(lo, r), le(r, hi)))
    st.assume(Implies(lt(r, hi), eq(seq.at(r), v)))
    st.pc.append(Forall(lo, r, lambda j: Not(eq(seq.at(j), v)), 'find'))
    return mk_iter(ex, st, norm_it(ex, st, a[0]), lo, r)


def norm_it(ex, st, p):
    if isinstance(p, It):
        ver = cget(ex, st, p.key, 'ver')
        return It(p.key, ver, lpos(ex, st, p), p.off)
    return p


def range_elt(ex, st, p):
    if isinstance(p, It):
        et = cget(ex, st, p.key, 'et')
        return et[0], et[1]
    a = arrinfo(ex, st, p.b)
    return a.es, a.isp


def count_term(ex, st, seq, lo, hi, v):
    """number of k in [lo,hi) with seq[k]==v, as a recursive specification function C(k): C(lo)=0,
    C(k+1)=C(k)+[seq[k]=v]"""
    g = st.g('counts') or ()
    for (s2, lo2, v2, C) in g:
        if s2 is seq and same(lo2, lo) and same(v2, v):
            break
    else:
        C = Base('cnt!%d' % T.uid())
        st.setg('counts', g + ((seq, lo, v, C),))
    if not any(getattr(f, 'cid', None) is C for f in st.pc):
        st.assume(eq(C.at(lo), 0))
        F = Forall(lo, lo if same(lo, hi) else hi, lambda j: And(eq(C.at(add(j, 1)), add(C.at(j), If(eq(seq.at(j), v), 1, 0)))), 'count')
        F.cid = C
        st.pc.append(F)
        F2 = Forall(lo, add(hi, 1), lambda j: And(le(0, C.at(j)), le(C.at(j), sub(j, lo))), 'count range')
        st.pc.append(F2)
    return C.at(hi)


def count_pred(ex, st, seq, n, pred):
    """number of k in [0,n) with pred(k), by the same recursion"""
    C = Base('cnt!%d' % T.uid())
    st.setg('counts', (st.g('counts') or ()) + ((None, 0, None, C),))
    st.assume(eq(C.at(0), 0))
    F = Forall(0, n, lambda j: And(eq(C.at(add(j, 1)), add(C.at(j), If(pred(j), 1, 0)))), 'count')
    F.cid = C
    st.pc.append(F)
    st.pc.append(Forall(0, add(n, 1), lambda j: And(le(0, C.at(j)), le(C.at(j), j)), 'count range'))
    return C.at(n)


@con(r'.* std::count<.*>\(.*\)$')
def std_count(ex, st, fr, a, ins, dem):
    seq, lo, n, b = src_range(ex, st, a[0], a[1], 'count')
    es, isp = range_elt(ex, st, a[0])
    v = deref(ex, st, fr, a[2], isp, es)
    return count_term(ex, st, seq, lo, add(lo, n), v)


@con(r'.* std::(distance|__distance)<.*>\(.*\)$')
def std_distance(ex, st, fr, a, ins, dem):
    f, l = a[0], a[1]
    if isinstance(f, It):
        lo, hi = lpos(ex, st, f), lpos(ex, st, l)
        ex.oblige(st, 'memory', le(lo, hi), 'distance: last reachable from first')
        return sub(hi, lo)
    if isinstance(f, P) and isinstance(l, P):
        if f.b.kind == 'vbuf' and l.b.kind == 'vbuf' and f.b.key == l.b.key:
            if f.b.gen is not l.b.gen:
                ex.oblige(st, 'memory', False, 'distance of invalidated iterators')
            return exdiv(sub(l.off, f.off), f.b.es)
    raise Unsupported('distance')


@con(r'.* std::(next|prev)<.*>\(.*\)$')
def std_next(ex, st, fr, a, ins, dem):
    n = ex.asint(a[1])
    if ' std::prev' in dem:
        n = mul(-1, n)
    p = a[0]
    if isinstance(p, It):
        pos = add(lpos(ex, st, p), n)
        ex.oblige(st, 'memory', And(le(0, pos), le(pos, cget(ex, st, p.key, 'len'))), 'next/prev within the list')
        return It(p.key, cget(ex, st, p.key, 'ver'), pos, p.off)
    if isinstance(p, P) and p.b.kind == 'vbuf':
        return P(p.b, add(p.off, mul(n, p.b.es)))
    raise Unsupported('next/prev')


@con(r'void std::(advance|__advance)<.*>\(.*\)$')
def std_advance(ex, st, fr, a, ins, dem):
    p = ex.load(st, fr, PTR, a[0])
    n = ex.asint(a[1])
    if isinstance(p, It):
        pos = add(lpos(ex, st, p), n)
        ex.oblige(st, 'memory', And(le(0, pos), le(pos, cget(ex, st, p.key, 'len'))), 'advance within the list')
        q = It(p.key, cget(ex, st, p.key, 'ver'), pos, p.off)
    elif isinstance(p, P) and p.b.kind == 'vbuf':
        q = P(p.b, add(p.off, mul(n, p.b.es)))
    else:
        raise Unsupported('advance')
    ex.store(st, fr, PTR, q, a[0])
    return None


def set_range_seq(ex, st, p, q):
    if isinstance(p, It):
        cset(st, p.key, cont=q)
    else:
        arrinfo(ex, st, p.b).setter(st, q)


@con(r'void std::reverse<.*>\(.*\)$')
def std_reverse(ex, st, fr, a, ins, dem):
    seq, lo, n, b = src_range(ex, st, a[0], a[1], 'reverse')
    set_range_seq(ex, st, a[0], Rev(seq, lo, add(lo, n)))
    return None


def sorted_seq(ex, st, seq, lo, n, desc, stable=False):
    """SORTED is canonical: for integers the sorted arrangement of a multiset is unique, so it is a function of
    (sequence, range, order)"""
    g = st.g('sorts') or ()
    for (s2, lo2, n2, d2, B_, perm) in g:
        if s2 is seq and same(lo2, lo) and same(n2, n) and d2 == desc:
            q = B_
            break
    else:
        q = Base('srt!%d' % T.uid())
        st.setg('sorts', g + ((seq, lo, n, desc, q, None),))
        le_ = (lambda x, y: Z(x) >= Z(y)) if desc else (lambda x, y: Z(x) <= Z(y))
        hi = add(lo, n)
        st.pc.append(Forall(add(lo, 1), hi, lambda j: le_(q.at(sub(j, 1)), q.at(j)), 'sorted'))
        st.pc.append(Forall(lo, hi, lambda j: le_(q.at(lo), q.at(j)), 'sorted-min'))
    return Pw(seq, lo, add(lo, n), q.at)


class Perm:
    """ghost: a bijection f of [0, n) with inverse g"""


PERMS = {}


def permutation(ex, st, seq, n, lo=0, **kw):
    u = T.uid()
    p = Perm()
    p.f, p.g, p.n, p.seq, p.lo = func('perm!%d' % u, 1), func('perminv!%d' % u, 1), n, seq, lo
    p.__dict__.update(kw)
    PERMS[p.f(z3.IntVal(0)).decl().name()] = p
    st.pc.append(Forall(0, n, lambda k: And(le(0, p.f(Z(k))), lt(p.f(Z(k)), n), eq(p.g(p.f(Z(k))), k)), 'perm'))
    st.pc.append(Forall(0, n, lambda k: And(le(0, p.g(Z(k))), lt(p.g(Z(k)), n), eq(p.f(p.g(Z(k))), k)), 'perm-inv'))
    st.setg('perms', (st.g('perms') or ()) + (p,))
    return p


@con(r'void std::(sort|stable_sort|__sort)<.*>\(.*\)$|void gfx::timsort<.*>\(.*\)$|_ZN3gfx7timsortI')
def std_sort(ex, st, fr, a, ins, dem):
    seq, lo, n, b = src_range(ex, st, a[0], a[1], 'sort')
    cmp = re.findall(r'std::(?:ranges::)?(greater|less)(?:<|,|\b(?!_))|(?:St7|NSt6ranges\d)(greater|less)(?![_a-z])', dem)
    cmp = {x or y for x, y in cmp}
    desc = cmp == {'greater'}
    if not desc and len(a) > 2 and cmp != {'less'}:
        raise Unsupported('sort with a custom comparator')
    set_range_seq(ex, st, a[0], sorted_seq(ex, st, seq, lo, n, desc))
    outs = [Outcome(st, RET, None)]
    if 'stable' in dem or 'gfx' in dem or dem.startswith('_ZN3gfx'):
        f = st.copy()
        # the temporary buffer may be unobtainable; the elements stay a permutation of the old ones
        p = permutation(ex, f, seq, n, lo)
        set_range_seq(ex, f, a[0], Pw(seq, lo, add(lo, n), lambda k: seq.at(add(lo, p.f(Z(sub(k, lo)))))))
        outs.append(throw(ex, f, 'bad_alloc', 'out of memory (sort buffer)'))
    return outs


@con(r'.* std::(copy|copy_n|move|__copy_move_a.*|uninitialized_copy)<.*>\(.*\)$')
def std_copy(ex, st, fr, a, ins, dem):
    if len(a) != 3:
        raise Unsupported('std::copy/move form')
    if 'copy_n' in dem:
        seq, lo, n, b = src_range_n(ex, st, a[0], ex.asint(a[1]), 'copy_n')
    else:
        seq, lo, n, b = src_range(ex, st, a[0], a[1], 'copy')
    d = a[2]
    if isinstance(d, P):
        da = arrinfo(ex, st, d.b)
        di = exdiv(d.off, da.es) if da else None
        if da is not None and di is not None:
            ex.oblige(st, 'memory', Or(le(n, 0), And(le(0, di), le(add(di, n), da.n))), 'copy destination inside the array bounds')
            da.setter(st, Pw(da.seq, di, add(di, n), lambda k: seq.at(add(sub(k, di), lo))))
            return P(d.b, mul(add(di, n), da.es))
    raise Unsupported('std::copy')


@con(r'(void|.*) std::fill(_n)?<.*>\(.*\)$')
def std_fill(ex, st, fr, a, ins, dem):
    if 'fill_n' in dem:
        raise Unsupported('fill_n')
    seq, lo, n, b = src_range(ex, st, a[0], a[1], 'fill')
    es, isp = range_elt(ex, st, a[0])
    v = deref(ex, st, fr, a[2], isp, es)
    set_range_seq(ex, st, a[0], Pw(seq, lo, add(lo, n), lambda k: v))
    return None


@con(r'bool std::equal<.*>\(.*\)$')
def std_equal(ex, st, fr, a, ins, dem):
    seq, lo, n, b = src_range(ex, st, a[0], a[1], 'equal')
    if len(a) == 3:
        p = a[2]
        if isinstance(p, P):
            ia = arrinfo(ex, st, p.b)
            lo2 = exdiv(p.off, ia.es)
            ex.oblige(st, 'memory', Or(le(n, 0), And(le(0, lo2), le(add(lo2, n), ia.n))), 'equal: second range inside the array')
            seq2 = ia.seq
        else:
            lo2 = lpos(ex, st, p)
            ex.oblige(st, 'memory', And(le(0, lo2), le(add(lo2, n), cget(ex, st, p.key, 'len'))), 'equal: second range inside the list')
            seq2 = cget(ex, st, p.key, 'cont')
        return seq_equal(ex, st, seq, lo, seq2, lo2, n)
    if len(a) == 4:
        seq2, lo2, n2, _ = src_range(ex, st, a[2], a[3], 'equal')
        r = seq_equal(ex, st, seq, lo, seq2, lo2, n)
        return And(eq(n, n2), r)
    raise Unsupported('std::equal form')


def seq_equal(ex, st, s1, l1, s2, l2, n):
    r = ex.fresh(st, 'eqr', sort=BOOL)
    d = ex.fresh(st, 'eqd')
    st.pc.append(Forall(0, n, lambda j: Implies(r, eq(s1.at(add(l1, j)), s2.at(add(l2, j)))), 'equal'))
    st.assume(Implies(Not(r), And(le(0, d), lt(d, n), Not(eq(s1.at(add(l1, d)), s2.at(add(l2, d)))))))
    return r


@con(r'bool std::operator==<.*>\(std::vector<.*> const&, std::vector<.*> const&\)$|bool std::operator==<.*>\(std::__cxx11::list<.*> const&, std::__cxx11::list<.*> const&\)$')
def vec_eqop(ex, st, fr, a, ins, dem):
    k1, k2 = vkey(ex, st, a[0]), vkey(ex, st, a[1])
    n1, n2 = cget(ex, st, k1, 'len'), cget(ex, st, k2, 'len')
    r = seq_equal(ex, st, cget(ex, st, k1, 'cont'), 0, cget(ex, st, k2, 'cont'), 0, n1)
    return And(eq(n1, n2), r)


@con(r'(memcmp|bcmp)$')
def c_memcmp(ex, st, fr, a, ins, dem):
    n = ex.uns(st, ex.asint(a[2]), 64)
    if isinstance(a[0], P) and isinstance(a[1], P):
        x, y = arrinfo(ex, st, a[0].b), arrinfo(ex, st, a[1].b)
        if x is not None and y is not None and x.es == y.es:
            cnt = exdiv(n, x.es)
            if cnt is None and ex.proves(st, eq(Z(n) % x.es, 0)):
                cnt = Z(n) / x.es
            l1, l2 = exdiv(a[0].off, x.es), exdiv(a[1].off, x.es)
            if cnt is None:
                ex.oblige(st, 'memory', And(le(add(mul(l1, x.es), n), mul(x.n, x.es)), le(add(mul(l2, x.es), n), mul(y.n, x.es))), 'memcmp ranges inside the arrays')
                return ex.fresh(st, 'memcmp', -2 ** 31, 2 ** 31 - 1)
            ex.oblige(st, 'memory', Or(le(cnt, 0), And(le(0, l1), le(add(l1, cnt), x.n), le(0, l2), le(add(l2, cnt), y.n))), 'memcmp ranges inside the arrays')
            r = seq_equal(ex, st, x.seq, l1, y.seq, l2, cnt)
            res = ex.fresh(st, 'memcmp', -2 ** 31, 2 ** 31 - 1)
            st.assume(Iff(r, eq(res, 0)))
            return res
    raise Unsupported('memcmp')


@con(r'.* const& std::(max|min)<(long|unsigned long|int|long long|unsigned int)>\(.*\)$')
def std_minmax(ex, st, fr, a, ins, dem):
    m = re.search(r'std::(max|min)<(.*?)>', dem)
    w = 32 if 'int' in m.group(2) else 64
    ty = Ty('int', w)
    x, y = ex.asint(ex.load(st, fr, ty, a[0])), ex.asint(ex.load(st, fr, ty, a[1]))
    if 'unsigned' in m.group(2):
        c = lt(ex.uns(st, x, w), ex.uns(st, y, w))
    else:
        c = lt(x, y)
    r = If(c, y, x) if m.group(1) == 'max' else If(c, x, y)
    if m.group(1) == 'min' and c is False:
        r = y
    if m.group(1) == 'min':
        r = If(c, x, y)
    b = Block('cells', 'minmax')
    st.m[b.bid] = {0: r}
    return P(b, 0)


@con(r'.*std::(move|forward|addressof|__addressof|launder|as_const|__niter_base|__miter_base|__niter_wrap)<.*>\(.*\)$')
def std_move(ex, st, fr, a, ins, dem):
    return a[-1] if 'niter_wrap' in dem else a[0]


# ---- std::list -----------------------------------------------------------------------------------
_lver = {}


def lpos(ex, st, it, quiet=False):
    """current position of a list iterator, following the edits made since it was obtained"""
    cur = st.get(it.key[0], (it.key[1], 'ver')) if st.m.get(it.key[0]) is not None else None
    if cur is None:
        if not quiet:
            ex.oblige(st, 'memory', False, 'iterator of a destroyed list')
        raise DeadPath()
    chain = []
    v = cur
    while v is not it.ver:
        e = ex.vers.get(v)
        if e is None:
            raise Unsupported('list iterator across an unknown edit')
        chain.append(e)
        v = e[0]
    pos = it.pos
    for (_, op, p, n) in reversed(chain):
        if op == 'ins':
            pos = If(le(p, pos), add(pos, n), pos)
        elif op == 'del':
            ok = Or(lt(pos, p), le(add(p, n), pos))
            if ok is not True:
                if quiet:
                    if not ex.proves(st, ok):
                        raise DeadPath()
                else:
                    ex.oblige(st, 'memory', ok, 'list iterator used after its node was erased')
            pos = If(le(add(p, n), pos), sub(pos, n), pos)
        else:
            raise Unsupported('list iterator across %s' % op)
    return nrm(pos) if not is_c(pos) else pos


STL['pos'] = lpos


def ledit(ex, st, key, op, p, n):
    old = cget(ex, st, key, 'ver')
    g = Gen()
    ex.vers[g] = (old, op, p, n)
    cset(st, key, ver=g)


def node_load(ex, st, fr, rt, p):
    pos = lpos(ex, st, p)
    n = cget(ex, st, p.key, 'len')
    off = p.off
    cur = cget(ex, st, p.key, 'ver')
    if off == 0:
        ex.oblige(st, 'memory', lt(pos, n), 'increment of a list iterator before end()')
        return It(p.key, cur, add(pos, 1), 0)
    if off == 8:
        ex.oblige(st, 'memory', lt(0, pos), 'decrement of a list iterator after begin()')
        return It(p.key, cur, sub(pos, 1), 0)
    if off == 16:
        ex.oblige(st, 'memory', And(le(0, pos), lt(pos, n)), 'dereference of a valid list iterator')
        t = cget(ex, st, p.key, 'cont').at(pos)
        if rt.k == 'ptr':
            return ex.from_id(t)
        return t
    raise Unsupported('list node field')


def node_store(ex, st, fr, rt, v, p):
    pos = lpos(ex, st, p)
    n = cget(ex, st, p.key, 'len')
    if p.off == 16:
        ex.oblige(st, 'memory', And(le(0, pos), lt(pos, n)), 'store through a valid list iterator')
        isp = cget(ex, st, p.key, 'et')[1]
        cset(st, p.key, cont=Store(cget(ex, st, p.key, 'cont'), pos, enc(ex, v, isp)))
        return
    raise Unsupported('list node field store')


STL['node_load'], STL['node_store'] = node_load, node_store


@con(r'std::_List_iterator<.*>::operator\*\(\) const$|std::_List_const_iterator<.*>::operator\*\(\) const$')
def lit_deref(ex, st, fr, a, ins, dem):
    p = ex.load(st, fr, PTR, a[0])
    if not isinstance(p, It):
        raise Unsupported('list iterator %r' % (p,))
    pos = lpos(ex, st, p)
    ex.oblige(st, 'memory', And(le(0, pos), lt(pos, cget(ex, st, p.key, 'len'))), 'dereference of a valid list iterator')
    return It(p.key, cget(ex, st, p.key, 'ver'), pos, 16)


L = r'std::__cxx11::list<.*>::'


@con(L + r'list\(\)$')
def list_ctor(ex, st, fr, a, ins, dem):
    p = a[0]
    if isinstance(p, O):
        p = HOOKS['resolve_obj'](ex, st, p)
    key = (p.b.bid, p.off)
    es, isp = elt_of(dem)
    if st.get(key[0], (key[1], 'len')) is not None:
        ex.oblige(st, 'leak', eq(st.get(key[0], (key[1], 'len')), 0), 'list constructed over a live list (its nodes leak)')
    cset(st, key, len=0, cont=Fn(lambda k: 0, 'empty'), ver=Gen(), et=(es, isp, 0))
    return None


@con(L + r'list\((std::__cxx11::list<.*>&&|std::__cxx11::list<.*> const&)(, std::allocator<.*> const&)?\)$')
def list_copy(ex, st, fr, a, ins, dem):
    src = vkey(ex, st, a[1])
    n, c = cget(ex, st, src, 'len'), cget(ex, st, src, 'cont')
    list_ctor(ex, st, fr, a[:1], ins, dem)
    key = vkey(ex, st, a[0])
    if '&&' in dem:
        cset(st, key, len=n, cont=c)
        cset(st, src, len=0, cont=Fn(lambda k: 0, 'moved'), ver=Gen())
        return None
    f = st.copy()
    cdel(f, key)
    cset(st, key, len=n, cont=Ins(Fn(lambda k: 0, 'empty'), 0, n, c.at))
    return [Outcome(st, RET, None), throw(ex, f, 'bad_alloc', 'out of memory (copy)')]


@con(L + r'list\(unsigned long, .*\)$')
def list_fill(ex, st, fr, a, ins, dem):
    n = ex.uns(st, ex.asint(a[1]), 64)
    list_ctor(ex, st, fr, a[:1], ins, dem)
    key = vkey(ex, st, a[0])
    v = vec_elem(ex, st, fr, key, a[2]) if len(a) > 2 and 'const&' in dem.split('unsigned long', 1)[1].split(', ')[1] else 0
    s, fails = alloc2(ex, st, key, n, 'list of n elements')
    for o in fails:
        cdel(o.st, key)
    if s is None:
        return fails
    cset(s, key, len=n, cont=Ins(Fn(lambda k: 0, 'empty'), 0, n, lambda k: v))
    return fails + [Outcome(s, RET, None)]


@con(L + r'~list\(\)$')
def list_dtor(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    cget(ex, st, key, 'len')
    cdel(st, key)
    return None


@con(L + r'(begin|cbegin)\(\)( const)?$')
def list_begin(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    return It(key, cget(ex, st, key, 'ver'), 0)


@con(L + r'(end|cend)\(\)( const)?$')
def list_end(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    return It(key, cget(ex, st, key, 'ver'), cget(ex, st, key, 'len'))


@con(L + r'(back|front)\(\)( const)?$')
def list_back(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', lt(0, n), 'back()/front() of a non-empty list')
    return It(key, cget(ex, st, key, 'ver'), sub(n, 1) if '::back' in dem else 0, 16)


@con(L + r'(push_back|push_front)\(.*\)$')
def list_push(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    v = vec_elem(ex, st, fr, key, a[1])
    n = cget(ex, st, key, 'len')
    s, fails = alloc2(ex, st, key, add(n, 1), 'list push')
    if s is None:
        return fails
    p = n if 'push_back' in dem else 0
    ledit(ex, st, key, 'ins', p, 1)
    cset(st, key, len=add(n, 1), cont=Ins(cget(ex, st, key, 'cont'), p, 1, lambda k: v))
    return fails + [Outcome(st, RET, None)]


@con(r'(.* )?std::__cxx11::list<.*>::(emplace_back|emplace_front)<.*>\(.*\)$')
def list_emplace(ex, st, fr, a, ins, dem):
    r = list_push(ex, st, fr, a, ins, 'push_back' if 'emplace_back' in dem else 'push_front')
    for o in r or ():
        if o.kind == RET:
            key = vkey(ex, o.st, a[0])
            n = cget(ex, o.st, key, 'len')
            o.val = It(key, cget(ex, o.st, key, 'ver'), sub(n, 1) if 'emplace_back' in dem else 0, 16)
    return r


@con(L + r'(pop_back|pop_front)\(\)$')
def list_pop(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', lt(0, n), 'pop of a non-empty list')
    p = sub(n, 1) if 'pop_back' in dem else 0
    ledit(ex, st, key, 'del', p, 1)
    cset(st, key, len=sub(n, 1), cont=Del(cget(ex, st, key, 'cont'), p, 1))
    return None


@con(L + r'clear\(\)$')
def list_clear(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    ledit(ex, st, key, 'del', 0, n)
    cset(st, key, len=0, cont=Del(cget(ex, st, key, 'cont'), 0, n))
    return None


@con(L + r'erase\(std::_List_const_iterator<[^()]*>\)$')
def list_erase(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    if len(a) == 3:
        return list_erase2(ex, st, fr, a, ins, dem)
    p = lnorm(ex, st, key, a[1])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, p), lt(p, n)), 'list erase of a valid position')
    ledit(ex, st, key, 'del', p, 1)
    cset(st, key, len=sub(n, 1), cont=Del(cget(ex, st, key, 'cont'), p, 1))
    return It(key, cget(ex, st, key, 'ver'), p)


def lnorm(ex, st, key, p):
    if isinstance(p, P) and p.b.kind == 'cells':
        raise Unsupported('list iterator by reference')
    if not isinstance(p, It):
        raise Unsupported('list iterator %r' % (p,))
    if p.key != key:
        ex.oblige(st, 'memory', False, 'iterator of another list')
        raise DeadPath()
    return lpos(ex, st, p)


def list_erase2(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    i, j = lnorm(ex, st, key, a[1]), lnorm(ex, st, key, a[2])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, i), le(i, j), le(j, n)), 'list erase range')
    m = sub(j, i)
    ledit(ex, st, key, 'del', i, m)
    cset(st, key, len=sub(n, m), cont=Del(cget(ex, st, key, 'cont'), i, m))
    return It(key, cget(ex, st, key, 'ver'), i)


con(L + r'erase\(.*, .*\)$')(list_erase2)


@con(L + r'insert\(std::_List_const_iterator<[^()]*>, [^,()]*( const&|&&)\)$')
def list_insert(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    p = lnorm(ex, st, key, a[1])
    v = vec_elem(ex, st, fr, key, a[2])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, p), le(p, n)), 'list insert position')
    s, fails = alloc2(ex, st, key, add(n, 1), 'list insert')
    if s is None:
        return fails
    ledit(ex, st, key, 'ins', p, 1)
    cset(st, key, len=add(n, 1), cont=Ins(cget(ex, st, key, 'cont'), p, 1, lambda k: v))
    return fails + [Outcome(st, RET, It(key, cget(ex, st, key, 'ver'), p))]


con(r'std::_List_iterator<.*> std::__cxx11::list<.*>::emplace<[^,()]*>\(std::_List_const_iterator<[^()]*>, [^,()]*\)$')(list_insert)


@con(r'std::_List_iterator<.*> std::__cxx11::list<.*>::insert<.*>\(.*\)$')
def list_insert_range(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    p = lnorm(ex, st, key, a[1])
    n = cget(ex, st, key, 'len')
    ex.oblige(st, 'memory', And(le(0, p), le(p, n)), 'list insert position')
    # std::list copies the range into a temporary first: a range of the same list is fine
    seq, lo, m, _ = src_range(ex, st, a[2], a[3], 'list insert')
    s, fails = alloc2(ex, st, key, add(n, m), 'list insert')
    if s is None:
        return fails
    ledit(ex, st, key, 'ins', p, m)
    cset(st, key, len=add(n, m), cont=Ins(cget(ex, st, key, 'cont'), p, m, lambda k: seq.at(add(lo, k))))
    return fails + [Outcome(st, RET, It(key, cget(ex, st, key, 'ver'), p))]


@con(L + r'operator=\(std::__cxx11::list<.*> const&\)$')
def list_assign(ex, st, fr, a, ins, dem):
    key, k2 = vkey(ex, st, a[0]), vkey(ex, st, a[1])
    if key == k2:
        return a[0]
    n, c = cget(ex, st, k2, 'len'), cget(ex, st, k2, 'cont')
    f = st.copy()
    # libstdc++: the existing nodes are overwritten, then all missing nodes are built before any is linked in
    on, oc = cget(ex, st, key, 'len'), cget(ex, st, key, 'cont')
    cset(st, key, len=n, cont=Ins(Del(oc, 0, on), 0, n, c.at), ver=Gen())
    f.assume(lt(on, n))
    if not ex.feasible(f):
        return a[0]
    cset(f, key, cont=Pw(oc, 0, on, lambda k: c.at(k)), ver=Gen())
    return [Outcome(st, RET, a[0]), throw(ex, f, 'bad_alloc', 'out of memory (assignment)')]


@con(L + r'(operator=\(std::__cxx11::list<.*>&&\)|swap\(std::__cxx11::list<.*>&\))$')
def list_move(ex, st, fr, a, ins, dem):
    key, k2 = vkey(ex, st, a[0]), vkey(ex, st, a[1])
    n, c = cget(ex, st, k2, 'len'), cget(ex, st, k2, 'cont')
    n0, c0 = cget(ex, st, key, 'len'), cget(ex, st, key, 'cont')
    cset(st, key, len=n, cont=c, ver=Gen())
    if 'swap' in dem:
        cset(st, k2, len=n0, cont=c0, ver=Gen())
        return None
    cset(st, k2, len=0, cont=Fn(lambda k: 0, 'moved'), ver=Gen())
    return a[0]


@con(r'(void )?std::__cxx11::list<.*>::splice\(std::_List_const_iterator<[^()]*>, std::__cxx11::list<.*>&&?\)$')
def list_splice(ex, st, fr, a, ins, dem):
    key, k2 = vkey(ex, st, a[0]), vkey(ex, st, a[2])
    p = lnorm(ex, st, key, a[1])
    n, m = cget(ex, st, key, 'len'), cget(ex, st, k2, 'len')
    src = cget(ex, st, k2, 'cont')
    ex.oblige(st, 'memory', key != k2, 'splice of a list into itself')
    ledit(ex, st, key, 'ins', p, m)
    cset(st, key, len=add(n, m), cont=Ins(cget(ex, st, key, 'cont'), p, m, src.at))
    cset(st, k2, len=0, cont=Fn(lambda k: 0, 'moved'), ver=Gen())
    return None


@con(r'(void )?std::__cxx11::list<.*>::splice\(std::_List_const_iterator<[^()]*>, std::__cxx11::list<.*>&&?, std::_List_const_iterator<[^()]*>(, std::_List_const_iterator<[^()]*>)?\)$')
def list_splice_range(ex, st, fr, a, ins, dem):
    key, k2 = vkey(ex, st, a[0]), vkey(ex, st, a[2])
    if key == k2:
        raise Unsupported('splice within one list')
    p = lnorm(ex, st, key, a[1])
    i = lnorm(ex, st, k2, a[3])
    j = lnorm(ex, st, k2, a[4]) if len(a) > 4 else add(i, 1)
    n, m = cget(ex, st, key, 'len'), cget(ex, st, k2, 'len')
    src = cget(ex, st, k2, 'cont')
    ex.oblige(st, 'memory', And(le(0, i), le(i, j), le(j, m)), 'splice of a valid range')
    w = sub(j, i)
    ledit(ex, st, key, 'ins', p, w)
    cset(st, key, len=add(n, w), cont=Ins(cget(ex, st, key, 'cont'), p, w, lambda k: src.at(add(i, k))))
    ledit(ex, st, k2, 'del', i, w)
    cset(st, k2, len=sub(m, w), cont=Del(src, i, w))
    return None


@con(r'(void )?std::__cxx11::list<.*>::sort(<.*>)?\(.*\)$')
def list_sort(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    et = cget(ex, st, key, 'et')
    if et[1]:
        raise Unsupported('sort of pointers')
    desc = 'greater' in dem
    if 'sort<' in dem and not desc and 'less' not in dem:
        raise Unsupported('custom comparator')
    cset(st, key, cont=sorted_seq(ex, st, cget(ex, st, key, 'cont'), 0, n, desc))
    g = Gen()
    ex.vers[g] = (cget(ex, st, key, 'ver'), 'sort', 0, n)
    cset(st, key, ver=g)
    return None


@con(L + r'reverse\(\)$')
def list_reverse(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = cget(ex, st, key, 'len')
    cset(st, key, cont=Rev(cget(ex, st, key, 'cont'), 0, n))
    g = Gen()
    ex.vers[g] = (cget(ex, st, key, 'ver'), 'reverse', 0, n)
    cset(st, key, ver=g)
    return None


@con(L + r'resize\(unsigned long(, .*)?\)$')
def list_resize(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n = ex.uns(st, ex.asint(a[1]), 64)
    v = vec_elem(ex, st, fr, key, a[2]) if len(a) > 2 else 0
    old = cget(ex, st, key, 'len')
    c = cget(ex, st, key, 'cont')
    outs = []
    g, s = ex.fork(st, lt(old, n))
    if g is not None:
        s2, fails = alloc2(ex, g, key, n, 'resize')
        outs += fails
        if s2 is not None:
            ledit(ex, s2, key, 'ins', old, sub(n, old))
            cset(s2, key, len=n, cont=Ins(c, old, sub(n, old), lambda k: v))
            outs.append(Outcome(s2, RET, None))
    if s is not None:
        ledit(ex, s, key, 'del', n, sub(old, n))
        cset(s, key, len=n, cont=Del(c, n, sub(old, n)))
        outs.append(Outcome(s, RET, None))
    return outs


# ---- helpers of the repository, verified against these contracts in their own units (units.py) --------------
@con(r'fast_memcpy\(void\*, void const\*, unsigned long\)$')
def c_fast_memcpy(ex, st, fr, a, ins, dem):
    memcpy(ex, st, fr, a[0], a[1], a[2], False)
    return None


CSIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned int': 4,
         'wchar_t': 4, 'char32_t': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8,
         'long double': 16}


def csize(t):
    return 8 if t.endswith('*') else CSIZE.get(t)


@con(r'void simd::(simdMemCpy|simdMemCpyAligned)<(.*)>\(\2\*, \2\*, unsigned long\)$')
def c_simd_memcpy(ex, st, fr, a, ins, dem):
    es = csize(re.match(r'void simd::\w+<(.*)>\(', dem).group(1))
    if not isinstance(a[1], P) or not isinstance(a[0], P) or es is None:
        raise Unsupported('simdMemCpy of %r' % (a[1],))
    if 'Aligned' in dem:
        for p in a[:2]:
            al = getattr(p.b, 'align', 1)
            if not (al >= 64 and is_c(p.off) and p.off % 64 == 0):
                ex.oblige(st, 'memory', eq(Z(add(core.addr_of(p.b), p.off)) % 64, 0), 'simdMemCpyAligned from and to 64-byte boundaries')
    memcpy(ex, st, fr, a[1], a[0], mul(a[2], es), False)
    return None


@con(r'void simd::simdReverse<.*>\(.*\*, unsigned long\)$|void qReverse<\d+ul>\(void\*, unsigned long\)$')
def c_reverse(ex, st, fr, a, ins, dem):
    p, n = a[0], ex.uns(st, ex.asint(a[1]), 64)
    m = re.match(r'void qReverse<(\d+)ul>', dem)
    es = int(m.group(1)) if m else csize(re.match(r'void simd::simdReverse<(.*)>\(', dem).group(1))
    if isinstance(p, P):
        ai = arrinfo(ex, st, p.b)
        if ai is not None:
            i = exdiv(p.off, ai.es)
            if i is None or ai.ro or es != ai.es:
                raise Unsupported('reversal of part of an element')
            ex.oblige(st, 'memory', And(le(0, i), le(add(i, n), ai.n)), 'reversed range inside the array bounds')
            ai.setter(st, Rev(ai.seq, i, add(i, n)))
            return None
    if p is NULL:
        ex.oblige(st, 'memory', eq(n, 0), 'reversal of a null array')
        return None
    raise Unsupported('reversal of %r' % (p,))


@con(r'simd::simdsort\(std::vector<.*>&, bool\)$')
def c_simdsort(ex, st, fr, a, ins, dem):
    key = vkey(ex, st, a[0])
    n, c = cget(ex, st, key, 'len'), cget(ex, st, key, 'cont')
    outs = []
    small, big = ex.fork(st, le(n, 1))
    if small is not None:
        outs.append(Outcome(small, RET, None))
    if big is None:
        return outs
    up, down = ex.fork(big, Not(ex.asbool(a[1])))
    for s, desc in ((up, False), (down, True)):
        if s is None:
            continue
        f = s.copy()
        cset(s, key, cont=sorted_seq(ex, s, c, 0, n, desc))
        outs.append(Outcome(s, RET, None))
        p = permutation(ex, f, c, n)
        cset(f, key, cont=Pw(c, 0, n, lambda k, p=p: c.at(p.f(Z(k)))))
        outs.append(throw(ex, f, 'bad_alloc', 'out of memory (sort buffer)'))
    return outs
