"""The operation contracts."""
from .spec import *

I64R = (I64MIN, I64MAX)


def symint(cx, nm, lo=I64MIN, hi=I64MAX):
    i = z3.Int('%s!%d' % (nm, T.uid()))
    T.RANGE[i.decl().name()] = (lo, hi)
    cx.st.assume(And(i >= lo, i <= hi))
    return i


def none_ret(cx, st, r):
    cx.is_none(st, r)


@spec('sq_length', 'mp_length', ret='ssize', grp='query')
def s_len(cx):
    s = cx.mk_self()
    return 'len(self)', [s], Post(ret=lambda cx, st, v: cx.ob(st, eq(v, cx.n), 'len() is the number of elements'))


@spec('append', grp='mutate')
def s_append(cx):
    s = cx.mk_self()
    x = cx.arg('x')
    okc, v = cx.elem(x)
    return 'append(x)', [s, x], Post(ok=[okc], n=add(cx.n, 1), seq=Ins(cx.a, cx.n, 1, lambda k: v), ret=none_ret,
                                     errs=[(Not(okc), ANY)])


@spec('clear', grp='mutate')
def s_clear(cx):
    s = cx.mk_self()
    return 'clear()', [s, NULL], Post(n=0, seq=cx.a, ret=none_ret)


@spec('sq_item', grp='query')
def s_item(cx):
    s = cx.mk_self()
    i = symint(cx, 'i', 0)
    inr = lt(i, cx.n)
    return 'self[i] (sequence slot)', [s, i], Post(
        ok=[inr], ret=lambda cx, st, r: cx.is_elem(st, r, cx.a.at(i), 'returns the i-th element'),
        errs=[(Not(inr), 'PyExc_IndexError')])


@spec('sq_ass_item', ret='int', grp='mutate')
def s_assitem(cx):
    s = cx.mk_self()
    i = symint(cx, 'i', 0)
    x = cx.arg('x')
    okc, v = cx.elem(x)
    inr = lt(i, cx.n)
    return 'self[i] = x (sequence slot)', [s, i, x], Post(
        ok=[inr, okc], n=cx.n, seq=Store(cx.a, i, v), errs=[(Not(inr), 'PyExc_IndexError'), (Not(okc), ANY)])


@spec('sq_ass_item', ret='int', grp='mutate')
def s_delitem(cx):
    s = cx.mk_self()
    i = symint(cx, 'i', 0)
    inr = lt(i, cx.n)
    return 'del self[i] (sequence slot)', [s, i, NULL], Post(
        ok=[inr], n=sub(cx.n, 1), seq=Del(cx.a, i, 1), errs=[(Not(inr), 'PyExc_IndexError')])


# ---- subscript ---------------------------------------------------------------------------------------------
SLICE_T = gid('PySlice_Type')


def is_slice(t):
    return eq(typ(Z(t)), SLICE_T)


def keyint(cx, name='key'):
    """an arbitrary object used as a subscript that supports __index__"""
    k = cx.arg(name)
    cx.st.assume(isidx(Z(k.t)))
    cx.st.assume(Not(is_slice(k.t)))
    return k, ival(Z(k.t))


@spec('mp_subscript', grp='query')
def s_sub(cx):
    s = cx.mk_self()
    k, i = keyint(cx)
    p = cx.norm(i, cx.n)
    inr = And(le(0, p), lt(p, cx.n))
    return 'self[int]', [s, k], Post(ok=[inr], ret=lambda cx, st, r: cx.is_elem(st, r, cx.a.at(p), 'returns the element at that index'),
                                     errs=[(Not(inr), 'PyExc_IndexError')])


def slice_key(cx):
    k = cx.arg('slice')
    t = k.t
    cx.st.assume(is_slice(t))
    cx.st.assume(Not(isidx(Z(t))))
    return k


@spec('mp_subscript', grp='slice')
def s_sub_slice(cx):
    s = cx.mk_self()
    k = slice_key(cx)
    t = Z(k.t)
    step = capi.sl_step(t)
    cs, cp, _l = capi.adjust(cx.n, capi.sl_start(t), capi.sl_stop(t), step)
    ln = capi.sl_len(Z(cx.n), Z(cs), Z(cp), step)

    def ret(cx, st, r):
        q = Fn(lambda j: cx.a.at(add(cs, mul(j, step))))
        if isinstance(r, P) and r.b.kind == 'obj':
            cx.is_container(st, r, ln, q, 'slice')
        else:
            cx.is_pylist(st, r, ln, q, 'slice')
    return 'self[slice]', [s, k], Post(ok=[capi.sl_ok(t)], ret=ret, errs=[(Not(capi.sl_ok(t)), ANY)])


@spec('mp_subscript', 'mp_ass_subscript', grp='slice', params=('get', 'set', 'del'))
def s_sub_bad(cx, mode):
    return None


def bad_key(cx):
    k = cx.arg('key')
    cx.st.assume(Not(isidx(Z(k.t))))
    cx.st.assume(Not(is_slice(k.t)))
    return k


@spec('mp_subscript', grp='slice')
def s_sub_other(cx):
    s = cx.mk_self()
    k = bad_key(cx)
    p = Post(ok=[False], errs=[(True, 'PyExc_TypeError')])
    p.no_success = True
    return 'self[neither int nor slice]', [s, k], p


@spec('mp_ass_subscript', grp='slice', ret='int', params=(0, 1))
def s_asub_other(cx, d):
    s = cx.mk_self()
    k = bad_key(cx)
    p = Post(ok=[False], errs=[(True, 'PyExc_TypeError')])
    p.no_success = True
    return ('del self[neither]' if d else 'self[neither int nor slice] = x'), [s, k, NULL if d else cx.arg('x')], p


@spec('mp_ass_subscript', ret='int', grp='mutate')
def s_asub(cx):
    s = cx.mk_self()
    k, i = keyint(cx)
    x = cx.arg('x')
    okc, v = cx.elem(x)
    p = cx.norm(i, cx.n)
    inr = And(le(0, p), lt(p, cx.n))
    return 'self[int] = x', [s, k, x], Post(ok=[inr, okc], n=cx.n, seq=Store(cx.a, p, v),
                                            errs=[(Not(inr), 'PyExc_IndexError'), (Not(okc), ANY)])


@spec('mp_ass_subscript', ret='int', grp='mutate')
def s_dsub(cx):
    s = cx.mk_self()
    k, i = keyint(cx)
    p = cx.norm(i, cx.n)
    inr = And(le(0, p), lt(p, cx.n))
    return 'del self[int]', [s, k, NULL], Post(ok=[inr], n=sub(cx.n, 1), seq=Del(cx.a, p, 1),
                                               errs=[(Not(inr), 'PyExc_IndexError')])


@spec('mp_ass_subscript', ret='int', grp='slice', params=('any', 'self', 'same'))
def s_aslice(cx, mode):
    s = cx.mk_self()
    k = slice_key(cx)
    t = Z(k.t)
    if mode == 'any':
        x = cx.arg('value')
        m, q, allok = cx.items(x)
        conds = [isseq(Z(x.t))] + ([allok] if allok is not None else [])
        must = [Not(ifail(Z(x.t)))]
    else:
        x, m, q, conds, _ = container_arg(cx, mode)
        must = []
    step = capi.sl_step(t)
    cs, cp, _l = capi.adjust(cx.n, capi.sl_start(t), capi.sl_stop(t), step)
    dl = If(lt(cs, cp), sub(cp, cs), 0)
    return 'self[i:j] = %s' % {'any': 'sequence', 'self': 'self', 'same': 'another instance'}[mode], [s, k, x], Post(
        ok=[capi.sl_ok(t), eq(step, 1)] + conds, n=add(sub(cx.n, dl), m), seq=Ins(Del(cx.a, cs, dl), cs, m, q.at), errs=[(True, ANY)],
        econt='same', must=must)


@spec('mp_ass_subscript', ret='int', grp='slice')
def s_dslice(cx):
    s = cx.mk_self()
    k = slice_key(cx)
    t = Z(k.t)
    step = capi.sl_step(t)
    cs, cp, _l = capi.adjust(cx.n, capi.sl_start(t), capi.sl_stop(t), step)
    dl = If(lt(cs, cp), sub(cp, cs), 0)
    return 'del self[i:j]', [s, k, NULL], Post(
        ok=[capi.sl_ok(t), eq(step, 1)], n=sub(cx.n, dl), seq=Del(cx.a, cs, dl), errs=[(True, ANY)])


# ---- searching -----------------------------------------------------------------------------------------------
def matcher(cx, st, v):
    """(pred, fails): element j equals v / comparing raises"""
    if cx.ci.isp:
        return (lambda j: Or(objeq(cx.a.at(j), v), And(Not(eq(cx.a.at(j), v)), rcfail(Z(cx.a.at(j)), Z(v), z3.IntVal(2))))), \
               (lambda j: And(Not(eq(cx.a.at(j), v)), rcfail(Z(cx.a.at(j)), Z(v), z3.IntVal(2))))
    return (lambda j: eq(cx.a.at(j), v)), (lambda j: False)


@spec('sq_contains', ret='bool', grp='query')
def s_contains(cx):
    s = cx.mk_self()
    x = cx.arg('x')
    okc, v = cx.elem(x)
    if not cx.ci.isp:
        okc = isint(x.t)
        cx.st.assume(Implies(isint(x.t), isidx(Z(x.t))))
    pred, bad = matcher(cx, cx.st, v)
    p = cx.first(0, cx.n, pred)
    found = And(okc, lt(p, cx.n))
    # an integer that no C integer holds is no element: False or an exception
    big = Or(lt(v, I64MIN), lt(I64MAX, v)) if not cx.ci.isp else False
    return 'x in self', [s, x], Post(ok=[Or(Not(found), Not(bad(p)))], must=[Not(big)], errs=[(True, ANY)],
                                     ret=lambda cx, st, r: cx.ob(st, Iff(eq(r, 1), found), 'True exactly when some element equals x'))


@spec('index', grp='query', params=(1, 2, 3))
def s_index(cx, k):
    s = cx.mk_self()
    x = cx.arg('x')
    okc, v = cx.elem(x)
    args = [x]
    lo, hi = 0, cx.n
    conds = [okc]
    for j, nm in ((2, 'start'), (3, 'stop')):
        if k >= j:
            o = cx.arg(nm)
            args.append(o)
            conds.append(isint(o.t) if False else isidx(Z(o.t)))
            iv = ival(Z(o.t))
            conds.append(And(le(I64MIN, iv), le(iv, I64MAX)))
            if j == 2:
                lo = cx.clamp(iv, cx.n)
            else:
                hi = cx.clamp(iv, cx.n)
    pred, bad = matcher(cx, cx.st, v)
    p = cx.first(lo, hi, pred)
    return 'index(x%s)' % ', start, stop'[:{1: 0, 2: 7, 3: 13}[k]], [s, cx.tupargs(args)], Post(
        ok=conds + [And(lt(p, hi), Not(bad(p)))],
        ret=lambda cx, st, r: cx.is_int(st, r, p, 'the first matching position'),
        errs=[(Not(lt(p, hi)), 'PyExc_ValueError'), (Not(And(*conds)), ANY), (bad(p), ANY)])


@spec('index', 'insert', grp='query', params=(0, 4))
def s_badargs(cx, k):
    s = cx.mk_self()
    p = Post(ok=[False], errs=[(True, 'PyExc_TypeError')])
    p.no_success = True
    return 'wrong number of arguments (%d)' % k, [s, cx.tupargs([cx.arg('a%d' % i) for i in range(k)])], p


@spec('count', grp='query')
def s_count(cx):
    s = cx.mk_self()
    x = cx.arg('x')
    okc, v = cx.elem(x)
    pred, bad = matcher(cx, cx.st, v)
    anybad = None
    if cx.ci.isp:
        fb = cx.first(0, cx.n, bad, 'firstbad')
        anybad = lt(fb, cx.n)
        c = stl.count_pred(cx.ex, cx.st, cx.a, cx.n, lambda j: objeq(cx.a.at(j), v))
    else:
        c = stl.count_term(cx.ex, cx.st, cx.a, 0, cx.n, v)
    return 'count(x)', [s, x], Post(ok=[okc] + ([Not(anybad)] if anybad is not None else []),
                                    ret=lambda cx, st, r: cx.is_int(st, r, c, 'the number of equal elements'),
                                    errs=[(True, ANY)])


@spec('remove', grp='mutate')
def s_remove(cx):
    s = cx.mk_self()
    x = cx.arg('x')
    okc, v = cx.elem(x)
    pred, bad = matcher(cx, cx.st, v)
    p = cx.first(0, cx.n, pred)
    return 'remove(x)', [s, x], Post(ok=[okc, lt(p, cx.n), Not(And(lt(p, cx.n), bad(p)))], n=sub(cx.n, 1), seq=Del(cx.a, p, 1), ret=none_ret,
                                     errs=[(Not(lt(p, cx.n)), 'PyExc_ValueError'), (Not(okc), ANY), (bad(p), ANY)])


@spec('insert', grp='mutate')
def s_insert(cx):
    s = cx.mk_self()
    i = cx.arg('i')
    x = cx.arg('x')
    okc, v = cx.elem(x)
    iv = ival(Z(i.t))
    p = cx.clamp(iv, cx.n)
    oki = And(isidx(Z(i.t)), le(I64MIN, iv), le(iv, I64MAX))
    return 'insert(i, x)', [s, cx.tupargs([i, x])], Post(
        ok=[oki, okc], n=add(cx.n, 1), seq=Ins(cx.a, p, 1, lambda k: v), ret=none_ret, errs=[(Not(And(oki, okc)), ANY)])


@spec('pop', grp='mutate', params=(0, 1, 2))
def s_pop(cx, k):
    s = cx.mk_self()
    if k == 0:
        return 'pop()', [s] + cx.fastargs([]), Post(
            ok=[lt(0, cx.n)], n=sub(cx.n, 1), seq=Del(cx.a, sub(cx.n, 1), 1), econt=pop_econt,
            ret=lambda cx, st, r: cx.is_elem(st, r, cx.a.at(sub(cx.n, 1)), 'returns the removed last element'),
            errs=[(eq(cx.n, 0), 'PyExc_IndexError')])
    if k == 2:
        p = Post(ok=[False], errs=[(True, ('PyExc_TypeError', 'PyExc_IndexError'))])
        p.no_success = True
        return 'pop(i, j)', [s] + cx.fastargs([cx.arg('i'), cx.arg('j')]), p
    i = cx.arg('i')
    iv = ival(Z(i.t))
    # an index object that is not an int is converted through __index__ by list.pop and rejected here
    cx.st.assume(Implies(isidx(Z(i.t)), isint(i.t)))
    oki = And(isint(i.t), le(I64MIN, iv), le(iv, I64MAX))
    p = cx.norm(iv, cx.n)
    inr = And(le(0, p), lt(p, cx.n))
    return 'pop(i)', [s] + cx.fastargs([i]), Post(
        ok=[oki, inr], n=sub(cx.n, 1), seq=Del(cx.a, p, 1), econt=pop_econt,
        ret=lambda cx, st, r: cx.is_elem(st, r, cx.a.at(p), 'returns the removed element'),
        errs=[(Not(inr), 'PyExc_IndexError'), (Not(oki), ANY)])


def pop_econt(cx, st, n1, c1):
    # creating the int object after the element left the list may still fail for lack of memory
    if st.g('apifail') is None:
        cx.seq_is(st, n1, c1, cx.n, cx.a, 'content unchanged on error')


# ---- bulk ---------------------------------------------------------------------------------------------------
def container_arg(cx, mode):
    """other operand: 'self', another instance of the class, or any other object"""
    if mode == 'self':
        return cx.self, cx.n, cx.a, [], None
    if mode == 'same':
        o = cx.mk_self('other')
        return o, o.b.n0, o.b.seq0, [], None
    x = cx.arg('x')
    m, q, allok = cx.items(x)
    conds = [iterable(Z(x.t)), Not(ifail(Z(x.t)))] + ([allok] if allok is not None else [])
    return x, m, q, conds, x


MODES = ('self', 'same', 'any')
MLAB = {'self': 'self', 'same': 'another instance', 'any': 'any object'}


@spec('extend', grp='bulk', params=MODES)
def s_extend(cx, mode):
    s = cx.mk_self()
    x, m, q, conds, _ = container_arg(cx, mode)
    return 'extend(%s)' % MLAB[mode], [s] + cx.fastargs([x]), Post(
        ok=conds, n=add(cx.n, m), seq=Ins(cx.a, cx.n, m, q.at), econt='prefix', ret=none_ret, errs=[(True, ANY)])


@spec('extend', grp='bulk', params=(0, 2))
def s_extend_bad(cx, k):
    s = cx.mk_self()
    p = Post(ok=[False], errs=[(True, 'PyExc_TypeError')])
    p.no_success = True
    return 'extend with %d arguments' % k, [s] + cx.fastargs([cx.arg('a')] * k), p


@spec('sq_inplace_concat', grp='bulk', params=MODES)
def s_iadd(cx, mode):
    s = cx.mk_self()
    x, m, q, conds, _ = container_arg(cx, mode)
    return 'self += %s' % MLAB[mode], [s, x], Post(
        ok=conds, n=add(cx.n, m), seq=Ins(cx.a, cx.n, m, q.at), econt='prefix', errs=[(True, ANY)],
        ret=lambda cx, st, r: cx.ob(st, isinstance(r, P) and r.b is cx.self.b and is_c(r.off) and r.off == 0, 'returns self'))


@spec('sq_concat', grp='bulk', params=('self', 'same'))
def s_add(cx, mode):
    s = cx.mk_self()
    x, m, q, conds, _ = container_arg(cx, mode)
    cx.sizes.append(add(cx.n, m))
    return 'self + %s' % MLAB[mode], [s, x], Post(
        ok=conds, errs=[(True, ANY)],
        ret=lambda cx, st, r: cx.is_container(st, r, add(cx.n, m), Ins(cx.a, cx.n, m, q.at), 'concatenation'))


@spec('sq_concat', grp='bulk')
def s_add_list(cx):
    s = cx.mk_self()
    x = cx.arg('x')
    t = Z(x.t)

    def ret(cx, st, r):
        m = ilen(t)
        if cx.ci.isp:
            q = Fn(lambda k: item(t, Z(k)))
            cx.is_pylist(st, r, add(cx.n, m), Ins(cx.a, cx.n, m, q.at), 'concatenation with a list')
            return
        if not (isinstance(r, P) and r.b.kind == 'pylist'):
            return cx.ob(st, False, 'a list is returned (got %r)' % (r,))
        d = st.m[r.b.bid]
        cx.ob(st, eq(d['len'], add(cx.n, m)), 'concatenation with a list: length')
        k = z3.Int('k!%d' % T.uid())
        s2 = st.copy()
        s2.assume(And(k >= 0, lt(k, cx.n)))
        e = d['cont'].at(k)
        cx.ob(s2, And(isint(e), eq(ival(Z(e)), cx.a.at(k))), 'concatenation with a list: own elements first')
        s3 = st.copy()
        s3.assume(And(k >= 0, lt(k, m)))
        cx.ob(s3, eq(d['cont'].at(add(cx.n, k)), item(t, k)), 'concatenation with a list: then the list elements')
    return 'self + any object', [s, x], Post(ok=[islist(t)], errs=[(Not(islist(t)), 'PyExc_TypeError')], ret=ret)


LIM = 2 ** 44      # bytes one container can hold (address space)


def rep(cx, k):
    m = If(lt(k, 0), 0, k)
    n = cx.n
    return mul(n, m), Fn(lambda j: cx.a.at(Z(j) % Z(n)))


@spec('sq_repeat', grp='bulk')
def s_mul(cx):
    s = cx.mk_self()
    k = symint(cx, 'k')
    n, q = rep(cx, k)
    return 'self * k', [s, k], Post(must=[le(mul(n, cx.ci.es), LIM)], errs=[(True, ANY)], ret=lambda cx, st, r: cx.is_container(st, r, n, q, 'repetition'))


@spec('__rmul__', grp='bulk')
def s_rmul(cx):
    s = cx.mk_self()
    x = cx.arg('k')
    iv = ival(Z(x.t))
    n, q = rep(cx, iv)
    return 'k * self', [s, x], Post(ok=[And(isint(x.t), le(I64MIN, iv), le(iv, I64MAX))], must=[le(mul(n, cx.ci.es), LIM)],
                                    errs=[(isint(x.t), ANY), (True, 'PyExc_TypeError')],
                                    ret=lambda cx, st, r: cx.is_container(st, r, n, q, 'repetition'))


@spec('sq_inplace_repeat', grp='bulk')
def s_imul(cx):
    s = cx.mk_self()
    k = symint(cx, 'k')
    n, q = rep(cx, k)
    return 'self *= k', [s, k], Post(
        must=[le(mul(n, cx.ci.es), LIM)], n=n, seq=q, errs=[(True, ANY)],
        ret=lambda cx, st, r: cx.ob(st, isinstance(r, P) and r.b is cx.self.b, 'returns self'))


@spec('copy', grp='build')
def s_copy(cx):
    s = cx.mk_self()
    return 'copy()', [s, NULL], Post(ret=lambda cx, st, r: cx.is_container(st, r, cx.n, cx.a, 'copy'))


@spec('to_list', grp='build')
def s_tolist(cx):
    s = cx.mk_self()
    return 'to_list()', [s, NULL], Post(ret=lambda cx, st, r: cx.is_pylist(st, r, cx.n, cx.a, 'to_list'))


@spec('resize', grp='build')
def s_resize(cx):
    s = cx.mk_self()
    x = cx.arg('size')
    v = ival(Z(x.t))
    fill = gid('_Py_NoneStruct') if cx.ci.isp else 0
    n2 = v
    q = Pw(cx.a, cx.n, v, lambda k: fill)
    return 'resize(size)', [s, x], Post(ok=[And(isint(x.t), le(0, v), le(v, I64MAX))], n=n2, seq=q, ret=none_ret, errs=[(True, ANY)])


@spec('reverse', grp='reverse')
def s_reverse(cx):
    s = cx.mk_self()
    return 'reverse()', [s, NULL], Post(n=cx.n, seq=Fn(lambda k: cx.a.at(sub(sub(cx.n, 1), k))), ret=none_ret)


@spec('from_range', grp='build', params=(0, 1, 2, 3, 4), only=lambda ci: not ci.isp)
def s_range(cx, k):
    args = [cx.arg('r%d' % i) for i in range(k)]
    t = cx.tupargs(args)
    if k in (0, 4):
        p = Post(ok=[False], errs=[(True, 'PyExc_TypeError')])
        p.no_success = True
        return 'from_range with %d arguments' % k, [NULL, t], p
    iv = [ival(Z(a.t)) for a in args]
    lo, hi = (0, iv[0]) if k == 1 else (iv[0], iv[1])
    step = iv[2] if k == 3 else 1
    conds = [And(isidx(Z(a.t)), le(I64MIN, ival(Z(a.t))), le(ival(Z(a.t)), I64MAX)) for a in args]
    if k == 3:
        conds.append(Not(eq(step, 0)))
    # the values are documented to be in the element range (the last one lies at least one step before stop)
    cx.st.assume(Or(If(Z(step) > 0, le(hi, lo), le(lo, hi)),
                    And(le(cx.ci.lo, lo), le(lo, cx.ci.hi), If(Z(step) > 0, le(sub(hi, step), cx.ci.hi), le(cx.ci.lo, sub(hi, step))))))
    def ret(cx, st, r):
        if not (isinstance(r, P) and r.b.kind == 'obj' and getattr(r.b, 'cls', None) is cx.ci):
            return cx.ob(st, False, 'a new container (got %r)' % (r,))
        d = st.m.get(r.b.bid)
        m, c = d[(16, 'len')], d[(16, 'cont')]
        k = z3.Int('k!%d' % T.uid())
        s2 = st.copy()
        s2.assume(And(k >= 0, lt(k, m)))
        v = add(lo, mul(k, step))
        s2.assume(And(le(cx.ci.lo, v), le(v, cx.ci.hi)))
        cx.ob(s2, eq(c.at(k), add(lo, mul(k, step))), 'element k is start + k*step')
        # exactly the elements before stop
        cx.ob(st, le(0, m), 'length')
        up = Z(step) > 0
        last = add(lo, mul(sub(m, 1), step))
        nxt = add(lo, mul(m, step))
        cx.ob(st, Or(le(m, 0), If(up, lt(last, hi), lt(hi, last))), 'every element lies before stop')
        cx.ob(st, If(up, le(hi, nxt), le(nxt, hi)), 'no element before stop is missing')
    return 'from_range(%s)' % ', '.join(['start', 'stop', 'step'][:k]) if k > 1 else 'from_range(stop)', [NULL, t], Post(
        ok=conds, must=[And(le(mul(sub(hi, lo), cx.ci.es), LIM), le(mul(sub(lo, hi), cx.ci.es), LIM))], ret=ret, errs=[(True, ANY)])


# ---- sort ------------------------------------------------------------------------------------------------------
def pointwise(cx, st, n, f, g):
    """f(k) == g(k) for all k in [0, n)"""
    k = z3.Int('k!%d' % T.uid())
    s = st.copy()
    s.assume(And(k >= 0, lt(k, n)))
    return cx.ex.proves(s, eq(f(k), g(k)))


def elem_of(cx, st, n, seq):
    """object sequence -> element values (None when some slot may not hold a valid element)"""
    if cx.ci.isp:
        return seq.at
    k = z3.Int('k!%d' % T.uid())
    s = st.copy()
    s.assume(And(k >= 0, lt(k, n)))
    if not cx.ex.proves(s, isint(Z(seq.at(k)))):
        return None
    return lambda j: ival(Z(seq.at(j)))


def is_permutation(cx, st, n1, c1):
    """the content is a rearrangement of the old one"""
    cx.ob(st, eq(n1, cx.n), 'no element is lost: length')
    good = pointwise(cx, st, cx.n, c1.at, cx.a.at)
    for p in st.g('perms') or ():
        good = good or (cx.ex.proves(st, eq(p.n, cx.n)) and pointwise(cx, st, cx.n, c1.at, lambda k: cx.a.at(p.f(Z(k)))))
    for (q, lo, n, d, b, _) in st.g('sorts') or ():
        good = good or (is_c(lo) and lo == 0 and cx.ex.proves(st, eq(n, cx.n)) and pointwise(cx, st, n, q.at, cx.a.at)
                        and pointwise(cx, st, n, c1.at, b.at))
    cx.ob(st, good, 'no element is lost: the content is a rearrangement of the old one')


@spec('sort', grp='sort', params=((), ('key',), ('reverse',), ('key', 'reverse'), ('None', 'reverse')))
def s_sort(cx, form):
    s = cx.mk_self()
    vals, names, conds = [], [], []
    kid, rev = 0, False
    for f in form:
        if f == 'None':
            vals.append(O(gid('_Py_NoneStruct')))
            names.append('key')
        elif f == 'key':
            k = cx.arg('key')
            cx.st.assume(Not(eq(k.t, gid('_Py_NoneStruct'))))
            kid = k.t
            vals.append(k)
            names.append('key')
        else:
            r = cx.arg('reverse')
            conds.append(And(isidx(Z(r.t)), le(-2**31, ival(Z(r.t))), le(ival(Z(r.t)), 2**31 - 1)))
            rev = Not(eq(ival(Z(r.t)), 0))
            vals.append(r)
            names.append('reverse')
    t = cx.tupargs(vals, names)
    nokey = 'key' not in form
    if not nokey or cx.ci.isp:
        conds.append(Not(capi.sortfails(Z(kid), Z(If(rev, 1, 0)))))

    def arranged(cx, st, r):
        ex = cx.ex
        d = st.m[cx.self.b.bid]
        n1, c1 = d[(16, 'len')], d[(16, 'cont')]
        cx.is_none(st, r)
        cx.ob(st, eq(n1, cx.n), 'the length is unchanged')
        good = ex.proves(st, le(cx.n, 1)) and pointwise(cx, st, cx.n, c1.at, cx.a.at)
        if nokey and not cx.ci.isp:
            for (q, lo, n, desc, b, _) in st.g('sorts') or ():
                good = good or (is_c(lo) and lo == 0 and ex.proves(st, eq(n, cx.n)) and ex.proves(st, rev if desc else Not(rev))
                                and pointwise(cx, st, n, q.at, cx.a.at) and pointwise(cx, st, n, c1.at, b.at))
        for p in st.g('perms') or ():
            if good or not p.__dict__.get('ok') or not same(p.key, kid):
                continue
            q0 = p.seq if is_c(p.lo) and p.lo == 0 else Fn(lambda k, p=p: p.seq.at(add(p.lo, k)))
            el = elem_of(cx, st, p.n, q0)
            good = (el is not None and ex.proves(st, eq(p.n, cx.n)) and ex.proves(st, Iff(p.rev, rev)) and pointwise(cx, st, p.n, el, cx.a.at)
                    and pointwise(cx, st, p.n, c1.at, lambda k: cx.a.at(p.f(Z(k)))))
        cx.ob(st, good, 'the elements are in the order list.sort gives them')
    return 'sort(%s)' % ', '.join('%s' % f for f in form), [s, t, NULL], Post(
        ok=conds, seq=lambda *a: None, ret=arranged, errs=[(True, ANY)], econt=is_permutation)


# ---- comparison ------------------------------------------------------------------------------------------------
CMP = {'<': 0, '<=': 1, '==': 2, '!=': 3, '>': 4, '>=': 5}


@spec('richcompare', grp='compare', params=[(o, w) for w in ('same', 'self', 'other') for o in CMP])
def s_compare(cx, par):
    o, who = par
    s = cx.mk_self()
    op = CMP[o]
    if who == 'other':
        v = cx.arg('value')
        t = Z(v.t)
        m, isq = ilen(t), isseq(t)
        obj = lambda k: item(t, Z(k))             # noqa: E731
        if not cx.ci.isp:
            cx.items(v)
    else:
        v = s if who == 'self' else cx.mk_self('value')
        m, isq, sq = v.b.n0, True, v.b.seq0
        obj = sq.at if cx.ci.isp else None
    if cx.ci.isp:
        x, y = cx.a.at, obj
        same_ = lambda k: objeq(Z(x(k)), Z(y(k)))                                               # noqa: E731
        bad = lambda k: And(Not(eq(Z(x(k)), Z(y(k)))), rcfail(Z(x(k)), Z(y(k)), z3.IntVal(2)))    # noqa: E731
        order = lambda k: rcb(Z(x(k)), Z(y(k)), z3.IntVal(op))                                   # noqa: E731
        obad = lambda k: rcfail(Z(x(k)), Z(y(k)), z3.IntVal(op))                                 # noqa: E731
    else:
        x = cx.a.at
        if who == 'other':
            y, valid = (lambda k: ival(Z(obj(k)))), (lambda k: isidx(Z(obj(k))))
        else:
            y, valid = v.b.seq0.at, (lambda k: True)
        same_ = lambda k: And(valid(k), eq(x(k), y(k)))       # noqa: E731
        bad = lambda k: Not(valid(k))                         # noqa: E731
        obad = lambda k: False                                # noqa: E731
        order = lambda k: (lt(x(k), y(k)), le(x(k), y(k)), None, None, lt(y(k), x(k)), le(y(k), x(k)))[op]   # noqa: E731
    mn = If(le(cx.n, m), cx.n, m)
    p = cx.first(0, mn, lambda k: Or(bad(k), Not(same_(k))), 'mismatch')
    diff = lt(p, mn)
    big = False
    if op in (2, 3):
        # a wrong length settles it before any element is looked at; an element of another type differs
        res = And(isq, eq(cx.n, m), Not(diff))
        if op == 3:
            res = Not(res)
        errc = And(isq, eq(cx.n, m), diff, bad(p)) if cx.ci.isp else False
    else:
        bylen = (lt(cx.n, m), le(cx.n, m), None, None, lt(m, cx.n), le(m, cx.n))[op]
        res = And(isq, If(diff, order(p), bylen))
        errc = And(isq, diff, Or(bad(p), obad(p)))
        if who == 'other' and not cx.ci.isp:         # against an integer that no C integer holds: the order or an exception
            big = And(isq, diff, Or(lt(y(p), I64MIN), lt(I64MAX, y(p))))
    return 'self %s %s' % (o, who), [s, v, op], Post(ok=[Not(errc)], must=[Not(big)], ret=lambda cx, st, r: cx.is_bool(st, r, res, 'the truth value list comparison gives'),
                                                     errs=[(errc, ANY), (big, ANY)])


# ---- iterators -------------------------------------------------------------------------------------------------
def lay_of(cx):
    if cx.w.lay is None:
        raise Unsupported('iterator layout: ' + cx.w.nolay)
    return cx.w.lay


def mk_iterator(cx, rev, i, fresh):
    """an iterator over self in the state its history left it: next index i; fresh: no structural change since"""
    L, ex, st = lay_of(cx), cx.ex, cx.st
    b = ex.mkobj_block('iterobj', 'iterator', cls=None, typ=P(L['typ'].b, 0), tname=L['tname'])
    b.owner_off = L['own']
    own(ex, st, cx.self, 1)
    d = {0: z3.Int('rcnt!%d' % b.bid), 8: L['typ'], L['own']: cx.self, L['idx']: i}
    for k, v in L['cons'].items():
        d[k] = v[1 if rev else 0]
    if L['cm'] is not None:
        if fresh:
            d[L['cm']] = cx.self.b.mod0
            d[L['it']] = It((cx.self.b.bid, 16), cx.self.b.ver0, i, 0)
        else:
            m = symint(cx, 'cachedmod', 0, 2 ** 62)
            st.assume(lt(m, cx.self.b.mod0))
            d[L['cm']] = m
            d[L['it']] = It((cx.self.b.bid, 16), loops.Gen(), 0, 0)
    st.m[b.bid] = d
    return b


def run_next(cx, st, b):
    e = cx.w.ops[cx.w.cname + 'Iter'].get('iternext')
    if e is None:
        raise Unsupported('no tp_iternext')
    m, fn = cx.w.prog.lookup(e[0].mod, e[0].name)
    st = st.copy()
    st.setg('err', None)
    return cx.ex.run(st, m, fn, [P(b, 0)])


def iter_invariant(cx, st, b, i, msg):
    """the iterator's fields represent next index i"""
    L = lay_of(cx)
    d, c = st.m[b.bid], st.m[cx.self.b.bid]
    cx.ob(st, eq(d[L['idx']], i), msg)
    own_same = isinstance(d.get(L['own']), P) and d[L['own']].b is cx.self.b
    if not own_same:
        raise Unsupported('the iterator left its container')
    if L['cm'] is None:
        return
    cm = d[L['cm']]
    a, _ = cx.ex.fork(st, eq(cm, c[cx.w.modoff]))
    cx.ob(st, le(cm, c[cx.w.modoff]), 'the cached counter is one the container has had')
    if a is not None:
        it = d[L['it']]
        if not isinstance(it, It) or it.off != 0:
            raise Unsupported('cached position %r' % (it,))
        try:
            pos = stl.lpos(cx.ex, a, it)
        except DeadPath:
            return
        cx.ob(a, eq(pos, i), 'the cached node is the one at the next index')


def exhausted(cx, st, b, msg):
    """whatever happens to the container afterwards, the iterator yields nothing more"""
    L, ex = lay_of(cx), cx.ex
    st = st.copy()
    d = dict(st.m[cx.self.b.bid])
    n = symint(cx, 'later_n', 0, T.RANGE[cx.n.decl().name()][1])
    st.assume(And(n >= 0, n <= T.RANGE[cx.n.decl().name()][1]))
    d[(16, 'len')], d[(16, 'cont')] = n, Base('later!%d' % T.uid(), cx.ci.lo, cx.ci.hi)
    if cx.ci.kind == 'vec':
        d[(16, 'gen')] = loops.Gen()
    else:
        d[(16, 'ver')] = loops.Gen()
        if cx.w.modoff is not None:
            m = z3.Int('later_mod!%d' % T.uid())
            T.RANGE[m.decl().name()] = (0, 2 ** 62)
            st.assume(And(m >= 0, m <= 2 ** 62, lt(d[cx.w.modoff], m)))
            d[cx.w.modoff] = m
    st.m[cx.self.b.bid] = d
    before = {k: v for k, v in st.m[b.bid].items() if isinstance(k, int) and k >= 16}
    # nothing but reading the state decides the answer, so that finding it unchanged closes the induction
    for o in run_next(cx, st, b):
        if o.kind != RET:
            cx.ob(o.st, False, msg + ' (it raises a C++ exception)')
            continue
        v = o.val
        if v is not NULL:
            a, z = (o.st, None) if isinstance(v, P) else ex.fork(o.st, Not(eq(ex.to_id(v), 0)))
            if a is not None:
                cx.ob(a, False, msg)
            if z is None:
                continue
        e = o.st.g('err')
        cx.ob(o.st, e in (None, 'PyExc_StopIteration'), msg + ' (%s)' % e)
        after = o.st.m[b.bid]
        for k, x in before.items():
            y = after.get(k)
            if k in (L['it'], L['cm']):
                continue
            if isinstance(x, P) or isinstance(y, P) or x is NULL or y is NULL:
                if not (x is y or isinstance(x, P) and isinstance(y, P) and x.b is y.b):
                    raise Unsupported('the exhausted iterator still changes')
            elif not ex.proves(o.st, eq(x, y)):
                raise Unsupported('the exhausted iterator still changes')


ITM = [(r, f) for r in ('forward', 'reversed') for f in ('cached', 'edited')]


@spec('it_iternext', grp='iter', params=ITM)
def s_next(cx, par):
    rev, fresh = par[0] == 'reversed', par[1] == 'cached'
    s = cx.mk_self()
    L = lay_of(cx)
    if L['cm'] is None and not fresh:
        return None
    i = symint(cx, 'i', 0, 2 ** 62)
    if L['cm'] is not None and fresh:
        cx.st.assume(lt(i, cx.n) if rev else le(i, cx.n))
    b = mk_iterator(cx, rev, i, fresh)
    inr = lt(i, cx.n)

    def ret(cx, st, r):
        cx.is_elem(st, r, cx.a.at(i), 'yields the element at its index')
        if not rev:
            return iter_invariant(cx, st, b, add(i, 1), 'the next index is one further')
        more, last = cx.ex.fork(st, lt(0, i))
        if more is not None:
            iter_invariant(cx, more, b, sub(i, 1), 'the next index is one further down')
        if last is not None:
            exhausted(cx, last, b, 'after the first element nothing more is yielded')

    def onfail(cx, st, n1, c1):
        cx.seq_is(st, n1, c1, cx.n, cx.a, 'content unchanged')
        if st.g('apifail') is None:
            cx.ob(st, Not(inr), 'ends only when the index is past the elements')
            exhausted(cx, st, b, 'an exhausted iterator stays exhausted')
        else:
            d = st.m[b.bid]
            x = d[L['idx']]
            cx.ob(st, Or(eq(x, i), eq(x, sub(i, 1) if rev else add(i, 1))), 'the index stays put or moves one element')
    p = Post(ok=[inr], ret=ret, errs=[(Not(inr), 'PyExc_StopIteration')], econt=onfail)
    p.null_ok = True
    return 'next(iterator): %s%s' % (par[0], '' if L['cm'] is None else ', ' + par[1]), [P(b, 0)], p


@spec('iter', '__reversed__', grp='iter', params=('iter',))
def s_iter(cx, _):
    s = cx.mk_self()
    L = lay_of(cx)
    rev = cx.op == '__reversed__'

    def ret(cx, st, r):
        if not (isinstance(r, P) and r.b.kind == 'iterobj' and is_c(r.off) and r.off == 0):
            return cx.ob(st, False, 'a new iterator (got %r)' % (r,))
        d = st.m[r.b.bid]
        cx.ob(st, d.get(8) is not None and isinstance(d[8], P) and d[8].b is L['typ'].b, 'of the iterator type')
        for k, v in L['cons'].items():
            cx.ob(st, eq(d[k], v[1 if rev else 0]), 'with its direction')
        if not rev:
            return iter_invariant(cx, st, r.b, 0, 'starts at the first element')
        more, none = cx.ex.fork(st, lt(0, cx.n))
        if more is not None:
            iter_invariant(cx, more, r.b, sub(cx.n, 1), 'starts at the last element')
        if none is not None:
            exhausted(cx, none, r.b, 'a reversed iterator over an empty container yields nothing')
    return 'reversed(self)' if rev else 'iter(self)', [s, NULL] if rev else [s], Post(ret=ret)


@spec('it_iter', grp='iter', params=('forward', 'reversed'))
def s_iterself(cx, mode):
    cx.mk_self()
    i = symint(cx, 'i', 0, 2 ** 62)
    b = mk_iterator(cx, mode == 'reversed', i, False)
    return 'iter(iterator)', [P(b, 0)], Post(ret=lambda cx, st, r: cx.ob(st, isinstance(r, P) and r.b is b and is_c(r.off) and r.off == 0, 'returns itself'))


@spec('it_dealloc', grp='iter', ret='void')
def s_iterdel(cx):
    cx.mk_self()
    i = symint(cx, 'i', 0, 2 ** 62)
    b = mk_iterator(cx, False, i, False)
    own(cx.ex, cx.st, P(b, 0), 1)       # the dying reference
    return 'destruction of an iterator', [P(b, 0)], Post(ret=lambda cx, st, r: cx.ob(st, b.bid not in st.m, 'the storage is released', 'leak'))


# ---- construction and destruction --------------------------------------------------------------------------------
INITS = ('none', 'same', 'any', 'int', 'size', 'any, size', 'same, size')


@spec('init', ret='int', grp='build', params=INITS)
def s_init(cx, form):
    """tp_init on an object as tp_new leaves it"""
    if ('int' in form or 'size' in form) and cx.ci.kind == 'list':
        return None
    s = cx.self = cx.w.container(cx.ex, cx.st, uninit=True)
    cx.n, cx.a = 0, Fn(lambda k: 0, 'empty')
    vals, names, conds, must = [], [], [], []
    m, q = 0, Fn(lambda k: 0)
    for f in form.split(', ') if form != 'none' else ():
        if f in ('same', 'any'):
            names.append('iterable')
            if f == 'same':
                o = cx.w.container(cx.ex, cx.st, 'other')
                m, q = o.b.n0, o.b.seq0
                vals.append(o)
            else:
                x = cx.arg('iterable')
                cx.st.assume(Not(isint(x.t)))
                m, q, allok = cx.items(x)
                conds += [iterable(Z(x.t)), Not(ifail(Z(x.t)))] + ([allok] if allok is not None else [])
                vals.append(x)
        else:
            x = cx.arg('size')
            iv = ival(Z(x.t))
            if f == 'int':
                cx.st.assume(isint(x.t))
            names.append('iterable' if f == 'int' else 'exceptSize')
            conds.append(And(isidx(Z(x.t)), le(I64MIN, iv), le(iv, I64MAX)))
            must.append(le(mul(iv, cx.ci.es), LIM))
            vals.append(x)
    t = cx.tupargs(vals, names)

    def content(cx, st, r):
        d = st.m[s.b.bid]
        if (16, 'len') in d:
            cx.seq_is(st, d[(16, 'len')], d[(16, 'cont')], m, q, 'the content is the elements given')
    return '%s(%s)' % (cx.ci.name, '' if form == 'none' else form), [s, t, NULL], Post(
        ok=conds, must=must, seq=lambda *a: None, ret=content, errs=[(True, ANY)], econt=lambda *a: None)


@spec('dealloc', ret='void', grp='build')
def s_dealloc(cx):
    """the last reference is gone"""
    s = cx.mk_self()
    own(cx.ex, cx.st, s, 1)
    p = Post(ret=lambda cx, st, r: cx.ob(st, s.b.bid not in st.m, 'the storage is released', 'leak'))
    p.dealloc = True
    return 'destruction', [s], p


# ---- buffer protocol -----------------------------------------------------------------------------------------
PYBUF = dict(buf=0, obj=8, len=16, itemsize=24, readonly=32, ndim=36, format=40, shape=48, strides=56, suboffsets=64, internal=72)


@spec('bf_getbuffer', ret='int', grp='buffer')
def s_buffer(cx):
    s = cx.mk_self()
    flags = symint(cx, 'flags', -2 ** 31, 2 ** 31 - 1)
    v = Block('cells', 'view')
    cx.st.m[v.bid] = {}
    es = cx.ci.es

    def ret(cx, st, r):
        d = st.m[v.bid]
        g = lambda k: d.get(PYBUF[k])     # noqa: E731
        if any(g(k) is None for k in PYBUF if k not in ('internal', 'format')):
            return cx.ob(st, False, 'every field of the view is set')
        obj = g('obj')
        cx.ob(st, isinstance(obj, P) and obj.b is s.b, 'the view keeps the container alive')
        st.setg('rc', tok(st).add(s.b.oid, -1))                 # the reference the view owns
        cx.ob(st, eq(g('len'), mul(cx.n, es)), 'length in bytes')
        cx.ob(st, eq(g('itemsize'), es), 'item size')
        cx.ob(st, eq(g('ndim'), 1), 'one dimension')
        cx.ob(st, eq(g('readonly'), 0), 'writable')
        f = g('format')
        cx.ob(st, isinstance(f, P) and capi.cstr(cx.ex, f) in ({4: ('i', '@i', '=i')}.get(es, ('q', '@q', 'l'))), 'element format')
        sh = g('shape')
        cx.ob(st, isinstance(sh, P) and eq(cx.ex.load(st, core.Frame(cx.w.mod, None), I64, sh), cx.n), 'the shape is the number of elements')
        if isinstance(sh, P) and sh.b is not s.b:
            cx.ob(st, sh.b.kind != 'cells' or sh.b is v, 'the shape outlives the call', 'memory')
        for k in ('strides', 'suboffsets'):
            x = g(k)
            cx.ob(st, x is NULL or k == 'strides' and isinstance(x, P) and eq(cx.ex.load(st, core.Frame(cx.w.mod, None), I64, x), es), 'contiguous')
        b = g('buf')
        key = (s.b.bid, 16)
        if isinstance(b, P) and b.b.kind == 'vbuf':
            cx.ob(st, b.b.key == key and b.b.gen is stl.cget(cx.ex, st, key, 'gen') and is_c(b.off) and b.off == 0, 'the view starts at the first element')
        else:
            e = st.copy()
            e.assume(lt(0, cx.n))
            cx.ob(e, False, 'the view starts at the first element (got %r)' % (b,))
    return 'getbuffer', [s, P(v, 0), flags], Post(ret=ret)


# ---- text ----------------------------------------------------------------------------------------------------
@spec('repr', 'str', grp='text')
def s_repr(cx):
    """the repr of a list with the same elements"""
    s = cx.mk_self()

    def ret(cx, st, r):
        if not (isinstance(r, P) and r.b.kind == 'ustr' and (0, 'len') in st.m.get(r.b.bid, {})):
            if isinstance(r, (O, P)) and not isinstance(r, P):
                raise Unsupported('text %r' % (r,))
            return cx.ob(st, False, 'returns a string')
        d = st.m[r.b.bid]
        n, v, q, tail = (d[(0, k)] for k in ('len', 'cont', 'sep', 'tail'))
        cx.ob(st, eq(n, cx.n), 'one text per element')
        e, f = cx.ex.fork(st, eq(cx.n, 0))
        if e is not None:
            cx.ob(e, eq(tail, strs.lit('[]')), 'the text of an empty list')
        if f is not None:
            cx.ob(f, eq(tail, strs.lit(']')), 'the text ends with the closing bracket')
            k = z3.Int('k!%d' % T.uid())
            f.assume(eq(n, cx.n))
            f.assume(And(k >= 0, lt(k, cx.n)))
            x = v.at(k)
            if not cx.ci.isp and 'reprobj' in str(x):
                raise Unsupported('text through integer objects')
            cx.ob(f, eq(x, strs.reprobj(Z(cx.a.at(k))) if cx.ci.isp else cx.a.at(k)), 'every element in order')
            cx.ob(f, eq(q.at(k), If(eq(k, 0), strs.lit('['), strs.lit(', '))), 'the opening bracket and the separators')
    return 'text', [s], Post(ret=ret, errs=[(True, ANY)])
