"""Contracts of every Python-visible operation, stated over a mathematical sequence, and the runner that discharges them."""
import time
import traceback
import z3
from .world import *
from .core import PathBudget, Opaque
from .ledger import zero as ledger_zero
from . import terms as T
from .stl import ADDR

ANY = 'ANY'


class Post:
    """ok: conditions under which (and only under which) the operation succeeds;
    must: further conditions (sizes within the address space) under which it may not fail;
    n, seq: content of self afterwards (None: unchanged); ret: fn(cx, st, val) -> nothing (records obligations);
    errs: [(cond, exception name or ANY)]; on error the content is unchanged ('same') or old content plus a prefix
    of the new items ('prefix')"""

    def __init__(self, ok=(), n=None, seq=None, ret=None, errs=None, econt='same', other=None, apifail_ok=False, setup=None, must=()):
        self.must = list(must)
        self.ok, self.n, self.seq, self.ret, self.errs, self.econt = list(ok), n, seq, ret, errs, econt
        self.other = other
        self.setup = setup


class Ctx:
    def __init__(self, w, ex, st):
        self.w, self.ex, self.st = w, ex, st
        self.ci = w.ci
        self.retkind = 'obj'
        self.fresh_init = False
        self.sizes = []

    # --- pieces
    def mk_self(self, name='self'):
        p = self.w.container(self.ex, self.st, name)
        if name == 'self':
            self.self = p
            self.n, self.a = p.b.n0, p.b.seq0
        return p

    def arg(self, name):
        """an arbitrary Python object that is not one of our containers"""
        t = z3.Int('arg_%s!%d' % (name, T.uid()))
        T.RANGE[t.decl().name()] = (2000, None)
        self.st.assume(t >= 2000)
        for tn, b in self.w.types.items():
            self.st.assume(typ(t) != b.oid)
        return O(t)

    def elem(self, x):
        """(is a valid element, its value) for an argument object"""
        t = self.ex.to_id(x)
        if self.ci.isp:
            return True, t
        v = ival(Z(t))
        self.st.assume(self.domain(v))
        return And(isidx(Z(t)), le(self.ci.lo, v), le(v, self.ci.hi)), v

    def domain(self, v):
        """the integers offered as elements: those of the documented range and those no C integer holds"""
        return Or(And(le(self.ci.lo, v), le(v, self.ci.hi)), lt(v, I64MIN), lt(I64MAX, v))

    def items(self, x):
        """(n, seq of element values, Forall validity) of an opaque iterable"""
        t = self.ex.to_id(x)
        n = ilen(Z(t))
        self.sizes.append(n)
        if self.ci.isp:
            return n, Fn(lambda k: item(Z(t), Z(k))), None
        lo, hi = self.ci.lo, self.ci.hi
        self.st.assume(Forall(0, n, lambda j: self.domain(ival(item(Z(t), Z(j))))))
        return n, Fn(lambda k: ival(item(Z(t), Z(k)))), Forall(0, n, lambda j: And(isidx(item(Z(t), Z(j))), le(lo, ival(item(Z(t), Z(j)))),
                                                                                     le(ival(item(Z(t), Z(j))), hi)))

    def fastargs(self, vals):
        b = Block('cells', 'args')
        self.st.m[b.bid] = {8 * i: v for i, v in enumerate(vals)}
        return [P(b, 0), len(vals)]

    def tupargs(self, vals, names=None):
        b = Block('argtuple', 'args', items=list(vals), kwnames=names)
        b.oid = z3.Int('argt!%d' % b.bid)
        self.st.m[b.bid] = {}
        return P(b, 0)

    def ob(self, st, cond, msg, kind='functional'):
        return self.ex.oblige(st, kind, cond, msg, assume=False)

    # --- value checks
    def is_elem(self, st, val, v, msg):
        """val (PyObject*) represents element v"""
        t = self.ex.to_id(val)
        if t is None:
            return self.ob(st, False, msg)
        if self.ci.isp:
            return self.ob(st, eq(t, v), msg)
        return self.ob(st, And(isint(t), eq(ival(Z(t)), v)), msg)

    def is_int(self, st, val, v, msg):
        t = self.ex.to_id(val)
        if t is None:
            return self.ob(st, False, msg)
        return self.ob(st, And(isint(t), eq(ival(Z(t)), v)), msg)

    def is_none(self, st, val, msg='returns None'):
        t = self.ex.to_id(val)
        return self.ob(st, t is not None and is_c(t) and t == gid('_Py_NoneStruct'), msg)

    def is_bool(self, st, val, c, msg):
        t = self.ex.to_id(val)
        if is_c(t) and t == gid('_Py_TrueStruct'):
            return self.ob(st, c, msg)
        if is_c(t) and t == gid('_Py_FalseStruct'):
            return self.ob(st, Not(c), msg)
        return self.ob(st, False, msg + ' (not a bool: %r)' % (val,))

    def seq_is(self, st, n1, s1, n2, s2, msg):
        self.ob(st, eq(n1, n2), msg + ': length')
        k = z3.Int('k!%d' % T.uid())
        s = st.copy()
        s.assume(And(k >= 0, lt(k, n2)))
        s.assume(eq(n1, n2))
        self.ob(s, eq(s1.at(k), s2.at(k)), msg + ': every element')

    def is_container(self, st, val, n, seq, msg, fresh=True):
        if not (isinstance(val, P) and val.b.kind == 'obj' and is_c(val.off) and getattr(val.b, 'cls', None) is self.ci):
            return self.ob(st, False, msg + ': a new container of the same class (got %r)' % (val,))
        if fresh:
            self.ob(st, val.b is not self.self.b, msg + ': a distinct object')
        d = st.m.get(val.b.bid)
        if d is None or (16, 'len') not in d:
            return self.ob(st, False, msg + ': initialised')
        self.seq_is(st, d[(16, 'len')], d[(16, 'cont')], n, seq, msg)

    def is_pylist(self, st, val, n, seq, msg):
        if not (isinstance(val, P) and val.b.kind == 'pylist'):
            return self.ob(st, False, msg + ': a list (got %r)' % (val,))
        d = st.m[val.b.bid]
        self.ob(st, eq(d['len'], n), msg + ': length')
        k = z3.Int('k!%d' % T.uid())
        s = st.copy()
        s.assume(And(k >= 0, lt(k, n)))
        s.assume(eq(d['len'], n))
        x = d['cont'].at(k)
        if self.ci.isp:
            self.ob(s, eq(x, seq.at(k)), msg + ': every element')
        else:
            self.ob(s, And(isint(x), eq(ival(Z(x)), seq.at(k))), msg + ': every element')

    # --- normalisation helpers
    def norm(self, i, n):
        return If(lt(i, 0), add(i, n), i)

    def clamp(self, i, n):
        j = If(lt(i, 0), add(i, n), i)
        return If(lt(j, 0), 0, If(lt(n, j), n, j))

    def first(self, lo, hi, pred, name='first'):
        """ghost: the least j in [lo, hi) with pred(j), or hi (lo when the range is empty)"""
        p = z3.Int('%s!%d' % (name, T.uid()))
        self.st.assume(le(lo, p))
        self.st.assume(Or(le(p, hi), eq(p, lo)))
        self.st.pc.append(Forall(lo, p, lambda j: Not(pred(j)), 'first'))
        self.st.assume(Implies(lt(p, hi), pred(p)))
        return p


def objeq(x, y):
    return Or(eq(x, y), rcb(Z(x), Z(y), z3.IntVal(2)))


# ---- specifications ------------------------------------------------------------------------------------
SPEC = {}


def spec(*names, ret='obj', params=(None,), only=None, grp=''):
    """only: predicate over ClassInfo"""
    def d(f):
        for n in names:
            for p in params:
                SPEC.setdefault(n, []).append((f, p, ret, only, grp))
        return f
    return d


# ---- runner ----------------------------------------------------------------------------------------------
class Result:
    def __init__(self, cname, op, label):
        self.cname, self.op, self.label = cname, op, label
        self.obl = []
        self.status = 'ok'
        self.why = ''
        self.fns = {}
        self.contracts = {}
        self.time = 0
        self.queries = 0
        self.loops = 0
        self.outcomes = 0
        self.success = 0


def release(ex, st, b):
    """a container object's last reference is dropped: its destructor releases the elements (contract of tp_dealloc,
    verified separately)"""
    d = st.m.get(b.bid)
    if d is None:
        return
    if (16, 'len') not in d:
        ex.oblige(st, 'memory', False, 'destructor runs on a container that was never constructed')
        raise DeadPath()
    if b.cls.isp:
        n, c = d[(16, 'len')], d[(16, 'cont')]
        st.setg('rc', tok(st).addrange(-1, n, lambda k: c.at(k)))


HOOKS['release'] = release


def construct(ex, st, fr, tp, args):
    """type(...) call: allocation plus tp_init (verified separately)"""
    w = ex.world
    ci = None
    for nm, b in w.types.items():
        if b is tp.b:
            ci = CLASSES.get(nm)
    if ci is None:
        raise Unsupported('construction of %r' % (tp,))
    f = fail(st, NULL, 'PyExc_MemoryError', 'object allocation')
    if args is not NULL:
        raise Unsupported('construction with arguments')
    b = new_block(ex, st, 'obj', ci.name, cls=ci, typ=P(w.types[ci.name], 0))
    b.default = obj_default
    mk_empty(ex, st, b, ci)
    return [ok(st, P(b, 0)), f]


def mk_empty(ex, st, b, ci):
    d = {0: 1, 8: P(ex.world.types[ci.name], 0), (16, 'len'): 0, (16, 'cont'): Fn(lambda k: 0, 'empty'),
         (16, 'et'): (ci.es, ci.isp, ci.align)}
    d[(16, 'gen' if ci.kind == 'vec' else 'ver')] = Gen()
    st.m[b.bid] = d


HOOKS['construct'] = construct


def rawnew(ex, st, fr, tp):
    """PyObject_New: allocated, fields uninitialised"""
    w = ex.world
    nm = [n for n, b in w.types.items() if isinstance(tp, P) and b is tp.b]
    if not nm:
        raise Unsupported('_PyObject_New(%r)' % (tp,))
    f = fail(st, NULL, 'PyExc_MemoryError', 'object allocation')
    b = new_block(ex, st, 'obj' if nm[0] in CLASSES else 'iterobj', nm[0], cls=CLASSES.get(nm[0]), typ=P(tp.b, 0), tname=nm[0])
    st.m[b.bid] = {0: 1, 8: P(tp.b, 0)}
    b.owner_off = getattr(w, 'owner_off', None)
    return [ok(st, P(b, 0)), f]


HOOKS['rawnew'] = rawnew


def check_outcome(cx, post, o, ret):
    ex, st, val = cx.ex, o.st, o.val
    ex.cur_fn[:] = [cx.entry]
    if o.kind == UNW:
        ex.oblige(st, 'exception', False, 'a C++ exception (%s) leaves the entry point' % st.g('exc'), assume=False)
        return
    if o.kind != RET:
        return
    if ret == 'void':
        failed = False
    elif ret == 'obj':
        if val is NULL:
            failed = True
        elif isinstance(val, (P, O, FnP)):
            failed = False
            if isinstance(val, O):
                lo, _ = interval(val.t)
                if lo is None or lo < 1:
                    a, b = ex.fork(st, lt(0, val.t))
                    if a is not None and b is not None:
                        check_outcome(cx, post, Outcome(b, RET, NULL), ret)
                        st = a
                    failed = a is None
        else:
            raise Unsupported('return value %r' % (val,))
    else:
        v = ex.asint(val)
        a, b = ex.fork(st, eq(v, -1) if ret != 'iter' else eq(v, 0))
        if a is not None and b is not None:
            check_outcome(cx, post, Outcome(b, RET, val), ret)
            st = a
            failed = True
        else:
            failed = a is not None
            st = a if failed else b
        if ret == 'int' and not failed:
            cx.ob(st, eq(v, 0), 'returns 0 on success', 'errproto')
        if ret == 'bool' and not failed:
            cx.ob(st, Or(eq(v, 0), eq(v, 1)), 'returns 0 or 1', 'errproto')
    err = st.g('err')
    if not ex.feasible(st, True, True):
        return
    cx.res.outcomes += 1
    ex.oblige(st, 'gil', st.g('gil') is not False, 'the GIL is held on return', assume=False)
    ex.oblige(st, 'leak', not st.g('heap'), 'no heap block is leaked', assume=False)
    if failed and post.ret is not None and ret == 'obj' and getattr(post, 'null_ok', False) and err is None:
        pass
    else:
        cx.ob(st, (err is not None) == failed, 'an exception is set exactly when the error value is returned (%s, %s)' % (
            err, 'error' if failed else 'success'), 'errproto')
    d = st.m.get(cx.self.b.bid) if getattr(cx, 'self', None) is not None else None
    env = st.g('apifail')
    if getattr(cx, 'self', None) is not None and d is None:
        cx.ob(st, getattr(post, 'dealloc', False), 'self is still alive', 'memory')
    elif getattr(cx, 'self', None) is not None and not getattr(post, 'free_content', False):
        if (16, 'len') not in d:
            cx.ob(st, getattr(post, 'dealloc', False), 'self still holds a constructed container', 'memory')
        else:
            n1, c1 = d[(16, 'len')], d[(16, 'cont')]
            if failed:
                if post.econt == 'same':
                    cx.seq_is(st, n1, c1, cx.n, cx.a, 'content unchanged on error (%s)' % (env or err))
                elif post.econt == 'prefix':
                    cx.ob(st, And(le(cx.n, n1)), 'on error existing elements are kept')
                    k = z3.Int('k!%d' % T.uid())
                    s = st.copy()
                    s.assume(And(k >= 0, lt(k, cx.n)))
                    cx.ob(s, eq(c1.at(k), cx.a.at(k)), 'on error existing elements are unchanged')
                elif callable(post.econt):
                    post.econt(cx, st, n1, c1)
            elif post.n is not None:
                cx.seq_is(st, n1, c1, post.n, post.seq, 'content afterwards')
            elif not callable(post.seq):
                cx.seq_is(st, n1, c1, cx.n, cx.a, 'content unchanged')
            else:
                post.seq(cx, st, val)
    # every other container is unchanged
    modcount(cx, st, d)
    for b in ex.roots:
        if getattr(cx, 'self', None) is not None and b is cx.self.b:
            continue
        d2 = st.m.get(b.bid)
        if d2 is None:
            cx.ob(st, False, 'argument object is still alive', 'memory')
        else:
            cx.seq_is(st, d2[(16, 'len')], d2[(16, 'cont')], b.n0, b.seq0, 'other operand unchanged')
    if failed:
        if env is None:
            s2 = st.copy()
            for c in post.ok + post.must:
                s2.assume(c)
            fits = And(*[le(mul(m, cx.ci.es), ADDR >> 2) for m in cx.sizes + ([post.n] if post.n is not None else []) + [add(cx.n, h) for h in st.g('hints') or ()]])
            s2.assume(fits)                                 # what fits into the address space
            ex.oblige(s2, 'functional', False, 'fails (%s) although the operation is defined' % err, assume=False)
            if post.errs is not None and err is not None and err != 'any':
                cx.ob(st, Or(Not(fits), *[c for c, e in post.errs if e == ANY or e == err or isinstance(e, tuple) and err in e]),
                      'raises %s only where that is the specified exception' % err)
    else:
        cx.res.success += 1
        for c in post.ok:
            if isinstance(c, Forall):
                k = z3.Int('k!%d' % T.uid())
                s = st.copy()
                cx.ob(s, c.inst(k), 'succeeds only where the operation is defined')
            else:
                cx.ob(st, c, 'succeeds only where the operation is defined')
        if post.ret is not None:
            post.ret(cx, st, val)
    ledger(cx, post, st, val, failed, ret)


def modcount(cx, st, d):
    """the counter iterators rely on moves with every structural change of a linked list"""
    w = cx.w
    if cx.ci.kind != 'list' or d is None or (16, 'len') not in d or getattr(cx, 'self', None) is None:
        return
    if getattr(cx.self.b, 'uninit', False):
        if w.modoff is not None:
            cx.ob(st, d.get(w.modoff) is not None, 'the modification counter is initialised', 'modcount')
        return
    same_ver = d[(16, 'ver')] is cx.self.b.ver0
    if w.modoff is None:
        if not same_ver:
            cx.ex.obl.append(core.Oblig('modcount', cx.entry, 'the modification counter of the class was recognised', 'unknown'))
        return
    m0, m1 = cx.self.b.mod0, d[w.modoff]
    if same_ver:
        if m1 is not m0:
            cx.ob(st, le(m0, m1), 'the modification counter never goes back', 'modcount')
        return
    moved = lt(m0, m1)
    if cx.ex.proves(st, moved):
        return cx.ob(st, moved, 'a structural change moves the modification counter', 'modcount')
    n1, c1 = d[(16, 'len')], d[(16, 'cont')]
    s = st.copy()
    s.assume(Not(moved))
    if not cx.ex.feasible(s, True, True):
        return
    cx.ob(s, And(eq(n1, cx.n), le(m0, m1)), 'a structural change moves the modification counter', 'modcount')
    k = z3.Int('k!%d' % T.uid())
    s.assume(And(k >= 0, lt(k, cx.n)))
    cx.ob(s, eq(c1.at(k), cx.a.at(k)), 'a structural change moves the modification counter', 'modcount')


def ledger(cx, post, st, val, failed, ret):
    ex = cx.ex
    tk = tok(st)
    if ret == 'obj' and not failed:
        t = ex.to_id(val)
        if t is None:
            raise Unsupported('ledger of %r' % (val,))
        tk = tk.add(t, -1)
    for bid, d in st.m.items():
        if not isinstance(bid, int):
            continue
        b = ex.blocks.get(bid)
        if b is None:
            continue
        tk = slots_of(tk, d, b, -1)
    for b in ex.roots:
        if b.cls.isp and not getattr(b, 'uninit', False):
            tk = tk.addrange(1, b.n0, lambda k: b.seq0.at(k))
    ok_, rest = ledger_zero(ex, st, tk)
    ex.oblige(st, 'refcount', True if ok_ else False, 'every owned reference is released or transferred exactly once: residue %r' % (rest if not ok_ else '',), assume=False, weak=not ok_ and core.weak_tok(rest))


def slots_of(tk, d, b, sg):
    if b.kind == 'obj' and b.cls is not None and b.cls.isp and (16, 'len') in d:
        n, c = d[(16, 'len')], d[(16, 'cont')]
        return tk.addrange(sg, n, lambda k: c.at(k))
    if b.kind in ('pylist', 'pytuple'):
        n, c = d['len'], d['cont']
        return tk.addrange(sg, n, lambda k: c.at(k))
    if b.kind == 'iterobj' and b.__dict__.get('owner_off') is not None and d.get(b.owner_off) is not None and d[b.owner_off] is not NULL:
        t = d[b.owner_off]
        return tk.add(t.b.oid if isinstance(t, P) else t.t, sg)
    return tk


def run_scenario(w, cname, op, entry, f, param, ret, budget=120):
    ex = Exec(w.prog, w.con)
    ex.world = w
    ex.roots = []
    ex.blocks = {}
    old = Block.__init__

    def reg(self, kind, name='', **kw):
        old(self, kind, name, **kw)
        ex.blocks[self.bid] = self
    Block.__init__ = reg
    res = None
    t0 = time.time()
    try:
        st = w.state()
        cx = Ctx(w, ex, st)
        cx.op = op
        cx.entry = core.demangle(entry[0].name).split('(')[0]
        r = f(cx, param) if f.__code__.co_argcount > 1 else f(cx)
        if r is None:
            return None
        label, args, post = r
        res = Result(cname, op, label)
        cx.res = res
        cx.post = post
        ex.deadline = time.time() + budget
        m, fn = w.prog.lookup(entry[0].mod, entry[0].name)
        if fn is None:
            raise Unsupported('entry %s has no body' % entry[0].name)
        # vacuity: the precondition must be satisfiable
        if ex.pv.check(st.pc, [], True) == z3.unsat:
            ex.obl.append(core.Oblig('vacuity', cx.entry, 'precondition is satisfiable', 'failed'))
        outs = ex.run(st.copy(), m, fn, args)
        for o in outs:
            try:
                check_outcome(cx, post, o, ret)
            except DeadPath:
                pass
        if res.success == 0 and not getattr(post, 'no_success', False):
            ex.obl.append(core.Oblig('vacuity', cx.entry, 'some execution succeeds', 'failed'))
    except Unsupported as e:
        res = res or Result(cname, op, str(param))
        res.status, res.why = 'unsupported', str(e) + ' [' + ' > '.join(ex.cur_fn[-4:]) + ']'
    except PathBudget as e:
        res = res or Result(cname, op, str(param))
        res.status, res.why = 'budget', str(e)
    except z3.Z3Exception as e:
        res = res or Result(cname, op, str(param))
        res.status, res.why = 'unsupported', 'z3: %s' % e
        if DEBUG:
            traceback.print_exc()
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError, AssertionError) as e:
        res = res or Result(cname, op, str(param))
        res.status, res.why = 'unsupported', 'engine: %s: %s' % (type(e).__name__, e)
        if DEBUG:
            traceback.print_exc()
    finally:
        Block.__init__ = old
    res.obl = ex.obl
    res.fns, res.contracts = ex.fn_used, ex.contract_used
    res.time = time.time() - t0
    res.queries, res.loops = ex.pv.nq, ex.loops_done
    res.solver = ex.pv.time
    return res


DEBUG = False
