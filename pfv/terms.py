"""Integer terms (python int | z3 Int), linear normal forms, ghost sequences, and the quantifier-free
prover with index-set instantiation of universally quantified facts."""
import itertools
import time
import z3

CTX = z3.main_ctx()
_keep = []
INT = z3.IntSort()
BOOL = z3.BoolSort()


def is_c(e):
    return isinstance(e, int)


def Z(e):
    return z3.IntVal(e) if isinstance(e, int) else e


def B(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


# ---- linear normal form ------------------------------------------------------------------
_lin = {}


def lin(e):
    """-> (dict atom_id -> (atom, coef), const)"""
    if isinstance(e, int):
        return {}, e
    i = e.get_id()
    r = _lin.get(i)
    if r is not None:
        return r[1]
    k = e.decl().kind()
    if z3.is_int_value(e):
        res = ({}, e.as_long())
    elif k == z3.Z3_OP_ADD:
        d, c = {}, 0
        for x in e.children():
            d2, c2 = lin(x)
            c += c2
            for a, (t, q) in d2.items():
                if a in d:
                    q2 = d[a][1] + q
                    if q2:
                        d[a] = (t, q2)
                    else:
                        del d[a]
                else:
                    d[a] = (t, q)
        res = (d, c)
    elif k == z3.Z3_OP_SUB:
        ch = e.children()
        r0 = lin(ch[0])
        d, c = dict(r0[0]), r0[1]
        for x in ch[1:]:
            d2, c2 = lin(x)
            c -= c2
            for a, (t, q) in d2.items():
                q2 = (d[a][1] if a in d else 0) - q
                if q2:
                    d[a] = (t, q2)
                elif a in d:
                    del d[a]
        res = (d, c)
    elif k == z3.Z3_OP_UMINUS:
        d2, c2 = lin(e.children()[0])
        res = ({a: (t, -q) for a, (t, q) in d2.items()}, -c2)
    elif k == z3.Z3_OP_MUL:
        cst = 1
        rest = []
        for x in e.children():
            dx, cx = lin(x)
            if not dx:
                cst *= cx
            else:
                rest.append((x, dx, cx))
        if not rest:
            res = ({}, cst)
        elif len(rest) == 1:
            _, dx, cx = rest[0]
            res = ({a: (t, q * cst) for a, (t, q) in dx.items()}, cx * cst) if cst else ({}, 0)
        else:
            # distribute products over sums: atoms are monomials, in canonical order
            mons = [((), 1)]
            for _, dx, cx in rest:
                new = []
                for m, q in mons:
                    for a, (t, q2) in dx.items():
                        new.append((m + (t,), q * q2))
                    if cx:
                        new.append((m, q * cx))
                mons = new
            d, c = {}, 0
            for m, q in mons:
                q *= cst
                if not m:
                    c += q
                    continue
                fl = []
                for t in m:
                    fl.extend(t.children() if t.decl().kind() == z3.Z3_OP_MUL else [t])
                fl.sort(key=lambda t: t.get_id())
                t = fl[0] if len(fl) == 1 else z3.Product(*fl)
                _keep.append(t)
                a = t.get_id()
                q2 = (d[a][1] if a in d else 0) + q
                if q2:
                    d[a] = (t, q2)
                elif a in d:
                    del d[a]
            res = (d, c)
    else:
        res = ({i: (e, 1)}, 0)
    _lin[i] = (e, res)
    return res


def unlin(d, c):
    if not d:
        return c
    ts = []
    for a in sorted(d):
        t, q = d[a]
        ts.append(t if q == 1 else q * t)
    if c:
        ts.append(z3.IntVal(c))
    r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    _lin[r.get_id()] = (r, (d, c))
    return r


def nrm(e):
    if isinstance(e, int):
        return e
    return unlin(*lin(e))


_deep = {}


def deepnrm(e):
    """normalise every integer sub-term, inside function arguments too"""
    if isinstance(e, (int, bool)):
        return e
    i = e.get_id()
    r = _deep.get(i)
    if r is not None:
        return r[1]
    if e.num_args() and z3.is_app(e):
        ch = [deepnrm(c) for c in e.children()]
        if any(not (isinstance(a, z3.ExprRef) and a.eq(c)) for a, c in zip(ch, e.children())):
            out = e.decl()(*[(B(a) if isinstance(c, z3.BoolRef) else Z(a)) for a, c in zip(ch, e.children())])
        else:
            out = e
    else:
        out = e
    if isinstance(out, z3.ArithRef):
        out = nrm(out)
    _deep[i] = (e, out)
    return out


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return nrm(Z(a) + Z(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return nrm(Z(a) - Z(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return nrm(Z(a) * Z(b))


def exdiv(e, n):
    """e / n when every coefficient is divisible by n, else None"""
    d, c = lin(e)
    if c % n:
        return None
    for t, q in d.values():
        if q % n:
            return None
    return unlin({a: (t, q // n) for a, (t, q) in d.items()}, c // n)


def same(a, b):
    """syntactic equality after linear normalisation"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
        return a.eq(b)
    d, c = lin(sub(a, b))
    return not d and c == 0


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d, c = lin(sub(a, b))
    if not d:
        return c == 0
    return Z(a) == Z(b)


def le(a, b):
    d, c = lin(sub(a, b))
    if not d:
        return c <= 0
    return Z(a) <= Z(b)


def lt(a, b):
    d, c = lin(sub(a, b))
    if not d:
        return c < 0
    return Z(a) < Z(b)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if x.decl().kind() == z3.Z3_OP_NOT:
        return x.children()[0]
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    return a == b


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, z3.BoolRef)):
        return z3.If(c, B(a), B(b))
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return a
    return z3.If(c, Z(a), Z(b))


def subst(e, pairs):
    """substitute; pairs [(from,to)], ints allowed as 'to'"""
    if isinstance(e, (int, bool)):
        return e
    r = z3.substitute(e, *[(a, Z(b) if not isinstance(a, z3.BoolRef) else B(b)) for a, b in pairs])
    if isinstance(r, z3.ArithRef):
        return nrm(r)
    return r


_vars = {}


def consts_of(e):
    """ids of uninterpreted constants / function applications' decl names inside e -> set of (name)"""
    if isinstance(e, (int, bool)):
        return frozenset()
    i = e.get_id()
    r = _vars.get(i)
    if r is not None:
        return r[1]
    s = set()
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        s.add(e.decl().name())
    for c in e.children():
        s |= consts_of(c)
    s = frozenset(s)
    _vars[i] = (e, s)
    return s


# ---- uninterpreted functions with value ranges ---------------------------------------------
RANGE = {}     # decl name -> (lo, hi)
AXIOM = {}     # decl name -> fn(app) -> list of facts about this application (instantiated on occurrence)
_cnt = itertools.count()


def uid():
    return next(_cnt)


def func(name, nargs, lo=None, hi=None, sort=INT, argsorts=None):
    f = z3.Function(name, *((argsorts or [INT] * nargs) + [sort]))
    if lo is not None or hi is not None:
        RANGE[name] = (lo, hi)
    return f


I64MIN, I64MAX = -2 ** 63, 2 ** 63 - 1

_intv = {}


def interval(e):
    """cheap bounds from declared ranges (lo|None, hi|None)"""
    if isinstance(e, int):
        return e, e
    i = e.get_id()
    r = _intv.get(i)
    if r:
        return r[1]
    k = e.decl().kind()
    lo = hi = None
    if z3.is_int_value(e):
        lo = hi = e.as_long()
    elif k == z3.Z3_OP_UNINTERPRETED:
        lo, hi = RANGE.get(e.decl().name(), (None, None))
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or (k == z3.Z3_OP_MUL):
        d, c = lin(e)
        if len(d) == 1 and list(d)[0] == i:
            ch = e.children()
            if len(ch) == 2:
                (a, b), (p, q) = interval(ch[0]), interval(ch[1])
                if None not in (a, b, p, q):
                    xs = [a * p, a * q, b * p, b * q]
                    lo, hi = min(xs), max(xs)
                elif a is not None and p is not None and a >= 0 and p >= 0:
                    lo = a * p
        else:
            lo = hi = c
            for t, q in d.values():
                a, b = interval(t)
                if q < 0:
                    a, b = b, a
                lo = None if lo is None or a is None else lo + q * a
                hi = None if hi is None or b is None else hi + q * b
    elif k == z3.Z3_OP_ITE:
        a, b = interval(e.children()[1]), interval(e.children()[2])
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    elif k in (z3.Z3_OP_MOD, z3.Z3_OP_REM) and z3.is_int_value(e.children()[1]):
        lo, hi = 0, abs(e.children()[1].as_long()) - 1
    elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and z3.is_int_value(e.children()[1]) and e.children()[1].as_long() > 0:
        a, b = interval(e.children()[0])
        n = e.children()[1].as_long()
        lo = None if a is None else a // n
        hi = None if b is None else b // n
    _intv[i] = (e, (lo, hi))
    return lo, hi


# ---- universally quantified facts ------------------------------------------------------------
class Forall:
    """for all lo <= j < hi: body(j).  `body` is a closure from an int term to a z3 Bool/bool."""
    _n = itertools.count()

    def __init__(self, lo, hi, body, note=''):
        self.lo, self.hi, self.body, self.note = lo, hi, body, note
        v = z3.Int('j!%d' % next(Forall._n))
        self.v = v
        b = body(v)
        self.sample = B(b)
        self.forms = index_forms(self.sample, v)
        self.cache = {}

    def inst(self, t):
        key = t if isinstance(t, int) else t.get_id()
        r = self.cache.get(key)
        if r is None:
            r = (t, z3.substitute(self.sample, (self.v, Z(t))))
            r = (t, Implies(And(le(self.lo, t), lt(t, self.hi)), r[1]))
            self.cache[key] = r
        return r[1]


_apps = {}


def apps(e):
    """all applications of uninterpreted functions (arity>=1) in e: dict id->app"""
    if isinstance(e, (int, bool)):
        return {}
    i = e.get_id()
    r = _apps.get(i)
    if r is not None:
        return r[1]
    out = {}
    for c in e.children():
        out.update(apps(c))
    if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out[i] = e
    _apps[i] = (e, out)
    return out


def index_forms(e, v):
    """[(decl name, argpos, a, b)]: applications f(.., a*v+b, ..) in e with a in {+-1, const}"""
    forms = []
    vi = v.get_id()
    for ap in apps(e).values():
        for pos in range(ap.num_args()):
            x = ap.arg(pos)
            d, c = lin(x)
            if vi in d:
                a = d[vi][1]
                rest = unlin({k: q for k, q in d.items() if k != vi}, c)
                if v.decl().name() not in consts_of(rest):
                    forms.append((ap.decl().name(), pos, a, rest))
    return forms


# ---- nonlinear arithmetic: products and quotients of two unknowns become uninterpreted functions, constrained by
# (valid) arithmetic lemmas instantiated over the terms that occur; everything z3 sees is linear
NLMUL = z3.Function('nl!mul', INT, INT, INT)
NLDIV = z3.Function('nl!div', INT, INT, INT)
NLMOD = z3.Function('nl!mod', INT, INT, INT)
_abs = {}


def nlprod(fs, nls):
    """product of abstracted factors: conditionals and sums are distributed, products of atoms become NLMUL"""
    for i, f in enumerate(fs):
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = f.children()
            return z3.If(c, nlprod(fs[:i] + [a] + fs[i + 1:], nls), nlprod(fs[:i] + [b] + fs[i + 1:], nls))
    polys = []
    for f in fs:
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ADD or z3.is_int_value(f) or z3.is_app(f) and f.decl().kind() in (
                z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            d, c = lin(f)
            p = [((t,), q) for t, q in d.values()]
            if c:
                p.append(((), c))
        else:
            p = [((f,), 1)]
        polys.append(p)
    acc = [((), 1)]
    for p in polys:
        acc = [(m + m2, q * q2) for m, q in acc for m2, q2 in p]
    out = []
    for m, q in acc:
        if not m:
            out.append(z3.IntVal(q))
            continue
        vs = []
        for t in m:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'nl!mul':
                vs += [t.arg(0), t.arg(1)]
            else:
                vs.append(t)
        vs.sort(key=lambda t: t.get_id())
        r = vs[0]
        for v in vs[1:]:
            x, y = (r, v) if r.get_id() <= v.get_id() else (v, r)
            r = NLMUL(x, y)
            nls.append(('mul', x, y, r))
        out.append(r if q == 1 else q * r)
    if not out:
        return z3.IntVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


def absnl(e):
    """(abstracted expression, tuple of nonlinear terms (kind, x, y, const))"""
    i = e.get_id()
    r = _abs.get(i)
    if r is not None:
        return r[1], r[2]
    if e.num_args() == 0 or not z3.is_app(e):
        _abs[i] = (e, e, ())
        return e, ()
    nls = []
    ch = []
    chg = False
    for c in e.children():
        a, n = absnl(c)
        chg = chg or not a.eq(c)
        ch.append(a)
        nls.extend(n)
    k = e.decl().kind()
    out = None
    if k == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(c) else 1 for c in ch) >= 2:
        out = nlprod(ch, nls)
    elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not z3.is_int_value(ch[1]):
        x, y = ch
        d, m = NLDIV(x, y), NLMOD(x, y)
        ya, sg = y, 1
        if z3.is_app(y) and y.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            dd, c = lin(y)
            if len(dd) == 1 and c == 0 and list(dd.values())[0][1] == -1:
                ya, sg = list(dd.values())[0][0], -1
        a, b = (ya, d) if ya.get_id() <= d.get_id() else (d, ya)
        pr = NLMUL(a, b)
        nls.append(('mul', a, b, pr))
        nls.append(('div', x, y, d, m, pr if sg == 1 else -pr, ya, sg))
        out = d if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) else m
    if out is None:
        out = e.decl()(*ch) if chg else e
    nls = tuple(dict(((n[0], n[3].get_id()), n) for n in nls).values())
    _abs[i] = (e, out, nls)
    return out, nls


_hard = {}


def hard(e):
    """contains products / quotients of unknowns or remainders"""
    if isinstance(e, (bool, int)):
        return False
    i = e.get_id()
    r = _hard.get(i)
    if r is not None:
        return r[1]
    h = False
    k = e.decl().kind() if z3.is_app(e) else None
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
        h = True
    elif k == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(c) else 1 for c in e.children()) >= 2:
        h = True
    else:
        h = any(hard(c) for c in e.children())
    _hard[i] = (e, h)
    return h


def nl_base(n):
    if n[0] == 'mul':
        _, x, y, p = n
        return [z3.Implies(z3.And(x >= 0, y >= 0), p >= 0), z3.Implies(z3.And(x >= 1, y >= 0), p >= y),
                z3.Implies(z3.And(x >= 0, y >= 1), p >= x), z3.Implies(x == 0, p == 0), z3.Implies(y == 0, p == 0),
                z3.Implies(x == 1, p == y), z3.Implies(y == 1, p == x), z3.Implies(x == -1, p == -y), z3.Implies(y == -1, p == -x),
                z3.Implies(x == 2, p == 2 * y), z3.Implies(y == 2, p == 2 * x), z3.Implies(z3.And(x >= 0, y <= 0), p <= 0),
                z3.Implies(z3.And(x <= 0, y >= 0), p <= 0)]
    _, x, y, d, m, pr = n[:6]
    return [z3.Implies(y > 0, z3.And(x == pr + m, m >= 0, m < y, z3.Implies(x >= 0, z3.And(d >= 0, d <= x)),
                                     z3.Implies(z3.And(x >= 0, y >= 2), 2 * d <= x),
                                     z3.Implies(z3.And(x >= 0, x < y), z3.And(d == 0, m == x))))]


def nl_pair(a, b):
    out = []
    if a[0] == 'mul' and b[0] == 'mul':
        for x, u in ((a[1], a[2]), (a[2], a[1])):
            for y, v in ((b[1], b[2]), (b[2], b[1])):
                if x.eq(y) and not u.eq(v):
                    p, q = a[3], b[3]
                    out.append(z3.Implies(x <= 0, z3.And(
                        z3.Implies(u <= v, p >= q), z3.Implies(v <= u, q >= p),
                        z3.Implies(u < v, p + x >= q), z3.Implies(v < u, q + x >= p),
                        z3.Implies(u == v + 1, p == q + x), z3.Implies(v == u + 1, q == p + x))))
                    out.append(z3.Implies(x >= 0, z3.And(
                        z3.Implies(u <= v, p <= q), z3.Implies(v <= u, q <= p),
                        z3.Implies(u < v, p + x <= q), z3.Implies(v < u, q + x <= p),
                        z3.Implies(u + 2 <= v, p + 2 * x <= q), z3.Implies(v + 2 <= u, q + 2 * x <= p),
                        z3.Implies(u == v + 1, p == q + x), z3.Implies(v == u + 1, q == p + x))))
    elif a[0] == 'div' and b[0] == 'div':
        if a[2].eq(b[2]):
            x1, x2, y = a[1], b[1], a[2]
            out.append(z3.Implies(z3.And(y > 0, x1 == x2 + y), z3.And(a[3] == b[3] + 1, a[4] == b[4])))
            out.append(z3.Implies(z3.And(y > 0, x2 == x1 + y), z3.And(b[3] == a[3] + 1, a[4] == b[4])))
    else:
        if a[0] == 'div':
            a, b = b, a
        # a product y*t, b = x div y: y*t <= x < y*t + y decides the quotient; x < y*t bounds it
        y = b[2]
        for u, v in ((a[1], a[2]), (a[2], a[1])):
            if u.eq(b[6]):
                x, d, m, p = b[1], b[3], b[4], a[3] if b[7] == 1 else -a[3]
                out.append(z3.Implies(z3.And(y > 0, p <= x, x < p + y), z3.And(d == v, m == x - p)))
                out.append(z3.Implies(z3.And(y > 0, x < p), d < v))
                out.append(z3.Implies(z3.And(y > 0, p <= x), v <= d))
    return out


class Prover:
    def __init__(self, timeout_ms=8000):
        self.nl = []
        self.s2 = z3.Solver()
        self.s2.set('timeout', 500)
        self.stack2 = []
        self.timeout = timeout_ms
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.nq = 0
        self.time = 0.0
        self.maxrounds = 4
        self.maxinst = 900

    def _sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]
            del self.nl[n:]
        for f in pc[n:]:
            self.s.push()
            self.nl.append([])
            if not isinstance(f, Forall):
                self._add(f)
                for x in ground_axioms(f):
                    self._add(x)
            st.append(f)

    def _easy(self, pc, extra):
        easy = [f for f in pc if not isinstance(f, Forall) and not hard(f)]
        st, s = self.stack2, self.s2
        n = 0
        m = min(len(st), len(easy))
        while n < m and st[n] is easy[n]:
            n += 1
        if n < len(st):
            s.pop(len(st) - n)
            del st[n:]
        for f in easy[n:]:
            s.push()
            s.add(f)
            for x in ground_axioms(f):
                s.add(x)
            st.append(f)
        s.push()
        try:
            for x in extra:
                x = B(x)
                s.add(x)
                for y in ground_axioms(x):
                    s.add(y)
            return s.check()
        finally:
            s.pop()

    def _add(self, f):
        if isinstance(f, bool):
            self.s.add(f)
            return
        g, nls = absnl(f)
        self.s.add(g)
        for n in nls:
            known = [m for l in self.nl for m in l]
            if any(m[0] == n[0] and m[3].eq(n[3]) for m in known):
                continue
            self.nl[-1].append(n)
            for x in nl_base(n):
                self.s.add(x)
            for m in known:
                for x in nl_pair(n, m):
                    self.s.add(x)

    def check(self, pc, extra=(), full=True, timeout=None, model=False):
        """sat / unsat / unknown of pc and extra (with instantiation of Forall facts when full)"""
        t0 = time.time()
        self.nq += 1
        for x in extra:
            if x is False:
                return z3.unsat
        if any(hard(f) for f in pc if not isinstance(f, Forall)) and not any(hard(x) for x in extra):
            # first without the hard facts
            if self._easy(pc, extra) == z3.unsat:
                self.time += time.time() - t0
                return z3.unsat
        self._sync(pc)
        s = self.s
        s.push()
        self.nl.append([])
        try:
            if timeout:
                s.set('timeout', timeout)
            gx = [B(x) for x in extra]
            for x in gx:
                self._add(x)
                for y in ground_axioms(x):
                    self._add(y)
            r = s.check()
            if r == z3.unsat or not full:
                return r
            fa = [f for f in pc if isinstance(f, Forall)]
            if not fa:
                if model and r == z3.sat:
                    self.model = s.model()
                return r
            seen = set()
            inst_seen = set()
            terms = {}   # (fname,pos) -> {id: term}
            generic = {}
            work = [f for f in pc if not isinstance(f, Forall)] + gx
            ninst = 0
            for rnd in range(self.maxrounds):
                for f in work:
                    for i, ap in apps(f).items():
                        if i in seen:
                            continue
                        seen.add(i)
                        for pos in range(ap.num_args()):
                            t = ap.arg(pos)
                            terms.setdefault((ap.decl().name(), pos), {})[t.get_id()] = t
                work = []
                for f in fa:
                    cand = {}
                    for (fn, pos, a, b) in f.forms:
                        for t in list(terms.get((fn, pos), {}).values()):
                            j = sub(t, b)
                            if a == 1:
                                pass
                            elif a == -1:
                                j = mul(-1, j)
                            else:
                                jj = exdiv(j, a)
                                if jj is None:
                                    jj = nrm(Z(j) / a) if a > 0 else None
                                if jj is None:
                                    continue
                                j = jj
                            cand[j if isinstance(j, int) else j.get_id()] = j
                    if rnd == 0:
                        for j in (f.lo, sub(f.hi, 1)):
                            cand[j if isinstance(j, int) else j.get_id()] = j
                    for k, j in cand.items():
                        if (id(f), k) in inst_seen:
                            continue
                        inst_seen.add((id(f), k))
                        g = f.inst(j)
                        if g is True:
                            continue
                        ninst += 1
                        if ninst > self.maxinst:
                            break
                        g = B(g)
                        self._add(g)
                        for y in ground_axioms(g):
                            self._add(y)
                        work.append(g)
                if not work:
                    break
                r = s.check()
                if r == z3.unsat:
                    return r
            if model and r == z3.sat:
                self.model = s.model()
            return r
        finally:
            s.pop()
            self.nl.pop()
            if timeout:
                s.set('timeout', self.timeout)
            self.time += time.time() - t0

    def refute_exact(self, pc, goal, timeout=4000):
        """a counterexample of the abstraction of products and quotients is checked with their exact meaning: z3.unsat when there
        is none (the goal holds)"""
        g = B(goal)
        if not hard(g) and not any(hard(f) for f in pc if not isinstance(f, (Forall, bool))):
            return z3.sat
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in [x for x in pc if not isinstance(x, (Forall, bool))] + [z3.Not(g)]:
            s.add(f)
            for y in ground_axioms(f):
                s.add(y)
        return s.check()

    def prove(self, pc, goal, timeout=None):
        if goal is True:
            return True
        return self.check(pc, [Not(goal)], True, timeout) == z3.unsat


_gax = {}


def ground_axioms(f):
    """range facts and per-application axioms for every application and constant occurring in f"""
    if isinstance(f, bool):
        return []
    i = f.get_id()
    r = _gax.get(i)
    if r is not None:
        return r[1]
    out = []
    seen = set()
    stack = [f]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            rg = RANGE.get(nm)
            if rg:
                if rg[0] is not None:
                    out.append(e >= rg[0])
                if rg[1] is not None:
                    out.append(e <= rg[1])
            ax = AXIOM.get(nm)
            if ax:
                for g in ax(e):
                    out.append(g)
                    stack.append(g)
        stack.extend(e.children())
    _gax[i] = (f, out)
    return out


# ---- ghost sequences -------------------------------------------------------------------------
class Seq:
    """A total function Int -> Int (contents beyond the length are unspecified)."""

    def at(self, k):
        raise NotImplementedError


class Base(Seq):
    def __init__(self, name, lo=None, hi=None, its=()):
        self.name = name
        self.its = tuple(its)
        self.f = func(name, 1 + len(self.its), lo, hi)

    def at(self, k):
        return self.f(*[Z(x) for x in self.its], Z(k))

    def __repr__(self):
        return self.name


class Fn(Seq):
    def __init__(self, fn, desc='fn'):
        self.fn, self.desc = fn, desc

    def at(self, k):
        return self.fn(k)

    def __repr__(self):
        return self.desc


class Store(Seq):
    def __init__(self, prev, i, v):
        self.prev, self.i, self.v = prev, i, v

    def at(self, k):
        c = eq(k, self.i)
        if c is True:
            return self.v
        return If(c, self.v, self.prev.at(k)) if c is not False else self.prev.at(k)

    def __repr__(self):
        return '%r[%s:=%s]' % (self.prev, self.i, self.v)


class Ins(Seq):
    """insert n elements fn(0..n) before position p"""

    def __init__(self, prev, p, n, fn):
        self.prev, self.p, self.n, self.fn = prev, p, n, fn

    def at(self, k):
        a = lt(k, self.p)
        if a is True:
            return self.prev.at(k)
        b = lt(k, add(self.p, self.n))
        rest = None
        if b is True:
            rest = self.fn(sub(k, self.p))
        elif b is False:
            rest = self.prev.at(sub(k, self.n))
        else:
            rest = If(b, self.fn(sub(k, self.p)), self.prev.at(sub(k, self.n)))
        return rest if a is False else If(a, self.prev.at(k), rest)

    def __repr__(self):
        return 'Ins(%r,%s,%s)' % (self.prev, self.p, self.n)


class Del(Seq):
    def __init__(self, prev, p, n):
        self.prev, self.p, self.n = prev, p, n

    def at(self, k):
        return If(lt(k, self.p), self.prev.at(k), self.prev.at(add(k, self.n)))

    def __repr__(self):
        return 'Del(%r,%s,%s)' % (self.prev, self.p, self.n)


class Pw(Seq):
    """positions [lo,hi) replaced by fn(k)"""

    def __init__(self, prev, lo, hi, fn):
        self.prev, self.lo, self.hi, self.fn = prev, lo, hi, fn

    def at(self, k):
        c = And(le(self.lo, k), lt(k, self.hi))
        if c is True:
            return self.fn(k)
        if c is False:
            return self.prev.at(k)
        return If(c, self.fn(k), self.prev.at(k))

    def __repr__(self):
        return 'Pw(%r,%s,%s)' % (self.prev, self.lo, self.hi)


class Rev(Seq):
    def __init__(self, prev, lo, hi):
        self.prev, self.lo, self.hi = prev, lo, hi

    def at(self, k):
        c = And(le(self.lo, k), lt(k, self.hi))
        return If(c, self.prev.at(sub(sub(add(self.lo, self.hi), 1), k)), self.prev.at(k))

    def __repr__(self):
        return 'Rev(%r,%s,%s)' % (self.prev, self.lo, self.hi)


class Sorted(Seq):
    """prev[0:n) rearranged into the order `order` ('<' or '>'); elements beyond n unchanged"""

    def __init__(self, prev, n, order, stable=False, key=None):
        self.prev, self.n, self.order, self.stable, self.key = prev, n, order, stable, key
        self.base = Base('sorted!%d' % uid())

    def at(self, k):
        return self.base.at(k)

    def __repr__(self):
        return 'Sorted(%r,%s)' % (self.prev, self.order)
