"""Deciding that a formal sum of owned references is zero.

Ranges with a piecewise body are split at the breakpoints; what remains are sums of one function over intervals of its
argument, and such a combination vanishes when the coefficients of the interval boundaries cancel position by position."""
import z3
from .terms import *
from . import terms as T
from . import capi
from .capi import Tok


class Stuck(Exception):
    pass


def ites(e):
    """conditions of the conditionals in e"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                out.append(x.arg(0))
            todo += x.children()
    return out


def atoms(f):
    if z3.is_and(f) or z3.is_or(f) or z3.is_not(f):
        return [a for c in f.children() for a in atoms(c)]
    return [f]


def breaks(g, v):
    """[(position, value)] ordered: the atom has `value` from that position on; first entry position None"""
    if g.num_args() != 2 or not isinstance(g.arg(0), z3.ArithRef):
        return None
    d, c = lin(sub(g.arg(1), g.arg(0)))
    vi = v.get_id()
    if vi not in d:
        return None
    a = d[vi][1]
    b = unlin({k: q for k, q in d.items() if k != vi}, c)
    if v.decl().name() in consts_of(b):
        return None
    k = g.decl().kind()
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):           # arg0 - arg1 >(=) 0
        a, b = -a, mul(-1, b)
    if abs(a) != 1:
        return None
    # a*v + b  >= 0  (LE/GE)   > 0 (LT/GT)   == 0
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
        return [(None, False), (mul(-1, b), True)] if a == 1 else [(None, True), (add(b, 1), False)]
    if k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
        return [(None, False), (sub(1, b), True)] if a == 1 else [(None, True), (b, False)]
    if z3.is_eq(g):
        p = mul(-a, b)
        return [(None, False), (p, True), (add(p, 1), False)]
    return None


def setatom(e, g, val):
    return T.deepnrm(z3.simplify(z3.substitute(e, (g, z3.BoolVal(val))), arith_lhs=False)) if isinstance(e, z3.ExprRef) else e


def zero(ex, st, tk, budget=None):
    okk, rest = capi.tok_zero(ex, st, tk)
    if okk:
        return okk, rest
    budget = budget or [60]
    ranges = [r for r in rest.r]
    singles = list(rest.s.values())
    try:
        if cases(ex, st, ranges, singles, budget):
            return True, Tok()
    except Stuck:
        pass
    return False, rest


def cases(ex, st, ranges, singles, budget):
    """the sum vanishes in every case of the breakpoint ordering"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Stuck()
    ranges = list(ranges)
    for i, (c, n, v, b) in enumerate(ranges):
        if not isinstance(b, z3.ExprRef):
            continue
        nm = v.decl().name()
        for cond in ites(b):
            for g in atoms(cond):
                if nm not in consts_of(g):
                    if ex.proves(st, g):
                        ranges[i] = (c, n, v, setatom(b, g, True))
                        return cases(ex, st, ranges, singles, budget)
                    if ex.proves(st, z3.Not(g)):
                        ranges[i] = (c, n, v, setatom(b, g, False))
                        return cases(ex, st, ranges, singles, budget)
                    return split(ex, st, g, ranges, singles, budget)
                bk = breaks(g, v)
                if bk is None:
                    s = st.copy()
                    s.assume(And(v >= 0, lt(v, n)))
                    for val in (True, False):
                        if ex.proves(s, g if val else z3.Not(g)):
                            ranges[i] = (c, n, v, setatom(b, g, val))
                            return cases(ex, st, ranges, singles, budget)
                    continue
                # order the breakpoints against [0, n]
                pieces, lo = [], 0
                for q, (p, val) in enumerate(bk):
                    hi = bk[q + 1][0] if q + 1 < len(bk) else n
                    if q + 1 < len(bk):
                        if ex.proves(st, le(hi, lo)):
                            hi = lo
                        elif ex.proves(st, le(n, hi)):
                            hi = n
                        else:
                            for f in (le(lo, hi), le(hi, n)):
                                if not ex.proves(st, f):
                                    return split(ex, st, f, ranges, singles, budget)
                    pieces.append((lo, hi, val))
                    lo = hi
                new = []
                for lo, hi, val in pieces:
                    w = sub(hi, lo)
                    if is_c(w) and w <= 0:
                        continue
                    body = setatom(b, g, val)
                    new.append((c, w, v, T.deepnrm(subst(body, [(v, add(v, lo))])) if not (is_c(lo) and lo == 0) else body))
                ranges[i:i + 1] = new
                return cases(ex, st, ranges, singles, budget)
    for i, (c, t) in enumerate(singles):
        if isinstance(t, z3.ExprRef):
            for cond in ites(t):
                for g in atoms(cond):
                    for val in (True, False):
                        if ex.proves(st, g if val else z3.Not(g)):
                            s2 = list(singles)
                            s2[i] = (c, setatom(t, g, val))
                            return cases(ex, st, ranges, s2, budget)
                    return split(ex, st, g, ranges, singles, budget)
    # a sum over all of [0, n) of h(perm(v)) is the sum of h(v)
    for i, (c, n, v, b) in enumerate(ranges):
        for p in st.g('perms') or ():
            for f in (p.f, p.g):
                hit = [x for x in T.apps(b).values() if x.decl().eq(f(z3.IntVal(0)).decl()) and x.arg(0).eq(v)] if isinstance(b, z3.ExprRef) else []
                if hit and ex.proves(st, eq(n, p.n)):
                    w = z3.Int('pk!%d' % T.uid())
                    b2 = z3.substitute(b, (hit[0], w))
                    if v.decl().name() not in consts_of(b2):
                        ranges[i] = (c, n, w, T.deepnrm(b2))
                        return cases(ex, st, ranges, singles, budget)
    # intervals
    groups = {}
    rest_r, rest_s = [], []
    for (c, n, v, b) in ranges:
        if ex.proves(st, le(n, 0)):
            continue
        if not ex.proves(st, le(0, n)):
            return split(ex, st, le(0, n), ranges, singles, budget)
        f = form(b, v)
        if f is None:
            if isinstance(b, z3.ExprRef) and v.decl().name() not in consts_of(b):
                groups.setdefault(('const', b.get_id()), [[], b])[0].append((n, c))
                continue
            rest_r.append((c, n, v, b))
            continue
        key, a, off = f
        if a == 1:
            lo, hi = off, add(off, n)
        else:
            lo, hi = add(sub(off, n), 1), add(off, 1)
        groups.setdefault(key, [[], b])[0].extend([(lo, c), (hi, -c)])
    for c, t in singles:
        hit = False
        if z3.is_app(t) and t.num_args() >= 1:
            for key in groups:
                q = match(KEYS[key], t) if isinstance(key, int) else None
                if q is not None:
                    groups[key][0].extend([(q, c), (add(q, 1), -c)])
                    hit = True
                    break
        if not hit:
            if ('const', t.get_id()) in groups:
                groups[('const', t.get_id())][0].append((1, c))
            else:
                rest_s.append((c, t))
    for key, (ev, b) in groups.items():
        if not isinstance(key, int):
            tot = 0
            for n, c in ev:
                tot = add(tot, mul(c, n))
            if not ex.proves(st, eq(tot, 0)):
                rest_r += [(c, n, z3.Int('rk!%d' % T.uid()), b) for n, c in ev]
            continue
        cl = []
        for p, c in ev:
            for e in cl:
                if same(e[0], p) or ex.proves(st, eq(e[0], p)):
                    e[1] += c
                    break
            else:
                cl.append([p, c])
        cl = [e for e in cl if e[1]]
        if cl:
            return False
    if not rest_r and not rest_s:
        return True
    return capi.tok_zero(ex, st, Tok({i: s for i, s in enumerate(rest_s)}, tuple(rest_r)))[0]


def split(ex, st, f, ranges, singles, budget):
    for g in (B(f), z3.Not(B(f))):
        s = st.copy()
        s.assume(g)
        if not ex.feasible(s, True, True):
            continue
        ok, rest = capi.tok_zero(ex, s, Tok({i: x for i, x in enumerate(singles)}, tuple(ranges)))
        if ok:
            continue
        if not cases(ex, s, list(rest.r), list(rest.s.values()), budget):
            return False
    return True


W0 = z3.Int('lw!')


def form(b, v):
    """(key, sign, offset) of a body h(+-v + offset); the key is h applied to a placeholder"""
    if not (z3.is_app(b) and b.num_args() >= 1 and b.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return None
    nm = v.decl().name()
    x = b
    while not isinstance(x, z3.ArithRef) or x is b or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args()):
        hit = [c for c in x.children() if nm in consts_of(c)]
        if not hit:
            return None
        x = hit[0]
        if x.eq(v):
            break
    d, c = lin(x)
    if v.get_id() not in d or abs(d[v.get_id()][1]) != 1:
        return None
    off = unlin({k: q for k, q in d.items() if k != v.get_id()}, c)
    if nm in consts_of(off):
        return None
    a = d[v.get_id()][1]
    h = T.deepnrm(subst(b, [(v, mul(a, sub(W0, off)))]))
    names = consts_of(h)
    if nm in names:
        return None
    KEYS[h.get_id()] = h
    return h.get_id(), a, off


KEYS = {}


def match(h, t):
    """x with h(x) == t, syntactically"""
    if h.eq(t):
        return None
    if W0.decl().name() not in consts_of(h):
        return None
    if h.eq(W0):
        return t
    d, c = lin(h) if isinstance(h, z3.ArithRef) else ({}, 0)
    if W0.get_id() in d and abs(d[W0.get_id()][1]) == 1:
        a = d[W0.get_id()][1]
        rest = unlin({k: q for k, q in d.items() if k != W0.get_id()}, c)
        return mul(a, sub(t, rest)) if W0.decl().name() not in consts_of(rest) else None
    if not (z3.is_app(t) and t.decl().eq(h.decl()) and t.num_args() == h.num_args()):
        return None
    r = None
    for x, y in zip(h.children(), t.children()):
        if x.eq(y):
            continue
        q = match(x, y)
        if q is None or r is not None and not same(q, r):
            return None
        r = q
    return r
