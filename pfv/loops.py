"""Loop cutting with inferred inductive invariants.

For a loop reached in state S0 a ghost iteration counter `it` is introduced and
  1. the memory cells an iteration can change are found by executing an arbitrary iteration until no further
     cell changes (the frame),
  2. every changed cell gets a closed form in `it` (x0 + c*it, "value written by the last iteration", a piecewise
     sequence for stores / pushes / inserts / erases at moving positions) or, when there is none, an uninterpreted
     history function X(it) constrained by the exact transition relation,
  3. an iteration is executed from the closed forms with the history facts `for all j < it: the j-th iteration
     took one of the continuing paths`, and the closed form at it+1 is PROVED for every continuing path;
     cells for which that fails are downgraded and the step repeated.
Only what was proved inductive is used after the loop."""
import os
import z3
from .terms import *
from . import terms as T
from . import core
from .core import (Unsupported, DeadPath, P, O, It, NULL, UNDEF, Opaque, V, Agg, Outcome, BACK, GOTO, Fp)

NUM = (int, z3.ArithRef)
BOOLS = (bool, z3.BoolRef)


class Gen:
    """buffer generation token of a vector / version token of a list"""
    __slots__ = ('n',)
    import itertools
    _c = itertools.count(1)

    def __init__(self):
        self.n = next(Gen._c)

    def __repr__(self):
        return 'g%d' % self.n


def vsame(ex, a, b):
    if a is b:
        return True
    if isinstance(a, BOOLS) and isinstance(b, BOOLS):
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        return a.eq(b)
    if isinstance(a, NUM) and isinstance(b, NUM):
        return same(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, P):
        return a.b is b.b and same(a.off, b.off)
    if isinstance(a, O):
        return same(a.t, b.t) and same(a.off, b.off)
    if isinstance(a, It):
        return a.key == b.key and a.ver == b.ver and same(a.pos, b.pos) and same(a.off, b.off)
    if isinstance(a, V):
        return len(a.l) == len(b.l) and all(vsame(ex, x, y) for x, y in zip(a.l, b.l))
    if isinstance(a, Agg):
        return a.l is not None and b.l is not None and len(a.l) == len(b.l) and all(vsame(ex, x, y) for x, y in zip(a.l, b.l))
    if isinstance(a, (str, tuple, frozenset)) or a is None:
        return a == b
    if isinstance(a, core.FnP):
        return a.name == b.name
    if isinstance(a, Fp):
        return same(a.t, b.t)
    return False


def changed(ex, s, b, skip=()):
    """keys whose value differs between s and b for blocks existing in s"""
    out = []
    for bid, d in s.m.items():
        if bid == 'L':
            continue
        e = b.m.get(bid)
        if e is None:
            continue
        if e is d:
            continue
        for k in set(d) | set(e):
            va, vb = d.get(k), e.get(k)
            if k in d and k in e:
                if not vsame(ex, va, vb):
                    out.append((bid, k))
            else:
                out.append((bid, k))
    return out


MISSING = object()


def getv(st, key):
    d = st.m.get(key[0])
    if d is None:
        return MISSING
    return d.get(key[1], MISSING)


def setv(st, key, v):
    if v is MISSING:
        d = dict(st.m[key[0]])
        d.pop(key[1], None)
        st.m[key[0]] = d
    else:
        st.set(key[0], key[1], v)


class HV:
    """havoc placeholder bookkeeping of round A"""


def scaled(a, b):
    """an arbitrary offset with the alignment of the offsets a and b"""
    d = sub(b, a)
    for sc in (8, 4, 2):
        if exdiv(a, sc) is not None and exdiv(d, sc) is not None:
            return mul(sc, z3.Int('hv!%d' % T.uid()))
    return z3.Int('hv!%d' % T.uid())


def unscale(off):
    """(placeholder, scale) of an offset made by `scaled`"""
    d, c = lin(off)
    if c == 0 and len(d) == 1:
        t, q = list(d.values())[0]
        if z3.is_const(t) and t.decl().name().startswith('hv!') and q > 0:
            return t, q
    return None, 0


def havoc(ex, s, key, v0, vb, it):
    """an arbitrary value of the same shape; vb: a sample of the changed value"""
    n = 'hv'
    k = key[1]
    if isinstance(v0, BOOLS) or (v0 is MISSING or v0 is UNDEF) and isinstance(vb, BOOLS):
        if isinstance(vb, BOOLS) or vb is UNDEF:
            return z3.Bool('%s!%d' % (n, T.uid()))
    if isinstance(v0, NUM) and (isinstance(vb, NUM + BOOLS) or vb is UNDEF):
        # machine integers are kept in the canonical signed 64-bit range
        c = z3.Int('%s!%d' % (n, T.uid()))
        T.RANGE[c.decl().name()] = (T.I64MIN, T.I64MAX)
        return c
    if isinstance(v0, (Seq,)):
        b = Base('hvseq!%d' % T.uid())
        b.havoc = True
        return b
    if isinstance(v0, Gen):
        return Gen()
    if isinstance(v0, P) and isinstance(vb, P):
        if v0.b is vb.b:
            return P(v0.b, scaled(v0.off, vb.off))
        if v0.b.kind == 'vbuf' and vb.b.kind == 'vbuf' and v0.b.key == vb.b.key:
            # iterator re-obtained after reallocation: offset into the current generation
            return ('VB', v0.b.key, scaled(v0.off, vb.off))
    if isinstance(v0, It) and isinstance(vb, It) and v0.key == vb.key:
        return ('LI', v0.key, z3.Int('%s!%d' % (n, T.uid())), v0.off)
    if isinstance(v0, O) and isinstance(vb, O) and same(v0.t, vb.t) and not same(v0.off, vb.off):
        return O(v0.t, scaled(v0.off, vb.off))
    return Opaque('loop-carried')


def fixup(ex, s, H):
    """resolve placeholders that depend on the havocked generation / version"""
    for key, v in list(H.items()):
        if isinstance(v, tuple) and v and v[0] == 'VB':
            bid, off = v[1]
            gen = s.get(bid, (off, 'gen'))
            nb = core.STL['vbuf'](ex, s, v[1], gen)
            setv(s, key, P(nb, v[2]))
        elif isinstance(v, tuple) and v and v[0] == 'LI':
            bid, off = v[1]
            ver = s.get(bid, (off, 'ver'))
            setv(s, key, It(v[1], ver, v[2], v[3]))
        else:
            setv(s, key, v)


def norm_back(ex, b):
    """bring list iterators in locals up to the current version so that positions can be compared"""
    for bid, d in list(b.m.items()):
        if not isinstance(bid, int):
            continue
        for k, v in d.items():
            if isinstance(v, It):
                ver = b.get(v.key[0], (v.key[1], 'ver'))
                if ver is not v.ver:
                    try:
                        p = core.STL['pos'](ex, b, v, quiet=True)
                        b.set(bid, k, It(v.key, ver, p, v.off))
                    except (DeadPath, Unsupported):
                        b.set(bid, k, Opaque('stale iterator'))


class Snapshot:
    pass


def run_body(ex, fr, s, hdr, prev, body, quiet=True):
    if quiet:
        ex.quiet += 1
        no, ob = len(ex.obl), None
    g0 = s.m['G']
    try:
        s.regs = dict(s.regs)
        outs = ex.region(fr, s, hdr, prev, (hdr, body))
        # an iteration that ends with an exception pending: the next one has to leave the loop before it needs the API
        late = [o for o in outs if o.kind == BACK and g0.get('err') is None and o.st.m['G'].get('err') is not None]
        if late and fr.f.blocks[hdr][0].op != 'phi':
            outs = [o for o in outs if o not in late]
            for o in late:
                o.st.regs = dict(o.st.regs)
                outs += ex.region(fr, o.st, hdr, prev, (hdr, body))
    finally:
        if quiet:
            ex.quiet -= 1
    backs = []
    for o in outs:
        if o.kind == BACK and norm_g(ex, g0, o):
            backs.append(o)
    rest = [o for o in outs if o.kind != BACK]
    return backs, rest


SOFT = ('apifail', 'exc', 'caught', 'sorts', 'counts', 'ksort', 'slices')


def norm_g(ex, g0, o):
    """ghost state on a back edge: a pending exception is a protocol violation (the iteration would call the API with
    it), bookkeeping facts of a finished iteration are forgotten, the reference ledger becomes a per-iteration delta"""
    st = o.st
    g = st.m['G']
    if g.get('err') != g0.get('err'):
        if g0.get('err') is None:
            if ex.feasible(st, True, True):
                ex.oblige(st, 'errproto', False, 'loop continues with an exception pending')
            return False
    d = dict(g)
    for k in SOFT:
        if k in g0:
            d[k] = g0[k]
        else:
            d.pop(k, None)
    from .capi import Tok
    a, b = g.get('rc') or Tok(), g0.get('rc') or Tok()
    o.rc = a.plus(b, -1) if a is not b else Tok()
    d['rc'] = g0.get('rc')
    st.m['G'] = d
    return True


def elim(ex, st, t, keep):
    """rewrite iteration counts of finished inner loops (it!n) by what the path condition says they equal"""
    if not isinstance(t, z3.ExprRef):
        return t
    for _ in range(4):
        inner = [c for c in consts_of(t) if c.startswith('it!') and c not in keep]
        if not inner:
            return t
        done = False
        for name in inner:
            c = z3.Int(name)
            cid = c.get_id()
            for f in reversed(st.pc):
                if not isinstance(f, z3.BoolRef):
                    continue
                while z3.is_not(f):
                    f = f.arg(0)
                if not (z3.is_le(f) or z3.is_lt(f) or z3.is_ge(f) or z3.is_gt(f) or (z3.is_eq(f) and isinstance(f.arg(0), z3.ArithRef))):
                    continue
                d, k = lin(sub(f.arg(0), f.arg(1)))
                if cid not in d:
                    continue
                q = d[cid][1]
                rest = exdiv(unlin({a: x for a, x in d.items() if a != cid}, k), abs(q))
                if rest is None:
                    continue
                e = mul(-1 if q > 0 else 1, rest)
                if not is_c(e) and any(x.startswith('it!') and x not in keep for x in consts_of(e)):
                    continue
                for e2 in (e, add(e, 1), sub(e, 1)):
                    if ex.proves(st, eq(c, e2)):
                        t = nrm(subst(t, [(c, e2)])) if isinstance(t, z3.ArithRef) else subst(t, [(c, e2)])
                        done = True
                        break
                if done:
                    break
            if done:
                break
        if not done or not isinstance(t, z3.ExprRef):
            return t
    return t


class Keep:
    """iteration counts that exist outside the body of the loop counted by `it` (later ones belong to inner loops)"""

    def __init__(self, it):
        self.n = int(it.decl().name().split('!')[1])

    def __contains__(self, x):
        return int(x.split('!')[1]) <= self.n


def keepnames(base, it):
    return Keep(it)


def unify_rc(ex, base, cbacks, it):
    """per-iteration ledger deltas of the continuing paths, in terms of the iteration only"""
    from .capi import Tok
    ds = []
    keep = keepnames(base, it)
    for o in cbacks:
        d = o.rc
        if not d.zero():
            n = Tok(sym=d.sym)
            for c, m, v, b in d.r:
                m2, b2 = elim(ex, o.st, m, keep), elim(ex, o.st, b, keep)
                x = z3.Int('rk!b')
                if is_c(m2) and m2 <= 0:
                    continue
                n.r += ((c, m2, x, T.deepnrm(subst(b2, [(v, x)]))),)
            for c, t in d.s.values():
                n = n.add(T.deepnrm(elim(ex, o.st, t, keep)), c)
            d = cancel(n)
        ds.append((o, d))
    if len({canon_tok(d) for o, d in ds}) > 1:
        ds = [(o, d) for o, d in ds if ex.feasible(o.st, True, True)]
    if len({canon_tok(d) for o, d in ds}) > 1:
        # the same objects under different names on different paths
        for i, (o0, d0) in enumerate(ds):
            out = []
            for o, d in ds:
                a, b = list(d0.s.values()), list(d.s.values())
                if canon_tok(d) == canon_tok(d0) or len(a) == len(b) == 1 and not d.r and not d0.r and a[0][0] == b[0][0] and \
                        ex.proves(o.st, eq(a[0][1], b[0][1])):
                    out.append((o, d0))
            if len(out) == len(ds):
                return [d for o, d in out]
    return [d for o, d in ds]


def cancel(d):
    """drop opposite ranges"""
    from .capi import Tok
    rs = list(d.r)
    for i in range(len(rs)):
        for j in range(i + 1, len(rs)):
            if rs[i] and rs[j] and rs[i][0] == -rs[j][0] and same(rs[i][1], rs[j][1]) and Z(rs[i][3]).eq(Z(rs[j][3])):
                rs[i] = rs[j] = None
    n = Tok(dict(d.s), tuple(r for r in rs if r), d.sym)
    return n


def rc_closed(ex, base, cbacks, it):
    """ledger after `it` iterations: base + sum over j < it of the (unique) per-iteration delta"""
    from .capi import Tok
    t0 = base.g('rc') or Tok()
    ds = unify_rc(ex, base, cbacks, it)
    if all(d.zero() or not canon_tok(d) for d in ds):
        return t0
    key = None
    for d in ds:
        k = canon_tok(d)
        if key is not None and k != key:
            if os.environ.get('PFV_RC'): print('RC',[dict(d.s) for d in ds],[d.r for d in ds])
            raise Unsupported('references change hands on some iterations only')
        key = k
    d = ds[0]
    keep = keepnames(base, it)
    itn = it.decl().name()
    if any(x.startswith('it!') and x not in keep for c, t in d.s.values() for x in consts_of(t)):
        raise Unsupported('references that depend on an inner loop')
    for c, t in d.s.values():
        t0 = t0.addrange(c, it, lambda v, t=t: subst(t, [(it, v)]))
    for c, m, v, b in d.r:
        if any(x.startswith('it!') and x not in keep for y in (m, b) for x in consts_of(y)) or itn in consts_of(m):
            if os.environ.get('PFV_RC'): print('RC2', c, m, b, keep, [f for f in cbacks[0].st.pc[-8:]])
            raise Unsupported('references that depend on an inner loop')
        # sum over j < it, k < m of b(j, k)  =  sum over x < it*m of b(x / m, x % m)
        t0 = t0.addrange(c, mul(it, m), lambda x, m=m, v=v, b=b: subst(b, [(v, Z(x) % Z(m))] + ([(it, Z(x) / Z(m))] if itn in consts_of(b) else [])))
    return t0


def canon_r(r):
    return True


def canon_tok(d):
    return tuple(sorted((c, t.get_id()) for c, t in d.s.values())) + tuple((c, Z(n).get_id(), b.get_id()) for c, n, v, b in d.r)


def latches(f, hdr, body):
    """blocks every complete iteration passes, nearest to its end first"""
    preds = {}
    for b in body:
        for s in f.succs(b):
            preds.setdefault(s, []).append(b)

    def around(x):
        """can an iteration avoid block x?"""
        seen, work = {hdr}, [hdr]
        while work:
            for s in f.succs(work.pop()):
                if s == hdr:
                    return True
                if s in body and s != x and s not in seen:
                    seen.add(s)
                    work.append(s)
        return False
    inner = [lb for h, lb in f.loops().items() if h != hdr and h in body]
    out, seen, work = [], {hdr}, [hdr]
    for b in work:
        for q in preds.get(b, ()):
            if q not in seen:
                seen.add(q)
                work.append(q)
                if not any(q in lb for lb in inner) and not around(q):
                    out.append(q)
    return out[:6]


def cut(ex, fr, st0, hdr, prev, body):
    """the cut point of a loop is its header; where the header tests a value the end of an iteration computed (fetch the next
    element, then test it), the cut moves back to the end of the iteration"""
    nob, fns, q = len(ex.obl), list(ex.cur_fn), ex.quiet
    try:
        return cut_at(ex, fr, st0.copy(), hdr, prev, body)
    except Unsupported as e:
        if 'loop-carried' not in str(e):
            raise
        err = e
    rot = ex.rotated
    own = {i.res for b in body for i in fr.f.blocks[b] if i.res}
    for L in latches(fr.f, hdr, body):
        del ex.obl[nob:]
        ex.cur_fn[:] = fns
        ex.quiet = q
        try:
            ex.rotated = rot | {(fr.id, hdr)}
            outs = []
            for o in ex.region(fr, st0.copy(), hdr, prev, (L, body)):
                if o.kind == BACK:
                    # registers of the iteration do not live across the cut
                    o.st.regs = {r: v for r, v in o.st.regs.items() if r not in own}
                    outs += cut_at(ex, fr, o.st, L, o.prev, body)
                else:
                    outs.append(o)
            return outs
        except Unsupported:
            pass
        finally:
            ex.rotated = rot
    raise err


def cut_at(ex, fr, st0, hdr, prev, body):
    code0 = fr.f.blocks[hdr][0]
    if code0.op == 'phi':
        if not getattr(ex, 'allow_phi', False):
            raise Unsupported('phi in loop header %s' % hdr)
    name = '%s:%s' % (ex.where(), hdr)
    # fast exit: does the loop iterate at all?
    it = z3.Int('it!%d' % T.uid())
    T.RANGE[it.decl().name()] = (0, None)
    T.AXIOM.setdefault('__none__', None)
    base = st0
    # ---- round A: frame
    H = {}
    samples = {}
    for rnd in range(8):
        s = base.copy()
        s.its = s.its + (it,)
        s.assume(it >= 0)
        hv = {}
        for key, (v0, vb) in samples.items():
            hv[key] = H[key] if key in H else havoc(ex, s, key, v0, vb, it)
        H = hv
        for key, v in H.items():
            if isinstance(v, Opaque) or not isinstance(v, tuple):
                setv(s, key, v)
        fixup(ex, s, H)
        entry = s.copy()
        backs, rest = run_body(ex, fr, s, hdr, prev, body)
        if not backs:
            break
        new = False
        for o in backs:
            norm_back(ex, o.st)
            for key in changed(ex, entry, o.st):
                if key in samples:
                    # shape conflict -> opaque
                    v0, vb = samples[key]
                    vn = getv(o.st, key)
                    if not compatible(v0, vb, vn) and not isinstance(H.get(key), Opaque):
                        H[key] = Opaque('loop-carried')
                        new = True
                    continue
                samples[key] = (getv(base, key), getv(o.st, key))
                new = True
        if not new:
            break
    else:
        raise Unsupported('loop frame of %s did not stabilise' % name)
    if not backs and not samples:
        # body never continues: run it once for real
        s = base.copy()
        b2, rest2 = run_body(ex, fr, s, hdr, prev, body, quiet=False)
        return rest2
    m = monotone(ex, base, entry, backs, H, it)
    if m:
        # guesses are made from values that respect the apparent direction of change (the guesses are proved below)
        s = entry.copy()
        for f in m:
            s.assume(f)
        entry2 = s.copy()
        b2, _r = run_body(ex, fr, s, hdr, prev, body)
        if b2:
            for o in b2:
                norm_back(ex, o.st)
            entry, backs = entry2, b2
    # ---- round B: closed forms
    lowered = {}     # key -> downgrade level
    aux = set()
    frozen = None    # numbers whose closed forms hold; sequences are guessed again from iterations that use them
    for attempt in range(20):
        closed = guess(ex, base, entry, backs, H, it, lowered, frozen)
        # ---- round C/D: verify
        s = base.copy()
        s.its = s.its + (it,)
        s.assume(it >= 0)
        install(ex, s, closed, it)
        n0 = len(s.pc)
        head = s.copy()
        cbacks, crest = run_body(ex, fr, s, hdr, prev, body)
        for o in cbacks:
            norm_back(ex, o.st)
        hist = history(ex, base, closed, cbacks, n0, it)
        bad = verify(ex, base, closed, head, cbacks, hist, it, n0)
        if not bad:
            break
        if os.environ.get('PFV_LOOP'):
            print('LOOP', name, attempt, [(k, closed[k].how, lowered.get(k, 0)) for k in bad])
        if frozen is None and all(isinstance(closed[k], SeqCF) for k in bad) and any(isinstance(c, Wrap) for k, c in closed.items()):
            frozen = {k: c for k, c in closed.items() if k == '__init__' or not isinstance(getv(base, k), Seq)}
            s = base.copy()
            s.its = s.its + (it,)
            s.assume(it >= 0)
            install(ex, s, frozen, it)
            for k, h in H.items():
                if isinstance(h, Seq):
                    setv(s, k, h)
            entry3 = s.copy()
            backs3, _r = run_body(ex, fr, s, hdr, prev, body)
            if backs3:
                for o in backs3:
                    norm_back(ex, o.st)
                entry, backs = entry3, backs3
                continue
        # a sequence built from a wrong closed form of a number is not to blame
        for k in [k for k in bad if not isinstance(closed[k], SeqCF)] or bad:
            lowered[k] = lowered.get(k, 0) + 1
        # keep structure samples from round A for guessing
    else:
        raise Unsupported('no inductive invariant for %s' % name)
    # ---- a count-down stays non-negative: repeat the body with that fact so that its updates do not wrap
    down = []
    for x in crossings(closed) if hist is not None else ():
        t = head.copy()
        t.pc.append(hist)
        t.assume(Implies(And(le(0, x), lt(x, it)), hist.inst(x)))
        t.assume(Implies(it > 0, hist.inst(sub(it, 1))))
        if ex.proves(t, le(0, sub(x, it))):
            down.append(le(0, sub(x, it)))
    if down:
        s = head.copy()
        for f in down:
            s.assume(f)
        cbacks, crest = run_body(ex, fr, s, hdr, prev, body)
        for o in cbacks:
            norm_back(ex, o.st)
    # ---- houdini on history-function bounds
    extra = bounds(ex, base, closed, head, cbacks, hist, it, n0)
    # ---- final run with obligations
    s = base.copy()
    s.its = s.its + (it,)
    s.assume(it >= 0)
    for f in closed.get('__init__', []):
        s.assume(f)
    install(ex, s, closed, it)
    s.setg('rc', rc_closed(ex, base, cbacks, it))
    for e in extra:
        s.assume(e(it))
    for f in down:
        s.assume(f)
    if hist is not None:
        s.pc.append(hist)
        # the last completed iteration continued
        s.assume(Implies(it > 0, hist.inst(sub(it, 1)) if True else True))
        for x in crossings(closed):
            s.assume(Implies(And(le(0, x), lt(x, it)), hist.inst(x)))
    n1 = len(s.pc)
    backs, rest = run_body(ex, fr, s, hdr, prev, body, quiet=bool(ex.quiet))
    ex.loops_done += 1
    if not ex.quiet:
        terminate(ex, base, closed, backs, rest, it, n1, name)
    outs = []
    for o in rest:
        o.st.its = base.its
        outs.append(o)
    return outs


def monotone(ex, base, entry, backs, H, it):
    """bounds by the initial value for cells that apparently only grow or only shrink; nested loops only"""
    keep = keepnames(base, it)
    out = []
    for key, h in H.items():
        # count-down loops over unsigned variables: the update wraps for the value the loop never reaches
        if isinstance(h, z3.ArithRef) and z3.is_const(h) and isinstance(getv(base, key), NUM):
            ds = [unwrapped(getv(o.st, key), h) for o in backs]
            if all(d is not None for d in ds) and any(d[1] for d in ds) and all(d[0] < 0 for d in ds) and ex.proves(base, le(0, getv(base, key))):
                out += [le(h, getv(base, key)), le(0, h)]
    if not any(x.startswith('it!') and x not in keep for o in backs for f in o.st.pc[len(entry.pc):] if isinstance(f, z3.ExprRef) for x in consts_of(f)):
        return [f for f in out if f is not True]
    for key, h in H.items():
        if not isinstance(h, z3.ArithRef) or not z3.is_const(h):
            continue
        x0 = getv(base, key)
        ups = [getv(o.st, key) for o in backs]
        if not isinstance(x0, NUM) or not all(isinstance(u, NUM) for u in ups):
            continue
        if all(ex.proves(o.st, le(h, u)) for o, u in zip(backs, ups)):
            out.append(le(x0, h))
        elif all(ex.proves(o.st, le(u, h)) for o, u in zip(backs, ups)):
            out.append(le(h, x0))
    return [f for f in out if f is not True]


def dewrap(u):
    """a sum reduced into a machine range by comparisons -> the sum itself (a guess; the invariant check confirms it)"""
    v = u
    while isinstance(v, z3.ArithRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        d = sub(v.arg(1), v.arg(2))
        if z3.is_app(v.arg(2)) and v.arg(2).decl().kind() == z3.Z3_OP_ITE:
            d = sub(v.arg(1), v.arg(2).arg(2))
        if not is_c(d) or d % 2 ** 32 or d == 0:
            return u
        v = v.arg(2)
    return v


def steps(c, depth=6):
    """constants a sum with conditionals can be"""
    if is_c(c):
        return [c]
    d, k = lin(c)
    for t, q in d.values():
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            if not depth:
                return []
            rest = sub(c, mul(q, t))
            out = []
            for i in (1, 2):
                out += [x for x in steps(add(rest, mul(q, t.arg(i))), depth - 1) if x not in out]
            return out
    return []


def unwrapped(u, h):
    """(constant step, wrapped?) of an update h + c, possibly reduced modulo 2^w"""
    if not isinstance(u, z3.ArithRef):
        return None
    wr = False
    while z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
        u, wr = u.arg(2), True
    d, c = lin(u)
    if len(d) == 1:
        (t, q), = d.values()
        if q == 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
            d2, c2 = lin(t.arg(0))
            c, d, wr = c + c2, d2, True
            m = t.arg(1).as_long()
            c = (c + m // 2) % m - m // 2
    if len(d) == 1 and h.get_id() in d and d[h.get_id()][1] == 1:
        return c, wr
    return None


def crossings(closed):
    """iterations at which a count-down reaches zero"""
    out = []
    for key, cf in closed.items():
        inner = cf.inner if isinstance(cf, Wrap) else cf
        if isinstance(inner, Lin) and inner.c == -1 and (not is_c(inner.x0) or inner.x0 >= 0):
            out.append(inner.x0)
    out.sort(key=is_c)  # symbolic ones first
    return out[:3]


def compatible(v0, va, vb):
    def shape(v):
        if v is MISSING or v is UNDEF:
            return None
        if isinstance(v, BOOLS):
            return 'b'
        if isinstance(v, NUM):
            return 'n'
        if isinstance(v, Seq):
            return 'seq'
        return type(v).__name__
    a, b, c = shape(v0), shape(va), shape(vb)
    return b == c or b is None or c is None


def install(ex, s, closed, it):
    vals = {}
    for key, cf in closed.items():
        if key == '__init__':
            continue
        vals[key] = cf.at(it)
    for key, v in vals.items():
        if not isinstance(v, tuple) or isinstance(v, (str,)):
            setv(s, key, v)
    fixup(ex, s, vals)


# ---- closed forms -------------------------------------------------------------------------------
class CF:
    how = ''

    def at(self, it):
        raise NotImplementedError


class Lin(CF):
    how = 'linear'

    def __init__(self, x0, c):
        self.x0, self.c = x0, c

    def at(self, it):
        return add(self.x0, mul(self.c, it))


class ModLin(Lin):
    """linear up to machine wrap-around"""

    def __init__(self, ex, x0, c, w):
        self.ex, self.x0, self.c, self.w = ex, x0, c, w

    def at(self, it):
        e, lo, M = add(self.x0, mul(self.c, it)), -(1 << (self.w - 1)), 1 << self.w
        if is_c(e):
            return (e - lo) % M + lo
        if is_c(it) and it == 0:
            return e
        r = (e - lo) % M + lo
        self.ex.org[r.get_id()] = (e, self.w, r)
        return r


def unmod(u):
    """(sum, width) of a value reduced into a signed machine range by a remainder"""
    if isinstance(u, z3.ArithRef):
        d, c = lin(u)
        if len(d) == 1:
            (t, q), = d.values()
            if q == 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
                for w in (32, 64):
                    if t.arg(1).as_long() == 1 << w and c == -(1 << (w - 1)):
                        return nrm(t.arg(0) + c), w
        v = dewrap(u)
        if v is not u:
            d = sub(u.arg(1), v)
            for w in (32, 64):
                if is_c(d) and abs(d) == 1 << w:
                    return v, w
    return None, 0


class Wrap(CF):
    """pointer / iterator with a numeric closed form inside"""

    def __init__(self, inner, mk):
        self.inner, self.mk = inner, mk
        self.how = inner.how

    def at(self, it):
        return self.mk(self.inner.at(it))


class Last(CF):
    """x0 initially, afterwards the value v(it-1) written by the last iteration"""
    how = 'last'

    def __init__(self, x0, v, it):
        self.x0, self.v, self.it0 = x0, v, it

    def at(self, it):
        if is_c(it) and it == 0:
            return self.x0
        return If(eq(it, 0), self.x0, subst(self.v, [(self.it0, sub(it, 1))]))


class LastAny(CF):
    """value of the last iteration whose initial value is irrelevant (undefined before the loop)"""
    how = 'last'

    def __init__(self, x0, fn):
        self.x0, self.fn = x0, fn

    def at(self, it):
        return self.x0


class Hist(CF):
    how = 'history'

    def __init__(self, x0, its, sort=INT):
        self.x0 = x0
        self.its = its
        self.sort = sort
        self.name = 'X!%d' % T.uid()
        self.f = func(self.name, len(its) + 1, sort=sort)

    def at(self, it):
        return self.f(*self.its, Z(it))

    def init(self):
        return [self.f(*self.its, z3.IntVal(0)) == (B(self.x0) if self.sort == BOOL else Z(self.x0))]


class Unk(CF):
    how = 'unknown'

    def __init__(self, v):
        self.v = v

    def at(self, it):
        return self.v


class HistSeq(CF):
    how = 'unknown sequence'

    def __init__(self, its, x0=None):
        self.its = its
        self.name = 'S!%d' % T.uid()
        self.f = func(self.name, len(its) + 2)

    def at(self, it):
        return Fn(lambda k: self.f(*self.its, Z(it), Z(k)), self.name)


class SeqCF(CF):
    how = 'piecewise'

    def __init__(self, build):
        self.build = build

    def at(self, it):
        return self.build(it)


def hvname(v):
    return v.decl().name() if isinstance(v, z3.ExprRef) else None


def guess(ex, base, entry, backs, H, it, lowered, frozen=None):
    closed = {}
    init = []
    itn = it.decl().name()
    hvnames = set()
    for v in H.values():
        if isinstance(v, z3.ExprRef):
            hvnames.add(v.decl().name())
        elif isinstance(v, (P, O)):
            if unscale(v.off)[1]:
                hvnames.add(unscale(v.off)[0].decl().name())
        elif isinstance(v, tuple) and len(v) > 2 and isinstance(v[2], z3.ExprRef):
            hvnames.add(unscale(v[2])[0].decl().name())
        elif isinstance(v, Seq):
            hvnames.add(v.name)
    subs = []     # (hv const, closed term) for linear ones
    pend = []
    numkeys = {}
    # pass 1: numbers
    for key, h in H.items():
        lv = lowered.get(key, 0)
        x0 = getv(base, key)
        if frozen and key in frozen and not isinstance(h, Seq):
            closed[key] = frozen[key]
            continue
        num, mk, getn = numeric_part(ex, key, h, x0)
        if num is None:
            pend.append(key)
            continue
        numkeys[key] = (num, mk, getn)
        ups = []
        ok = True
        for o in backs:
            u = getn(o.st, getv(o.st, key))
            if u is None:
                ok = False
                break
            ups.append(T.deepnrm(elim(ex, o.st, u, keepnames(base, it))))
        xs = getn(base, x0)
        if not ok or xs is None:
            if isinstance(h, (P, O, tuple)):
                closed[key] = Unk(Opaque('loop-carried pointer'))
            else:
                closed[key] = Unk(Opaque('loop-carried'))
            continue
        if os.environ.get('PFV_LOOP'):
            print('NUM', key, num, xs, ups, [f for f in backs[0].st.pc[-8:]])
        if num.sort() == BOOL:
            if lv == 0:
                closed[key] = Hist(xs, base.its, BOOL)
                init += closed[key].init()
            else:
                closed[key] = Unk(z3.Bool('u!%d' % T.uid()))
            continue
        if lv == 0:
            cs = [sub(u, num) for u in map(dewrap, ups)]
            c0 = cs[0]
            if not all(is_c(c) for c in cs):
                # a step that depends on a condition: a constant every path allows (confirmed or given up below)
                alt = [steps(c) for c in cs]
                ks = [k for k in alt[-1] if all(k in a for a in alt)]
                if ks:
                    c0 = ks[-1]
                    cs = [c0] * len(cs)
            names = consts_of(c0)
            if all(same(c, c0) for c in cs) and not (names & hvnames) and itn not in names and not depends_body(c0, it):
                cf = Lin(xs, c0)
                closed[key] = Wrap(cf, mk)
                subs.append((num, cf.at(it)))
                continue
        us = [unmod(u) for u in ups]
        if lv <= 1 and all(x[1] for x in us) and len({x[1] for x in us}) == 1:
            cs = [sub(x[0], num) for x in us]
            c0, names = cs[0], consts_of(cs[0])
            if all(same(c, c0) for c in cs) and not (names & hvnames) and itn not in names and not depends_body(c0, it):
                cf = ModLin(ex, xs, c0, us[0][1])
                closed[key] = Wrap(cf, mk)
                subs.append((num, cf.at(it)))
                continue
        if lv <= 1:
            pend.append(key)
            continue
        if lv == 2:
            closed[key] = Wrap(mkhist(xs, base, init), mk)
        else:
            closed[key] = Unk(mk(z3.Int('u!%d' % T.uid())))
    # pass 2: the rest, sequences last
    pend.sort(key=lambda k: isinstance(H[k], Seq))
    for key in pend:
        h = H[key]
        lv = lowered.get(key, 0)
        x0 = getv(base, key)
        if key in numkeys:
            num, mk, getn = numkeys[key]
            xs = getn(base, x0)
            ups = [subst(getn(o.st, getv(o.st, key)), subs) if not is_c(getn(o.st, getv(o.st, key))) else getn(o.st, getv(o.st, key)) for o in backs]
            u0 = ups[0]
            nm = consts_of(u0)
            if lv == 0 and all(same(u, u0) for u in ups) and not (nm & hvnames):
                # a value recomputed each iteration; prefer a linear form if it fits
                lin1 = linear_in(u0, it)
                if lin1 is not None and same(sub(u0, lin1), xs):
                    closed[key] = Wrap(Lin(xs, lin1), mk)
                else:
                    closed[key] = Wrap(Last(xs, u0, it), mk)
                    if is_c(u0):
                        subs.append((num, closed[key].inner.at(it)))
                continue
            if lv <= 1:
                closed[key] = Wrap(mkhist(xs, base, init), mk)
                continue
            closed[key] = Unk(mk(z3.Int('u!%d' % T.uid())))
            continue
        if isinstance(h, Seq):
            cf = None
            if lv == 0:
                cf = seq_closed(ex, base, entry, backs, key, h, it, subs, hvnames, H)
            if cf is None:
                cf = HistSeq(base.its)
            closed[key] = cf
            continue
        if isinstance(h, Gen):
            closed[key] = Unk(Gen())
            continue
        if isinstance(h, Opaque):
            closed[key] = opaque_last(ex, base, backs, key, subs, hvnames)
            continue
        closed[key] = Unk(Opaque('loop-carried'))
    closed['__init__'] = init + (frozen['__init__'] if frozen else [])
    return closed


def opaque_last(ex, base, backs, key, subs, hvnames):
    """object-valued / pointer-valued temporaries: usable only when the value before the loop is undefined
    or equal; otherwise opaque"""
    return Unk(Opaque('loop-carried temporary'))


def depends_body(c, it):
    """does the term contain a function application over the iteration counter"""
    return it.decl().name() in consts_of(c)


def linear_in(u, it):
    """coefficient*1 of `it` when u = a + c*it with c constant -> c*... returns c (int) if linear"""
    d, c = lin(u)
    i = it.get_id()
    if i not in d:
        return None
    k = d[i][1]
    rest = unlin({a: q for a, q in d.items() if a != i}, c)
    if it.decl().name() in consts_of(rest):
        return None
    return None if k == 0 else mk_lin(k, rest, it)


def mk_lin(k, rest, it):
    # u(it) is written at the end of iteration `it`; closed form at it+1 must be rest + k*it = x0 + k*(it+1) - k
    return None


def mkhist(xs, base, init):
    h = Hist(xs, base.its)
    init += h.init()
    return h


def numeric_part(ex, key, h, x0):
    """(placeholder const, rebuild fn, extractor(st, v)) for values with one integer inside"""
    if isinstance(h, z3.ArithRef):
        return h, (lambda t: t), (lambda st, v: v if isinstance(v, NUM) else (If(v, 1, 0) if isinstance(v, BOOLS) else None))
    if isinstance(h, z3.BoolRef):
        return h, (lambda t: t), (lambda st, v: v if isinstance(v, BOOLS) else None)
    if isinstance(h, P) and unscale(h.off)[1]:
        b = h.b
        hv, sc = unscale(h.off)
        return hv, (lambda t: P(b, mul(sc, t))), (lambda st, v: exdiv(v.off, sc) if isinstance(v, P) and v.b is b else None)
    if isinstance(h, O) and unscale(h.off)[1]:
        ob = h.t
        hv, sc = unscale(h.off)
        return hv, (lambda t: O(ob, mul(sc, t))), (lambda st, v: exdiv(v.off, sc) if isinstance(v, O) and same(v.t, ob) else None)
    if isinstance(h, tuple) and h[0] == 'VB':
        k = h[1]
        hv, sc = unscale(h[2])

        def gx(st, v):
            if isinstance(v, P) and v.b.kind == 'vbuf' and v.b.key == k:
                if v.b.gen is st.get(k[0], (k[1], 'gen')):
                    return exdiv(v.off, sc)
            return None
        return hv, (lambda t: ('VB', k, mul(sc, t))), gx
    if isinstance(h, tuple) and h[0] == 'LI':
        k, off = h[1], h[3]

        def gl(st, v):
            if isinstance(v, It) and v.key == k and v.off == off:
                try:
                    return core.STL['pos'](ex, st, v, quiet=True)
                except (Unsupported, DeadPath):
                    return None
            return None
        return h[2], (lambda t: ('LI', k, t, off)), gl
    return None, None, None


# ---- sequences -----------------------------------------------------------------------------------
def unroll_seq(q, h):
    """operations from head sequence h to q, oldest first; None when q is not built on h"""
    ops = []
    while q is not h:
        if isinstance(q, (Store, Ins, Del, Pw, Rev)):
            ops.append(q)
            q = q.prev
        else:
            return None
    return ops[::-1]


def replace_head(t, h, A0):
    """read of the havocked head sequence h(k) -> A0.at(k)"""
    if isinstance(t, (int, bool)):
        return t
    while True:
        hit = None
        for ap in apps(t).values():
            if ap.decl().name() == h.name:
                # innermost first
                if not any(a2.decl().name() == h.name for x in ap.children() for a2 in apps(x).values()):
                    hit = ap
                    break
        if hit is None:
            return t
        k = hit.arg(hit.num_args() - 1)
        t = z3.substitute(t, (hit, Z(A0.at(nrm(k)))))


def seq_closed(ex, base, entry, backs, key, h, it, subs, hvnames, H):
    A0 = getv(base, key)
    if not isinstance(A0, Seq):
        return None
    seqs = [(H[k], getv(base, k)) for k in H if isinstance(H[k], Seq) and isinstance(getv(base, k), Seq)]
    cands = []
    for o in backs:
        q = getv(o.st, key)
        if not isinstance(q, Seq):
            return None
        ops = unroll_seq(q, h)
        if ops is None:
            return None
        cands.append((ops, o))
    # all continuing paths that change the sequence must agree in shape; take the one with most operations
    keep = keepnames(base, it)
    if len(cands) > 1:
        live = [c for c in cands if ex.feasible(c[1].st, True, True)]
        cands = live or cands
    ops, src = max(cands, key=lambda c: len(c[0]))
    srcs = [c[1] for c in cands]
    cands = [c[0] for c in cands]
    if any(len(c) not in (0, len(ops)) for c in cands):
        return None
    if not ops:
        return None
    if any(len(c) == 0 for c in cands):
        cond = True
    itn = it.decl().name()
    lift = core.HOOKS['lift'] if 'sep' in str(key) else None

    def cl(t):
        """close a term: linear placeholders replaced, reads of other havocked sequences -> their initial value"""
        t = elim(ex, src.st, t, keep)
        t = subst(t, subs)
        if lift is not None:
            t = lift(t)
        for hs, a0 in seqs:
            t = replace_head(t, hs, a0)
        return nrm(t) if isinstance(t, (int, z3.ArithRef)) else t

    def bad(t):
        return bool(consts_of(t) & hvnames)

    if all(isinstance(o, Store) for o in ops):
        # stores at affine positions
        groups = []
        for o in ops:
            i, v = cl(o.i), cl(o.v)
            if bad(i) or bad(v):
                return None
            d, c = lin(i)
            iid = it.get_id()
            k = d[iid][1] if iid in d else 0
            b = unlin({a: x for a, x in d.items() if a != iid}, c)
            if itn in consts_of(b):
                return None
            groups.append((k, b, v))
        # merge runs: same k, positions b, b+1, ... with |k| == run length
        segs = []
        used = [False] * len(groups)
        for gi in range(len(groups)):
            if used[gi]:
                continue
            k, b, v = groups[gi]
            run = [gi]
            while True:
                nxt = None
                for gj in range(len(groups)):
                    if not used[gj] and gj not in run and groups[gj][0] == k and same(groups[gj][1], add(b, len(run))):
                        nxt = gj
                        break
                if nxt is None or len(run) >= abs(k):
                    break
                run.append(nxt)
            if k == 0 or len(run) != abs(k):
                return None
            for r in run:
                used[r] = True
            vs = [groups[r][2] for r in run]
            segs.append((k, b, vs))

        lanes = {}

        def val_at(k, b, vs, n, x):
            """value at position x within the segment written so far"""
            if abs(k) == 1:
                j = sub(x, b) if k == 1 else sub(b, x)
                return subst(vs[0], [(it, j)])
            # replace k*it by (x-b-m) for lane m; identical after anti-unification when lanes are consecutive
            m = abs(k)
            X = z3.Int('lane!X')
            if id(vs) not in lanes:
                outs = []
                for lane, v in enumerate(vs):
                    outs.append(subst_scaled(v, it, k, X, lane, b))
                    if outs[-1] is None or lane and not same(outs[-1], outs[0]):
                        outs = [None]
                        break
                lanes[id(vs)] = (vs, outs[0])
            if lanes[id(vs)][1] is not None:
                return subst(lanes[id(vs)][1], [(X, x)])
            if k > 0:
                d = sub(x, b)
                j = Z(d) / m
                r = Z(d) % m
            else:
                d = sub(x, b)     # position b + k*j + lane, k<0
                r = Z(d) % m
                j = (r - Z(d)) / m
            res = subst(vs[-1], [(it, j)])
            for lane in range(m - 2, -1, -1):
                res = If(r == lane, subst(vs[lane], [(it, j)]), res)
            return res

        def build(n):
            q = A0
            for k, b, vs in segs:
                if k > 0:
                    lo, hi = b, add(b, mul(k, n))
                else:
                    lo, hi = add(add(b, mul(k, n)), -k), add(b, len(vs))
                    # positions b+k*j+lane for j<n: [b + k*(n-1), b + len(vs))
                q = Pw(q, lo, hi, (lambda x, k=k, b=b, vs=vs, n=n: val_at(k, b, vs, n, x)))
            return q
        return SeqCF(build)
    if len(ops) == 1 and isinstance(ops[0], Ins):
        o = ops[0]
        if not (is_c(o.n) and o.n == 1):
            # constant-size block appended at a moving end: p = p0 + n*it
            p, n = cl(o.p), cl(o.n)
            if bad(p) or bad(n) or itn in consts_of(n):
                return None
            p0 = subst(p, [(it, 0)])
            if not same(sub(p, p0), mul(n, it)):
                return None
            fn = o.fn
            r = z3.Int('r!%d' % T.uid())
            v = cl(fn(r))
            if bad(v) or itn in consts_of(v):
                return None

            def build2(m):
                return Ins(A0, p0, mul(n, m), lambda k: subst(v, [(r, Z(k) % Z(n))]))
            return SeqCF(build2)
        p = cl(o.p)
        v = cl(o.fn(0))
        if lift is not None and len(cands) > 1:
            # paths of an iteration that add different separators: merged under the condition that distinguishes them
            v = merged([(cl(c[0].fn(0)), b) for c, b in zip(cands, srcs) if len(c) == 1 and isinstance(c[0], Ins)], len(entry.pc), cl, bad)
            if v is None:
                return None
        if bad(p) or bad(v):
            return None
        c = step_of(p, it)
        if c == 1:
            p0 = subst(p, [(it, 0)])
            return SeqCF(lambda n: Ins(A0, p0, n, lambda k: subst(v, [(it, k)])))
        if c == 0:
            return SeqCF(lambda n: Ins(A0, p, n, lambda k: subst(v, [(it, sub(sub(n, 1), k))])))
        return None
    if len(ops) == 1 and isinstance(ops[0], Del):
        o = ops[0]
        p, n = cl(o.p), cl(o.n)
        if bad(p) or bad(n) or itn in consts_of(n):
            return None
        c = step_of(p, it)
        if c == 0:
            return SeqCF(lambda m: Del(A0, p, mul(n, m)))
        if is_c(n) and c == -n:
            p0 = subst(p, [(it, 0)])
            return SeqCF(lambda m: Del(A0, add(p0, mul(-n, sub(m, 1))), mul(n, m)))
        return None
    if len(ops) == 1 and isinstance(ops[0], Pw):
        o = ops[0]
        lo, hi = cl(o.lo), cl(o.hi)
        x = z3.Int('x!%d' % T.uid())
        v = cl(o.fn(x))
        if bad(lo) or bad(hi) or bad(v):
            return None
        lo0 = subst(lo, [(it, 0)])
        w = sub(hi, lo)
        if os.environ.get('PFV_LOOP'):
            print('PW', lo, hi, lo0, w, mul(w, it), sub(lo, lo0), v, bad(lo), bad(hi), bad(v))
        if itn not in consts_of(w) and same(sub(lo, lo0), mul(mul(-1, w), it)):
            # window of constant width moving down
            rel = z3.Int('rel!%d' % T.uid())
            vr = T.deepnrm(subst(v, [(x, add(rel, lo))]))
            if itn in consts_of(vr):
                if itn in consts_of(v):
                    return None
                return SeqCF(lambda n: Pw(A0, sub(lo0, mul(w, sub(n, 1))), add(lo0, w), lambda k: subst(v, [(x, k)])))
            return SeqCF(lambda n: Pw(A0, sub(lo0, mul(w, sub(n, 1))), add(lo0, w), lambda k: subst(vr, [(rel, rel_mod(k, lo0, w))])))
        if itn in consts_of(w) or not same(sub(lo, lo0), mul(w, it)):
            # not a moving window of constant width
            return None
        # value depends on the position relative to the window start: v as function of (x - lo)
        rel = z3.Int('rel!%d' % T.uid())
        vr = T.deepnrm(subst(v, [(x, add(rel, lo))]))
        if itn in consts_of(vr):
            # general: value at absolute position x does not depend on it
            if itn in consts_of(v):
                return None
            return SeqCF(lambda n: Pw(A0, lo0, add(lo0, mul(w, n)), lambda k: subst(v, [(x, k)])))
        return SeqCF(lambda n: Pw(A0, lo0, add(lo0, mul(w, n)), lambda k: subst(vr, [(rel, rel_mod(k, lo0, w))])))
    return None


def merged(vs, n0, cl, bad):
    """one value for the values of several paths: If over a fact of one path that every other value's paths refute"""
    groups = []
    for v, b in vs:
        for g in groups:
            if same(g[0], v):
                g[1].append(b)
                break
        else:
            groups.append((v, [b]))
    if not groups or len(groups) > 2:
        return None
    if len(groups) == 1:
        return groups[0][0]
    (v1, b1), (v2, b2) = groups

    def facts(b):
        return [cl(f) for f in b.st.pc[n0:] if isinstance(f, z3.BoolRef)]
    f1, f2 = [facts(b) for b in b1], [facts(b) for b in b2]
    for f in f1[0]:
        if bad(f) or not all(any(x.eq(f) for x in l) for l in f1):
            continue
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(f)
        ok = True
        for l in f2:
            s.push()
            s.add(*[x for x in l if not bad(x)])
            ok = ok and s.check() == z3.unsat
            s.pop()
        if ok:
            return If(f, v1, v2)
    return None


def multiple_of(t, w):
    d, c = lin(t)
    if c != 0 or not isinstance(w, z3.ArithRef):
        return is_c(w) and w != 0 and exdiv(t, w) is not None
    for x, _ in d.values():
        if not (x.eq(w) or z3.is_mul(x) and any(y.eq(w) for y in x.children())):
            return False
    return True


def rel_mod(k, lo0, w):
    if multiple_of(lo0, w):
        return Z(k) % Z(w)
    return Z(sub(k, lo0)) % Z(w)


def step_of(p, it):
    d, c = lin(p)
    i = it.get_id()
    rest = unlin({a: x for a, x in d.items() if a != i}, c)
    if it.decl().name() in consts_of(rest):
        return None
    return d[i][1] if i in d else 0


def subst_scaled(v, it, k, X, lane, b):
    """rewrite k*it inside linear sub-terms as X - b - lane; None when `it` remains"""
    if isinstance(v, (int, bool)):
        return v
    if it.decl().name() not in consts_of(v):
        return v
    if isinstance(v, z3.ArithRef):
        d, c = lin(v)
        i = it.get_id()
        if not (len(d) == 1 and c == 0 and list(d.values())[0][1] == 1 and i not in d):
            out = c
            for a, (t, q) in d.items():
                if a == i:
                    if q % k:
                        return None
                    out = add(out, mul(q // k, sub(sub(X, b), lane)))
                else:
                    r = subst_scaled(t, it, k, X, lane, b)
                    if r is None:
                        return None
                    out = add(out, mul(q, r))
            return out
    ch = [subst_scaled(c, it, k, X, lane, b) for c in v.children()]
    if any(c is None for c in ch):
        return None
    ch = [(B(c) if isinstance(o, z3.BoolRef) else Z(c)) for c, o in zip(ch, v.children())]
    return v.decl()(*ch)


# ---- verification --------------------------------------------------------------------------------
def history(ex, base, closed, cbacks, n0, it):
    """Forall j in [0,it): some continuing path was taken at iteration j (with the history functions' steps)"""
    if not cbacks:
        return None
    disj = []
    for o in cbacks:
        conj = [f for f in o.st.pc[n0:] if not isinstance(f, Forall)]
        for key, cf in closed.items():
            if key == '__init__':
                continue
            inner = cf.inner if isinstance(cf, Wrap) else cf
            if isinstance(inner, Hist):
                h = inner.at(add(it, 1))
                v = getv(o.st, key)
                u = unwrap_num(ex, o.st, v, cf)
                if u is None:
                    continue
                conj.append(B(h == (B(u) if inner.sort == BOOL else Z(u))))
        disj.append(And(*conj))
    body = Or(*disj)
    if body is True:
        return None
    b = B(body)
    return Forall(0, it, lambda j: z3.substitute(b, (it, Z(j))), 'history')


def unwrap_num(ex, st, v, cf):
    if isinstance(v, NUM) or isinstance(v, BOOLS):
        return v
    if isinstance(v, (P, O)):
        at = cf.at(z3.IntVal(0)) if isinstance(cf, Wrap) else None
        o = at.off if isinstance(at, (P, O)) else at[2] if isinstance(at, tuple) else None
        if o is not None and isinstance(cf.inner, Hist):
            d, _c = lin(o)
            q = list(d.values())[0][1] if len(d) == 1 else 1
            return exdiv(v.off, q)
        return v.off
    if isinstance(v, It):
        try:
            return core.STL['pos'](ex, st, v, quiet=True)
        except (Unsupported, DeadPath):
            return None
    return None


def verify(ex, base, closed, head, cbacks, hist, it, n0):
    bad = set()
    # initiation
    s0 = base.copy()
    for f in closed.get('__init__', []):
        s0.assume(f)
    for key, cf in closed.items():
        if key == '__init__' or isinstance(cf, (Unk, HistSeq)):
            continue
        if isinstance(cf, Wrap) and isinstance(cf.inner, Hist) or isinstance(cf, Hist):
            continue
        if not goal_equal(ex, s0, key, getv(base, key), cf.at(0)):
            bad.add(key)
    for o in cbacks:
        st = o.st.copy()
        for f in closed.get('__init__', []):
            st.assume(f)
        if hist is not None:
            st.pc.append(hist)
            for x in crossings(closed):
                st.assume(Implies(And(le(0, x), lt(x, it)), hist.inst(x)))
        # frame: nothing outside the closed cells changed
        for key in changed(ex, head, o.st):
            cf = closed.get(key)
            if cf is None:
                v0, v1 = getv(head, key), getv(o.st, key)
                if key[0] == 'G' and key[1] == 'err':
                    # an exception became pending on a path that continues
                    continue
                if isinstance(v0, Seq) or not goal_val(ex, st, v0, v1):
                    raise Unsupported('loop changes %r outside its frame' % (key,))
                continue
            if isinstance(cf, (Unk, HistSeq)):
                continue
            if isinstance(cf, Wrap) and isinstance(cf.inner, Hist) or isinstance(cf, Hist):
                if unwrap_num(ex, st, getv(o.st, key), cf) is None:
                    bad.add(key)
                continue
        for key, cf in closed.items():
            if key == '__init__' or isinstance(cf, (Unk, HistSeq)) or key in bad:
                continue
            if isinstance(cf, Wrap) and isinstance(cf.inner, Hist) or isinstance(cf, Hist):
                continue
            if not goal_equal(ex, st, key, getv(o.st, key), cf.at(add(it, 1))):
                bad.add(key)
    return bad


def goal_equal(ex, st, key, v, want):
    if isinstance(want, tuple) and want and want[0] == 'VB':
        k = want[1]
        if isinstance(v, P) and v.b.kind == 'vbuf' and v.b.key == k and v.b.gen is st.get(k[0], (k[1], 'gen')):
            return ex.proves(st, eq(v.off, want[2]))
        return False
    if isinstance(want, tuple) and want and want[0] == 'LI':
        if isinstance(v, It) and v.key == want[1]:
            try:
                p = core.STL['pos'](ex, st, v, quiet=True)
            except (Unsupported, DeadPath):
                return False
            return ex.proves(st, eq(p, want[2]))
        return False
    return goal_val(ex, st, v, want)


def goal_val(ex, st, v, want):
    if vsame(ex, v, want):
        return True
    if isinstance(v, Seq) and isinstance(want, Seq):
        k = z3.Int('k!%d' % T.uid())
        return ex.proves(st, eq(v.at(k), want.at(k)))
    if isinstance(v, BOOLS) and isinstance(want, NUM):
        v = If(v, 1, 0)
    if isinstance(v, NUM) and isinstance(want, NUM):
        return ex.proves(st, eq(v, want))
    if isinstance(v, BOOLS) and isinstance(want, BOOLS):
        return ex.proves(st, Iff(v, want))
    if isinstance(v, P) and isinstance(want, P) and v.b is want.b:
        return ex.proves(st, eq(v.off, want.off))
    if isinstance(v, O) and isinstance(want, O) and same(v.t, want.t):
        return ex.proves(st, eq(v.off, want.off))
    if (v is UNDEF or v is MISSING) and isinstance(want, NUM):
        return False
    return False


def bounds(ex, base, closed, head, cbacks, hist, it, n0):
    """Houdini over simple facts about history functions: X>=x0, X<=x0, X<=x0+it, X>=0, X <= other + const"""
    cand = []
    hk = [(k, cf.inner if isinstance(cf, Wrap) else cf) for k, cf in closed.items() if k != '__init__']
    hk = [(k, c) for k, c in hk if isinstance(c, Hist) and c.sort == INT]
    if not hk:
        return []
    for k, c in hk:
        cand.append(lambda t, c=c: c.at(t) >= Z(c.x0))
        cand.append(lambda t, c=c: c.at(t) <= Z(c.x0))
        cand.append(lambda t, c=c: c.at(t) <= Z(add(c.x0, t)))
        cand.append(lambda t, c=c: c.at(t) >= Z(sub(c.x0, t)))
        cand.append(lambda t, c=c: c.at(t) >= 0)
        for _s, lo, _v, C in base.g('counts') or ():
            cand.insert(0, lambda t, c=c, C=C, lo=lo: B(eq(c.at(t), add(c.x0, C.at(add(lo, t))))))
        # comparisons occurring in the continuing condition, shifted by one step
        for o in cbacks:
            for f in o.st.pc[n0:]:
                if isinstance(f, Forall):
                    continue
                for g in atoms(f):
                    if c.name in consts_of(g) and g.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                        l, r = g.children()
                        cand.append(lambda t, g=g, l=l, r=r: z3.substitute(weak(g), (it, Z(t))))
    # dedupe by text
    seen, uniq = set(), []
    for c in cand:
        k = c(it).get_id()
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    cand = uniq[:40]
    s0 = base.copy()
    for f in closed.get('__init__', []):
        s0.assume(f)
    cand = [c for c in cand if ex.proves(s0, c(z3.IntVal(0)), 2000)]
    steps = []
    for o in cbacks:
        st = o.st.copy()
        for f in closed.get('__init__', []):
            st.assume(f)
        for key, cf in closed.items():
            if key == '__init__':
                continue
            inner = cf.inner if isinstance(cf, Wrap) else cf
            if isinstance(inner, Hist):
                u = unwrap_num(ex, o.st, getv(o.st, key), cf)
                if u is not None:
                    st.assume(inner.at(add(it, 1)) == (B(u) if inner.sort == BOOL else Z(u)))
        steps.append(st)
    ch = True
    while ch and cand:
        ch = False
        for st in steps:
            s2 = st.copy()
            for c in cand:
                s2.assume(c(it))
            keep = [c for c in cand if ex.proves(s2, c(add(it, 1)), 2000)]
            if len(keep) != len(cand):
                cand = keep
                ch = True
                break
    return cand


def weak(g):
    k = g.decl().kind()
    l, r = g.children()
    return {z3.Z3_OP_LE: l <= r + 1, z3.Z3_OP_LT: l <= r, z3.Z3_OP_GE: l >= r - 1, z3.Z3_OP_GT: l >= r}[k]


def atoms(f):
    if isinstance(f, bool):
        return []
    k = f.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        out = []
        for c in f.children():
            out += atoms(c)
        return out
    return [f]


def literals(f, pos=True):
    """(atom, polarity) that f implies"""
    if isinstance(f, bool):
        return []
    k = f.decl().kind()
    if k == z3.Z3_OP_NOT:
        return literals(f.children()[0], not pos)
    if k == (z3.Z3_OP_AND if pos else z3.Z3_OP_OR):
        return [x for c in f.children() for x in literals(c, pos)]
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return []
    return [(f, pos)]


def terminate(ex, base, closed, backs, rest, it, n1, name):
    """Termination: an exit is reachable, and either some integer expression bounded by the continuing condition
    decreases with every iteration (sequences the environment hands out are finite)."""
    if not rest:
        ex.oblige(base.copy(), 'termination', False if ex.feasible(base, True, True) else True,
                  'loop %s has no reachable exit' % name)
        return
    for o in backs:
        if not ex.feasible(o.st, True, True):
            continue
        ok = False
        for f in o.st.pc[n1:]:
            if isinstance(f, Forall):
                continue
            for g, pos in literals(f):
                kd = g.decl().kind()
                if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                    l, r = g.children()
                    if (kd in (z3.Z3_OP_GE, z3.Z3_OP_GT)) == pos:
                        l, r = r, l
                    m = sub(r, l)
                    if 1 << 38 <= abs(lin(m)[1]) <= 1 << 46:    # a limit of memory is not what ends a loop
                        continue
                    if it.decl().name() in consts_of(m):
                        m2 = subst(m, [(it, add(it, 1))])
                        d, c = lin(sub(m2, m))
                        if not d and c < 0:
                            ok = True
                        elif ex.proves(o.st, lt(m2, m), 2000):
                            ok = True
                if ok:
                    break
                # disequality guards  x != bound  with |step| 1 moving towards the bound
                if kd == z3.Z3_OP_EQ and not pos and isinstance(g.children()[0], z3.ArithRef):
                    l, r = g.children()
                    m = sub(r, l)
                    if it.decl().name() in consts_of(m):
                        m2 = subst(m, [(it, add(it, 1))])
                        d, c = lin(sub(m2, m))
                        if not d and abs(c) == 1:
                            if ex.proves(o.st, (Z(m) > 0) if c < 0 else (Z(m) < 0), 2000):
                                ok = True
            if ok:
                break
        if not ok and os.environ.get('PFV_TERM'):
            print('TERM', name, [f for f in o.st.pc[n1:] if not isinstance(f, Forall)])
        ex.oblige(o.st.copy(), 'termination', ok, 'loop %s: no decreasing measure' % name, weak=True)

