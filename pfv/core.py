"""Symbolic executor / verification-condition generator over LLVM IR of the real functions.

Each function is executed symbolically on an arbitrary pre-state that satisfies its contract's `requires`;
calls go to contracts (STL, CPython API, functions listed in the contract table) or, for local helpers
without a contract of their own, to the helper's body.  Loops are cut: the engine guesses an inductive
invariant (closed forms in a ghost iteration counter + the history of the loop condition), proves that it is
preserved by an arbitrary iteration, and continues from it.  No loop is unrolled and no input is bounded."""
import itertools
import re
import subprocess
import time
import os
import z3
from .irparse import Module, Ins, Ty, PTR
from .terms import *
from . import terms as T

import sys
sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class PathBudget(Exception):
    pass


# ---- values ------------------------------------------------------------------------------------
class _Null:
    def __repr__(self):
        return 'NULL'


NULL = _Null()


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Opaque:
    """a value the verifier does not model; using it in a decision is Unsupported"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'opaque(%s)' % self.why


class Block:
    _n = itertools.count(1)

    def __init__(self, kind, name='', **kw):
        self.bid = next(Block._n)
        self.kind, self.name = kind, name
        self.oid = None
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s#%d:%s' % (self.kind, self.bid, self.name)


class P:
    __slots__ = ('b', 'off')

    def __init__(self, b, off=0):
        self.b, self.off = b, off

    def __repr__(self):
        return '&%r+%s' % (self.b, self.off)


class O:
    """pointer to an opaque Python object, identified by an integer term (non-null)"""
    __slots__ = ('t', 'off')

    def __init__(self, t, off=0):
        self.t, self.off = t, off

    def __repr__(self):
        return 'obj(%s%s)' % (self.t, '+%s' % self.off if not isinstance(self.off, int) or self.off != 0 else '')


class It:
    """pointer to (a field of) a std::list node: list ghost key, version, position, byte offset in node"""
    __slots__ = ('key', 'ver', 'pos', 'off')

    def __init__(self, key, ver, pos, off=0):
        self.key, self.ver, self.pos, self.off = key, ver, pos, off

    def __repr__(self):
        return 'node(%s v%s @%s+%s)' % (self.key, self.ver, self.pos, self.off)


class FnP:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name, self.mod = name, mod

    def __repr__(self):
        return 'fn:' + self.name


class V:
    """SIMD value: lanes of native width w (bits)"""
    __slots__ = ('w', 'l')

    def __init__(self, w, l):
        self.w, self.l = w, l

    def __repr__(self):
        return 'V%d%r' % (self.w, self.l)


class Agg:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l


class Fp:
    """uninterpreted floating point value (real bits are not modelled): integer-sorted token"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class State:
    __slots__ = ('m', 'pc', 'regs', 'its', 'frames', 'trace', 'depth')

    def __init__(self):
        self.m = {'G': {'gil': True, 'err': None, 'rc': None, 'apifail': None, 'exc': None}}
        self.pc = []
        self.regs = {}
        self.its = ()
        self.trace = ()
        self.depth = 0

    def copy(self):
        s = State.__new__(State)
        s.m = dict(self.m)
        s.pc = list(self.pc)
        s.regs = dict(self.regs)
        s.its = self.its
        s.trace = self.trace
        s.depth = self.depth
        return s

    # flattened memory: m[bid][key]
    def get(self, bid, key, default=None):
        d = self.m.get(bid)
        return default if d is None else d.get(key, default)

    def set(self, bid, key, val):
        d = dict(self.m.get(bid, ()))
        d[key] = val
        self.m[bid] = d

    def g(self, k, default=None):
        return self.m['G'].get(k, default)

    def setg(self, k, v):
        self.set('G', k, v)

    def assume(self, f):
        if f is True:
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        self.pc.append(B(f) if not isinstance(f, Forall) else f)


class Outcome:
    __slots__ = ('st', 'kind', 'val', 'prev', 'rc')

    def __init__(self, st, kind, val=None, prev=None):
        self.st, self.kind, self.val, self.prev = st, kind, val, prev


RET, UNW, GOTO, BACK, ABORT = 'ret', 'unwind', 'goto', 'back', 'abort'


class Oblig:
    __slots__ = ('kind', 'where', 'msg', 'status', 'detail', 'time', 'backend')

    def __init__(self, kind, where, msg, status, detail='', t=0.0, backend='z3'):
        self.kind, self.where, self.msg, self.status, self.detail, self.time, self.backend = kind, where, msg, status, detail, t, backend


_dem = {}


def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if names:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(names, out):
            _dem[a] = b


def demangle(n):
    if n not in _dem:
        demangle_all([n])
    return _dem[n]


# fixed identities of global Python objects
GID = {}


def gid(name):
    if name not in GID:
        GID[name] = 1000 + len(GID)
    return GID[name]


GLOBOBJ = {'_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct', '_Py_NotImplementedStruct', '_Py_EllipsisObject'}


class Program:
    """all translation units under verification"""

    def __init__(self, mods):
        self.mods = mods
        self.ext = {}
        for m in mods:
            demangle_all(list(m.funcs) + list(m.decls))
            for n, f in m.funcs.items():
                if not f.internal:
                    self.ext.setdefault(n, (m, f))
        self.gblocks = {}

    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return mod, f
        return self.ext.get(name, (None, None))

    def gblock(self, mod, name):
        gi = mod.ginit(name)
        internal = gi is not None and (' internal ' in ' ' + mod.globals[name] or ' private ' in ' ' + mod.globals[name])
        key = (id(mod), name) if internal else name
        b = self.gblocks.get(key)
        if b is None:
            b = Block('global', name, mod=mod)
            if gi is None or gi[1] is None:
                for m2 in self.mods:
                    g2 = m2.ginit(name)
                    if g2 is not None and g2[1] is not None and not (' internal ' in ' ' + m2.globals[name]):
                        b.mod = m2
                        break
            b.oid = gid(name)
            self.gblocks[key] = b
        return b


class Exec:
    def __init__(self, prog, contracts, prover=None):
        self.prog = prog
        self.con = contracts          # callable: (mod, name, demangled) -> contract fn or None
        self.pv = prover or Prover()
        self.org = {}
        self.obl = []
        self.quiet = 0
        self.oids = {}                # object id term (z3 id or int) -> Block
        self.vers = {}                # list version -> (parent version, op, p, n)
        self.loops_done = 0
        self.paths = 0
        self.max_paths = 6000
        self.deadline = None
        self.fn_used = {}
        self.contract_used = {}
        self.cur_fn = []
        self.rotated = frozenset()  # (frame, header) of loops cut at the end of the iteration
        self.loopinfo = []
        self._skinds = None           # obligation kinds to record (None: all)
        self.confail = {}

    # ---- identities
    def mkobj_block(self, kind, name, **kw):
        b = Block(kind, name, **kw)
        t = z3.Int('o!%s!%d' % (name, b.bid))
        T.RANGE[t.decl().name()] = (1, None)
        b.oid = t
        self.oids[t.get_id()] = b
        return b

    def to_id(self, v):
        if v is NULL:
            return 0
        if isinstance(v, O) and v.off == 0:
            return v.t
        if isinstance(v, P) and is_c(v.off) and v.off == 0 and v.b.oid is not None:
            return v.b.oid
        return None

    def from_id(self, t):
        if isinstance(t, int):
            if t == 0:
                return NULL
            for n, g in GID.items():
                if g == t:
                    for b in self.prog.gblocks.values():
                        if b.name == n:
                            return P(b, 0)
            return O(t)
        b = self.oids.get(t.get_id())
        if b is not None:
            return P(b, 0)
        return O(t)

    def fresh(self, st, name, lo=None, hi=None, sort=INT):
        n = '%s!%d' % (name, T.uid())
        if st.its:
            f = func(n, len(st.its), lo, hi, sort)
            return f(*st.its)
        if lo is not None or hi is not None:
            T.RANGE[n] = (lo, hi)
        return z3.Const(n, sort)

    def fresh_seq(self, st, name, lo=None, hi=None):
        return Base('%s!%d' % (name, T.uid()), lo, hi, st.its)

    def fresh_obj(self, st, name='new'):
        return self.fresh(st, name, 1, None)

    # ---- solver
    def feasible(self, st, c=True, full=False):
        if c is False:
            return False
        return self.pv.check(st.pc, [] if c is True else [c], full, timeout=4000) != z3.unsat

    def proves(self, st, c, timeout=None):
        if c is True:
            return True
        if c is False:
            return self.pv.check(st.pc, [], True, timeout) == z3.unsat
        return self.pv.check(st.pc, [Not(c)], True, timeout) == z3.unsat

    def where(self):
        return self.cur_fn[-1] if self.cur_fn else '?'

    def oblige(self, st, kind, cond, msg, assume=True, weak=False):
        """record obligation; returns False when the path is dead afterwards"""
        if self.quiet:
            if cond is False:
                return self.feasible(st) and False
            if assume:
                st.assume(cond)
            return True
        t0 = time.time()
        if cond is True:
            ok = True
            r = z3.unsat
        else:
            r = self.pv.check(st.pc, [] if cond is False else [Not(cond)], True)
            ok = r == z3.unsat
            if not ok and cond is not False:
                x = self.pv.refute_exact(st.pc, cond)
                if x == z3.unsat:
                    ok, r = True, z3.unsat
                elif x != z3.sat:
                    weak = True  # no counterexample of the exact formula
        status = 'proved' if ok else ('failed' if r == z3.sat else 'unknown')
        det = ''
        if status == 'failed' and (weak or weak_loop(st, cond)):
            status = 'weak'
        if not ok:
            if os.environ.get('PFV_OB'):
                print('OBLIGE', r, msg, '\nGOAL', cond, '\nPC', [f for f in st.pc if not isinstance(f, Forall)])
                print('FORALL', [(f.lo, f.hi, f.sample) for f in st.pc if isinstance(f, Forall)])
            det = self.describe(st)
        self.obl.append(Oblig(kind, self.where(), msg, status, det, time.time() - t0))
        if cond is False:
            return False
        if assume:
            st.assume(cond)
        return True

    def describe(self, st):
        return ' -> '.join(st.trace[-14:])

    def fork(self, st, cond):
        """-> (true-state or None, false-state or None)"""
        if cond is True:
            return st, None
        if cond is False:
            return None, st
        a = self.feasible(st, cond)
        b = self.feasible(st, Not(cond))
        if a and b:
            s2 = st.copy()
            st.assume(cond)
            s2.assume(Not(cond))
            return st, s2
        if a:
            st.assume(cond)
            return st, None
        if b:
            st.assume(Not(cond))
            return None, st
        return None, None

    # ---- arithmetic with machine semantics
    def origin(self, e, w):
        """a term congruent to e modulo 2**w, before it was wrapped"""
        if isinstance(e, z3.ExprRef):
            r = self.org.get(e.get_id())
            if r is not None and r[1] >= w:
                return r[0]
        return e

    def origins(self, e, w):
        """e with its wrapped summands replaced by what they were before wrapping"""
        d, c = lin(e)
        out, hit = c, False
        for t, q in d.values():
            for x in (t, nrm(t - (1 << (w - 1)))) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD else (t,):
                o = self.origin(x, w)
                if not isinstance(o, z3.ExprRef) or not o.eq(x):
                    hit = True
                    # t = x + (t - x), both sides modulo 2**w
                    out = add(out, mul(q, add(o, sub(t, x))))
                    break
            else:
                out = add(out, mul(q, t))
        return out if hit else e

    def wrap(self, st, e, w):
        if isinstance(e, z3.ExprRef):
            e = self.origin(e, w)
        r = self._wrap(st, e, w)
        if isinstance(r, z3.ExprRef) and isinstance(e, z3.ExprRef) and not r.eq(e):
            self.org[r.get_id()] = (e, w, r)
        return r

    def _wrap(self, st, e, w):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isinstance(e, int):
            return (e - lo) % (1 << w) + lo
        a, b = interval(e)
        if a is not None and b is not None and a >= lo and b <= hi:
            return e
        if self.pv.check(st.pc, [z3.Or(e < lo, e > hi)], True, timeout=3000) == z3.unsat:
            return e
        e2 = self.origins(e, w)
        if e2 is not e:
            r = self._wrap(st, e2, w)
            if isinstance(r, z3.ExprRef):
                self.org[r.get_id()] = (e2, w, r)
            return r
        M = 1 << w
        if a is not None and b is not None and a >= lo - M and b <= hi + M:
            return If(e > hi, e - M, If(e < lo, e + M, e))
        return (e - lo) % M + lo

    def uns(self, st, e, w):
        """unsigned reading of a signed-canonical term"""
        if isinstance(e, int):
            return e % (1 << w)
        a, b = interval(e)
        if a is not None and a >= 0:
            return e
        if self.pv.check(st.pc, [e < 0], False, timeout=3000) == z3.unsat:
            return e
        if nonlinear(e) and self.pv.check(st.pc, [e < 0], True, timeout=3000) == z3.unsat:
            return e
        o = self.origin(e, w)
        if not isinstance(o, z3.ExprRef) or not o.eq(e):
            if self.pv.check(st.pc, [z3.Or(Z(o) < 0, Z(o) >= (1 << w))], False, timeout=3000) == z3.unsat:
                return o
        r = If(e < 0, e + (1 << w), e)
        self.org[r.get_id()] = (o, w, r)
        return r

    def asint(self, v, what='int'):
        if isinstance(v, (int, z3.ArithRef)):
            return v
        if isinstance(v, z3.BoolRef):
            return If(v, 1, 0)
        if v is UNDEF or isinstance(v, Opaque):
            raise Unsupported('%s use of %r' % (what, v))
        raise Unsupported('%s use of %r' % (what, v))

    # ---- operands
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'l':
            try:
                return st.regs[v[1]]
            except KeyError:
                raise Unsupported('register %s' % v[1])
        if k == 'c':
            if ty.k == 'int' and ty.a == 1:
                return bool(v[1])
            if ty.k == 'int' and ty.a <= 64:
                w = ty.a
                c = v[1]
                return (c + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
            return v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            nm = v[1][1:].strip('"')
            if nm in fr.mod.funcs or nm in fr.mod.decls:
                return FnP(nm, fr.mod)
            return P(self.prog.gblock(fr.mod, nm), 0)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            rt = fr.mod.resolve(ty)
            if rt.k == 'vec':
                w = self.lanew(rt.b)
                return V(w, [0] * rt.a)
            if rt.k == 'int':
                return 0
            if rt.k == 'ptr':
                return NULL
            return Agg(None)
        if k == 'vec':
            w = self.lanew(ty.b)
            return V(w, [self.val(st, fr, t, x) if x[0] != 'undef' else UNDEF for t, x in v[1]])
        if k == 'gep':
            return self.gep(st, fr, v[1], [(t, self.val(st, fr, t, x)) for t, x in v[2]])
        if k == 'cast':
            x = self.val(st, fr, v[2], v[3])
            return x
        if k == 'fp':
            return Fp(z3.Int('fpc!' + v[1]))
        if k == 'agg':
            return Agg([self.val(st, fr, t, x) for t, x in v[1]])
        raise Unsupported('operand %r' % (v,))

    @staticmethod
    def lanew(t):
        return {'int': t.a, 'float': 32, 'double': 64, 'ptr': 64}.get(t.k) or 64

    def gep(self, st, fr, st_ty, ops):
        base = ops[0][1]
        mod = fr.mod
        off = 0
        ty = st_ty
        first = True
        for (t, ix) in ops[1:]:
            if first:
                ix = self.asint(ix, 'gep')
                off = add(off, mul(ix, mod.size(ty)))
                first = False
                continue
            rt = mod.resolve(ty)
            if rt.k == 'struct':
                o, ty = mod.field(rt, ix)
                off = add(off, o)
            elif rt.k in ('arr', 'vec'):
                off = add(off, mul(self.asint(ix, 'gep'), mod.size(rt.b)))
                ty = rt.b
            else:
                raise Unsupported('gep into %r' % rt)
        return self.padd(st, base, off)

    def padd(self, st, base, off):
        if is_c(off) and off == 0:
            return base
        if isinstance(base, P):
            return P(base.b, add(base.off, off))
        if isinstance(base, It):
            return It(base.key, base.ver, base.pos, add(base.off, off))
        if isinstance(base, O):
            return O(base.t, add(base.off, off))
        if base is NULL:
            # a null pointer with an offset is only ever UB when dereferenced
            return P(NULLBLOCK, off)
        raise Unsupported('pointer arithmetic on %r' % (base,))

    # ---- memory
    def load(self, st, fr, ty, p):
        mod = fr.mod
        rt = mod.resolve(ty)
        if isinstance(p, P):
            b = p.b
            h = MEM_LOAD.get(b.kind)
            if h is not None:
                return h(self, st, fr, rt, p)
            if b is NULLBLOCK:
                self.oblige(st, 'memory', False, 'null pointer dereference (load)')
                raise DeadPath()
            if b.kind == 'global':
                d = st.m.get(b.bid)
                if d is not None and is_c(p.off) and p.off in d:
                    return d[p.off]
                return self.gload(st, fr, rt, p)
            d = st.m.get(b.bid)
            if d is None:
                self.oblige(st, 'memory', False, 'load from dead storage %s' % b.name)
                raise DeadPath()
            if not is_c(p.off):
                raise Unsupported('symbolic offset into %r' % b)
            if rt.k == 'vec' and p.off not in d:
                return UNDEF
            if p.off in d:
                v = d[p.off]
                if isinstance(v, V) and rt.k == 'int':
                    if v.w * len(v.l) == rt.a:
                        return v
                    raise Unsupported('scalar load of vector cell')
                if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                    if rt.k == 'int' and rt.a > 1:
                        return If(v, 1, 0)
                elif isinstance(v, z3.ArithRef) and v.get_id() in self.org:
                    # a wrapped value that the path keeps in range is the exact one
                    o, w, _r = self.org[v.get_id()]
                    if not is_c(o) and self.pv.check(st.pc, [z3.Or(Z(o) < -(1 << (w - 1)), Z(o) >= 1 << (w - 1))], True, timeout=1500) == z3.unsat:
                        st.set(b.bid, p.off, o)
                        return o
                return v
            if b.__dict__.get('default') is not None:
                v = b.default(self, st, p.off, rt)
                st.set(b.bid, p.off, v)
                return v
            for k2, v in d.items():
                if isinstance(v, V) and isinstance(k2, int) and k2 <= p.off < k2 + v.w * len(v.l) // 8:
                    o = p.off - k2
                    if rt.k == 'int' and rt.a == v.w and o % (v.w // 8) == 0:
                        return v.l[o // (v.w // 8)]
                    raise Unsupported('partial vector load')
            return UNDEF
        if isinstance(p, It):
            return STL['node_load'](self, st, fr, rt, p)
        if isinstance(p, O):
            return OBJ_LOAD(self, st, fr, rt, p)
        if p is NULL:
            self.oblige(st, 'memory', False, 'null pointer dereference (load)')
            raise DeadPath()
        raise Unsupported('load from %r' % (p,))

    def gload(self, st, fr, rt, p):
        b = p.b
        if b.name.startswith('PyExc_'):
            return O(gid(b.name + '*'))
        gi = b.mod.ginit(b.name)
        if gi is None or gi[1] is None or not is_c(p.off):
            if gi is not None and gi[1] is not None and not is_c(p.off):
                return GLOBAL_SYM_LOAD(self, st, fr, rt, p, gi)
            return self.gdefault(st, b, p.off, rt)
        v = self.ginit_at(st, b.mod, gi[0], gi[1], p.off, rt)
        return v

    def gdefault(self, st, b, off, rt):
        k = (b.bid, off)
        if rt.k == 'int':
            nm = 'g!%s!%s' % (b.name, off)
            w = rt.a
            T.RANGE[nm] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return z3.Int(nm)
        if rt.k == 'ptr':
            return O(gid('%s@%s' % (b.name, off)))
        return UNDEF

    def ginit_at(self, st, mod, ty, v, off, rt):
        """value of type rt at byte offset off of the constant initializer v of type ty"""
        ty = mod.resolve(ty)
        if v[0] == 'zero' or v[0] == 'undef':
            if rt.k == 'ptr':
                return NULL
            if rt.k == 'vec':
                return V(self.lanew(rt.b), [0] * rt.a)
            return 0
        if ty.k == 'struct':
            o = 0
            for i in range(len(ty.a)):
                o, t = mod.field(ty, i)
                if o <= off < o + max(1, mod.size(t)):
                    return self.ginit_at(st, mod, v[1][i][0], v[1][i][1], off - o, rt)
            raise Unsupported('initializer offset')
        if ty.k in ('arr', 'vec'):
            es = mod.size(ty.b)
            if v[0] == 'str':
                if rt.k == 'int' and rt.a == 8:
                    x = v[1][off]
                    return x - 256 if x > 127 else x
                raise Unsupported('string initializer load')
            i = off // es
            if rt.k == 'vec' and ty.b.k == 'int':
                n = mod.size(rt) // es
                return V(ty.b.a, [self.ginit_at(st, mod, ty.b, v[1][i + q][1], 0, ty.b) for q in range(n)])
            if i >= len(v[1]):
                self.oblige(st, 'memory', False, 'read past constant table')
                raise DeadPath()
            return self.ginit_at(st, mod, ty.b, v[1][i][1], off - i * es, rt)
        fr = Frame(mod, None)
        return self.val(st, fr, ty, v)

    def store(self, st, fr, ty, v, p):
        rt = fr.mod.resolve(ty)
        if isinstance(p, P):
            b = p.b
            h = MEM_STORE.get(b.kind)
            if h is not None:
                return h(self, st, fr, rt, v, p)
            if b is NULLBLOCK:
                self.oblige(st, 'memory', False, 'null pointer dereference (store)')
                raise DeadPath()
            if b.kind == 'global':
                st.set(b.bid, p.off, v)
                return
            if b.bid not in st.m:
                self.oblige(st, 'memory', False, 'store to dead storage %s' % b.name)
                raise DeadPath()
            if not is_c(p.off):
                raise Unsupported('symbolic store offset into %r' % b)
            if b.kind == 'cells' and b.__dict__.get('size') is not None:
                if not 0 <= p.off <= b.size - fr.mod.size(rt):
                    self.oblige(st, 'memory', False, 'store of %d bytes into the %d of %s' % (fr.mod.size(rt), b.size, b.name))
                    raise DeadPath()
                if b.__dict__.get('bits') and rt.k == 'int' and rt.a < b.bits and rt.a > 1:
                    raise Unsupported('store to a part of %s' % b.name)
            if isinstance(v, Agg):
                if v.l is None:
                    self.zero(st, p, fr.mod.size(rt))
                    return
                for i, x in enumerate(v.l):
                    o, t = fr.mod.field(rt, i) if rt.k == 'struct' else (i * fr.mod.size(rt.b), rt.b)
                    self.store(st, fr, t, x, P(b, p.off + o))
                return
            if isinstance(v, V):
                d = dict(st.m[b.bid])
                n = v.w * len(v.l) // 8
                for k2 in [k2 for k2 in d if isinstance(k2, int) and p.off <= k2 < p.off + n]:
                    del d[k2]
                d[p.off] = v
                st.m[b.bid] = d
                return
            st.set(b.bid, p.off, v)
            return
        if isinstance(p, It):
            return STL['node_store'](self, st, fr, rt, v, p)
        if p is NULL:
            self.oblige(st, 'memory', False, 'null pointer dereference (store)')
            raise DeadPath()
        if isinstance(p, O):
            return OBJ_STORE(self, st, fr, rt, v, p)
        raise Unsupported('store to %r' % (p,))

    def zero(self, st, p, n):
        d = dict(st.m[p.b.bid])
        for k2 in list(d):
            if isinstance(k2, int) and p.off <= k2 < p.off + n:
                d[k2] = 0
        st.m[p.b.bid] = d

    def alloca(self, st, name, size):
        b = Block('cells', name, size=size)
        st.m[b.bid] = {}
        return b

    # ---- comparison of pointers
    def ptr_eq(self, st, a, b):
        if a is NULL and b is NULL:
            return True
        if isinstance(a, P) and isinstance(b, P):
            if a.b is b.b:
                return eq(a.off, b.off)
            ka, kb = a.b.kind, b.b.kind
            if ka == 'vbuf' and kb == 'vbuf':
                if a.b.key == b.b.key:
                    self.oblige(st, 'memory', a.b.gen == b.b.gen, 'comparison of iterators of different vector generations')
                    return eq(a.off, b.off)
                return False
            if (a.b is NULLBLOCK) or (b.b is NULLBLOCK):
                return False
            return False
        if isinstance(a, It) and isinstance(b, It):
            if a.key != b.key:
                return False
            pa, pb = STL['pos'](self, st, a), STL['pos'](self, st, b)
            return And(eq(pa, pb), eq(a.off, b.off))
        if isinstance(a, O) and isinstance(b, O) and eq(a.t, b.t) is True:
            return eq(a.off, b.off)
        ia, ib = self.to_id(a), self.to_id(b)
        if ia is not None and ib is not None:
            if isinstance(a, O) and b is NULL or isinstance(b, O) and a is NULL:
                lo, _ = interval(ia if b is NULL else ib)
                if lo is not None and lo >= 1:
                    return False
            return eq(ia, ib)
        if a is NULL or b is NULL:
            x = b if a is NULL else a
            if isinstance(x, P):
                if x.b.kind == 'vbuf':
                    return MEM_NULLCMP(self, st, x)
                return False
            if isinstance(x, (It, FnP)):
                return False
        if isinstance(a, FnP) and isinstance(b, FnP):
            return a.name == b.name
        if isinstance(a, (Opaque, _Undef)) or isinstance(b, (Opaque, _Undef)):
            raise Unsupported('compare %r %r' % (a, b))
        if isinstance(a, FnP) or isinstance(b, FnP):
            return False
        # pointers into different kinds of storage
        if isinstance(a, (P, It)) and isinstance(b, (P, It)):
            return False
        if (isinstance(a, O) and isinstance(b, P)) or (isinstance(b, O) and isinstance(a, P)):
            return False
        raise Unsupported('compare %r %r' % (a, b))

    # ---- calls
    def call(self, st, fr, name, mod, args, ins):
        """-> list of Outcome"""
        dem = demangle(name)
        c = self.con(mod, name, dem)
        if c is not None:
            self.contract_used[dem] = self.contract_used.get(dem, 0) + 1
            try:
                r = c(self, st, fr, args, ins, dem)
            except DeadPath:
                return []
            if isinstance(r, list):
                return r
            return [Outcome(st, RET, r)]
        m2, f = self.prog.lookup(mod, name)
        if f is None:
            raise Unsupported('no contract for external function %s' % dem)
        return self.run(st, m2, f, args)

    def run(self, st, mod, f, args):
        f.parse()
        if len(self.cur_fn) > 60:
            raise Unsupported('recursion depth in %s' % f.name)
        self.fn_used[demangle(f.name)] = self.fn_used.get(demangle(f.name), 0) + 1
        saved = st.regs
        regs = {}
        byv = []
        for (ty, nm, sret, byval), a in zip(f.params, args):
            regs[nm] = a
        st.regs = regs
        fr = Frame(mod, f)
        self.cur_fn.append(demangle(f.name).split('(')[0])
        try:
            outs = self.region(fr, st, f.entry, None, None)
        finally:
            self.cur_fn.pop()
        for o in outs:
            o.st.regs = dict(saved)
            for bid in o.st.m.get('L', {}).get(fr.id, ()):
                o.st.m.pop(bid, None)
            if 'L' in o.st.m and fr.id in o.st.m['L']:
                d = dict(o.st.m['L'])
                del d[fr.id]
                o.st.m['L'] = d
        return outs

    def region(self, fr, st, blk, prev, stop):
        """stop = (header, body set) when executing a loop body; returns outcomes"""
        f = fr.f
        loops = f.loops()
        res = []
        work = [(st, blk, prev, 0, True)]
        while work:
            st, blk, prev, idx, first = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise PathBudget('time budget')
            if idx == 0:
                if stop is not None and not (first and blk == stop[0]):
                    if blk == stop[0]:
                        res.append(Outcome(st, BACK, blk, prev))
                        continue
                    if blk not in stop[1]:
                        res.append(Outcome(st, GOTO, blk, prev))
                        continue
                if blk in loops and not (stop is not None and blk == stop[0] and first) and (fr.id, blk) not in self.rotated:
                    for o in self.loop(fr, st, blk, prev, loops[blk]):
                        if o.kind == GOTO:
                            # leaving the loop: continue here
                            work.append((o.st, o.val, o.prev, 0, False))
                        else:
                            res.append(o)
                    continue
            try:
                self.block(fr, st, blk, prev, idx, work, res)
            except DeadPath:
                continue
        return res

    def block(self, fr, st, blk, prev, idx, work, res):
        code = fr.f.blocks[blk]
        n = len(code)
        while idx < n:
            ins = code[idx]
            op = ins.op
            self.cur_ins = ins
            if op == 'load':
                st.regs[ins.res] = self.load(st, fr, ins.ty, self.val(st, fr, PTR, ins.a))
            elif op == 'store':
                self.store(st, fr, ins.ty, self.val(st, fr, ins.ty, ins.a), self.val(st, fr, PTR, ins.b))
            elif op in ('call', 'invoke'):
                outs = self.do_call(fr, st, ins)
                if outs is not None:
                    live = []
                    for o in outs:
                        if o.kind == RET:
                            if ins.res:
                                o.st.regs[ins.res] = o.val
                            live.append(o.st)
                        elif o.kind == UNW:
                            if ins.op == 'invoke':
                                work.append((o.st, ins.c[1], blk, 0, False))
                            elif ins.x is True and False:
                                pass
                            else:
                                res.append(Outcome(o.st, UNW))
                        elif o.kind == ABORT:
                            res.append(o)
                    if ins.op == 'invoke':
                        for s in live:
                            work.append((s, ins.c[0], blk, 0, False))
                        return
                    if not live:
                        return
                    for s in live[1:]:
                        work.append((s, blk, prev, idx + 1, False))
                    st = live[0]
                elif ins.op == 'invoke':
                    work.append((st, ins.c[0], blk, 0, False))
                    return
            elif op == 'br':
                work.append((st, ins.a, blk, 0, False))
                return
            elif op == 'cbr':
                c = self.val(st, fr, ins.ty, ins.a)
                c = self.asbool(c)
                a, b = self.fork(st, c)
                if b is not None:
                    work.append((b, ins.c, blk, 0, False))
                if a is not None:
                    work.append((a, ins.b, blk, 0, False))
                if a is not None and b is not None:
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise PathBudget('path budget')
                return
            elif op == 'switch':
                v = self.asint(self.val(st, fr, ins.ty, ins.a), 'switch')
                rest = st
                for cv, lab in ins.c:
                    if rest is None:
                        break
                    a, rest = self.fork(rest, eq(v, cv))
                    if a is not None:
                        work.append((a, lab, blk, 0, False))
                if rest is not None:
                    work.append((rest, ins.b, blk, 0, False))
                return
            elif op == 'ret':
                res.append(Outcome(st, RET, None if ins.a is None else self.val(st, fr, ins.ty, ins.a)))
                return
            elif op == 'unreachable':
                if st.g('noreturn'):
                    return
                self.oblige(st, 'memory', False, 'unreachable code reached in %s' % self.where())
                return
            elif op == 'resume':
                res.append(Outcome(st, UNW))
                return
            elif op == 'phi':
                # evaluate all phis simultaneously
                vals = {}
                while idx < n and code[idx].op == 'phi':
                    i2 = code[idx]
                    for v, lab in i2.a:
                        if lab == prev:
                            vals[i2.res] = self.val(st, fr, i2.ty, v)
                            break
                    else:
                        raise Unsupported('phi')
                    idx += 1
                st.regs.update(vals)
                continue
            elif op == 'unsupported':
                raise Unsupported('instruction %s' % ins.txt[:120])
            else:
                st.regs[ins.res] = self.simple(fr, st, ins)
            idx += 1

    def asbool(self, c):
        if isinstance(c, (bool, z3.BoolRef)):
            return c
        if isinstance(c, int):
            return c != 0
        if isinstance(c, z3.ArithRef):
            return self.tobool(c)
        raise Unsupported('condition %r' % (c,))

    def tobool(self, e):
        """integer 0/1 term -> Bool"""
        if isinstance(e, int):
            return e % 2 == 1
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.children()
            if z3.is_int_value(a) and z3.is_int_value(b):
                a, b = a.as_long() % 2, b.as_long() % 2
                if a == 1 and b == 0:
                    return c
                if a == 0 and b == 1:
                    return Not(c)
        lo, hi = interval(e)
        if lo is not None and hi is not None and lo >= 0 and hi <= 1:
            return e == 1
        return e % 2 == 1

    def do_call(self, fr, st, ins):
        cv = ins.a
        if cv[0] == 'g':
            name = cv[1][1:].strip('"')
            tmod = fr.mod
        else:
            p = self.val(st, fr, PTR, cv)
            if not isinstance(p, FnP):
                r = CALL_PTR(self, st, fr, p, ins)
                if r is not NotImplemented:
                    return r
                raise Unsupported('indirect call through %r' % (p,))
            name, tmod = p.name, p.mod
        if name.startswith('llvm.'):
            h = INTRIN(name)
            if h is None:
                raise Unsupported('intrinsic %s' % name)
            args = [(t, self.val(st, fr, t, v)) for t, v in ins.b]
            r = h(self, st, fr, ins, [a for _, a in args], name)
            if isinstance(r, list):
                return r
            if ins.res:
                st.regs[ins.res] = r
            return None
        args = [self.val(st, fr, t, v) for t, v in ins.b]
        outs = self.call(st, fr, name, tmod, args, ins)
        if self.prog_nounwind(tmod, name, ins):
            for o in outs:
                if o.kind == UNW:
                    if self.oblige(o.st, 'exception', False, 'C++ exception leaves a noexcept function (%s): std::terminate' % demangle(name)):
                        pass
            outs = [o for o in outs if o.kind != UNW]
        return outs

    def prog_nounwind(self, mod, name, ins):
        return False

    def simple(self, fr, st, ins):
        op = ins.op
        if op == 'alloca':
            if ins.a is not None:
                n = self.val(st, fr, ins.a[0], ins.a[1])
                if not is_c(n):
                    raise Unsupported('dynamic alloca')
            b = self.alloca(st, ins.res, fr.mod.size(ins.ty) * (1 if ins.a is None else max(n, 1)))
            ty = fr.mod.resolve(ins.ty)
            b.bits = ty.a if ins.a is None and ty.k == 'int' else None
            L = dict(st.m.get('L', {}))
            L[fr.id] = L.get(fr.id, ()) + (b.bid,)
            st.m['L'] = L
            return P(b, 0)
        if op == 'gep':
            return self.gep(st, fr, ins.ty, [(t, self.val(st, fr, t, v)) for t, v in ins.a])
        if op == 'icmp':
            return self.icmp(st, fr, ins)
        if op == 'bin':
            return self.bin(st, fr, ins)
        if op == 'cast':
            return self.cast(st, fr, ins)
        if op == 'select':
            c = self.val(st, fr, ins.x, ins.a)
            a, b = self.val(st, fr, ins.ty, ins.b), self.val(st, fr, ins.ty, ins.c)
            if isinstance(c, V):
                if isinstance(a, V) and isinstance(b, V) and len(a.l) == len(c.l):
                    return V(a.w, [If(x, p, q) for x, p, q in zip(c.l, a.l, b.l)])
                raise Unsupported('vector select')
            c = self.asbool(c)
            if isinstance(c, bool):
                return a if c else b
            if isinstance(a, (int, z3.ArithRef, bool, z3.BoolRef)) and isinstance(b, (int, z3.ArithRef, bool, z3.BoolRef)):
                return If(c, a, b)
            if self.proves(st, c):
                return a
            if self.proves(st, Not(c)):
                return b
            ia, ib = self.to_id(a), self.to_id(b)
            if ia is not None and ib is not None:
                t = If(c, ia, ib)
                if interval(t)[0] is not None and interval(t)[0] >= 1:
                    return O(t)
            if isinstance(a, P) and isinstance(b, P) and a.b is b.b:
                return P(a.b, If(c, a.off, b.off))
            raise Unsupported('pointer select')
        if op == 'landingpad':
            e = st.g('exc')
            sel = 0
            for k, tv in ins.a:
                if k == 'catch':
                    if tv[0] == 'null' or exc_matches(e, tv[1][1:]):
                        sel = typeid(tv[1][1:] if tv[0] != 'null' else 'null')
                        break
                elif k == 'filter':
                    sel = -1
                    break
            return Agg([Opaque('exc'), sel])
        if op == 'extractvalue':
            v = self.val(st, fr, ins.ty, ins.a)
            if isinstance(v, Agg):
                for i in ins.b:
                    v = v.l[i]
                return v
            raise Unsupported('extractvalue')
        if op == 'insertvalue':
            v = self.val(st, fr, ins.ty, ins.a)
            x = self.val(st, fr, Ty('ptr'), ins.b) if ins.b[0] != 'c' else ins.b[1]
            if len(ins.c) != 1:
                raise Unsupported('insertvalue')
            rt = fr.mod.resolve(ins.ty)
            l = list(v.l) if isinstance(v, Agg) and v.l is not None else [UNDEF] * (len(rt.a) if rt.k == 'struct' else rt.a)
            l[ins.c[0]] = x
            return Agg(l)
        if op == 'freeze':
            return self.val(st, fr, ins.ty, ins.a)
        if op == 'nop':
            return None
        from . import simd
        return simd.instr(self, fr, st, ins)

    def icmp(self, st, fr, ins):
        a, b = self.val(st, fr, ins.ty, ins.a), self.val(st, fr, ins.ty, ins.b)
        pr = ins.c
        rt = fr.mod.resolve(ins.ty)
        if rt.k == 'ptr':
            if pr in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                return e if pr == 'eq' else Not(e)
            # relational pointer comparison: same block only
            if isinstance(a, P) and isinstance(b, P) and (a.b is b.b or (a.b.kind == 'vbuf' and b.b.kind == 'vbuf' and a.b.key == b.b.key)):
                x, y = a.off, b.off
                return {'ult': lt(x, y), 'ule': le(x, y), 'ugt': lt(y, x), 'uge': le(y, x)}[pr]
            raise Unsupported('pointer ordering')
        if rt.k == 'vec':
            from . import simd
            return simd.icmp(self, st, fr, ins, a, b)
        if rt.k == 'int' and rt.a == 1:
            a, b = self.asbool(a), self.asbool(b)
            e = Iff(a, b)
            if pr == 'eq':
                return e
            if pr == 'ne':
                return Not(e)
            raise Unsupported('i1 order')
        if not isinstance(a, (int, z3.ArithRef)) or not isinstance(b, (int, z3.ArithRef)):
            if isinstance(a, (P, It, O)) or isinstance(b, (P, It, O)):
                if pr in ('eq', 'ne'):
                    a = NULL if a == 0 and is_c(a) else a
                    b = NULL if b == 0 and is_c(b) else b
                    e = self.ptr_eq(st, a, b)
                    return e if pr == 'eq' else Not(e)
            a, b = self.asint(a, 'icmp'), self.asint(b, 'icmp')
        if pr == 'eq':
            return eq(a, b)
        if pr == 'ne':
            return Not(eq(a, b))
        if pr[0] == 's':
            return {'slt': lt(a, b), 'sle': le(a, b), 'sgt': lt(b, a), 'sge': le(b, a)}[pr]
        w = rt.a
        a, b = self.uns(st, a, w), self.uns(st, b, w)
        return {'ult': lt(a, b), 'ule': le(a, b), 'ugt': lt(b, a), 'uge': le(b, a)}[pr]

    def bin(self, st, fr, ins):
        op = ins.c
        a, b = self.val(st, fr, ins.ty, ins.a), self.val(st, fr, ins.ty, ins.b)
        rt = fr.mod.resolve(ins.ty)
        if rt.k == 'vec' or op[0] == 'f':
            from . import simd
            return simd.bin(self, st, fr, ins, rt, op, a, b)
        w = rt.a
        if w == 1:
            a, b = self.asbool(a), self.asbool(b)
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op == 'xor':
                return Not(Iff(a, b))
            raise Unsupported('i1 ' + op)
        # pointer differences: sub (ptrtoint a) (ptrtoint b)
        if isinstance(a, P) or isinstance(b, P) or isinstance(a, It) or isinstance(b, It):
            return self.ptr_arith(st, op, a, b)
        a, b = self.asint(a, op), self.asint(b, op)
        return self.iop(st, op, a, b, w)

    def ptr_arith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, P) and isinstance(b, P):
            if a.b is b.b or (a.b.kind == 'vbuf' and b.b.kind == 'vbuf' and a.b.key == b.b.key):
                if a.b is not b.b:
                    self.oblige(st, 'memory', a.b.gen == b.b.gen, 'difference of iterators of different vector generations')
                return sub(a.off, b.off)
            if b.b is NULLBLOCK:
                raise Unsupported('ptr - null')
        if op in ('add', 'sub') and isinstance(a, P) and isinstance(b, (int, z3.ArithRef)):
            return P(a.b, add(a.off, b) if op == 'add' else sub(a.off, b))
        if op == 'add' and isinstance(b, P):
            return P(b.b, add(b.off, a))
        if op == 'and' and isinstance(a, P) and is_c(b):
            al = getattr(a.b, 'align', None)
            if al and b < al and (b & (b + 1)) == 0:
                return Z(a.off) % (b + 1) if not is_c(a.off) else a.off % (b + 1)
            if b > 0 and (b & (b + 1)) == 0:
                return Z(add(addr_of(a.b), a.off)) % (b + 1)
            return self.fresh(st, 'addrbits', 0, b if b >= 0 else None)
        if op in ('urem',) and isinstance(a, P) and is_c(b):
            al = getattr(a.b, 'align', None)
            if al and al % b == 0:
                return Z(a.off) % b if not is_c(a.off) else a.off % b
            return Z(add(addr_of(a.b), a.off)) % b
        raise Unsupported('pointer arithmetic %s' % op)

    def iop(self, st, op, a, b, w):
        if op in ('add', 'sub', 'mul'):
            a, b = self.origin(a, w), self.origin(b, w)
            return self.wrap(st, add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b), w)
        if is_c(a) and is_c(b):
            ua, ub = a % (1 << w), b % (1 << w)
            if op in ('sdiv', 'srem', 'udiv', 'urem') and b == 0:
                self.oblige(st, 'memory', False, 'division by zero')
                raise DeadPath()
            r = {'sdiv': lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1),
                 'srem': lambda: a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)),
                 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub,
                 'shl': lambda: ua << ub, 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub,
                 'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub}[op]()
            return (r + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
        if op in ('sdiv', 'srem'):
            if not self.oblige(st, 'memory', Not(eq(b, 0)), 'division by zero'):
                raise DeadPath()
            if is_c(b) and b > 0:
                x = exdiv(a, b)
                if x is not None:
                    return x if op == 'sdiv' else 0
                lo, _ = interval(a)
                if (lo is not None and lo >= 0) or self.proves(st, Z(a) >= 0):
                    return Z(a) / b if op == 'sdiv' else Z(a) % b
            az, bz = Z(a), Z(b)
            if self.proves(st, z3.And(az >= 0, bz > 0)):
                return az / bz if op == 'sdiv' else az % bz
            q = If(z3.Or(az >= 0, az % bz == 0), az / bz, If(bz > 0, az / bz + 1, az / bz - 1))
            # z3 '/' floors towards -inf for positive divisor (remainder is non-negative)
            if op == 'sdiv':
                return self.wrap(st, q, w)
            return az - bz * q
        if op in ('udiv', 'urem'):
            if not self.oblige(st, 'memory', Not(eq(b, 0)), 'division by zero'):
                raise DeadPath()
            a, b = self.uns(st, a, w), self.uns(st, b, w)
            if is_c(b):
                x = exdiv(a, b)
                if x is not None:
                    return self.wrap(st, x, w) if op == 'udiv' else 0
            r = Z(a) / Z(b) if op == 'udiv' else Z(a) % Z(b)
            return self.wrap(st, r, w)
        if op == 'shl' and is_c(b):
            return self.wrap(st, mul(a, 1 << b), w)
        if op in ('lshr', 'ashr') and is_c(b):
            if op == 'lshr':
                a = self.uns(st, a, w)
            x = exdiv(a, 1 << b)
            if x is not None and op == 'ashr':
                return x
            return self.wrap(st, Z(a) / (1 << b), w)
        if op == 'and' and (is_c(a) or is_c(b)):
            if is_c(a):
                a, b = b, a
            if b == 0:
                return 0
            if b == -1:
                return a
            if b > 0 and (b & (b + 1)) == 0:
                return Z(a) % (b + 1)
            nb = -b
            if b < 0 and (nb & (nb - 1)) == 0:
                # a & ~(nb-1)
                return sub(a, Z(a) % nb)
        if op == 'xor' and is_c(b) and b == -1:
            return sub(-1, a)
        if op in ('and', 'or', 'xor') and w <= 64:
            la, ha = interval(a)
            lb, hb = interval(b)
            if (la, ha) == (0, 1) and (lb, hb) == (0, 1):
                pa, pb = self.tobool(a), self.tobool(b)
                c = {'and': And(pa, pb), 'or': Or(pa, pb), 'xor': Not(Iff(pa, pb))}[op]
                return If(c, 1, 0)
            f = func('bit_%s_%d' % (op, w), 2, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return f(Z(a), Z(b))
        f = func('op_%s_%d' % (op, w), 2, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return f(Z(a), Z(b))

    def cast(self, st, fr, ins):
        v = self.val(st, fr, ins.ty, ins.a)
        s, d = fr.mod.resolve(ins.ty), fr.mod.resolve(ins.b)
        op = ins.c
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and is_c(v) and v == 0:
                return NULL
            if op == 'inttoptr' and isinstance(v, (int, z3.ArithRef)):
                return RAWPTR(self, st, v)
            if op == 'ptrtoint' and v is NULL:
                return 0
            return v
        if op == 'bitcast' or s.k == 'vec' or d.k == 'vec' or op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            from . import simd
            return simd.cast(self, st, fr, ins, s, d, op, v)
        if op == 'sext':
            if s.a == 1:
                return If(self.asbool(v), -1, 0)
            return self.asint(v)
        if op == 'zext':
            if s.a == 1:
                return If(self.asbool(v), 1, 0)
            if isinstance(v, (P, O, It)):
                return v
            return self.uns(st, self.asint(v), s.a)
        if op == 'trunc':
            if d.a == 1:
                return self.tobool(self.asint(v))
            if isinstance(v, (P, O, It)):
                raise Unsupported('truncated pointer')
            return self.wrap(st, self.asint(v), d.a)
        raise Unsupported('cast ' + op)

    # ---- loops
    def loop(self, fr, st, hdr, prev, body):
        from . import loops
        return loops.cut(self, fr, st, hdr, prev, body)


def nonlinear(e):
    return any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL for t, q in lin(e)[0].values())


def weak_tok(tk):
    """a residue over values a loop left without a closed form"""
    if tk.sym is not None:
        return True
    es = [t for _, t in tk.s.values()] + [x for _, n, _, b in tk.r for x in (n, b)]
    return any(not is_c(e) and any(n.startswith(('X!', 'S!', 'hv!', 'hvseq!')) for n in consts_of(e)) for e in es)


def weak_loop(st, cond):
    """the failure rests on values a loop left without a closed form: no definite verdict"""
    def hit(f):
        return any(n.startswith(('X!', 'S!', 'hv!', 'hvseq!')) for n in consts_of(f))
    if not isinstance(cond, bool) and hit(cond):
        return True
    return any(not isinstance(f, (Forall, bool)) and hit(f) for f in st.pc)


class DeadPath(Exception):
    pass


def addr_of(b):
    """the address of a block: unknown, a multiple of its alignment"""
    if b.__dict__.get('addr') is None:
        c = z3.Int('addr!%d' % b.bid)
        T.RANGE[c.decl().name()] = (0, None)
        b.addr = mul(getattr(b, 'align', None) or 1, c)
    return b.addr


class Frame:
    _n = itertools.count(1)

    def __init__(self, mod, f):
        self.mod, self.f = mod, f
        self.id = next(Frame._n)


NULLBLOCK = Block('null', 'null')

MEM_LOAD = {}
MEM_STORE = {}
STL = {}


def _obj_load(ex, st, fr, rt, p):
    raise Unsupported('field load from opaque object %r' % (p,))


def _obj_store(ex, st, fr, rt, v, p):
    raise Unsupported('field store to opaque object %r' % (p,))


def OBJ_LOAD(ex, st, fr, rt, p):
    return HOOKS.get('obj_load', _obj_load)(ex, st, fr, rt, p)


def OBJ_STORE(ex, st, fr, rt, v, p):
    return HOOKS.get('obj_store', _obj_store)(ex, st, fr, rt, v, p)


def CALL_PTR(ex, st, fr, p, ins):
    h = HOOKS.get('call_ptr')
    return h(ex, st, fr, p, ins) if h else NotImplemented


def RAWPTR(ex, st, v):
    h = HOOKS.get('rawptr')
    if h:
        return h(ex, st, v)
    raise Unsupported('integer used as address')


def GLOBAL_SYM_LOAD(ex, st, fr, rt, p, gi):
    raise Unsupported('symbolic index into constant table %s' % p.b.name)


def MEM_NULLCMP(ex, st, p):
    return HOOKS['nullcmp'](ex, st, p)


HOOKS = {}
_typeids = {}


def typeid(n):
    if n not in _typeids:
        _typeids[n] = len(_typeids) + 1
    return _typeids[n]


EXC_BASES = {
    'bad_alloc': ['_ZTISt9bad_alloc', '_ZTISt9exception'],
    'bad_array_new_length': ['_ZTISt20bad_array_new_length', '_ZTISt9bad_alloc', '_ZTISt9exception'],
    'length_error': ['_ZTISt12length_error', '_ZTISt11logic_error', '_ZTISt9exception'],
    'out_of_range': ['_ZTISt12out_of_range', '_ZTISt11logic_error', '_ZTISt9exception'],
}


def exc_matches(e, ti):
    return ti in EXC_BASES.get(e, ['_ZTISt9exception'])


def INTRIN(name):
    from . import simd
    for pre, h in INTRINS:
        if name.startswith(pre):
            return h
    return simd.intrinsic(name)


INTRINS = []


def intrin(pre):
    def d(f):
        INTRINS.append((pre, f))
        return f
    return d


@intrin('llvm.memcpy')
def _memcpy(ex, st, fr, ins, a, name):
    copy_mem(ex, st, fr, a[0], a[1], a[2])


@intrin('llvm.memmove')
def _memmove(ex, st, fr, ins, a, name):
    copy_mem(ex, st, fr, a[0], a[1], a[2], move=True)


@intrin('llvm.memset')
def _memset(ex, st, fr, ins, a, name):
    HOOKS['memset'](ex, st, fr, a[0], a[1], a[2])


@intrin('llvm.lifetime')
@intrin('llvm.assume')
@intrin('llvm.experimental.noalias')
@intrin('llvm.prefetch')
@intrin('llvm.stacksave')
@intrin('llvm.stackrestore')
@intrin('llvm.donothing')
def _nop(ex, st, fr, ins, a, name):
    return None


@intrin('llvm.expect')
def _expect(ex, st, fr, ins, a, name):
    return a[0]


@intrin('llvm.is.constant')
def _isconst(ex, st, fr, ins, a, name):
    return False


@intrin('llvm.objectsize')
def _objsize(ex, st, fr, ins, a, name):
    return -1


@intrin('llvm.eh.typeid.for')
def _typeidfor(ex, st, fr, ins, a, name):
    return typeid(a[0].b.name)


@intrin('llvm.trap')
def _trap(ex, st, fr, ins, a, name):
    ex.oblige(st, 'memory', False, 'trap reached')
    raise DeadPath()


@intrin('llvm.smax')
@intrin('llvm.umax')
def _smax(ex, st, fr, ins, a, name):
    if name.endswith('i64') or name.endswith('i32'):
        x, y = a
        if 'umax' in name:
            w = int(name.rsplit('i', 1)[1])
            c = lt(ex.uns(st, x, w), ex.uns(st, y, w))
        else:
            c = lt(x, y)
        return If(c, y, x)
    from . import simd
    return simd.intrinsic(name)(ex, st, fr, ins, a, name)


@intrin('llvm.smin')
@intrin('llvm.umin')
def _smin(ex, st, fr, ins, a, name):
    if name.endswith('i64') or name.endswith('i32'):
        x, y = a
        if 'umin' in name:
            w = int(name.rsplit('i', 1)[1])
            c = lt(ex.uns(st, x, w), ex.uns(st, y, w))
        else:
            c = lt(x, y)
        return If(c, x, y)
    from . import simd
    return simd.intrinsic(name)(ex, st, fr, ins, a, name)


def copy_mem(ex, st, fr, d, s, n, move=False):
    if is_c(n) and n == 0:
        return
    if isinstance(d, P) and isinstance(s, P) and d.b.kind in ('cells', 'iterobj') and s.b.kind in ('cells', 'iterobj', 'global') and is_c(n) and is_c(d.off) and is_c(s.off):
        if s.b.kind == 'global':
            # constant aggregate into local storage, word by word
            src = {}
            mod = s.b.mod
            gi = mod.ginit(s.b.name)
            ty = mod.resolve(gi[0])
            es = 8
            t = ty
            if t.k == 'arr':
                es = mod.size(t.b)
                if es not in (1, 2, 4, 8):
                    es = 8
            elt = {1: Ty('int', 8), 2: Ty('int', 16), 4: Ty('int', 32), 8: (PTR if t.k != 'arr' or mod.resolve(t.b).k == 'ptr' else Ty('int', 64))}[es]
            for o in range(0, n, es):
                src[o] = ex.ginit_at(st, mod, gi[0], gi[1], s.off + o, elt)
        else:
            if s.b.bid not in st.m:
                raise Unsupported('memcpy from dead storage')
            src = {k - s.off: v for k, v in st.m[s.b.bid].items() if isinstance(k, int) and s.off <= k < s.off + n}
        dd = dict(st.m[d.b.bid])
        for k in [k for k in dd if isinstance(k, int) and d.off <= k < d.off + n]:
            del dd[k]
        for k, v in src.items():
            dd[d.off + k] = v
        st.m[d.b.bid] = dd
        return
    HOOKS['memcpy'](ex, st, fr, d, s, n, move)
