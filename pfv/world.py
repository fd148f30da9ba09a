"""The Python-visible entry points of every class, discovered from the compiled code (module init function run
symbolically), and arbitrary pre-states for them."""
import glob
import hashlib
import os
import subprocess
import z3
from .irparse import Module, Ty, PTR, I32, I64
from .terms import *
from . import terms as T
from . import core, stl, capi, loops, simd, strs
from .core import (Program, Exec, State, Block, P, O, It, FnP, NULL, UNDEF, Unsupported, DeadPath, RET, UNW, ABORT,
                   Outcome, HOOKS, gid)
from .capi import (Contracts, Tok, tok, isidx, ival, item, ilen, ifail, iterable, islist, istuple, isint, pyint, typ,
                   isseq, rcb, rcfail, API, api, new_block, own, ok, fail, seterr)
from .loops import Gen

CXX = ['clang++-18', '-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
       '-fno-discard-value-names', '-fwrapv', '-DNDEBUG', '-fPIC', '-mavx', '-mavx2', '-mavx512f', '-mavx512bw',
       '-mavx512dq', '-mavx512vl', '-w', '-S', '-emit-llvm', '-g0']

SLOTS = {'dealloc': 48, 'repr': 88, 'richcompare': 200, 'iter': 216, 'iternext': 224, 'init': 296, 'new': 312,
         'alloc': 304, 'free': 320, 'hash': 120, 'str': 136}
SQ = {'sq_length': 0, 'sq_concat': 8, 'sq_repeat': 16, 'sq_item': 24, 'sq_ass_item': 40, 'sq_contains': 56,
      'sq_inplace_concat': 64, 'sq_inplace_repeat': 72}
MP = {'mp_length': 0, 'mp_subscript': 8, 'mp_ass_subscript': 16}
BF = {'bf_getbuffer': 0, 'bf_releasebuffer': 8}
FLAGS = {1: 'VARARGS', 2: 'KEYWORDS', 4: 'NOARGS', 8: 'O', 16: 'CLASS', 32: 'STATIC', 128: 'FASTCALL'}


class ClassInfo:
    def __init__(self, **kw):
        self.__dict__.update(kw)


CLASSES = {
    'IntArrayList': ClassInfo(src='ints/IntArrayList.cpp', iter='ints/IntArrayListIter.cpp', kind='vec', es=4, isp=False, align=64),
    'BigIntArrayList': ClassInfo(src='ints/BigIntArrayList.cpp', iter='ints/BigIntArrayListIter.cpp', kind='vec', es=8, isp=False, align=64),
    'IntLinkedList': ClassInfo(src='ints/IntLinkedList.cpp', iter='ints/IntLinkedListIter.cpp', kind='list', es=4, isp=False, align=4),
    'ObjectArrayList': ClassInfo(src='objects/ObjectArrayList.cpp', iter='objects/ObjectArrayListIter.cpp', kind='vec', es=8, isp=True, align=16),
    'ObjectLinkedList': ClassInfo(src='objects/ObjectLinkedList.cpp', iter='objects/ObjectLinkedListIter.cpp', kind='list', es=8, isp=True, align=8),
}
for _n, _c in CLASSES.items():
    _c.name = _n
    w = _c.es * 8
    _c.lo, _c.hi = (1, None) if _c.isp else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def compile_ir(repo, src, outdir):
    """emit the IR of one real source file; returns path"""
    full = os.path.join(repo, 'pyfastutil/src', src)
    out = os.path.join(outdir, src.replace('/', '_') + '.ll')
    return compile_file(full, out, ['-I' + os.path.join(repo, 'pyfastutil/src'), '-I/usr/include/python3.12'])


def compile_file(full, out, inc):
    r = subprocess.run(CXX + list(inc) + [full, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('compile %s: %s' % (os.path.basename(full), r.stderr[-2000:]))
    return out


class Loader:
    def __init__(self, repo, outdir):
        self.repo, self.outdir = repo, outdir
        self.mods = {}
        os.makedirs(outdir, exist_ok=True)

    def mod(self, src):
        if src not in self.mods:
            p = compile_ir(self.repo, src, self.outdir)
            self.mods[src] = Module(open(p).read())
            self.mods[src].src = src
        return self.mods[src]


# ---- module initialisation: discover slots -----------------------------------------------------------
@api('PyModule_Create2', err_ok=True)
def _modcreate(ex, st, fr, a, name):
    return O(gid('module'))


@api('PyModule_AddObject', 'PyModule_AddObjectRef', err_ok=True)
def _addobj(ex, st, fr, a, name):
    ex.added = getattr(ex, 'added', [])
    ex.added.append((capi.cstr(ex, a[1]), a[2]))
    return 0


@api('PyModule_AddType', err_ok=True)
def _addtype(ex, st, fr, a, name):
    ex.added = getattr(ex, 'added', [])
    nm = ex.load(st, fr, PTR, P(a[1].b, 24))
    ex.added.append((capi.cstr(ex, nm), a[1]))
    return 0


@api('PyType_Ready', err_ok=True)
def _ready(ex, st, fr, a, name):
    return 0


class World:
    """one class (its translation unit plus the iterator's) ready for verification"""

    def __init__(self, loader, cname):
        self.ci = CLASSES[cname]
        self.cname = cname
        self.mod = loader.mod(self.ci.src)
        self.imod = loader.mod(self.ci.iter)
        self.prog = Program([self.mod, self.imod])
        self.con = Contracts()
        self.gmem = {}
        ex = Exec(self.prog, self.con)
        self.ops = {}
        self.types = {}
        for m, cn in ((self.mod, cname), (self.imod, cname + 'Iter')):
            st = State()
            st.m.update(self.gmem)
            f = m.funcs.get('PyInit_' + cn)
            if f is None:
                raise Unsupported('no PyInit_%s' % cn)
            ex.added = []
            outs = [o for o in ex.run(st, m, f, []) if o.kind == RET and o.st.g('err') is None]
            if not outs:
                raise Unsupported('module initialisation of %s' % cn)
            st = outs[0].st
            for nm, p in ex.added:
                if isinstance(p, P) and p.b.kind == 'global':
                    self.types[nm] = p.b
            self.gmem = {k: v for k, v in st.m.items() if k != 'G'}
            tb = self.types.get(cn)
            if tb is None:
                raise Unsupported('type of %s not registered' % cn)
            self.slots(ex, st, m, cn, tb)
        self.modoff = self.owner_off = self.lay = None
        self.nolay = ''
        try:
            self.layout()
        except (Unsupported, DeadPath, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
            self.lay, self.nolay = None, str(e)

    def slots(self, ex, st, m, cn, tb):
        fr = core.Frame(m, None)
        tab = {}

        def ld(p, off, ty=PTR):
            return ex.load(st, fr, ty, P(p.b, add(p.off, off)))
        for s, off in SLOTS.items():
            v = ld(P(tb, 0), off)
            if isinstance(v, FnP):
                tab[s] = (v, None)
        for base, names in ((104, SQ), (112, MP), (160, BF)):
            b = ld(P(tb, 0), base)
            if isinstance(b, P):
                for s, off in names.items():
                    v = ld(b, off)
                    if isinstance(v, FnP):
                        tab[s] = (v, None)
        mt = ld(P(tb, 0), 232)
        if isinstance(mt, P):
            i = 0
            while i < 4096:
                nm = ld(mt, 32 * i)
                if nm is NULL:
                    break
                tab[capi.cstr(ex, nm)] = (ld(mt, 32 * i + 8), ld(mt, 32 * i + 16, I32))
                i += 1
        self.ops[cn] = tab

    # ---- layout of the iterator object, read off what creating one stores
    def layout(self):
        made = {}
        for op in ('iter', '__reversed__'):
            e = self.ops[self.cname].get(op)
            if e is None:
                raise Unsupported('no ' + op)
            ex = Exec(self.prog, self.con)
            ex.world, ex.roots, ex.blocks = self, [], {}
            st = self.state()
            p = self.container(ex, st)
            st.assume(p.b.n0 >= 3)
            m, fn = self.prog.lookup(e[0].mod, e[0].name)
            outs = [o for o in ex.run(st, m, fn, [p] if op == 'iter' else [p, NULL]) if o.kind == RET and isinstance(o.val, P) and o.val.b.kind == 'iterobj']
            if len(outs) != 1:
                raise Unsupported('iterator creation has %d outcomes' % len(outs))
            s, d = outs[0].st, outs[0].st.m[outs[0].val.b.bid]
            f = {k: v for k, v in d.items() if isinstance(k, int) and k >= 16}
            own_ = [k for k, v in f.items() if isinstance(v, P) and v.b is p.b]
            its = [k for k, v in f.items() if isinstance(v, It)]
            want = 0 if op == 'iter' else T.sub(p.b.n0, 1)
            ints = {k: v for k, v in f.items() if k not in own_ and k not in its}
            if len(own_) != 1 or len(its) > 1 or any(isinstance(v, (P, O, FnP)) for v in ints.values()):
                raise Unsupported('iterator layout')
            mods = {k: o for k, v in ints.items() for o, x in s.m[p.b.bid].items() if isinstance(o, int) and o > 16 and not is_c(v) and T.same(v, x)}
            made[op] = dict(own=own_[0], it=its[0] if its else None, mods=mods, ints=ints, tname=outs[0].val.b.tname, typ=d[8],
                            idx=[k for k, v in ints.items() if k not in mods and ex.proves(s, T.eq(v, want))],
                            itok=not its or ex.proves(s, T.eq(f[its[0]].pos, want)))
        a, b = made['iter'], made['__reversed__']
        idx = [k for k in b['idx'] if k in a['idx']]
        if a['own'] != b['own'] or a['it'] != b['it'] or a['mods'] != b['mods'] or len(idx) != 1 or len(a['mods']) > 1 or set(a['ints']) != set(b['ints']) \
                or not (a['itok'] and b['itok']):
            raise Unsupported('iterator layout: %r / %r' % (a, b))
        cons = {}
        for k in a['ints']:
            if k != idx[0] and k not in a['mods']:
                if not (is_c(a['ints'][k]) and is_c(b['ints'][k])):
                    raise Unsupported('iterator field at %s' % k)
                cons[k] = (a['ints'][k], b['ints'][k])
        if (a['it'] is None) != (not a['mods']):
            raise Unsupported('cached position without a modification counter')
        self.owner_off = a['own']
        if a['mods']:
            (cm, self.modoff), = a['mods'].items()
        else:
            cm = None
        self.lay = dict(own=a['own'], it=a['it'], cm=cm, idx=idx[0], cons=cons, tname=a['tname'], typ=a['typ'])

    # ---- pre-states
    def state(self):
        st = State()
        st.m.update(self.gmem)
        return st

    def container(self, ex, st, name='self', ci=None, uninit=False):
        ci = ci or self.ci
        b = ex.mkobj_block('obj', name, cls=ci, typ=P(self.types[ci.name], 0))
        if uninit:
            # as tp_new leaves it: header set, the rest never constructed
            st.m[b.bid] = {0: z3.Int('rcnt!%d' % b.bid), 8: P(self.types[ci.name], 0)}
            b.uninit = True
            ex.roots.append(b)
            return P(b, 0)
        n = z3.Int('n!%s%d' % (name, b.bid))
        T.RANGE[n.decl().name()] = (0, stl.ADDR // ci.es if ci.kind == 'vec' else stl.ADDR // 32)
        st.assume(n >= 0)
        st.assume(n <= T.RANGE[n.decl().name()][1])
        seq = Base('a!%s%d' % (name, b.bid), ci.lo, ci.hi)
        d = {0: z3.Int('rcnt!%d' % b.bid), 8: P(self.types[ci.name], 0)}
        d[(16, 'len')] = n
        d[(16, 'cont')] = seq
        d[(16, 'et')] = (ci.es, ci.isp, ci.align)
        if ci.kind == 'vec':
            d[(16, 'gen')] = Gen()
        else:
            b.ver0 = d[(16, 'ver')] = Gen()
            if ci is self.ci and self.modoff is not None:
                # fewer than 2**62 structural changes
                m = z3.Int('modc!%d' % b.bid)
                T.RANGE[m.decl().name()] = (0, 2 ** 62)
                st.assume(And(m >= 0, m <= 2 ** 62))
                b.mod0 = d[self.modoff] = m
        st.m[b.bid] = d
        b.n0, b.seq0 = n, seq
        b.default = obj_default
        ex.roots.append(b)
        return P(b, 0)


def obj_default(ex, st, off, rt):
    """never-initialised / unmodelled field of a container object: an arbitrary but fixed value"""
    if rt.k == 'int':
        w = rt.a
        v = ex.fresh(st, 'field%s' % off, 0 if w == 8 else -(1 << (w - 1)), (1 if w == 8 else (1 << (w - 1)) - 1))
        return v
    raise Unsupported('field at offset %s' % off)


def container_iter(ex, st, p):
    d = st.m.get(p.b.bid)
    if d is None:
        ex.oblige(st, 'memory', False, 'use of a released container')
        raise DeadPath()
    ci = p.b.cls
    c, n = stl.cget(ex, st, (p.b.bid, 16), 'cont'), stl.cget(ex, st, (p.b.bid, 16), 'len')
    if ci.isp:
        return c, n, True
    return Fn(lambda k: pyint(Z(c.at(k)))), n, True


HOOKS['container_iter'] = container_iter
