"""Runs operation histories on the containers built from /repo's current sources next to a Python list.

A history is plain data (JSON): {"cls", "init", "ops": [[name, args...], ...]}. run(h) returns None when the
container agreed with the list on every operation, else {"kind", "op", "msg"}.
Argument tokens: see val()."""
import gc
import json
import os
import random
import sys
import time

import pfvdiff as M

INTS = {'IntArrayList': 31, 'BigIntArrayList': 63, 'IntLinkedList': 31}
CLASSES = [c for c in ('IntArrayList', 'BigIntArrayList', 'IntLinkedList', 'ObjectArrayList', 'ObjectLinkedList') if hasattr(M, c)]
TYPES = {c: getattr(getattr(M, c), c) for c in CLASSES}
NONE_RC = sys.getrefcount(None)


class Boom(Exception):
    pass


class K:
    """element of the object lists: ordered and compared by key; key 'boom' raises"""
    __slots__ = ('key', 'n')

    def __init__(self, key, n):
        self.key, self.n = key, n

    def __eq__(self, o):
        if not isinstance(o, K):
            return NotImplemented
        if self.key == 'boom' or o.key == 'boom':
            raise Boom('eq')
        return self.key == o.key

    def __lt__(self, o):
        if not isinstance(o, K):
            return NotImplemented
        if self.key == 'boom' or o.key == 'boom':
            raise Boom('lt')
        return self.key < o.key

    def __le__(self, o):
        return self < o or self == o

    def __gt__(self, o):
        return o < self if isinstance(o, K) else NotImplemented

    def __ge__(self, o):
        return o <= self if isinstance(o, K) else NotImplemented

    __hash__ = None

    def __repr__(self):
        if self.key == 'boom':
            raise Boom('repr')
        return 'K(%s,%d)' % (self.key, self.n)


POOL = [K(i // 2, i) for i in range(10)] + [K('boom', 10)]


class Idx:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        if self.v is None:
            raise Boom('index')
        return self.v


class It:
    """iterator over vals; raises at position bad; hint: __length_hint__ ('boom' raises, None: none)"""

    def __init__(self, vals, bad=None, hint=None):
        self.vals, self.bad, self.i, self.hint = vals, bad, 0, hint

    def __iter__(self):
        return self

    def __next__(self):
        if self.bad is not None and self.i == self.bad:
            raise Boom('next')
        if self.i >= len(self.vals):
            raise StopIteration
        self.i += 1
        return self.vals[self.i - 1]

    def __length_hint__(self):
        if self.hint == 'boom':
            raise Boom('hint')
        return NotImplemented if self.hint is None else self.hint


class Seq:
    """sequence over vals; item bad raises, ln overrides the length ('boom' raises)"""

    def __init__(self, vals, bad=None, ln=None):
        self.vals, self.bad, self.ln = vals, bad, ln

    def __len__(self):
        if self.ln == 'boom':
            raise Boom('len')
        return len(self.vals) if self.ln is None else self.ln

    def __getitem__(self, i):
        if i == self.bad and i < len(self.vals):
            raise Boom('getitem')
        return self.vals[i]


class Bad:
    """neither a number nor iterable"""


BAD = Bad()
IDX = {}


def val(t):
    """element token -> object"""
    if isinstance(t, int):
        return t
    if isinstance(t, str):
        return t
    if t is None:
        return None
    if t[0] == 'k':
        return POOL[t[1]]
    if t[0] == 'idx':
        return IDX.setdefault(t[1], Idx(t[1]))
    if t[0] == 'bad':
        return BAD
    if t[0] == 'f':
        return float(t[1])
    raise ValueError(t)


def vals(l):
    return [val(x) for x in l]


class Fail(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


ANY = object()          # some exception, of any type (not SystemError)


class Run:
    def __init__(self, h):
        self.h = h
        self.cls = h['cls']
        self.T = TYPES[self.cls]
        self.bits = INTS.get(self.cls)
        self.c = self.m = None
        self.c2 = self.m2 = None
        self.its = []

    # --- arguments
    def arg(self, t, model):
        """container-argument token -> object (model: the oracle's side)"""
        k = t[0]
        if k == 'list':
            return vals(t[1])
        if k == 'tuple':
            return tuple(vals(t[1]))
        if k == 'it':
            return It(vals(t[1]), t[2], t[3])
        if k == 'gen':
            return (x for x in vals(t[1]))
        if k == 'seq':
            return Seq(vals(t[1]), t[2], t[3])
        if k == 'range':
            return range(*t[1])
        if k == 'self':
            return self.m if model else self.c
        if k == 'other':
            return self.m2 if model else self.c2
        if k == 'dict':
            return dict.fromkeys(t[1])
        return val(t)

    def conv(self, v):
        """what an int container stores for v (raises as the conversion does)"""
        if self.bits is None:
            return v
        if not hasattr(v, '__index__'):
            raise TypeError
        v = v.__index__()
        if not -2 ** 63 <= v < 2 ** 63:
            raise OverflowError
        return v

    def items(self, t):
        """(elements the iterable gives, exception it ends with)"""
        a = self.arg(t, True)
        out = []
        try:
            if self.bits is None:
                for x in a:
                    out.append(x)
            else:
                for x in a:
                    out.append(self.conv(x))
        except Exception as e:                   # noqa: BLE001
            return out, type(e)
        return out, None

    # --- one step
    def step(self, op):
        name, a = op[0], op[1:]
        if self.c2 is None and ['other'] in a or self.c2 is None and a and isinstance(a[0], list) and ['other'] in a[0]:
            if self.c is None:
                raise StopHistory
            return
        f = getattr(self, 'op_' + name)
        fault = None
        if a and isinstance(a[-1], dict):
            fault = a[-1]['fault']
            a = a[:-1]
        pre = list(self.m) if self.m is not None else None
        self.fault = fault
        self.fired = None
        self.allowed = None
        if fault is not None:
            # the oracle must not run when the operation failed: it is applied afterwards
            pass
        rc0 = sys.getrefcount(self.c) if self.c is not None else None
        f(*a)
        if self.c is not None and rc0 is not None and name not in ('iter', 'iternew', 'init', 'dropit', 'next', 'swap'):
            rc1 = sys.getrefcount(self.c)
            if rc1 != rc0:
                raise Fail('refcount', 'the container is referenced %+d times after the call' % (rc1 - rc0))
        self.content(name)
        return pre

    def call(self, fn, *args):
        """-> (True, result) | (False, exception type)"""
        if self.fault is not None:
            M.arm(self.fault)
        else:
            M.arm(-1)
        try:
            r = fn(*args)
            ok = True
        except SystemError as e:
            M.disarm()
            raise Fail('errproto', 'SystemError: %s' % str(e)[:200]) from None
        except BaseException as e:               # noqa: BLE001
            ok, r = False, type(e)
            e.__traceback__ = None
            del e
        try:
            fired, n, gil = M.disarm()
        except BaseException as e:               # noqa: BLE001
            raise Fail('errproto', 'exception pending after the operation (%s)' % type(e).__name__) from None
        self.fired = fired
        if gil:
            raise Fail('gil', '%s without holding the GIL' % gil)
        return ok, r

    def expect(self, got, want, fresh=False, post=None):
        """got: (ok, value) of the container; want: ('ok', value) | ('err', type or ANY); post(): apply the effect to the model"""
        ok, v = got
        if self.fired is not None and not ok:
            if v not in (MemoryError, RuntimeError) and not (want[0] == 'err'):
                raise Fail('errproto', '%s when %s fails' % (v.__name__, self.fired))
            return False
        if want[0] == 'err':
            if ok:
                raise Fail('func', 'returned %s instead of raising %s' % (short(v), 'an exception' if want[1] is ANY else want[1].__name__))
            if want[1] is not ANY and not issubclass(v, want[1]):
                raise Fail('func', 'raised %s instead of %s' % (v.__name__, want[1].__name__))
            return False
        if not ok:
            raise Fail('func', 'raised %s instead of returning %s' % (v.__name__, short(want[1])))
        if fresh:
            self.fresh(v)
        if want[1] is not ANY and not same(v, want[1]):
            raise Fail('func', 'returned %s instead of %s' % (short(v), short(want[1])))
        if post:
            post()
        return True

    FRESH = None

    def fresh(self, v):
        """v was just created by the call: referenced once, its fresh elements once"""
        n = sys.getrefcount(v)
        if Run.FRESH is None:
            Run.FRESH = n
            return
        if n != Run.FRESH and not (type(v) is int and (-6 < v < 257)):
            raise Fail('refcount', 'the result is referenced %+d times' % (n - Run.FRESH))
        if type(v) is list and self.bits:
            for i in range(len(v)):
                n = sys.getrefcount(v[i])
                if not -6 < v[i] < 257 and n != 2:
                    raise Fail('refcount', 'element %d of the result is referenced %d times' % (i, n - 1))

    def content(self, name):
        if self.c is None:
            return
        for c, m in ((self.c, self.m), (self.c2, self.m2)):
            if c is None:
                continue
            got = snap(c)
            if not same(got, m):
                raise Fail('func', 'content is %s instead of %s' % (short(got), short(m)))

    def resync(self, okset):
        """after a failed operation: the content must be one of the allowed ones"""
        got = snap(self.c)
        for w in okset:
            if same(got, w):
                self.m[:] = got
                return
        raise Fail('func', 'content after the failure is %s instead of %s' % (short(got), short(okset[0])))

    # --- operations
    def mk(self, init, second=False):
        kind = init[0]
        if kind == 'none':
            want, args = ('ok', []), ()
        elif kind == 'size':
            want, args = ('ok', []), (init[1],)
            if init[1] > 2 ** 24:
                want = ('err', ANY)
            if 'Linked' in self.cls:
                want = ('err', ANY)
        else:
            t = init[1]
            it, err = self.items(t)
            if t[0] == 'seq' and t[3] is not None:
                it, err = self.items(['seq', t[1], t[2], None])
            args = (self.arg(t, False),) + ((init[2],) if len(init) > 2 else ())
            want = ('err', ANY) if err else ('ok', it)
            if len(init) > 2 and ('Linked' in self.cls or init[2] > 2 ** 24):
                want = ('err', ANY)
        argrefs = refs(args)
        ok, v = self.call(self.T, *args)
        if self.fired is not None and not ok:
            v = None
        elif want[0] == 'err':
            if ok:
                raise Fail('func', 'constructor accepted its arguments')
            v = None
        elif not ok:
            raise Fail('func', 'constructor raised %s' % v.__name__)
        for i, n in enumerate(refs(args)):
            if args[i] is not self.c and args[i] is not self.c2 and n != argrefs[i] and not isinstance(args[i], int):
                raise Fail('refcount', 'the argument of the constructor is referenced %+d times after the call' % (n - argrefs[i]))
        return v, (list(want[1]) if v is not None else None)

    def op_init(self, init):
        r = self.mk(init)
        if r[0] is None:
            if self.c is None:
                raise StopHistory
            return
        self.its.clear()
        self.c, self.m = r

    def op_init2(self, init):
        r = self.mk(init)
        if r[0] is not None:
            self.c2, self.m2 = r

    def op_swap(self):
        if self.c2 is not None:
            self.c, self.m, self.c2, self.m2 = self.c2, self.m2, self.c, self.m

    def oracle(self, fn, *args):
        try:
            return ('ok', fn(*args))
        except Exception as e:                   # noqa: BLE001
            return ('err', type(e))

    def op_len(self):
        self.expect(self.call(len, self.c), ('ok', len(self.m)))
        self.expect(self.call(bool, self.c), ('ok', bool(self.m)))

    def op_get(self, i):
        i = val(i)
        self.expect(self.call(lambda: self.c[i]), self.oracle(lambda: self.m[i]), fresh=self.bits)

    def op_slice(self, a, b, s):
        k = slice(val(a), val(b), val(s))
        self.expect(self.call(lambda: self.c[k]), self.oracle(lambda: self.m[k]), fresh=True)

    def op_badkey(self, which):
        k = 'x' if which != 3 else 1.5
        if which == 0:
            self.expect(self.call(lambda: self.c[k]), ('err', TypeError))
        elif which == 1:
            self.expect(self.call(self.c.__setitem__, k, 1), ('err', TypeError))
        else:
            self.expect(self.call(self.c.__delitem__, k), ('err', TypeError))

    def op_contains(self, v):
        v = val(v)
        if self.bits and isinstance(v, int) and not -2 ** 63 <= v < 2 ** 63:
            want = ('err', ANY)
        elif self.bits and not isinstance(v, int):
            want = ('ok', False)
        else:
            want = self.oracle(lambda: v in self.m)
        self.expect(self.call(lambda: v in self.c), want)

    def op_count(self, v):
        v = val(v)
        want = self.oracle(lambda: self.m.count(self.conv(v)))
        self.expect(self.call(self.c.count, v), want)

    def op_index(self, v, *r):
        v = val(v)
        r = [val(x) for x in r]
        want = self.oracle(lambda: self.m.index(self.conv(v), *r))
        if want[0] == 'err' and want[1] not in (ValueError, Boom):
            want = ('err', ANY)
        if want == ('err', Boom):       # also raised by list.index's message
            want = ('err', ANY)
        self.expect(self.call(self.c.index, v, *r), want)

    def atomic(self, got, want, effect, fresh=False, alt=()):
        """effect() changes the model when the operation succeeded; otherwise the content must be as before (or in alt)"""
        pre = list(self.m)
        if self.expect(got, want, fresh=fresh):
            effect()
        else:
            self.resync([pre] + list(alt))

    def op_append(self, v):
        v = val(v)
        w = self.oracle(self.conv, v)
        self.atomic(self.call(self.c.append, v), ('ok', None) if w[0] == 'ok' else ('err', w[1] if w[1] is Boom else ANY), lambda: self.m.append(w[1]))

    def op_insert(self, i, v):
        v, i = val(v), val(i)
        w = self.oracle(self.conv, v)
        if w[0] == 'ok':
            w2 = self.oracle(lambda: list(self.m).insert(i, w[1]))
            if w2[0] == 'err':
                w = ('err', ANY)
        self.atomic(self.call(self.c.insert, i, v), ('ok', None) if w[0] == 'ok' else ('err', ANY), lambda: self.m.insert(i, w[1]))

    def op_pop(self, *i):
        i = [val(x) for x in i]
        mm = list(self.m)
        w = self.oracle(mm.pop, *i)
        if w[0] == 'err' and not self.m and w[1] is not IndexError:
            w = ('err', ANY)
        if w[0] == 'err' and w[1] in (OverflowError, IndexError) and i and isinstance(i[0], int) and not -2 ** 63 <= i[0] < 2 ** 63:
            w = ('err', ANY)

        def eff():
            self.m[:] = mm
        # an allocation failure may come after the removal: the element is then lost, as documented in DESIGN.md
        self.atomic(self.call(self.c.pop, *i), w, eff, fresh=self.bits, alt=[mm] if self.fault is not None else ())

    def op_remove(self, v):
        v = val(v)
        mm = list(self.m)
        w = self.oracle(lambda: mm.remove(self.conv(v)))
        if w[0] == 'err' and w[1] not in (ValueError, Boom):
            w = ('err', ANY)

        def eff():
            self.m[:] = mm
        self.atomic(self.call(self.c.remove, v), w, eff)

    def op_set(self, i, v):
        i, v = val(i), val(v)
        mm = list(self.m)

        def ora():
            mm[i]
            mm[i] = self.conv(v)
        w = self.oracle(ora)
        if w[0] == 'err' and w[1] in (TypeError, OverflowError):
            w = ('err', ANY)

        def eff():
            self.m[:] = mm
        self.atomic(self.call(self.c.__setitem__, i, v), w, eff)

    def op_del(self, i):
        i = val(i)
        mm = list(self.m)
        w = self.oracle(mm.__delitem__, i)

        def eff():
            self.m[:] = mm
        self.atomic(self.call(self.c.__delitem__, i), w, eff)

    def op_setslice(self, a, b, s, t):
        k = slice(val(a), val(b), val(s))
        mm = list(self.m)
        x = self.arg(t, False)
        rc = sys.getrefcount(x)
        if val(s) == 0:
            w = ('err', ValueError)
        elif val(s) not in (None, 1):
            w = ('err', NotImplementedError)
        elif t[0] not in ('list', 'tuple', 'seq', 'range', 'self', 'other'):
            w = ('err', TypeError)
        elif t[0] == 'seq' and t[3] is not None:
            w = ('err', Boom if t[3] == 'boom' else ANY)
            if t[3] != 'boom' and self.bits is None:
                w = None
        else:
            it, e = self.items(t)
            w = ('err', e if e is Boom else ANY) if e else ('ok', None)

            def apply():
                mm[k] = it
            if w[0] == 'ok':
                w = self.oracle(apply)
        if w is None:
            return

        def eff():
            self.m[:] = mm
        self.atomic(self.call(self.c.__setitem__, k, x), w, eff)
        if x is not self.c and x is not self.c2 and sys.getrefcount(x) != rc:
            raise Fail('refcount', 'the assigned sequence is referenced %+d times after the call' % (sys.getrefcount(x) - rc))

    def op_delslice(self, a, b, s):
        k = slice(val(a), val(b), val(s))
        mm = list(self.m)
        w = self.oracle(mm.__delitem__, k)
        if val(s) not in (None, 1, 0):
            w = ('err', NotImplementedError)

        def eff():
            self.m[:] = mm
        self.atomic(self.call(self.c.__delitem__, k), w, eff)

    def op_clear(self):
        self.atomic(self.call(self.c.clear), ('ok', None), lambda: self.m.clear())

    def op_extend(self, t, how='extend'):
        x = self.arg(t, False)
        rc = sys.getrefcount(x)
        it, e = self.items(t)
        it = list(it)
        if t[0] == 'it' and t[3] == 'boom' and 'Array' in self.cls:
            it, e = [], Boom
        if t[0] == 'it' and isinstance(t[3], int) and 'Array' in self.cls and (t[3] < 0 or t[3] > 2 ** 24):
            it, e = [], ANY
        if t[0] == 'seq' and t[3] is not None:
            it, e = self.items(['seq', t[1], t[2], None])
            if t[3] == 'boom' and 'Array' in self.cls:
                it, e = [], Boom
            elif 'Array' in self.cls:
                it, e = (it, e) if t[3] >= 0 else ([], ANY)
        pre = list(self.m)
        if how == 'extend':
            got = self.call(self.c.extend, x)
        else:
            c = self.c

            def iadd():
                y = c
                y += x
                return y is c
            got = self.call(iadd)
            del c
        if e is None:
            w = ('ok', None if how == 'extend' else True)
        elif e is TypeError or e is ANY or e is OverflowError:
            w = ('err', ANY)
        else:
            w = ('err', e)
        if self.expect(got, w):
            self.m.extend(it)
        else:
            self.resync([pre + it] if self.fired is None and e is not None and self.h.get('strict') else
                        [pre + it[:n] for n in range(len(it), -1, -1)])
        if x is not self.c and x is not self.c2 and not isinstance(x, int) and sys.getrefcount(x) != rc:
            raise Fail('refcount', 'the iterable is referenced %+d times after the call' % (sys.getrefcount(x) - rc))

    def op_iadd(self, t):
        self.op_extend(t, 'iadd')

    def op_add(self, t):
        x = self.arg(t, False)
        rc = sys.getrefcount(x)
        if t[0] in ('self', 'other'):
            w = ('ok', self.m + self.arg(t, True))
        elif t[0] == 'list':
            w = ('ok', self.m + self.arg(t, True))
        else:
            w = ('err', ANY)
        got = self.call(lambda: self.c + x)
        if got[0] and w[0] == 'ok':
            want_t = self.T if t[0] in ('self', 'other') else list
            if type(got[1]) is not want_t:
                raise Fail('func', 'the sum is a %s' % type(got[1]).__name__)
            if got[1] is self.c or got[1] is x:
                raise Fail('func', 'the sum is not a new object')
            if want_t is not list:
                s = snap(got[1])
                if self.fired is None or True:
                    got = (True, s)
        self.expect(got, w)
        del got
        if x is not self.c and x is not self.c2 and not isinstance(x, int) and sys.getrefcount(x) != rc:
            raise Fail('refcount', 'the operand is referenced %+d times after the call' % (sys.getrefcount(x) - rc))

    def op_mul(self, n, how='mul'):
        n = val(n)
        if isinstance(n, int) and 20000 < len(self.m) * n < 2 ** 40:
            return
        w = self.oracle(lambda: ('v', self.m * n) if (not isinstance(n, int) or len(self.m) * n < 2 ** 20) else int('x'))
        if w[0] == 'ok' and w[1][0] == 'v':
            w = ('ok', w[1][1])
        else:
            w = ('err', ANY)
        if how == 'mul':
            got = self.call(lambda: self.c * n)
        elif how == 'rmul':
            got = self.call(lambda: n * self.c)
        else:
            got = self.call(self.c.__rmul__, n)
        if got[0] and w[0] == 'ok':
            if type(got[1]) is not self.T or got[1] is self.c:
                raise Fail('func', 'the product is %s' % ('the operand' if got[1] is self.c else 'a ' + type(got[1]).__name__))
            got = (True, snap(got[1]))
        self.expect(got, w)

    def op_rmul(self, n):
        self.op_mul(n, 'rmul')

    def op_rmulm(self, n):
        self.op_mul(n, 'rmulm')

    def op_imul(self, n):
        n = val(n)
        if isinstance(n, int) and 20000 < len(self.m) * n < 2 ** 40:
            return
        w = self.oracle(lambda: ('v', self.m * n) if (not isinstance(n, int) or len(self.m) * n < 2 ** 20) else int('x'))
        res = w[1][1] if w[0] == 'ok' and w[1][0] == 'v' else None
        c = self.c

        def imul():
            y = c
            y *= n
            return y is c
        got = self.call(imul)
        del c, imul

        def eff():
            self.m[:] = res
        self.atomic(got, ('ok', True) if res is not None else ('err', ANY), eff)

    def op_copy(self):
        got = self.call(self.c.copy)
        if got[0]:
            if type(got[1]) is not self.T or got[1] is self.c:
                raise Fail('func', 'copy() gives %s' % ('the same object' if got[1] is self.c else type(got[1]).__name__))
            self.expect((True, snap(got[1])), ('ok', self.m))
            # the copy is independent
            if self.m and self.fired is None:
                got[1].pop()
        else:
            self.expect(got, ('ok', self.m))

    def op_to_list(self):
        self.expect(self.call(self.c.to_list), ('ok', self.m), fresh=True)

    def op_from_range(self, *a):
        a = [val(x) for x in a]
        w = self.oracle(lambda: list(range(*a)) if len(range(*a)) < 2 ** 20 else int('x'))
        got = self.call(self.T.from_range, *a)
        if got[0]:
            if type(got[1]) is not self.T:
                raise Fail('func', 'from_range gives a %s' % type(got[1]).__name__)
            got = (True, snap(got[1]))
        self.expect(got, w if w[0] == 'ok' else ('err', ANY))

    def op_resize(self, n):
        n = val(n)
        if isinstance(n, bool) or not isinstance(n, int):
            w = ('err', TypeError)
        elif n < 0:
            w = ('err', ValueError if n >= -2 ** 63 else ANY)
        elif n > 2 ** 24:
            w = ('err', ANY)
        else:
            w = ('ok', None)
        mm = (self.m[:n] + [0 if self.bits else None] * (n - len(self.m))) if w[0] == 'ok' else None

        def eff():
            self.m[:] = mm
        self.atomic(self.call(self.c.resize, n), w, eff)

    def op_reverse(self):
        self.atomic(self.call(self.c.reverse), ('ok', None), lambda: self.m.reverse())

    KEYS = {'neg': lambda x: -x, 'mod': lambda x: x % 3, 'const': lambda x: 0, 'boom3': None, 'id': lambda x: x, 'str': str,
            'kkey': lambda x: x.key if isinstance(x, K) else x, 'rkey': lambda x: -x.key if isinstance(x, K) else 0}

    def op_sort(self, key, rev, bad=None, nkw=False):
        if key == 'boom':
            def kf(x, n=[0]):
                n[0] += 1
                if n[0] > bad:
                    raise Boom('key')
                return 0

            def kf2(x, n=[0]):
                n[0] += 1
                if n[0] > bad:
                    raise Boom('key')
                return 0
        elif key == 'clear':
            c = self.c

            def kf(x):
                c.clear()
                return 0
            kf2 = None
        else:
            kf = kf2 = self.KEYS[key] if key else None
        kw = {}
        if key or nkw:
            kw['key'] = kf
        if rev is not None:
            kw['reverse'] = rev
        mm = list(self.m)
        if key == 'clear':
            w = None            # the content afterwards is free, ValueError or not
        else:
            w = self.oracle(lambda: mm.sort(key=kf2, reverse=bool(rev)))
        got = self.call(lambda: self.c.sort(**kw))
        if key == 'clear':
            c = None
            kf = None
            kw.clear()
        pre = list(self.m)
        if w is None:
            if not got[0] and self.fired is None and got[1] is not ValueError:
                raise Fail('func', 'raised %s' % got[1].__name__)
            self.m[:] = snap(self.c)
        elif self.expect(got, w if w[0] == 'ok' else ('err', w[1])):
            self.m[:] = mm
        else:
            g = snap(self.c)
            if sorted(map(rank, g)) != sorted(map(rank, pre)):
                raise Fail('func', 'after the failed sort the content %s is no permutation of %s' % (short(g), short(pre)))
            self.m[:] = g

    def op_cmp(self, o, t):
        x = self.arg(t, False)
        import operator as O
        f = getattr(O, o)
        xm = self.arg(t, True)
        rc = sys.getrefcount(x)
        if t[0] not in ('list', 'tuple', 'seq', 'range', 'self', 'other'):
            w = ('ok', o == 'ne')
        elif t[0] == 'seq' and (t[2] is not None or t[3] is not None):
            w = ('err', ANY) if t[3] is not None else None
            if t[3] is not None and t[3] != 'boom':
                w = None
        else:
            xm = list(xm)
            if self.bits and any(isinstance(v, int) and not -2 ** 63 <= v < 2 ** 63 for v in xm):
                w = None
            elif self.bits and any(not isinstance(v, int) for v in xm):
                if o in ('eq', 'ne'):
                    w = ('ok', o == 'ne')       # differs in length or has an element that is no int
                else:
                    w = None
            else:
                w = self.oracle(lambda: f(self.m, xm))
        got = self.call(f, self.c, x)
        if w is not None and not (w[0] == 'err'):
            self.expect(got, w)
        elif w is not None:
            if got[0] and self.bits is None and w[1] is Boom and self.oracle(lambda: [a == b for a, b in zip(self.m, xm)])[0] == 'err':
                pass
            else:
                self.expect(got, ('err', ANY))
        if x is not self.c and x is not self.c2 and not isinstance(x, int) and sys.getrefcount(x) != rc:
            raise Fail('refcount', 'the operand is referenced %+d times after the call' % (sys.getrefcount(x) - rc))

    def op_repr(self):
        self.expect(self.call(repr, self.c), self.oracle(repr, self.m))
        self.expect(self.call(str, self.c), self.oracle(repr, self.m))

    def op_hash(self):
        self.expect(self.call(hash, self.c), ('err', TypeError))

    def op_buffer(self):
        if not self.bits or 'Linked' in self.cls:
            return
        mv = memoryview(self.c)
        got = (mv.format, mv.itemsize, mv.ndim, mv.nbytes, list(mv.tolist()), mv.readonly)
        want = ('i' if self.bits == 31 else 'q', 4 if self.bits == 31 else 8, 1, len(self.m) * (4 if self.bits == 31 else 8), self.m, False)
        mv.release()
        if got != want:
            raise Fail('func', 'buffer %s instead of %s' % (short(got), short(want)))

    def op_iter(self, rev, n):
        """a whole or partial iteration"""
        f = reversed if rev else iter
        ok, it = self.call(f, self.c)
        if not ok:
            self.expect((ok, it), ('ok', ANY))
            return
        mi = f(self.m)
        for _ in range(n):
            w = self.oracle(next, mi)
            if not self.expect(self.call(next, it), w if w[0] == 'ok' else ('err', StopIteration), fresh=self.bits) and self.fired:
                break

    def op_iternew(self, rev):
        if len(self.its) < 3:
            f = reversed if rev else iter
            ok, it = self.call(f, self.c)
            if ok:
                if iter(it) is not it:
                    raise Fail('func', 'iter(iterator) is another object')
                self.its.append((it, f(self.m)))

    def op_next(self, k, n):
        if not self.its:
            return
        it, mi = self.its[k % len(self.its)]
        for _ in range(n):
            w = self.oracle(next, mi)
            got = self.call(next, it)
            if self.fired is not None and not got[0]:
                self.its.pop(k % len(self.its))      # the oracle is ahead now
                return
            self.expect(got, w if w[0] == 'ok' else ('err', StopIteration), fresh=self.bits)

    def op_dropit(self, k):
        if self.its:
            self.its.pop(k % len(self.its))


class StopHistory(Exception):
    pass


def refs(l):
    return [sys.getrefcount(l[i]) for i in range(len(l))]


def rank(x):
    return (type(x).__name__, x.n if isinstance(x, K) else x if isinstance(x, (int, str)) else 0)


def snap(c):
    return [c[i] for i in range(len(c))]


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, K) or isinstance(b, K):
        return a is b
    return type(a) is type(b) and a == b


def short(v):
    try:
        s = repr(v)
    except Exception:                            # noqa: BLE001
        s = '<%s>' % type(v).__name__
    return s if len(s) < 160 else s[:120] + '...(%d)' % len(v) if hasattr(v, '__len__') else s[:160]


def pool_refs():
    return [sys.getrefcount(x) for x in POOL]


def run(h, progress=None):
    """None or dict(kind, op, msg, at)"""
    r = Run(h)
    base = pool_refs()
    blocks = M.live()
    at = -1
    op = None
    try:
        try:
            for at, op in enumerate([['init', h['init']]] + h['ops']):
                if progress:
                    progress(at)
                r.step(op)
                occ = {}
                lists = [r.m, r.m2]
                for m in lists:
                    if m is not None and r.bits is None:
                        for x in m:
                            if isinstance(x, K):
                                occ[x.n] = occ.get(x.n, 0) + 2
                for x, b in zip(POOL, base):
                    n = sys.getrefcount(x) - 1 - b + 1
                    if n - 1 != occ.get(x.n, 0):
                        raise Fail('refcount', 'element %r has %+d references too many after the call' % (x.n, n - 1 - occ.get(x.n, 0)))
                x = None
                if sys.getrefcount(None) != NONE_RC:
                    raise Fail('refcount', 'the reference count of None changed')
        except StopHistory:
            pass
        if progress:
            progress(len(h['ops']) + 1)
        r.its.clear()
        x = m = None
        lists = None
        r.c = r.m = r.c2 = r.m2 = None
        at += 1
        op = ['release']
        if pool_refs() != base:
            gc.collect()
            if pool_refs() != base:
                raise Fail('refcount', 'elements keep references after the containers are gone')
        if M.live() != blocks:
            raise Fail('leak', '%d memory blocks are left after the containers are gone' % (M.live() - blocks))
    except Fail as f:
        return dict(kind=f.kind, op=op[0], at=at, msg=f.msg)
    return None


def leaks(h):
    """Python-level leak: allocated blocks grow with every repetition"""
    try:
        for _ in range(3):
            run(h)
        for n in (40, 400):
            gc.collect()
            a = sys.getallocatedblocks()
            for _ in range(n):
                run(h)
            gc.collect()
            d = sys.getallocatedblocks() - a
            if d < n:
                return None
        return dict(kind='leak', op='history', at=len(h['ops']), msg='%d objects leak per execution' % (d // n))
    except RecursionError:
        pass
    return None


# ------------------------------------------------------------------ generation

SCAL = {'query': ['len', 'get', 'contains', 'count', 'index', 'badkey'],
        'mutate': ['append', 'insert', 'pop', 'remove', 'set', 'del', 'clear', 'badkey'],
        'slice': ['slice', 'setslice', 'delslice', 'badkey'],
        'bulk': ['extend', 'iadd', 'add', 'mul', 'rmul', 'rmulm', 'imul'],
        'build': ['init2', 'from_range', 'resize', 'copy', 'to_list', 'init'],
        'sort': ['sort'], 'reverse': ['reverse'],
        'compare': ['cmp'],
        'iter': ['iter', 'iternew', 'next', 'dropit'],
        'repr': ['repr', 'hash'], 'buffer': ['buffer']}
ALLOPS = sorted({o for l in SCAL.values() for o in l})
SETUP = ['append', 'insert', 'pop', 'extend', 'iadd', 'imul', 'clear', 'del', 'setslice', 'delslice', 'iternew', 'next', 'set', 'remove', 'reverse', 'resize']


class Gen:
    def __init__(self, rng, cls, ops, faults):
        self.r, self.cls, self.ops, self.faults = rng, cls, ops, faults
        self.bits = INTS.get(cls)
        self.small = rng.random() < 0.7

    def elem(self, bad=0.04):
        r = self.r
        p = r.random()
        if self.bits:
            if p < bad:
                return r.choice(['x', ['bad'], None, 2 ** 63, -2 ** 63 - 1, ['f', 1.5], ['idx', None], 10 ** 30])
            if p < 0.5 or self.small:
                return r.randrange(-3, 6)
            lim = 2 ** self.bits
            if p < 0.6:
                return r.choice([lim - 1, -lim, lim - 2, -lim + 1, 0, -1, 255, 256, 257, -5, -6, 2 ** 30, 2 ** 30 - 1, -2 ** 30, 2 ** 15])
            if p < 0.65 and bad:
                return ['idx', r.randrange(-3, 6)]
            return r.randrange(-lim, lim)
        if p < 0.7:
            return ['k', r.randrange(10)]
        if p < 0.7 + bad:
            return ['k', 10]
        return r.choice([0, 1, 2, None, 'a', 'b', 1000, 10 ** 20])

    def elems(self, bad=0.02, homogeneous=False):
        r = self.r
        p = r.random()
        n = 0 if p < 0.1 else r.randrange(1, 9) if p < 0.85 else r.randrange(9, 70) if p < 0.97 else r.choice([64, 128, 129, 255, 300, 1024, 1031])
        if homogeneous and self.bits is None:
            return [['k', r.randrange(10)] for _ in range(n)]
        if n > 70:
            return [self.elem(0) for _ in range(n)]
        return [self.elem(bad) for _ in range(n)]

    def index(self, obj=True):
        r = self.r
        p = r.random() if obj else r.random() * 0.93
        if p < 0.7:
            return r.randrange(-10, 12)
        if p < 0.8:
            return r.choice([0, -1, 1])
        if p < 0.9:
            return r.choice([2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63, 2 ** 32 + 1, -2 ** 32 - 1, 2 ** 63 - 2])
        if p < 0.93:
            return r.choice([2 ** 63, -2 ** 63 - 1, 10 ** 30])
        if p < 0.97:
            return ['idx', r.randrange(-9, 9)]
        return r.choice(['x', ['bad'], ['idx', None], ['f', 1.0]])

    def sidx(self):
        r = self.r
        p = r.random()
        if p < 0.25:
            return None
        if p < 0.85:
            return r.randrange(-9, 11)
        return r.choice([2 ** 63 - 1, -2 ** 63, 2 ** 70, -2 ** 70, ['idx', 2], 100, -100])

    def sstep(self):
        r = self.r
        p = r.random()
        if p < 0.4:
            return None
        if p < 0.6:
            return 1
        if p < 0.9:
            return r.choice([2, 3, -1, -2, -3, 5, 0])
        return r.choice([2 ** 63 - 1, -2 ** 63, 2 ** 62, -2 ** 63 + 1])

    def arg(self, rep=False):
        r = self.r
        k = r.choice(['list', 'list', 'tuple', 'it', 'gen', 'seq', 'self', 'other', 'other', 'range', 'dict', 'bad', 'it', 'seq'])
        if k in ('list', 'tuple', 'gen'):
            return [k, self.elems()]
        if k == 'it':
            e = self.elems()
            return [k, e, r.choice([None, None, None, r.randrange(0, len(e) + 1)]), r.choice([None, None, len(e), 0, 100, 'boom', -1, 2 ** 40, 3])]
        if k == 'seq':
            e = self.elems()
            return [k, e, r.choice([None, None, None, r.randrange(0, len(e) + 1)]), r.choice([None, None, None, 'boom'])]
        if k == 'range':
            return [k, [r.randrange(-4, 5), r.randrange(-2, 9), r.choice([1, 2, -1])]]
        if k == 'dict':
            return [k, [r.randrange(5) for _ in range(3)]] if self.bits else ['bad']
        if k == 'bad':
            return r.choice([['bad'], 5, None]) if False else ['bad']
        return [k]

    def init(self):
        r = self.r
        p = r.random()
        if p < 0.08:
            return ['none']
        if p < 0.12:
            return ['size', r.choice([0, 1, 5, 100, -1])]
        if p < 0.2:
            return ['iter', self.arg() if r.random() < 0.5 else ['list', self.elems()]] + ([r.choice([0, 3, 50, -2])] if r.random() < 0.5 and 'Array' in self.cls else [])
        return ['iter', [r.choice(['list', 'list', 'tuple', 'gen']), self.elems(0)]]

    def op(self, name):
        r = self.r
        if name in ('len', 'clear', 'copy', 'to_list', 'reverse', 'repr', 'hash', 'buffer'):
            return [name]
        if name in ('get', 'del'):
            return [name, self.index()]
        if name == 'slice' or name == 'delslice':
            return [name, self.sidx(), self.sidx(), self.sstep()]
        if name == 'setslice':
            return [name, self.sidx(), self.sidx(), r.choice([None, 1, None, 1, self.sstep()]), self.arg()]
        if name in ('contains', 'count', 'append', 'remove'):
            return [name, self.elem(0.08)]
        if name == 'index':
            n = r.randrange(3)
            g = lambda: r.choice([r.randrange(-10, 12), r.randrange(-10, 12), 2 ** 63 - 1, -2 ** 63, ['idx', 1]])    # noqa: E731
            return [name, self.elem(0.06)] + [g() for _ in range(n)]
        if name == 'insert':
            return [name, self.index(), self.elem(0.06)]
        if name == 'pop':
            return [name] if r.random() < 0.4 else [name, self.index(False)]
        if name == 'set':
            return [name, self.index(), self.elem(0.06)]
        if name in ('extend', 'iadd', 'add'):
            return [name, self.arg()]
        if name in ('mul', 'rmul', 'rmulm', 'imul'):
            return [name, r.choice([0, 1, 2, 3, 4, 5, 7, -1, r.randrange(0, 9), 2 ** 61, 2 ** 62 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 'x', ['idx', 2], 33])]
        if name == 'init2':
            i = self.init()
            return [name, i]
        if name == 'init':
            return [name, r.choice([['iter', self.arg()], ['size', r.choice([3, 2 ** 40, 2 ** 62, 2 ** 63, 0, -5])], ['iter', ['list', self.elems(0.1)], r.choice([1, 2 ** 61, -1])],
                                   ['iter', self.arg()]])]
        if name == 'from_range':
            n = r.randrange(1, 4)
            v = lambda: r.choice([r.randrange(-20, 20), r.randrange(-20, 20), r.randrange(-300, 300)])             # noqa: E731
            a = [v() for _ in range(n)]
            if n == 3:
                a[2] = r.choice([1, 2, 3, -1, -2, -3, 7, -7, 0, 100, -100, 2 ** 63 - 1, -2 ** 63, 2 ** 62, 13])
            if r.random() < 0.15:
                lim = 2 ** self.bits
                s = r.choice([1, 2, 3, 5, 1000]) * r.choice([1, -1])
                e = lim - 1 if s > 0 else -lim
                a = [e - s * r.randrange(0, 5), e + (r.choice([0, 1 if s > 0 else -1]) if self.bits == 31 else 0), s]
                if r.random() < 0.4 and self.bits == 31:       # the last value fits, stop lies far behind it
                    f = r.choice([2 ** 20, 2 ** 31, 2 ** 40, 2 ** 62])
                    q = r.randrange(-50, 50)
                    a = [q, q + f * r.choice([1, -1]), 0]
                    a[2] = (a[1] - q) // r.choice([1, 2, 3]) or 1
                    if not -2 ** 31 <= range(*a)[-1] < 2 ** 31:
                        a[2] = a[1] - q
            if r.random() < 0.05 and self.bits == 63:
                a = [-2 ** 63, 2 ** 63 - 1, r.choice([2 ** 62, 2 ** 63 - 1, 2 ** 61, 2 ** 60 + 1])]
                if r.random() < 0.5:
                    a = [a[1], a[0], -a[2]]
            return [name] + a
        if name == 'resize':
            return [name, r.choice([0, 1, 2, 3, 5, 8, 13, 40, -1, 'x', 2 ** 40, 2 ** 62, 2 ** 63, -2 ** 63, ['f', 1.0], 5, 3])]
        if name == 'sort':
            if self.bits:
                k = r.choice([None, None, None, 'neg', 'mod', 'const', 'id', 'boom', 'clear'])
            else:
                k = r.choice([None, 'kkey', 'kkey', 'const', 'boom', 'clear', 'rkey'])
            return [name, k, r.choice([None, None, 0, 1, 1, 2, -1, True, False])] + ([r.randrange(0, 6)] if k == 'boom' else [None]) + [r.random() < 0.3]
        if name == 'cmp':
            o = r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'])
            t = self.arg()
            return [name, o, t]
        if name == 'iter':
            return [name, r.randrange(2), r.choice([3, 12, 12, 80])]
        if name == 'iternew':
            return [name, r.randrange(2)]
        if name == 'next':
            return [name, r.randrange(3), r.randrange(1, 5)]
        if name == 'dropit':
            return [name, r.randrange(3)]
        if name == 'badkey':
            return [name, r.randrange(4)]
        raise ValueError(name)

    def applies(self, n):
        if n == 'from_range':
            return bool(self.bits)
        if n == 'resize':
            return 'Array' in self.cls
        if n == 'buffer':
            return bool(self.bits) and 'Array' in self.cls
        return True

    def history(self):
        r = self.r
        homog = self.bits is None and any(o in ('sort', 'cmp') for o in self.ops) and r.random() < 0.7
        init = ['iter', ['list', self.elems(0, homogeneous=True)]] if homog else self.init()
        if 'sort' in self.ops and r.random() < 0.03:
            n = r.choice([5000, 5001, 6000])
            init = ['iter', ['list', [r.randrange(0, 50) if self.bits else ['k', r.randrange(10)] for _ in range(n)]]]
        elif 'reverse' in self.ops and r.random() < 0.3:
            n = r.randrange(0, 400)
            init = ['iter', ['list', [(i if self.bits else ['k', r.randrange(10)]) for i in range(n)]]]
        ops = []
        if r.random() < 0.5:
            ops.append(['init2', ['iter', ['list', self.elems(0, homogeneous=homog)]]])
        n = r.randrange(1, 8)
        focus = [o for o in self.ops if self.applies(o)]
        setup = [o for o in SETUP if self.applies(o)]
        pre = None
        for _ in range(n):
            if homog and r.random() < 0.5:
                nm = r.choice(focus)
            else:
                nm = r.choice(focus) if r.random() < 0.6 or not setup else r.choice(setup)
            o = self.op(nm)
            if nm == 'cmp' and r.random() < 0.5:
                # an operand close to the content
                e = init[1][1] if init[0] == 'iter' and init[1][0] in ('list', 'tuple', 'gen') else []
                if e and len(e) < 40 and not ops:
                    e = list(e)
                    q = r.random()
                    if q < 0.3:
                        e[r.randrange(len(e))] = self.elem(0.05)
                    elif q < 0.5:
                        e = e[:r.randrange(len(e) + 1)]
                    elif q < 0.6:
                        e.append(self.elem(0))
                    o[2] = [r.choice(['list', 'tuple', 'seq']), e]
                    if o[2][0] == 'seq':
                        o[2] += [None, None]
            if self.faults and r.random() < 0.4 and nm not in ('buffer', 'badkey', 'iternew', 'dropit', 'next', 'hash', 'init2'):
                o.append({'fault': r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8])})
            ops.append(o)
            if pre:
                pass
        return dict(cls=self.cls, init=init, ops=ops)


def calibrate(classes, at=lambda h, k: None):
    """caches that the first calls fill; a call that kills the worker is a finding like any other"""
    r = Run(dict(cls='IntArrayList'))
    r.fault = None
    r.expect(r.call([10 ** 20].copy), ('ok', ANY), fresh=True)
    for c in classes:
        t = TYPES.get(c)
        if t is None:
            continue
        h = dict(cls=c, init=['iter', ['list', [1]]], ops=[['repr'], ['index', 7]] + ([['resize', 2 ** 62]] if 'Array' in c else []))
        at(h, 0)
        t([1])
        at(h, 1)
        for k, o in enumerate((lambda: repr(t([1])), lambda: t([1]).index(7), lambda: t([1]).resize(2 ** 62))):
            at(h, k + 1)
            try:
                o()
            except Exception:                    # noqa: BLE001
                pass
        at(h, 0)


def main():
    mode = sys.argv[1]
    if mode == 'run':
        h = json.load(open(sys.argv[2]))
        h = h.get('history', h)
        fd = os.open(sys.argv[2] + '.at', os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        calibrate([h['cls']], lambda q, k: os.pwrite(fd, b'%9d' % k, 0))
        v = run(h, lambda at: os.pwrite(fd, b'%9d' % at, 0)) or (leaks(h) if h.get('leak') else None)
        if v:
            print(json.dumps(v))
            sys.exit(1)
        sys.exit(0)
    # gen SEED SECONDS CONFIG LOG
    seed, secs, cfg, log = int(sys.argv[2]), float(sys.argv[3]), json.load(open(sys.argv[4])), sys.argv[5]
    rng = random.Random(seed)
    t0 = time.time()
    n = 0
    fd = os.open(log + '.cur', os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    fd2 = os.open(log + '.at', os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    found = []
    stats = {}
    sys.setrecursionlimit(2000)

    def put(h):
        s = json.dumps(h).encode()
        os.ftruncate(fd, 0)
        os.pwrite(fd, s, 0)
        return s
    calibrate(sorted({c for c, _ in cfg['focus']}), lambda h, k: (put(h), os.pwrite(fd2, b'%9d' % k, 0)))
    while time.time() - t0 < secs and len(found) < 8 and n < cfg.get('max', 10 ** 9):
        cls, ops = rng.choice(cfg['focus'])
        if cls not in TYPES:
            break
        g = Gen(rng, cls, ops, rng.random() < cfg.get('faults', 0.3))
        h = g.history()
        s = put(h)
        v = run(h, lambda at: os.pwrite(fd2, b'%9d' % at, 0))
        n += 1
        for o in h['ops']:
            stats[o[0]] = stats.get(o[0], 0) + 1
        if v is None and n % 40 == 0 and len(s) < 3000:
            v = leaks(h)
            if v:
                h['leak'] = True
        if v:
            found.append(dict(history=h, violation=v))
    os.ftruncate(fd, 0)
    json.dump(dict(histories=n, found=found, ops=stats), open(log, 'w'))


if __name__ == '__main__':
    main()
