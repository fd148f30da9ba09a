"""Native probes of the low-level modules: python3 lowprobe.py MODULE METHOD SEED COUNT [ONLY]
Every probe is announced on descriptor 3 before it runs; a disagreement is reported there as {"bad": ...}."""
import ctypes
import importlib
import json
import os
import random
import sys
import tempfile

libc = ctypes.CDLL(None)
for f in ('malloc', 'aligned_alloc', 'fopen', 'freopen'):
    getattr(libc, f).restype = ctypes.c_void_p
libc.free.argtypes = [ctypes.c_void_p]
libc.malloc.argtypes = [ctypes.c_size_t]
libc.aligned_alloc.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
libc.freopen.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p]
libc.malloc_usable_size.restype = ctypes.c_size_t
libc.malloc_usable_size.argtypes = [ctypes.c_void_p]
R = random.Random()

PENDING = ctypes.PyDLL(None).PyErr_Occurred


def say(d):
    os.write(3, (json.dumps(d) + '\n').encode())


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


class Buf:
    """malloc'ed memory with known bytes"""

    def __init__(self, n, align=16, data=None):
        self.n = n
        self.p = libc.aligned_alloc(align, max(align, (n + align - 1) // align * align)) if align > 16 else libc.malloc(max(n, 1))
        self.data = bytes(R.randrange(256) for _ in range(n)) if data is None else data
        ctypes.memmove(self.p, self.data, n)

    def now(self):
        return ctypes.string_at(self.p, self.n)

    def same(self, what='memory'):
        need(self.now() == self.data, '%s was changed' % what)

    def drop(self):
        libc.free(self.p)


def call(m, args, raises=False):
    """the result; refcounts of the arguments must come out unchanged"""
    before = [sys.getrefcount(a) for a in args]
    done = False
    try:
        r = m(*args)
        done = True
        PENDING()                               # raises an exception that the call left pending
        err = None
    except Exception as e:      # noqa: BLE001
        if done or isinstance(e, SystemError):
            raise Bad('the call breaks the error protocol: %r' % e) from None
        r, err = None, e
        err.__traceback__ = None
    if raises:
        need(err is not None, 'invalid arguments are accepted')
    elif raises is False:
        need(err is None, 'valid arguments are rejected: %r' % err)
    e = err
    del err
    after = [sys.getrefcount(a) for a in args]
    for a, x, y in zip(args, before, after):
        if a is not r and not isinstance(a, (bool, type(None))) and not (type(a) is int and -6 < a < 257) and not isinstance(a, type):
            need(x == y, 'the reference count of an argument went from %d to %d' % (x, y))
    return r if e is None else e


def size():
    return R.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 4096, 5000, R.randrange(9000)])


JUNK = ['x', None, 1.5, [], b'z', 2 ** 80, -2 ** 80]


# ---- Unsafe ---------------------------------------------------------------------------------------------------------
class Unsafe:
    def malloc(self, m):
        n = R.choice([size(), size(), 2 ** 50])
        yield n
        if n == 2 ** 50:
            call(m, [n], True)
            return
        p = call(m, [n])
        need(p > 0 and libc.malloc_usable_size(p) >= n, 'the block is too small')
        ctypes.memset(p, 1, n)
        libc.free(p)

    def calloc(self, m):
        a, b = R.choice([(size(), 1), (1, size()), (R.randrange(60), R.randrange(60)), (2 ** 33, 2 ** 33)])
        yield a, b
        if a == 2 ** 33:
            call(m, [a, b], True)
            return
        p = call(m, [a, b])
        need(libc.malloc_usable_size(p) >= a * b, 'the block is too small')
        need(ctypes.string_at(p, a * b) == bytes(a * b), 'the block is not zeroed')
        libc.free(p)

    def realloc(self, m):
        n, k = size(), R.choice([size() + 1, 2 ** 50])
        yield n, k
        b = Buf(n)
        if k == 2 ** 50:
            call(m, [b.p, k], True)
            b.same()
            b.drop()
            return
        p = call(m, [b.p, k])
        need(libc.malloc_usable_size(p) >= k, 'the block is too small')
        need(ctypes.string_at(p, min(n, k)) == b.data[:k], 'the bytes are not kept')
        libc.free(p)

    def free(self, m):
        n = size()
        yield n
        need(call(m, [libc.malloc(n)]) is None, 'result is not None')

    def aligned_malloc(self, m):
        a = R.choice([16, 32, 64, 128, 4096])
        n = a * R.randrange(1, 20)
        yield n, a
        p = call(m, [n, a])
        need(p % a == 0, 'the block is not aligned')
        need(libc.malloc_usable_size(p) >= n, 'the block is too small')
        ctypes.memset(p, 1, n)
        libc.free(p)

    def aligned_free(self, m):
        n = 64 * R.randrange(1, 20)
        yield n
        need(call(m, [libc.aligned_alloc(64, n)]) is None, 'result is not None')

    def get(self, m):
        n = size()
        yield n
        b = Buf(n)
        r = call(m, [b.p, n])
        need(type(r) is bytes and r == b.data, 'the bytes differ')
        need(sys.getrefcount(r) <= 3 or n < 2, 'the result has a stray reference')
        b.same()
        b.drop()

    def set(self, m):
        n = size()
        yield n
        b = Buf(n + 16)
        x = bytes(R.randrange(256) for _ in range(n))
        need(call(m, [b.p, x]) is None, 'result is not None')
        need(b.now() == x + b.data[n:], 'the bytes written differ')
        b.drop()

    def fun(self, rt, v):
        self.calls = 0

        def f():
            self.calls += 1
            return v
        self.keep = ctypes.CFUNCTYPE(rt)(f)
        return ctypes.cast(self.keep, ctypes.c_void_p).value

    def callVoid(self, m):
        yield 0
        need(call(m, [self.fun(None, None)]) is None, 'result is not None')
        need(self.calls == 1, 'called %d times' % self.calls)

    def callInt(self, m):
        v = R.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, R.randrange(-2 ** 31, 2 ** 31)])
        yield v
        need(call(m, [self.fun(ctypes.c_int, v)]) == v, 'wrong result')
        need(self.calls == 1, 'called %d times' % self.calls)

    def callLongLong(self, m):
        v = R.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, R.randrange(-2 ** 63, 2 ** 63)])
        yield v
        need(call(m, [self.fun(ctypes.c_longlong, v)]) == v, 'wrong result')
        need(self.calls == 1, 'called %d times' % self.calls)

    def call(self, m):
        n = R.choice([0, 1, 2, 4, 7, 8, 9, 16, 17, 64, 200, R.randrange(140), R.randrange(140), R.randrange(140), R.randrange(3000)])
        yield n
        b = Buf(n + 16)
        if n <= 8:
            v = R.randrange(-2 ** 63, 2 ** 63)
            f = self.fun(ctypes.c_longlong, v)
            want = (v % 2 ** 64).to_bytes(8, 'little')[:n]
        else:
            s = Buf(n)
            f, want = self.fun(ctypes.c_void_p, s.p), s.data
        need(call(m, [f, b.p, n]) is None, 'result is not None')
        need(self.calls == 1, 'called %d times' % self.calls)
        need(b.now() == want + b.data[n:], 'the bytes stored differ')
        b.drop()

    def get_address(self, m):
        yield 0
        o = object()
        need(call(m, [o]) == id(o), 'wrong address')

    def as_object(self, m):
        yield 0
        o = object()
        k = sys.getrefcount(o)
        r = call(m, [id(o)])
        need(r is o, 'wrong object')
        del r
        need(sys.getrefcount(o) == k, 'the reference count changed from %d to %d' % (k, sys.getrefcount(o)))

    def memcpy(self, m):
        n = size()
        yield n
        a, b = Buf(n), Buf(n + 16)
        need(call(m, [a.p, b.p, n]) is None, 'result is not None')
        need(b.now() == a.data + b.data[n:], 'the bytes differ')
        a.same('the source')
        a.drop()
        b.drop()

    def memset(self, m):
        n, v = size(), R.choice([0, 1, 127, 128, 255, R.randrange(256)])
        yield n, v
        b = Buf(n + 16)
        need(call(m, [b.p, v, n]) is None, 'result is not None')
        need(b.now() == bytes([v]) * n + b.data[n:], 'the bytes differ')
        b.drop()

    def incref(self, m):
        yield 0
        o = object()
        k = sys.getrefcount(o)
        need(m(o) is None, 'result is not None')
        need(sys.getrefcount(o) == k + 1, 'the count changed by %d' % (sys.getrefcount(o) - k))

    def decref(self, m):
        yield 0
        o = object()
        keep = [o] * 20
        k = sys.getrefcount(o)
        need(m(o) is None, 'result is not None')
        d = sys.getrefcount(o) - k
        ctypes.pythonapi.Py_IncRef(ctypes.py_object(o))
        need(d == -1, 'the count changed by %d' % d)
        del keep

    def refcnt(self, m):
        k = R.randrange(5)
        yield k
        o = object()
        keep = [o] * k
        need(abs(m(o) - sys.getrefcount(o)) <= 1, 'wrong count')
        del keep

    def fputs(self, m):
        s = ''.join(R.choice('abc\u00e9\u4e2d\n%s') for _ in range(R.randrange(20)))
        yield s
        with tempfile.TemporaryFile() as f:
            libc.fflush(None)
            old = os.dup(1)
            os.dup2(f.fileno(), 1)
            try:
                r = call(m, [s])
                libc.fflush(None)
            finally:
                os.dup2(old, 1)
                os.close(old)
            f.seek(0)
            got = f.read()
        need(got == s.encode(), 'wrote %r' % got)
        need(r is None, 'result is not None')

    def fflush(self, m):
        yield 0
        need(call(m, []) is None, 'result is not None')

    def fgets(self, m):
        text = R.choice(['', 'a\n', 'abc', 'line one\nline two\n', '\u00e9\u4e2d\n', 'x' * 50 + '\ny\n'])
        n = R.choice([1, 2, 3, 5, 10, 100, 1000])
        yield text, n
        with tempfile.NamedTemporaryFile() as f:
            f.write(text.encode())
            f.flush()
            stdin = ctypes.c_void_p.in_dll(libc, 'stdin')
            libc.freopen(f.name.encode(), b'r', stdin)
            data = text.encode()
            for _ in range(4):
                line = data[:data.index(b'\n') + 1] if b'\n' in data else data
                line = line[:n - 1]
                try:
                    want = line.decode()
                except UnicodeDecodeError:
                    break
                r = call(m, [n])
                need(r == want, 'returned %r instead of %r' % (r, want))
                data = data[len(line):]


ARITY = {'malloc': 1, 'calloc': 2, 'realloc': 2, 'free': 1, 'aligned_malloc': 2, 'aligned_free': 1, 'get': 2, 'set': 2, 'callVoid': 1, 'callInt': 1,
         'callLongLong': 1, 'call': 3, 'get_address': 1, 'as_object': 1, 'memcpy': 3, 'memset': 3, 'incref': 1, 'decref': 1, 'refcnt': 1, 'fputs': 1,
         'fflush': 0, 'fgets': 1}
# positions whose argument must be a number
NUMS = {'malloc': 1, 'calloc': 2, 'realloc': 2, 'free': 1, 'aligned_malloc': 2, 'aligned_free': 1, 'get': 2, 'set': 1, 'callVoid': 1, 'callInt': 1,
        'callLongLong': 1, 'call': 3, 'as_object': 1, 'memcpy': 3, 'memset': 3, 'fgets': 1}


# ---- SIMD -----------------------------------------------------------------------------------------------------------
SIZES = dict(Int=4, UnsignedInt=4, Long=8, UnsignedLong=8, LongLong=8, UnsignedLongLong=8, Short=2, UnsignedShort=2, Float=4, Double=8, LongDouble=16,
             Char=1, UnsignedChar=1, WChar=4, Char16=2, Char32=4, Bool=1, Int8=1, UInt8=1, Int16=2, UInt16=2, Int32=4, UInt32=4, Int64=8, UInt64=8,
             VoidPtr=8, IntPtr=8, FloatPtr=8, PyObjectPtr=8)


def simd_probe(m, name):
    if name.startswith(('memcpy', 'reverse')):
        rev = name.startswith('reverse')
        t = name[7 if rev else 6:]
        al = t.endswith('Aligned')
        es = SIZES[t[:-7] if al else t]
        k = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 191, 255, 256, 257, 500, 1000,
                      R.randrange(3000)])
        yield k
        data = bytes(R.randrange(2) for _ in range(k)) if 'Bool' in t else None
        a = Buf(k * es, 64 if al else 16, data)
        if rev:
            need(call(m, [a.p, k]) is None, 'result is not None')
            e = [a.data[i * es:(i + 1) * es] for i in range(k)]
            need(a.now() == b''.join(e[::-1]), 'the block is not reversed')
        else:
            b = Buf(k * es + 64, 64 if al else 16)
            need(call(m, [a.p, b.p, k]) is None, 'result is not None')
            need(b.now() == a.data + b.data[k * es:], 'the elements are not copied')
            a.same('the source')
            b.drop()
        a.drop()
    elif name.startswith('set'):
        tot = 64 if 'AVX512' in name else 32
        es = int(name.split('Vector')[1]) // 8
        if tot == 64 and not has('avx512bw') or tot == 32 and not has('avx2'):
            yield 'skipped'
            return
        hi = 1 << (8 * es - 1)
        xs = [R.choice([0, 1, -1, hi - 1, -hi, R.randrange(-hi, hi)]) for _ in range(tot // es)]
        bad = R.choice([None, None, R.randrange(len(xs))]) if es == 4 else None
        if bad is not None:
            xs[bad] = R.choice(['x', None, 2 ** 40])
        yield xs
        b = Buf(tot + 64, 64)
        r = call(m, [b.p] + xs, bad is not None)
        if bad is not None:
            b.same()
        else:
            need(r is None, 'result is not None')
            need(b.now() == b''.join(x.to_bytes(es, 'little', signed=True) for x in xs[::-1]) + b.data[tot:], 'the elements of the vector differ')
        b.drop()
    else:
        yield 0
        lv = int(os.environ.get('PFV_SIMD', '3'))
        want = {'isSSE41Supported': lv >= 1 and has('sse4_1'), 'isSSSE3Supported': lv >= 1 and has('ssse3'), 'isAVX2Supported': lv >= 2 and has('avx2'),
                'isAVX512Supported': lv >= 3 and all(map(has, ('avx512f', 'avx512bw', 'avx512vl', 'avx512dq'))), 'isArmNeonSupported': False}[name]
        need(call(m, []) is want, 'wrong answer')


FLAGS = None


def has(f):
    global FLAGS
    if FLAGS is None:
        FLAGS = set(open('/proc/cpuinfo').read().split('flags', 1)[-1].split('\n', 1)[0].split())
    return f in FLAGS


def simd_arity(n):
    if n.startswith('memcpy'):
        return 3, 3
    if n.startswith('reverse'):
        return 2, 2
    if n.startswith('set'):
        k = (64 if 'AVX512' in n else 32) * 8 // int(n.split('Vector')[1])
        return k + 1, 1
    return 0, 0


def main():
    mod, name, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    only = int(sys.argv[5]) if len(sys.argv) > 5 else None
    T = getattr(importlib.import_module(mod), mod)
    obj = T()
    m = getattr(obj, name, None)
    if m is None:
        say(dict(bad='the module has no method %s' % name, probe=[]))
        return
    ar, nums = (ARITY[name], NUMS.get(name, 0)) if mod == 'Unsafe' else simd_arity(name)
    U = Unsafe()
    for i in range(count):
        if only is not None and i != only:
            continue
        R.seed('%d/%d/%s' % (seed, i, name))
        what = None
        try:
            k = R.random()
            if k < 0.1:
                c = R.choice([x for x in (0, ar - 1, ar + 1, ar + 2) if 0 <= x != ar])
                what = ['%d arguments' % c]
                say(dict(i=i, probe=what))
                call(m, [1000 + j for j in range(c)], True)
            elif k < 0.2 and nums:
                j = R.randrange(nums)
                b = Buf(128)
                args = [b.p] * ar if name not in ('malloc', 'calloc', 'aligned_malloc', 'fgets') else [1] * ar
                if name.startswith('set') and mod == 'SIMD':
                    args[1:] = [0] * (ar - 1)
                elif ar > 1:
                    args[-1] = 1
                if name == 'set':
                    args[1] = b'q'
                if name.startswith('callV') or name.startswith('callI') or name.startswith('callL') or name == 'call':
                    args[0] = U.fun(ctypes.c_longlong, 0)
                args[j] = R.choice(JUNK[:5])
                what = [repr(x) if x != b.p else 'p' for x in args]
                say(dict(i=i, probe=what))
                call(m, args, True)
                b.same()
                if name not in ('free', 'aligned_free', 'realloc'):
                    b.drop()
            else:
                g = simd_probe(m, name) if mod == 'SIMD' else getattr(U, name)(m)
                what = next(g)
                say(dict(i=i, probe=what))
                for _ in g:
                    pass
        except (Bad, SystemError) as e:
            say(dict(bad=str(e), i=i, probe=what))
            return


main()
