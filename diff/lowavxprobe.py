"""Native probes of SIMDLowAVX512: python3 lowavxprobe.py SIMDLowAVX512 METHOD SEED COUNT [ONLY]
The method and its reference intrinsic (avxref.so, compiled with the same compiler) run on the same random operands."""
import ctypes
import importlib
import json
import os
import random
import re
import sys

sys.path.insert(0, '.')
HERE = os.path.dirname(os.path.abspath(__file__))
PROTO = json.load(open(os.path.join(HERE, '..', 'pfv', 'data', 'avx512.json')))
SIZE = {'__m512i': 64, '__m512': 64, '__m512d': 64, '__m256i': 32, '__m256': 32, '__m256d': 32, '__m128i': 16, '__m128': 16, '__m128d': 16,
        '__mmask8': 1, '__mmask16': 2, '__mmask32': 4, '__mmask64': 8, 'char': 1, 'unsigned char': 1, 'short': 2, 'int': 4, 'const int': 4,
        'unsigned int': 4, 'unsigned': 4, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'void': 0}
INTS = {'int': (4, True), 'const int': (4, True), 'short': (2, True), 'char': (1, True), 'long long': (8, True), 'unsigned': (4, False),
        'unsigned int': (4, False), 'unsigned long long': (8, False)}
FLT = {'__m512': 4, '__m256': 4, '__m128': 4, 'float': 4, '__m512d': 8, '__m256d': 8, '__m128d': 8, 'double': 8}

PENDING = ctypes.PyDLL(None).PyErr_Occurred


def say(d):
    os.write(3, (json.dumps(d) + '\n').encode())


class Bad(Exception):
    pass


class Buf:
    """memory of exactly n bytes, aligned to 64, in a guarded area"""

    def __init__(self, data):
        self.n = len(data)
        self.raw = ctypes.create_string_buffer(bytes([0xA5]) * (self.n + 256), self.n + 256)
        self.p = (ctypes.addressof(self.raw) + 64 + 63) // 64 * 64
        self.lo = self.p - ctypes.addressof(self.raw)
        ctypes.memmove(self.p, data, self.n)

    def now(self):
        return ctypes.string_at(self.p, self.n)

    def guard(self):
        b = self.raw.raw
        if set(b[:self.lo]) | set(b[self.lo + self.n:self.n + 256]) != {0xA5}:
            raise Bad('bytes beside an operand were changed')


def vals(r, t):
    n = SIZE[t]
    k = r.randrange(6)
    if t in FLT and k < 4:
        import struct
        w = FLT[t]
        c = 'f' if w == 4 else 'd'
        if k == 3:
            xs = [r.choice((0.0, -0.0, 1.0, -1.0, 2.5, 1e30, -1e-30, float('inf'), float('-inf'), float('nan'))) for _ in range(n // w)]
        else:
            xs = [r.uniform(-100, 100) if k else r.randrange(-20, 20) for _ in range(n // w)]
        return b''.join(struct.pack('<' + c, x) for x in xs)
    if k == 4 and n >= 16:
        return b''.join(r.choice((0, 1, 2, 3, -1, -2, 7, 31, 32, 63, 64)).to_bytes(8, 'little', signed=True) for _ in range(n // 8))
    return bytes(r.randrange(256) for _ in range(n))


def close(a, b, t):
    """equal bits, or both not-a-number"""
    if a == b:
        return True
    if t not in FLT:
        return False
    import struct
    w = FLT[t]
    c = '<%d%s' % (len(a) // w, 'f' if w == 4 else 'd')
    for i, (x, y) in enumerate(zip(struct.unpack(c, a), struct.unpack(c, b))):
        if a[i * w:i * w + w] != b[i * w:i * w + w] and not (x != x and y != y):
            return False
    return True


def low_part(c, t):
    """how many bytes of the result are defined"""
    if 'undefined' in c:
        return 0
    m = re.search(r'cast(?:ps|pd|si)(128|256)_(?:ps|pd|si)512$', c)
    return int(m[1]) // 8 if m else SIZE[t]


def call(f, args):
    before = [sys.getrefcount(x) for x in args]
    done = False
    try:
        r = f(*args)
        done = True
        PENDING()                               # raises an exception that the call left pending
        e = None
    except Exception as x:                      # noqa: BLE001
        if done or isinstance(x, SystemError):
            raise Bad('the call leaves an exception pending: %r' % x) from None
        r, e = None, x
    if [sys.getrefcount(x) for x in args] != before:
        raise Bad('reference counts of the arguments changed')
    return r, e


def big(r):
    return r.randrange(1 << 40, 1 << 41)


def probe(m, lib, name, r, i):
    c, ps, ret, how = PROTO[name]
    f = getattr(m, name)
    k = len(ps) + (ret != 'void')
    if i % 16 == 1 or how != 'ok':
        n = r.choice([x for x in range(0, 70) if x != k]) if how == 'ok' or i % 2 else k
        res, e = call(f, [big(r) for _ in range(n)] if n != k else [Buf(bytes(64)).p for _ in range(n)])
        want = TypeError if n != k and how != 'raises' else NotImplementedError
        if how == 'ok' and n == k:
            return
        if not isinstance(e, want):
            raise Bad('with %d arguments: %r instead of %s' % (n, e or res, want.__name__))
        return
    mine, theirs, bufs, mem = [], [], [], []
    out = None
    if ret != 'void':
        d = bytes(r.randrange(256) for _ in range(SIZE[ret]))
        out = (Buf(d), Buf(d))
        mine.append(out[0].p)
        theirs.append(out[1].p)
    # in-place operation: one operand of the result's size lies at the result address
    same = [j for j, t in enumerate(ps) if ret != 'void' and t not in INTS and t not in ('float', 'double') and '*' not in t and SIZE[t] == SIZE[ret]]
    alias = r.choice(same) if same and i % 3 == 0 else None
    for j, t in enumerate(ps):
        if j == alias:
            d = vals(r, t)
            ctypes.memmove(out[0].p, d, len(d))
            b = Buf(d)
            mine.append(out[0].p)
            theirs.append(b.p)
            continue
        if t in INTS:
            w, sg = INTS[t]
            lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if sg else (0, (1 << 8 * w) - 1)
            x = r.choice((lo, hi, 0, 1, r.randrange(0, 70) % (hi + 1), r.randint(lo, hi)))
            b = Buf((x % (1 << 8 * w)).to_bytes(w, 'little'))
            mine.append(x)
        elif t in ('float', 'double'):
            x = r.choice((0.0, -0.0, 1.5, -2.25, 1e30, r.uniform(-1e6, 1e6), 0.1))
            b = Buf(bytes((ctypes.c_float if t == 'float' else ctypes.c_double)(x)))
            mine.append(x)
        elif '*' in t:
            d = bytes(r.randrange(256) for _ in range(512))
            x, y = Buf(d), Buf(d)
            mem.append((x, y))
            a, b = Buf(x.p.to_bytes(8, 'little')), Buf(y.p.to_bytes(8, 'little'))
            bufs.append((a, a.now()))
            mine.append(a.p)
        else:
            d = vals(r, t)
            b, a = Buf(d), Buf(d)
            bufs.append((a, d))
            mine.append(a.p)
        bufs.append((b, b.now()))
        theirs.append(b.p)
    getattr(lib, 'refp_' + name)((ctypes.c_void_p * len(theirs))(*theirs))
    res, e = call(f, mine)
    if e is not None or res is not None:
        raise Bad('valid operands: %r' % (e or res,))
    for b, d in bufs:
        b.guard()
        if b.now() != d:
            raise Bad('an operand was changed')
    for x, y in mem:
        x.guard()
        if x.now() != y.now():
            raise Bad('memory after the call differs from that after %s' % c)
    if out:
        out[0].guard()
        n = low_part(c, ret)
        if not close(out[0].now()[:n], out[1].now()[:n], ret):
            raise Bad('the result differs from that of %s' % c)


def main():
    mod, name, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    only = int(sys.argv[5]) if len(sys.argv) > 5 else None
    if ' avx512f ' not in open('/proc/cpuinfo').read().replace('\n', ' '):
        return 0
    m = getattr(importlib.import_module(mod), mod)()
    lib = ctypes.CDLL(os.path.abspath('avxref.so'))
    for i in range(count) if only is None else [only]:
        r = random.Random('%s %d %d' % (name, seed, i))
        say(dict(probe=name, i=i))
        try:
            probe(m, lib, name, r, i)
        except (Bad, SystemError) as e:
            say(dict(probe=name, i=i, bad=str(e)))
            return 1
    return 0


sys.exit(main())
