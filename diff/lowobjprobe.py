"""Native probes of the module objects: python3 lowobjprobe.py MODULE METHOD SEED COUNT [ONLY]"""
import importlib
import json
import os
import random
import sys

sys.path.insert(0, '.')


def say(d):
    os.write(3, (json.dumps(d) + '\n').encode())


class Bad(Exception):
    pass


class Mine(BaseException):
    pass


def probe(cls, name, r):
    u = cls()
    if name == '__enter__':
        n = sys.getrefcount(u)
        v = u.__enter__()
        if v is not u or sys.getrefcount(u) != n + 1:
            raise Bad('__enter__ returns %r, reference count %d instead of %d' % (v, sys.getrefcount(u), n + 1))
    elif name == '__exit__':
        e = r.choice((ValueError, KeyError, Mine, KeyboardInterrupt, SystemExit, StopIteration, MemoryError, None))
        if e is None:
            if u.__exit__(None, None, None) is not None:
                raise Bad('__exit__ returns a value')
            return
        for _ in range(2):
            x = e('x')
            try:
                with cls():
                    raise x
            except e as y:
                if y is not x:
                    raise Bad('another exception leaves the block')
            else:
                raise Bad('__exit__ swallowed %s' % e.__name__)
    else:
        args = [r.choice((b'\xc3', b'', 0, 'x', None, (), 1.5)) for _ in range(r.randrange(4))]
        before = [sys.getrefcount(a) for a in args]
        f = getattr(u, name)
        try:
            f(*args)
        except NotImplementedError:
            pass
        except Exception as e:                  # noqa: BLE001
            raise Bad('%s with %d arguments raises %r' % (name, len(args), e))
        else:
            raise Bad('%s returned' % name)
        if before != [sys.getrefcount(a) for a in args]:
            raise Bad('reference counts of the arguments changed')


def main():
    mod, name, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    only = int(sys.argv[5]) if len(sys.argv) > 5 else None
    cls = getattr(importlib.import_module(mod), mod)
    for i in range(count) if only is None else [only]:
        say(dict(probe=name, i=i))
        try:
            probe(cls, name, random.Random('%s %d %d' % (name, seed, i)))
        except (Bad, SystemError) as e:
            say(dict(probe=name, i=i, bad=str(e)))
            return 1
    return 0


sys.exit(main())
