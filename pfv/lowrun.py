"""Native probes of the low-level modules (diff/lowprobe.py): /repo's current sources, AddressSanitizer, ctypes as oracle.
Used to replay failed obligations and as the bounded stand-in of methods outside the verifier's reach."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import diffrun

ROOT = diffrun.ROOT
DEPS = {'Unsafe': ['unsafe/Unsafe.cpp'], 'SIMD': ['unsafe/SIMD.cpp'], 'SIMDLowAVX512': ['unsafe/SIMDLowAVX512.cpp'], 'ASM': ['unsafe/ASM.cpp']}
FLAGS = ['-mavx', '-mavx2', '-mavx512f', '-mavx512bw', '-mavx512dq', '-mavx512vl', '-fno-tree-vectorize']


def build(d, mods, methods=()):
    src = os.path.join(diffrun.REPO, 'pyfastutil', 'src')
    san = ['-fsanitize=address', '-fno-omit-frame-pointer']

    def one(mod):
        files = [os.path.join(src, f) for f in DEPS[mod]] + [os.path.join(ROOT, 'diff', 'lowflags.cpp')]
        cmd = ['g++', '-std=c++20', '-fpermissive', '-O1', '-DNDEBUG', '-fPIC', '-w', '-shared', '-ffp-contract=off'] + FLAGS + ['-I', src, '-I/usr/include/python3.12'] + san + files + ['-o', os.path.join(d, mod + '.so')]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('cannot compile %s: %s' % (mod, p.stderr[-1500:]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, mods))
    if 'SIMDLowAVX512' in mods:
        from . import lowavx
        methods = [x for x in methods if x in lowavx.PROTO]
        f = os.path.join(d, 'avxref.cpp')
        with open(f, 'w') as o:
            o.write(lowavx.ptr_source(methods or list(lowavx.PROTO)))
        p = subprocess.run(['g++', '-std=c++20', '-fpermissive', '-O1', '-fPIC', '-w', '-shared', '-ffp-contract=off'] + FLAGS + [f, '-o', os.path.join(d, 'avxref.so')],
                           capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('cannot compile the reference: ' + p.stderr[-1500:])


def probe(d, mod, name, seed, count, level=3, only=None, timeout=60):
    """one method; None or {probe, bad, ...}"""
    e = diffrun.env_for(d)
    e['PYTHONMALLOC'] = 'malloc'
    e['PFV_SIMD'] = str(level)
    r, w = os.pipe()

    def fd():
        if w != 3:
            os.dup2(w, 3)
        else:
            os.set_inheritable(3, True)
    script = 'lowobjprobe.py' if name.startswith('__') or mod == 'ASM' else 'lowavxprobe.py' if mod == 'SIMDLowAVX512' else 'lowprobe.py'
    cmd = [diffrun.PY, os.path.join(ROOT, 'diff', script), mod, name, str(seed), str(count)] + ([str(only)] if only is not None else [])
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True, preexec_fn=fd, close_fds=False, cwd=d)
    os.close(w)
    with ThreadPoolExecutor(1) as ex:
        fu = ex.submit(lambda: os.fdopen(r).read())
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            err = 'timeout'
        out = fu.result()
    lines = [json.loads(x) for x in out.splitlines() if x.startswith('{') and x.endswith('}')]
    last = lines[-1] if lines else {}
    n = sum(1 for x in lines if 'bad' not in x)
    res = dict(module=mod, method=name, seed=seed, level=level, probe=last.get('probe'), i=last.get('i'))
    if 'bad' in last:
        return dict(res, bad=last['bad']), n
    if p.returncode and err == 'timeout':
        return (dict(res, bad='the call does not return'), n) if lines else (None, n)
    if p.returncode and (p.returncode < 0 or p.returncode == 99 or 'AddressSanitizer' in err):
        m = re.search(r'ERROR: (AddressSanitizer[^\n]*)', err)
        return dict(res, bad=m.group(1)[:200] if m else 'killed by signal %d' % -p.returncode), n
    if p.returncode:
        raise RuntimeError('probe of %s.%s: %s' % (mod, name, err[-500:]))
    return None, n


def campaign(d, todo, seed, count):
    """todo: [(module, method)]; returns (violations that repeat, probes run)"""
    jobs = [(a, b, lv) for a, b in todo for lv in ((3, 2, 1, 0) if a == 'SIMD' and not b.startswith(('set', '__')) else (3,))]

    def one(j):
        a, b, lv = j
        try:
            v, n = probe(d, a, b, seed, count, lv)
        except RuntimeError:
            return None, 0
        if v and v['i'] is not None:
            w, _ = probe(d, a, b, seed, count, lv, only=v['i'])
            v = w or v
        return v, n
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, jobs))
    return [v for v, _ in rs if v], sum(n for _, n in rs)
