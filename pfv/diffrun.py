"""Differential execution of the real code: builds the containers from /repo's current sources with AddressSanitizer
and runs operation histories next to Python lists (diff/worker.py). Used to replay failed obligations and as the
bounded stand-in for what is outside the verifier's reach."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PFV_REPO', '/repo')
PY = '/usr/bin/python3'
WRAPS = ('PyLong_FromLong PyLong_FromLongLong PyLong_FromSsize_t PyLong_FromSize_t PyLong_FromUnsignedLongLong PyList_New PyTuple_New PyObject_CallObject '
         '_PyObject_New PySequence_Tuple PySequence_List PySequence_Fast PySequence_Concat PySequence_GetItem PyObject_GetIter PyObject_Repr '
         'PyUnicode_FromString PyObject_LengthHint PySequence_Size PyObject_RichCompareBool PyErr_SetString PyErr_NoMemory PyErr_Occurred PyErr_Clear '
         '_Py_Dealloc PyIter_Next PyLong_AsLong PyLong_AsLongLong PyLong_AsSsize_t PyMem_Malloc PyMem_Realloc PyMem_Free PyEval_SaveThread '
         'PyEval_RestoreThread aligned_alloc free _Znwm _Znam _ZdlPv _ZdlPvm _ZdaPv').split()
MODULES = ('IntArrayList', 'IntArrayListIter', 'BigIntArrayList', 'BigIntArrayListIter', 'IntLinkedList', 'IntLinkedListIter',
           'ObjectArrayList', 'ObjectArrayListIter', 'ObjectLinkedList', 'ObjectLinkedListIter')
SKIP = ('SIMDLowAVX512.cpp', 'ASM.cpp', 'PyFastUtil.cpp', 'IntIntHashMap.cpp', 'Unsafe.cpp', 'SIMD.cpp')


def build(d, asan=True):
    """compile /repo's sources into d/pfvdiff.so; returns d"""
    src = os.path.join(REPO, 'pyfastutil', 'src')
    files = []
    for r, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(('.cpp', '.c')) and f not in SKIP:
                files.append(os.path.join(r, f))
    files.append(os.path.join(ROOT, 'diff', 'shim.cpp'))
    files.sort(key=lambda f: -os.path.getsize(f))
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    base = ['-O1', '-DNDEBUG', '-fPIC', '-w', '-fvisibility=hidden', '-mavx', '-mavx2', '-mavx512f', '-mavx512bw', '-mavx512dq', '-mavx512vl', '-fno-tree-vectorize',
            '-I', src, '-I/usr/include/python3.12'] + san
    env = dict(os.environ)

    def one(f):
        o = os.path.join(d, re.sub(r'\W', '_', os.path.relpath(f, '/')) + '.o')
        if f.endswith('.c'):
            cmd = ['gcc', '-std=gnu11'] + base
        else:
            cmd = ['g++', '-std=c++20', '-fpermissive'] + base
        if f.endswith('shim.cpp'):
            cmd.append('-DPFV_MODULES(X)=' + ' '.join('X(%s)' % m for m in MODULES))
        p = subprocess.run(cmd + ['-c', f, '-o', o], capture_output=True, text=True, env=env)
        if p.returncode:
            raise RuntimeError('cannot compile %s: %s' % (f, p.stderr[-1500:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    p = subprocess.run(['g++', '-shared', '-static-libstdc++', '-static-libgcc', '-Wl,-Bsymbolic', '-Wl,--exclude-libs,ALL', '-o', os.path.join(d, 'pfvdiff.so')] + objs + san + ['-Wl,--wrap=' + w for w in WRAPS], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('cannot link: ' + p.stderr[-1500:])
    return d


_ASAN = None


def env_for(d, asan=True):
    global _ASAN
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME', 'LD_PRELOAD')}
    e['PYTHONPATH'] = d
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    if asan:
        if _ASAN is None:
            _ASAN = ' '.join(subprocess.run(['gcc', '-print-file-name=' + x], capture_output=True, text=True).stdout.strip()
                             for x in ('libasan.so', 'libstdc++.so.6'))
        e['LD_PRELOAD'] = _ASAN
        e['ASAN_OPTIONS'] = ('detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=99:handle_abort=0:'
                             'max_allocation_size_mb=1024:quarantine_size_mb=16:print_summary=1:detect_container_overflow=0')
    return e


def classify(rc, err):
    if 'PFV-GIL' in err or 'PyThreadState_Get' in err or 'without the GIL' in err:
        return 'gil', err[-300:]
    if 'terminate called' in err:
        return 'exception', 'C++ exception escapes: ' + err[err.index('terminate called'):][:200]
    m = re.search(r'ERROR: AddressSanitizer: ([^\n]{0,160})', err)
    if m:
        s = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) ', err)[:6]
        return 'memory', 'AddressSanitizer: %s in %s' % (re.sub(r'0x[0-9a-f]+|==\d+==', '', m.group(1)), ' < '.join(s))
    return 'memory', 'the interpreter died (%s) %s' % (rc, err[-200:])


def run_history(d, h, timeout=60):
    """None or violation dict; every history runs in a process of its own"""
    with tempfile.NamedTemporaryFile('w', suffix='.json', dir=d, delete=False) as f:
        json.dump(h, f)
    at = 0
    try:
        try:
            p = subprocess.run([PY, '-S', os.path.join(ROOT, 'diff', 'worker.py'), 'run', f.name],
                               capture_output=True, text=True, errors='replace', timeout=timeout, env=env_for(d), cwd=d, preexec_fn=_limits)
        finally:
            try:
                at = int(open(f.name + '.at').read() or 0)
            except (OSError, ValueError):
                pass
    except subprocess.TimeoutExpired:
        return dict(kind='func', op=opname(h, at), at=at, msg='does not terminate')
    finally:
        os.unlink(f.name)
    if p.returncode == 0:
        return None
    if p.returncode == 1 and p.stdout.strip().startswith('{'):
        return json.loads(p.stdout.strip().splitlines()[-1])
    if p.returncode == 1 and 'Traceback' in p.stderr:
        return dict(kind='worker', op='?', at=-1, msg=p.stderr[-600:])
    k, m = classify(p.returncode, p.stderr)
    return dict(kind=k, op=opname(h, at), at=at, msg=m)


def opname(h, at):
    return 'init' if at <= 0 else h['ops'][at - 1][0] if at <= len(h['ops']) else 'release'


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def campaign(d, focus, seconds, seed, faults=0.3, jobs=8, max_hist=10 ** 9, hang=30):
    """random histories over focus = [(class, [ops]), ...]; -> (list of (history, violation), statistics)"""
    cfg = os.path.join(d, 'cfg.json')
    json.dump(dict(focus=focus, faults=faults, max=max_hist), open(cfg, 'w'))
    found, total, ops = [], 0, {}

    def job(j):
        log = os.path.join(d, 'log%d' % j)
        try:
            p = subprocess.run([PY, '-S', os.path.join(ROOT, 'diff', 'worker.py'), 'gen', str(seed * 1000 + j), str(seconds), cfg, log],
                               capture_output=True, text=True, errors='replace', timeout=seconds + hang, env=env_for(d), cwd=d, preexec_fn=_limits)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = -999, 'timeout'
        if rc == 0:
            return json.load(open(log)), None
        try:
            cur = json.load(open(log + '.cur'))
            at = int(open(log + '.at').read())
        except Exception:                        # noqa: BLE001
            cur, at = None, -1
        return None, (cur, rc, err, at)
    with ThreadPoolExecutor(jobs) as ex:
        for ok, crash in ex.map(job, range(jobs)):
            if ok:
                total += ok['histories']
                for k, v in ok['ops'].items():
                    ops[k] = ops.get(k, 0) + v
                found += [(f['history'], f['violation']) for f in ok['found']]
            elif crash[0] is not None:
                h = crash[0]
                at = crash[3]
                op = opname(h, at)
                if crash[1] == -999:
                    v = dict(kind='func', op=op, at=at, msg='does not terminate')
                elif crash[1] == 1 and 'Traceback' in crash[2]:
                    v = dict(kind='worker', op='?', at=-1, msg=crash[2][-800:])
                else:
                    k, m = classify(crash[1], crash[2])
                    v = dict(kind=k, op=op, at=at, msg=m)
                found.append((h, v))
            else:
                found.append((None, dict(kind='worker', op='?', at=-1, msg=crash[2][-800:])))
    return found, dict(histories=total, operations=ops)


def minimize(d, h, v, accept=lambda q: True, budget=40):
    """shorter history with an accepted violation; -> (history, violation) or None when it does not repeat"""
    if v['msg'] == 'does not terminate':
        h = dict(h, ops=h['ops'][:max(v['at'], 0)])
        r = run_history(d, h, timeout=20)
        return (h, r) if r and accept(r) else None

    def good(q):
        return q and q['kind'] == r['kind'] and accept(q)
    r = run_history(d, h)
    n = 1
    if r is None or r['kind'] == 'worker' or not accept(r):
        return None
    best = (h, r)
    # operations after the failing one are irrelevant
    if 0 <= r['at'] < len(h['ops']) and r['kind'] != 'leak':
        c = dict(h, ops=h['ops'][:r['at']])
        q = run_history(d, c)
        n += 1
        if good(q):
            best = (c, q)
    i = 0
    while i < len(best[0]['ops']) - (0 if best[1]['op'] in ('release', 'history') else 1) and n < budget:
        c = dict(best[0], ops=best[0]['ops'][:i] + best[0]['ops'][i + 1:])
        q = run_history(d, c)
        n += 1
        if good(q):
            best = (c, q)
        else:
            i += 1
    h = best[0]
    if h['init'][0] == 'iter' and h['init'][1][0] in ('list', 'tuple') and len(h['init'][1][1]) > 0:
        e = h['init'][1][1]
        for m in (0, 1, 2, 3, 5, 8, 16, 33, 64, 100, 128, 129):
            if m < len(e) and n < budget + 10:
                c = dict(h, init=[h['init'][0], [h['init'][1][0], e[:m]]] + h['init'][2:])
                q = run_history(d, c)
                n += 1
                if good(q) and q['op'] == best[1]['op']:
                    best = (c, q)
                    break
    return best


if __name__ == '__main__':
    # development: python3 -m pfv.diffrun SECONDS [CLASS[,..]] [op,..]
    secs = float(sys.argv[1])
    cl = sys.argv[2].split(',') if len(sys.argv) > 2 and sys.argv[2] != '-' else ['IntArrayList', 'BigIntArrayList', 'IntLinkedList', 'ObjectArrayList', 'ObjectLinkedList']
    sys.path.insert(0, os.path.join(ROOT, 'diff'))
    ops = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    if ops is None:
        ops = ['len', 'get', 'contains', 'count', 'index', 'badkey', 'append', 'insert', 'pop', 'remove', 'set', 'del', 'clear', 'slice', 'setslice', 'delslice', 'extend', 'iadd', 'add',
               'mul', 'rmul', 'rmulm', 'imul', 'init2', 'from_range', 'resize', 'copy', 'to_list', 'init', 'sort', 'reverse', 'cmp', 'iter', 'iternew', 'next', 'dropit', 'repr', 'hash', 'buffer']
    d = os.environ.get('PFV_DIFFDIR')
    import time
    t = time.time()
    if not d:
        d = tempfile.mkdtemp(prefix='pfvd')
        build(d)
        print('build %.1f s in %s' % (time.time() - t, d))
    f, st = campaign(d, [(c, ops) for c in cl], secs, int(os.environ.get('SEED', '1')), float(os.environ.get('FAULTS', '0.3')))
    print(st['histories'], 'histories')
    seen = {}
    for h, v in f:
        k = (h and h['cls'], v['kind'], v['op'], re.sub(r'\d+', 'N', v['msg'])[:60])
        seen.setdefault(k, (h, v, [0]))[2][0] += 1
    for k, (h, v, n) in seen.items():
        print('----', k, n[0])
        print('   ', v['msg'][:700])
        if h and v['kind'] != 'worker':
            m = minimize(d, h, v)
            if m:
                print('    MIN', json.dumps(m[0])[:700])
                print('       ', m[1])
            else:
                print('    not repeated', json.dumps(h)[:600])
        elif h:
            print('    H', json.dumps(h)[:500])
    if not os.environ.get('PFV_DIFFDIR') and not os.environ.get('KEEP'):
        shutil.rmtree(d)
