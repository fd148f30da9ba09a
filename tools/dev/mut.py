"""mutation campaign over the container sources: mut.py CLASS COUNT [SEED] [FILE]
survivors (every obligation proved) are printed; they are either equivalent or a gap"""
import sys, os, re, random, subprocess, shutil, time, json, pickle
from multiprocessing import Pool
sys.path.insert(0, '/verif')
C, COUNT = sys.argv[1], int(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
W = int(os.environ.get('WORKERS', '5'))
BASE = '/tmp/mut/base'
from pfv import world, core, spec, ops
CI = world.CLASSES[C]
FILE = sys.argv[4] if len(sys.argv) > 4 else CI.src


def setup():
    shutil.rmtree(BASE, ignore_errors=True)
    os.makedirs(BASE)
    subprocess.run('git -C /repo archive HEAD pyfastutil/src | tar x -C ' + BASE, shell=True, check=True)


def scenarios(repo, want=None, stop=True):
    out = []
    L = world.Loader(repo, repo + '/ir')
    w = world.World(L, C)
    for op, l in spec.SPEC.items():
        for i, (f, p, ret, only, grp) in enumerate(l):
            if only and not only(w.ci):
                continue
            if want is not None and (op, i) not in want:
                continue
            tabs = w.ops[C] if op in w.ops[C] and not op.startswith('it_') else w.ops[C + 'Iter']
            e = tabs.get(op[3:] if op.startswith('it_') else op)
            if not e:
                if want is not None:
                    return [(op, i, 'failed', 'missing', {})]
                continue
            r = spec.run_scenario(w, C, op, e, f, p, ret)
            if r is None:
                continue
            bad = [o for o in r.obl if o.status != 'proved']
            st = 'failed' if any(o.status == 'failed' for o in bad) else 'weak' if bad or r.status != 'ok' else 'proved'
            out.append((op, i, st, (bad[0].msg[:80] if bad else r.why[:80]), set(x.split('(')[0] for x in r.fns)))
            if st == 'failed' and stop:
                return out
    return out


REL = [('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), (' < ', ' > '), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'),
       (' + 1', ''), (' - 1', ''), (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('--', '++'), ('+=', '-='), ('true', 'false'), ('false', 'true'),
       (' 0', ' 1'), (' 1', ' 0'), ('(0', '(1'), (' -1', ' 0'), ('return -1;', 'return 0;'), ('return nullptr;', 'Py_RETURN_NONE;'),
       ('.begin()', '.end()'), ('.end()', '.begin()'), ('push_back', 'push_front'), ('Py_None', 'Py_True'), (' : ', ' + 1 : '),
       ('size_t', 'int'), ('long long', 'int'), ('Py_ssize_t', 'int'), ('*', ''), ('!', ''), ('if (', 'if (!'), ('start', 'stop'), ('break;', 'continue;'),
       ('PyExc_IndexError', 'PyExc_ValueError'), ('PyExc_TypeError', 'PyExc_ValueError'), ('PyExc_ValueError', 'PyExc_TypeError'), ('Py_INCREF', 'Py_DECREF')]


def mutants(src):
    lines = src.split('\n')
    out = []
    fn = None
    for n, l in enumerate(lines):
        m = re.match(r'^(?:static|template|extern|inline|void|bool)[^;=]*?\b(\w+)\s*\([^;]*\{?$', l)
        if m:
            fn = m.group(1)
            continue
        if l.startswith('}'):
            fn = None
        t = l.strip()
        if fn is None or not t or t.startswith('//') or t.startswith('#') or t.startswith('*'):
            continue
        code = l.split('//')[0]
        for a, b in REL:
            for m in re.finditer(re.escape(a), code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                    continue
                out.append((n, fn, code[:m.start()] + b + code[m.end():], '%s -> %s' % (a, b)))
        if t.endswith(';') and not re.match(r'(return|auto|const|static|int |Py_ssize_t|size_t|long|bool|PyObject|break|continue|\}|case)', t):
            out.append((n, fn, re.match(r'\s*', l).group(0) + ';', 'delete'))
    return lines, out


def asm(repo, out):
    r = subprocess.run(['clang++-18', '-std=c++20', '-O2', '-fwrapv', '-fPIC', '-mavx512f', '-mavx512bw', '-mavx512dq', '-mavx512vl', '-w', '-S', '-g0',
                        '-I' + repo + '/pyfastutil/src', '-I/usr/include/python3.12', os.path.join(repo, 'pyfastutil/src', FILE), '-o', out], capture_output=True)
    return '\n'.join(l for l in open(out) if not l.lstrip().startswith(('.file', '.ident'))) if r.returncode == 0 else None


def one(a):
    k, (n, fn, new, what), lines, base, uses = a
    repo = '/tmp/mut/m%d_%d' % (os.getpid(), k)
    try:
        shutil.copytree(BASE, repo, ignore=shutil.ignore_patterns('unsafe', 'ir'))
        ls = list(lines)
        ls[n] = new
        open(os.path.join(repo, 'pyfastutil/src', FILE), 'w').write('\n'.join(ls))
        s = asm(repo, repo + '/a.s')
        if s is None:
            return k, 'nocompile', ''
        if s == base:
            return k, 'same', ''
        want = {(op, i) for (op, i), fns in uses.items() if any(f == fn or f.endswith('::' + fn) or f.split('<')[0].split(' ')[-1] == fn for f in fns)}
        if not want:
            want = None
        t0 = time.time()
        try:
            r = scenarios(repo, want)
        except Exception as e:
            return k, 'crash', repr(e)[:200]
        f = [x for x in r if x[2] == 'failed']
        wk = [x for x in r if x[2] == 'weak']
        return k, ('killed' if f else 'weak' if wk else 'SURVIVED'), '%d scen %.0fs %s' % (len(r), time.time() - t0, (f or wk or [('', '', '', '')])[0][:4])
    finally:
        shutil.rmtree(repo, ignore_errors=True)


if __name__ == '__main__':
    setup()
    cache = '/tmp/mut/uses_%s.pkl' % C
    if os.path.exists(cache):
        uses = pickle.load(open(cache, 'rb'))
    else:
        uses = {(op, i): fns for op, i, st, msg, fns in scenarios(BASE, None, False)}
        pickle.dump(uses, open(cache, 'wb'))
    base = asm(BASE, '/tmp/mut/base.s')
    lines, ms = mutants(open(os.path.join(BASE, 'pyfastutil/src', FILE)).read())
    random.Random(SEED).shuffle(ms)
    ms = ms[:COUNT]
    tot = {}
    with Pool(W, maxtasksperchild=1) as p:
        for k, st, info in p.imap_unordered(one, [(k, m, lines, base, uses) for k, m in enumerate(ms)]):
            tot[st] = tot.get(st, 0) + 1
            if st in ('SURVIVED', 'weak', 'crash'):
                n, fn, new, what = ms[k]
                print('%s %s:%d %s [%s] %s\n     - %s\n     + %s' % (st, FILE, n + 1, fn, what, info, lines[n].strip()[:150], new.strip()[:150]), flush=True)
    print(C, FILE, tot)
