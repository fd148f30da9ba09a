"""mutation campaign over the low-level modules: mut2.py FILE COUNT [SEED]  (FILE below pyfastutil/src)"""
import sys, os
FILE, COUNT = sys.argv[1], int(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
sys.argv = ['mut.py', 'IntArrayList', str(COUNT), str(SEED), FILE]
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools/dev')
import mut, shutil, random, time, pickle, re
from multiprocessing import Pool
from pfv import world, units, raw, unsafe, simdmod, lowobj, core, check
mut.BASE = '/tmp/mut/base2'
# header files belong to the source that includes them
IR = {'utils/include/LowAVX512.h': 'x'}


def todo():
    return [(i, u) for i, u in enumerate(units.UNITS)]


def scen(repo, want=None, stop=True):
    L = world.Loader(repo, repo + '/ir')
    out = []
    for i, u in todo():
        if want is not None and not any(k[0] == i for k in want):
            continue
        if u.rx is None:
            if want is None and u.src not in SRCS:
                continue
            r = raw.run_method(L, u, 120)
            out.append(pack((i, None), r))
        else:
            if want is None and u.src not in SRCS:
                continue
            m = L.mod(u.src)
            names = re.findall(r'^define [^@]*@("?[\w$.]+"?)\(', open(world.compile_ir(repo, u.src, repo + '/ir')).read(), re.M)
            for n in names:
                if u.rx.match(core.demangle(n)) and (want is None or (i, n) in want):
                    out.append(pack((i, n), units.run_unit(L, u, n, 120)))
        if stop and out and out[-1][2] == 'failed':
            return out
    return out


def pack(key, r):
    bad = [o for o in r.obl if o.status != 'proved']
    st = 'failed' if any(o.status == 'failed' for o in bad) else 'weak' if bad or r.status != 'ok' else 'proved'
    return (key, 0, st, (bad[0].msg[:80] if bad else r.why[:80]), set(x.split('(')[0] for x in r.fns))


SRCS = {u.src for u in units.UNITS} if FILE.endswith('.h') else {FILE}
if FILE == 'utils/PythonUtils.h':
    SRCS = {'unsafe/Unsafe.cpp'} & {u.src for u in units.UNITS} or SRCS


def one(a):
    k, (n, fn, new, what), lines, base, uses = a
    repo = '/tmp/mut/n%d_%d' % (os.getpid(), k)
    try:
        shutil.copytree(mut.BASE, repo, ignore=shutil.ignore_patterns('ir'))
        ls = list(lines)
        ls[n] = new
        open(os.path.join(repo, 'pyfastutil/src', FILE), 'w').write('\n'.join(ls))
        if FILE.endswith('.cpp'):
            s = mut.asm(repo, repo + '/a.s')
            if s is None:
                return k, 'nocompile', ''
            if s == base:
                return k, 'same', ''
        want = {key for key, fns in uses.items() if any(f == fn or f.endswith('::' + fn) or f.split('<')[0].split(' ')[-1] == fn for f in fns)}
        t0 = time.time()
        try:
            r = scen(repo, want or None)
        except Exception as e:
            return k, 'crash', repr(e)[:200]
        f = [x for x in r if x[2] == 'failed']
        wk = [x for x in r if x[2] == 'weak']
        return k, ('killed' if f else 'weak' if wk else 'SURVIVED'), '%d scen %.0fs %s' % (len(r), time.time() - t0, (f or wk or [('', '', '', '')])[0][:4])
    finally:
        shutil.rmtree(repo, ignore_errors=True)


if __name__ == '__main__':
    import subprocess
    shutil.rmtree(mut.BASE, ignore_errors=True)
    os.makedirs(mut.BASE)
    subprocess.run('git -C /repo archive HEAD pyfastutil/src | tar x -C ' + mut.BASE, shell=True, check=True)
    uses = {x[0]: x[4] for x in scen(mut.BASE, None, False)}
    base = mut.asm(mut.BASE, '/tmp/mut/base2.s') if FILE.endswith('.cpp') else None
    lines, ms = mut.mutants(open(os.path.join(mut.BASE, 'pyfastutil/src', FILE)).read())
    random.Random(SEED).shuffle(ms)
    ms = ms[:COUNT]
    tot = {}
    with Pool(int(os.environ.get('WORKERS', '5')), maxtasksperchild=1) as p:
        for k, st, info in p.imap_unordered(one, [(k, m, lines, base, uses) for k, m in enumerate(ms)]):
            tot[st] = tot.get(st, 0) + 1
            if st in ('SURVIVED', 'weak', 'crash'):
                n, fn, new, what = ms[k]
                print('%s %s:%d %s [%s] %s\n     - %s\n     + %s' % (st, FILE, n + 1, fn, what, info, lines[n].strip()[:150], new.strip()[:150]), flush=True)
    print(FILE, tot)
