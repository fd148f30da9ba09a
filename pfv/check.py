"""Decides one property: verification conditions of the real code, known findings, replay of failures."""
import argparse
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

from . import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PFV_REPO', '/repo')
OUT = os.path.join(ROOT, 'out')

_W = {}
_DIR = None


def _compile(src):
    from . import world
    try:
        if src == 'gen:avx512':
            from . import lowavx
            f = os.path.join(_DIR, 'avx512_reference.cpp')
            with open(f, 'w') as o:
                o.write(lowavx.ref_source())
            return src, world.compile_file(f, os.path.join(_DIR, 'avx512_reference.ll'), ()), None
        return src, world.compile_ir(REPO, src, _DIR), None
    except Exception as e:                      # noqa: BLE001
        return src, None, str(e)


class PreLoader:
    """modules already emitted by the parallel compile step"""

    def __init__(self, paths):
        self.paths, self.mods = paths, {}

    def mod(self, src):
        from .irparse import Module
        if src not in self.mods:
            self.mods[src] = Module(open(self.paths[src]).read())
            self.mods[src].src = src
        return self.mods[src]


def _world(a):
    """build (in the worker) the world of one class"""
    from . import world
    cname, paths = a
    if cname not in _W:
        _W[cname] = world.World(PreLoader(paths), cname)
    return _W[cname]


def okey(cname, op, label, o):
    return '%s|%s|%s|%s|%s' % (cname, op, label, o['kind'], o['msg'])


def method_result(u, r):
    return dict(cname=u.cn, op=u.method, idx=0, label=u.label, status=r.status, why=r.why, obl=[plain(o) for o in r.obl], fns=dict(r.fns),
                contracts=dict(r.contracts), time=r.time, loops=r.loops, queries=r.queries, solver=r.solver, grp=u.grp, success=r.success,
                unit=u.name, method=u.method)


def run_task(t):
    """one scenario -> plain data"""
    from . import spec, ops, units, raw, unsafe, simdmod, lowobj               # noqa: F401
    cname, op, idx, paths, budget = t
    t0 = time.time()
    if op == 'low':
        from . import lowavx
        if 'loader' not in _W:
            _W['loader'] = PreLoader(paths)
        return [method_result(u, r) for u, r in lowavx.run_all(_W['loader'], idx, budget)]
    if op == 'unit':
        u, fname = units.UNITS[idx], cname
        if 'loader' not in _W:
            _W['loader'] = PreLoader(paths)
        if u.rx is None:
            r = raw.run_method(_W['loader'], u, budget)
            return method_result(u, r)
        r = units.run_unit(_W['loader'], u, fname, budget)
        return dict(cname=u.src, op=r.op, idx=0, label='body', status=r.status, why=r.why, obl=[plain(o) for o in r.obl], fns=dict(r.fns),
                    contracts=dict(r.contracts), time=r.time, loops=r.loops, queries=r.queries, solver=r.solver, grp=u.grp, success=r.success,
                    unit=u.name)
    try:
        w = _world((cname, paths))
        e = entry_of(w, cname, op)
        f, p, ret, only, grp = spec.SPEC[op][idx]
        if only and not only(w.ci):
            return None
        if e is None:
            if (op[3:] if op.startswith('it_') else op) not in interface()[cname + 'Iter' if op.startswith('it_') else cname]:
                return None
            return dict(cname=cname, op=op, idx=idx, label='#%d' % idx, status='unsupported', why='the type no longer offers this operation', obl=[],
                        fns={}, contracts={}, time=time.time() - t0, loops=0, queries=0, solver=0, grp=grp, success=0)
        r = spec.run_scenario(w, cname, op, e, f, p, ret, budget)
    except Exception as ex:                      # noqa: BLE001
        return dict(cname=cname, op=op, idx=idx, label='#%d' % idx, status='unsupported', why='engine: %s' % ex, obl=[], fns={}, contracts={},
                    time=time.time() - t0, loops=0, queries=0, solver=0, grp=spec.SPEC[op][idx][4], success=0)
    if r is None:
        return None
    obl = [plain(o) for o in r.obl]
    return dict(cname=cname, op=op, idx=idx, label=r.label, status=r.status, why=r.why, obl=obl, fns=dict(r.fns), contracts=dict(r.contracts),
                time=r.time, loops=r.loops, queries=r.queries, solver=getattr(r, 'solver', 0), grp=grp, success=r.success)


def plain(o):
    m = re.sub(r'[!@#]\d+', '', o.msg)
    m = re.sub(r'residue .*', 'residue', m)[:160]
    return dict(kind=o.kind, where=o.where, msg=m, full=o.msg[:500], status=o.status, detail=o.detail[:1500] if o.status != 'proved' else '',
                time=o.time, backend=o.backend)


def interface():
    """the operations each type of the repository offers (tools/interface.py)"""
    if 'interface' not in _W:
        _W['interface'] = json.load(open(os.path.join(ROOT, 'pfv', 'interface.json')))
    return _W['interface']


def entry_of(w, cname, op):
    tab = w.ops[cname + 'Iter'] if op.startswith('it_') else w.ops[cname]
    return tab.get(op[3:] if op.startswith('it_') else op)


def all_tasks(classes, paths, want, budget):
    from . import spec, ops                      # noqa: F401
    ts = []
    for c in classes:
        for op, l in spec.SPEC.items():
            for i, (f, p, ret, only, grp) in enumerate(l):
                if want(c, op, grp):
                    ts.append((c, op, i, paths, budget))
    return ts


def verify(classes, want, budget, log=sys.stderr):
    """run every wanted scenario; returns results"""
    global _DIR
    from . import world, units, core, spec, ops, raw, unsafe, simdmod, lowobj   # noqa: F401
    _DIR = tempfile.mkdtemp(prefix='pfv')
    try:
        srcs = []
        for c in [c for c in classes if any(want(c, op, e[4]) for op, l in spec.SPEC.items() for e in l)]:
            srcs += [world.CLASSES[c].src, world.CLASSES[c].iter]
        uw = [(i, u) for i, u in enumerate(units.UNITS) if any(want(None, 'unit', g) for g in u.grp)]
        srcs += sorted({u.src for i, u in uw} - set(srcs))
        low = []
        if want(None, 'low', 'lowavx'):
            from . import lowavx
            srcs += [lowavx.REF] + [x for x in [lowavx.SOURCE] if x not in srcs]
            names = list(lowavx.PROTO)
            low = [frozenset(names[i::56]) for i in range(56)]
        with mp.get_context('fork').Pool(8) as pool:
            res = pool.map(_compile, srcs, 1)
        bad = {s: e for s, p, e in res if e}
        for s, e in bad.items():
            print('clang-18 cannot compile %s: %s' % (s, e[:600]), file=log)
        paths = {s: p for s, p, e in res if not e}
        tasks, out = [], []

        def lost(src, **kw):                     # no IR, no obligations: left to the bounded stand-in
            out.append(dict(dict(idx=0, label='body', status='unsupported', why='clang-18 cannot compile ' + src, obl=[], fns={}, contracts={},
                                 time=0, loops=0, queries=0, solver=0, success=0), **kw))
        for i, u in uw:
            if u.src in bad:
                if u.rx is None:
                    lost(u.src, cname=u.cn, op=u.method, grp=u.grp, unit=u.name, method=u.method)
                else:
                    lost(u.src, cname=u.src, op=u.name, grp=u.grp, unit=u.name)
                continue
            if u.rx is None:
                tasks.append((u.method, 'unit', i, paths, budget))
                continue
            names = re.findall(r'^define [^@]*@("?[\w$.]+"?)\(', open(paths[u.src]).read(), re.M)
            tasks += [(n, 'unit', i, paths, budget) for n in names if u.rx.match(core.demangle(n))]
        if low and (lowavx.SOURCE in bad or lowavx.REF in bad):
            for n in sorted(lowavx.PROTO):
                lost(lowavx.SOURCE, cname='SIMDLowAVX512', op=n, grp=('lowavx',), unit='low', method=n)
            low = []
        tasks += [('SIMDLowAVX512', 'low', l, paths, budget) for l in low]
        ok = [c for c in classes if not {world.CLASSES[c].src, world.CLASSES[c].iter} & set(bad)]
        tasks += all_tasks(ok, paths, want, budget)
        for c in classes:
            if c not in ok:
                for _, op, i, _, _ in all_tasks([c], paths, want, budget):
                    lost(world.CLASSES[c].src, cname=c, op=op, idx=i, grp=spec.SPEC[op][i][4])
        # group by class so that a worker parses few modules
        with mp.get_context('fork').Pool(8) as pool:
            for r in pool.imap_unordered(run_task, tasks, 1 if low else 2):
                if r is not None:
                    out += r if isinstance(r, list) else [r]
        return out
    finally:
        shutil.rmtree(_DIR, ignore_errors=True)


def load_json(p, d):
    try:
        return json.load(open(os.path.join(ROOT, p)))
    except FileNotFoundError:
        return d


def findings():
    """KNOWN-FINDING entries: lines 'finding: property=<id> key=<json>'; 'fixed:' lines suppress nothing"""
    res = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                res.append(json.loads(l[len('finding: '):]))
    return res


MODULES = ('unsafe', 'simdmod', 'lowavx', 'lowobj')      # the low-level modules: all obligations count for their own property


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--baseline', action='store_true', help='(development) print what is not proved')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[a.prop]
    groups, kinds = P.get('groups'), P.get('kinds')

    def want(c, op, grp):
        return bool(kinds) and grp not in MODULES or grp in (groups or ())
    results = verify(props.CLASSES_ON, want, 120 if a.tier == 'quick' else 600)
    base = load_json('pfv/baseline.json', {})
    known = [f for f in findings() if f['property'] == a.prop]
    total = proved = 0
    degraded, cand, undecided, seen_known = [], [], [], {}
    fns, contracts, units = {}, {}, []
    solver = 0.0
    for r in results:
        key = '%s|%s|%s' % (r['cname'], r['op'], r['label'])
        solver += r['solver'] or 0
        if r['status'] != 'ok':
            degraded.append((key, r))
        for k, v in r['fns'].items():
            fns[k] = fns.get(k, 0) + 1
        for k, v in r['contracts'].items():
            contracts[k] = contracts.get(k, 0) + 1
        nb = 0
        for o in r['obl']:
            if kinds and o['kind'] not in kinds and o['kind'] != 'vacuity' and not (groups and (r['grp'] in groups if isinstance(r['grp'], str) else set(r['grp']) & set(groups))):
                continue
            total += 1
            if o['status'] == 'proved':
                proved += 1
                continue
            k = okey(r['cname'], r['op'], r['label'], o)
            kf = [f for f in known if f['key'] == k]
            if kf:
                seen_known.setdefault(kf[0]['key'], (kf[0], k))
                continue
            nb += 1
            if k in base.get('undecided', {}):
                undecided.append(k)
            elif o['status'] in ('unknown', 'weak'):
                undecided.append(k)
                degraded.append((key, dict(r, why=('solver gave no answer: ' if o['status'] == 'unknown' else 'no invariant strong enough: ') + o['msg'])))
            elif r['status'] == 'ok':
                cand.append((k, r, o))
        units.append(dict(unit=key, status=r['status'], obligations=len(r['obl']), open=nb, seconds=round(r['time'], 2), why=r['why'][:200]))
    if a.baseline:
        for k, r in degraded:
            print('DEGRADED', k, r['why'][:200])
        for k, r, o in cand:
            print('OPEN', k, o['status'], o['full'][:200])
        print('total', total, 'proved', proved, 'units', len(units), 'wall %.1f' % (time.time() - t0))
        return 0
    from . import replay, units as U

    def own(c):                                  # the contract of a helper whose real body is a verification unit
        return any(u.rx and u.rx.match(c) for u in U.UNITS)
    viol, bounded, kd = replay.decide(a, seed, cand, degraded, P, base, results, known)
    seen_known.update(kd)
    if not total and not bounded and not viol:
        print('nothing was checked for %s' % a.prop, file=sys.stderr)
        return 2
    for f, k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
    for v in sorted(viol, key=lambda v: not v.get('input'))[:5]:
        print('VIOLATION property=%s replay=%s%s' % (a.prop, v['path'], '' if v.get('input') else ' no-failing-input-found'))
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=props.level(a.prop), wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(obligations=total, discharged=proved, checker_cmd='bin/check %s --tier %s' % (a.prop, a.tier),
                            trusted_base=sorted(c for c in contracts if not own(c)), functions_under_contract=sorted(fns),
                            contracts_proved_for_their_bodies=sorted(c for c in contracts if own(c)),
                            backend='z3 (python3-vt z3-solver), own VC generator pfv/ over clang-18 -O0 LLVM IR of /repo', solver_seconds=round(solver, 2),
                            units=units, not_proved=undecided, bounded_units=[k for k, _ in degraded], bounded=bounded,
                            known_findings=[f['what'] for f, _ in seen_known.values()]),
              assumptions=props.assumptions(a.prop))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d units (%d bounded only), %d violations, %.0f s' % (
        a.prop, total, proved, len(units), len(degraded), len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
