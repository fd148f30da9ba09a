"""Failed obligations are replayed against the real code; what no proof covers is explored differentially (bounded)."""
import json
import os
import re
import shutil
import tempfile
import time

from . import check, diffrun, lowrun

CONT = ('IntArrayList', 'BigIntArrayList', 'IntLinkedList', 'ObjectArrayList', 'ObjectLinkedList')
# operations of the differential run that exercise an entry point
DIFF_OF = {'sq_length': ['len'], 'mp_length': ['len'], 'append': ['append'], 'clear': ['clear'], 'sq_item': ['get'], 'sq_ass_item': ['set', 'del'],
           'mp_subscript': ['get', 'slice', 'badkey'], 'mp_ass_subscript': ['set', 'del', 'setslice', 'delslice', 'badkey'],
           'sq_contains': ['contains'], 'index': ['index'], 'insert': ['insert'], 'count': ['count'], 'remove': ['remove'], 'pop': ['pop'],
           'extend': ['extend'], 'sq_inplace_concat': ['iadd'], 'sq_concat': ['add'], 'sq_repeat': ['mul', 'rmul'], '__rmul__': ['rmul', 'rmulm'],
           'sq_inplace_repeat': ['imul'], 'copy': ['copy'], 'to_list': ['to_list'], 'resize': ['resize'], 'reverse': ['reverse'],
           'from_range': ['from_range'], 'init': ['init', 'init2'], 'sort': ['sort'], 'richcompare': ['cmp'], 'repr': ['repr'], 'str': ['repr'], 'hash': ['hash'],
           'it_iternext': ['iter', 'next'], 'it_iter': ['iternew'], 'it_dealloc': ['iternew', 'next'], 'iter': ['iter', 'iternew'], '__reversed__': ['iter', 'iternew'], 'bf_getbuffer': ['buffer'],
           'dealloc': ['init', 'init2']}
GROUP_OPS = {'query': ['len', 'get', 'contains', 'count', 'index', 'badkey'],
             'mutate': ['append', 'insert', 'pop', 'remove', 'set', 'del', 'clear', 'badkey'],
             'slice': ['slice', 'setslice', 'delslice', 'badkey'],
             'bulk': ['extend', 'iadd', 'add', 'mul', 'rmul', 'rmulm', 'imul'],
             'build': ['init2', 'from_range', 'resize', 'copy', 'to_list', 'init'],
             'sort': ['sort'], 'reverse': ['reverse'], 'compare': ['cmp'],
             'iter': ['iter', 'iternew', 'next'], 'text': ['repr', 'hash'], 'buffer': ['buffer'], 'count': ['append', 'pop', 'clear', 'extend']}
ALL = sorted({o for l in GROUP_OPS.values() for o in l})
KIND_OF = {'func': ('functional',), 'refcount': ('refcount', 'leak'), 'leak': ('leak', 'refcount'), 'memory': ('memory',), 'errproto': ('errproto', 'exception'),
           'exception': ('exception', 'errproto'), 'gil': ('gil',)}
# paths of an entry point that its contract leaves to the bounded run
PARTIAL = {'sort': 'the bodies of the vendored sorts (TimSort.h, CPythonSort.c, std::sort) stand behind assumed contracts'}
# not applicable to a class
NA = {('from_range', 'ObjectArrayList'), ('from_range', 'ObjectLinkedList'), ('buffer', 'ObjectArrayList'), ('buffer', 'ObjectLinkedList'),
      ('buffer', 'IntLinkedList'), ('resize', 'IntLinkedList'), ('resize', 'ObjectLinkedList')}


def ops_of(P):
    return ALL if P.get('kinds') and not P.get('groups') else [o for g in P.get('groups', ()) for o in GROUP_OPS.get(g, ())]


def acceptor(P):
    kinds, ops = P.get('kinds'), ops_of(P)

    def ok(v):
        if v['kind'] == 'worker':
            return False
        if kinds and not P.get('groups'):
            return any(k in kinds for k in KIND_OF[v['kind']])
        return v['op'] in ops
    return ok


def targets(r):
    """[(class, differential operations)] that exercise the unit"""
    if 'unit' not in r:
        return [(r['cname'], [o for o in DIFF_OF.get(r['op'], ()) if (o, r['cname']) not in NA])]
    from . import world
    ops = [o for g in r['grp'] for o in GROUP_OPS.get(g, ())]
    cl = [c for c in CONT if world.CLASSES[c].src == r['cname']] or list(CONT)
    return [(c, [o for o in ops if (o, c) not in NA]) for c in cl]


def uncovered(P, results, degraded):
    """[(class, op)]: operations of the property that no complete proof covers"""
    okops = {}
    for r in results:
        okops.setdefault((r['cname'], r['op']), []).append(r['status'] == 'ok')
    bad = {(r['cname'], r['op']) for _, r in degraded}
    res = []
    for _, r in degraded:
        if 'unit' in r:
            mine = ops_of(P)
            res += [(c, o) for c, l in targets(r) for o in l if o in mine and (c, o) not in res]
        elif P.get('kinds') and P.get('groups'):
            res += [(c, o) for c, l in targets(r) for o in l + ['iternew', 'next'] if (c, o) not in res]
    for c in CONT:
        for o in ops_of(P):
            if (o, c) in NA:
                continue
            specs = [s for s in DIFF_OF if o in DIFF_OF[s]]
            have = [okops.get((c, s)) for s in specs if not (P.get('groups') and (c, s) not in okops and s in PARTLY.get(o, ()))]
            if not have or any(h is None or not all(h) for h in have) or any((c, s) in bad for s in specs) or o in PARTIAL:
                if (c, o) not in res:
                    res.append((c, o))
    return res


# entry points that also serve the operation but lie in another group
PARTLY = {'badkey': ('mp_ass_subscript', 'mp_subscript'), 'get': ('mp_subscript',), 'set': ('mp_ass_subscript',), 'del': ('mp_ass_subscript',)}


def low_methods(r):
    """[(module, method)] that exercise a unit of the low-level modules"""
    from . import units
    if 'method' in r:
        return [(r['cname'], r['op'])]
    mod = os.path.basename(r['cname']).split('.')[0]
    names = sorted({u.method for u in units.UNITS if u.rx is None and u.cn == mod})
    pre = {'reverse': ('reverse',), 'memcpy': ('memcpy', 'get', 'set', 'call'), 'conversion': ('set',)}.get(r['unit'], ('',))
    return [(mod, n) for n in names if n.startswith(pre)]


def decide_low(a, seed, cand, degraded, known, quick):
    viol, bounded, seen_known = [], {}, {}
    if not cand and not degraded:
        return viol, bounded, seen_known
    todo = []
    for r in [r for _, r, _ in cand] + [r for _, r in degraded]:
        todo += [t for t in low_methods(r) if t not in todo]
    d = tempfile.mkdtemp(prefix='pfvl')
    count, why = (400 if quick else 6000), ''
    found, n = [], 0
    try:
        lowrun.build(d, sorted({m for m, _ in todo}), [n for m, n in todo if m == 'SIMDLowAVX512'])
        found, n = lowrun.campaign(d, todo, seed, count)
    except RuntimeError as e:
        why = str(e)[:500]
    finally:
        shutil.rmtree(d, ignore_errors=True)

    def write(ob, v, extra=''):
        p = os.path.join(check.OUT, '%s_%d.json' % (a.prop, len(viol)))
        rec = dict(property=a.prop)
        if ob:
            k, r, o = ob
            rec['obligation'] = dict(unit=k, where=o['where'], kind=o['kind'], text=o['full'], verifier_output=o['detail'])
        if v:
            rec.update(low=v, replay='bin/replay ' + p)
        if extra:
            rec['note'] = extra
        with open(p, 'w') as f:
            json.dump(rec, f, indent=1)
        viol.append(dict(path=p, input=bool(v)))
    rest = []
    for v in found:
        k = '%s.%s|%s' % (v['module'], v['method'], v['bad'])
        kf = [f for f in known if re.search(f['key'], k)]
        if kf:
            seen_known.setdefault(kf[0]['key'], (kf[0], k))
        else:
            rest.append(v)
    done = set()
    for k, r, o in cand:
        key = (r['cname'], r['op'])
        if key in done:
            continue
        done.add(key)
        hit = [v for v in rest if (v['module'], v['method']) in low_methods(r)]
        write((k, r, o), hit[0] if hit else None, '' if hit else 'no failing input found' + (': ' + why if why else ''))
    if not viol:
        for v in rest[:3]:
            write(None, v)
    if degraded:
        bounded = dict(operations=['%s.%s' % t for t in todo], probes=n, bound='%d random probes per method and CPU feature level' % count,
                       oracle='ctypes, reference counts, AddressSanitizer', error=why)
    return viol, bounded, seen_known


def decide(a, seed, cand, degraded, P, base, results, known):
    os.makedirs(check.OUT, exist_ok=True)
    for f in os.listdir(check.OUT):
        if f.startswith(a.prop + '_'):
            os.unlink(os.path.join(check.OUT, f))
    quick = a.tier == 'quick'
    if set(P.get('groups') or ()) & set(check.MODULES):
        return decide_low(a, seed, cand, degraded, known, quick)
    unc = uncovered(P, results, degraded)
    viol, bounded, seen_known = [], {}, {}
    accept = acceptor(P)
    if not cand and not unc:
        return viol, bounded, seen_known
    d = tempfile.mkdtemp(prefix='pfvd')
    t_end = time.time() + (420 if quick else 700)
    try:
        try:
            diffrun.build(d)
        except RuntimeError as e:
            d2, why = None, str(e)[:500]
        else:
            d2, why = d, ''

        def hunt(focus, secs, stop=1, accept=accept):
            """accepted, repeatable and not known violations"""
            res = []
            found, st = diffrun.campaign(d, focus, secs, seed, P.get('faults', 0.35))
            fops = {o for _, l in focus for o in l}
            groups = {}
            for h, v in found:
                if h is None or not accept(v):
                    continue
                groups.setdefault((h['cls'], v['kind'], v['op'], re.sub(r'\d+', 'N', v['msg'])[:40]), []).append((h, v))
            for g in groups.values():
                for h, v in sorted(g, key=lambda x: len(json.dumps(x[0])))[:2]:
                    if len(res) >= stop or time.time() > t_end:
                        return res, st
                    m = diffrun.minimize(d, h, v, accept)
                    if not m:
                        continue
                    k = '%s|%s|%s|%s' % (m[0]['cls'], m[1]['op'], m[1]['kind'], m[1]['msg'])
                    kf = [f for f in known if re.search(f['key'], k)]
                    if kf:
                        seen_known.setdefault(kf[0]['key'], (kf[0], k))
                        continue
                    res.append(m)
                    break
            return res, st

        def write(ob, m, extra=''):
            p = os.path.join(check.OUT, '%s_%d.json' % (a.prop, len(viol)))
            rec = dict(property=a.prop)
            if ob:
                k, r, o = ob
                rec['obligation'] = dict(unit=k, where=o['where'], kind=o['kind'], text=o['full'], verifier_output=o['detail'])
            if m:
                rec.update(history=m[0], violation=m[1], replay='bin/replay ' + p)
            if extra:
                rec['note'] = extra
            with open(p, 'w') as f:
                json.dump(rec, f, indent=1)
            viol.append(dict(path=p, input=bool(m)))
        # failed obligations: look for an input that shows the failure
        per = {}
        for k, r, o in cand:
            per.setdefault((r['cname'], r['op']), []).append((k, r, o))
        n = len(per)
        for (c, op), obs in per.items():
            if len(viol) >= 4:
                break
            m = []
            focus = [(x, l) for x, l in targets(obs[0][1]) if l]
            if obs[0][2]['kind'] == 'modcount':
                focus = [(x, l + ['iternew', 'next']) for x, l in focus]
            if d2 and focus and time.time() < t_end:
                # an obligation failed: any misbehaviour of the operation it belongs to is a failing input
                mine = {o for _, l in focus for o in l}
                m, _ = hunt(focus, 20 if n < 4 else 8, 1, lambda v: accept(v) or v['kind'] != 'worker' and v['op'] in mine)
            write(obs[0], m[0] if m else None, '' if m else 'no failing input found' + (': ' + why if why else ''))
        if unc and not viol:
            if d2:
                per = {}
                for c, o in unc:
                    per.setdefault(c, []).append(o)
                focus = [(c, l) for c, l in per.items()]
                secs = (30 if len(unc) > 12 else 15) if quick else 240
                m, st = hunt(focus, secs, 3)
                for x in m:
                    write(None, x)
                bounded = dict(operations={c: l for c, l in per.items()}, histories=st['histories'], calls=st['operations'], seconds=secs,
                               bound='random histories of up to 8 operations, contents up to 6000 elements, one injected failure per operation',
                               oracle='Python list, reference counts, AddressSanitizer, allocation ledger')
            else:
                bounded = dict(error='the sources do not build: ' + why)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return viol, bounded, seen_known


def main():
    import sys
    h = json.load(open(sys.argv[1]))
    if 'low' in h:
        d, v = tempfile.mkdtemp(prefix='pfvl'), h['low']
        try:
            lowrun.build(d, [v['module']], [v['method']])
            v, _ = lowrun.probe(d, v['module'], v['method'], v['seed'], (v['i'] or 0) + 1, v['level'], only=v['i'])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(v) if v else 'agrees')
        return 1 if v else 0
    if 'history' not in h:
        print('no failing input; obligation:', json.dumps(h.get('obligation'), indent=1))
        return 1
    d = tempfile.mkdtemp(prefix='pfvd')
    try:
        diffrun.build(d)
        v = diffrun.run_history(d, h['history'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(json.dumps(v) if v else 'agrees')
    return 1 if v else 0


if __name__ == '__main__':
    raise SystemExit(main())
