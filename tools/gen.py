"""writes properties.jsonl and MANIFEST.json from one table (development helper)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AL = ['pyfastutil/src/ints/IntArrayList.cpp', 'pyfastutil/src/ints/BigIntArrayList.cpp', 'pyfastutil/src/ints/IntLinkedList.cpp', 'pyfastutil/src/objects/ObjectArrayList.cpp', 'pyfastutil/src/objects/ObjectLinkedList.cpp']
UT = ['pyfastutil/src/utils/PythonUtils.h']
HIST = ['inputs', 'histories']
P = []


def prop(id, title, statement, over, text, why, files, mech, obs=None, level='proof', note='', tech=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs or [], level=level,
                  note=note, tech=tech, na=na))


DED = 'contract-based deductive verification: own VC generator over the compiled LLVM IR of the real sources, z3'
STD = 'Every obligation generated from the current sources is discharged by z3 for all inputs and all iterations; the C API, libstdc++, and re-entrancy assumptions are listed in the evidence. Functions outside the generator\'s reach are labelled bounded and explored by a differential run.'

exec(open(os.path.join(R, 'tools', 'table.py')).read())

with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                                      observe_at=p['obs']), )) + '\n')
m = dict(version=1, setup_cmd='bin/setup', checks=[], not_applicable=[],
         notes='Checks build what they need from /repo in a scratch directory; no hooks in /repo are used.')
for p in P:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='bin/check %s --tier quick' % p['id'], thorough_cmd='bin/check %s --tier thorough' % p['id'],
                                technique=p['tech'] or DED, level=p['level'], level_note=p['note'] or STD))
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
