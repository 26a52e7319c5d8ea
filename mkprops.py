#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing; no check runs it)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
RP = 'proadv/filtration/replacement/replacements.py'
DE = 'proadv/filtration/detection/'
ST = 'proadv/statistics/'
INP = 'every record of finite numbers, float or integer, of every length'
T0 = 'the existing tests only exercise min, max, mean, median, mode and the simple and exponential moving average on a handful of literal arrays; '

P = []


def prop(id, title, statement, text, why, files, mech, observe, over=('inputs',), claim=True, note='', reason=''):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, observe=observe, over=list(over), claim=claim,
                  note=note, reason=reason))


exec(open(os.path.join(HERE, 'proptexts.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                                     observe_at=p['observe'], hook_needed=None))) + '\n')

NOTE = ('Weakest-precondition style symbolic execution of the functions in /repo as they are on this run, every obligation discharged by term '
        'normalisation, z3 or cvc5, callers against callee contracts, loops by inferred and re-checked inductive summaries; no bound on sizes. '
        'Trusted: the verifier in pv/, its contracts for numpy/math/scipy primitives, floats as reals. ')
man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[], notes='See DESIGN.md.')
for p in P:
    if p['claim']:
        man['checks'].append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                                  thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                                  technique='contract-based deductive verification of the real Python functions (pv/)', level='proof',
                                  level_note=NOTE + p['note'], evidence_file='evidence/%s.json' % p['id']))
    else:
        man['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed', len(man['not_applicable']), 'not applicable')
