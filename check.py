#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property by verifying the contracts it stands on."""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
from pv.run import *
import specs
import props


TRUSTED = ['pv/: the verifier of this directory (symbolic executor of the Python subset, term normal forms, inferred loop summaries that are '
           're-checked to be inductive on every run)',
           'pv/npmodel.py: the contracts assumed for numpy, math and scipy primitives (cross-checked on concrete runs of the real code)',
           'z3 4.x (python bindings) and cvc5 1.1.2',
           'floating-point arithmetic is treated as real arithmetic']


def known(prop):
    f = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == prop:
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--tier' in sys.argv and sys.argv[sys.argv.index('--tier') + 1] == 'thorough' else os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    C = specs.C
    P = props.PROPS[prop]
    roots = {}
    for r in P['roots']:
        t, cs = r if isinstance(r, tuple) else (r, None)
        roots[t] = cs
    kw = dict(budget=P.get('budget', 150), nconc=P.get('nconc', 40), conc_s=8, seed=seed) if tier == 'quick' else \
        dict(budget=400, nconc=600, conc_s=90, seed=seed)
    verdicts = verify(C, roots, int(os.environ.get('PV_JOBS', '8')), **kw)
    viol = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    bounded, helpers_off = [], []
    for (t, k), v in verdicts.items():
        root = t in roots
        head = '%s [%s]' % (t, v['case'])
        if v['status'] == 'proved':
            print('%s: %d obligations discharged %s, %d runs of the real code agree' % (head, v['discharged'], v['by'], v['conc'].get('runs', 0)))
        elif v['status'] == 'failed':
            print('%s: %d of %d obligations NOT discharged: %s' % (head, v['obligations'] - v['discharged'], v['obligations'], '; '.join(o['name'] for o in v['failed'][:3])))
        else:
            print('%s: bounded stand-in only (%s), %d runs of the real code agree' % (head, v['why'], v['conc'].get('runs', 0)))
        if v.get('conc_error'):
            print('   concrete side: ' + v['conc_error'].strip().splitlines()[-1])
        if not root:
            if v['status'] != 'proved' or v['violation']:
                helpers_off.append(head)
            continue
        if v['violation'] and not (v['violation'].get('missing') and C[t].internal):
            viol.append((t, v, True))
        elif v['status'] == 'failed':
            viol.append((t, v, False))
        elif v['status'] != 'proved':
            bounded.append(dict(function=t, case=v['case'], why=v['why'], runs=v['conc'].get('runs', 0)))
    # extra concrete obligations that live outside the subset, each labelled bounded
    for name, fn in P.get('extra', []):
        try:
            bad, n = fn(Real(REPO), seed, 300 if tier == 'thorough' else 40)
        except Exception as e:
            bad, n = None, 0
            print('extra %s: not evaluated (%s: %s)' % (name, type(e).__name__, e))
        bounded.append(dict(function=name, case='concrete', why='bounded by construction', runs=n))
        if bad:
            viol.append((name, dict(case='concrete', failed=[], violation=bad, target=name), True))
    n = 0
    viol.sort(key=lambda x: not x[2])
    for t, v, real in viol:
        n += 1
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, function=t, case=v['case'], failed_obligations=v['failed'], counterexample=v['violation']), open(path, 'w'), indent=1)
        if v['failed']:
            print('  failed obligation: %s' % v['failed'][0]['name'])
        if real:
            print('  input: %s\n  %s' % (json.dumps(v['violation'].get('input'))[:1500], v['violation']['what']))
        if real or not viol[0][2]:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if real else ' no-failing-input-found'))
        else:
            print('  also not discharged: %s, see %s' % (v['failed'][0]['name'] if v['failed'] else t, path))
    for d in known(prop):
        real = Real(REPO)
        rep = real.call(d['target'], d.get('args', []), d.get('kw', {}))
        real.close()
        got = rep.get('exc', [None])[0] if 'exc' in rep else json.dumps(rep.get('ok'))
        if got == d['fails']:
            print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    obl = sum(v['obligations'] for v in verdicts.values())
    dis = sum(v['discharged'] for v in verdicts.values())
    by = {}
    st = {}
    for v in verdicts.values():
        for a, b in v['by'].items():
            by[a] = by.get(a, 0) + b
        for a, b in (v.get('stats') or {}).items():
            st[a] = round(st.get(a, 0) + b, 3)
    npf = sorted({x for v in verdicts.values() for x in (v.get('info') or {}).get('np', [])})
    assumed = sorted({x for v in verdicts.values() for x in (v.get('info') or {}).get('assumed', [])})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier), trusted_base=TRUSTED,
                            functions_under_contract=sorted({'%s' % t for t, k in verdicts}),
                            cases=[dict(function=t, case=v['case'], status=v['status'], obligations=v['obligations'], discharged=v['discharged'],
                                        paths=v['paths'], back_ends=v['by'], seconds=round(v.get('t_sym', 0), 2), inlined=(v.get('info') or {}).get('inlined', []),
                                        contracts_used=(v.get('info') or {}).get('used', []), real_runs=v['conc'].get('runs', 0),
                                        real_values_compared=v['conc'].get('compared', 0)) for (t, k), v in verdicts.items()],
                            back_ends=by, solver=st, numpy_primitives_assumed=npf, bounded_standins=bounded, helpers_inlined_instead=helpers_off),
              assumptions=props.ASSUMPTIONS + P.get('assumptions', []) + assumed, wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d bounded, %.1f s' % (prop, obl, dis, len(bounded), time.time() - t0))
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
