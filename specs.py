"""All contracts.  A key 'module:function#name' holds a weaker contract of the same function, for a property that claims less."""
import copy, json, os
from specs_density import *

SIGNATURES.update(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'signatures.json'))))


def also(target, name, **attrs):
    """the array cases of a contract also for records of another kind (integer arrays, Python lists)"""
    c = C[target]
    have = {x.name for x in c.cases}
    for case in list(c.cases):
        kinds = [k for k, v in case.args.items() if type(v) is FArr and v.dt == 'f' and not v.pylist and not isinstance(v.nname, int)]
        if not kinds or 'default' in case.name:
            continue
        k = copy.copy(case)
        k.args = dict(case.args)
        for a in kinds:
            k.args[a] = copy.copy(case.args[a])
            for x, v in attrs.items():
                setattr(k.args[a], x, v)
            st = k.args[a].style
            if k.args[a].dt == 'i' and st:
                k.args[a].style = 'ints' if not callable(st) else lambda g, n, st=st: [round(x) for x in st(g, n)]
        k.name = name if case.name in ('array', 'arrays') else '%s, %s' % (case.name, name)
        if k.name not in have:
            c.cases.append(k)


for t in list(C):
    if not any(v.dt == 'i' for x in C[t].cases for v in x.args.values() if type(v) is FArr):
        also(t, 'integers', dt='i')
LISTS = [R + x for x in ('last_valid_data', 'mean_value', 'simple_moving_average', 'exponential_moving_average', 'ssa', 'kalman_filter',
                         'weighted_moving_average', 'cubic_12points_polynomial', 'polynomial_replacement')] + \
    [N_ + x for x in ('cdf', 'sf', 'log_cdf', 'log_sf', 'pdf', 'log_pdf')] + [FL + 'kinetic_turbulent_energy', FL + 'reynolds_stresses', MO + 'kurtosis', D + 'mode',
     SE + 'kalman_filter', DT + 'acceleration:acceleration_thresholding', DT + 'correlation:velocity_correlation']
for t in LISTS:
    also(t, 'lists', pylist=True)


def derive(target, name, result, cases=None, invariants=None):
    """the contract of target with result(spec of the full contract, A) in place of its result"""
    c = C[target]
    out = []
    for case in c.cases:
        if cases is not None and case.name not in cases:
            continue
        k = copy.copy(case)
        full = case.result
        k.result = lambda A, full=full: result(full(A) if full else None, A)
        k.rels = None
        if case.invariants and invariants:
            k.invariants, k.soft = invariants, True
        k.concrete = bool(case.concrete)
        out.append(k)
    C[target + '#' + name] = Contract(target, *out, uses=c.uses, internal=c.internal)


def indices_only(s, A):
    if isinstance(s, SIdx):
        return SIdx(s.N, None)
    if isinstance(s, STup):
        return STup(*[indices_only(x, A) for x in s.items])
    return SAny()


REPLACEMENTS = [R + x for x in ('last_valid_data', 'mean_value', 'median_value', 'simple_moving_average', 'exponential_moving_average',
                                'ssa', 'kalman_filter', 'linear_interpolation', 'weighted_moving_average',
                                'cubic_12points_polynomial', 'polynomial_replacement')]
for t in REPLACEMENTS:
    derive(t, 'frame', lambda s, A: SArr(s.shape, (lambda i: Round(A.velocities[i], A.decimals)) if hasattr(A, 'decimals') else
                                         (lambda i: A.velocities[i]), where=lambda i: bnot(A.spike_indices.has(i))), invariants=WEAK.get((t, 'frame')))

DETECTORS = [DT + x for x in ('acceleration:acceleration_thresholding', 'correlation:velocity_correlation', 'phasespace:phasespace_thresholding',
                              'phasespace:phasespace_thresholding_premodification', 'spherical:spherical_phasespace_thresholding')]
for t in DETECTORS:
    derive(t, 'indices', indices_only)

PURE = [t for t in list(C) if '#' not in t and not C[t].internal and not C[t].bounded and t != KB + '_psi' and any(isinstance(k, (FArr, Mat, IdxSet)) for c in C[t].cases for k in c.args.values())]
for t in PURE:
    derive(t, 'pure', lambda s, A: SAny(), invariants=WEAK.get((t, 'pure')))
