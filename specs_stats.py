"""Contracts of proadv.statistics."""
from pv.contract import *

D = 'proadv.statistics.descriptive:'
SP = 'proadv.statistics.spread:'
MO = 'proadv.statistics.moment:'
SE = 'proadv.statistics.series:'

C = {}


def contract(target, *cases, **kw):
    C[target] = Contract(target, *cases, **kw)


def empty(a):
    return lambda A: [('ValueError', eq(getattr(A, a).n, ZERO))]


def nonempty(a):
    return lambda A: [lt(ZERO, getattr(A, a).n)]


# --- descriptive ---------------------------------------------------------------------------
for nm, fn in (('min', Minimum), ('max', Maximum)):
    contract(D + nm,
             Case('array', {'data': FArr()}, lambda A, fn=fn: SNum(fn(A.data)), raises=empty('data')),
             Case('int array', {'data': FArr(dt='i')}, lambda A, fn=fn: SNum(fn(A.data), ty='i8'), raises=empty('data')),
             Case('list', {'data': FArr(pylist=True)}, lambda A, fn=fn: SNum(fn(A.data)), raises=empty('data')))

contract(D + 'mean',
         Case('array', {'array': FArr()}, lambda A: SNum(Mean(A.array)), requires=nonempty('array')),
         Case('int array', {'array': FArr(dt='i')}, lambda A: SNum(Mean(A.array)), requires=nonempty('array')),
         Case('list', {'array': FArr(pylist=True)}, lambda A: SNum(Mean(A.array)), requires=nonempty('array')),
         Case('number', {'array': F()}, lambda A: SNum(A.array)),
         Case('empty', {'array': FArr(0)}, lambda A: SConst('Invalid input.')))

contract(D + 'median',
         Case('array', {'data': FArr()}, lambda A: SNum(Median(A.data)), raises=empty('data')))


def mode_rel(A, R):
    d = A.data
    v, f = R.item(0).num(), R.item(1).num()
    x = fresh('x', 'R')
    cnt = lambda y: Count(lambda j: eq(d[j], y), d.n)
    k = fresh('k', 'I')
    hk = [le(ZERO, k), lt(k, d.n)]
    return [('the frequency is the number of occurrences of the mode', [], eq(f, cnt(v))),
            ('the mode occurs in the data', [], Exists(0, d.n, lambda j: eq(d[j], v))),
            ('no value occurs more often', hk, le(cnt(d[k]), f)),
            ('no smaller value occurs as often', hk + [lt(d[k], v)], lt(cnt(d[k]), f))]


def mode_conc(inp, rep):
    from collections import Counter
    c = Counter(inp['data'])
    if not c:
        return None
    top = max(c.values())
    want = min(k for k, v in c.items() if v == top)
    r = rep['ok']
    try:
        a, b = r['v'][0]['v'], r['v'][1]['v']
    except Exception:
        return 'result is not a pair'
    if a != float(want) or b != top:
        return 'mode should be (%s, %d), is (%s, %s)' % (float(want), top, a, b)


contract(D + 'mode',
         Case('array', {'data': FArr(style='ties')}, None, requires=nonempty('data'), rels=mode_rel, concrete=mode_conc))

# --- spread / moment --------------------------------------------------------------------------
contract(SP + 'variance', Case('array', {'data': FArr()}, lambda A: SNum(Var(A.data)), raises=empty('data')),
         Case('matrix', {'data': Mat()}, lambda A: SAny(), raises=lambda A: [('ValueError', TRUE)]))
contract(SP + 'std', Case('array', {'data': FArr()}, lambda A: SNum(Std(A.data)), raises=empty('data')),
         Case('matrix', {'data': Mat()}, lambda A: SAny(), raises=lambda A: [('ValueError', TRUE)]))


def mom(k):
    def r(A):
        d = A.data if hasattr(A, 'data') else A.x
        mu, s = Mean(d), Std(d)
        return SNum(Sum(lambda j: (d[j] - mu) ** k, d.n) / d.n / s ** k)
    return r


def spread_out(a):
    return lambda A: [lt(ZERO, getattr(A, a).n), lt(ZERO, Var(getattr(A, a)))]


contract(MO + 'skewness', Case('array', {'data': FArr()}, mom(3), requires=spread_out('data')), uses=[D + 'mean', SP + 'std'])
contract(MO + 'kurtosis', Case('array', {'x': FArr()}, mom(4), requires=spread_out('x')), uses=[D + 'mean', SP + 'std'])
