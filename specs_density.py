"""Contracts of the bivariate kernel density estimator (proadv.kernel.bivariate)."""
from specs_kernel import angle
from specs_butter import *

KB = 'proadv.kernel.bivariate:'

contract(KB + '_rotation', *[Case(nm, dict(x=FArr(dt=dt), y=FArr()), lambda A: SNum(angle(fn_of(A.x), fn_of(A.y), A.x.n)), requires=lambda A: [lt(ZERO, A.x.n)])
                             for nm, dt in (('arrays', 'f'), ('integers', 'i'))])


def row(m, i):
    return lambda j: m[i, j]


def extremes(A):
    m = A.data
    hi, lo = lambda i: Maximum(row(m, i), m.m), lambda i: Minimum(row(m, i), m.m)
    return STup(SArr(m.n, hi), SArr(m.n, lo), SArr(m.n, lambda i: hi(i) - lo(i)))


contract(KB + '_scaling', Case('matrix', dict(data=Mat()), extremes, requires=lambda A: [lt(ZERO, A.data.m)]))
contract(KB + '_transform', Case('matrix', dict(data=Mat(), max_co=FArr('n'), min_co=FArr('n'), scale=FArr('n')),
                                 lambda A: SArr((A.data.m, A.data.n), lambda i, j: (A.data[j, i] - A.min_co[j]) / A.scale[j]),
                                 requires=lambda A: [lt(ZERO, A.data.n), Forall(0, A.data.n, lambda j: bnot(eq0(A.scale[j])))]))


def sign(s):
    return ite(eq(mod(lift(s), num(2)), ZERO), ONE, num(-1))


def kval(s):
    return sign(s) * Prod(lambda j: 2 * j + 1, s) / sqrt(2 * PI)


contract(KB + '_k', Case('order', dict(s_indices=I(0, 8)), lambda A: SNum(kval(A.s_indices)), requires=lambda A: [le(ZERO, A.s_indices)]))


def psi(s, t, ic, a, n):
    w = lambda i: exp(-ic(i) * PI ** 2 * t) * ite(eq(i, ZERO), ONE, num(Fraction(1, 2)))
    wx, wy = lambda i: w(i) * power(ic(i), lift(s[0])), lambda i: w(i) * power(ic(i), lift(s[1]))
    return sign(s[0] + s[1]) * Sum(lambda j: Sum(lambda i: wy(i) * a(i, j), n) * wx(j), n) * PI ** (2 * (s[0] + s[1]))


ORDERS = [[0, 2], [2, 0], [1, 1], [0, 3], [1, 2], [2, 1], [3, 0], [0, 4], [1, 3], [2, 2], [3, 1], [4, 0], [0, 5], [1, 4], [2, 3], [3, 2], [4, 1], [5, 0]]


def psi_args(s):
    return dict(s_indices=Const(s), time=F([0.0, 0.01, 0.1, 1.0]), initial_condition=FArr('n'), autocorrelation_squared=Mat('n', 'n'))


contract(KB + '_psi', *[Case('orders %d, %d' % tuple(s), psi_args(s), lambda A, s=s: SNum(psi(s, A.time, fn_of(A.initial_condition), lambda i, j: A.autocorrelation_squared[i, j], A.initial_condition.n)),
                             requires=lambda A: [lt(ZERO, A.initial_condition.n)]) for s in ORDERS])


def scattered(A):
    s, v = A.subs, A.vals
    return SArr(A.sz, lambda a, b: Sum(lambda k: ite(band(eq(s[k, 0], a), eq(s[k, 1], b)), v[k], ZERO), v.n))


contract(KB + '_accumarray', Case('counts', dict(subs=Mat('n', 2, dt='i', pick=[0, 1, 2]), vals=FArr('n'), sz=Tup(I(2, 6), I(2, 6))), scattered,
                                  requires=lambda A: [le(ZERO, x) for x in A.sz] + [Forall(0, A.vals.n, lambda k: band(le(ZERO, A.subs[k, d]), lt(A.subs[k, d], A.sz[d]))) for d in (0, 1)]))


def cell(x, g):
    """the cell of [0, 1] that holds x, of g of them"""
    return tmin(tfloor(x * g), g - 1)


def share_in(t, n, g):
    return lambda a, b: Sum(lambda k: ind(band(eq(cell(t(k, ZERO), g), a), eq(cell(t(k, ONE), g), b))), n) / n


contract(KB + '_histogram', Case('unit square', dict(trans=Mat('n', 2, pick=[Fraction(i, 7) for i in range(8)]), grid=I(2, 6)),
                                 lambda A: SArr((A.grid, A.grid), share_in(lambda i, j: A.trans[i, j], A.trans.n, A.grid)),
                                 requires=lambda A: [lt(ONE, A.grid), lt(ZERO, A.trans.n)] + [Forall(0, A.trans.n, lambda k: band(le(ZERO, A.trans[k, d]), le(A.trans[k, d], ONE))) for d in (0, 1)]),
         uses=[KB + '_accumarray'])


def dft(f, n, k):
    j = fresh('j', 'I')
    return uf('dft', lam([j], f(j)), lift(n), lift(k), sort='R')


def idft(f, n, k):
    j = fresh('j', 'I')
    return uf('idft', lam([j], f(j)), lift(n), lift(k), sort='R')


def folded(f, n):
    """the even rows, then the odd rows last to first"""
    h = tfloor((lift(n) + 1) / 2)
    return lambda i: cite(lt(i, h), f(2 * i), f(2 * (n - 1 - i) + 1))


def dct(m, w, n):
    return lambda i, j: re_(w(i, j) * dft(folded(lambda r: m(r, j), n), n, i))


def dct_weight(i, n):
    return cite(eq(i, ZERO), ONE, 2 * cexp(-I_UNIT * i * PI / (2 * n)))


def dct2(m, n):
    w = lambda i, j: dct_weight(i, n)
    first = dct(m, w, n)
    return lambda i, j: dct(lambda a, b: first(b, a), w, n)(j, i)


contract(KB + '_discrete_cosine_2d', Case('square', dict(data=Mat('n', 'n')), lambda A: SArr((A.data.n, A.data.n), dct2(lambda i, j: A.data[i, j], A.data.n)), requires=lambda A: [lt(ZERO, A.data.n)], sizes={'n': [1, 2, 3, 4, 5]}),
         Case('any', dict(data=Mat('n', 'm')), lambda A: SAny(), requires=lambda A: [lt(ZERO, A.data.n), bnot(eq(A.data.n, A.data.m))], raises=lambda A: [('ValueError', TRUE)]))


def idct(m, n):
    """rows 2i and 2i+1 are the i-th and the i-th but last of the real part of the inverse transform"""
    x = lambda k, j: re_(idft(lambda r: cexp(I_UNIT * r * PI / (2 * n)) * m(r, j), n, k))
    return lambda i, j: ite(eq(mod(i, num(2)), ZERO), x(floordiv(i, num(2)), j), x(n - 1 - floordiv(i, num(2)), j))


def idct2(m, n):
    first = idct(m, n)
    return lambda i, j: idct(lambda a, b: first(b, a), n)(j, i)


contract(KB + '_inverse_cosine_2d', Case('square', dict(data=Mat('n', 'n')), lambda A: SArr((A.data.n, A.data.n), idct2(lambda i, j: A.data[i, j], A.data.n)), requires=lambda A: [lt(ZERO, A.data.n)], sizes={'n': [1, 2, 3, 4, 5]}))


# --- the whole estimator: run only (its bandwidth search calls opaque functions and its result is not used) ---------------------------
def density_conc(inp, rep):
    import numpy as np
    from scipy.fft import dctn, idctn
    v = rep['ok'].get('v')
    if not isinstance(v, list) or len(v) != 3:
        return 'result is not a triple'
    g, data = int(inp['grid']), [[float(x) for x in r] for r in inp['data']]
    lo, hi = [min(r) for r in data], [max(r) for r in data]
    at = [[(x - lo[d]) / (hi[d] - lo[d]) * g for x in data[d]] for d in (0, 1)]
    if any(abs(x - round(x)) < 1e-9 and 0.5 < x < g - 0.5 for r in at for x in r):
        return None
    h = np.zeros((g, g))
    for a, b in zip(*at):
        h[min(int(a + 1e-9), g - 1), min(int(b + 1e-9), g - 1)] += 1.0 / len(data[0])
    k = np.arange(g)
    w = [np.exp(-(k * np.pi * float(inp[x])) ** 2 / 2) for x in ('hx', 'hy')]
    d = idctn(dctn(h, 2) * np.outer(*w), 2) * g * g / ((hi[0] - lo[0]) * (hi[1] - lo[1]))
    got = [np.array(x['v'], dtype=float).reshape(x['shape']) for x in v]
    if got[0].shape != (g, g):
        return 'density of another shape'
    err = np.abs(got[0] - np.maximum(d, 0).T).max()
    if not err <= 1e-7 * (1 + np.abs(d).max()):
        return 'density is off by %g' % err
    for m, d_, ax in ((got[1], 0, 1), (got[2], 1, 0)):
        want = np.linspace(lo[d_], hi[d_], g)
        if m.shape != (g, g) or not np.allclose(m, want[None, :] if ax else want[:, None], atol=1e-9 * (1 + abs(hi[d_]) + abs(lo[d_]))):
            return 'grid of coordinate %d' % d_


def spread_out(g):
    n = g.rng.choice([6, 9, 15])
    return {'data': [[Fraction(round(g.rng.gauss(1, 2) * 1000), 1000) for _ in range(n)] for _ in (0, 1)]}


contract(KB + 'bivariate_kernel', Case('samples', dict(data=Mat(2, 'm'), hx=F([0.05, 0.1, 0.2]), hy=F([0.05, 0.1, 0.3]), grid=I(7, 13)), lambda A: SAny(), gen=spread_out, concrete=density_conc,
                                       requires=lambda A: [le(num(5), A.grid), le(num(5), A.data.m), lt(ZERO, A.hx), lt(ZERO, A.hy)] + [lt(Minimum(row(A.data, d), A.data.m), Maximum(row(A.data, d), A.data.m)) for d in (0, 1)]),
         bounded=True, doc='bandwidth search over opaque functions')
