"""Contracts of proadv.statistics.series."""
from specs_stats import *

PI = var('pi', 'R')


# --- moving averages -------------------------------------------------------------------------
def sma_val(d, w):
    """mean of the last min(i+1, w) samples"""
    def at(i):
        lo = ite(lt(i, w), ZERO, i - w + 1)
        return Sum(lambda j: d[j], i + 1, lo) / ite(lt(i, w), i + 1, w)
    return at


def sma_raises(A):
    n, w = A.data.n, A.window_size
    return [('ValueError', bor(le(w, ZERO), band(lt(ZERO, n), lt(n, w))))]


contract(SE + 'moving_average',
         Case('array', {'data': FArr(), 'window_size': I(-1, 9)},
              lambda A: SArr(A.data.n, sma_val(A.data, A.window_size)), raises=sma_raises, fresh=True),
         Case('default window', {'data': FArr(), 'window_size': Default(20)},
              lambda A: SArr(A.data.n, sma_val(A.data, A.window_size)), raises=sma_raises, maxn=45),
         uses=[D + 'mean'])


def ema_val(d, a):
    return Rec(lambda self, i: ite(eq(i, ZERO), d[0], a * d[i] + (1 - a) * self(i - 1)))


contract(SE + 'exponential_moving_average',
         Case('array', {'data': FArr(), 'alpha': F([0.2, 0.5, 1.0, 0.25, 0.0, 1.5])},
              lambda A: SArr(A.data.n, ema_val(A.data, A.alpha)), requires=nonempty('data'),
              raises=lambda A: [('ValueError', bor(le(A.alpha, ZERO), lt(ONE, A.alpha)))], fresh=True),
         Case('int array', {'data': FArr(dt='i'), 'alpha': F([0.2, 0.5, 1.0, 0.25, 0.0, 1.5])},
              lambda A: SArr(A.data.n, ema_val(A.data, A.alpha)), requires=nonempty('data'),
              raises=lambda A: [('ValueError', bor(le(A.alpha, ZERO), lt(ONE, A.alpha)))], fresh=True),
         Case('default alpha', {'data': FArr(), 'alpha': Default(0.2)}, lambda A: SArr(A.data.n, ema_val(A.data, A.alpha)), requires=nonempty('data')))


def wma_val(d, p):
    return lambda k: Sum(lambda j: (j + 1) * d[k + j], p) * 2 / (p * (p + 1))


contract(SE + 'weighted_moving_average',
         Case('array', {'data': FArr(), 'period': I(-1, 9)},
              lambda A: SArr(A.data.n - A.period, wma_val(A.data, A.period)),
              raises=lambda A: [('ValueError', bor(le(A.period, ZERO), lt(A.data.n, A.period)))]),
         Case('default period', {'data': FArr(), 'period': Default(20)},
              lambda A: SArr(A.data.n - A.period, wma_val(A.data, A.period)), raises=lambda A: [('ValueError', lt(A.data.n, A.period))], maxn=45))


# --- Kalman -----------------------------------------------------------------------------------
def kalman_args(dt='f'):
    return {'data': FArr(), 'initial_state': Mat(1, 1), 'initial_covariance': Mat(1, 1), 'process_noise': Mat(1, 1),
            'measurement_noise': Mat(1, 1)}


def kalman_req(A):
    return [le(ZERO, A.initial_covariance[0, 0]), le(ZERO, A.process_noise[0, 0]), lt(ZERO, A.measurement_noise[0, 0])]


def kalman_state(A, d):
    """state estimate after sample i: prediction P+Q, gain K=(P+Q)/(P+Q+R), x+K(z-x), covariance (1-K)(P+Q)"""
    x0, p0, q, r = A.initial_state[0, 0], A.initial_covariance[0, 0], A.process_noise[0, 0], A.measurement_noise[0, 0]
    cov = Rec(lambda self, k: ite(le(k, ZERO), p0, (self(k - 1) + q) * (1 - (self(k - 1) + q) / (self(k - 1) + q + r))))
    gain = lambda i: (cov(i) + q) / (cov(i) + q + r)
    st = Rec(lambda self, k: ite(le(k, ZERO), x0, self(k - 1) + gain(k - 1) * (d[k - 1] - self(k - 1))))
    return lambda i: st(i + 1)


def kalman_gen(g):
    n = g.size('n')
    pos = lambda: [[Fraction(g.rng.randint(1, 40), 8)]]
    return {'initial_covariance': pos(), 'process_noise': pos(), 'measurement_noise': pos()}


contract(SE + 'kalman_filter',
         Case('array', kalman_args(), lambda A: SArr((A.data.n, 1, 1), lambda i, j, k: kalman_state(A, A.data)(i)),
              requires=lambda A: kalman_req(A) + [lt(ZERO, A.data.n)], gen=kalman_gen))


# --- singular spectrum analysis -----------------------------------------------------------------
def diag_val(m, L, n):
    """mean of the entries of the antidiagonal i of an L x (n-L+1) matrix, rounded to 4 decimals"""
    def at(i):
        K = n - L + 1
        lo = ite(lt(i, K), ZERO, i - K + 1)
        hi = ite(lt(i, L), i + 1, L)
        # the entries are summed along the shorter side (the same set of entries either way)
        lo2 = ite(lt(i, L), ZERO, i - L + 1)
        hi2 = ite(lt(i, K), i + 1, K)
        rows = Sum(lambda j: m[j, i - j], hi, lo) / (hi - lo)
        cols = Sum(lambda j: m[i - j, j], hi2, lo2) / (hi2 - lo2)
        return Round(ite(lt(L, K), rows, cols), 4)
    return at


contract(SE + '_diagonal_average',
         Case('matrix', {'matrix': Mat('L', 'K'), 'length': I(), 'size': I()},
              lambda A: SArr(A.size, diag_val(A.matrix, A.length, A.size)),
              requires=lambda A: [lt(ZERO, A.matrix.n), lt(ZERO, A.matrix.m), eq(A.length, A.matrix.n), eq(A.size, A.matrix.n + A.matrix.m - 1)],
              gen=lambda g: {'length': g.size('L'), 'size': g.size('L') + g.size('K') - 1}, sizes={'L': [1, 2, 3, 4, 5], 'K': [1, 2, 3, 4, 6]}),
         internal=True, uses=[D + 'min', D + 'max'])

contract(SE + '_mobility',
         Case('array', {'x': FArr()},
              lambda A: SNum(sqrt(Sum(lambda j: (A.x[j + 1] - A.x[j]) ** 2, A.x.n - 1)) / (A.x.n - 1)
                             / Round(sqrt(Sum(lambda j: A.x[j] ** 2, A.x.n)) / A.x.n, 4)),
              raises=lambda A: [('ValueError', lt(A.x.n, num(2)))],
              requires=lambda A: [imp(le(num(2), A.x.n), lt(ZERO, Round(sqrt(Sum(lambda j: A.x[j] ** 2, A.x.n)) / A.x.n, 4)))]),
         internal=True)


def mobility(g, n):
    return sqrt(Sum(lambda j: (g(j + 1) - g(j)) ** 2, n - 1)) / (n - 1) / Round(sqrt(Sum(lambda j: g(j) ** 2, n)) / n, 4)


def eigvec(cov, L):
    """orthonormal eigenvectors of a symmetric matrix, as numpy.linalg.eigh returns them (trusted)"""
    i, j = fresh('i', 'I'), fresh('j', 'I')
    l = lam([i, j], lift(cov(i, j)))
    return lambda r, c: uf('eigvec', l, L, lift(r), lift(c), sort='R')


def ssa_parts(A, x):
    n = x.n
    L = tceil(A.fs / A.f)
    K = n - L + 1
    U = eigvec(lambda r, s: Sum(lambda k: x[r + k] * x[s + k], K), L)
    wave = lambda j: sin(2 * PI * j * A.f / A.fs)
    return n, L, K, U, wave


def ssa_val(A, x):
    n, L, K, U, wave = ssa_parts(A, x)
    sel = lambda c: le(mobility(lambda j: U(j, c), L), mobility(wave, L))

    class Y:
        def __getitem__(self, rk):
            r, k = rk
            return Sum(lambda s: Sum(lambda c: ite(sel(c), U(r, c) * U(s, c), ZERO), L) * x[s + k], L)
    return diag_val(Y(), L, n)


def ssa_req(A, x=None):
    x = x or A.x
    yield lt(ZERO, A.fs)
    yield lt(ZERO, A.f)
    L = tceil(A.fs / A.f)
    yield le(num(2), L)
    yield lt(L, x.n)
    n, L, K, U, wave = ssa_parts(A, x)
    nrm = lambda g: Round(sqrt(Sum(lambda j: g(j) ** 2, L)) / L, 4)
    # the rounded norms by which mobilities are divided do not vanish (unit eigenvectors: L < 20000)
    yield bnot(eq(nrm(wave), ZERO))
    yield Forall(0, L, lambda c: bnot(eq(nrm(lambda j: U(j, c)), ZERO)))


def ssa_gen(g, name='x'):
    f = g.rng.choice([0.5, 1.0, 2.0, 3.0])
    L = g.rng.randint(2, 5)
    n = g.rng.choice([L + 1, 2 * L - 1, 2 * L - 1, 2 * L, 2 * L + 1, 9])     # wide, square and tall trajectory matrices
    n = max(n, L + 1)
    g.sz['n'] = n
    return {'fs': f * L if g.rng.random() < 0.7 else f * (L - 0.5), 'f': f, name: g.values(n)}


contract(SE + 'ssa',
         Case('array', {'x': FArr(), 'fs': F(), 'f': F()}, lambda A: SArr(A.x.n, ssa_val(A, A.x)),
              requires=ssa_req, gen=ssa_gen, maxn=13),
         uses=[SE + '_diagonal_average', SE + '_mobility'])
