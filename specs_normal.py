"""Contracts of proadv.statistics.distributions.normal and of the optimisers."""
from specs_signal import *

N_ = 'proadv.statistics.distributions.normal:'
HALF = num(Fraction(1, 2))


def Phi(x):
    """standard normal distribution function"""
    return HALF + HALF * erf(x / sqrt(num(2)))


def dens(x, s, m):
    return exp(-HALF * log(2 * PI) - log(s) - (x - m) ** 2 / (2 * s * s))


SX = {'array': FArr()}
PX = dict(SX, std=F([1.0, 2.0, 0.5, 3.0]), mean=F([0.0, 1.0, -2.0]))
DX = dict(SX, std=Default(1), mean=Default(0))
contract(N_ + 'cdf', Case('array', SX, lambda A: SArr(A.array.n, lambda i: Phi(A.array[i])), raises=empty('array')),
         Case('int array', {'array': FArr(dt='i')}, lambda A: SArr(A.array.n, lambda i: Phi(A.array[i])), raises=empty('array')),
         Case('number', {'array': F()}, lambda A: SArr((), lambda: Phi(A.array))),
         Case('numpy number', {'array': F(np=True)}, lambda A: SArr((), lambda: Phi(A.array))))
contract(N_ + 'sf', Case('array', SX, lambda A: SArr(A.array.n, lambda i: 1 - Phi(A.array[i])), raises=empty('array')), uses=[N_ + 'cdf'])
contract(N_ + 'log_cdf', Case('array', SX, lambda A: SArr(A.array.n, lambda i: log(Phi(A.array[i]))), raises=empty('array')), uses=[N_ + 'cdf'])
contract(N_ + 'log_sf', Case('array', SX, lambda A: SArr(A.array.n, lambda i: log(1 - Phi(A.array[i]))), raises=empty('array')), uses=[N_ + 'sf'])
contract(N_ + 'pdf', Case('array', PX, lambda A: SArr(A.array.n, lambda i: dens(A.array[i], A.std, A.mean)), raises=empty('array'),
                          requires=lambda A: [lt(ZERO, A.std)]),
         Case('defaults', DX, lambda A: SArr(A.array.n, lambda i: dens(A.array[i], A.std, A.mean)), raises=empty('array')))
contract(N_ + 'log_pdf', Case('array', PX, lambda A: SArr(A.array.n, lambda i: log(dens(A.array[i], A.std, A.mean))), raises=empty('array'),
                              requires=lambda A: [lt(ZERO, A.std)]),
         Case('defaults', DX, lambda A: SArr(A.array.n, lambda i: log(dens(A.array[i], A.std, A.mean))), raises=empty('array')), uses=[N_ + 'pdf'])

# --- normality tests ------------------------------------------------------------------------------
def p_value(z, alt):
    return {'two-sided': 2 * (1 - Phi(tabs(z))), 'greater': 1 - Phi(z), 'less': Phi(z)}[alt]


def skew_z(x):
    """D'Agostino's transform of the sample skewness to a normal deviate"""
    n, mu, s = x.n, Mean(x), Std(x)
    g = Sum(lambda j: (x[j] - mu) ** 3, n) / n / s ** 3
    y = g * sqrt((n + 1) * (n + 3) / (6 * (n - 2)))
    y = ite(eq(y, ZERO), ONE, y)
    beta2 = 3 * (n ** 2 + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = sqrt(2 * (beta2 - 1)) - 1
    u = y / sqrt(2 / (w2 - 1))
    return log(u + sqrt(u ** 2 + 1)) / sqrt(HALF * log(w2))


def kurt_parts(x):
    """a, denominator of the ratio under the cube root"""
    n, mu, s = x.n, Mean(x), Std(x)
    b = Sum(lambda j: (x[j] - mu) ** 4, n) / n / s ** 4
    z = (b - 3 * (n - 1) / (n + 1)) / sqrt(24 * n * (n - 2) * (n - 3) / ((n + 1) * (n + 1) * (n + 3) * (n + 5)))
    r = 6 * (n ** 2 - 5 * n + 2) / ((n + 7) * (n + 9)) * sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6 + 8 / r * (2 / r + sqrt(1 + 4 / r ** 2))
    return a, 1 + z * sqrt(2 / (a - 4))


def kurt_z(x):
    """the Anscombe-Glynn transform of the sample kurtosis to a normal deviate"""
    a, d = kurt_parts(x)
    root = power((1 - 2 / a) / tabs(d), num(Fraction(1, 3)))
    return (1 - 2 / (9 * a) - ite(lt(d, ZERO), -root, root)) / sqrt(2 / (9 * a))


def normality(z, alt, least, more=lambda A: [], **kw):
    return Case(alt, dict(data=FArr(), alternative=Const(alt), **kw), lambda A: STup(SNum(z(A.data)), SNum(p_value(z(A.data), alt))),
                requires=lambda A: spread_out('data')(A) + more(A), raises=lambda A: [('ValueError', lt(A.data.n, num(least)))])


def smooth(A):
    a, d = kurt_parts(A.data)
    return [bnot(eq(d, ZERO)), lt(ZERO, (1 - 2 / a) / tabs(d))]     # the second follows from the first, as a > 6


contract(N_ + 'skewtest', *[normality(skew_z, a, 8) for a in ('two-sided', 'greater', 'less')], uses=[MO + 'skewness', N_ + 'cdf'])
contract(N_ + 'kurtotest', *[normality(kurt_z, a, 5, smooth) for a in ('two-sided', 'greater', 'less')], uses=[MO + 'kurtosis', N_ + 'cdf'])
