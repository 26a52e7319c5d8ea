"""Contracts of proadv.filtration and of the signal helpers."""
from specs_series import *
from pv.loops import Inv

R = 'proadv.filtration.replacement.replacements:'
DT = 'proadv.filtration.detection.'
FL = 'proadv.statistics.signal.fluid:'


def tabs(x):
    return ite(le(ZERO, x), x, -x)


def tlog(x):
    return log(lift(x))


# --- replacement ---------------------------------------------------------------------------------
def vs(dt='f'):
    return {'velocities': FArr(dt=dt), 'spike_indices': IdxSet('n')}


def replaced(A, val):
    """the record with the flagged samples given by val and every other sample as it was"""
    return SArr(A.velocities.n, lambda i: ite(A.spike_indices.has(i), val(i), A.velocities[i]))


def carry(v, flagged):
    """each flagged sample takes the value before it (itself possibly carried); the first sample has none before it"""
    return Rec(lambda self, i: ite(band(lt(ZERO, i), flagged(i)), self(i - 1), v[i]))


def lvd(A):
    return SArr(A.velocities.n, carry(A.velocities, A.spike_indices.has))


contract(R + 'last_valid_data', Case('array', vs(), lvd))
contract(R + 'mean_value', Case('array', vs(), lambda A: replaced(A, lambda i: Mean(A.velocities)), requires=nonempty('velocities')), uses=[D + 'mean'])
contract(R + 'median_value', Case('array', vs(), lambda A: replaced(A, lambda i: Median(A.velocities)), requires=nonempty('velocities')), uses=[D + 'median'])

SMA_RAISES = lambda A: [('ValueError', bor(le(A.window_size, ZERO), band(lt(ZERO, A.velocities.n), lt(A.velocities.n, A.window_size))))]
contract(R + 'simple_moving_average',
         Case('array', dict(vs(), window_size=I(-1, 9)), lambda A: replaced(A, sma_val(A.velocities, A.window_size)), raises=SMA_RAISES),
         Case('default window', dict(vs(), window_size=Default(20)), lambda A: replaced(A, sma_val(A.velocities, A.window_size)), raises=SMA_RAISES, maxn=45),
         uses=[SE + 'moving_average'])
contract(R + 'exponential_moving_average',
         Case('array', dict(vs(), alpha=F([0.2, 0.5, 1.0, 0.25, 0.0, 1.5])), lambda A: replaced(A, ema_val(A.velocities, A.alpha)),
              requires=nonempty('velocities'), raises=lambda A: [('ValueError', bor(le(A.alpha, ZERO), lt(ONE, A.alpha)))]),
         Case('default alpha', dict(vs(), alpha=Default(0.2)), lambda A: replaced(A, ema_val(A.velocities, A.alpha)), requires=nonempty('velocities')),
         uses=[SE + 'exponential_moving_average'])
contract(R + 'ssa',
         Case('array', dict(vs(), fs=F(), f=F()), lambda A: replaced(A, ssa_val(A, A.velocities)),
              requires=lambda A: ssa_req(A, A.velocities), maxn=13,
              gen=lambda g: {'fs': g.rng.choice([1.0, 2.0, 4.0, 10.0, 8.0]), 'f': g.rng.choice([0.5, 1.0, 2.0, 3.0])}),
         uses=[SE + 'ssa'])
contract(R + 'kalman_filter',
         Case('array', dict(vs(), **{k: v for k, v in kalman_args().items() if k != 'data'}),
              lambda A: replaced(A, kalman_state(A, A.velocities)), requires=lambda A: kalman_req(A) + [lt(ZERO, A.velocities.n)], gen=kalman_gen),
         uses=[SE + 'kalman_filter'])


def linint(A):
    v, s, n = A.velocities, A.spike_indices, A.velocities.n

    def at(i):
        p = Last(0, i + 1, lambda k: bnot(s.has(k)))
        q = First(i, n, lambda k: bnot(s.has(k)))
        inner = v[p] + (v[q] - v[p]) * (i - p) / (q - p)
        return Round(ite(s.has(i), ite(le(n, q), Mean(v), ite(lt(p, ZERO), v[q], inner)), v[i]), A.decimals)
    return SArr(n, at)


contract(R + 'linear_interpolation',
         Case('array', dict(vs(), decimals=I(0, 5)), linint, requires=nonempty('velocities'),
              runs=lambda A: [(A.velocities.n, A.spike_indices.has)]),
         Case('default decimals', dict(vs(), decimals=Default(4)), linint, requires=nonempty('velocities'),
              runs=lambda A: [(A.velocities.n, A.spike_indices.has)]), uses=[D + 'mean'])

# a flagged sample at which the weighted average has no entry (the last period samples) is a documented finding, not claimed
contract(R + 'weighted_moving_average',
         Case('array', dict(vs(), period=I(-1, 9)), lambda A: replaced(A, wma_val(A.velocities, A.period)),
              raises=lambda A: [('ValueError', bor(le(A.period, ZERO), lt(A.velocities.n, A.period)))],
              requires=lambda A: [Forall(0, A.velocities.n, lambda i: imp(A.spike_indices.has(i), lt(i, A.velocities.n - A.period)))]),
         uses=[SE + 'weighted_moving_average'])


def Kth(N, p, k):
    """the position of the k-th index of [0, N) with p"""
    j = fresh('j', 'I')
    return uf('enum', lam([j], p(j)), lift(N), lift(k), sort='I')


def spline_at(xs, ys, m, kind, z):
    """scipy.interpolate.interp1d(xs, ys, kind)(z) on m points (trusted)"""
    j = fresh('j', 'I')
    return uf('spline', lam([j], lift(xs(j))), lam([j], lift(ys(j))), num(m), num(kind), lift(z), sort='R')


def cubic_rec(A):
    v, s, n = A.velocities, A.spike_indices, A.velocities.n

    def rep(self, i):
        good = lambda j: bnot(s.has(i + j))
        cnt = Count(good, n - i)
        nxt = lambda k: v[i + Kth(n - i, good, k)]
        near = ite(eq(i, ZERO), Round(nxt(ZERO), 4), ite(eq(cnt, ZERO), Round(self(i - 1), 4), Round((self(i - 1) + nxt(ZERO)) / 2, 4)))
        far = spline_at(lambda k: k + 1 + ind(le(num(12), k)), lambda k: ite(lt(k, num(12)), self(i - 12 + k), nxt(k - 12)), 24, 3, num(13))
        return ite(s.has(i), ite(bor(le(i, num(30)), le(n - 30, i), lt(cnt, num(12))), near, far), v[i])
    return Rec(rep)


# the loop invariants that the weaker contracts of a function need
WEAK = {}


def gaps(A, E, i):
    return band(A.spike_indices.has(i), le(E.t, i))


for name, keeps in (('frame', lambda A, i: bnot(A.spike_indices.has(i))), ('pure', lambda A, i: FALSE)):
    WEAK[R + 'cubic_12points_polynomial', name] = lambda A, keeps=keeps: [
        Inv((), lambda E: [], arrs={'modified_data': lambda E, i: (A.velocities[i], gaps(A, E, i), keeps(A, i))})]


def cubic_case(name, args, **kw):
    return Case(name, args, lambda A: SArr(A.velocities.n, lambda i: Round(cubic_rec(A)(i), A.decimals)),
                requires=lambda A: [lt(ZERO, Count(lambda i: bnot(A.spike_indices.has(i)), A.velocities.n))],
                invariants=lambda A: [Inv((), lambda E: [], arrs={'modified_data': lambda E, i: (ite(lt(i, E.t), cubic_rec(A)(i), A.velocities[i]),
                                                                                                band(A.spike_indices.has(i), le(E.t, i)))})],
                sizes={'n': [12, 26, 45, 64, 65, 70, 80]}, **kw)


contract(R + 'cubic_12points_polynomial', cubic_case('array', dict(vs(), decimals=I(0, 5))), cubic_case('integers', dict(vs('i'), decimals=I(0, 5))),
         cubic_case('default decimals', dict(vs(), decimals=Default(4))))



class View:
    """a record given by a function"""
    def __init__(self, n, f):
        self.n, self.f = n, f

    def __getitem__(self, i):
        return self.f(lift(i))


def linint_at(v, n, has, mean, decimals, i):
    p = Last(0, i + 1, lambda k: bnot(has(k)))
    q = First(i, n, lambda k: bnot(has(k)))
    inner = v[p] + (v[q] - v[p]) * (i - p) / (q - p)
    return Round(ite(has(i), ite(le(n, q), mean, ite(lt(p, ZERO), v[q], inner)), v[i]), decimals)


def ols_at(lo, hi, y, degree, z):
    """value at z of the least squares polynomial through (x, y(x)), x = lo .. hi-1 (sklearn, trusted)"""
    j = fresh('j', 'I')
    return uf('olsfit', lam([j], lift(lo + j)), lam([j], lift(y(lo + j))), lift(hi - lo), lift(degree), lift(z), sort='R')


class Poly:
    """polynomial_replacement: index 0 takes the mean; if any of the samples 1..10 is flagged, the flagged ones of the first eleven are interpolated
    linearly (which rounds the record); every later one is extrapolated from the `window` samples before it, themselves repaired"""
    def __init__(self, A):
        v, s, n = A.velocities, A.spike_indices, A.velocities.n
        self.A, self.n = A, n
        self.v0 = lambda i: ite(band(eq(i, ZERO), s.has(ZERO)), Mean(v), v[i])
        f = First(1, 11, s.has)
        self.early = lambda t: band(lt(f, num(11)), lt(f, t))
        early = lambda k: band(s.has(k), le(k, num(10)))
        V0 = View(n, self.v0)
        self.interp = lambda i: linint_at(V0, n, early, Mean(V0.f, n), A.decimals, i)
        w = A.window
        self.rec = Rec(lambda self_, i: ite(band(s.has(i), le(num(11), i)),
                                            ols_at(ite(lt(i, w), ZERO, i - w), i, self_, A.degree, i), self.base(num(11), i)))

    def base(self, t, i):
        return ite(self.early(t), self.interp(i), ite(le(ONE, t), self.v0(i), self.A.velocities[i]))

    def at(self, t, i):
        return ite(band(le(num(11), i), lt(i, t)), self.rec(i), self.base(t, i))


WEAK[R + 'polynomial_replacement', 'pure'] = lambda A: [
    Inv(('a',), lambda E: [], ints=('a',), arrs={'modified_data': lambda E, i: (A.velocities[i], FALSE, FALSE)})]
WEAK[R + 'polynomial_replacement', 'frame'] = lambda A: [
    Inv(('a',), lambda E: [('interpolated once', band(le(ZERO, E('a')), le(E('a'), ONE)))], ints=('a',),
        arrs={'modified_data': lambda E, i: (ite(lt(ZERO, E('a')), Round(A.velocities[i], A.decimals), A.velocities[i]), FALSE,
                                             bnot(A.spike_indices.has(i)))})]


def poly_case(name, args, sizes):
    return Case(name, args, lambda A: SArr(A.velocities.n, lambda i: Round(Poly(A).at(A.velocities.n, i), A.decimals)),
                requires=lambda A: [lt(ZERO, A.velocities.n), le(ONE, A.window), le(ZERO, A.degree)],
                invariants=lambda A: [Inv(('a',), lambda E: [('interpolated once', eq(E('a'), ind(Poly(A).early(E.t))))], ints=('a',),
                                          arrs={'modified_data': lambda E, i: (Poly(A).at(E.t, i), FALSE)})],
                sizes={'n': sizes})


POLY = dict(window=I(1, 20), degree=I(0, 3), decimals=I(0, 5))
contract(R + 'polynomial_replacement', poly_case('array', dict(vs(), **POLY), [3, 8, 12, 15, 26, 40]),
         poly_case('integers', dict(vs('i'), **POLY), [3, 8, 12, 15, 26, 40]),
         poly_case('defaults', dict(vs(), window=Default(100), degree=Default(2), decimals=Default(4)), [12, 26, 101, 120]),
         uses=[R + 'linear_interpolation'])


# --- detection -----------------------------------------------------------------------------------
def accel(tag):
    def r(A):
        v, n = A.velocities, A.velocities.n
        mu, sd = Mean(v), Std(v)
        if tag == 1:
            p = lambda i: band(lt(A.k_gravity * A.gravity, (v[i] - v[i - 1]) * A.frequency), lt(mu + A.k_sigma * sd, v[i]))
            p0 = band(lt(A.k_gravity * A.gravity, ZERO), lt(mu + A.k_sigma * sd, v[0]))
        else:
            p = lambda i: band(lt((v[i] - v[i - 1]) * A.frequency, -A.k_gravity * A.gravity), lt(v[i], mu - A.k_sigma * sd))
            p0 = band(lt(ZERO, -A.k_gravity * A.gravity), lt(v[0], mu - A.k_sigma * sd))
        return SIdx(n, lambda i: ite(eq(i, ZERO), p0, p(i)))
    return r


AD = {'velocities': FArr(), 'frequency': F([1.0, 25.0, 100.0, 50.0, 0.5]), 'gravity': Default(980), 'k_gravity': Default(1.5), 'k_sigma': Default(1)}
AC = {'velocities': FArr(), 'frequency': F([1.0, 25.0, 100.0, 50.0, 0.5]), 'gravity': F([980.0, 9.8, 1.0, 0.0, 2.0]),
      'k_gravity': F([1.5, 1.0, 0.5, 0.1]), 'k_sigma': F([1.0, 0.5, 0.0, 2.0])}
contract(DT + 'acceleration:acceleration_thresholding',
         Case('up', dict(AC, tag=Const(1)), accel(1), requires=nonempty('velocities')),
         Case('down', dict(AC, tag=Const(2)), accel(2), requires=nonempty('velocities')),
         Case('other tag', dict(AC, tag=Const(3)), lambda A: SAny(), requires=nonempty('velocities'), raises=lambda A: [('ValueError', TRUE)]),
         Case('up, defaults', dict(AD, tag=Const(1)), accel(1), requires=nonempty('velocities')),
         Case('down, defaults', dict(AD, tag=Const(2)), accel(2), requires=nonempty('velocities')),
         uses=[SP + 'std'])

contract(DT + 'pollution:pollution_rate',
         Case('array', {'x': FArr(), 'xfil': FArr(), 'k': F([0.5, 1.0, 2.0, 0.25])},
              lambda A: SNum(Count(lambda j: bor(lt(A.xfil[j] + A.k * Std(A.x), A.x[j]), lt(A.x[j], A.xfil[j] - A.k * Std(A.x))), A.x.n) / A.x.n * 100),
              requires=lambda A: [lt(ZERO, A.x.n), le(ZERO, A.k)]), uses=[SP + 'std'])


def premod(A):
    d, n = A.data, A.data.n
    med = Median(d)
    mad = Median(lambda j: tabs(d[j] - med), n)
    thr = A.c2 * mad * sqrt(2 * tlog(n))
    at = carry(d, lambda i: bor(lt(thr, d[i]), lt(d[i], -thr)))
    return STup(SArr(n, at), SIdx(n, lambda i: band(le(-A.c1 * mad, d[i]), le(d[i], A.c1 * mad))))


contract(DT + 'phasespace:phasespace_thresholding_premodification',
         Case('array', {'data': FArr(), 'c1': F([1.5, 1.0, 0.5]), 'c2': F([1.35, 1.0, 0.3])}, premod, requires=nonempty('data')),
         Case('defaults', {'data': FArr(), 'c1': Default(1.5), 'c2': Default(1.35)}, premod, requires=nonempty('data')))

# --- ellipses --------------------------------------------------------------------------------------
def ab(s1, s2, th, la):
    c, s = cos(th), sin(th)
    r1, r2 = la * s1, la * s2
    f = c ** 4 - s ** 4
    fa = (r1 ** 2 * c ** 2 - r2 ** 2 * s ** 2) / f
    fb = (r2 ** 2 * c ** 2 - r1 ** 2 * s ** 2) / f
    ok = band(lt(ZERO, fa), lt(ZERO, fb))
    big = num(10 ** 10)
    return ite(ok, sqrt(fa), big), ite(ok, sqrt(fb), big), f


def rho(x, y, th, a, b):
    c, s = cos(th), sin(th)
    return ((x * c + y * s) / a) ** 2 + ((y * c - x * s) / b) ** 2


contract(DT + 'poincare:calculate_ab',
         Case('numbers', {'std1': F(np=True), 'std2': F(np=True), 'theta': F(np=True), 'lambda_': F(np=True)},
              lambda A: STup(*[SNum(t) for t in ab(A.std1, A.std2, A.theta, A.lambda_)[:2]]),
              requires=lambda A: [bnot(eq(ab(A.std1, A.std2, A.theta, A.lambda_)[2], ZERO))]))
contract(DT + 'poincare:calculate_rho',
         Case('arrays', {'x': FArr(), 'y': FArr(), 'theta': F(np=True), 'a': F(np=True), 'b': F(np=True)},
              lambda A: SArr(A.x.n, lambda i: rho(A.x[i], A.y[i], A.theta, A.a, A.b)),
              requires=lambda A: [lt(ZERO, A.a), lt(ZERO, A.b)]))

# --- fluid -------------------------------------------------------------------------------------------
def cov(x, y):
    mx, my = Mean(x), Mean(y)
    return Mean(lambda j: (x[j] - mx) * (y[j] - my), x.n)


contract(FL + 'kinetic_turbulent_energy',
         Case('arrays', {'u': FArr(), 'v': FArr('m'), 'w': FArr('k')}, lambda A: SNum((Var(A.u) + Var(A.v) + Var(A.w)) / 2),
              requires=lambda A: [lt(ZERO, A.u.n), lt(ZERO, A.v.n), lt(ZERO, A.w.n)]), uses=[D + 'mean'])
contract(FL + 'reynolds_stresses',
         Case('arrays', {'ui': FArr(), 'vi': FArr(), 'wi': FArr()},
              lambda A: STup(SNum(Var(A.ui)), SNum(Var(A.vi)), SNum(Var(A.wi)), SNum(cov(A.ui, A.vi)), SNum(cov(A.ui, A.wi)), SNum(cov(A.vi, A.wi))),
              requires=lambda A: [lt(ZERO, A.ui.n)]), uses=[D + 'mean'])


# --- velocity correlation -----------------------------------------------------------------------------
def centred(x):
    mu = Mean(x)
    return FView(x.n, lambda j: x[j] - mu)


def vc_ellipses(A):
    """(x, y, theta, lambda, std x, std y) of the three planes"""
    u, v, w = centred(A.ui), centred(A.vi), centred(A.wi)
    n = u.n
    la = sqrt(2 * tlog(n))
    dot = lambda x, y: Sum(lambda j: x[j] * y[j], n)
    return [(x, y, arctan(dot(x, y) / dot(x, x)), la, Std(x), Std(y)) for x, y in ((u, v), (u, w), (v, w))]


def vc(A):
    es = vc_ellipses(A)

    def out(i):
        cs = []
        for x, y, th, la, sx, sy in es:
            a, b, _ = ab(sx, sy, th, la)
            cs.append(lt(ONE, rho(x[i], y[i], th, a, b)))
        return bor(*cs)
    return SIdx(A.ui.n, out)


def vc_req(A):
    yield lt(ONE, A.ui.n)
    yield lt(ZERO, Var(A.ui))
    yield lt(ZERO, Var(A.vi))
    for x, y, th, la, sx, sy in vc_ellipses(A):
        yield bnot(eq(ab(sx, sy, th, la)[2], ZERO))


contract(DT + 'correlation:velocity_correlation',
         Case('arrays', {'ui': FArr(), 'vi': FArr(), 'wi': FArr()}, vc, requires=vc_req),
         uses=[D + 'mean', SP + 'std', DT + 'poincare:calculate_ab', DT + 'poincare:calculate_rho'])


# --- phase space ----------------------------------------------------------------------------------------
def pdiff(c, n):
    return FView(n, Def(lambda i: ite(band(lt(ZERO, i), lt(i, n - 1)), Round((c[i + 1] - c[i - 1]) / 2, 4), ZERO)))


def ps_parts(A):
    c = A.c
    n = c.n
    dc = pdiff(c, n)
    dc2 = pdiff(dc, n)
    la = sqrt(2 * tlog(n))
    th = arctan(Sum(lambda j: c[j] * dc2[j], n) / Sum(lambda j: c[j] ** 2, n))
    a1, b1, b2 = la * Std(c), la * Std(dc), la * Std(dc2)
    co, si = cos(th), sin(th)
    f = co ** 4 - si ** 4
    fa = (a1 ** 2 * co ** 2 - b2 ** 2 * si ** 2) / f
    fb = (b2 ** 2 * co ** 2 - a1 ** 2 * si ** 2) / f
    return c, dc, dc2, n, la, th, a1, b1, b2, f, fa, fb


def ps(A):
    c, dc, dc2, n, la, th, a1, b1, b2, f, fa, fb = ps_parts(A)
    return SIdx(n, lambda i: bor(lt(ONE, rho(c[i], dc[i], ZERO, a1, b1)), lt(ONE, rho(dc[i], dc2[i], ZERO, b1, b2)),
                                 lt(ONE, rho(c[i], dc2[i], th, sqrt(fa), sqrt(fb)))))


def ps_req(A):
    yield lt(ONE, A.c.n)
    yield lt(ZERO, Var(A.c))
    c, dc, dc2, n, la, th, a1, b1, b2, f, fa, fb = ps_parts(A)
    yield lt(ZERO, Var(dc))
    yield lt(ZERO, Var(dc2))
    yield bnot(eq(f, ZERO))
    yield lt(ZERO, fa)
    yield lt(ZERO, fb)


contract(DT + 'phasespace:calculate_derivatives',
         Case('array', {'c': FArr()}, lambda A: (lambda d: STup(SArr(A.c.n, lambda i: d[i]), SArr(A.c.n, pdiff(d, A.c.n).get)))(pdiff(A.c, A.c.n))),
         internal=True)
contract(DT + 'phasespace:phasespace_thresholding',
         Case('array', {'c': FArr()}, ps, requires=ps_req),
         uses=[SP + 'std', DT + 'poincare:calculate_rho', DT + 'phasespace:calculate_derivatives'])


# --- spherical phase space --------------------------------------------------------------------------------
def gradient(c):
    n = c.n
    return FView(n, Def(lambda i: ite(eq(i, ZERO), c[1] - c[0], ite(eq(i, n - 1), c[n - 1] - c[n - 2], (c[i + 1] - c[i - 1]) / 2))))


def sph_centre(A):
    c = A.c
    mu = Mean(c)
    return FView(c.n, Def(lambda i: Round(c[i] - mu, 4)))


def sph_rot(f, dc, dc2, th):
    n = f.n
    C_, S_ = Round(cos(th), 4), Round(sin(th), 4)
    z = eq(th, ZERO)
    X = FView(n, Def(lambda i: ite(z, f[i], Round(f[i] * C_ + dc2[i] * S_, 4))))
    Y = FView(n, Def(lambda i: ite(z, dc[i], Round(dc[i], 4))))
    Z = FView(n, Def(lambda i: ite(z, dc2[i], Round(dc2[i] * C_ - f[i] * S_, 4))))
    return X, Y, Z


def sph_axes(X, Y, Z):
    la = Round(sqrt(2 * tlog(X.n)), 4)
    return [Round(la * Std(v), 4) for v in (X, Y, Z)]


def sph_den(a, b, c, x, y, z):
    return (a * c * y) ** 2 + b ** 2 * (c ** 2 * x ** 2 + a ** 2 * z ** 2)


def sph_out(a, b, c, x, y, z):
    """the point lies farther from the origin than the point of the ellipsoid in the same direction"""
    d = sqrt(sph_den(a, b, c, x, y, z))
    x2 = Round(a * b * c * x / d, 4)
    y2 = Round(a * b * c * y / d, 4)
    zt = Round(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4)
    z2 = ite(eq(z, ZERO), ZERO, Round(sqrt(zt), 4) ** 2)
    return band(bor(eq(z, ZERO), le(ZERO, zt)), lt(x2 ** 2 + y2 ** 2 + z2, x ** 2 + y ** 2 + z ** 2))


def sph_parts(A):
    f = sph_centre(A)
    dc = gradient(f)
    dc2 = gradient(dc)
    th = Round(arctan2(Sum(lambda j: f[j] * dc[j], f.n), Sum(lambda j: dc2[j] ** 2, f.n)), 4)
    return f, dc, dc2, th


def sph(A):
    X, Y, Z = sph_rot(*sph_parts(A))
    a, b, c = sph_axes(X, Y, Z)
    return SIdx(A.c.n, lambda i: sph_out(a, b, c, X[i], Y[i], Z[i]))


def sph_req(A):
    yield lt(num(2), A.c.n)
    X, Y, Z = sph_rot(*sph_parts(A))
    a, b, c = sph_axes(X, Y, Z)
    yield lt(ZERO, a)
    yield lt(ZERO, b)
    yield lt(ZERO, c)
    yield Forall(0, A.c.n, lambda i: lt(ZERO, sph_den(a, b, c, X[i], Y[i], Z[i])))


SPH = DT + 'spherical:'
contract(SPH + '_gradients', Case('array', {'c': FArr()}, lambda A: (lambda d: STup(SArr(A.c.n, d.get), SArr(A.c.n, gradient(d).get)))(gradient(A.c)),
                                  requires=lambda A: [lt(ONE, A.c.n)]), internal=True)
contract(SPH + '_descript',
         Case('first', {'c': FArr(), 'iteration': Const(1), 'c_mean': F()},
              lambda A: STup(SArr(A.c.n, sph_centre(A).get), SNum(Round(Mean(A.c), 4))), requires=lambda A: [lt(ZERO, A.c.n)]),
         Case('later', {'c': FArr(), 'iteration': Const(2), 'c_mean': F()},
              lambda A: STup(SArr(A.c.n, sph_centre(A).get), SNum(Round(A.c_mean + Mean(A.c), 4))), requires=lambda A: [lt(ZERO, A.c.n)]), internal=True)
contract(SPH + '_rotation',
         Case('arrays', {'c': FArr(), 'dc': FArr(), 'dc2': FArr(), 'theta': F([0.0, 0.5, -1.0, 1.5], np=True)},
              lambda A: STup(*[SArr(A.c.n, v.get) for v in sph_rot(A.c, A.dc, A.dc2, A.theta)])), internal=True)
contract(SPH + '_spike_indices',
         Case('arrays', {'x': FArr(), 'y': FArr(), 'z': FArr(), 'a': F(np=True), 'b': F(np=True), 'c': F(np=True)},
              lambda A: SIdx(A.x.n, lambda i: sph_out(A.a, A.b, A.c, A.x[i], A.y[i], A.z[i])),
              requires=lambda A: [lt(ZERO, A.a), lt(ZERO, A.b), lt(ZERO, A.c), Forall(0, A.x.n, lambda i: lt(ZERO, sph_den(A.a, A.b, A.c, A.x[i], A.y[i], A.z[i])))],
              gen=lambda g: {k: Fraction(g.rng.randint(1, 40), 8) for k in 'abc'}), internal=True)
contract(SPH + 'spherical_phasespace_thresholding',
         Case('first', {'c': FArr(), 'iteration': Const(1), 'c_mean': F()}, sph, requires=sph_req),
         Case('later', {'c': FArr(), 'iteration': Const(2), 'c_mean': F()}, sph, requires=sph_req),
         uses=[SPH + '_descript', SPH + '_gradients', SPH + '_rotation', SPH + '_spike_indices'])
