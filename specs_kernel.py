"""Contracts of the kernel-density spike detection (proadv.filtration.detection.trivariatekernel, bivariatekernel)."""
from specs_optimize import *
from pv.ev import DEFS

K3 = DT + 'trivariatekernel:'
K2 = DT + 'bivariatekernel:'


def central(f, n):
    return lambda i: ite(band(lt(ZERO, i), lt(i, n - 1)), (f(i + 1) - f(i - 1)) / 2, ZERO)


def cdiffs(v):
    d1 = central(lambda i: v[i], v.n)
    return d1, central(d1, v.n)


contract(K3 + '_derivatives', *[Case(nm, dict(data=FArr(dt=dt)), lambda A: STup(*[SArr(A.data.n, f) for f in cdiffs(A.data)]))
                                for nm, dt in (('array', 'f'), ('integers', 'i'))])


def angle(f, g, n):
    su, sw = Sum(f, n), Sum(g, n)
    return arctan2(n * Sum(lambda i: f(i) * g(i), n) - su * sw, n * Sum(lambda i: f(i) ** 2, n) - su * su)


contract(K3 + '_rotation', Case('arrays', dict(u1=FArr(), w1=FArr()), lambda A: SNum(angle(fn_of(A.u1), fn_of(A.w1), A.u1.n)), requires=lambda A: [lt(ZERO, A.u1.n)]))


def turned(f, g, th):
    return lambda i: f(i) * cos(th) + g(i) * sin(th), lambda i: g(i) * cos(th) - f(i) * sin(th)


contract(K3 + '_transform', Case('arrays', dict(x=FArr(), y=FArr(), theta=F()), lambda A: STup(*[SArr(A.x.n, f) for f in turned(fn_of(A.x), fn_of(A.y), A.theta)])))


def cutoffs(density, force, peak, n, c1, c2, grid):
    """indices of the lower and the upper cutoff"""
    ok = lambda i: band(le(force(i) / force(peak), c1), le(tabs((force(i) - force(i - 1)) * grid / density(i)), c2))
    lo = Last(1, peak, ok)
    return ite(band(lt(ONE, peak), le(ONE, lo)), lo, ONE), ite(lt(peak + 1, n - 1), peak + 1 + First(0, n - 2 - peak, lambda d: ok(peak + 1 + d)), n - 1)


def cutoff_spec(A):
    n = A.force_profile.n
    lo, hi = cutoffs(lambda i: A.density_profile if not hasattr(A.density_profile, 'n') else A.density_profile[i], fn_of(A.force_profile), A.peak_index, n, A.c1_threshold, A.c2_threshold, A.grid)
    return STup(SNum(A.velocity_profile[lo]), SNum(A.velocity_profile[hi]))


def cutoff_case(name, **kw):
    args = dict(density_profile=FArr(), velocity_profile=FArr(), c1_threshold=F([0.0, 0.5, 1.0, 2.0]), c2_threshold=F([0.0, 0.5, 1.0, 5.0, 50.0]), force_profile=FArr(), peak_index=I(0, 9), grid=I(1, 9))
    args.update(kw)
    return Case(name, args, cutoff_spec,
                requires=lambda A: [lt(ONE, A.force_profile.n), le(ZERO, A.peak_index), lt(A.peak_index, A.force_profile.n), bnot(eq0(A.force_profile[A.peak_index]))] +
                ([Forall(0, A.force_profile.n, lambda i: bnot(eq0(A.density_profile[i])))] if hasattr(A.density_profile, 'n') else [bnot(eq0(A.density_profile))]))


contract(K2 + '_cutoff', cutoff_case('profile'), cutoff_case('peak density', density_profile=F()))
contract(K3 + '_cutoff', cutoff_case('profile'), cutoff_case('peak density', density_profile=F()))


def smaller_step(v):
    def at(i):
        b, f = v[i] - v[i - 1], v[i + 1] - v[i]
        return ite(band(lt(ZERO, i), lt(i, v.n - 1)), ite(lt(tabs(f), tabs(b)), f, b), ZERO)
    return at


contract(K2 + '_derivative', *[Case(nm, dict(data=FArr(dt=dt)), lambda A: SArr(A.data.n, smaller_step(A.data))) for nm, dt in (('array', 'f'), ('integers', 'i'))])


class Density:
    """the density of the turned samples on the grid, its peak, the cutoffs along the two profiles through the peak"""
    def __init__(self, u, w, n, grid):
        self.n, self.g = n, grid
        self.ut, self.wt = turned(u, w, angle(u, w, n))
        j, a, b = fresh('j', 'I'), fresh('j', 'I'), fresh('j', 'I')
        lx, ly = lam([j], self.ut(j)), lam([j], self.wt(j))
        self.ends = [(Minimum(f, n), Maximum(f, n)) for f in (self.ut, self.wt)]
        ux, wx = self.axis(0), self.axis(1)
        at = lambda a, b: uf('kde', lx, ly, lift(n), ux(a), wx(b), sort='R')
        D = lam([a, b], at(a, b))
        peak = uf('max2', D, grid, grid, sort='R')
        up, wp = uf('arg2r', D, grid, grid, sort='I'), uf('arg2c', D, grid, grid, sort='I')
        lam_ = sqrt(2 * tlog(n))
        cu, cw = lam_ * Std(u, n) / sqrt(lift(n)), lam_ * Std(w, n) / sqrt(lift(n))
        self.cu = cutoffs(lambda i: peak, lambda a: at(a, wp), up, grid, cu, cu, grid)
        self.cw = cutoffs(lambda i: peak, lambda b: at(up, b), wp, grid, cw, cw, grid)

    def axis(self, d):
        lo, hi = self.ends[d]
        return lambda i: lo + i * (hi - lo) / (self.g - 1)

    def requires(self):
        mx, my = Mean(self.ut, self.n), Mean(self.wt, self.n)
        sx, sy = Sum(lambda i: (self.ut(i) - mx) ** 2, self.n), Sum(lambda i: (self.wt(i) - my) ** 2, self.n)
        sxy = Sum(lambda i: (self.ut(i) - mx) * (self.wt(i) - my), self.n)
        return [lt(ONE, self.g), lt(ONE, self.n), lt(ZERO, sx), lt(ZERO, sx * sy - sxy ** 2)] + [lt(lo, hi) for lo, hi in self.ends] + \
            [lt(lo, hi) for lo, hi in (self.cu, self.cw)] + [lt(p(lo), p(hi)) for p, (lo, hi) in ((self.axis(0), self.cu), (self.axis(1), self.cw))]

    def outside(self, i):
        t = ZERO
        for d, f, (lo, hi) in ((0, self.ut, self.cu), (1, self.wt, self.cw)):
            p = self.axis(d)
            c = (p(hi) + p(lo)) / 2
            t = t + ((f(i) - c) / (p(hi) - c)) ** 2
        return lt(ONE, t)


class Plane:
    """the same, folded: plane_ok and plane are names for the definition above"""
    def __init__(self, u, w, n, grid):
        j, k = fresh('j', 'I'), fresh('j', 'I')
        self.args = lam([j], u(j)), lam([k], w(k)), lift(n), lift(grid)

    def requires(self):
        return [uf('plane_ok', *self.args, sort='B')]

    def outside(self, i):
        return uf('plane', *self.args, lift(i), sort='B')


DEFS['plane_ok'] = lambda u, w, n, g: band(*Density(u, w, n, g).requires())
DEFS['plane'] = lambda u, w, n, g, i: Density(u, w, n, g).outside(i)


def plane(A):
    return (Plane if A.abstract else Density)(fn_of(A.u1), fn_of(A.w1), A.u1.n, A.grid)


contract(K3 + 'kernel', *[Case(nm, dict(u1=FArr(dt=dt), w1=FArr(), grid=I(3, 6)), lambda A: STup(SIdx(A.u1.n, plane(A).outside), SAny()),
                               requires=lambda A: plane(A).requires(), sizes={'n': [4, 6, 9, 14]}) for nm, dt in (('arrays', 'f'), ('integers', 'i'))],
         uses=[K3 + x for x in ('_rotation', '_transform', '_cutoff')] + [SP + 'std'])


def planes(A):
    v, n = A.data, A.data.n
    d1, d2 = cdiffs(v)
    return [Plane(f, g, n, A.grid) for f, g in ((fn_of(v), d1), (fn_of(v), d2), (d1, d2))]


contract(K3 + 'three_dimensional_kernel',
         *[Case(nm, dict(data=FArr(dt=dt), grid=I(3, 6)), lambda A: SIdx(A.data.n, lambda i: bor(*[d.outside(i) for d in planes(A)])),
                requires=lambda A: [x for d in planes(A) for x in d.requires()], sizes={'n': [4, 6, 9, 14]}) for nm, dt in (('array', 'f'), ('integers', 'i'))],
         uses=[K3 + '_derivatives', K3 + 'kernel'])
