"""More of numpy and scipy: 2-D grids and extrema, covariance and Cholesky factor of two variables, Gaussian kernel densities."""
from .npmodel import *
from .npmodel import NP, opt
from . import solve
from .term import *

I1 = var('I_', 'R')


def meth(f):
    setattr(NP, f.__name__, f)
    return f


def imag_coeff(t):
    """k of the term k * 1j, None if it is none"""
    out = {}
    for m, c in pdict(t).items():
        d = dict(m)
        if d.pop(I1, 0) != 1:
            return None
        out[tuple((a, e) for a, e in m if a is not I1)] = c
    return from_pdict(out)


@meth
def g_mgrid(self, o, idx):
    ip = self.ip
    if not isinstance(idx, tuple) or len(idx) != 2 or not all(isinstance(s, tuple) and s and s[0] == 'slice' for s in idx):
        raise Unsupported('mgrid')
    ax = []
    for _, lo, hi, st in idx:
        if not (isinstance(lo, Num) and isinstance(hi, Num) and isinstance(st, Num) and st.ty == 'c16'):
            raise Unsupported('mgrid with real steps')
        k = imag_coeff(st.t)
        if k is None or k.sort != 'I':
            raise Unsupported('mgrid step')
        if not ip.decide(lt(ONE, k)):
            raise Unsupported('mgrid of one point')
        ax.append((lo.arith(), hi.arith(), k))
    sh = (ax[0][2], ax[1][2])

    def mk(d):
        lo, hi, k = ax[d]
        return ip.new(ArrObj(sh, lambda a, b: (lo + (b if d else a) * (hi - lo) / (k - 1), FALSE), 'f'))
    return (mk(0), mk(1))


def two(a):
    """(shape, fn) of the matrix a 1-D array is the row-major ravel of"""
    return a.note[1:] if isinstance(a.note, tuple) and a.note and a.note[0] == 'ravel' else None


@meth
def rows2(self, v):
    """the two rows of a (2, n) array as 1-D arrays, with what is known of them"""
    a = self.getarr(v)
    if a.ndim != 2 or a.shape[0].op != 'num' or a.shape[0].args[0] != 2:
        raise Unsupported('two variables expected')
    if isinstance(a.note, tuple) and a.note and a.note[0] == 'vcat' and len(a.note[1]) == 2:
        rs = [r for r in a.note[1]]
        return [ArrObj((r.shape[1],), lambda j, r=r: r.at(ZERO, j), r.dtype, note=r.note) for r in rs]
    return [ArrObj((a.shape[1],), lambda j, k=k: a.at(k, j), a.dtype) for k in (ZERO, ONE)]


def spread2(x, y, n):
    """sums of squares and products about the means"""
    j = fresh('j', 'I')
    mx, my = mk_sum(ZERO, n, j, x(j)) / n, mk_sum(ZERO, n, j, y(j)) / n
    return (mk_sum(ZERO, n, j, (x(j) - mx) ** 2), mk_sum(ZERO, n, j, (x(j) - mx) * (y(j) - my)), mk_sum(ZERO, n, j, (y(j) - my) ** 2))


def regular2(s):
    return band(lt(ZERO, s[0]), lt(ZERO, s[0] * s[2] - s[1] ** 2))


@meth
def f_cov(self, v, rowvar=None, bias=None, aweights=None, **kw):
    opt(kw)
    ip = self.ip
    if rowvar is not None and rowvar.const() in (False, 0) or bias is not None and bias.const() not in (False, 0):
        raise Unsupported('cov')
    x, y = self.rows2(v)
    n = x.shape[0]
    if not ip.decide(lt(ONE, n)):
        raise Unsupported('cov of one sample')
    if aweights is not None:
        w = self.getarr(aweights)
        j = fresh('j', 'I')
        if w.ndim != 1 or w.at(j)[0] is not div(ONE, n):
            raise Unsupported('cov with weights')
        if not ip.decide(eq(w.shape[0], n)):
            raise PRaise('RuntimeError')
    s = spread2(lambda j: lift(x.at(j)[0]), lambda j: lift(y.at(j)[0]), n)
    e = [[s[0], s[1]], [s[1], s[2]]]

    def at(i, k):
        r = None
        for p in (0, 1):
            for q in (0, 1):
                c = band(eq(i, num(p)), eq(k, num(q)))
                r = e[p][q] / (n - 1) if r is None else cite(c, e[p][q] / (n - 1), r)
        return r, FALSE
    return ip.new(ArrObj((num(2), num(2)), at, 'f', note=('cov', e, n)))


@meth
def f_diag(self, v, **kw):
    opt(kw)
    a = self.getarr(v)
    if a.ndim != 2 or a.shape[0] is not a.shape[1]:
        raise Unsupported('diag')
    return self.ip.new(ArrObj((a.shape[0],), lambda i: a.at(i, i), a.dtype))


@meth
def x_scipy_linalg_cholesky(self, v, **kw):
    opt(kw)
    ip = self.ip
    m = self.getarr(v)
    if m.ndim != 2 or not all(d.op == 'num' and d.args[0] == 2 for d in m.shape):
        raise Unsupported('cholesky')
    a, b, d = m.at(ZERO, ZERO)[0], m.at(ZERO, ONE)[0], m.at(ONE, ONE)[0]
    if not ip.decide(band(lt(ZERO, a), lt(ZERO, a * d - b * b))):
        raise PRaise('LinAlgError')
    name = fresh('chol', 'R').args[0]
    # its entries are used by nothing that is specified; only the signs of the diagonal matter
    dg = [uf(name, num(0), sort='R'), uf(name, num(2), sort='R')]
    for t in dg:
        ip.assume(lt(ZERO, t))
    off = uf(name, num(1), sort='R')
    return ip.new(ArrObj((num(2), num(2)), lambda i, k: (cite(lt(k, i), ZERO, cite(lt(i, k), off, cite(eq(i, ZERO), dg[0], dg[1]))), FALSE), 'f'))


@meth
def f_common_type(self, *vs):
    if any(self.code(v) not in ('f', 'i', 'b') for v in vs):
        raise Unsupported('common type')
    return TypeVal('np.float64')


@meth
def f_dtype(self, t):
    if not isinstance(t, TypeVal) or t.name not in ('np.float64', 'float'):
        raise Unsupported('dtype')
    return self.ip.new(InstObj('dtype', {'itemsize': pyint(8)}))


@meth
def x_scipy_stats__stats_gaussian_kernel_estimate(self, pts, vals, xi, chol, dt, *more):
    ip = self.ip
    p, w, x, c = (self.getarr(z) for z in (pts, vals, xi, chol))
    if more or any(z.ndim != 2 for z in (p, w, x, c)):
        raise Unsupported('gaussian_kernel_estimate')
    if not ip.decide(band(eq(p.shape[1], x.shape[1]), eq(p.shape[0], w.shape[0]), eq(c.shape[0], p.shape[1]), eq(c.shape[1], p.shape[1]))):
        raise PRaise('ValueError')
    name = fresh('gke', 'R').args[0]
    return ip.new(ArrObj((x.shape[0], w.shape[1]), lambda i, k: (uf(name, i, k, sort='R'), FALSE), 'f'))


@meth
def x_scipy_stats_gaussian_kde(self, v, **kw):
    opt(kw)
    x, y = self.rows2(v)
    n = x.shape[0]
    lx, n, _ = self.lam1(self.ip.new(x))
    ly, _, _ = self.lam1(self.ip.new(y))
    if not self.ip.decide(lt(ONE, n)):
        raise PRaise('ValueError')
    if not self.ip.decide(regular2(spread2(lambda j: apply(lx, j), lambda j: apply(ly, j), n))):
        raise PRaise('LinAlgError')
    return self.ip.new(InstObj('kde', {'x': lx, 'y': ly, 'n': n}))


@meth
def o_kde_call(self, recv, o, pos):
    p, q = self.rows2(pos)
    lx, ly, n = o.attrs['x'], o.attrs['y'], o.attrs['n']
    f = lambda a, b: uf('kde', lx, ly, n, lift(a), lift(b), sort='R')
    r = ArrObj((p.shape[0],), lambda i: (f(p.at(i)[0], q.at(i)[0]), FALSE), 'f')
    if two(p) and two(q):
        (s1, f1), (s2, f2) = two(p), two(q)
        if all(u is v for u, v in zip(s1, s2)):
            r.note = ('ravel', s1, lambda a, b: (f(f1(a, b)[0], f2(a, b)[0]), FALSE))
    return self.ip.new(r)


NP.o_kde_evaluate = o_kde_call
NP.o_kde_pdf = o_kde_call


@meth
def max2(self, a, kind):
    if a.ndim != 2 or a.filt or kind != 'amax':
        raise Unsupported('full reduction of %d-D' % a.ndim)
    i, j = fresh('j', 'I'), fresh('j', 'I')
    with self.assuming(*self.ranges(a.shape, [i, j])):
        t, n = a.at(i, j)
    if n is not FALSE:
        raise Unsupported('NaN in extremum')
    if not self.ip.decide(band(lt(ZERO, a.shape[0]), lt(ZERO, a.shape[1]))):
        raise PRaise('ValueError')
    return lam([i, j], lift(t))


@meth
def nonzero2(self, a):
    """positions at which a matrix takes its greatest value, in row-major order"""
    ip = self.ip
    i, j = fresh('j', 'I'), fresh('j', 'I')
    with self.assuming(*self.ranges(a.shape, [i, j])):
        t, n = a.at(i, j)
    for s in solve.all_subterms([t], into_lam=False):
        if s.op == 'uf' and s.args[0] == 'max2' and n is FALSE and s.args[2] is a.shape[0] and s.args[3] is a.shape[1] and \
                t is eq(apply(s.args[1], i, j), s):
            m = fresh('hits', 'I')
            ip.assume(le(ONE, m))
            nm = fresh('hit', 'I').args[0]
            out = []
            for d, f in enumerate(('arg2r', 'arg2c')):
                t0 = uf(f, *s.args[1:], sort='I')
                out.append(ip.new(ArrObj((m,), lambda k, t0=t0, d=d: (cite(eq(k, ZERO), t0, uf(nm + str(d), k, sort='I')), FALSE), 'i')))
            return tuple(out)
    raise Unsupported('nonzero of 2-D')


@meth
def f_unravel_index(self, k, shape, **kw):
    opt(kw)
    r, c = self.shapeof(shape)
    t = k.t if isinstance(k, Num) else None
    if t is None or t.op != 'uf' or t.args[0] != 'argmax2' or t.args[2] is not r or t.args[3] is not c:
        raise Unsupported('unravel_index')
    return tuple(Num(uf(f, *t.args[1:], sort='I'), 'i8') for f in ('arg2r', 'arg2c'))


def _arg2_facts(s):
    l, r, c = s.args[1:]
    i, j = uf('arg2r', l, r, c, sort='I'), uf('arg2c', l, r, c, sort='I')
    return [imp(band(lt(ZERO, r), lt(ZERO, c)), band(le(ZERO, i), lt(i, r), le(ZERO, j), lt(j, c), eq(apply(l, i, j), uf('max2', l, r, c, sort='R'))))]


for nm in ('max2', 'arg2r', 'arg2c'):
    solve.SYMBOLS[nm] = _arg2_facts
    solve.LEN_OF[nm] = lambda s, vs: [x for v, d in zip(vs, s.args[2:]) for x in (le(ZERO, v), lt(v, d))]
solve.LEN_OF['kde'] = lambda s, vs: [le(ZERO, vs[0]), lt(vs[0], s.args[3])]
solve.SYMBOLS['kde'] = lambda s: [lt(ZERO, s)]
solve.SYMBOLS['pow'] = lambda s: [imp(lt(ZERO, s.args[1]), lt(ZERO, s))]


# --- random numbers: a draw is any value it can be ---------------------------------------------------------
class Draws:
    """how often each kind of draw has been made (for contracts that speak about the draws)"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = dict(n)


def draw(ip, kind):
    """the number of this draw of its kind, None where the contract does not speak about draws"""
    ref = getattr(ip, 'draws', None)
    if ref is None:
        return None
    d = Draws(ip.heap[ref].n)
    k = d.n.get(kind, 0)
    d.n[kind] = k + 1
    ip.heap[ref] = d
    return k


@meth
def r_randint(self, low, high=None, size=None, **kw):
    opt(kw)
    ip = self.ip
    if size is not None or not isinstance(low, Num) or not low.isint or high is not None and not (isinstance(high, Num) and high.isint):
        raise Unsupported('randint')
    lo, hi = (ZERO, low.t) if high is None else (low.t, high.t)
    if not ip.decide(lt(lo, hi)):
        raise PRaise('ValueError')
    v = fresh('randint', 'I')
    ip.assume(le(lo, v))
    ip.assume(lt(v, hi))
    return Num(v, 'int')


@meth
def r_normal(self, loc=None, scale=None, size=None, **kw):
    """loc + scale * standard normal"""
    opt(kw)
    ip = self.ip
    loc = ZERO if loc is None else loc.arith()
    scale = ONE if scale is None else scale.arith()
    if not ip.decide(le(ZERO, scale)):
        raise PRaise('ValueError')
    k = draw(ip, 'normal')
    nm = fresh('normal', 'I').args[0]
    z = (lambda i: uf(nm, lift(i), sort='R')) if k is None else (lambda i: uf('normal', num(k), lift(i), sort='R'))
    if size is None:
        return Num(loc + scale * z(ZERO), 'float')
    if not isinstance(size, Num) or not size.isint:
        raise Unsupported('normal of a shape')
    if not ip.decide(le(ZERO, size.t)):
        raise PRaise('ValueError')
    return ip.new(ArrObj((size.t,), lambda i: (loc + scale * z(i), FALSE), 'f'))


def sort_distinct(self, o, pylist):
    """the increasing arrangement of pairwise distinct integers: what sorting is, as facts"""
    ip, n = self.ip, o.shape[0]
    i, j = fresh('i', 'I'), fresh('j', 'I')
    r = solve.prove(ip.pc + [le(ZERO, i), lt(i, j), lt(j, n)], bnot(eq(o.at(i)[0], o.at(j)[0])), 4000)
    if r.status != 'proved':
        raise Unsupported('sort of numbers that may be equal')
    nm = fresh('sorted', 'I').args[0]
    s, at = (lambda k: uf(nm, lift(k), sort='I')), (lambda k: uf(nm + 'at', lift(k), sort='I'))
    ip.assume(forall(ZERO, n - 1, i, lt(s(i), s(i + 1))))
    ip.assume(forall(ZERO, n, i, band(le(ZERO, at(i)), lt(at(i), n), eq(s(i), o.at(at(i))[0]))))
    return ip.new(ArrObj((n,), lambda k: (s(k), FALSE), 'i', pylist=pylist))


# --- bins and discrete Fourier transforms -----------------------------------------------------------------
@meth
def f_digitize(self, x, bins, right=False):
    """the number of edges not above (right: below) each sample, for evenly spaced increasing edges"""
    ip = self.ip
    b = self.getarr(bins)
    if b.ndim != 1 or b.filt or self.code(x) == 'c':
        raise Unsupported('digitize')
    j, n = fresh('j', 'I'), b.shape[0]
    t, nan = b.at(j)
    lo = b.at(ZERO)[0]
    step = b.at(ONE)[0] - lo
    if nan is not FALSE or solve.prove(ip.pc + [le(ZERO, j), lt(j, n)], eq(t, lo + j * step), 2000).status != 'proved' or not ip.decide(lt(ZERO, step)):
        raise Unsupported('digitize with other edges')
    right = right if isinstance(right, bool) else ip.truth(right)
    if isinstance(x, Ref):
        a = self.getarr(x)
        ii = self.freshidx(a.shape)
        with self.assuming(*self.ranges(a.shape, ii)):
            if self.simp(a.at(*ii)[1]) is not FALSE:
                raise Unsupported('digitize of NaN')

    def f(xs):
        p = (lift(xs[0][0]) - lo) / step
        return tmin(tmax(tceil(p) if right else tfloor(p) + 1, ZERO), n), FALSE
    return self._ew(f, x, dtype='i')


def dft(self, kind, v, n, axis):
    ip = self.ip
    a = self.getarr(v)
    if n is not None or a.filt or a.ndim not in (1, 2):
        raise Unsupported('transform of another length')
    k = -1 if axis is None else axis.const() if isinstance(axis, Num) else None
    if k not in range(-a.ndim, a.ndim):
        raise Unsupported('transform axis')
    k %= a.ndim
    ii = self.freshidx(a.shape)
    with self.assuming(*self.ranges(a.shape, ii)):
        if self.simp(a.at(*ii)[1]) is not FALSE:
            raise Unsupported('transform of NaN')
    if not ip.decide(lt(ZERO, a.shape[k])):
        raise PRaise('ValueError')

    def at(*i):
        j = fresh('j', 'I')
        return uf(kind, lam([j], a.at(*[j if d == k else x for d, x in enumerate(i)])[0]), a.shape[k], i[k], sort='R'), FALSE
    return ip.new(ArrObj(a.shape, at, 'c'))


@meth
def fft_fft(self, v, n=None, axis=None, **kw):
    opt(kw)
    return dft(self, 'dft', v, n, axis)


@meth
def fft_ifft(self, v, n=None, axis=None, **kw):
    opt(kw)
    return dft(self, 'idft', v, n, axis)


for nm in ('dft', 'idft'):
    solve.LEN_OF[nm] = lambda s, vs: [le(ZERO, vs[0]), lt(vs[0], s.args[2])]
