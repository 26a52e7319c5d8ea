"""Contracts of proadv.statistics.signal (spectrum, synthetic noise)."""
from specs_filter import *
from pv import npextra

SG = 'proadv.statistics.signal.'


def welch_spec(A):
    """scipy.signal.welch over Hann blocks (trusted), two-sided frequencies in fft order"""
    N, fs, one = A.block, A.sampling_frequency, A.onesided
    j = fresh('j', 'I')
    win = lam([j], num(Fraction(1, 2)) - cos(2 * PI * j / (N - 1)) / 2)
    L = trunc(div(lift(N), num(2))) + 1 if one else N
    o = trunc(div(lift(N) * A.overlap, num(100)))
    freq = lambda i: i * fs / N if one else ite(lt(2 * i, N), i, i - N) * fs / N
    return STup(SArr(L, freq), SArr(L, lambda i: uf('welch', lam([j], A.data[j]), A.data.n, win, lift(N), lift(fs), o, lift(N), num(int(one)), i, sort='R')))


def psd_req(A):
    return [lt(ZERO, A.sampling_frequency), le(num(3), A.block), le(A.block, A.data.n), le(ZERO, A.overlap), lt(A.overlap, num(100))]


def psd_case(name, **kw):
    args = dict(data=FArr(), sampling_frequency=F([1.0, 25.0, 0.5, 100.0]), overlap=I(0, 99), block=I(3, 12), onesided=Const(True))
    args.update(kw)
    return Case(name, args, welch_spec, requires=psd_req, sizes={'n': [8, 12, 16, 25]} if name != 'defaults' else {'n': [2048, 2500, 4200]})


contract(SG + 'spectrum:power_spectra', psd_case('one-sided'), psd_case('two-sided', onesided=Const(False)),
         psd_case('fractional overlap', overlap=F([0.0, 12.5, 50.0, 33.3, 75.0])), psd_case('integers', data=FArr(dt='i')),
         psd_case('defaults', overlap=Default(50), block=Default(2048), onesided=Default(True)))


# --- synthetic pollution ----------------------------------------------------------------------------
SY = SG + 'synthetic:'


def share(A):
    """the number of samples to pollute"""
    return trunc(div(A.data_size * A.percent, num(100)))


def distinct(f, n):
    i, j = fresh('i', 'I'), fresh('j', 'I')
    return forall(ZERO, n, i, forall(ZERO, i, j, bnot(eq(f(i), f(j)))))


def chosen(A, R):
    (n,), f = R.arr()
    i, m = fresh('i', 'I'), share(A)
    return [('as many indices as the share asks for', [], eq(n, m)),
            ('strictly increasing', [le(ZERO, i), lt(i, n - 1)], lt(f(i), f(i + 1))),
            ('inside the record', [le(ZERO, i), lt(i, n)], band(le(ZERO, f(i)), lt(f(i), A.data_size)))]


def shares(n, p):
    """int(n p / 100) up to rounding"""
    return {int(n * p / 100 + e) for e in (-1e-9, 0, 1e-9)}


def chosen_conc(inp, rep):
    n, p = inp['data_size'], inp['percent']
    v = rep['ok'].get('v')
    if v is None or rep['ok'].get('t') != 'arr':
        return 'result is not an array'
    if len(v) not in shares(float(n), float(p)):
        return '%d indices instead of %d' % (len(v), int(float(n) * float(p) / 100))
    if any(a >= b for a, b in zip(v, v[1:])):
        return 'indices are not strictly increasing'
    if v and not (0 <= v[0] and v[-1] < n):
        return 'index outside the record'


def chosen_indices(ip, A):
    """what the contract says of the result, as an index set of opaque members"""
    k = npextra.draw(ip, 'indices') if getattr(ip, 'draws', None) else None
    nm = 'polluted' if k is not None else fresh('polluted', 'I').args[0]
    has = lambda i: uf(nm, num(k or 0), lift(i), sort='B')
    r = ip.np.idxset(A.data_size, has)
    ip.assume(eq(r.shape[0], share(A)))
    return ip.new(r)


PERCENT = F([0.0, 5.0, 10.0, 50.0, 100.0, 33.3, 12.5, 77.0])
pct = lambda A: [le(ZERO, A.percent), le(A.percent, num(100))]


def draw_inv(A):
    def both(E):
        return [('one index per turn', eq(E.list('randoms').n, E('iteration')))] + facts(E)

    def facts(E):
        l, i, j = E.list('randoms'), fresh('i', 'I'), fresh('j', 'I')
        return [('no more than asked for', imp(le(ZERO, share(A)), le(l.n, share(A)))),
                ('inside the record', forall(ZERO, l.n, i, band(le(ZERO, l[i]), lt(l[i], A.data_size)))), ('no index twice', distinct(lambda i: l[i], l.n))]
    return [Inv(('iteration',), both, ints=('iteration',), lists=('randoms',), moving=('iteration',)), Inv((), facts, lists=('randoms',))]


contract(SY + '_random_index', *[Case(nm, dict(data_size=I(0, 40), percent=k), requires=lambda A: [le(ZERO, A.data_size)] + pct(A), rels=chosen, concrete=chosen_conc,
                                      invariants=draw_inv, summary=chosen_indices) for nm, k in (('number', PERCENT), ('integer', I(0, 100)))])


def noisy(A):
    """k-th polluted sample: plus (k even) or minus (k odd) (|r_k| + percent) times the mean, r_k normal with standard deviation 0.05"""
    has = lambda i: uf('polluted', ZERO, lift(i), sort='B')
    k = lambda i: Count(has, i)
    size = lambda i: (tabs(uf('normal', ZERO, k(i), sort='R') / 20) + A.percent) * Mean(A.data)
    even = lambda k: eq(mod(k, num(2)), ZERO)
    return SArr(A.data.n, lambda i: A.data[i] + ite(has(i), ite(even(k(i)), size(i), -size(i)), ZERO))


def noisy_conc(inp, rep):
    x, p = [float(v) for v in inp['data']], float(inp['percent'])
    v = rep['ok'].get('v')
    if v is None or len(v) != len(x):
        return 'result is not an array of the same length'
    mean = sum(x) / len(x) if x else 0.0
    tol = 1e-9 * (1 + max(map(abs, x), default=0) * (1 + p))
    if abs(mean) < 1e-6:
        return None if all(abs(a - b) <= (p + 1) * abs(mean) + tol for a, b in zip(v, x)) else 'samples changed although the mean is 0'
    d = [(a - b) / mean for a, b in zip(v, x)]
    ch = [k for k in range(len(x)) if v[k] != x[k]]
    m = shares(len(x), p)
    if p > 0 and len(ch) not in m or len(ch) > max(m):
        return '%d samples changed instead of %d' % (len(ch), max(m))
    for k, i in enumerate(ch):
        s = d[i] if p == 0 or k % 2 == 0 else -d[i]
        if p and not p - tol / abs(mean) <= s <= p + 0.5 + tol / abs(mean):
            return 'polluted sample %d is off by %g times the mean, not %s(%g + |r|)' % (k, d[i], '-' if k % 2 else '', p)


contract(SY + 'synthetic_noise', *[Case(nm, dict(data=FArr(dt=dt), percent=PERCENT), noisy, requires=lambda A: pct(A), concrete=noisy_conc, draws=True)
                                   for nm, dt in (('array', 'f'), ('integers', 'i'))], uses=[SY + '_random_index', D + 'mean'])
