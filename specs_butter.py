"""Butterworth filters as zeros, poles and gain (complex numbers: field elements with the functions csqrt, cexp, re)."""
from specs_kernel import *

BU = 'proadv.statistics.signal.butter:'
I1 = I_UNIT


def Prod(f, n):
    j = fresh('j', 'I')
    return pprod(j, f(j), lift(n))


def C1(n, f):
    return SArr(n, f, dtype='c')


def tail(n, f, more, g):
    """n values f followed by more values g"""
    return C1(n + more, lambda i: cite(lt(i, n), f(i), g(i - n)))


def both(n, f, w):
    """s + sqrt(s^2 - w^2) for all values s of f, then s - sqrt(s^2 - w^2)"""
    return lambda i: cite(lt(i, n), f(i) + csqrt(f(i) ** 2 - w ** 2), f(i - n) - csqrt(f(i - n) ** 2 - w ** 2))


def ratio(z, p, a=ZERO):
    """real part of prod(a - zeros) / prod(a - poles)"""
    return re_(Prod(lambda j: a - z[j], z.n) / Prod(lambda j: a - p[j], p.n))


def lp2lp(z, p, k, w):
    return STup(C1(z.n, lambda i: w * z[i]), C1(p.n, lambda i: w * p[i]), SNum(k * power(w, p.n - z.n)))


def lp2hp(z, p, k, w):
    return STup(tail(z.n, lambda i: w / z[i], p.n - z.n, lambda i: ZERO), C1(p.n, lambda i: w / p[i]), SNum(k * ratio(z, p)))


def lp2bp(z, p, k, w, b):
    return STup(tail(2 * z.n, both(z.n, lambda i: z[i] * b / 2, w), p.n - z.n, lambda i: ZERO),
                C1(2 * p.n, both(p.n, lambda i: p[i] * b / 2, w)), SNum(k * power(b, p.n - z.n)))


def lp2bs(z, p, k, w, b):
    d = p.n - z.n
    return STup(tail(2 * z.n, both(z.n, lambda i: b / 2 / z[i], w), 2 * d, lambda i: cite(lt(i, d), I1 * w, -I1 * w)),
                C1(2 * p.n, both(p.n, lambda i: b / 2 / p[i], w)), SNum(k * ratio(z, p)))


def bilin(z, p, k, sr):
    a = 2 * sr
    return STup(tail(z.n, lambda i: (a + z[i]) / (a - z[i]), p.n - z.n, lambda i: num(-1)), C1(p.n, lambda i: (a + p[i]) / (a - p[i])), SNum(k * ratio(z, p, a)))


def improper(A):
    return [('ValueError', lt(A.poles.n, A.zero.n))]


ZPS = {'zero': CArr(), 'poles': CArr('m'), 'system': F()}
contract(BU + 'low_to_low', Case('complex', dict(ZPS, dc=F()), lambda A: lp2lp(A.zero, A.poles, A.system, A.dc), raises=improper))
contract(BU + 'low_to_high', Case('complex', dict(ZPS, dc=F()), lambda A: lp2hp(A.zero, A.poles, A.system, A.dc), raises=improper))
contract(BU + 'low_to_band', Case('complex', dict(ZPS, pc=F(), pw=F()), lambda A: lp2bp(A.zero, A.poles, A.system, A.pc, A.pw), raises=improper))
contract(BU + 'low_to_stop', Case('complex', dict(ZPS, pc=F(), pw=F()), lambda A: lp2bs(A.zero, A.poles, A.system, A.pc, A.pw), raises=improper))
contract(BU + 'bilinear', Case('complex', dict(ZPS, sr=F()), lambda A: bilin(A.zero, A.poles, A.system, A.sr), raises=improper))


def real_ratio(z, p, a=ZERO):
    return Prod(lambda j: a - z[j], z.n) / Prod(lambda j: a - p[j], p.n)


def off(a, zeros=True):
    """real zeros and poles keep away from the point a, so the divisors do not vanish"""
    def f(A):
        out = []
        for v in ((A.zero, A.poles) if zeros else (A.poles,)):
            j = fresh('j', 'I')
            out.append(forall(ZERO, v.n, j, bnot(eq(a(A) - v[j], ZERO))))
        return out + [bnot(eq(Prod(lambda j: a(A) - A.poles[j], A.poles.n), ZERO))]     # follows from the others
    return f


def forms(name, f, args, divides=None, ints=True):
    """the transformation of complex, of real and of real zeros with complex poles; ratio(z, p) is real in the second"""
    t = BU + name
    for nm, kinds in (('real', {'zero': FArr(style='float'), 'poles': FArr('m', style='float')}), ('real zeros', {'zero': FArr(), 'poles': CArr('m')})):
        if divides and nm != 'real':
            continue
        C[t].cases.append(Case(nm, dict(ZPS, **kinds, **args), f(nm == 'real'), raises=improper, requires=off(divides) if divides and nm == 'real' else (lambda A: [])))


def sel(fn):
    """pick the real or complex form of the gain"""
    def g(real):
        def h(A):
            global ratio
            old = ratio
            if real:
                ratio = real_ratio
            try:
                return fn(A)
            finally:
                ratio = old
        return h
    return g


forms('low_to_low', sel(lambda A: lp2lp(A.zero, A.poles, A.system, A.dc)), {'dc': F()})
forms('low_to_high', sel(lambda A: lp2hp(A.zero, A.poles, A.system, A.dc)), {'dc': F()}, lambda A: ZERO)
forms('low_to_band', sel(lambda A: lp2bp(A.zero, A.poles, A.system, A.pc, A.pw)), {'pc': F(), 'pw': F()})
forms('low_to_stop', sel(lambda A: lp2bs(A.zero, A.poles, A.system, A.pc, A.pw)), {'pc': F(), 'pw': F()}, lambda A: ZERO)
forms('bilinear', sel(lambda A: bilin(A.zero, A.poles, A.system, A.sr)), {'sr': F()}, lambda A: 2 * A.sr)

NONE = FView(ZERO, lambda i: ZERO)


def proto(n):
    return FView(n, lambda i: -cexp(I1 * PI * (2 * i + 1 - n) / (2 * n)))


contract(BU + 'buttap', Case('order', {'number': I(-2, 9)}, lambda A: STup(C1(ZERO, lambda i: ZERO), C1(A.number, proto(A.number).__getitem__), SNum(ONE)),
                             raises=lambda A: [('ValueError', lt(A.number, ZERO))]))


def view(s):
    return FView(s.shape[0], s.fn)


def then(r, f, *more):
    z, p, k = r.items
    return f(view(z), view(p), k.t, *more)


def wn(A, w):
    return 2 * w / A.sr if 'sr' in A.__dict__ and A.sr is not None else w


def design(bt, ag):
    def f(A):
        at = (lambda i: A.w[i]) if hasattr(A.w, 'n') else (lambda i: A.w)
        w = lambda i: wn(A, at(i)) if ag else 4 * tan(PI * wn(A, at(i)) / 2)
        z, p, k = NONE, proto(A.q), ONE
        if bt == 'lp':
            r = lp2lp(z, p, k, w(ZERO))
        elif bt == 'hp':
            r = lp2hp(z, p, k, w(ZERO))
        else:
            r = (lp2bp if bt == 'bp' else lp2bs)(z, p, k, sqrt(w(ZERO) * w(ONE)), w(ONE) - w(ZERO))
        return r if ag else then(r, bilin, num(2))
    return f


def tan(x):
    return sin(x) / cos(x)


def bad(bt, ag):
    def f(A):
        arr = hasattr(A.w, 'n')
        n = A.w.n if arr else ONE
        out = [lt(A.q, ZERO)]
        if arr:
            j = fresh('j', 'I')
            ok = lambda x: band(lt(ZERO, x), TRUE if ag else lt(x, ONE))
            out += [bnot(forall(ZERO, n, j, ok(wn(A, A.w[j])))), band(lt(ONE, n), le(wn(A, A.w[1]), wn(A, A.w[0])))]
            out.append(bnot(eq(n, ONE)) if bt in ('lp', 'hp') else lt(n, num(2)))
        else:
            out += [le(wn(A, A.w), ZERO)] + ([] if ag else [le(ONE, wn(A, A.w))])
            if bt in ('bp', 'bs'):
                out = [TRUE]
        return [('ValueError', bor(*out))]
    return f


FREQ = [0.1, 0.25, 0.5, 0.75, 0.9, 0.01]
cases = []
for bt in ('lp', 'hp', 'bp', 'bs'):
    for ag in (False, True):
        for fs in (False, True):
            if ag and fs:
                continue
            a = {'q': I(-1, 6), 'w': F(FREQ) if bt in ('lp', 'hp') else FArr(style=lambda g, n: sorted(g.rng.choice(FREQ + [0.3, 0.6]) for _ in range(n))), 'btype': Const(bt), 'ag': Const(ag), 'output': Const('zps')}
            a['sr'] = F([1.0, 2.0, 4.0, 0.5]) if fs else Const(None)
            cases.append(Case(bt + (' analog' if ag else ' digital') + (' sampled' if fs else ''), a, design(bt, ag), raises=bad(bt, ag),
                              requires=(lambda A: [bnot(eq(A.sr, ZERO))]) if fs else (lambda A: [])))
contract(BU + 'butterworth', *cases)
