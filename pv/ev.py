"""Numeric evaluation of terms on concrete inputs (exact rationals where possible, error tracking, 3-valued truth)."""
from fractions import Fraction
import math
import mpmath
from .term import *
from .solve import has_bv_free

mpmath.mp.dps = 40
EPS = 1e-13


_hs = {}


def hasself(t):
    r = _hs.get(t)
    if r is None:
        r = (t.op == 'uf' and t.args[0] == 'self') or any(hasself(x) for x in subterms1(t))
        _hs[t] = r
    return r


DEFS, DEFBODY = {}, {}      # named definitions: name -> builder of the term over (U, W, n, further integers)


class Undefined(Exception):
    pass


class V:
    """real value with an error bound; x is Fraction or mpf"""
    __slots__ = ('x', 'e')

    def __init__(self, x, e=0.0):
        self.x, self.e = x, e

    def __repr__(self):
        return '%s±%g' % (float(self.x), self.e)


def mk(x, e):
    """attach a rounding error unless x is exactly representable as a double"""
    if isinstance(x, Fraction):
        if x.denominator.bit_length() > 400 or x.numerator.bit_length() > 600:
            x = mpmath.mpf(x.numerator) / x.denominator
            return V(x, e + EPS * abs(float(x)))
        d = x.denominator
        if d & (d - 1) == 0 and abs(x.numerator) < (1 << 50):
            return V(x, e)
    f = float(abs(x))
    if f == float('inf') or f != f:
        raise Undefined('overflow')
    return V(x, e + EPS * f)


def m(x):
    return x if not isinstance(x, Fraction) else mpmath.mpf(x.numerator) / x.denominator


def vadd(a, b):
    if isinstance(a.x, Fraction) and isinstance(b.x, Fraction):
        x = a.x + b.x
    else:
        x = m(a.x) + m(b.x)
    return mk(x, a.e + b.e)


def vmul(a, b):
    if isinstance(a.x, Fraction) and isinstance(b.x, Fraction):
        x = a.x * b.x
    else:
        x = m(a.x) * m(b.x)
    if a.e == 0 and b.e == 0:
        return mk(x, 0.0)
    return mk(x, float(abs(a.x)) * b.e + float(abs(b.x)) * a.e + a.e * b.e)


def vinv(a):
    f = float(abs(a.x))
    if f <= a.e * 2 or f == 0:
        raise Undefined('division by zero')
    x = 1 / a.x
    return mk(x, a.e / (f * (f - a.e)) if a.e else 0.0)


ONEV = V(Fraction(1))
ZEROV = V(Fraction(0))


def vpow(a, k):
    if k < 0:
        return vpow(vinv(a), -k)
    r = ONEV
    for _ in range(k):
        r = vmul(r, a)
    return r


def fun(f, df, a):
    y = f(m(a.x))
    return V(y, (df(a) * a.e if a.e else 0.0) + EPS * abs(float(y)) + 1e-300)


class Ev:
    def __init__(self, ufs, vars_):
        """ufs: name -> fn(*python ints)->V|int|bool|None ; vars_: name -> V|int|bool"""
        self.ufs, self.vars = ufs, vars_
        self.memo = {}
        self.steps = 0
        self.recdepth = 0
        self.recmemo = {}
        self.eig = {}
        self.cache = {}
        self.insum = 0

    # integers are python ints, reals are V, booleans True/False/None
    def real(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, V):
            return v
        if isinstance(v, bool):
            return ONEV if v else ZEROV
        if v is None:
            raise Undefined('unknown condition')
        return V(Fraction(v))

    def int(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, V):
            if isinstance(v.x, Fraction) and v.x.denominator == 1 and v.e == 0:
                return int(v.x)
            k = int(mpmath.nint(m(v.x)))
            if abs(m(v.x) - k) <= v.e and v.e < 0.1:
                return k
            raise Undefined('integer expected')
        if v is None:
            raise Undefined('integer unknown')
        return int(v)

    def ev(self, t, env):
        fv = free_vars(t)
        key = None
        if not fv and t.op == 'num':
            return self._ev(t, env)
        if not any(v.op == 'bv' for v in fv) and ('self' not in env or not hasself(t)):
            r = self.memo.get(t)
            if r is not None:
                return r[0]
            key = t
        self.steps += 1
        if self.steps > 4000000:
            raise Undefined('too long')
        r = self._ev(t, env)
        if key is not None:
            self.memo[key] = (r,)
        return r

    def truth(self, t, env):
        v = self.ev(t, env)
        return v

    def _ev(self, t, env):
        op = t.op
        if op == 'num':
            v = t.args[0]
            return int(v) if v.denominator == 1 else mk(v, 0.0)
        if op == 'var':
            if t.args[0] == 'pi':
                return V(mpmath.pi + 0, 1e-15)
            if t.args[0] == 'I_':
                return V(mpmath.mpc(0, 1))
            if t.args[0] not in self.vars:
                raise Undefined('free variable %s' % t.args[0])
            return self.vars[t.args[0]]
        if op == 'bv':
            return env[t]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'poly':
            return self.poly(t, env)
        if op == 'not':
            v = self.ev(t.args[0], env)
            return None if v is None else not v
        if op == 'and':
            unk = False
            for x in t.args:
                try:
                    v = self.ev(x, env)
                except Undefined:
                    v = None
                if v is False:
                    return False
                if v is None:
                    unk = True
            return None if unk else True
        if op in ('le', 'eq'):
            p = t.args[0]
            v = self.ev(p, env)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return v <= 0 if op == 'le' else v == 0
            if v is None:
                return None
            f = float(v.x)
            if op == 'le':
                if v.e == 0:
                    return v.x <= 0
                if f <= -v.e * 4:
                    return True
                if f > v.e * 4:
                    return False
                return None
            if v.e == 0:
                return v.x == 0
            if abs(f) > v.e * 4:
                return False
            return None
        if op == 'ind':
            v = self.ev(t.args[0], env)
            if v is None:
                raise Undefined('undecided condition')
            return int(v)
        if op == 'inv':
            return vinv(self.real(t.args[0], env))
        if op == 'idiv':
            a, b = self.real(t.args[0], env), self.real(t.args[1], env)
            if a.e or b.e or not isinstance(a.x, Fraction) or b.x == 0:
                raise Undefined('floor division')
            return math.floor(a.x / b.x)
        if op == 'uf':
            return self.uf(t, env)
        raise Undefined(op)

    def poly(self, t, env):
        # monomials whose indicator part is 0, or that cancel once the indicators are known, are skipped
        # (their other factors may be undefined there)
        isint = t.sort == 'I'
        todo = {}
        for mono, c in t.args:
            zero = False
            for a, e in mono:
                if a.op == 'ind':
                    v = self.ev(a.args[0], env)
                    if v is None:
                        raise Undefined('undecided condition')
                    if not v:
                        zero = True
                        break
            if zero:
                continue
            rest = tuple((a, e) for a, e in mono if a.op != 'ind')
            todo[rest] = todo.get(rest, 0) + c
        acc = 0
        accv = ZEROV
        for mono, c in todo.items():
            if c == 0:
                continue
            if isint:
                p = int(c)
                for a, e in mono:
                    p *= self.int(a, env) ** e
                acc += p
            else:
                p = mk(c, 0.0)
                for a, e in mono:
                    p = vmul(p, vpow(self.real(a, env), e))
                accv = vadd(accv, p)
        return acc if isint else accv

    def lamcall(self, l, args, env):
        bvs, body = l.args
        e2 = dict(env)
        for b, a in zip(bvs, args):
            e2[b] = a
        return self.ev(body, e2)

    def lamreal(self, l, args, env):
        v = self.lamcall(l, args, env)
        if isinstance(v, V):
            return v
        if v is None:
            raise Undefined('unknown')
        return V(Fraction(int(v)))

    def uf(self, t, env):
        name = t.args[0]
        a = t.args[1:]
        f = self.ufs.get(name)
        if f is not None:
            args = []
            for x in a:
                v = self.ev(x, env)
                if isinstance(v, V) and x.sort == 'I':
                    v = self.int(x, env)
                args.append(v)
            r = f(*args)
            if r is None and t.sort != 'B' and self.insum:
                # differences of prefix sums also run over positions that cancel: any value does there
                return V(Fraction(0)) if t.sort == 'R' else 0
            if r is None and t.sort != 'B':
                raise Undefined('%s%s' % (name, args))
            return r
        if name in DEFS:
            return self.defined(t, a, env)
        g = getattr(self, 'u_' + name.replace('!', '_'), None)
        if g is None:
            raise Undefined('function %s' % name)
        return g(t, a, env)

    def u_sqrt(self, t, a, env):
        v = self.real(a[0], env)
        f = float(v.x)
        if f < -v.e * 4 or (f < 0 and v.e == 0):
            raise Undefined('sqrt of negative')
        if isinstance(v.x, Fraction) and v.x >= 0:
            p, q = math.isqrt(v.x.numerator), math.isqrt(v.x.denominator)
            if p * p == v.x.numerator and q * q == v.x.denominator and v.e == 0:
                return mk(Fraction(p, q), 0.0)
        if f <= v.e * 4:
            return V(mpmath.sqrt(max(m(v.x), 0)), math.sqrt(max(f, 0) + v.e * 4))
        y = mpmath.sqrt(m(v.x))
        return V(y, v.e / (2 * float(mpmath.sqrt(f - v.e))) + EPS * float(y))

    def u_exp(self, t, a, env):
        v = self.real(a[0], env)
        if float(v.x) > 600:
            raise Undefined('overflow')
        return fun(mpmath.exp, lambda q: float(mpmath.exp(m(q.x) + q.e)), v)

    def u_log(self, t, a, env):
        v = self.real(a[0], env)
        if float(v.x) <= v.e:
            raise Undefined('log')
        return fun(mpmath.log, lambda q: 1 / (float(q.x) - q.e), v)

    def u_csqrt(self, t, a, env):
        v = self.real(a[0], env)
        z = mpmath.mpc(m(v.x))
        if z.real < 0 and abs(z.imag) <= 4 * v.e:      # the sign of a zero imaginary part decides: not modelled
            raise Undefined('branch cut of the square root')
        y = mpmath.sqrt(z)
        r = float(abs(y))
        return V(y, EPS * r + (min(v.e / r, math.sqrt(v.e)) if r else math.sqrt(v.e)))

    def u_cexp(self, t, a, env):
        v = self.real(a[0], env)
        y = mpmath.exp(m(v.x))
        return V(y, float(abs(y)) * (2 * v.e + EPS))

    def u_re(self, t, a, env):
        v = self.real(a[0], env)
        return V(v.x.real if isinstance(v.x, mpmath.mpc) else v.x, v.e)

    def u_dft(self, t, a, env):
        n, k = self.int(a[1], env), self.int(a[2], env)
        inv = t.args[0] == 'idft'
        try:
            key = ('dft', inv, a[0], n) + tuple(sorted((str(v.args[0]), env[v]) for v in free_vars(a[0]) if v in env))
            hash(key)
        except TypeError:
            key = None
        x = self.cache.get(key) if key else None
        if x is None:
            x = [self.lamreal(a[0], [j], env) for j in range(n)]
            if key:
                self.cache[key] = x
        y, e = mpmath.mpc(0), 0.0
        for j, v in enumerate(x):
            y += m(v.x) * mpmath.expjpi((2 if inv else -2) * mpmath.mpf(j * k % n) / n)
            e += v.e + 1e-15 * float(abs(m(v.x)))
        return V(y / n if inv else y, (e / n if inv else e) + 1e-15 * float(abs(y)))

    u_idft = u_dft

    def u_pprod(self, t, a, env):
        r = ONEV
        for j in range(self.int(a[1], env)):
            v = self.lamcall(a[0], [j], env)
            r = vmul(r, v if isinstance(v, V) else V(Fraction(int(v))))
        return r

    def u_cos(self, t, a, env):
        return fun(mpmath.cos, lambda q: 1.0, self.real(a[0], env))

    def u_sin(self, t, a, env):
        return fun(mpmath.sin, lambda q: 1.0, self.real(a[0], env))

    def u_arctan(self, t, a, env):
        return fun(mpmath.atan, lambda q: 1.0, self.real(a[0], env))

    def u_arctan2(self, t, a, env):
        y, x = self.real(a[0], env), self.real(a[1], env)
        r = math.hypot(float(x.x), float(y.x))
        if r <= 2 * (x.e + y.e):
            if r == 0 and x.e == 0 and y.e == 0:
                return V(Fraction(0))
            raise Undefined('arctan2')
        if float(x.x) < 0 and abs(float(y.x)) <= y.e * 2:
            raise Undefined('arctan2 branch cut')
        return V(mpmath.atan2(m(y.x), m(x.x)), (x.e + y.e) / (r - x.e - y.e) + EPS)

    def u_erf(self, t, a, env):
        return fun(mpmath.erf, lambda q: 1.2, self.real(a[0], env))

    def u_pow(self, t, a, env):
        b, k = self.real(a[0], env), self.real(a[1], env)
        if float(b.x) <= b.e:
            raise Undefined('pow')
        y = mpmath.power(m(b.x), m(k.x))
        return V(y, abs(float(y)) * (abs(float(k.x)) * b.e / float(b.x) + k.e * abs(math.log(float(b.x))) + EPS) * 2)

    def u_floor(self, t, a, env):
        v = self.real(a[0], env)
        k = math.floor(v.x) if isinstance(v.x, Fraction) else int(mpmath.floor(v.x))
        if v.e and (float(v.x - k) <= v.e * 4 or float(k + 1 - v.x) <= v.e * 4):
            raise Undefined('floor')
        return k

    def u_around(self, t, a, env):
        v = self.real(a[0], env)
        d = self.int(a[1], env)
        s = v.x * 10 ** d if d >= 0 else v.x / (10 ** -d)
        es = v.e * 10.0 ** d + (abs(float(s)) * 1e-14)
        k = math.floor(s) if isinstance(s, Fraction) else int(mpmath.floor(s))
        fr = float(s - k)
        q = Fraction(10) ** d
        if abs(fr - 0.5) <= es * 4:
            if v.e == 0 and isinstance(s, Fraction) and (s - k) == Fraction(1, 2):
                k = k if k % 2 == 0 else k + 1
                return mk(Fraction(k) / q, 0.0)
            # near a rounding boundary: either neighbour
            return V(Fraction(2 * k + 1, 2) / q, 0.6 * 10.0 ** -d)
        if fr > 0.5:
            k += 1
        return mk(Fraction(k) / q, 0.0)

    def u_psum(self, t, a, env):
        l = a[0]
        k = self.int(a[1], env)
        r = ZEROV
        isint = t.sort == 'I'
        acc = 0
        rng = range(k) if k >= 0 else range(k, 0)
        for j in rng:
            self.insum += 1
            try:
                v = self.lamcall(l, [j], env)
            finally:
                self.insum -= 1
            if v is None:
                raise Undefined('unknown')
            if isint and isinstance(v, int):
                acc += v
            else:
                r = vadd(r, v if isinstance(v, V) else V(Fraction(int(v))))
        if isint:
            return acc if k >= 0 else -acc
        return r if k >= 0 else vmul(V(Fraction(-1)), r)

    def u_all(self, t, a, env):
        lo, hi = self.int(a[1], env), self.int(a[2], env)
        unk = False
        for j in range(lo, hi):
            try:
                v = self.lamcall(a[0], [j], env)
            except Undefined:
                v = None
            if v is False:
                return False
            if v is None:
                unk = True
        return None if unk else True

    def u_first(self, t, a, env):
        lo, hi = self.int(a[1], env), self.int(a[2], env)
        for j in range(lo, hi):
            v = self.lamcall(a[0], [j], env)
            if v is None:
                raise Undefined('unknown')
            if v:
                return j
        return max(lo, hi)

    def u_amin(self, t, a, env):
        n = self.int(a[1], env)
        if n <= 0:
            raise Undefined('empty minimum')
        vs = [self.lamcall(a[0], [j], env) for j in range(n)]
        if t.sort == 'I':
            return min(vs)
        vs = [v if isinstance(v, V) else V(Fraction(int(v))) for v in vs]
        b = min(vs, key=lambda v: v.x)
        return V(b.x, max(v.e for v in vs))

    def u_median(self, t, a, env):
        n = self.int(a[1], env)
        vs = sorted([self.lamreal(a[0], [j], env) for j in range(n)], key=lambda v: v.x)
        if n <= 0:
            raise Undefined('empty median')
        e = max(v.e for v in vs)
        if n % 2:
            return V(vs[n // 2].x, e)
        r = vmul(V(Fraction(1, 2)), vadd(vs[n // 2 - 1], vs[n // 2]))
        return V(r.x, max(r.e, e))

    def _eigh(self, a, env):
        if any(v.op == 'bv' for v in free_vars(a[0])):
            raise Undefined('eigenvectors of an open matrix')
        n = self.int(a[1], env)
        key = (a[0], n)
        if key not in self.eig:
            import numpy as np
            m = np.array([[float(self.lamreal(a[0], [i, j], env).x) for j in range(n)] for i in range(n)]).reshape(n, n)
            w, u = np.linalg.eigh(m)
            gaps = np.diff(w)
            ok = n < 2 or float(np.min(gaps)) > 1e-4 * (1 + float(np.max(np.abs(w))))
            self.eig[key] = (w, u, ok)
        return self.eig[key]

    def u_eigvec(self, t, a, env):
        w, u, ok = self._eigh(a, env)
        if not ok:
            raise Undefined('nearly equal eigenvalues')
        i, j = self.int(a[2], env), self.int(a[3], env)
        if not (0 <= i < len(w) and 0 <= j < len(w)):
            if self.insum:
                return V(Fraction(0))      # positions that cancel between prefix sums
            raise Undefined('eigenvector index')
        return V(Fraction(float(u[i, j])), 1e-11)

    def data(self, l, n, env):
        """the values of a data argument and the largest error among them"""
        key = None if has_bv_free(l) or hasself(l) else ('data', l, n)
        if key in self.cache:
            return self.cache[key]
        vs = [self.lamreal(l, [j], env) for j in range(n)]
        r = [float(v.x) for v in vs], max([v.e for v in vs] + [0.0])
        if key:
            self.cache[key] = r
        return r

    def u_spline(self, t, a, env):
        from scipy.interpolate import interp1d
        n = self.int(a[2], env)
        x, ex = self.data(a[0], n, env)
        y, ey = self.data(a[1], n, env)
        if ex:
            raise Undefined('inexact abscissae')
        try:
            v = float(interp1d(x, y, self.int(a[3], env))(float(self.real(a[4], env).x)))
        except ValueError:
            raise Undefined('interpolation')
        return V(Fraction(v), 4 * ey + 1e-11 * (1 + max(map(abs, y))))

    def defined(self, t, a, env):
        """name(U, W, n, more...): a named definition over two data arguments, unfolded on their values"""
        n = self.int(a[2], env)
        if any(has_bv_free(x) for x in a[:3]) or any(hasself(x) for x in a):
            raise Undefined('nested definition')
        sub = self.cache.get(('defined', a[0], a[1], n))
        if sub is None:
            vs = [[self.lamreal(l, [j], env) for j in range(n)] for l in a[:2]]
            at = lambda v: (lambda j: v[j] if 0 <= j < n else None)
            sub = self.cache[('defined', a[0], a[1], n)] = Ev({'def!U': at(vs[0]), 'def!W': at(vs[1])}, {'def!n': n})
        for k, x in enumerate(a[3:]):
            sub.vars['def!%d' % k] = self.int(x, env)
        vals = tuple(sub.vars['def!%d' % k] for k in range(len(a) - 3))
        if sub.cache.get('at') != vals:
            sub.memo, sub.steps = {}, 0
            sub.cache['at'] = vals
        body = DEFBODY.get(t.args[0])
        if body is None:
            U, W = (lambda i, f=f: uf('def!' + f, lift(i), sort='R') for f in 'UW')
            body = DEFBODY[t.args[0]] = DEFS[t.args[0]](U, W, var('def!n', 'I'), *[var('def!%d' % k, 'I') for k in range(len(a) - 3)])
        return sub.ev(body, {})

    def u_kde(self, t, a, env):
        import numpy as np
        from scipy.stats import gaussian_kde
        n = self.int(a[2], env)
        x, ex = self.data(a[0], n, env)
        y, ey = self.data(a[1], n, env)
        key = ('kde', tuple(x), tuple(y))
        if key not in self.cache:
            try:
                self.cache[key] = gaussian_kde(np.array([x, y]))
            except Exception:
                self.cache[key] = None
        k = self.cache[key]
        if k is None:
            raise Undefined('singular')
        p, q = self.real(a[3], env), self.real(a[4], env)
        v = float(k([[float(p.x)], [float(q.x)]])[0])
        top = 1 / (2 * math.pi * math.sqrt(float(np.linalg.det(k.covariance))))
        w = np.linalg.eigvalsh(k.covariance)[0]
        if not top < 1e12 or w < 1e-9 * np.trace(k.covariance):
            raise Undefined('nearly singular')
        return V(Fraction(v), 1e-11 * top + top * (ex + ey + p.e + q.e) / math.sqrt(w))

    def matrix2(self, l, r, c, env):
        key = ('matrix', l, r, c)
        if key not in self.cache:
            self.cache[key] = [[self.lamreal(l, [i, j], env) for j in range(c)] for i in range(r)]
        return self.cache[key]

    def u_max2(self, t, a, env):
        i, j = self.int(uf('arg2r', *t.args[1:], sort='I'), env), self.int(uf('arg2c', *t.args[1:], sort='I'), env)
        return self.matrix2(a[0], self.int(a[1], env), self.int(a[2], env), env)[i][j]

    def u_arg2r(self, t, a, env):
        M = self.matrix2(a[0], self.int(a[1], env), self.int(a[2], env), env)
        vs = sorted(((v.x, v.e, -i, -j) for i, row in enumerate(M) for j, v in enumerate(row)), reverse=True)
        if len(vs) > 1 and vs[0][0] - vs[1][0] <= vs[0][1] + vs[1][1] + 1e-12 * abs(vs[0][0]):
            raise Undefined('nearly equal maxima')
        return -(vs[0][2] if t.args[0] == 'arg2r' else vs[0][3])

    u_arg2c = u_arg2r

    def u_welch(self, t, a, env):
        import numpy as np
        n, m, o, N, one, i = (self.int(a[k], env) for k in (1, 3, 5, 6, 7, 8))
        x, ex = self.data(a[0], n, env)
        w, ew = self.data(a[2], m, env)
        key = ('welch', tuple(x), tuple(w), o, N, one, float(self.real(a[4], env).x))
        if key not in self.cache:
            from scipy.signal import welch
            self.cache[key] = welch(np.array(x), key[-1], window=np.array(w), noverlap=o, nfft=N, return_onesided=bool(one))[1]
        p = self.cache[key]
        return V(Fraction(float(p[i])), 1e-11 * (float(max(abs(p))) + 1e-12) + (1e3 * (ex + ew) if ex + ew > 1e-9 else 0))

    def u_olsfit(self, t, a, env):
        import numpy as np
        n, d = self.int(a[2], env), self.int(a[3], env)
        x, ex = self.data(a[0], n, env)
        y, ey = self.data(a[1], n, env)
        z = float(self.real(a[4], env).x)
        if ex or n <= d or d > 4 or len(set(x)) < n:
            raise Undefined('regression')
        c, s = sum(x) / n, max(max(x) - min(x), 1.0)
        u = (np.array(x) - c) / s
        q, r = np.linalg.qr(np.vander(u, d + 1))
        w = np.vander([(z - c) / s], d + 1)[0]
        h = q @ np.linalg.solve(r.T, w)
        return V(Fraction(float(h @ np.array(y))), float(np.abs(h).sum()) * ey + 1e-9 * (1 + max(map(abs, y))) * (1 + float(np.abs(h).sum())))

    def _uniq(self, a, env):
        n = self.int(a[1], env)
        vs = [self.lamreal(a[0], [j], env) for j in range(n)]
        if any(v.e for v in vs):
            raise Undefined('unique of inexact values')
        return sorted(set(v.x for v in vs))

    def u_uniq(self, t, a, env):
        u = self._uniq(a, env)
        k = self.int(a[2], env)
        if not 0 <= k < len(u):
            raise Undefined('uniq index')
        return mk(u[k], 0.0)

    def u_nuniq(self, t, a, env):
        return len(self._uniq(a, env))

    def u_enum(self, t, a, env):
        n, k = self.int(a[1], env), self.int(a[2], env)
        c = -1
        for j in range(n):
            v = self.lamcall(a[0], [j], env)
            if v is None:
                raise Undefined('unknown')
            if v:
                c += 1
                if c == k:
                    return j
        raise Undefined('enum index')

    def u_def(self, t, a, env):
        args = [self.ev(x, env) for x in a[1:]]
        key = None
        if not any(v.op == 'bv' for v in free_vars(a[0])):
            key = (a[0], tuple(args))
            if key in self.recmemo:
                return self.recmemo[key]
        r = self.lamcall(a[0], args, env)
        if key is not None:
            self.recmemo[key] = r
        return r

    def u_rec(self, t, a, env):
        args = [self.ev(x, env) for x in a[1:]]
        return self._rec(a[0], args, env)

    def _rec(self, l, args, env):
        if not any(v.op == 'bv' for v in free_vars(l)):
            key = (l, tuple(a if not isinstance(a, V) else (a.x, a.e) for a in args))
        else:
            key = None
        if key is not None and key in self.recmemo:
            return self.recmemo[key]
        self.recdepth += 1
        if self.recdepth > 300:
            raise Undefined('recursion')
        try:
            e2 = dict(env)
            for b, v in zip(l.args[0], args):
                e2[b] = v
            e2['self'] = l
            r = self.ev(l.args[1], e2)
        finally:
            self.recdepth -= 1
        if key is not None:
            self.recmemo[key] = r
        return r

    def u_self(self, t, a, env):
        args = [self.ev(x, env) for x in a]
        return self._rec(env['self'], args, env)
