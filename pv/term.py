"""Hash-consed logical terms kept in normal form.

Arithmetic terms are kept as sums of monomials over atoms (so two arithmetic
terms are equal as rational functions with the same denominators iff they are
the same object); a conditional value ite(c,a,b) is b + [c]*(a-b) with the
0/1 atom [c] ("ind").  Booleans are built from le (p<=0) and eq (p==0).
Binders are 'lam' terms whose bound variables are named by height, so alpha
equivalent terms are the same object.
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '__weakref__')

    def __hash__(self):
        return self.id      # creation order: runs are reproducible

    def __repr__(self):
        return show(self)

    # arithmetic -----------------------------------------------------
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, k): return power(self, k)
    def __le__(self, o): return le(self, lift(o))
    def __lt__(self, o): return lt(self, lift(o))
    def __ge__(self, o): return le(lift(o), self)
    def __gt__(self, o): return lt(lift(o), self)
    def __abs__(self): return ite(le(num(0), self), self, neg(self))
    # identity equality/hash (hash-consed); logical equality is eq(a,b)


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t._fv = None
        _table[key] = t
    return t


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')
_nums = {}


def num(v):
    t = _nums.get(v)
    if t is None:
        f = Fraction(v) if not isinstance(v, float) else Fraction(repr(v))
        t = _mk('num', (f,), 'I' if f.denominator == 1 else 'R')
        if not isinstance(v, (bool, float)):
            _nums[v] = t
    return t


def lift(x):
    if isinstance(x, T):
        return ind(x) if x.sort == 'B' else x
    if x is True or x is False:
        return num(int(x))
    return num(x)


def blift(x):
    if isinstance(x, T):
        return x
    return TRUE if x else FALSE


_fresh = itertools.count()


def var(name, sort):
    return _mk('var', (name,), sort)


def fresh(prefix, sort):
    return _mk('var', ('%s!%d' % (prefix, next(_fresh)),), sort)


ZERO = num(0)
ONE = num(1)


# polynomials ---------------------------------------------------------
# monomial: tuple of (atom, exp) sorted by atom id ; poly dict mono -> Fraction
def pdict(t):
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    assert t.sort in 'IR', t
    return {((t, 1),): Fraction(1)}


def _atom_int(a):
    return a.sort == 'I'


def from_pdict(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    sort = 'I'
    for m, c in d.items():
        if c.denominator != 1 or any(e < 0 or a.sort != 'I' for a, e in m):
            sort = 'R'
            break
    items = tuple(sorted(d.items(), key=_mkey))
    return _mk('poly', items, sort)


def _mkey(mc):
    return tuple((a.id, e) for a, e in mc[0])


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = pdict(a)
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + c
    return from_pdict(d)


def addn(ts):
    d = {}
    for t in ts:
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return from_pdict(d)


def neg(a):
    return from_pdict({m: -c for m, c in pdict(a).items()})


def scale(a, k):
    return from_pdict({m: c * k for m, c in pdict(a).items()})


class Unsupported(Exception):
    """construct outside the verifier's subset"""


class TooBig(Exception):
    pass


MAXPOLY = 20000
I_UNIT = None            # the imaginary unit, defined below


def _mono_mul(m1, m2):
    """returns list of (mono, coef poly) -- handles idempotent ind, sqrt^2, sin^2"""
    d = dict(m1)
    special = False
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = []
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.op == 'ind' and e > 1:
            d[a] = 1
        elif a is I_UNIT and e != 1:
            del d[a]
            e %= 4
            if e % 2:
                d[a] = 1
            if e > 1:
                extra.append(num(-1))
        elif a.op == 'uf' and a.args[0] == 'sqrt' and (e >= 2 or e <= -2):
            q, r = divmod(abs(e), 2)
            if r:
                d[a] = 1 if e > 0 else -1
            else:
                del d[a]
            base = a.args[1]
            extra.append(power(base, q if e > 0 else -q))
        elif a.op == 'uf' and a.args[0] == 'sin' and e >= 2:
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            c = uf('cos', a.args[1], sort='R')
            extra.append(power(ONE - c * c, q))
    mono = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
    return mono, extra


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    da, db = pdict(a), pdict(b)
    if len(da) * len(db) > MAXPOLY:
        raise TooBig()
    d = {}
    extras = []
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m, ex = _mono_mul(m1, m2)
            if ex:
                t = from_pdict({m: c1 * c2})
                for x in ex:
                    t = mul(t, x)
                extras.append(t)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = from_pdict(d)
    for x in extras:
        r = add(r, x)
    if a is b and a.op != 'num' and not is_cx(a):
        note_square(r)
    return r


SQUARES = {}             # polynomials that arose as squares, up to a factor: normalised polynomial -> sign of the factor


def _unit(d):
    """(d / its leading coefficient, that coefficient)"""
    items = sorted(d.items(), key=_mkey)
    k = items[0][1]
    return tuple((m, Fraction(c) / k) for m, c in items), k


def note_square(r):
    d = dict(pdict(r))
    d.pop((), None)
    if d and pdict(r).get((), 0) == 0:
        u, k = _unit(d)
        SQUARES[u] = k > 0


def square_sign(p):
    """sign of k q + c where q is a known square and k, c are numbers not of opposite signs: 1 (positive), -1, or None"""
    d = dict(pdict(p))
    c = d.pop((), 0)
    if not d:
        return None
    u, k = _unit(d)
    pos = SQUARES.get(u)
    if pos is None or c == 0:
        return None
    s = 1 if (k > 0) == pos else -1
    return s if s * c > 0 else None


def power(a, k):
    if isinstance(k, T):
        if k.op == 'num':
            k = k.args[0]
        else:
            return uf('pow', a, k, sort='R')
    k = Fraction(k) if not isinstance(k, float) else Fraction(repr(k))
    if k == Fraction(1, 2):
        return sqrt(a)
    if k.denominator != 1:
        if a.op == 'num' and a.args[0] in (0, 1):
            return a
        return uf('pow', a, num(k), sort='R')
    k = int(k)
    if k < 0:
        return power(inv(a), -k)
    r = ONE
    for _ in range(k):
        r = mul(r, a)
    return r


def inv(a):
    """1/a ; sound where a != 0 (definedness is a separate obligation)"""
    if a is I_UNIT:
        return mul(num(-1), I_UNIT)
    if a.op == 'poly' and len(a.args) == 1 and any(x is I_UNIT for x, e in a.args[0][0]):
        m, c = a.args[0]
        return mul(mul(num(-1), I_UNIT), inv(from_pdict({tuple(y for y in m if y[0] is not I_UNIT): c})))
    if a.op == 'num':
        if a.args[0] == 0:
            return uf('inv0', sort='R')
        return num(1 / a.args[0])
    d = pdict(a)
    if len(d) == 1:
        (m, c), = d.items()
        out = []
        rest = []
        for at, e in m:
            if at.op == 'inv':
                # 1/(inv(p)^e) = p^e
                for _ in range(e):
                    rest.append(at.args[0])
            else:
                out.append((at, -e))
        t = from_pdict({tuple(out): 1 / c})
        for r in rest:
            t = mul(t, r)
        return t
    # several monomials: factor out common monomial content and coefficient
    items = sorted(d.items(), key=_mkey)
    c0 = items[0][1]
    common = None
    for m, c in items:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            nc = {}
            for at in set(common) | set(dm):
                e1, e2 = common.get(at, 0), dm.get(at, 0)
                e = min(e1, e2)
                if at.op == 'ind':
                    e = 0
                if e:
                    nc[at] = e
            common = nc
    d2 = {}
    for m, c in items:
        dm = dict(m)
        for at, e in common.items():
            dm[at] = dm.get(at, 0) - e
            if dm[at] == 0:
                del dm[at]
        mm = tuple(sorted(dm.items(), key=lambda ae: ae[0].id))
        d2[mm] = c / c0
    base = from_pdict(d2)
    r = _mk('inv', (base,), 'R') if base.op == 'poly' else inv(base)
    r = scale(r, 1 / c0)
    for at, e in common.items():
        if at.op == 'inv':
            r = mul(r, power(at.args[0], e))
        else:
            r = mul(r, from_pdict({((at, -e),): Fraction(1)}))
    return r


def div(a, b):
    return mul(a, inv(b))


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    """square root; scaling by positive rational squares pulled out"""
    if a.op == 'num' and a.args[0] >= 0:
        p, q = _isqrt(a.args[0].numerator), _isqrt(a.args[0].denominator)
        if p is not None and q is not None:
            return num(Fraction(p, q))
    d = pdict(a)
    if len(d) == 1:
        (m, c), = d.items()
        # single monomial: pull out coefficient square (only), keep the rest
        if c > 0 and m:
            p, q = _isqrt(c.numerator), _isqrt(c.denominator)
            if p is not None and q is not None and c != 1:
                return scale(sqrt(from_pdict({m: Fraction(1)})), Fraction(p, q))
    return uf('sqrt', a, sort='R')


# booleans --------------------------------------------------------------
def _primitive(d, is_int):
    """scale dict by positive rational so that coefs are coprime integers"""
    from math import gcd, lcm
    L = 1
    for c in d.values():
        L = lcm(L, c.denominator)
    g = 0
    for m, c in d.items():
        if m or not is_int:
            g = gcd(g, int(c * L))
    if g == 0:
        g = 1
    return {m: Fraction(c) * L / g for m, c in d.items()}


def _all_int(d):
    return all(a.sort == 'I' and e > 0 for m in d for a, e in m)


def le0(p):
    """p <= 0"""
    if p.op == 'num':
        return TRUE if p.args[0] <= 0 else FALSE
    d = pdict(p)
    isint = _all_int(d)
    d = _primitive(d, isint)
    if isint and () in d:
        c = d[()]
        # q + c <= 0  <=> q <= -c <=> q <= floor(-c)
        import math
        d[()] = Fraction(-math.floor(-c))
    if isint:
        # canonical polarity for integer atoms: prefer p<=0 or not(-p+1<=0)
        items = sorted(d.items(), key=_mkey)
        lead = next(c for m, c in items if m)
        if lead < 0:
            nd = {m: -c for m, c in d.items()}
            nd[()] = nd.get((), Fraction(0)) + 1
            return bnot(_mk('le', (from_pdict(nd),), 'B'))
    else:
        # try a bound from ind-only polynomials
        pass
    q = from_pdict(d)
    if q.op == 'num':
        return TRUE if q.args[0] <= 0 else FALSE
    ev = _ind_eval(q, lambda v: v <= 0)
    if ev is not None:
        return ev
    return _mk('le', (q,), 'B')


def eq0(p):
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    d = pdict(p)
    isint = _all_int(d)
    d = _primitive(d, isint)
    if isint and any(c.denominator != 1 for c in d.values()):
        return FALSE
    items = sorted(d.items(), key=_mkey)
    lead = next(c for m, c in items if m)
    if lead < 0:
        d = {m: -c for m, c in d.items()}
    q = from_pdict(d)
    ev = _ind_eval(q, lambda v: v == 0)
    if ev is not None:
        return ev
    return _mk('eq', (q,), 'B')


def _ind_eval(q, test):
    """a polynomial all of whose atoms are indicators: boolean function of them"""
    d = pdict(q)
    atoms = set()
    for m in d:
        for a, e in m:
            if a.op != 'ind' or e < 0:
                return None
            atoms.add(a)
            if len(atoms) > 3:
                return None
    atoms = sorted(atoms, key=lambda a: a.id)

    def rec(i, asg):
        if i == len(atoms):
            v = sum(c for m, c in d.items() if all(asg[a] for a, e in m))
            return TRUE if test(v) else FALSE
        asg[atoms[i]] = True
        h = rec(i + 1, asg)
        asg[atoms[i]] = False
        l = rec(i + 1, asg)
        c = atoms[i].args[0]
        return bite(c, h, l)
    return rec(0, {})


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return bor(c, b)
    if b is FALSE:
        return band(c, a)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    return bor(band(c, a), band(bnot(c), b))


def le(a, b): return le0(a - b)
def lt(a, b): return bnot(le0(b - a))
def eq(a, b):
    if a.sort == 'B' or b.sort == 'B':
        if a.sort == 'B' and b.sort == 'B':
            return iff(a, b)
        a, b = lift(a), lift(b)
    return eq0(a - b)
def ne(a, b): return bnot(eq(a, b))


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return _mk('not', (c,), 'B')


def band(*cs):
    out = {}
    for c in cs:
        if c.op == 'and':
            parts = c.args
        else:
            parts = (c,)
        for p in parts:
            if p is TRUE:
                continue
            if p is FALSE:
                return FALSE
            out[p] = 1
    for p in out:
        if bnot(p) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def bor(*cs):
    return bnot(band(*[bnot(c) for c in cs]))


def imp(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    if bnot(a) is b:
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.id)
    return band(bor(bnot(x), y), bor(x, bnot(y)))


def ind(c):
    """0/1 indicator of a boolean"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == 'not':
        inner = c.args[0]
        if inner.op == 'and':
            # an or: keep as 1 - prod
            return ONE - ind(inner)
        return ONE - ind(inner)
    if c.op == 'and':
        r = ONE
        if len(c.args) > 12:
            return _mk('ind', (c,), 'I')
        for p in c.args:
            r = mul(r, ind(p))
            if len(pdict(r)) > 64:
                return _mk('ind', (c,), 'I')
        return r
    return _mk('ind', (c,), 'I')


def ite(c, a, b):
    if isinstance(a, T) and a.sort == 'B' or isinstance(b, T) and b.sort == 'B':
        return bite(c, blift(a), blift(b))
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return add(b, mul(ind(c), a - b))


def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(b, a), a, b)


# uninterpreted functions and binders -------------------------------------
def uf(name, *args, sort='R'):
    return _mk('uf', (name,) + tuple(args), sort)


def floordiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE and a.sort == 'I':
        return a
    if b.op == 'num' and a.op == 'poly' and b.args[0] > 1 and a.sort == 'I':
        k = b.args[0]
        if all(not mono or c % k == 0 and all(x.sort == 'I' and e > 0 for x, e in mono) for mono, c in a.args):
            return addn([mul(num(c // k), _mono(mono)) for mono, c in a.args])
    return _mk('idiv', (a, b), 'I')


def _mono(mono):
    r = ONE
    for x, e in mono:
        r = mul(r, power(x, e))
    return r


def mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return a - b * floordiv(a, b)


def height(t):
    """largest bound-variable level inside t (0 if no lam)"""
    h = _height.get(t)
    if h is None:
        if t.op == 'lam':
            h = t.args[0][-1].args[0]
            h = max(h, height(t.args[1]))
        else:
            h = 0
            for s in subterms1(t):
                h = max(h, height(s))
        _height[t] = h
    return h


_height = {}


def bv(level, k, sort='I'):
    return _mk('bv', (level, k), sort)


def subterms1(t):
    op = t.op
    if op == 'poly':
        return [a for m, c in t.args for a, e in m]
    if op in ('num', 'var', 'bv', 'true', 'false'):
        return []
    if op == 'lam':
        return [t.args[1]]
    if op == 'uf':
        return [x for x in t.args[1:] if isinstance(x, T)]
    return [x for x in t.args if isinstance(x, T)]


_rv = {}


def reveal(t):
    """replace every opaque definition def(l, args) by its body"""
    for _ in range(12):
        m = {}
        for s in all_subterms([t]):
            if s.op == 'uf' and s.args[0] == 'def' and not any(v.op == 'bv' for v in free_vars(s)):
                m[s] = apply(s.args[1], *s.args[2:])
        if m:
            t2 = subst(t, m)
        else:
            t2 = _reveal_in(t)
        if t2 is t:
            return t
        t = t2
    return t


def _reveal_in(t):
    """inside binders"""
    if t.op == 'uf' and t.args[0] == 'def':
        return apply(t.args[1], *[_reveal_in(x) for x in t.args[2:]])
    m = {}
    for s in all_subterms([t], into_lam=False):
        if s.op == 'lam':
            vs = [fresh('rv', b.sort) for b in s.args[0]]
            b = apply(s, *vs)
            b2 = reveal(b)
            if b2 is not b:
                m[s] = lam(vs, b2)
    return subst(t, m) if m else t


def has_def(t):
    return any(s.op == 'uf' and s.args[0] == 'def' for s in all_subterms([t]))


def lam(vars_, body):
    """close body over the given var terms"""
    h = height(body) + 1
    while any(v.op == 'bv' and v.args[0] == h for v in free_vars(body)):
        h += 1            # never capture a bound variable of an enclosing, currently open, lam
    bvs = tuple(bv(h, k, v.sort) for k, v in enumerate(vars_))
    # eta-canonical
    return _mk('lam', (bvs, subst(body, dict(zip(vars_, bvs)))), 'L')


def apply(l, *args):
    bvs, body = l.args
    return subst(body, dict(zip(bvs, args)))


def free_vars(t):
    if t._fv is None:
        if t.op in ('var', 'bv'):
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for x in subterms1(t):
                s = s | free_vars(x)
            if t.op == 'lam':
                s = s - set(t.args[0])
            t._fv = s
    return t._fv


def subst(t, m, memo=None):
    """replace terms (usually variables) according to m, renormalising"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = m.keys()
    simple = all(k.op in ('var', 'bv') for k in keys)
    return _subst(t, m, memo, simple)


def _subst(t, m, memo, simple):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if simple and not (free_vars(t) & m.keys()):
        memo[t] = t
        return t
    op = t.op
    if op in ('num', 'var', 'bv', 'true', 'false'):
        r = t
    elif op == 'poly':
        parts = []
        for mono, c in t.args:
            x = num(c)
            for a, e in mono:
                y = _subst(a, m, memo, simple)
                x = mul(x, power(y, e))
            parts.append(x)
        r = addn(parts)
    elif op == 'inv':
        r = inv(_subst(t.args[0], m, memo, simple))
    elif op == 'ind':
        r = ind(_subst(t.args[0], m, memo, simple))
    elif op == 'le':
        r = le0(_subst(t.args[0], m, memo, simple))
    elif op == 'eq':
        r = eq0(_subst(t.args[0], m, memo, simple))
    elif op == 'not':
        r = bnot(_subst(t.args[0], m, memo, simple))
    elif op == 'and':
        r = band(*[_subst(x, m, memo, simple) for x in t.args])
    elif op == 'idiv':
        r = floordiv(_subst(t.args[0], m, memo, simple), _subst(t.args[1], m, memo, simple))
    elif op == 'lam':
        bvs, body = t.args
        if any(height(v) for v in m.values()):
            # open first, so that substituted functions cannot meet bound variables of their own level
            fr = [fresh('b', b.sort) for b in bvs]
            b1 = subst(body, dict(zip(bvs, fr)))
            nb = subst(b1, m)
            r = t if nb is b1 else lam(fr, nb)
        else:
            nb = _subst(body, m, memo, simple)
            if nb is body:
                r = t
            else:
                fr = [fresh('b', b.sort) for b in bvs]
                nb = subst(nb, dict(zip(bvs, fr)))
                r = lam(fr, nb)
    elif op == 'uf':
        name = t.args[0]
        args = [_subst(x, m, memo, simple) if isinstance(x, T) else x for x in t.args[1:]]
        r = rebuild_uf(name, args, t.sort)
    else:
        raise AssertionError(op)
    memo[t] = r
    return r


REBUILD = {}      # name -> function(args) renormalising an application


def rebuild_uf(name, args, sort):
    f = REBUILD.get(name)
    if f:
        return f(*args)
    return uf(name, *args, sort=sort)


REBUILD['sqrt'] = sqrt
REBUILD['pow'] = lambda a, k: power(a, k)


def all_subterms(ts, into_lam=True):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'lam' and not into_lam:
            continue
        if t.op == 'uf' and t.args[0] == 'def':
            st.extend(t.args[2:])       # the body of an opaque definition is not looked at
            continue
        st.extend(subterms1(t))
    return seen


def has_bv(t):
    return any(v.op == 'bv' for v in free_vars(t))


# sums -----------------------------------------------------------------
# psum(lam j. body, k) = sum_{0<=j<k} body(j), extended to k<0 by the same recurrence
def _lin_in(p, j):
    """p = c*j + r with integer constant c and j-free r -> (c, r) or None"""
    c = Fraction(0)
    rest = {}
    for m, k in pdict(p).items():
        if m == ((j, 1),):
            c = k
        elif any(j in free_vars(a) for a, e in m):
            return None
        else:
            rest[m] = k
    return c, from_pdict(rest)


def prefix(l, k):
    """canonical P_l(k)"""
    if k.op == 'num' and k.sort == 'I' and abs(k.args[0]) <= 16:
        k = int(k.args[0])
        if k >= 0:
            return addn([apply(l, num(i)) for i in range(k)])
        return neg(addn([apply(l, num(i)) for i in range(k, 0)]))
    return uf('psum', l, k, sort=l.args[1].sort if l.args[1].sort in 'IR' else 'R')


def _faul(e, k):
    """sum_{0<=j<k} j^e"""
    if e == 0:
        return k
    if e == 1:
        return scale(k * (k - 1), Fraction(1, 2))
    if e == 2:
        return scale((k - 1) * k * (2 * k - 1), Fraction(1, 6))
    if e == 3:
        x = scale(k * (k - 1), Fraction(1, 2))
        return x * x
    return None


def _re_psum(l, k):
    j = fresh('j', 'I')
    return mk_prefix(j, apply(l, j), k)


REBUILD['psum'] = _re_psum


def _shift_candidates(mono, j):
    """offsets c such that some uf atom argument is j + c"""
    out = []
    seen = set()

    def walk(a):
        if a in seen:
            return
        seen.add(a)
        if a.op == 'uf' and j in free_vars(a):
            for pos, x in enumerate(a.args[1:]):
                if isinstance(x, T) and x.sort == 'I' and j in free_vars(x):
                    lr = _lin_in(x, j)
                    if lr and lr[0] == 1 and not any(v.op == 'bv' and v not in outer for v in free_vars(lr[1])):
                        out.append((a.args[0], pos, lr[1]))
        for x in subterms1(a):
            if j in free_vars(x):
                walk(x)
    for a, e in mono:
        outer = {v for v in free_vars(a) if v.op == 'bv'}
        seen.clear()
        walk(a)
    return out


CTX = [None]      # callback cond -> True/False/None deciding conditions in the current path


def _decide(c):
    if c is TRUE or c is FALSE:
        return c is TRUE
    if CTX[0] is not None:
        return CTX[0](c)
    return None


def cite(c, a, b):
    """ite, deciding the condition in the current context when possible"""
    d = _decide(c)
    if d is True:
        return a
    if d is False:
        return b
    return ite(c, a, b)


def cmin(a, b): return cite(le(a, b), a, b)
def cmax(a, b): return cite(le(a, b), b, a)


def _by_dep(j, body):
    groups = {}
    for m, c in pdict(body).items():
        dep = tuple(ae for ae in m if j in free_vars(ae[0]))
        free = tuple(ae for ae in m if j not in free_vars(ae[0]))
        g = groups.setdefault(dep, {})
        g[free] = g.get(free, 0) + c
    return groups


def mk_prefix(j, body, k):
    """P(k) = sum_{0<=j<k} body (for k<0 by the recurrence P(k) = P(k+1) - body(k))"""
    if k is ZERO:
        return ZERO
    total = []
    for dep, coef in _by_dep(j, lift(body)).items():
        total.append(mul(from_pdict(coef), _prefix_mono(j, dep, k)))
    return addn(total)


def mk_sum(lo, hi, j, body):
    """sum_{lo<=j<hi} body"""
    total = []
    for dep, coef in _by_dep(j, lift(body)).items():
        total.append(mul(from_pdict(coef), _sum_mono(lo, hi, j, dep)))
    return addn(total)


def _sum_mono(lo, hi, j, dep):
    # indicator of a range condition on j: intersect the range
    for ae in dep:
        a = ae[0]
        if a.op == 'ind' and a.args[0].op in ('le', 'eq'):
            p = a.args[0].args[0]
            lr = _lin_in(p, j)
            if lr and abs(lr[0]) == 1 and p.sort == 'I':
                rest = tuple(x for x in dep if x is not ae)
                if a.args[0].op == 'eq':
                    k = neg(lr[1]) if lr[0] == 1 else lr[1]
                    inside = cite(band(le(lo, k), lt(k, hi)), ONE, ZERO)
                    return mul(inside, subst(from_pdict({rest: Fraction(1)}), {j: k}))
                if lr[0] == 1:      # j + r <= 0  -> j < 1 - r
                    return _sum_mono(lo, cmin(hi, ONE - lr[1]), j, rest)
                # -j + r <= 0 -> j >= r
                return _sum_mono(cmax(lo, lr[1]), hi, j, rest)
    v = _prefix_mono(j, dep, hi) - _prefix_mono(j, dep, lo)
    c = le(lo, hi)
    d = _decide(c)
    if d is True:
        return v
    if d is False:
        return ZERO
    return mul(ind(c), v)


def _prefix_mono(j, dep, k):
    if k is ZERO:
        return ZERO
    if not dep:
        return k
    if len(dep) == 1 and dep[0][0] is j:
        f = _faul(dep[0][1], k)
        if f is not None:
            return f
    for ae in dep:
        a = ae[0]
        if a.op == 'ind' and a.args[0].op == 'eq':
            p = a.args[0].args[0]
            lr = _lin_in(p, j)
            if lr and abs(lr[0]) == 1 and p.sort == 'I':
                x = neg(lr[1]) if lr[0] == 1 else lr[1]
                rest = tuple(y for y in dep if y is not ae)
                w = ind(band(le(ZERO, x), lt(x, k))) - ind(band(le(k, x), lt(x, ZERO)))
                return mul(w, subst(from_pdict({rest: Fraction(1)}), {j: x}))
    cands = _shift_candidates(dep, j)
    if cands:
        best = None
        for name, pos, c in cands:
            key = (name, pos)
            if best is None or key < best[0]:
                best = (key, c)
            elif key == best[0] and c is not best[1]:
                dd = c - best[1]
                if dd.op == 'num':
                    if dd.args[0] < 0:
                        best = (key, c)
                elif repr(c) < repr(best[1]):
                    best = (key, c)
        c = best[1]
        same = [x for name, pos, x in cands if (name, pos) == best[0]]
        if any((x - c).op != 'num' for x in same):
            # offsets that cannot be ordered: take the shift giving the least shape, which no further shift changes
            c = min(same, key=lambda o: (sorted(repr(x - o) for x in same), repr(o)))
            least = sorted(repr(x - c) for x in same)
            if least == sorted(repr(x) for x in same):
                c = ZERO
        if c is not ZERO:
            body = subst(from_pdict({dep: Fraction(1)}), {j: j - c})
            return mk_prefix(j, body, k + c) - mk_prefix(j, body, c)
    return prefix(lam([j], from_pdict({dep: Fraction(1)})), k)


# printing ----------------------------------------------------------------
def show(t, depth=0):
    op = t.op
    if depth > 40:
        return '...'
    if op == 'num':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'bv':
        return '$%d_%d' % t.args
    if op == 'poly':
        out = []
        for m, c in t.args:
            s = '*'.join(show(a, depth + 1) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not m:
                s = str(c)
            elif c == 1:
                pass
            elif c == -1:
                s = '-' + s
            else:
                s = '%s*%s' % (c, s)
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if op == 'le':
        return '%s<=0' % show(t.args[0], depth + 1)
    if op == 'eq':
        return '%s==0' % show(t.args[0], depth + 1)
    if op == 'not':
        return '!(%s)' % show(t.args[0], depth + 1)
    if op == 'and':
        return '(' + ' & '.join(show(x, depth + 1) for x in t.args) + ')'
    if op == 'ind':
        return '[%s]' % show(t.args[0], depth + 1)
    if op == 'inv':
        return '1/%s' % show(t.args[0], depth + 1)
    if op == 'idiv':
        return '(%s//%s)' % (show(t.args[0], depth + 1), show(t.args[1], depth + 1))
    if op == 'lam':
        return '(\\%s. %s)' % (','.join(show(b) for b in t.args[0]), show(t.args[1], depth + 1))
    if op == 'uf':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, depth + 1) if isinstance(x, T) else str(x) for x in t.args[1:]))
    return op


# known functions: canonical constructors ------------------------------------
def _leadneg(a):
    d = pdict(a)
    if not d:
        return False
    items = sorted(d.items(), key=_mkey)
    lead = next(((m, c) for m, c in items if m), items[0])
    return lead[1] < 0


def _even(name, at0):
    def f(a):
        if a is ZERO:
            return num(at0)
        if _leadneg(a):
            a = neg(a)
        return uf(name, a, sort='R')
    return f


def _odd(name):
    def f(a):
        if a is ZERO:
            return ZERO
        if _leadneg(a):
            return neg(uf(name, neg(a), sort='R'))
        return uf(name, a, sort='R')
    return f


cos = _even('cos', 1)
sin = _odd('sin')
arctan = _odd('arctan')
erf = _odd('erf')


def erfc(a):
    return ONE - erf(a)


def exp(a):
    if a is ZERO:
        return ONE
    return uf('exp', a, sort='R')


def log(a):
    if a is ONE:
        return ZERO
    if a.op == 'uf' and a.args[0] == 'exp':
        return a.args[1]
    return uf('log', a, sort='R')


def tfloor(a):
    if a.op == 'num':
        import math
        return num(math.floor(a.args[0]))
    if a.sort == 'I':
        return a
    d = pdict(a)
    # pull out the integer part
    ip, fp = {}, {}
    for m, c in d.items():
        if c.denominator == 1 and all(x.sort == 'I' and e > 0 for x, e in m):
            ip[m] = c
        else:
            fp[m] = c
    return add(from_pdict(ip), uf('floor', from_pdict(fp), sort='I'))


def tceil(a):
    return neg(tfloor(neg(a)))


def trunc(a):
    if a.sort == 'I':
        return a
    return ite(le(ZERO, a), tfloor(a), tceil(a))


def around(a, dec):
    """round to dec decimals (dec a term)"""
    if a.op == 'num' and a.args[0].denominator == 1 and dec.op == 'num' and dec.args[0] >= 0:
        return a
    if a.sort == 'I' and dec.op == 'num' and dec.args[0] >= 0:
        return a
    if a.op == 'uf' and a.args[0] == 'around' and a.args[2] is dec:
        return a
    if _leadneg(a):
        return neg(uf('around', neg(a), dec, sort='R'))
    return uf('around', a, dec, sort='R')


def sign(a):
    return ind(lt(ZERO, a)) - ind(lt(a, ZERO))


REBUILD.update(cos=cos, sin=sin, arctan=arctan, erf=erf, exp=exp, log=log, floor=tfloor, around=around)


# quantifiers and searches ---------------------------------------------------
def forall(lo, hi, j, body):
    if body is TRUE:
        return TRUE
    if body.op == 'and':
        return band(*[forall(lo, hi, j, b) for b in body.args])
    if j not in free_vars(body):
        return bor(body, le(hi, lo))
    return uf('all', lam([j], body), lo, hi, sort='B')


def exists(lo, hi, j, body):
    return bnot(forall(lo, hi, j, bnot(body)))


def first(lo, hi, j, body):
    """least j in [lo,hi) with body, or hi when there is none (lo<=hi), lo if lo>hi"""
    if body is TRUE:
        return lo
    if body is FALSE:
        return cmax(lo, hi)
    # exit condition monotone in j:  j >= k
    lit = body.args[0] if body.op == 'not' else body
    if lit.op == 'le' and lit.args[0].sort == 'I':
        lr = _lin_in(lit.args[0], j)
        if lr and abs(lr[0]) == 1:
            # c*j + r <= 0
            c, r = lr
            if body.op == 'not':
                # c*j + r > 0  -> -c*j - r + 1 <= 0
                c, r = -c, ONE - r
            if c == -1:   # j >= r
                return cmin(cmax(lo, r), cmax(lo, hi))
    l0 = lam([j], body)
    return uf('first', l0, lo, hi, sort='I')


def _re_first(l, lo, hi):
    j = fresh('j', 'I')
    old = CTX[0]
    CTX[0] = None
    try:
        return first(lo, hi, j, apply(l, j))
    finally:
        CTX[0] = old


def _re_all(l, lo, hi):
    j = fresh('j', 'I')
    return forall(lo, hi, j, apply(l, j))


REBUILD['first'] = _re_first
REBUILD['all'] = _re_all


# least / greatest value over a range
def extremum(kind, lo, hi, j, body):
    """kind amin/amax of body over [lo,hi)"""
    if j not in free_vars(body):
        return body
    if hi is lo + 1:
        return subst(body, {j: lo})
    d = hi - lo
    if d.op == 'num' and d.args[0] <= 4:
        r = subst(body, {j: lo})
        for k in range(1, int(d.args[0])):
            x = subst(body, {j: lo + k})
            r = tmin(r, x) if kind == 'amin' else tmax(r, x)
        return r
    if kind == 'amax':
        return neg(extremum('amin', lo, hi, j, neg(body)))
    dd = pdict(body)
    free = {m: c for m, c in dd.items() if not any(j in free_vars(a) for a, e in m)}
    dep = {m: c for m, c in dd.items() if m not in free}
    off = from_pdict(free)
    # positive scaling to primitive
    items = sorted(dep.items(), key=_mkey)
    k = abs(items[0][1])
    b2 = from_pdict({m: c / k for m, c in dep.items()})
    b2 = subst(b2, {j: j + lo}) if lo is not ZERO else b2
    return add(off, scale(uf('amin', lam([j], b2), hi - lo, sort=b2.sort), k))


def _re_amin(l, n):
    j = fresh('j', 'I')
    return extremum('amin', ZERO, n, j, apply(l, j))


REBUILD['amin'] = _re_amin


# --- complex numbers: terms of sort R standing for field elements; only identities of fields are used on them -------
I_UNIT = var('I_', 'R')
CXFUN = {'csqrt', 'cexp', 're'}
CXNAMES = set()          # arrays of complex elements
_cx = {}


def is_cx(t):
    """does a complex number occur in t"""
    r = _cx.get(t)
    if r is None:
        r = _cx[t] = (t is I_UNIT or t.op == 'uf' and (t.args[0] in CXFUN or t.args[0] in CXNAMES) or any(is_cx(x) for x in subterms1(t)))
    return r


def csqrt(t): return uf('csqrt', lift(t), sort='R')
def cexp(t):
    t = lift(t)
    d = pdict(t)
    if t.op != 'num' and all((I_UNIT, 1) in m for m in d):
        r = from_pdict({tuple(y for y in m if y[0] is not I_UNIT): c for m, c in d.items()})
        if not is_cx(r):
            return cos(r) + I_UNIT * sin(r)
    return uf('cexp', t, sort='R')


def re_(t): return lift(t) if lift(t).op == 'num' else uf('re', lift(t), sort='R')


def pprod(j, t, n):
    """product of t over j in [0, n)"""
    if n.op == 'num':
        r = ONE
        for k in range(int(n.args[0])):
            r = r * subst(t, {j: num(k)})
        return r
    return uf('pprod', lam([j], lift(t)), n, sort='R')


REBUILD['re'] = re_
REBUILD['cexp'] = cexp
REBUILD['pprod'] = lambda l, n: pprod_lam(l, n)


def pprod_lam(l, n):
    if n.op != 'num':
        return uf('pprod', l, n, sort='R')
    r = ONE
    for k in range(int(n.args[0])):
        r = r * apply(l, num(k))
    return r
