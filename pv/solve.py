"""Discharging obligations: normal forms first, then z3, then cvc5."""
import time, subprocess, os, tempfile
import z3
from .term import *
from . import term as _t

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0, 'nf': 0, 'z3': 0, 'cvc5': 0, 'nf_time': 0.0}


# --- translation to z3 ------------------------------------------------------
class Trans:
    def __init__(self):
        self.memo = {}
        self.rmemo = {}
        self.decls = {}
        self.keys = {}

    def sort(self, s):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]

    def real(self, t):
        r = self.rmemo.get(t)
        if r is None:
            r = self._real(t)
            self.rmemo[t] = r
        return r

    def _q(self, c):
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)

    def _real(self, t):
        if t.op == 'num':
            return self._q(t.args[0])
        if t.op == 'poly':
            if t.sort == 'I':
                return z3.ToReal(self(t))
            return self._poly(t, True)
        z = self(t)
        return z3.ToReal(z) if t.sort == 'I' else z

    def _poly(self, t, real):
        conv = self.real if real else self
        # group monomials by their indicator part, so that [c]*m becomes If(c,m,0)
        groups = {}
        for m, c in t.args:
            inds = tuple(a for a, e in m if a.op == 'ind')
            rest = [(a, e) for a, e in m if a.op != 'ind']
            fs = []
            if c != 1 or not rest:
                fs.append(self._q(c) if real else z3.IntVal(int(c)))
            for a, e in rest:
                if e < 0:
                    x = self.rcp(self.real(a))
                else:
                    x = conv(a)
                fs.extend([x] * abs(e))
            groups.setdefault(inds, []).append(self.product(fs))
        out = []
        for inds, vs in groups.items():
            v = vs[0] if len(vs) == 1 else z3.Sum(vs)
            if inds:
                v = z3.If(z3.And([self(a.args[0]) for a in inds]), v, (z3.RealVal(0) if real else z3.IntVal(0)))
            out.append(v)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def product(self, fs):
        v = fs[0]
        for f in fs[1:]:
            v = v * f
        return v

    def rcp(self, x):
        f = self.decls.get('rcp')
        if f is None:
            f = self.decls['rcp'] = z3.Function('rcp', z3.RealSort(), z3.RealSort())
        return f(x)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == 'num':
            return z3.IntVal(int(t.args[0])) if t.sort == 'I' else self._q(t.args[0])
        if op == 'var':
            return z3.Const(t.args[0], self.sort(t.sort))
        if op == 'poly':
            return self._poly(t, t.sort == 'R')
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self(t.args[0]))
        if op == 'and':
            return z3.And([self(x) for x in t.args])
        if op in ('le', 'eq'):
            p = t.args[0]
            # move negative-coefficient monomials to the right (keeps integers integer)
            if p.sort == 'I':
                z = self(p)
                zero = z3.IntVal(0)
            else:
                z = self.real(p)
                zero = z3.RealVal(0)
            return z <= zero if op == 'le' else z == zero
        if op == 'ind':
            return z3.If(self(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'inv':
            return self.rcp(self.real(t.args[0]))
        if op == 'idiv':
            a, b = t.args
            if a.sort == 'I' and b.sort == 'I' and b.op == 'num':
                # floor division by a constant; z3 div floors for positive divisor
                k = int(b.args[0])
                if k > 0:
                    return self(a) / z3.IntVal(k)
                return (self(neg(a))) / z3.IntVal(-k)
            f = self.decl('idiv', ['R', 'R'], 'I')
            return f(self.real(a), self.real(b))
        if op == 'uf':
            return self._uf(t)
        if op == 'bv':
            raise ValueError('open term')
        raise ValueError(op)

    def decl(self, name, argsorts, ressort):
        k = (name, tuple(argsorts), ressort)
        f = self.decls.get(k)
        if f is None:
            f = z3.Function('%s#%d' % (name, len(self.decls)), *[self.sort(s) for s in argsorts], self.sort(ressort))
            self.decls[k] = f
        return f

    def _uf(self, t):
        name = t.args[0]
        keyparts = []
        holes = []
        for x in t.args[1:]:
            if not isinstance(x, T):
                keyparts.append(('lit', x))
            elif x.op == 'lam':
                keyparts.append(lift_lam(x, holes))
            else:
                keyparts.append('arg')
                holes.append(x)
        sorts = ['B' if h.sort == 'B' else 'I' if (h.sort == 'I' and name not in REALARGS) else 'R' for h in holes]
        if not holes:
            k = (name, tuple(keyparts), t.sort)
            c = self.decls.get(k)
            if c is None:
                c = z3.Const('%s#%d' % (name, len(self.decls)), self.sort(t.sort))
                self.decls[k] = c
            return c
        f = self.decl((name, tuple(keyparts)), sorts, t.sort)
        args = [self(h) if s == 'B' else (self(h) if s == 'I' else self.real(h)) for h, s in zip(holes, sorts)]
        return f(*args)


REALARGS = {'sqrt', 'log', 'exp', 'cos', 'sin', 'arctan', 'arctan2', 'erf', 'pow', 'floor', 'around', 'rcp'}


_kids = {}


class LinTrans(Trans):
    """products of unknowns are uninterpreted: congruence and linear arithmetic only"""
    def product(self, fs):
        k = [f for f in fs if z3.is_rational_value(f) or z3.is_int_value(f)]
        u = [f for f in fs if not (z3.is_rational_value(f) or z3.is_int_value(f))]
        if len(u) > 1:
            so = 'R' if any(z3.is_real(f) for f in u) else 'I'
            if so == 'R':
                u = [z3.ToReal(f) if z3.is_int(f) else f for f in u]
            u = [self.decl('mul', [so] * len(u), so)(*u)]
        v = None
        for f in k + u:
            v = f if v is None else v * f
        return v


def kid(k):
    """number of a key"""
    return _kids.setdefault(k, len(_kids))


def short(k):
    return k if len(k) == 2 and k[0] == '#' else ('#', kid(k))


def lift_lam(l, holes):
    """key of a lam with its maximal bound-variable-free parts replaced by holes"""
    names = {}

    def bind(t, hs):
        # bound variables are renumbered by nesting depth, so that keys do not depend on the levels chosen elsewhere
        d = bind.depth
        bind.depth += 1
        old = {b: names.get(b) for b in t.args[0]}
        for i, b in enumerate(t.args[0]):
            names[b] = (d, i, b.sort)
        k = ('lam', len(t.args[0]), go(t.args[1], hs))
        for b, o in old.items():
            if o is None:
                del names[b]
            else:
                names[b] = o
        bind.depth -= 1
        return k
    bind.depth = 0

    def poly(t, flip):
        """(key, holes, leading sign) of a polynomial, times -1 if flip"""
        parts, rest = [], {}
        for m, c in (t.args if t.op == 'poly' else (((((t, 1),), Fraction(1)),))):
            if flip:
                c = -c
            if any(has_bv_free(a) for a, e in m):
                hs = []
                fac = sorted(((go(a, hs_ := []), e, tuple(hs_)) for a, e in m if has_bv_free(a)), key=lambda x: (kid(x[0]), x[1]))
                fr = from_pdict({tuple((a, e) for a, e in m if not has_bv_free(a)): Fraction(1)})
                for k, e, h in fac:
                    hs.extend(h)
                key = tuple((k, e) for k, e, h in fac)
                if fr is not ONE:
                    hs.append(fr)
                    key += (('h', 'R'),)
                parts.append((key, c, hs))
            else:
                rest[m] = c
        parts.sort(key=lambda p: kid(p[0]))
        r = from_pdict(rest)
        hs = [h for p in parts for h in p[2]]
        key = ('poly',) + tuple((p[1], p[0]) for p in parts)
        if r.op == 'num':
            key += (('c', r.args[0]),)
        else:
            hs.append(r)
            key += (('h', 'R'),)
        return key, hs, parts[0][1] if parts else 1

    def go(t, hs):
        k = go1(t, hs)
        if k[0] == 'not':
            return ('not', short(k[1]))
        return short(k)

    def go1(t, hs):
        if t.op == 'lam':
            return bind(t, hs)
        if not has_bv_free(t):
            if t.op == 'num' or not free_vars(t):
                return ('c', t.id)
            hs.append(t)
            return ('h', t.sort)
        op = t.op
        if op == 'poly':
            k, h, _ = poly(t, False)
            hs.extend(h)
            return k
        if op == 'bv':
            return ('bv',) + names.get(t, (t.args,))
        if op == 'lam':
            return bind(t, hs)
        if op == 'eq':
            k, h, sg = poly(t.args[0], False)
            if sg < 0:
                k, h, sg = poly(t.args[0], True)
            hs.extend(h)
            return ('eq', k)
        if op == 'le' and t.args[0].sort == 'I':
            k, h, sg = poly(t.args[0], False)
            if sg < 0:
                # p <= 0  <=>  not (1 - p <= 0)
                k, h, sg = poly(ONE - t.args[0], False)
                hs.extend(h)
                return ('not', ('le', k))
            hs.extend(h)
            return ('le', k)
        if op == 'not':
            k = go(t.args[0], hs)
            return k[1] if k[0] == 'not' else ('not', k)
        if op == 'and':
            ks = sorted(((go(x, h := []), tuple(h)) for x in t.args), key=lambda p: kid(p[0]))
            for k, h in ks:
                hs.extend(h)
            return ('and',) + tuple(k for k, h in ks)
        if op == 'uf':
            return ('uf', t.args[0]) + tuple(go(x, hs) if isinstance(x, T) else ('lit', x) for x in t.args[1:])
        return (op,) + tuple(go(x, hs) if isinstance(x, T) else ('lit', x) for x in t.args)
    return bind(l, holes)


def has_bv_free(t):
    return any(v.op == 'bv' for v in free_vars(t))


# --- axioms ------------------------------------------------------------------
KNOWN_NONNEG = set()     # closed terms known >= 0 by construction (sums of squares)
SYMBOLS = {}             # uninterpreted symbols with fact generators: name -> fn(term)->list of T bools
REC_DEFS = {}            # rec symbols: name -> fn(args)-> (guard, body)


def nonneg(t, depth=0):
    """syntactic non-negativity"""
    if t.op == 'num':
        return t.args[0] >= 0
    if t in KNOWN_NONNEG:
        return True
    if t.op == 'ind':
        return True
    if t.op == 'uf':
        if t.args[0] in ('sqrt', 'exp'):
            return True
        if t.args[0] == 'psum':
            return False
    if t.op == 'poly':
        for m, c in t.args:
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not nonneg(a, depth + 1):
                    return False
        return True
    return False


def lam_nonneg(l):
    return nonneg(l.args[1])


def axioms(ts, level):
    """facts about the function symbols occurring in ts"""
    subs = [s for s in all_subterms(ts) if not has_bv_free(s) and s.op != 'lam']
    out = []
    psums = {}
    firsts = []
    alls = []
    amins = []
    recs = []
    uniqs = {}
    for s in subs:
        if s.op == 'inv':
            out.append(('inv', s))
        if s.op == 'poly':
            for m, c in s.args:
                for a, e in m:
                    if e < 0:
                        out.append(('rcp', a))
        if s.op == 'idiv' and s.args[1].op != 'num':
            out.append(('idiv', s))
        if s.op != 'uf':
            continue
        n = s.args[0]
        if n == 'psum':
            psums.setdefault(s.args[1], []).append(s)
        elif n == 'first':
            firsts.append(s)
        elif n == 'all':
            alls.append(s)
        elif n == 'amin':
            amins.append(s)
        elif n == 'sqrt':
            out.append(('sqrt', s))
        elif n == 'exp':
            out.append(lt(ZERO, s))
        elif n == 'floor':
            out.append(le(s, s.args[1]))
            out.append(lt(s.args[1], s + 1))
        elif n == 'around':
            if s.args[2].op == 'num':
                h = num(Fraction(1, 2) / Fraction(10) ** int(s.args[2].args[0]))
                out.append(le(s - s.args[1], h))
                out.append(le(s.args[1] - s, h))
        elif n in ('cos', 'sin', 'erf'):
            out.append(le(s, ONE))
            out.append(le(num(-1), s))
            if n != 'erf' and any(x is PI for m, c in pdict(s.args[1]).items() for x, e in m):
                r = s.args[1] / PI
                if n == 'sin':
                    out.append(imp(band(lt(ZERO, r), lt(r, ONE)), lt(ZERO, s)))
                else:
                    out.append(imp(band(lt(num(-1), 2 * r), lt(2 * r, ONE)), lt(ZERO, s)))
            if n == 'erf':
                out.append(lt(s, ONE))
                out.append(lt(num(-1), s))
                out.append(iff(le(ZERO, s), le(ZERO, s.args[1])))
        elif n == 'log':
            out.append(imp(lt(ONE, s.args[1]), lt(ZERO, s)))
            out.append(imp(band(lt(ZERO, s.args[1]), lt(s.args[1], ONE)), lt(s, ZERO)))
        elif n == 'uniq':
            uniqs.setdefault((s.args[1], s.args[2], s.sort), []).append(s)
        elif n in SYMBOLS:
            out.extend(SYMBOLS[n](s))
        if n in ('rec',):
            recs.append(s)
    # prefix sums
    for l, apps in psums.items():
        body = l
        for a in apps:
            k = a.args[2]
            if lam_nonneg(l):
                out.append(imp(le(ZERO, k), le(ZERO, a)))
                if l.args[1].op == 'ind' or (l.args[1].op == 'poly' and is01(l.args[1])):
                    out.append(imp(le(ZERO, k), le(a, k)))
            out.append(imp(eq(k, ZERO), eq(a, ZERO)))
        for a in apps:
            for b in apps:
                if a is b:
                    continue
                d = b.args[2] - a.args[2]
                if d.op == 'num' and 1 <= d.args[0] <= 3:
                    x = a
                    tot = a
                    for r in range(int(d.args[0])):
                        tot = tot + apply(l, a.args[2] + r)
                    out.append(eq(b, tot))
                elif lam_nonneg(l) and a.id < b.id:
                    out.append(imp(le(a.args[2], b.args[2]), le(a, b)))
                    out.append(imp(le(b.args[2], a.args[2]), le(b, a)))
                    if l.args[1].op == 'ind' or (l.args[1].op == 'poly' and is01(l.args[1])):
                        out.append(imp(le(a.args[2], b.args[2]), le(b - a, b.args[2] - a.args[2])))
                        out.append(imp(le(b.args[2], a.args[2]), le(a - b, a.args[2] - b.args[2])))
    # a count that has to cover position c is positive
    if level == 0:
        cs = None
        for l, apps in psums.items():
            b = l.args[1]
            if b.op == 'ind':
                if cs is None:
                    cs = [c for c in index_candidates(subs, []) if c.op == 'var'][:6]
                for a in apps:
                    for c in cs:
                        if c not in free_vars(a.args[2]):
                            out.append(imp(band(le(ZERO, c), lt(c, a.args[2])), le(apply(l, c), a)))
    # Cauchy-Schwarz: (sum of x)^2 <= n * (sum of x^2)
    if len(psums) > 1:
        byl = {}
        for l, apps in psums.items():
            for a in apps:
                byl[(l, a.args[2])] = a
        for (l, k), a in list(byl.items()):
            if l.args[1].op in ('ind',) or len(pdict(l.args[1])) > 6:
                continue
            v = fresh('cs', 'I')
            b = byl.get((lam([v], power(apply(l, v), 2)), k))
            if b is not None and b is not a:
                out.append(imp(lt(ZERO, k), le(ZERO, b / k - a * a / (k * k))))
    for f in firsts:
        l, lo, hi = f.args[1:]
        out.append(imp(le(lo, hi), band(le(lo, f), le(f, hi))))
        out.append(imp(lt(hi, lo), eq(f, lo)))
        out.append(imp(lt(f, hi), apply(l, f)))
    for a in alls:
        sk = skolem(a)
        l, lo, hi = a.args[1:]
        out.append(imp(bnot(a), band(le(lo, sk), lt(sk, hi), bnot(apply(l, sk)))))
    for a in amins:
        sk = skolem(a)
        l, n_ = a.args[1:]
        out.append(imp(lt(ZERO, n_), band(le(ZERO, sk), lt(sk, n_), eq(a, apply(l, sk)))))
    for r in recs:
        out.append(rec_unfold(r))
    # distinct values of l over [0,n) in increasing order
    for (l, n_, so), us in uniqs.items():
        m_ = uf('nuniq', l, n_, sort='I')
        out.append(imp(lt(ZERO, n_), lt(ZERO, m_)))
        for u in us:
            w = uf('uniqw', l, n_, u.args[3], sort='I')
            out.append(imp(band(le(ZERO, u.args[3]), lt(u.args[3], m_)), band(le(ZERO, w), lt(w, n_), eq(apply(l, w), u))))
            for u2 in us:
                if u2 is not u:
                    out.append(imp(band(le(ZERO, u.args[3]), lt(u.args[3], u2.args[3]), lt(u2.args[3], m_)), lt(u, u2)))
        if level < 2:
            for c in index_candidates(subs, [])[:10]:
                if c.op == 'uf' and c.args[0] in ('uidx', 'uniqw'):
                    continue
                i = uf('uidx', l, n_, c, sort='I')
                out.append(imp(band(le(ZERO, c), lt(c, n_)), band(le(ZERO, i), lt(i, m_), eq(uf('uniq', l, n_, i, sort=so), apply(l, c)))))
    # instantiate universally quantified facts on index candidates
    if firsts or alls or amins:
        cands = index_candidates(subs, out)
        for f in firsts:
            l, lo, hi = f.args[1:]
            for c in cands:
                out.append(imp(band(le(lo, c), lt(c, f)), bnot(apply(l, c))))
        for a in alls:
            l, lo, hi = a.args[1:]
            for c in cands:
                out.append(imp(band(a, le(lo, c), lt(c, hi)), apply(l, c)))
        for a in amins:
            l, n_ = a.args[1:]
            for c in cands:
                out.append(imp(band(le(ZERO, c), lt(c, n_)), le(a, apply(l, c))))
    return out


def is01(t):
    return t.op == 'poly' and len(t.args) == 1 and t.args[0][1] == 1 and all(a.op == 'ind' for a, e in t.args[0][0])


_sk = {}


def skolem(a):
    s = _sk.get(a)
    if s is None:
        s = _sk[a] = fresh('sk', 'I')
    return s


def index_candidates(subs, extra):
    c = {}
    for s in subs:
        if s.op == 'uf' and s.args[0] not in REALARGS:
            for x in s.args[1:]:
                if isinstance(x, T) and x.sort == 'I' and x.op != 'lam' and s.args[0] not in ('all', 'psum', 'amin', 'first', 'rec'):
                    c[x] = 1
            if s.args[0] == 'rec':
                for x in s.args[2:]:
                    c[x] = 1
        if s.op == 'var' and s.sort == 'I' and ('!' in s.args[0]):
            c[s] = 1
        if s.op == 'uf' and s.args[0] == 'first':
            c[s] = 1
    for s in subs:
        if s in _sk:
            c[_sk[s]] = 1
        if s.op == 'uf' and s.args[0] == 'psum':
            c.setdefault(s.args[2], 1)
    c = list(c)
    c.sort(key=weight)
    return c[:40]


_weight = {}


def weight(t):
    w = _weight.get(t)
    if w is None:
        w = _weight[t] = len(repr(t))
    return w


# recursive definitions: rec(lam(args...). body with self(args) , args...)
# 'self' is scoped: it belongs to the innermost rec; bodies are checked by mk_rec when they are built
def rec_unfold(r):
    return eq(r, subst_self(apply(r.args[1], *r.args[2:]), r.args[1], r.sort))


def mk_rec(l, args, sort='R', keys=()):
    return uf('rec', check_rec(l), *args, sort=sort)


_recok = set()


def check_rec(l):
    if l not in _recok:
        for s in all_subterms([l.args[1]]):
            if s.op == 'uf' and s.args[0] == 'self' and not any(has_bv_free(x) for x in s.args[1:]):
                raise Unsupported('recursion on a fixed position')
        _recok.add(l)
    return l


def captured(t, keys):
    """does a placeholder occur inside the function of a nested recursion?"""
    for s in all_subterms([t]):
        if s.op == 'uf' and s.args[0] == 'rec':
            for x in all_subterms([s.args[1]]):
                if x.op in ('var', 'uf') and x.args[0] in keys:
                    return True
    return False


def own_self(x):
    """does self occur in x outside nested recursions?"""
    r = _own.get(x)
    if r is None:
        if x.op == 'uf' and x.args[0] == 'self':
            r = True
        elif x.op == 'uf' and x.args[0] == 'rec':
            r = any(own_self(y) for y in x.args[2:])
        else:
            r = any(own_self(y) for y in subterms1(x))
        _own[x] = r
    return r


_own = {}


def subst_self(t, l, sort):
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if not own_self(x):
            r = x
        elif x.op == 'uf' and x.args[0] == 'self':
            r = uf('rec', l, *[go(a) for a in x.args[1:]], sort=sort)
        elif x.op == 'uf' and x.args[0] == 'rec':
            r = uf('rec', x.args[1], *[go(a) for a in x.args[2:]], sort=x.sort)
        elif x.op == 'lam':
            fr = [fresh('b', b.sort) for b in x.args[0]]
            r = lam(fr, go(apply(x, *fr)))
        else:
            m = {}
            for c in subterms1(x):
                g = go(c)
                if g is not c:
                    m[c] = g
            r = subst(x, m) if m else x
        memo[x] = r
        return r
    return go(t)


# --- z3 back end ---------------------------------------------------------------
_tr = Trans()
_lin = LinTrans()


_nl = {}


def nonlinear(ts):
    """does any product of unknowns occur"""
    for t in ts:
        r = _nl.get(t)
        if r is None:
            r = False
            for s in all_subterms([t], into_lam=False):
                if s.op == 'inv' or (s.op == 'poly' and any(sum(abs(e) for a, e in m if a.op != 'ind') > 1 or any(e < 0 for a, e in m) for m, c in s.args)):
                    r = True
                    break
            _nl[t] = r
        if r:
            return True
    return False


def to_lin_axioms(ax):
    out = []
    for a in ax:
        if isinstance(a, tuple):
            k, s = a
            if k == 'sqrt':
                out.append(_lin(s) >= 0)
                out.append(z3.Implies(_lin.real(s.args[1]) > 0, _lin(s) > 0))
            elif k in ('inv', 'rcp'):
                q = _lin.real(s.args[0] if k == 'inv' else s)
                z = _lin(s) if k == 'inv' else _lin.rcp(q)
                out.append(z3.Implies(q > 0, z > 0))
                out.append(z3.Implies(q < 0, z < 0))
        elif a is not TRUE:
            out.append(_lin(a))
    return out


def to_z3_axioms(ax):
    out = []
    for a in ax:
        if isinstance(a, tuple):
            k, s = a
            if k == 'inv':
                p = _tr.real(s.args[0])
                out.append(z3.Implies(p != 0, _tr(s) * p == 1))
                out.append(z3.Implies(p > 0, _tr(s) > 0))
                out.append(z3.Implies(p < 0, _tr(s) < 0))
            elif k == 'rcp':
                p = _tr.real(s)
                out.append(z3.Implies(p != 0, _tr.rcp(p) * p == 1))
                out.append(z3.Implies(p > 0, _tr.rcp(p) > 0))
                out.append(z3.Implies(p < 0, _tr.rcp(p) < 0))
            elif k == 'sqrt':
                x = _tr.real(s.args[1])
                z = _tr(s)
                out.append(z >= 0)
                out.append(z3.Implies(x >= 0, z * z == x))
                out.append(z3.Implies(x > 0, z > 0))
            elif k == 'idiv':
                a_, b_ = s.args
                q = z3.ToReal(_tr(s))
                za, zb = _tr.real(a_), _tr.real(b_)
                out.append(z3.Implies(zb > 0, z3.And(q * zb <= za, za < q * zb + zb)))
        else:
            if a is not TRUE:
                out.append(_tr(a))
    return out


def closure_axioms(ts, rounds):
    old = _t.CTX[0]
    _t.CTX[0] = None
    try:
        return _closure_axioms(ts, rounds)
    finally:
        _t.CTX[0] = old


def _closure_axioms(ts, rounds):
    ax = []
    seen = set()
    cur = list(ts)
    for r in range(rounds):
        new = axioms(cur, r)
        added = []
        for a in new:
            key = a
            if key not in seen:
                seen.add(key)
                ax.append(a)
                if not isinstance(a, tuple):
                    added.append(a)
        if not added:
            break
        cur = cur + added
        if sum(1 for _ in all_subterms(cur)) > 4000:
            break
    return ax


def relevant(hyps, goal_terms):
    return hyps


def z3_check(fs, timeout=4000, rounds=2, want_model=False, tactic=None, lin=False, seed=0):
    """satisfiability of the conjunction of T formulas fs (with axioms)"""
    t0 = time.time()
    ax = closure_axioms(fs, rounds)
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout)
    if seed:
        s.set('random_seed', seed)
    tr = _lin if lin else _tr
    for f in fs:
        s.add(tr(f))
    for a in (to_lin_axioms if lin else to_z3_axioms)(ax):
        s.add(a)
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if want_model:
        return str(r), (s.model() if r == z3.sat else None), s
    return str(r)


def cvc5_check(solver, timeout=8):
    t0 = time.time()
    txt = '(set-logic ALL)\n' + solver.sexpr() + '\n(check-sat)\n'
    txt = txt.replace('#', '_N')
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit', str(int(timeout * 1000))], input=txt, text=True,
                           capture_output=True, timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        res = out[0] if out else 'unknown'
    except Exception:
        res = 'unknown'
    STATS['cvc5_calls'] += 1
    STATS['cvc5_time'] += time.time() - t0
    return res


_ent = {}


_conj = {}


def conj_sign(p):
    """sign of A + k sqrt(P) when P k^2 - A^2 is a positive number: that of k"""
    if p in _conj:
        return _conj[p]
    r = square_sign(p)
    if r is not None:
        return r
    d = pdict(p)
    at = [m for m in d if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'uf' and m[0][0].args[0] == 'sqrt']
    for m in at:
        k = d[m]
        A = p - m[0][0] * num(k)
        if m[0][0] in all_subterms([A]):
            continue
        try:
            q = m[0][0].args[1] * num(k * k) - A * A
        except Exception:
            continue
        if q.op == 'num' and q.args[0] > 0:
            r = 1 if k > 0 else -1
    _conj[p] = r
    return r


def by_sign(c):
    """truth of a comparison that conj_sign decides"""
    x = c.args[0] if c.op == 'not' else c
    g = conj_sign(x.args[0]) if x.op in ('le', 'eq') else None
    return None if g is None else (x.op == 'le' and g < 0) == (c.op != 'not')


def entails(hyps, c, timeout=1500, rounds=1):
    """True if hyps |= c, False if hyps |= not c, None otherwise"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    g = by_sign(c)
    if g is not None:
        return g
    hs = set(hyps)
    if c in hs:
        return True
    n = bnot(c)
    if n in hs:
        return False
    if is_cx(c):
        return None
    key = (frozenset(hs), c)
    r = _ent.get(key, 0)
    if r != 0:
        return r
    hy = slice_hyps(hyps, c)
    r = None
    if nonlinear(hy + [n]):
        if z3_check(hy + [n], timeout, rounds, lin=True) == 'unsat':
            r = True
        elif z3_check(hy + [c], timeout, rounds, lin=True) == 'unsat':
            r = False
        if r is not None:
            _ent[key] = r
            return r
        own = symbols(c)
        near = [h for h in hy if symbols(h) <= own]
        if len(near) < len(hy) and nonlinear([c]):
            for ms in (400, 4000):
                for g, v in ((n, True), (c, False)):
                    if z3_check(near + [g], ms, rounds) == 'unsat':
                        _ent[key] = v
                        return v
    if z3_check(hy + [n], timeout, rounds) == 'unsat':
        r = True
    elif z3_check(hy + [c], timeout, rounds) == 'unsat':
        r = False
    _ent[key] = r
    return r


_sym = {}


def symbols(t):
    r = _sym.get(t)
    if r is None:
        r = _sym[t] = free_vars(t) | {x.args[0] if x.op == 'uf' else x.op for x in all_subterms([t]) if x.op in ('uf', 'psum')}
    return r


def slice_hyps(hyps, c):
    """hypotheses that may be used for c"""
    return [h for h in hyps if not is_cx(h)]


def feasible(hyps, timeout=2000):
    key = (frozenset(hyps), 'feas')
    r = _ent.get(key)
    if r is None:
        if FALSE in hyps:
            r = False
        else:
            r = z3_check(list(hyps), timeout, 1) != 'unsat'
        _ent[key] = r
    return r


# --- proving ------------------------------------------------------------------------
def inds_of(t):
    out = []
    for s in all_subterms([t], into_lam=False):
        if s.op == 'ind' and not has_bv_free(s):
            out.append(s)
    out.sort(key=lambda s: s.id)
    return out


def simplify_under(hyps, t):
    """replace indicators decided by hyps (also inside lam when closed)"""
    changed = True
    n = 0
    while changed and n < 6:
        changed = False
        n += 1
        m = {}
        for s in all_subterms([t]):
            if s.op == 'ind' and not has_bv_free(s):
                r = entails(hyps, s.args[0])
                if r is not None:
                    m[s] = ONE if r else ZERO
        if m:
            t2 = subst(t, m)
            if t2 is not t:
                t = t2
                changed = True
    return t


def clear_denoms(p):
    """numerator polynomial of p: multiply by every inv() base and negative power"""
    for _ in range(12):
        d = pdict(p)
        need = {}
        for m in d:
            for a, e in m:
                if a.op == 'inv':
                    need[a] = max(need.get(a, 0), e)
                elif e < 0:
                    need[a] = max(need.get(a, 0), -e)
        if not need:
            return p
        out = []
        for m, c in d.items():
            dm = dict(m)
            mult = ONE
            for a, e in need.items():
                have = dm.pop(a, 0)
                if a.op == 'inv':
                    mult = mul(mult, power(a.args[0], e - have))
                else:
                    mult = mul(mult, power(a, e + have))
            mm = tuple(sorted(dm.items(), key=lambda ae: ae[0].id))
            out.append(mul(from_pdict({mm: c}), mult))
        p = addn(out)
    return p


def align_psums(hyps, t):
    """express P(k+d) through P(k) when the arguments differ by a small constant"""
    groups = {}
    for s in all_subterms([t], into_lam=False):
        if s.op == 'uf' and s.args[0] == 'psum' and not has_bv_free(s):
            groups.setdefault(s.args[1], []).append(s)
    m = {}
    for l, apps in groups.items():
        if len(apps) < 2:
            continue
        base = []
        for a in sorted(apps, key=lambda s: s.id):
            for b in base:
                d = a.args[2] - b.args[2]
                if d.op == 'num' and abs(d.args[0]) <= 4:
                    k = int(d.args[0])
                    tot = b
                    if k > 0:
                        for r in range(k):
                            tot = tot + apply(l, b.args[2] + r)
                    else:
                        for r in range(k, 0):
                            tot = tot - apply(l, b.args[2] + r)
                    m[a] = tot
                    break
            else:
                base.append(a)
    return subst(t, m) if m else t


class Result:
    def __init__(self, status, how, model=None, reason='', hyps=None):
        self.status, self.how, self.model, self.reason = status, how, model, reason
        self.hyps = hyps

    def __repr__(self):
        return 'Result(%s,%s,%s)' % (self.status, self.how, self.reason[:80])


def solved(p):
    """(atom, value) for p == 0 with p linear in a variable-like atom"""
    d = pdict(p)
    for mono, c in d.items():
        if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1:
            a = mono[0][0]
            if a.op in ('var',) and '!' in a.args[0] or a.op == 'uf':
                rest = from_pdict({k: -v / c for k, v in d.items() if k != mono})
                if a not in all_subterms([rest]) and (a.sort == 'R' or rest.sort == 'I'):
                    return a, rest
    return None


def canon_eqs(hyps, t):
    """rewrite with equalities x == e of hyps where x is a variable-like atom"""
    m = {}
    for h in hyps:
        if h.op == 'eq':
            r = solved(h.args[0])
            if r:
                m[r[0]] = r[1]
    return m


def rec_eqs(hyps, q, open_=None):
    """equations for the rec atoms of q from induction hypotheses 'all q in [0,i): f(q)=g(q)'; conditions on which more
    equations hang are added to open_"""
    m = {}
    recs = [s for s in all_subterms([q], into_lam=False) if s.op == 'uf' and s.args[0] == 'rec' and not has_bv_free(s)]
    if not recs:
        return m
    for h in hyps:
        if h.op == 'uf' and h.args[0] == 'all' and any(s.op == 'uf' and s.args[0] == 'rec' for s in all_subterms([h])):
            l, lo, hi = h.args[1:]
            for r in recs:
                k = r.args[2]
                if r in m or entails(hyps, band(le(lo, k), lt(k, hi))) is not True:
                    continue
                b = apply(l, k)
                if b.op != 'eq':
                    continue
                p = simplify_under(hyps, b.args[0])
                d = pdict(p)
                mono = ((r, 1),)
                if mono in d and not any(r in all_subterms([x]) for x in [from_pdict({k_: v for k_, v in d.items() if k_ != mono})]):
                    m[r] = from_pdict({k_: -v / d[mono] for k_, v in d.items() if k_ != mono})
                elif open_ is not None:
                    open_.extend(i.args[0] for k_ in d for i, e in k_ if i.op == 'ind' and any(a is r for a, f in k_) and not own_self(i))
    return m


_rsign = {}


def rec_signs(hyps, goal):
    """rec(l, k) >= 0 (or > 0) by induction, where the body keeps the sign"""
    out = []
    for r in all_subterms([goal] + hyps, into_lam=False):
        if r.op != 'uf' or r.args[0] != 'rec' or r.sort != 'R' or has_bv_free(r) or len(r.args) != 3:
            continue
        l = r.args[1]
        base = [h for h in hyps if not any(v.op == 'var' and '!' in v.args[0] for v in free_vars(h))]
        key = (l, frozenset(base))
        if key not in _rsign:
            _rsign[key] = None
            x = fresh('x', 'I')
            b = apply(l, x)
            selfs = [s for s in all_subterms([b]) if s.op == 'uf' and s.args[0] == 'self' and own_self(s)]
            if all(len(s.args) == 2 and s.args[1] is x - 1 for s in selfs) and not own_self(simplify_under(base + [le(x, ZERO)], b)):
                v = fresh('s', 'R')
                bb = subst(b, {s: v for s in selfs})
                if not own_self(bb):
                    for f in (lambda t: lt(ZERO, t), lambda t: le(ZERO, t)):
                        ok = all(z3_check(base + [f(v), c, bnot(f(simplify_under(base + [f(v), c], bb)))], 3000, 1) == 'unsat' for c in (le(x, ZERO), lt(ZERO, x)))
                        if ok:
                            _rsign[key] = f
                            break
        if _rsign[key]:
            out.append(_rsign[key](r))
    return out


def unify_recs(hyps, p, deadline):
    """identify rec atoms of p whose functions have equal bodies"""
    recs = [s for s in all_subterms([p], into_lam=False) if s.op == 'uf' and s.args[0] == 'rec' and not has_bv_free(s)]
    recs.sort(key=lambda s: s.id)
    m = {}
    for i, a in enumerate(recs):
        for b in recs[:i]:
            if b in m or a.args[1] is b.args[1] or len(a.args) != len(b.args) or a.sort != b.sort or any(x is not y for x, y in zip(a.args[2:], b.args[2:])):
                continue
            la, lb = a.args[1], b.args[1]
            base = [h for h in hyps if not any(v.op == 'var' and '!' in v.args[0] for v in free_vars(h))]
            key = (la, lb, frozenset(base))
            if key not in _runi:
                vs = [fresh('e', v.sort) for v in la.args[0]]
                _runi[key] = prove_eq(base, apply(la, *vs) - apply(lb, *vs), 0, min(deadline, time.time() + 8), 3)
            if _runi[key]:
                m[a] = b
                break
    return subst(p, m) if m else p


_runi = {}
PI = var('pi', 'R')
FUNCTIONALS = ('spline', 'olsfit', 'linfit', 'interp1d', 'pprod', 'dft', 'idft')


def unify_functionals(hyps, p, depth, deadline):
    """identify opaque functionals of p whose (function) arguments agree"""
    fs = [s for s in all_subterms([p], into_lam=False) if s.op == 'uf' and s.args[0] in FUNCTIONALS and not has_bv_free(s)]
    if not 2 <= len(fs) <= 8:
        return p
    fs.sort(key=lambda s: s.id)
    m = {}
    for i, a in enumerate(fs):
        for b in fs[:i]:
            if b not in m and a.args[0] == b.args[0] and len(a.args) == len(b.args) and ext_equal(hyps, a, b, depth, deadline):
                m[a] = b
                break
    return subst(p, m) if m else p


def rec_unfold_in(t):
    """unfold the rec atoms with the largest arguments"""
    m = {}
    recs = [s for s in all_subterms([t], into_lam=False) if s.op == 'uf' and s.args[0] == 'rec' and not has_bv_free(s)]
    for s in recs:
        low = False
        for s2 in recs:
            if s2 is not s and len(s2.args) == len(s.args):
                d = s2.args[2] - s.args[2]
                if d.op == 'num' and d.args[0] > 0:
                    low = True
        if not low:
            m[s] = subst_self(apply(s.args[1], *s.args[2:]), s.args[1], s.sort)
    return subst(t, m) if m else t


def prove(hyps, goal, timeout=8000, depth=0, deadline=None):
    """prove hyps |= goal"""
    if deadline is None:
        deadline = time.time() + 60
    if depth == 0 and goal.op not in ('true', 'and') and (has_def(goal) or any(has_def(h) for h in hyps)):
        # opaque definitions: first as they are, then revealed
        r = prove(hyps, goal, timeout // 2, 1, min(deadline, time.time() + 20))
        if r.status == 'proved':
            return r
        g2, h2 = reveal(goal), [reveal(h) for h in hyps]
        return prove(h2, g2, timeout, 1, deadline)
    if goal is TRUE:
        STATS['nf'] += 1
        return Result('proved', 'normal form')
    if FALSE in hyps:
        return Result('proved', 'normal form')
    if goal in hyps or by_sign(goal):
        STATS['nf'] += 1
        return Result('proved', 'normal form')
    hyps = [h for h in hyps if not is_cx(h)]
    if goal.op == 'and':
        hows = set()
        for g in goal.args:
            r = prove(hyps, g, timeout, depth, deadline)
            if r.status != 'proved':
                return r
            hows.add(r.how)
        return Result('proved', '+'.join(sorted(hows)))
    if goal.op == 'eq':
        t0 = time.time()
        r = prove_eq(hyps, goal.args[0], 0, deadline)
        STATS['nf_time'] += time.time() - t0
        if r:
            STATS['nf'] += 1
            return Result('proved', 'normal form')
    z = {x: ZERO for x in free_vars(goal) if x.sort == 'I' and le(x, ZERO) in hyps and lt(num(-1), x) in hyps} if goal.op == 'eq' else None
    if z:
        # an integer that can only be zero
        return prove([subst(h, z) for h in hyps], subst(goal, z), timeout, depth, deadline)
    if is_cx(goal):
        if not feasible(hyps):
            return Result('proved', 'z3')
        return Result('unknown', 'unknown', None, 'not an identity of complex numbers', hyps + [bnot(goal)])
    if goal.op == 'not' and goal.args[0].op == 'and':
        # disjunction: assume all but one negated
        pass
    if depth < 2:
        extra = [h for h in rec_signs(hyps, goal) if h not in hyps]
        hyps = hyps + extra
    # universally quantified goal: skolemise
    if goal.op == 'uf' and goal.args[0] == 'all':
        l, lo, hi = goal.args[1:]
        x = fresh('all', 'I')
        return prove(hyps + [le(lo, x), lt(x, hi)], apply(l, x), timeout, depth, deadline)
    ng = bnot(goal)
    why = ''
    if nonlinear([ng]):
        own = symbols(ng)
        near = [h for h in hyps if symbols(h) <= own]
        if len(near) < len(hyps):
            for seed in (0, 3, 11):
                for rounds in (1, 2):
                    if z3_check(near + [ng], min(2000, timeout), rounds, seed=seed) == 'unsat':
                        STATS['z3'] += 1
                        return Result('proved', 'z3')
    if nonlinear(hyps + [ng]):
        for rounds in (1, 2):
            if z3_check(hyps + [ng], timeout // 4, rounds, lin=True) == 'unsat':
                STATS['z3'] += 1
                return Result('proved', 'z3')
    for rounds, to in ((1, timeout // 4), (2, timeout), (3, timeout)):
        st, model, s = z3_check(hyps + [ng], to, rounds, want_model=True)
        if st == 'unsat':
            STATS['z3'] += 1
            return Result('proved', 'z3')
        why = st
        if time.time() > deadline:
            break
    # extensionality lemmas between function terms
    if depth < 2 and time.time() < deadline:
        lem = ext_lemmas(hyps, [ng] + hyps, depth, deadline)
        if lem:
            return prove(hyps + lem, goal, timeout, depth + 1, deadline)
    if st != 'sat':
        r = cvc5_check(s)
        if r == 'unsat':
            STATS['cvc5'] += 1
            return Result('proved', 'cvc5')
        if r == 'sat':
            why = 'unknown/cvc5 sat'
    return Result('failed' if st == 'sat' else 'unknown', st, model, why, hyps + [ng])


def ext_lemmas(hyps, ts, depth, deadline):
    """equations f(lam a,..)=f(lam b,..) for function-argument terms whose lams agree pointwise"""
    groups = {}
    for s in all_subterms(ts, into_lam=False):
        if s.op == 'uf' and not has_bv_free(s) and any(isinstance(x, T) and x.op == 'lam' for x in s.args[1:]):
            groups.setdefault((s.args[0], len(s.args), s.sort), []).append(s)
    out = []
    hs = set(hyps)
    for key, apps in groups.items():
        if key[0] in ('all',):
            continue
        apps = sorted(apps, key=lambda s: s.id)[:8]
        for i in range(len(apps)):
            for k in range(i + 1, len(apps)):
                a, b = apps[i], apps[k]
                if time.time() > deadline:
                    return out
                e = eq(a, b) if a.sort != 'B' else iff(a, b)
                if e in hs or e is TRUE:
                    continue
                if ext_equal(hyps, a, b, depth, deadline):
                    out.append(e)
    return out


RANGES = {'psum': lambda s, x: [le(ZERO, x), lt(x, s.args[2])],
          'amin': lambda s, x: [le(ZERO, x), lt(x, s.args[2])],
          'first': lambda s, x: [le(s.args[2], x), lt(x, s.args[3])],
          'rec': None}


def ext_equal(hyps, a, b, depth, deadline):
    for x, y in zip(a.args[1:], b.args[1:]):
        if not isinstance(x, T):
            if x != y:
                return False
            continue
        if x.op == 'lam':
            continue
        if x is not y:
            if x.sort == 'B' or y.sort == 'B':
                r = entails(hyps, iff(x, y))
            else:
                r = entails(hyps, eq(x, y))
            if r is not True:
                return False
    for x, y in zip(a.args[1:], b.args[1:]):
        if isinstance(x, T) and x.op == 'lam' and x is not y:
            if not (isinstance(y, T) and y.op == 'lam') or len(x.args[0]) != len(y.args[0]):
                return False
            vs = [fresh('e', v.sort) for v in x.args[0]]
            bx, by = apply(x, *vs), apply(y, *vs)
            if bx is by:
                continue
            extra = []
            name = a.args[0]
            if name in RANGES:
                if RANGES[name] is None:
                    # recursive definitions: bodies with self uninterpreted
                    pass
                else:
                    extra = RANGES[name](a, vs[0])
                    if name == 'psum' and entails(hyps, le(ZERO, a.args[2])) is not True:
                        return False
            elif name in LEN_OF:
                extra = LEN_OF[name](a, vs)
            if (bx.sort == 'B') != (by.sort == 'B'):
                return False
            g = iff(bx, by) if bx.sort == 'B' else eq(bx, by)
            r = prove(hyps + extra, g, 2000, depth + 1, min(deadline, time.time() + 10))
            if r.status != 'proved':
                return False
    return True


LEN_OF = {'pprod': lambda s, vs: [le(ZERO, vs[0]), lt(vs[0], s.args[2])]}


def fold_psums(hyps, q, depth, deadline):
    """a combination of sums over one range vanishes when the combined summand does"""
    N = None
    parts, rest = [], []
    lams = set()
    for m, c in pdict(q).items():
        ps = [(x, e) for x, e in m if x.op == 'uf' and x.args[0] == 'psum']
        if not ps:
            rest.append(from_pdict({m: c}))
            continue
        ps = [(x, e) for x, e in ps if N is None or x.args[2] is N]
        if len(ps) != 1 or ps[0][1] != 1:
            return False
        N = ps[0][0].args[2]
        lams.add(ps[0][0].args[1])
        parts.append((from_pdict({tuple(y for y in m if y[0] is not ps[0][0]): c}), ps[0][0].args[1]))
    if len(lams) + bool(rest) < 2 or entails(hyps, le(ZERO, N) if not rest else lt(ZERO, N)) is not True:
        return False
    j = fresh('e', 'I')
    try:
        body = addn([mul(k, apply(l, j)) for k, l in parts] + [div(r, N) for r in rest])
    except TooBig:
        return False
    return prove(hyps + [le(ZERO, j), lt(j, N)], eq0(body), 2000, 2, min(deadline, time.time() + 10)).status == 'proved'


def prove_eq(hyps, p, depth, deadline, recd=0):
    """p == 0 by simplification, case splitting on indicators, clearing denominators"""
    p = simplify_under(hyps, p)
    if p is ZERO:
        return True
    if time.time() > deadline:
        return False
    p = align_psums(hyps, p)
    if p is ZERO:
        return True
    p = unify_recs(hyps, p, deadline)
    if p is ZERO:
        return True
    ins = [s for s in inds_of(p) if any(s in dict(m) for m in pdict(p))] or inds_of(p)
    if ins and depth < 9:
        c = ins[0].args[0]
        for lit in (c, bnot(c)):
            h = hyps + [lit]
            if not feasible(h):
                continue
            if not prove_eq(h, p, depth + 1, deadline, recd):
                return False
        return True
    try:
        q = clear_denoms(p)
    except TooBig:
        return False
    if q is ZERO:
        return True
    m = canon_eqs(hyps, q)
    if m:
        q2 = subst(q, m)
        if q2 is ZERO:
            return True
        try:
            if q2 is not q and clear_denoms(q2) is ZERO:
                return True
        except TooBig:
            return False
    if fold_psums(hyps, q, depth, deadline):
        return True
    p2 = unify_functionals(hyps, p, depth, deadline)
    if p2 is not p and prove_eq(hyps, p2, depth, deadline, recd):
        return True
    if recd < 3:
        hang = []
        m = rec_eqs(hyps, p, hang)
        if not m and hang and depth < 9:
            for lit in (hang[0], bnot(hang[0])):
                if feasible(hyps + [lit]) and not prove_eq(hyps + [lit], p, depth + 1, deadline, recd):
                    break
            else:
                return True
        p2 = subst(p, m) if m else p
        if p2 is not p and prove_eq(hyps, p2, depth, deadline, 2 if recd < 2 else 3):
            return True
    if recd < 2:
        p2 = rec_unfold_in(p)
        if p2 is not p and prove_eq(hyps, p2, depth, deadline, recd + 1):
            return True
    if depth and not is_cx(p):
        # leaf of a case split: ask z3 about this leaf only
        for rounds in (1, 2, 3):
            if z3_check(hyps + [bnot(eq0(p))], 3000, rounds) == 'unsat':
                return True
    return False
