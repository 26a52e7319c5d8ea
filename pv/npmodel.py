"""Assumed contracts of Python builtins, numpy and friends (the trusted base)."""
import ast
from contextlib import contextmanager
from .term import *
from . import term as _term
from .values import *
from . import solve

ORDER = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'O': 4}
SC = {'f': 'f8', 'i': 'i8', 'b': 'b1', 'c': 'c16', 'O': 'float'}
TYCODE = {'int': 'i', 'i8': 'i', 'float': 'f', 'f8': 'f', 'bool': 'b', 'b1': 'b', 'c16': 'c'}
PI = var('pi', 'R')
INF = var('inf', 'R')
CONST_FACTS = [lt(num(Fraction(314, 100)), PI), lt(PI, num(Fraction(315, 100)))]


def join(a, b):
    return a if ORDER[a] >= ORDER[b] else b


def opt(kw, *allowed):
    for k in kw:
        if k not in allowed:
            raise Unsupported('keyword %s' % k)


class NP:
    def __init__(self, ip):
        self.ip = ip
        self.used = set()

    # --- helpers ------------------------------------------------------------
    @contextmanager
    def assuming(self, *cs):
        ip = self.ip
        old = ip.pc
        ip.pc = list(old)
        for c in cs:
            if c is not TRUE:
                ip.pc.append(c)
        try:
            yield
        finally:
            ip.pc = old

    def isarr(self, v):
        return isinstance(v, Ref) and isinstance(self.ip.heap[v.id], ArrObj)

    def isseq(self, v):
        if isinstance(v, tuple):
            return not (len(v) == 4 and v and v[0] == 'slice')
        return isinstance(v, Ref) and isinstance(self.ip.heap[v.id], (ArrObj, ListObj))

    def getarr(self, v):
        """ArrObj for any array-like value"""
        ip = self.ip
        if isinstance(v, ArrObj):
            return v
        if isinstance(v, Num):
            return ArrObj((), lambda: (v.t, v.nan), TYCODE[v.ty])
        if isinstance(v, Ref):
            o = ip.heap[v.id]
            if isinstance(o, ArrObj):
                if o.view is not None and ip.heap[o.view[0]] is not o.view[1]:
                    raise Unsupported('read through a view after its base changed')
                return o
            if isinstance(o, ListObj):
                return self.from_items(o.items)
            if isinstance(o, SeqList):
                raise Unsupported('symbolic list under construction')
        if isinstance(v, tuple):
            return self.from_items(list(v))
        if isinstance(v, RangeVal):
            it = self.iterate(v)
            return ArrObj((it.N,), lambda i: (it.item(i).t, FALSE), 'i')
        if isinstance(v, GenVal):
            raise Unsupported('array of generator')
        raise Unsupported('array from %r' % (v,))

    def from_items(self, items):
        if not items:
            return ArrObj((ZERO,), lambda i: (ZERO, FALSE), 'f')
        if any(isinstance(x, str) or x is None for x in items):
            raise Unsupported('array of strings')
        arrs = [self.getarr(x) for x in items]
        nd = arrs[0].ndim
        if any(a.ndim != nd for a in arrs):
            raise PRaise('ValueError', 'inhomogeneous')
        dt = 'b'
        for a in arrs:
            dt = join(dt, a.dtype)
        for a in arrs[1:]:
            for x, y in zip(arrs[0].shape, a.shape):
                if not self.ip.decide(eq(x, y)):
                    raise PRaise('ValueError', 'inhomogeneous')
        n = len(items)

        def fn(i, *rest):
            if i.op == 'num':
                k = int(i.args[0])
                if 0 <= k < n:
                    t, na = arrs[k].at(*rest)
                    return (self.cast_term(t, arrs[k].dtype, dt), na)
            t, na = arrs[n - 1].at(*rest)
            t = last = self.cast_term(t, arrs[n - 1].dtype, dt)
            for k in range(n - 2, -1, -1):
                t2, na2 = arrs[k].at(*rest)
                t2 = self.cast_term(t2, arrs[k].dtype, dt)
                c = eq(i, num(k))
                # the conditions exclude each other, so the selection is a plain sum
                t = bite(c, t2, t) if t.sort == 'B' else add(t, mul(ind(c), t2 - last))
                na = bite(c, na2, na)
            return (t, na)
        return ArrObj((num(n),) + arrs[0].shape, fn, dt)

    def cast_term(self, t, src, dst):
        if src == dst:
            return t
        if dst == 'b':
            return t if t.sort == 'B' else bnot(eq0(t))
        if t.sort == 'B':
            t = ind(t)
        if dst == 'i' and src in ('f', 'c'):
            return trunc(t)
        return t

    def wrap(self, a):
        """ArrObj -> value (0-d become scalars)"""
        if a.ndim == 0:
            t, n = a.at()
            return Num(t, SC[a.dtype], n)
        return self.ip.new(a)

    def ranges(self, shape, idx):
        out = []
        for d, i in zip(shape, idx):
            out.append(le(ZERO, i))
            out.append(lt(i, d))
        return out

    def freshidx(self, shape):
        return [fresh('i', 'I') for _ in shape]

    def size(self, a):
        s = ONE
        for d in a.shape:
            s = s * d
        return s

    # --- filtered arrays ---------------------------------------------------------
    def filt_arr(self, N, guard, elem, dtype, identity=False):
        """array of elem(t) for t in [0,N) with guard(t), in order"""
        cnt = self.count(N, guard)

        def fn(k):
            i = self.enum(N, guard, k)
            return elem(i)
        return ArrObj((cnt,), fn, dtype, filt=(N, guard, elem), identity=identity)

    def count(self, N, guard):
        j = fresh('j', 'I')
        with self.assuming(le(ZERO, j), lt(j, N)):
            g = guard(j)
        return mk_sum(ZERO, N, j, ind(g))

    def rank(self, N, guard, i):
        j = fresh('j', 'I')
        g = guard(j)
        return mk_sum(ZERO, i, j, ind(g))

    def enum(self, N, guard, k):
        j = fresh('j', 'I')
        with self.assuming(le(ZERO, j), lt(j, N)):
            g = self.simpbool(guard(j))
        l = lam([j], g)
        return uf('enum', l, N, k, sort='I')

    def simpbool(self, c):
        """c without the parts that the path condition decides"""
        if c.op == 'not':
            return bnot(self.simpbool(c.args[0]))
        if c.op == 'and':
            return band(*[self.simpbool(x) for x in c.args])
        if c.op in ('le', 'eq') and not any(x.op == 'uf' for x in all_subterms([c])):
            d = solve.entails(self.ip.pc, c)
            return TRUE if d is True else FALSE if d is False else c
        return c

    def sum_enum(self, hi, j, body):
        """sum over j < hi; over the selected positions themselves when j only numbers them"""
        en = [t for t in all_subterms([body]) if t.op == 'uf' and t.args[0] == 'enum' and j in free_vars(t)]
        if len(en) == 1 and en[0].args[3] is j and j not in free_vars(en[0].args[1]):
            l, N = en[0].args[1:3]
            c = fresh('c', 'I')
            b = subst(body, {en[0]: c})
            if j not in free_vars(b) and mk_sum(ZERO, N, c, ind(apply(l, c))) is hi:
                return mk_sum(ZERO, N, c, mul(ind(apply(l, c)), b))
        return mk_sum(ZERO, hi, j, body)

    def idxset(self, N, guard):
        return self.filt_arr(N, guard, lambda i: (i, FALSE), 'i', identity=True)

    def same_filter(self, f1, f2):
        if f1[0] is not f2[0]:
            if solve.entails(self.ip.pc, eq(f1[0], f2[0])) is not True:
                return False
        j = fresh('j', 'I')
        with self.assuming(le(ZERO, j), lt(j, f1[0])):
            g1, g2 = f1[1](j), f2[1](j)
            if g1 is g2:
                return True
            return solve.entails(self.ip.pc, iff(g1, g2)) is True

    # --- elementwise ---------------------------------------------------------------
    def broadcast(self, arrs):
        nd = max(a.ndim for a in arrs)
        shape = []
        for ax in range(nd):
            dims = []
            for a in arrs:
                k = ax - (nd - a.ndim)
                if k >= 0:
                    dims.append(a.shape[k])
            d = dims[0]
            for e in dims[1:]:
                if d is e:
                    continue
                if d is ONE:
                    d = e
                elif e is ONE:
                    pass
                elif self.ip.decide(eq(d, e)):
                    if e.op == 'num':
                        d = e
                elif self.ip.decide(eq(d, ONE)):
                    d = e
                elif self.ip.decide(eq(e, ONE)):
                    pass
                else:
                    raise PRaise('ValueError', 'broadcast')
            shape.append(d)
        return shape

    def elementwise(self, op, vals, dtype, checks=None):
        """op(list of (t,nan)) -> (t,nan); checks(list of (t,nan)) emits obligations"""
        arrs = [self.getarr(v) for v in vals]
        proper = [a for a in arrs if a.ndim > 0]
        if not proper:
            xs = [a.at() for a in arrs]
            if checks:
                checks(xs)
            t, n = op(xs)
            return Num(t, SC[dtype], n)
        # filtered arrays stay filtered
        filts = [a for a in proper if a.filt]
        if filts and all(a.filt or (a.ndim == 1 and a.shape[0] is ONE) for a in proper) and \
                all(self.same_filter(filts[0].filt, a.filt) for a in filts[1:]):
            N, g, _ = filts[0].filt

            def elem(i):
                return op([a.filt[2](i) if a.filt else a.at(*[ZERO] * a.ndim) for a in arrs])
            if checks:
                i = fresh('i', 'I')
                with self.assuming(le(ZERO, i), lt(i, N), g(i)):
                    checks([a.filt[2](i) if a.filt else a.at(*[ZERO] * a.ndim) for a in arrs])
            return self.ip.new(self.filt_arr(N, g, elem, dtype))
        shape = self.broadcast(proper)
        nd = len(shape)

        def pick(a, idx):
            k = nd - a.ndim
            sub = []
            for d, i, s in zip(a.shape, idx[k:], shape[k:]):
                sub.append(ZERO if (d is ONE and s is not ONE) else (i if (d is s or solve.entails(self.ip.pc, eq(d, s)) is True) else ite(eq(d, s), i, ZERO)))
            return a.at(*sub)

        def fn(*idx):
            return op([pick(a, idx) for a in arrs])
        if checks:
            idx = self.freshidx(shape)
            with self.assuming(*self.ranges(shape, idx)):
                checks([pick(a, idx) for a in arrs])
        pyl = False
        return self.ip.new(ArrObj(shape, fn, dtype))

    def code(self, v):
        return self.getarr(v).dtype

    # --- operators -------------------------------------------------------------------
    def binop(self, op, a, b, inplace=False):
        ip = self.ip
        if isinstance(a, Num) and isinstance(b, Num):
            return self.scalar_op(op, a, b)
        # python list arithmetic
        ao = ip.heap.get(a.id) if isinstance(a, Ref) else None
        bo = ip.heap.get(b.id) if isinstance(b, Ref) else None
        if isinstance(ao, ListObj) and isinstance(bo, ListObj) and op == 'Add':
            return ip.new(ListObj(ao.items + bo.items))
        if isinstance(ao, ListObj) and isinstance(b, Num) and b.isint and op == 'Mult' and b.const() is not None:
            return ip.new(ListObj(ao.items * b.const()))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, Num) and op == 'Mult' and b.const() is not None:
            return a * int(b.const())
        if isinstance(a, str) or isinstance(b, str):
            return '<formatted>'
        for x, o in ((a, ao), (b, bo)):
            if not isinstance(x, Num) and not isinstance(o, ArrObj):
                if isinstance(o, ListObj) and (isinstance(ao, ArrObj) or isinstance(bo, ArrObj)):
                    continue
                raise Unsupported('operator %s on %r' % (op, x))
        for o in (ao, bo):
            if isinstance(o, ArrObj) and o.pylist:
                oo = bo if o is ao else ao
                if not (isinstance(oo, ArrObj) and not oo.pylist):
                    if not (isinstance(b if o is ao else a, Num) and (b if o is ao else a).ty in ('f8', 'i8', 'b1')):
                        raise Unsupported('operator on a python list')
        if op == 'MatMult':
            return self.matmul(a, b)
        ca, cb = self.code(a), self.code(b)
        dt = join(ca, cb)
        if op == 'Div':
            dt = 'c' if dt == 'c' else 'f'
        if op in ('Add', 'Sub', 'Mult') and dt == 'b':
            if op == 'Sub':
                raise PRaise('TypeError')
            if op == 'Add':
                return self.elementwise(lambda xs: (bor(xs[0][0], xs[1][0]), FALSE), [a, b], 'b')
            return self.elementwise(lambda xs: (band(xs[0][0], xs[1][0]), FALSE), [a, b], 'b')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if dt != 'b':
                raise Unsupported('bit op')
            f = {'BitAnd': band, 'BitOr': bor, 'BitXor': lambda x, y: bnot(iff(x, y))}[op]
            return self.elementwise(lambda xs: (f(xs[0][0], xs[1][0]), FALSE), [a, b], 'b')
        if op == 'Pow' and dt == 'b':
            dt = 'i'
        return self.elementwise(lambda xs: self.arith(op, xs[0], xs[1], dt), [a, b], dt,
                                checks=(lambda xs: self.check_arith(op, xs[0], xs[1])) if op in ('Div', 'FloorDiv', 'Mod', 'Pow') else None)

    def check_arith(self, op, x, y):
        if op in ('Div', 'FloorDiv', 'Mod'):
            d = y[0]
            if d.sort == 'B':
                d = ind(d)
            if is_cx(d):
                return          # complex division never raises; the contracts speak of designs without vanishing divisors
            self.ip.oblige('divisor is non-zero', imp(bnot(bor(x[1], y[1])), bnot(eq0(d))))
        elif op == 'Pow':
            e = y[0]
            if e.op == 'num' and e.args[0] < 0:
                self.ip.oblige('base of a negative power is non-zero', imp(bnot(x[1]), bnot(eq0(lift(x[0])))))

    def arith(self, op, x, y, dt):
        (a, na), (b, nb) = x, y
        if a.sort == 'B':
            a = ind(a)
        if b.sort == 'B':
            b = ind(b)
        nan = bor(na, nb)
        if op == 'Add':
            return (a + b, nan)
        if op == 'Sub':
            return (a - b, nan)
        if op == 'Mult':
            return (a * b, nan)
        if op == 'Div':
            return (a / b, nan)
        if op == 'FloorDiv':
            return (floordiv(a, b) if not (a.sort == 'R' or b.sort == 'R') else tfloor(a / b), nan)
        if op == 'Mod':
            return (mod(a, b) if not (a.sort == 'R' or b.sort == 'R') else a - b * tfloor(a / b), nan)
        if op == 'Pow':
            if b.op == 'num':
                k = b.args[0]
                if k.denominator != 1:
                    nan = bor(nan, lt(a, ZERO)) if dt != 'c' else nan
                return (power(a, k), nan)
            if a.op == 'num' and a.args[0] == -1 and b.sort == 'I':
                # (-1)**k
                m = b - 2 * floordiv(b, num(2))
                return (ONE - 2 * m, nan)
            return (uf('pow', a, b, sort='R'), nan)
        raise Unsupported('operator %s' % op)

    def scalar_op(self, op, a, b):
        ip = self.ip
        py = a.ty in ('int', 'float', 'bool') and b.ty in ('int', 'float', 'bool')
        ca, cb = TYCODE[a.ty], TYCODE[b.ty]
        dt = join(ca, cb)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if dt == 'b':
                f = {'BitAnd': band, 'BitOr': bor, 'BitXor': lambda x, y: bnot(iff(x, y))}[op]
                return Num(f(a.t, b.t), 'bool' if py else 'b1')
            raise Unsupported('bit op on ints')
        if op == 'MatMult':
            raise PRaise('TypeError')
        if dt == 'b':
            if py or op in ('Pow', 'FloorDiv', 'Mod'):
                dt = 'i'
            elif op == 'Add':
                return Num(bor(a.t, b.t), 'b1')
            elif op == 'Mult':
                return Num(band(a.t, b.t), 'b1')
            elif op == 'Sub':
                raise PRaise('TypeError')
            else:
                dt = 'i'
        if op == 'Div':
            dt = 'c' if dt == 'c' else 'f'
        x, y = (a.t, a.nan), (b.t, b.nan)
        if op in ('Div', 'FloorDiv', 'Mod'):
            if py:
                if ip.decide(eq0(b.arith())):
                    raise PRaise('ZeroDivisionError')
            else:
                self.check_arith(op, x, y)
        if op == 'Pow':
            e = b.const()
            if e is not None and e < 0:
                if dt == 'i' and py:
                    dt = 'f'
                if py:
                    if ip.decide(eq0(a.arith())):
                        raise PRaise('ZeroDivisionError')
                else:
                    self.check_arith(op, x, y)
            if py and e is not None and not isinstance(e, int) and dt == 'f':
                # negative base gives a complex number in python
                if ip.decide(lt(a.arith(), ZERO)):
                    raise Unsupported('fractional power of negative')
        t, n = self.arith(op, x, y, dt)
        ty = {'i': 'int', 'f': 'float', 'c': 'c16'}[dt] if py else SC[dt]
        return Num(t, ty, n)

    def unop(self, op, v):
        if isinstance(v, Num):
            if op == 'USub':
                ty = v.ty if v.ty != 'bool' else 'int'
                return Num(neg(v.arith()), ty, v.nan)
            if op == 'UAdd':
                return v
            if op == 'Invert':
                if v.ty == 'b1':
                    return Num(bnot(v.t), 'b1')
                if v.isint:
                    return Num(neg(v.t) - 1, v.ty)
        elif self.isarr(v):
            dt = self.code(v)
            if op == 'USub':
                if dt == 'b':
                    raise PRaise('TypeError')
                return self.elementwise(lambda xs: (neg(xs[0][0]), xs[0][1]), [v], dt)
            if op == 'Invert' and dt == 'b':
                return self.elementwise(lambda xs: (bnot(xs[0][0]), FALSE), [v], 'b')
            if op == 'UAdd':
                return v
        raise Unsupported('unary %s' % op)

    def truth_term(self, v):
        t = v.t if v.t.sort == 'B' else bnot(eq0(v.t))
        return bor(t, v.nan)

    def cmp(self, op, x, y):
        (a, na), (b, nb) = x, y
        if op in ('Eq', 'NotEq') and a.sort == 'B' and b.sort == 'B':
            r = iff(a, b)
            return r if op == 'Eq' else bnot(r)
        a, b = lift(a), lift(b)
        ok = bnot(bor(na, nb))
        if op == 'Eq':
            return band(ok, eq(a, b))
        if op == 'NotEq':
            return bor(bnot(ok), ne(a, b))
        f = {'Lt': lt, 'LtE': le, 'Gt': lambda p, q: lt(q, p), 'GtE': lambda p, q: le(q, p)}[op]
        return band(ok, f(a, b))

    def compare(self, op, a, b):
        ip = self.ip
        if op in ('Is', 'IsNot'):
            if a is None or b is None:
                r = a is b
            elif isinstance(a, Num) and isinstance(b, Num) and a.ty == 'bool' and b.ty == 'bool':
                return Num(iff(a.t, b.t) if op == 'Is' else bnot(iff(a.t, b.t)), 'bool')
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.id == b.id
            elif isinstance(a, TypeVal) and isinstance(b, TypeVal):
                r = a.name == b.name
            else:
                raise Unsupported('is')
            return pybool(r if op == 'Is' else not r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            return Num(r if op == 'In' else bnot(r), 'bool')
        if isinstance(a, Num) and isinstance(b, Num):
            py = a.ty in ('int', 'float', 'bool') and b.ty in ('int', 'float', 'bool')
            return Num(self.cmp(op, (a.t, a.nan), (b.t, b.nan)), 'bool' if py else 'b1')
        if isinstance(a, TypeVal) and isinstance(b, TypeVal):
            r = a.name == b.name
            return pybool(r if op == 'Eq' else not r)
        if isinstance(a, (str, type(None), tuple)) or isinstance(b, (str, type(None), tuple)):
            if op in ('Eq', 'NotEq'):
                if isinstance(a, tuple) and isinstance(b, tuple):
                    if len(a) != len(b):
                        return pybool(op == 'NotEq')
                    r = TRUE
                    for x, y in zip(a, b):
                        r = band(r, self.truth_term(self.compare('Eq', x, y)))
                    return Num(r if op == 'Eq' else bnot(r), 'bool')
                if type(a) is type(b):
                    r = a == b
                    return pybool(r if op == 'Eq' else not r)
                if not (self.isarr(a) or self.isarr(b)):
                    return pybool(op == 'NotEq')
            raise Unsupported('comparison')
        for x in (a, b):
            if isinstance(x, Ref) and not isinstance(ip.heap[x.id], ArrObj):
                o = ip.heap[x.id]
                if isinstance(o, ListObj) and (self.isarr(a) or self.isarr(b)):
                    continue
                raise Unsupported('comparison of objects')
            if isinstance(x, Ref) and ip.heap[x.id].pylist:
                raise Unsupported('comparison of lists')
        return self.elementwise(lambda xs: (self.cmp(op, xs[0], xs[1]), FALSE), [a, b], 'b')

    def contains(self, a, b):
        ip = self.ip
        if isinstance(b, tuple):
            items = b
        elif isinstance(b, Ref) and isinstance(ip.heap[b.id], ListObj):
            items = ip.heap[b.id].items
        elif isinstance(b, Ref) and isinstance(ip.heap[b.id], DictObj):
            return TRUE if a in ip.heap[b.id].d else FALSE
        elif isinstance(b, RangeVal) and isinstance(a, Num):
            if b.s.const() == 1:
                return band(le(b.a.t, a.arith()), lt(a.arith(), b.b.t))
            raise Unsupported('in range')
        elif self.isarr(b) and isinstance(a, Num):
            o = self.getarr(b)
            j = fresh('j', 'I')
            if o.ndim == 1:
                if o.filt:
                    N, g, el = o.filt
                    if o.identity:
                        return band(le(ZERO, a.arith()), lt(a.arith(), N), g(a.arith()))
                    return exists(ZERO, N, j, band(g(j), eq(lift(el(j)[0]), a.arith())))
                return exists(ZERO, o.shape[0], j, self.cmp('Eq', o.at(j), (a.t, a.nan)))
            raise Unsupported('in array')
        elif isinstance(b, str) and isinstance(a, str):
            return TRUE if a in b else FALSE
        else:
            raise Unsupported('in')
        r = FALSE
        for x in items:
            r = bor(r, self.truth_term(self.compare('Eq', a, x)))
        return r

    # --- indexing ------------------------------------------------------------------------
    def norm_index(self, i, n):
        """python index -> term in [0,n), raising IndexError paths"""
        ip = self.ip
        t = i.arith()
        if i.ty not in ('int', 'i8', 'bool'):
            raise PRaise('IndexError', 'index type')
        if ip.decide(lt(t, ZERO)):
            t = t + n
            if not ip.decide(le(ZERO, t)):
                raise PRaise('IndexError')
        else:
            if not ip.decide(lt(t, n)):
                raise PRaise('IndexError')
        return t

    def slice_bounds(self, sl, n):
        """(start, length, step) with step a python int"""
        ip = self.ip
        _, a, b, s = sl
        step = 1
        if s is not None:
            c = s.const()
            if c is None:
                raise Unsupported('symbolic slice step')
            step = int(c)
        def idx(v):
            if isinstance(v, Num):
                if v.ty not in ('int', 'i8', 'bool'):
                    raise PRaise('TypeError', 'slice index')
                return v.arith()
            if self.isarr(v) and self.getarr(v).ndim == 0:
                return self.getarr(v).at()[0]
            raise Unsupported('slice bound')

        if step > 0:
            def clip(v, dflt):
                if v is None:
                    return dflt
                t = idx(v)
                if ip.decide(lt(t, ZERO)):
                    t = t + n
                    return t if ip.decide(le(ZERO, t)) else ZERO
                return t if ip.decide(le(t, n)) else n
            lo, hi = clip(a, ZERO), clip(b, n)
            if ip.decide(lt(hi, lo)):
                return lo, ZERO, step
            d = hi - lo
            if step == 1:
                return lo, d, 1
            return lo, floordiv(d + (step - 1), num(step)), step
        # negative step
        def clipn(v, dflt):
            if v is None:
                return dflt
            t = idx(v)
            if ip.decide(lt(t, ZERO)):
                t = t + n
                return t if ip.decide(le(ZERO, t)) else num(-1)
            return t if ip.decide(lt(t, n)) else n - 1
        lo, hi = clipn(a, n - 1), clipn(b, num(-1))
        if ip.decide(le(lo, hi)):
            return lo, ZERO, step
        d = lo - hi
        k = -step
        return lo, (d if k == 1 else floordiv(d + (k - 1), num(k))), step

    def getitem(self, base, idx):
        ip = self.ip
        if isinstance(base, (tuple,)):
            return self.seq_get(list(base), idx, tuple)
        if isinstance(base, RangeVal):
            it = self.iterate(base)
            if isinstance(idx, Num):
                return it.item(self.norm_index(idx, it.N))
            raise Unsupported('range slice')
        if isinstance(base, str):
            raise Unsupported('string index')
        if isinstance(base, Num) or base is None:
            if isinstance(base, Num) and isinstance(idx, tuple) and len(idx) == 0:
                return base
            raise PRaise('TypeError' if not isinstance(base, Num) or base.ty in ('int', 'float', 'bool') else 'IndexError', 'not subscriptable')
        if isinstance(base, Builtin) and base.name == 'scipy.stats._stats.gaussian_kernel_estimate' and idx == 'double':
            return base
        if not isinstance(base, Ref):
            raise Unsupported('subscript of %r' % (base,))
        o = ip.heap[base.id]
        if isinstance(o, InstObj) and hasattr(self, 'g_' + o.cls):
            return getattr(self, 'g_' + o.cls)(o, idx)
        if isinstance(o, DictObj):
            k = idx if isinstance(idx, str) else self.hashkey(idx)
            if k not in o.d:
                raise PRaise('KeyError')
            return o.d[k]
        if isinstance(o, ListObj):
            return self.seq_get(o.items, idx, list)
        if isinstance(o, SeqList):
            return self.seqlist_get(o, idx)
        if not isinstance(o, ArrObj):
            raise Unsupported('subscript')
        o = self.getarr(base)
        if o.pylist:
            if isinstance(idx, Num):
                if idx.ty not in ('int', 'i8', 'bool'):
                    raise PRaise('TypeError')
                k = self.norm_index(idx, o.shape[0])
                return self.elem_value(o, k)
            if not (isinstance(idx, tuple) and idx and idx[0] == 'slice'):
                raise PRaise('TypeError', 'list indices')
        return self.arr_get(base, o, idx)

    def seqlist_len(self, o):
        c, t = o.base
        if c.cf is not None:
            a = c.cf(t)
            n = num(len(a.items)) if isinstance(a, ListObj) else a.shape[0]
        else:
            # provisional: one element per iteration (confirmed when the closed form is computed)
            n = t + c.k0
            c.lenread = True
        return n

    def seqlist_get(self, o, idx):
        ip = self.ip
        if not isinstance(idx, Num):
            raise Unsupported('slicing a list while it is built')
        c, t = o.base
        n = self.seqlist_len(o)
        k = self.norm_index(idx, n + len(o.appended))
        for j, x in enumerate(o.appended):
            if ip.decide(eq(k, n + j)):
                return x
        if c.cf is not None:
            a = c.cf(t)
            if isinstance(a, ListObj):
                return self.seq_get(a.items, Num(k, 'int'), list)
            return self.elem_value(a, k)
        if c.k0 and all(isinstance(x, Num) for x in c.init.items):
            ty = 'float' if any(x.ty in ('float', 'f8') for x in c.init.items) else c.init.items[0].ty
        else:
            ty = 'float'
        if ty not in ('float', 'f8'):
            raise Unsupported('reading an integer list while it is built')
        return Num(uf(c.key, k, sort='R'), ty)

    def elem_value(self, o, k):
        if o.ndim > 1:
            return self.ip.new(ArrObj(o.shape[1:], lambda *r: o.at(k, *r), o.dtype))
        t, n = o.at(k)
        ty = SC[o.dtype]
        if o.pylist:
            ty = {'f8': 'float', 'i8': 'int', 'b1': 'bool', 'c16': 'c16'}[ty] if o.note != 'npelems' else ty
        return Num(t, ty, n)

    def hashkey(self, v):
        if isinstance(v, Num) and v.const() is not None:
            return ('n', v.const())
        raise Unsupported('dict key')

    def seq_get(self, items, idx, kind):
        ip = self.ip
        if isinstance(idx, Num):
            if idx.ty not in ('int', 'i8', 'bool'):
                raise PRaise('TypeError')
            c = idx.const()
            if c is not None:
                if -len(items) <= c < len(items):
                    return items[int(c)]
                raise PRaise('IndexError')
            for k in range(-len(items), len(items)):
                if ip.decide(eq(idx.arith(), num(k))):
                    return items[k]
            raise PRaise('IndexError')
        if isinstance(idx, tuple) and idx and idx[0] == 'slice':
            def c(v):
                if v is None:
                    return None
                k = v.const()
                if k is None:
                    raise Unsupported('symbolic slice of a list')
                return int(k)
            r = items[slice(c(idx[1]), c(idx[2]), c(idx[3]))]
            return tuple(r) if kind is tuple else ip.new(ListObj(r))
        if self.isarr(idx):
            a = self.getarr(idx)
            if a.ndim == 0:
                t, n = a.at()
                return self.seq_get(items, Num(t, SC[a.dtype], n), kind)
            raise PRaise('TypeError', 'list index')
        raise PRaise('TypeError', 'list index')

    def root_view(self, base, o):
        """view descriptor (root ref id, root object)"""
        if isinstance(base, Ref):
            if o.view is not None:
                return o.view
            return (base.id, self.ip.heap[base.id])
        return None

    def arr_get(self, base, o, idx):
        ip = self.ip
        if isinstance(idx, tuple) and not (idx and idx[0] == 'slice'):
            parts = list(idx)
        else:
            parts = [idx]
        # single mask or index array
        if len(parts) == 1 and (self.isarr(parts[0]) or (isinstance(parts[0], Ref) and isinstance(ip.heap[parts[0].id], ListObj))):
            ia = self.getarr(parts[0])
            if ia.dtype == 'b' and ia.ndim == o.ndim == 1:
                return self.mask_get(o, ia)
            if ia.dtype == 'b' and ia.ndim == o.ndim:
                raise Unsupported('multi-dimensional mask')
            if ia.ndim == 0:
                parts = [Num(ia.at()[0], SC[ia.dtype])]
            elif ia.dtype == 'i' or (ia.shape[0] is ZERO):
                if ia.shape[0] is ZERO and ia.dtype != 'i':
                    raise PRaise('IndexError', 'arrays used as indices must be of integer type')
                return self.fancy_get(o, ia)
            else:
                raise PRaise('IndexError', 'arrays used as indices must be of integer type')
        if any(p is Ellipsis for p in parts):
            k = [i for i, p in enumerate(parts) if p is Ellipsis][0]
            nreal = sum(1 for p in parts if p is not None and p is not Ellipsis)
            parts = parts[:k] + [('slice', None, None, None)] * (o.ndim - nreal) + parts[k + 1:]
        nreal = sum(1 for p in parts if p is not None)
        if nreal > o.ndim:
            raise PRaise('IndexError', 'too many indices')
        parts = parts + [('slice', None, None, None)] * (o.ndim - nreal)
        shape = []
        maps = []      # per source axis: ('fix', t) | ('sl', outaxis, start, step) | ('fan', outaxis, arr)
        ax = 0
        anyview = True
        for p in parts:
            if p is None:
                shape.append(ONE)
                continue
            n = o.shape[ax]
            if isinstance(p, tuple) and p and p[0] == 'slice':
                st, ln, step = self.slice_bounds(p, n)
                maps.append(('sl', len(shape), st, step))
                shape.append(ln)
            elif isinstance(p, Num):
                maps.append(('fix', self.norm_index(p, n)))
            elif self.isarr(p) or self.isseq(p):
                ia = self.getarr(p)
                if ia.ndim == 0:
                    maps.append(('fix', self.norm_index(Num(ia.at()[0], SC[ia.dtype]), n)))
                elif ia.ndim == 1 and ia.dtype == 'i':
                    if sum(1 for q in parts if self.isarr(q)) > 1:
                        raise Unsupported('several index arrays')
                    self.check_indices(ia, n)
                    maps.append(('fan', len(shape), ia))
                    shape.append(ia.shape[0])
                    anyview = False
                else:
                    raise Unsupported('index array')
            else:
                raise Unsupported('index %r' % (p,))
            ax += 1

        def fn(*out):
            src = []
            for m in maps:
                if m[0] == 'fix':
                    src.append(m[1])
                elif m[0] == 'sl':
                    src.append(m[2] + out[m[1]] * m[3])
                else:
                    src.append(m[2].at(out[m[1]])[0])
            return o.at(*src)
        if not shape:
            t, n = fn()
            return Num(t, SC[o.dtype], n)
        filt = None
        # a full slice of a filtered array stays filtered
        if o.filt and len(maps) == 1 and maps[0][0] == 'sl' and maps[0][2] is ZERO and maps[0][3] == 1 and shape[0] is o.shape[0]:
            r = o.copy_as()
        else:
            r = ArrObj(shape, fn, o.dtype, pylist=o.pylist)
        if anyview and not o.pylist:
            r.view = self.root_view(base, o)
        return ip.new(r)

    def check_indices(self, ia, n):
        """all indices of ia valid for an axis of length n (negative wrap not modelled here)"""
        ip = self.ip
        if ia.filt and ia.identity:
            if ia.filt[0] is n or solve.entails(ip.pc, le(ia.filt[0], n)) is True:
                return
            N, g, _ = ia.filt
            j = fresh('j', 'I')
            with self.assuming(le(ZERO, j), lt(j, N)):
                gj = g(j)
            bad = exists(ZERO, N, j, band(gj, le(n, j)))
            if ip.decide(bad):
                raise PRaise('IndexError')
            return
        j = fresh('j', 'I')
        if ia.filt:
            N, g, el = ia.filt
            with self.assuming(le(ZERO, j), lt(j, N)):
                c = imp(g(j), band(le(ZERO, el(j)[0]), lt(el(j)[0], n)))
            ok = forall(ZERO, N, j, c)
        else:
            with self.assuming(le(ZERO, j), lt(j, ia.shape[0])):
                e = ia.at(j)[0]
                c = band(le(ZERO, e), lt(e, n))
            ok = forall(ZERO, ia.shape[0], j, c)
        r = solve.prove(ip.pc, ok, 2000)
        if r.status != 'proved':
            raise Unsupported('index array range')

    def fancy_get(self, o, ia):
        ip = self.ip
        if ia.ndim != 1:
            raise Unsupported('index array rank')
        self.check_indices(ia, o.shape[0])
        if o.ndim > 1:
            return ip.new(ArrObj(ia.shape + o.shape[1:], lambda k, *r: o.at(ia.at(k)[0], *r), o.dtype))
        if ia.filt:
            N, g, el = ia.filt
            return ip.new(self.filt_arr(N, g, lambda i: o.at(el(i)[0]), o.dtype))
        return ip.new(ArrObj(ia.shape, lambda k: o.at(ia.at(k)[0]), o.dtype))

    def mask_get(self, o, m):
        ip = self.ip
        if not (m.shape[0] is o.shape[0]) and not ip.decide(eq(m.shape[0], o.shape[0])):
            raise PRaise('IndexError', 'boolean index did not match')
        if o.filt:
            N, g, el = o.filt
            if m.filt and self.same_filter(o.filt, m.filt):
                return ip.new(self.filt_arr(N, lambda i: band(g(i), m.filt[2](i)[0]), el, o.dtype, o.identity))
            # mask indexed by rank
            return ip.new(self.filt_arr(N, lambda i: band(g(i), m.at(self.rank(N, g, i))[0]), el, o.dtype, o.identity))
        n = o.shape[0]
        return ip.new(self.filt_arr(n, lambda i: m.at(i)[0], lambda i: o.at(i), o.dtype))

    def store_full(self, ref, val):
        self.setitem(ref, ('slice', None, None, None), val)

    def setitem(self, base, idx, val):
        ip = self.ip
        if isinstance(base, tuple):
            raise PRaise('TypeError')
        if not isinstance(base, Ref):
            raise Unsupported('item assignment')
        o = ip.heap[base.id]
        if isinstance(o, DictObj):
            k = idx if isinstance(idx, str) else self.hashkey(idx)
            d = dict(o.d)
            d[k] = val
            ip.setobj(base, DictObj(d))
            return
        if isinstance(o, ListObj):
            c = idx.const() if isinstance(idx, Num) else None
            if c is None:
                raise Unsupported('symbolic list store')
            if not (-len(o.items) <= c < len(o.items)):
                raise PRaise('IndexError')
            items = list(o.items)
            items[int(c)] = val
            ip.setobj(base, ListObj(items))
            return
        if not isinstance(o, ArrObj):
            raise Unsupported('item assignment')
        o = self.getarr(base)
        if o.filt:
            o = ArrObj(o.shape, o.fn, o.dtype, view=o.view)
        if isinstance(idx, tuple) and not (idx and idx[0] == 'slice'):
            parts = list(idx)
        else:
            parts = [idx]
        va = None
        if isinstance(val, Num):
            va = self.getarr(val)
        elif self.isseq(val):
            va = self.getarr(val)
        else:
            raise Unsupported('stored value %r' % (val,))
        if va.dtype == 'c' and o.dtype != 'c':
            raise Unsupported('complex stored in real array')
        if o.dtype == 'i' and va.dtype == 'f':
            # NaN cannot be stored in an integer array
            ii = self.freshidx(va.shape)
            with self.assuming(*self.ranges(va.shape, ii)):
                nanflag = va.at(*ii)[1]
            if nanflag is not FALSE:
                if va.ndim == 0:
                    if ip.decide(nanflag):
                        raise PRaise('ValueError', 'cannot convert float NaN to integer')
                else:
                    raise Unsupported('NaN into integer array')
        cast = lambda x: (self.cast_term(x[0], va.dtype, o.dtype), x[1] if o.dtype in 'fc' else FALSE)

        def finish(pred0, value):
            def pred(*i):
                p = pred0(*i)
                return self.simp(p) if _term.CTX[0] is not None else p

            def fn(*i):
                p = pred(*i)
                if p is TRUE:
                    return value(*i)
                if p is FALSE:
                    return o.at(*i)
                t1, n1 = value(*i)
                t2, n2 = o.at(*i)
                return (ite(p, t1, t2), bite(p, n1, n2))
            new = ArrObj(o.shape, fn, o.dtype, base=o, wpred=pred, wval=value, pylist=o.pylist)
            if o.view is not None:
                raise Unsupported('write through a view')
            ip.setobj(base, new)

        # masks and index arrays
        if len(parts) == 1 and (self.isarr(parts[0]) or (isinstance(parts[0], Ref) and isinstance(ip.heap[parts[0].id], ListObj))):
            ia = self.getarr(parts[0])
            if ia.dtype == 'b' and ia.ndim == o.ndim:
                for x, y in zip(ia.shape, o.shape):
                    if not ip.decide(eq(x, y)):
                        raise PRaise('IndexError')
                if va.ndim == 0:
                    return finish(lambda *i: ia.at(*i)[0], lambda *i: cast(va.at()))
                if o.ndim == 1 and va.ndim == 1:
                    f = (o.shape[0], lambda i: ia.at(i)[0], None)
                    return self.store_filtered(o, f, va, finish, cast)
                raise Unsupported('mask store')
            if ia.ndim == 0:
                parts = [Num(ia.at()[0], SC[ia.dtype])]
            elif ia.ndim == 1 and o.ndim == 1 and (ia.dtype == 'i'):
                self.check_indices(ia, o.shape[0])
                if ia.filt and ia.identity:
                    return self.store_filtered(o, ia.filt, va, finish, cast)
                if ia.filt and va.ndim == 0:
                    N, g, el = ia.filt
                    def pred(i):
                        j = fresh('j', 'I')
                        return exists(ZERO, N, j, band(g(j), eq(el(j)[0], i)))
                    return finish(pred, lambda i: cast(va.at()))
                if va.ndim == 0:
                    def pred(i):
                        j = fresh('j', 'I')
                        return exists(ZERO, ia.shape[0], j, eq(ia.at(j)[0], i))
                    return finish(pred, lambda i: cast(va.at()))
                raise Unsupported('scatter store')
            elif ia.shape[0] is ZERO:
                raise PRaise('IndexError', 'arrays used as indices must be of integer type')
            else:
                raise Unsupported('index store')
        if any(p is Ellipsis for p in parts):
            k = [i for i, p in enumerate(parts) if p is Ellipsis][0]
            parts = parts[:k] + [('slice', None, None, None)] * (o.ndim - len(parts) + 1) + parts[k + 1:]
        if len(parts) > o.ndim:
            raise PRaise('IndexError')
        parts = parts + [('slice', None, None, None)] * (o.ndim - len(parts))
        shape = []
        maps = []
        for p, n in zip(parts, o.shape):
            if isinstance(p, tuple) and p and p[0] == 'slice':
                st, ln, step = self.slice_bounds(p, n)
                if step < -1:
                    raise Unsupported('strided store')
                maps.append(('sl', len(shape), st, step, ln))
                shape.append(ln)
            elif isinstance(p, Num):
                maps.append(('fix', self.norm_index(p, n)))
            elif self.isarr(p) and self.getarr(p).ndim == 0:
                maps.append(('fix', self.norm_index(Num(self.getarr(p).at()[0], 'i8'), n)))
            else:
                raise Unsupported('store index')
        # broadcast the value to shape
        vsh = list(va.shape)
        if len(vsh) > len(shape):
            extra = len(vsh) - len(shape)
            for d in vsh[:extra]:
                if not ip.decide(eq(d, ONE)):
                    raise PRaise('ValueError', 'setting an array element with a sequence')
            lead = extra
            vsh = vsh[extra:]
        else:
            lead = 0
        off = len(shape) - len(vsh)
        bc = []
        for k, d in enumerate(vsh):
            s = shape[off + k]
            if d is s or (d is not ONE and ip.decide(eq(d, s))):
                bc.append(False)
            elif d is ONE or ip.decide(eq(d, ONE)):
                bc.append(True)
            else:
                raise PRaise('ValueError', 'could not broadcast')

        def pred(*i):
            cs = []
            for m, x in zip(maps, i):
                if m[0] == 'fix':
                    cs.append(eq(x, m[1]))
                elif m[3] >= 1:
                    cs.append(le(m[2], x))
                    cs.append(lt(x, m[2] + m[3] * m[4]))
                    if m[3] > 1:
                        cs.append(eq(mod(x - m[2], num(m[3])), ZERO))
                else:
                    cs.append(le(x, m[2]))
                    cs.append(lt(m[2] - m[4], x))
            return band(*cs)

        def value(*i):
            out = [None] * len(shape)
            for m, x in zip(maps, i):
                if m[0] == 'sl':
                    out[m[1]] = (x - m[2]) if m[3] == 1 else floordiv(x - m[2], num(m[3])) if m[3] > 1 else (m[2] - x)
            vi = [ZERO] * lead
            for k in range(len(vsh)):
                vi.append(ZERO if bc[k] else out[off + k])
            return cast(va.at(*vi))
        # full overwrite: drop redundant range conditions
        full = all(m[0] == 'sl' and m[3] <= 1 and m[2] is ZERO and m[4] is n for m, n in zip(maps, o.shape))
        if full:
            return finish(lambda *i: TRUE, value)
        finish(pred, value)

    def store_filtered(self, o, f, va, finish, cast):
        ip = self.ip
        N, g = f[0], f[1]
        inr = (lambda i: TRUE) if N is o.shape[0] else (lambda i: lt(i, N))
        if va.ndim == 0:
            return finish(lambda i: band(g(i), inr(i)), lambda i: cast(va.at()))
        if va.ndim == 1 and va.filt and self.same_filter(va.filt, f):
            return finish(lambda i: band(g(i), inr(i)), lambda i: cast(va.filt[2](i)))
        if va.ndim == 1:
            cnt = self.count(N, g)
            if va.shape[0] is ONE:
                return finish(lambda i: band(g(i), inr(i)), lambda i: cast(va.at(ZERO)))
            if not ip.decide(eq(cnt, va.shape[0])):
                raise PRaise('ValueError', 'shape mismatch')
            return finish(lambda i: band(g(i), inr(i)), lambda i: cast(va.at(self.rank(N, g, i))))
        raise Unsupported('filtered store')

    # --- iteration ---------------------------------------------------------------------------
    def iterate(self, v):
        """Iter for a value, or a python list of concrete items"""
        ip = self.ip
        if isinstance(v, Iter):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, RangeVal):
            s = v.s.const()
            if s is None or s == 0:
                raise Unsupported('range step')
            s = int(s)
            a, b = v.a.arith(), v.b.arith()
            d = (b - a) if s > 0 else (a - b)
            k = abs(s)
            if d.op == 'num':
                n = max(0, -((-int(d.args[0])) // k))
                return Iter(num(n), lambda t: Num(a + t * s, 'int'))
            if ip.decide(le(d, ZERO)):
                return Iter(ZERO, lambda t: Num(a + t * s, 'int'))
            n = d if k == 1 else floordiv(d + (k - 1), num(k))
            return Iter(n, lambda t: Num(a + t * s, 'int'))
        if isinstance(v, Ref):
            o = ip.heap[v.id]
            if isinstance(o, ListObj):
                return list(o.items)
            if isinstance(o, DictObj):
                return [k for k in o.d]
            if isinstance(o, ArrObj):
                o = self.getarr(v)
                if o.ndim == 0:
                    raise PRaise('TypeError', 'iteration over a 0-d array')
                if o.filt:
                    N, g, el = o.filt
                    return Iter(N, lambda t: Num(el(t)[0], SC[o.dtype], el(t)[1]), guard=g)
                return Iter(o.shape[0], lambda t: self.elem_value(o, t))
        if isinstance(v, GenVal):
            from . import loops
            return loops.gen_iter(ip, v)
        if isinstance(v, Num):
            raise PRaise('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def concrete(self, it):
        """python list of items when the iteration space is concrete and small"""
        if isinstance(it, list):
            return it
        if it.guard is None and it.N is not None and it.N.op == 'num' and it.N.args[0] <= 24:
            return [it.item(num(k)) for k in range(int(it.N.args[0]))]
        return None

    def unpack(self, v, n):
        ip = self.ip
        it = self.iterate(v)
        c = self.concrete(it)
        if c is None:
            if n is not None and it.guard is None and it.N is not None:
                if ip.decide(eq(it.N, num(n))):
                    return [it.item(num(k)) for k in range(n)]
                raise PRaise('ValueError', 'unpack')
            raise Unsupported('unpacking a symbolic sequence')
        if n is not None and len(c) != n:
            raise PRaise('ValueError', 'unpack')
        return c

    # --- attributes ------------------------------------------------------------------------------
    def getattr(self, base, name):
        ip = self.ip
        from .interp import Module
        if isinstance(base, Module):
            e = base.ns.get(name)
            if e is None:
                sub = base.name + '.' + name
                if ip.loader.path(sub):
                    return ip.loader.get(sub)
                raise PRaise('AttributeError')
            return ip.resolve(base, name, e)
        if isinstance(base, ExtModule):
            return self.external(base.name + '.' + name)
        if isinstance(base, Ref):
            o = ip.heap[base.id]
            if isinstance(o, ArrObj) and not o.pylist:
                o = self.getarr(base)
                if name == 'size':
                    return Num(self.size(o), 'int')
                if name == 'ndim':
                    return pyint(o.ndim)
                if name == 'shape':
                    return tuple(Num(d, 'int') for d in o.shape)
                if name == 'T':
                    if o.ndim == 1:
                        return base
                    sh = o.shape[::-1]
                    r = ArrObj(sh, lambda *i: o.at(*i[::-1]), o.dtype)
                    r.view = self.root_view(base, o)
                    return ip.new(r)
                if name == 'dtype':
                    return DType(o.dtype)
                if name == 'real':
                    return self.f_real(base)
            if isinstance(o, InstObj) and name in o.attrs:
                return o.attrs[name]
            return BoundMethod(base, name)
        if isinstance(base, Num):
            if base.ty in ('f8', 'i8', 'b1'):
                if name == 'size':
                    return pyint(1)
                if name == 'ndim':
                    return pyint(0)
                if name == 'shape':
                    return ()
                if name == 'T':
                    return base
            if name == 'real':
                return self.f_real(base)
            if base.ty in ('int', 'float', 'bool') and name in ('size', 'ndim', 'shape', 'T', 'copy', 'squeeze'):
                raise PRaise('AttributeError')
            return BoundMethod(base, name)
        if isinstance(base, (str, tuple)):
            return BoundMethod(base, name)
        if isinstance(base, DType):
            raise Unsupported('dtype attribute')
        if base is None:
            raise PRaise('AttributeError')
        raise Unsupported('attribute %s of %r' % (name, base))

    def setattr(self, base, name, v):
        ip = self.ip
        if isinstance(base, Ref) and isinstance(ip.heap[base.id], InstObj):
            o = ip.heap[base.id]
            ip.setobj(base, InstObj(o.cls, {**o.attrs, name: v}))
            return
        if isinstance(base, Ref) and isinstance(ip.heap[base.id], ArrObj) and name == 'dtype' and self.dcode(v) == self.getarr(base).dtype:
            return
        raise Unsupported('attribute assignment')

    # --- builtins ---------------------------------------------------------------------------------
    def builtin(self, name):
        f = getattr(self, 'b_' + name, None)
        if f is not None:
            return Builtin(name, f)
        if name in ('int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'complex', 'set', 'slice') or name in EXCNAMES:
            return TypeVal(name)
        if name == 'Ellipsis':
            return Ellipsis
        return None

    def b_range(self, *a):
        for x in a:
            if isinstance(x, Num) and x.ty in ('float', 'f8'):
                raise PRaise('TypeError')
            if not isinstance(x, Num):
                raise Unsupported('range argument')
        if len(a) == 1:
            return RangeVal(pyint(0), a[0], pyint(1))
        if len(a) == 2:
            return RangeVal(a[0], a[1], pyint(1))
        return RangeVal(*a)

    def b_len(self, v):
        ip = self.ip
        if isinstance(v, tuple):
            return pyint(len(v))
        if isinstance(v, str):
            return pyint(len(v))
        if isinstance(v, RangeVal):
            it = self.iterate(v)
            return Num(it.N, 'int')
        if isinstance(v, Ref):
            o = ip.heap[v.id]
            if isinstance(o, ListObj):
                return pyint(len(o.items))
            if isinstance(o, DictObj):
                return pyint(len(o.d))
            if isinstance(o, SeqList):
                return Num(self.seqlist_len(o) + len(o.appended), 'int')
            if isinstance(o, ArrObj):
                o = self.getarr(v)
                if o.ndim == 0:
                    raise PRaise('TypeError')
                return Num(o.shape[0], 'int')
        if isinstance(v, Num):
            raise PRaise('TypeError')
        raise Unsupported('len of %r' % (v,))

    def b_abs(self, v):
        if isinstance(v, Num):
            if v.ty == 'c16':
                raise Unsupported('complex abs')
            ty = v.ty if v.ty != 'bool' else 'int'
            t = v.arith()
            return Num(abs(t), ty, v.nan)
        return self.f_absolute(v)

    def b_print(self, *a, **k):
        return None

    def b_isinstance(self, v, ts):
        ts = ts if isinstance(ts, tuple) else (ts,)
        r = False
        for t in ts:
            if not isinstance(t, (TypeVal, Builtin)):
                raise Unsupported('isinstance type')
            r = r or self.isinst(v, t.name)
        return pybool(r)

    def isinst(self, v, tn):
        ip = self.ip
        if isinstance(v, Num):
            return tn in {'int': ('int',), 'bool': ('bool', 'int'), 'float': ('float',),
                          'f8': ('float', 'np.float64', 'np.floating', 'np.number', 'np.generic'),
                          'i8': ('np.int64', 'np.integer', 'np.number', 'np.generic'),
                          'b1': ('np.bool_', 'np.generic'), 'c16': ('complex',)}[v.ty]
        if isinstance(v, str):
            return tn == 'str'
        if isinstance(v, tuple):
            return tn == 'tuple'
        if isinstance(v, Ref):
            o = ip.heap[v.id]
            if isinstance(o, ListObj):
                return tn == 'list'
            if isinstance(o, ArrObj):
                return tn == ('list' if o.pylist else 'np.ndarray')
            if isinstance(o, DictObj):
                return tn == 'dict'
        if v is None:
            return False
        raise Unsupported('isinstance')

    def b_type(self, v):
        if isinstance(v, Num):
            return TypeVal({'f8': 'np.float64', 'i8': 'np.int64', 'b1': 'np.bool_', 'c16': 'complex'}.get(v.ty, v.ty))
        if isinstance(v, str):
            return TypeVal('str')
        if isinstance(v, tuple):
            return TypeVal('tuple')
        if isinstance(v, Ref):
            o = self.ip.heap[v.id]
            if isinstance(o, ListObj):
                return TypeVal('list')
            if isinstance(o, ArrObj):
                return TypeVal('list' if o.pylist else 'np.ndarray')
            if isinstance(o, DictObj):
                return TypeVal('dict')
        raise Unsupported('type()')

    def b_enumerate(self, v, start=None):
        it = self.iterate(v)
        s = start.t if start is not None else ZERO
        c = self.concrete(it)
        if c is not None:
            return tuple((Num(s + k, 'int'), x) for k, x in enumerate(c))
        if it.guard is None:
            return Iter(it.N, lambda t: (Num(s + t, 'int'), it.item(t)), facts=it.facts)
        return Iter(it.N, lambda t: (Num(s + self.rank(it.N, it.guard, t), 'int'), it.item(t)), guard=it.guard, facts=it.facts)

    def b_zip(self, *vs):
        its = [self.iterate(v) for v in vs]
        cs = [self.concrete(i) for i in its]
        if all(c is not None for c in cs):
            return tuple(zip(*cs))
        n = None
        if all(not isinstance(i, list) and i.guard is not None for i in its):
            g0 = its[0]
            if all(self.same_filter((g0.N, g0.guard), (i.N, i.guard)) for i in its[1:]):
                return Iter(g0.N, lambda t: tuple(i.item(t) for i in its), guard=g0.guard)
            r = self.zip_runs(its)
            if r is not None:
                return r
            raise Unsupported('zip of differently filtered sequences')
        norm = []
        for i, c in zip(its, cs):
            if isinstance(i, list):
                items = i
                norm.append(Iter(num(len(items)), lambda t, items=items: self.seq_get(items, Num(t, 'int'), list)))
            else:
                if i.guard is not None:
                    raise Unsupported('zip with filtered sequence')
                norm.append(i)
        n = norm[0].N
        for i in norm[1:]:
            if i.N is n:
                continue
            if i.N is None:
                continue
            n = n if self.ip.decide(le(n, i.N)) else i.N
        return Iter(n, lambda t: tuple(i.item(t) for i in norm))

    def zip_runs(self, its):
        """zip(starts, ends) of the maximal runs of one index set (lemma: the k-th start pairs with the k-th end)"""
        if len(its) != 2:
            return None
        a, b = its
        if a.N is not b.N:
            return None
        N = a.N
        ip = self.ip
        j = fresh('j', 'I')
        with self.assuming(le(ZERO, j), lt(j, N)):
            if a.item(j).t is not j or b.item(j).t is not j:
                return None
        runs = getattr(ip, 'runsets', [])
        for (RN, P) in runs:
            if RN is not N:
                continue
            j = fresh('j', 'I')
            with self.assuming(le(ZERO, j), lt(j, N)):
                s_ok = solve.prove(ip.pc, iff(a.guard(j), band(P(j), bor(eq(j, ZERO), bnot(P(j - 1))))), 3000)
                e_ok = solve.prove(ip.pc, iff(b.guard(j), band(P(j), bor(eq(j, N - 1), bnot(P(j + 1))))), 3000)
            if s_ok.status == 'proved' and e_ok.status == 'proved':
                def end(t):
                    k = fresh('k', 'I')
                    return first(t, N, k, bnot(P(k))) - 1
                return Iter(N, lambda t: (Num(t, 'i8'), Num(end(t), 'i8')), guard=lambda j: band(P(j), bor(eq(j, ZERO), bnot(P(j - 1)))),
                            facts=('runs', N, P))
        return None

    def b_sum(self, v, start=None):
        it = self.iterate(v)
        c = self.concrete(it)
        if c is not None:
            r = start if start is not None else pyint(0)
            for x in c:
                r = self.binop('Add', r, x)
            return r
        j = fresh('j', 'I')
        rng = [le(ZERO, j), lt(j, it.N)]
        with self.assuming(*rng):
            g = it.guard(j) if it.guard else TRUE
            with self.assuming(g):
                x = it.item(j)
            if not isinstance(x, Num) or x.nan is not FALSE:
                raise Unsupported('sum')
            body = mul(ind(g), x.arith())
        t = mk_sum(ZERO, it.N, j, body)
        if start is not None:
            t = t + start.arith()
        ty = 'int' if x.ty == 'bool' else x.ty
        return Num(t, ty)

    def _pyext(self, name, args, kw):
        opt(kw, 'default')
        if len(args) == 1:
            it = self.iterate(args[0])
            c = self.concrete(it)
            if c is None:
                if it.guard is not None:
                    raise Unsupported('min of filtered')
                if not self.ip.decide(lt(ZERO, it.N)):
                    raise PRaise('ValueError')
                j = fresh('j', 'I')
                with self.assuming(le(ZERO, j), lt(j, it.N)):
                    x = it.item(j)
                return Num(extremum('amin' if name == 'min' else 'amax', ZERO, it.N, j, x.arith()), x.ty)
            args = c
            if not c:
                raise PRaise('ValueError')
        r = args[0]
        for x in args[1:]:
            if not isinstance(x, Num) or not isinstance(r, Num):
                raise Unsupported('min/max of non numbers')
            a, b = r.arith(), x.arith()
            pick = lt(b, a) if name == 'min' else lt(a, b)
            d = solve.entails(self.ip.pc, pick)
            if d is True:
                r = x
            elif d is None:
                r = Num(ite(pick, b, a), r.ty if r.ty == x.ty else ('f8' if 'f8' in (r.ty, x.ty) else 'float' if 'float' in (r.ty, x.ty) else r.ty))
        return r

    def b_min(self, *a, **k):
        return self._pyext('min', a, k)

    def b_max(self, *a, **k):
        return self._pyext('max', a, k)

    def b_all(self, v):
        return self._quant(v, True)

    def b_any(self, v):
        return self._quant(v, False)

    def _quant(self, v, isall):
        it = self.iterate(v)
        c = self.concrete(it)
        if c is not None:
            r = TRUE if isall else FALSE
            for x in c:
                r = (band if isall else bor)(r, self.truth_term(x))
            return Num(r, 'bool')
        j = fresh('j', 'I')
        with self.assuming(le(ZERO, j), lt(j, it.N)):
            g = it.guard(j) if it.guard else TRUE
            with self.assuming(g):
                x = it.item(j)
            b = self.truth_term(x)
        if isall:
            return Num(forall(ZERO, it.N, j, imp(g, b)), 'bool')
        return Num(exists(ZERO, it.N, j, band(g, b)), 'bool')

    def b_sorted(self, v, **kw):
        if kw:
            raise Unsupported('sorted keywords')
        it = self.iterate(v)
        c = self.concrete(it)
        if c is None and it.guard is not None:
            j = fresh('j', 'I')
            if it.item(j).t is j:
                r = self.idxset(it.N, it.guard)
                r.pylist = True
                return self.ip.new(r)
        if c is not None and all(isinstance(x, Num) and x.const() is not None for x in c):
            return self.ip.new(ListObj(sorted(c, key=lambda x: x.const())))
        o = self.ip.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, ArrObj) and o.ndim == 1 and o.dtype == 'i' and o.filt is None:
            from .npextra import sort_distinct
            return sort_distinct(self, o, True)
        raise Unsupported('sorted')

    def b_reversed(self, v):
        it = self.iterate(v)
        c = self.concrete(it)
        if c is not None:
            return tuple(reversed(c))
        if it.guard is not None:
            return Iter(it.N, lambda t: it.item(it.N - 1 - t), guard=lambda t: it.guard(it.N - 1 - t))
        return Iter(it.N, lambda t: it.item(it.N - 1 - t))

    def b_round(self, v, nd=None):
        if nd is None:
            return Num(uf('around', v.arith(), ZERO, sort='R'), 'int')
        return Num(around(v.arith(), nd.arith()), v.ty, v.nan)

    def b_pow(self, a, b):
        return self.binop('Pow', a, b)

    def b_divmod(self, a, b):
        return (self.binop('FloorDiv', a, b), self.binop('Mod', a, b))

    def b_map(self, f, *vs):
        its = [self.iterate(v) for v in vs]
        cs = [self.concrete(i) for i in its]
        if all(c is not None for c in cs):
            return tuple(self.ip.call(f, list(xs), {}) for xs in zip(*cs))
        if len(its) == 1 and its[0].guard is None:
            it = its[0]
            return Iter(it.N, lambda t: self.ip.call(f, [it.item(t)], {}))
        raise Unsupported('map')

    def b_callable(self, f):
        return pybool(isinstance(f, (FuncVal, Builtin, SymFn, BoundMethod, TypeVal)))

    def b_iter(self, v):
        return v

    def construct(self, t, args, kw):
        ip = self.ip
        n = t.name
        if n in EXCNAMES:
            return t
        if n == 'float':
            if not args:
                return Num(ZERO, 'float')
            v = args[0]
            if isinstance(v, Num):
                if v.ty == 'c16':
                    raise PRaise('TypeError')
                return Num(v.arith(), 'float', v.nan)
            if self.isarr(v):
                a = self.getarr(v)
                if a.ndim == 0 or ip.decide(eq(self.size(a), ONE)):
                    x, na = a.at(*[ZERO] * a.ndim)
                    return Num(lift(x), 'float', na)
                raise PRaise('TypeError')
            if isinstance(v, str):
                try:
                    f = float(v)
                except ValueError:
                    raise PRaise('ValueError')
                if f != f:
                    return Num(ZERO, 'float', TRUE)
                if f in (float('inf'), -float('inf')):
                    raise Unsupported('inf')
                return Num(num(f), 'float')
            raise PRaise('TypeError')
        if n == 'int':
            v = args[0]
            if isinstance(v, Num):
                if v.nan is not FALSE and ip.decide(v.nan):
                    raise PRaise('ValueError')
                return Num(trunc(v.arith()), 'int')
            if self.isarr(v) and self.getarr(v).ndim == 0:
                return Num(trunc(lift(self.getarr(v).at()[0])), 'int')
            raise Unsupported('int()')
        if n == 'bool':
            return Num(self.truth_term(args[0]), 'bool') if isinstance(args[0], Num) else pybool(ip.truth(args[0]))
        if n == 'str':
            return '<formatted>'
        if n in ('list', 'tuple'):
            if not args:
                return ip.new(ListObj([])) if n == 'list' else ()
            it = self.iterate(args[0])
            c = self.concrete(it)
            if c is not None:
                return ip.new(ListObj(c)) if n == 'list' else tuple(c)
            return ip.new(self.list_of_iter(it))
        if n == 'dict':
            if not args:
                return ip.new(DictObj({k: v for k, v in kw.items()}))
        raise Unsupported('constructor %s' % n)

    def list_of_iter(self, it):
        """python list of symbolic length (elements scalar)"""
        j = fresh('j', 'I')
        with self.assuming(le(ZERO, j), lt(j, it.N)):
            x = it.item(j)
        if not isinstance(x, Num):
            if self.isarr(x):
                inner = self.getarr(x)
                return ArrObj((it.N,) + inner.shape, lambda t, *r: self.getarr(it.item(t)).at(*r), inner.dtype, pylist=True, note='npelems')
            raise Unsupported('list of non scalars')
        note = 'npelems' if x.ty in ('f8', 'i8', 'b1') else None

        def el(t):
            y = it.item(t)
            return (y.t, y.nan)
        if it.guard is not None:
            a = self.filt_arr(it.N, it.guard, el, TYCODE[x.ty], identity=(x.t is j))
        else:
            a = ArrObj((it.N,), el, TYCODE[x.ty])
        a.pylist = True
        a.note = note
        return a

    # --- methods ------------------------------------------------------------------------------------
    def method(self, recv, name, args, kw):
        ip = self.ip
        if isinstance(recv, str):
            if name == 'format':
                return '<formatted>'
            if name in ('lower', 'upper', 'strip'):
                return getattr(recv, name)()
            raise Unsupported('str.%s' % name)
        if isinstance(recv, Num):
            if name in ('sum', 'mean', 'min', 'max', 'copy', 'item', 'squeeze', 'conj', 'conjugate'):
                return recv
            if name in ('round',):
                return self.f_around(recv, *args, **kw)
            if name == 'any' or name == 'all':
                return Num(self.truth_term(recv), 'b1')
            if name == 'is_integer':
                return Num(eq(tfloor(recv.t), recv.t), 'bool')
            if name == 'astype':
                return self.f_astype(recv, *args)
            if name == 'reshape':
                return self.f_reshape(recv, *args, **kw)
            if name == 'flatten' or name == 'ravel':
                return ip.new(ArrObj((ONE,), lambda i: (recv.t, recv.nan), TYCODE[recv.ty]))
            raise Unsupported('scalar method %s' % name)
        if isinstance(recv, tuple):
            raise Unsupported('tuple.%s' % name)
        o = ip.heap[recv.id]
        if isinstance(o, ListObj):
            if name == 'append':
                ip.setobj(recv, ListObj(o.items + [args[0]]))
                return None
            if name == 'extend':
                c = self.concrete(self.iterate(args[0]))
                if c is None:
                    raise Unsupported('extend')
                ip.setobj(recv, ListObj(o.items + c))
                return None
            if name == 'insert' and args[0].const() == 0:
                ip.setobj(recv, ListObj([args[1]] + o.items))
                return None
            if name == 'index':
                for k, x in enumerate(o.items):
                    if type(x) is type(args[0]) and isinstance(x, str):
                        if x == args[0]:
                            return pyint(k)
                    elif isinstance(x, Num) and isinstance(args[0], Num):
                        if ip.decide(self.truth_term(self.compare('Eq', x, args[0]))):
                            return pyint(k)
                raise PRaise('ValueError')
            if name == 'copy':
                return ip.new(ListObj(o.items))
            if name == 'pop' and not args:
                if not o.items:
                    raise PRaise('IndexError')
                ip.setobj(recv, ListObj(o.items[:-1]))
                return o.items[-1]
            if name == 'sort' and not args and not kw:
                ip.setobj(recv, ip.heap[self.b_sorted(recv).id])
                return None
            raise Unsupported('list.%s' % name)
        if isinstance(o, SeqList):
            if name == 'append':
                ip.setobj(recv, SeqList(o.key, o.base, o.appended + (args[0],)))
                return None
            raise Unsupported('list.%s in loop' % name)
        if isinstance(o, DictObj):
            if name == 'get':
                return o.d.get(args[0], args[1] if len(args) > 1 else None)
            if name == 'items':
                return tuple((k, v) for k, v in o.d.items())
            if name == 'keys':
                return tuple(o.d)
            if name == 'values':
                return tuple(o.d.values())
            raise Unsupported('dict.%s' % name)
        if isinstance(o, InstObj):
            return self.inst_method(recv, o, name, args, kw)
        if o.pylist:
            if name == 'append':
                x = args[0]
                if len(args) != 1 or kw or o.ndim != 1 or o.dtype != 'i' or o.filt is not None or o.view is not None or not isinstance(x, Num) or not x.isint or x.isbool:
                    raise Unsupported('append to symbolic list')
                ip.setobj(recv, ArrObj((o.shape[0] + 1,), lambda i, n=o.shape[0]: (cite(eq(i, n), x.t, o.at(i)[0]), FALSE), 'i', pylist=True))
                return None
            if name == 'copy':
                return ip.new(o.copy_as(pylist=True, note=o.note))
            if name == 'sort' and not args and not kw:
                ip.setobj(recv, ip.heap[self.b_sorted(recv).id])
                return None
            raise Unsupported('list.%s' % name)
        if name in ('sum', 'mean', 'std', 'var', 'min', 'max', 'any', 'all', 'argmin', 'argmax', 'copy', 'reshape',
                    'ravel', 'flatten', 'squeeze', 'astype', 'round', 'cumsum', 'dot', 'nonzero', 'conj', 'conjugate',
                    'transpose', 'prod', 'clip', 'repeat', 'diagonal'):
            nm = {'min': 'amin', 'max': 'amax', 'round': 'around', 'flatten': 'flatten'}.get(name, name)
            return getattr(self, 'f_' + nm)(recv, *args, **kw)
        if name == 'tolist':
            r = self.getarr(recv)
            return ip.new(r.copy_as(pylist=True))
        if name == 'item':
            a = self.getarr(recv)
            if not args:
                if ip.decide(eq(self.size(a), ONE)):
                    t, n = a.at(*[ZERO] * a.ndim)
                    return Num(t, {'f': 'float', 'i': 'int', 'b': 'bool', 'c': 'c16'}[a.dtype], n)
                raise PRaise('ValueError')
        if name == 'fill':
            self.store_full(recv, args[0])
            return None
        if name == 'sort' and not args:
            a = self.getarr(recv)
            if a.identity:
                return None
        raise Unsupported('array method %s' % name)

    # --- external names -----------------------------------------------------------------------------
    def external(self, full):
        n = full
        for p in ('numpy.', 'np.'):
            if n.startswith(p):
                n = 'np.' + n[len(p):]
        if full in ('numpy.pi', 'math.pi'):
            self.ip.assume(CONST_FACTS[0])
            self.ip.assume(CONST_FACTS[1])
            return Num(PI, 'float')
        if full == 'numpy.nan' or full == 'math.nan':
            return Num(ZERO, 'float', TRUE)
        if full in ('numpy.inf', 'math.inf'):
            return Num(INF, 'float')
        if full == 'numpy.mgrid':
            return self.ip.new(InstObj('mgrid', {}))
        if full == 'numpy.newaxis':
            return None
        if full == 'numpy.e':
            return Num(uf('exp', ONE, sort='R'), 'float')
        if full in ('numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.float64', 'numpy.floating', 'numpy.integer', 'numpy.number',
                    'numpy.bool_', 'numpy.ndarray', 'numpy.generic', 'numpy.complex128', 'numpy.float32'):
            return TypeVal('np.' + full.split('.')[1])
        if full == 'numpy.ma.MaskedArray':
            return TypeVal('np.ma.MaskedArray')
        if full in ('numpy.linalg.LinAlgError',):
            return TypeVal('LinAlgError')
        if full in ('numpy.linalg', 'numpy.ma', 'numpy.random', 'numpy.fft', 'scipy.optimize', 'scipy.linalg', 'scipy.signal', 'scipy', 'scipy.stats'):
            return ExtModule(full)
        if n.startswith('np.ma.'):
            f = getattr(self, 'ma_' + n[6:], None)
        elif n.startswith('np.linalg.'):
            f = getattr(self, 'l_' + n[10:], None)
        elif n.startswith('np.fft.'):
            f = getattr(self, 'fft_' + n[7:], None)
        elif n.startswith('np.random.'):
            f = getattr(self, 'r_' + n[10:], None)
        elif n.startswith('np.'):
            f = getattr(self, 'f_' + {'abs': 'absolute', 'fabs': 'absolute', 'round': 'around', 'round_': 'around',
                                      'min': 'amin', 'max': 'amax', 'atleast_1d': 'atleast_1d', 'true_divide': 'divide',
                                      'arccos': 'arccos', 'nanmax': 'amax', 'nanmin': 'amin',
                                      'int64': 'int', 'pow': 'power', 'concat': 'concatenate', 'amin': 'amin'}.get(n[3:], n[3:]), None)
        elif n.startswith('math.'):
            f = getattr(self, 'm_' + n[5:], None)
        else:
            f = getattr(self, 'x_' + n.replace('.', '_'), None)
        if f is None:
            raise Unsupported('external %s' % full)
        self.used.add(full)
        return Builtin(full, f)

    # ----- numpy: creation ----------------------------------------------------------------------------
    def dcode(self, d):
        if d is None:
            return None
        if isinstance(d, DType):
            return d.code
        if isinstance(d, TypeVal):
            c = {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c', 'np.float64': 'f', 'np.int64': 'i', 'np.bool_': 'b',
                 'np.int_': 'i', 'np.int32': 'i', 'np.complex128': 'c'}.get(d.name)
            if c:
                return c
        if isinstance(d, str) and d in ('float', 'float64', 'int', 'int64', 'bool', 'f8', 'i8'):
            return d[0]
        raise Unsupported('dtype')

    def shapeof(self, s):
        if isinstance(s, Num):
            if s.ty in ('float', 'f8'):
                raise PRaise('TypeError')
            return (s.arith(),)
        return tuple(x.arith() for x in self.unpack(s, None))

    def chkdims(self, sh):
        for d in sh:
            if not self.ip.decide(le(ZERO, d)):
                raise PRaise('ValueError', 'negative dimensions')
        return sh

    def f_zeros(self, shape, dtype=None, **kw):
        opt(kw)
        dt = self.dcode(dtype) or 'f'
        z = FALSE if dt == 'b' else ZERO
        return self.ip.new(ArrObj(self.chkdims(self.shapeof(shape)), lambda *i: (z, FALSE), dt))

    def f_ones(self, shape, dtype=None, **kw):
        opt(kw)
        dt = self.dcode(dtype) or 'f'
        z = TRUE if dt == 'b' else ONE
        return self.ip.new(ArrObj(self.chkdims(self.shapeof(shape)), lambda *i: (z, FALSE), dt))

    def f_empty(self, shape, dtype=None, **kw):
        opt(kw)
        dt = self.dcode(dtype) or 'f'
        name = fresh('empty', 'R').args[0]
        return self.ip.new(ArrObj(self.chkdims(self.shapeof(shape)), lambda *i: (uf(name, *i, sort='R' if dt != 'i' else 'I'), FALSE), dt))

    def f_full(self, shape, v, dtype=None):
        dt = self.dcode(dtype) or TYCODE[v.ty]
        x = self.cast_term(v.t, TYCODE[v.ty], dt)
        return self.ip.new(ArrObj(self.chkdims(self.shapeof(shape)), lambda *i: (x, v.nan), dt))

    def f_full_like(self, a, v, dtype=None):
        o = self.getarr(a)
        dt = self.dcode(dtype) or o.dtype
        x = self.cast_term(v.t, TYCODE[v.ty], dt)
        return self.ip.new(ArrObj(o.shape, lambda *i: (x, v.nan if dt == 'f' else FALSE), dt))

    def _like(self, a, dtype, z, kw):
        opt(kw)
        o = self.getarr(a)
        dt = self.dcode(dtype) or o.dtype
        zz = (FALSE if z == 0 else TRUE) if dt == 'b' else num(z)
        return self.ip.new(ArrObj(o.shape, lambda *i: (zz, FALSE), dt))

    def f_zeros_like(self, a, dtype=None, **kw):
        return self._like(a, dtype, 0, kw)

    def f_ones_like(self, a, dtype=None, **kw):
        return self._like(a, dtype, 1, kw)

    def f_empty_like(self, a, dtype=None, **kw):
        o = self.getarr(a)
        dt = self.dcode(dtype) or o.dtype
        name = fresh('empty', 'R').args[0]
        return self.ip.new(ArrObj(o.shape, lambda *i: (uf(name, *i, sort='R' if dt != 'i' else 'I'), FALSE), dt))

    def f_eye(self, n, **kw):
        opt(kw)
        n = n.arith()
        return self.ip.new(ArrObj((n, n), lambda i, j: (ind(eq(i, j)), FALSE), 'f'))

    def f_arange(self, *a, **kw):
        opt(kw, 'dtype', 'start', 'stop', 'step')
        a = list(a)
        if 'start' in kw:
            a = [kw['start'], kw['stop']] + ([kw['step']] if 'step' in kw else [])
        elif 'step' in kw:
            a = a + [kw['step']]
        if len(a) == 1:
            lo, hi, st = pyint(0), a[0], pyint(1)
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], pyint(1)
        else:
            lo, hi, st = a
        dt = self.dcode(kw.get('dtype'))
        if not all(x.isint for x in (lo, hi, st)):
            if dt is None:
                dt = 'f'
            if st.const() == 1 and lo.isint and hi.isint:
                pass
            else:
                s = st.arith()
                if s.op != 'num' or s.args[0] <= 0:
                    raise Unsupported('float arange')
                n = tceil((hi.arith() - lo.arith()) / s)
                n = n if self.ip.decide(le(ZERO, n)) else ZERO
                return self.ip.new(ArrObj((n,), lambda i: (lo.arith() + s * i, FALSE), 'f'))
        it = self.iterate(RangeVal(lo, hi, st))
        s = num(int(st.const()))
        return self.ip.new(ArrObj((it.N,), lambda i: (lo.arith() + s * i, FALSE), dt or 'i'))

    def f_linspace(self, a, b, n=None, **kw):
        opt(kw, 'endpoint')
        k = n.arith() if n is not None else num(50)
        ep = kw.get('endpoint')
        if ep is not None and ep.const() is False:
            d = k
        else:
            d = k - 1
            self.ip.oblige('linspace has at least two points', lt(ONE, k))
        step = (b.arith() - a.arith()) / d
        return self.ip.new(ArrObj((k,), lambda i: (a.arith() + i * step, FALSE), 'f'))

    def _ascopy(self, v, dtype=None):
        ip = self.ip
        a = self.getarr(v)
        dt = self.dcode(dtype)
        if dt is None or dt == a.dtype:
            r = a.copy_as()
        else:
            if dt == 'i' and a.dtype == 'f':
                ii = self.freshidx(a.shape)
                with self.assuming(*self.ranges(a.shape, ii)):
                    if a.at(*ii)[1] is not FALSE:
                        raise Unsupported('NaN to int')
            src = a.dtype
            r = ArrObj(a.shape, lambda *i: (self.cast_term(a.at(*i)[0], src, dt), a.at(*i)[1]), dt)
            if a.filt and a.identity and dt == 'i':
                r = a.copy_as()
        return r

    def f_array(self, v, dtype=None, **kw):
        opt(kw, 'copy', 'ndmin')
        if 'ndmin' in kw:
            raise Unsupported('ndmin')
        r = self._ascopy(v, dtype)
        return self.ip.new(r)

    def f_asarray(self, v, dtype=None, **kw):
        opt(kw)
        if self.isarr(v) and not self.ip.heap[v.id].pylist:
            d = self.dcode(dtype)
            if d is None or d == self.ip.heap[v.id].dtype:
                return v
        return self.ip.new(self._ascopy(v, dtype))

    f_asanyarray = f_asarray
    f_asfarray = lambda self, v: self.f_asarray(v, TypeVal('float'))

    def f_ascontiguousarray(self, v):
        return self.f_asarray(v)

    def f_copy(self, v, **kw):
        opt(kw)
        return self.ip.new(self._ascopy(v))

    def f_astype(self, v, dtype, **kw):
        opt(kw, 'copy')
        if isinstance(v, Num):
            d = self.dcode(dtype)
            return Num(self.cast_term(v.t, TYCODE[v.ty], d), SC[d], v.nan)
        return self.ip.new(self._ascopy(v, dtype))

    def f_atleast_1d(self, v):
        a = self.getarr(v)
        if a.ndim == 0:
            return self.ip.new(ArrObj((ONE,), lambda i: a.at(), a.dtype))
        return v if self.isarr(v) else self.ip.new(a.copy_as())

    def f_atleast_2d(self, v):
        a = self.getarr(v)
        if a.ndim == 0:
            return self.ip.new(ArrObj((ONE, ONE), lambda i, j: a.at(), a.dtype))
        if a.ndim == 1:
            r = ArrObj((ONE,) + a.shape, lambda i, j: a.at(j), a.dtype)
            if self.isarr(v):
                r.view = self.root_view(v, a)
            return self.ip.new(r)
        return v

    # ----- shape -----------------------------------------------------------------------------------
    def f_size(self, v, axis=None):
        a = self.getarr(v) if not isinstance(v, (str, type(None))) else None
        if a is None:
            return pyint(1)
        if axis is not None:
            return Num(a.shape[int(axis.const())], 'int')
        return Num(self.size(a), 'int')

    def f_shape(self, v):
        return tuple(Num(d, 'int') for d in self.getarr(v).shape)

    def f_ndim(self, v):
        return pyint(self.getarr(v).ndim)

    def f_isscalar(self, v):
        return pybool(isinstance(v, (Num, str)))

    def f_reshape(self, v, *sh, **kw):
        opt(kw)
        a = self.getarr(v)
        if len(sh) == 1 and isinstance(sh[0], tuple):
            sh = sh[0]
        elif len(sh) == 1 and isinstance(sh[0], Ref):
            sh = self.unpack(sh[0], None)
        dims = [s.arith() for s in sh]
        if list(dims) == list(a.shape):
            return self.view_of(v, a, a.shape, lambda *i: a.at(*i))
        one = [d for d in dims if d is not ONE]
        src = [d for d in a.shape if d is not ONE]
        wild = [k for k, d in enumerate(dims) if d.op == 'num' and d.args[0] == -1]
        if len(wild) == 1:
            rest = ONE
            for k, d in enumerate(dims):
                if k != wild[0]:
                    rest = rest * d
            if rest is ONE:
                dims[wild[0]] = self.size(a)
            elif a.ndim == 1 and rest is a.shape[0]:
                dims[wild[0]] = ONE
            else:
                raise Unsupported('reshape')
            one = [d for d in dims if d is not ONE]
        if one == src or (len(one) == len(src) and all(self.ip.decide(eq(x, y)) for x, y in zip(one, src))):
            smap = [k for k, d in enumerate(dims) if d is not ONE]

            def fn(*i):
                it = iter([i[k] for k in smap])
                return a.at(*[ZERO if d is ONE else next(it) for d in a.shape])
            if a.filt and len(dims) == 1:
                return v if self.isarr(v) else self.ip.new(a)
            return self.view_of(v, a, dims, fn)
        # flatten / unflatten of 2-D
        if len(dims) == 1 and a.ndim == 2:
            if not self.ip.decide(eq(dims[0], self.size(a))):
                raise PRaise('ValueError')
            c = a.shape[1]
            r = self.view_of(v, a, dims, lambda i: a.at(floordiv(i, c), mod(i, c)))
            self.ip.heap[r.id].note = ('ravel', a.shape, lambda i, j: a.at(i, j))
            return r
        if len(dims) == 2 and a.ndim == 1:
            if not self.ip.decide(eq(dims[0] * dims[1], a.shape[0])):
                raise PRaise('ValueError')
            c = dims[1]
            if isinstance(a.note, tuple) and a.note and a.note[0] == 'ravel' and all(x is y for x, y in zip(a.note[1], dims)):
                return self.view_of(v, a, dims, a.note[2])
            return self.view_of(v, a, dims, lambda i, j: a.at(i * c + j))
        raise Unsupported('reshape')

    def view_of(self, v, a, shape, fn):
        r = ArrObj(tuple(shape), fn, a.dtype)
        if self.isarr(v) and not self.ip.heap[v.id].pylist:
            r.view = self.root_view(v, a)
        return self.ip.new(r)

    def f_ravel(self, v, **kw):
        opt(kw)
        a = self.getarr(v)
        if a.ndim == 1:
            return v if self.isarr(v) else self.ip.new(a.copy_as())
        if a.ndim == 0:
            return self.ip.new(ArrObj((ONE,), lambda i: a.at(), a.dtype))
        return self.f_reshape(v, Num(self.size(a), 'int'))

    def f_flatten(self, v, **kw):
        opt(kw)
        a = self.getarr(v)
        if a.ndim == 1:
            return self.ip.new(a.copy_as())
        r = self.f_ravel(v)
        return self.ip.new(self.getarr(r).copy_as())

    def f_squeeze(self, v, **kw):
        opt(kw)
        a = self.getarr(v)
        keep = []
        for k, d in enumerate(a.shape):
            if d is ONE or self.ip.decide(eq(d, ONE)):
                continue
            keep.append(k)
        if len(keep) == a.ndim:
            return v
        shape = [a.shape[k] for k in keep]

        def fn(*i):
            it = iter(i)
            return a.at(*[next(it) if k in keep else ZERO for k in range(a.ndim)])
        r = ArrObj(shape, fn, a.dtype)
        return self.ip.new(r)

    def f_transpose(self, v):
        return self.getattr(v, 'T')

    def f_conj(self, v):
        if isinstance(v, Num):
            if v.ty == 'c16':
                raise Unsupported('complex conj')
            return v
        if self.code(v) == 'c':
            raise Unsupported('complex conj')
        return self.ip.new(self.getarr(v).copy_as())

    f_conjugate = f_conj

    def f_real(self, v):
        if self.code(v) == 'c':
            if isinstance(v, Num):
                return Num(re_(v.t), 'f8', v.nan)
            a = self.getarr(v)

            def fn(*i):
                t, n = a.at(*i)
                return re_(t), n
            return self.ip.new(ArrObj(a.shape, fn, 'f'))
        return v

    # ----- elementwise functions -----------------------------------------------------------------------
    def _ew(self, f, *vs, dtype='f', checks=None):
        if all(isinstance(v, Num) for v in vs):
            xs = [(v.t, v.nan) for v in vs]
            if checks:
                checks(xs)
            t, n = f(xs)
            return Num(t, SC[dtype], n)
        return self.elementwise(f, list(vs), dtype, checks)

    def _fl(self, v):
        c = self.code(v)
        return 'c' if c == 'c' else 'f'

    def _nocomplex(self, *vs):
        for v in vs:
            if self.code(v) == 'c':
                raise Unsupported('complex function')

    def f_sqrt(self, v):
        if self.code(v) == 'c':
            return self._ew(lambda xs: (csqrt(xs[0][0]), xs[0][1]), v, dtype='c')
        return self._ew(lambda xs: (sqrt(lift(xs[0][0])), bor(xs[0][1], self.simp(lt(lift(xs[0][0]), ZERO)))), v)

    def simp(self, c):
        """c, or the part of c not decided by the path condition"""
        if c.op == 'and':
            out = []
            for x in c.args:
                x = self.simp(x)
                if x is FALSE:
                    return FALSE
                if x is not TRUE:
                    out.append(x)
            c = band(*out)
        d = solve.entails(self.ip.pc, c)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        return c

    def f_log(self, v):
        self._nocomplex(v)
        return self._ew(lambda xs: (log(lift(xs[0][0])), bor(xs[0][1], self.simp(lt(lift(xs[0][0]), ZERO)))), v,
                        checks=lambda xs: self.ip.oblige('log argument is non-zero', imp(bnot(xs[0][1]), bnot(eq0(lift(xs[0][0]))))))

    def _simple(self, f, v):
        self._nocomplex(v)
        return self._ew(lambda xs: (f(lift(xs[0][0])), xs[0][1]), v)

    def f_exp(self, v):
        if self.code(v) == 'c':
            return self._ew(lambda xs: (cexp(xs[0][0]), xs[0][1]), v, dtype='c')
        return self._simple(exp, v)

    def f_sin(self, v):
        return self._simple(sin, v)

    def f_cos(self, v):
        return self._simple(cos, v)

    def f_tan(self, v):
        return self._simple(lambda x: sin(x) / cos(x), v)

    def f_arctan(self, v):
        return self._simple(arctan, v)

    def f_floor(self, v):
        return self._simple(tfloor, v)

    def f_ceil(self, v):
        return self._simple(tceil, v)

    def f_square(self, v):
        return self.binop('Mult', v, v)

    def f_sign(self, v):
        dt = self.code(v)
        return self._ew(lambda xs: (sign(lift(xs[0][0])), xs[0][1]), v, dtype=dt)

    def f_arctan2(self, y, x):
        return self._ew(lambda xs: (uf('arctan2', lift(xs[0][0]), lift(xs[1][0]), sort='R'), bor(xs[0][1], xs[1][1])), y, x)

    def f_absolute(self, v):
        self._nocomplex(v)
        dt = self.code(v)
        return self._ew(lambda xs: (abs(lift(xs[0][0])), xs[0][1]), v, dtype='i' if dt == 'b' else dt)

    def f_around(self, v, decimals=None, **kw):
        opt(kw)
        d = decimals if decimals is not None else pyint(0)
        if not isinstance(d, Num):
            raise Unsupported('decimals')
        dt = self.code(v)
        return self._ew(lambda xs: (around(lift(xs[0][0]), d.arith()), xs[0][1]), v, dtype=dt)

    def f_isnan(self, v):
        if isinstance(v, str):
            raise PRaise('TypeError')
        return self._ew(lambda xs: (xs[0][1], FALSE), v, dtype='b')

    def f_isfinite(self, v):
        # +-inf is not part of the value domain
        return self._ew(lambda xs: (bnot(xs[0][1]), FALSE), v, dtype='b')

    def f_isinf(self, v):
        return self._ew(lambda xs: (FALSE, FALSE), v, dtype='b')

    def f_isreal(self, v):
        self._nocomplex(v)
        return self._ew(lambda xs: (TRUE, FALSE), v, dtype='b')

    def f_power(self, a, b):
        return self.npop('Pow', a, b)

    def npop(self, op, a, b):
        a = a if isinstance(a, Num) or self.isarr(a) and not self.ip.heap[a.id].pylist else self.f_asarray(a)
        b = b if isinstance(b, Num) or self.isarr(b) and not self.ip.heap[b.id].pylist else self.f_asarray(b)
        if isinstance(a, Num):
            a = Num(a.t, SC[TYCODE[a.ty]], a.nan)
        return self.binop(op, a, b)

    def f_add(self, a, b): return self.npop('Add', a, b)
    def f_subtract(self, a, b): return self.npop('Sub', a, b)
    def f_multiply(self, a, b): return self.npop('Mult', a, b)
    def f_divide(self, a, b): return self.npop('Div', a, b)
    def f_mod(self, a, b): return self.npop('Mod', a, b)
    def f_negative(self, a): return self.unop('USub', a)
    def f_greater(self, a, b): return self.npcmp('Gt', a, b)
    def f_less(self, a, b): return self.npcmp('Lt', a, b)
    def f_greater_equal(self, a, b): return self.npcmp('GtE', a, b)
    def f_less_equal(self, a, b): return self.npcmp('LtE', a, b)
    def f_equal(self, a, b): return self.npcmp('Eq', a, b)
    def f_not_equal(self, a, b): return self.npcmp('NotEq', a, b)

    def npcmp(self, op, a, b):
        return self._ew(lambda xs: (self.cmp(op, xs[0], xs[1]), FALSE), a, b, dtype='b')

    def _bools(self, f, *vs):
        b = lambda x: bor(x[0] if x[0].sort == 'B' else bnot(eq0(x[0])), x[1])
        return self._ew(lambda xs: (f(*[b(x) for x in xs]), FALSE), *vs, dtype='b')

    def f_logical_and(self, a, b): return self._bools(band, a, b)
    def f_logical_or(self, a, b): return self._bools(bor, a, b)
    def f_logical_not(self, a): return self._bools(bnot, a)

    def f_maximum(self, a, b):
        dt = join(self.code(a), self.code(b))
        return self._ew(lambda xs: (tmax(lift(xs[0][0]), lift(xs[1][0])), bor(xs[0][1], xs[1][1])), a, b, dtype=dt)

    def f_minimum(self, a, b):
        dt = join(self.code(a), self.code(b))
        return self._ew(lambda xs: (tmin(lift(xs[0][0]), lift(xs[1][0])), bor(xs[0][1], xs[1][1])), a, b, dtype=dt)

    def f_clip(self, v, lo, hi):
        r = v
        if lo is not None:
            r = self.f_maximum(r, lo)
        if hi is not None:
            r = self.f_minimum(r, hi)
        return r

    def f_nan_to_num(self, v, **kw):
        opt(kw, 'nan')
        x = kw.get('nan')
        z = x.t if x is not None else ZERO
        return self._ew(lambda xs: (ite(xs[0][1], z, lift(xs[0][0])), FALSE), v)

    # ----- reductions -------------------------------------------------------------------------------------
    def reduce1(self, a, f):
        """f(N, j, body, nanbody) over a 1-D (or flattened) array"""
        if a.ndim != 1:
            raise Unsupported('reduction rank')
        j = fresh('j', 'I')
        if a.filt:
            N, g, el = a.filt
            with self.assuming(le(ZERO, j), lt(j, N)):
                gj = g(j)
                with self.assuming(gj):
                    t, n = el(j)
            return f(N, j, lift(t), n, gj)
        with self.assuming(le(ZERO, j), lt(j, a.shape[0])):
            t, n = a.at(j)
            t = lift(t)
        return f(a.shape[0], j, t, n, TRUE)

    def axis_reduce(self, v, axis, red):
        """apply red(ArrObj 1-D)->Num along an axis"""
        a = self.getarr(v)
        if axis is None or a.ndim == 1:
            if axis is not None:
                k = axis.const() if isinstance(axis, Num) else None
                if k not in (0, -1):
                    raise PRaise('ValueError', 'axis')
            if a.ndim <= 1:
                return red(a if a.ndim == 1 else ArrObj((ONE,), lambda i: a.at(), a.dtype))
            raise Unsupported('full reduction of %d-D' % a.ndim)
        k = axis.const()
        if k is None or a.ndim != 2:
            raise Unsupported('axis')
        k = int(k) % 2
        x0 = red(ArrObj((a.shape[k],), lambda j: a.at(*( (j, ZERO) if k == 0 else (ZERO, j))), a.dtype))
        other = a.shape[1 - k]

        def fn(i):
            r = red(ArrObj((a.shape[k],), lambda j: a.at(*((j, i) if k == 0 else (i, j))), a.dtype))
            return (r.t, r.nan)
        return self.ip.new(ArrObj((other,), fn, TYCODE[x0.ty]))

    def anynan(self, N, j, n, g):
        if n is FALSE:
            return FALSE
        return exists(ZERO, N, j, band(g, n))

    def sum1(self, a):
        dt = 'i' if a.dtype == 'b' else a.dtype

        def f(N, j, t, n, g):
            return Num(mk_sum(ZERO, N, j, mul(ind(g), t)), SC[dt], self.anynan(N, j, n, g))
        return self.reduce1(a, f)

    def f_sum(self, v, axis=None, **kw):
        opt(kw)
        if isinstance(v, GenVal):
            return self.b_sum(v)
        a = self.getarr(v)
        if axis is None and a.ndim == 2:
            i, j = fresh('i', 'I'), fresh('j', 'I')
            with self.assuming(*self.ranges(a.shape, (i, j))):
                t, n = a.at(i, j)
            if n is not FALSE:
                raise Unsupported('nan 2-D sum')
            s = mk_sum(ZERO, a.shape[1], j, lift(t))
            return Num(mk_sum(ZERO, a.shape[0], i, s), SC['i' if a.dtype == 'b' else a.dtype])
        return self.axis_reduce(v, axis, self.sum1)

    def f_prod(self, v, **kw):
        opt(kw)
        a = self.getarr(v)
        def f(N, j, t, n, g):
            if N.op == 'num':
                r = ONE
                for k in range(int(N.args[0])):
                    r = r * subst(t, {j: num(k)})
                return Num(r, SC[a.dtype])
            return Num(pprod(j, t, N), SC[a.dtype])
        return self.reduce1(a, f)

    def mean1(self, a):
        s = self.sum1(a)
        n = a.shape[0]
        self.ip.oblige('mean of a non-empty array', lt(ZERO, n))
        return Num(s.t / n, 'c16' if a.dtype == 'c' else 'f8', s.nan)

    def f_mean(self, v, axis=None, **kw):
        opt(kw)
        a = self.getarr(v)
        if a.ndim == 2 and axis is None:
            return Num(self.f_sum(v).t / self.size(a), 'f8')
        return self.axis_reduce(v, axis, self.mean1)

    def f_average(self, v, axis=None, weights=None):
        if weights is not None:
            num_ = self.f_sum(self.binop('Mult', v, weights))
            return self.binop('Div', num_, self.f_sum(weights))
        return self.f_mean(v, axis)

    def var1(self, a, ddof=ZERO):
        m = self.mean1(a)
        n = a.shape[0]

        def f(N, j, t, nn, g):
            d = t - m.t
            return mk_sum(ZERO, N, j, mul(ind(g), d * d))
        s = self.reduce1(a, f)
        self.ip.oblige('degrees of freedom positive', lt(ZERO, n - ddof))
        r = s / (n - ddof)
        solve.KNOWN_NONNEG.add(r)
        self.ip.assume(le(ZERO, r)) if ddof is ZERO else None
        return Num(r, 'f8', m.nan)

    def f_var(self, v, axis=None, ddof=None, **kw):
        opt(kw)
        d = ddof.arith() if ddof is not None else ZERO
        return self.axis_reduce(v, axis, lambda a: self.var1(a, d))

    def f_std(self, v, axis=None, ddof=None, **kw):
        opt(kw)
        d = ddof.arith() if ddof is not None else ZERO

        def red(a):
            r = self.var1(a, d)
            return Num(sqrt(r.t), 'f8', r.nan)
        return self.axis_reduce(v, axis, red)

    def _nonan(self, v):
        a = self.getarr(v)
        ii = self.freshidx(a.shape)
        with self.assuming(*self.ranges(a.shape, ii)):
            n = a.at(*ii)[1]
            if n is not FALSE and solve.entails(self.ip.pc, n) is not False:
                raise Unsupported('nan-aware reduction with NaN')
        return a

    def f_nanmean(self, v, **kw):
        opt(kw)
        a = self.getarr(v)
        if a.ndim == 1 and a.shape[0].op == 'num':
            xs = [a.at(num(k)) for k in range(int(a.shape[0].args[0]))]
            c = addn([ind(bnot(n)) for t, n in xs])
            s = addn([mul(ind(bnot(n)), t) for t, n in xs])
            alln = band(*[n for t, n in xs])
            return Num(s / c if c.op == 'num' and c is not ZERO else s * inv(c) if c is not ZERO else ZERO, 'f8', alln)
        ii = self.freshidx(a.shape)
        with self.assuming(*self.ranges(a.shape, ii)):
            t, n = a.at(*ii)
        if n is FALSE:
            return self.f_mean(v)
        return self.f_mean(self.mask_get(a, ArrObj(a.shape, lambda i: (bnot(a.at(i)[1]), FALSE), 'b')))

    def f_nansum(self, v, **kw):
        self._nonan(v)
        return self.f_sum(v, **kw)

    def f_nanstd(self, v, **kw):
        self._nonan(v)
        return self.f_std(v, **kw)

    def f_nanvar(self, v, **kw):
        self._nonan(v)
        return self.f_var(v, **kw)

    def f_nanmedian(self, v, **kw):
        self._nonan(v)
        return self.f_median(v, **kw)

    def f_median(self, v, **kw):
        opt(kw)
        a = self.getarr(v)

        def f(N, j, t, n, g):
            if g is not TRUE:
                raise Unsupported('median of filtered array')
            self.ip.oblige('median of a non-empty array', lt(ZERO, N))
            return Num(uf('median', lam([j], t), N, sort='R'), 'f8', self.anynan(N, j, n, g))
        return self.reduce1(a, f)

    def ext1(self, kind):
        def red(a):
            if not self.ip.decide(lt(ZERO, a.shape[0])):
                raise PRaise('ValueError', 'zero-size array to reduction')
            def f(N, j, t, n, g):
                if g is not TRUE:
                    raise Unsupported('extremum of filtered array')
                return Num(extremum(kind, ZERO, N, j, t), SC[a.dtype], self.anynan(N, j, n, g))
            return self.reduce1(a, f)
        return red

    def f_amin(self, v, axis=None, **kw):
        opt(kw)
        return self.axis_reduce(v, axis, self.ext1('amin'))

    def f_amax(self, v, axis=None, **kw):
        opt(kw)
        a = self.getarr(v)
        if axis is None and a.ndim == 2:
            return Num(uf('max2', self.max2(a, 'amax'), *a.shape, sort='R'), SC[a.dtype])
        return self.axis_reduce(v, axis, self.ext1('amax'))

    def f_ptp(self, v):
        return self.binop('Sub', self.f_amax(v), self.f_amin(v))

    def _arg(self, v, kind):
        a = self.getarr(v)
        if a.ndim == 2 and kind == 'amax':
            return Num(uf('argmax2', self.max2(a, kind), *a.shape, sort='I'), 'i8')
        if not self.ip.decide(lt(ZERO, a.shape[0])):
            raise PRaise('ValueError')

        def f(N, j, t, n, g):
            if g is not TRUE or n is not FALSE:
                raise Unsupported('arg extremum')
            m = extremum(kind, ZERO, N, j, t)
            return Num(first(ZERO, N, j, eq(t, m)), 'i8')
        return self.reduce1(a, f)

    def f_argmin(self, v):
        return self._arg(v, 'amin')

    def f_argmax(self, v):
        return self._arg(v, 'amax')

    def _q(self, v, isall):
        a = self.getarr(v)
        if a.ndim == 0:
            t, n = a.at()
            return Num(bor(t if t.sort == 'B' else bnot(eq0(t)), n), 'b1')
        ii = self.freshidx(a.shape)
        if a.filt:
            N, g, el = a.filt
            j = ii[0]
            with self.assuming(le(ZERO, j), lt(j, N)):
                t, n = el(j)
                b = bor(t if t.sort == 'B' else bnot(eq0(t)), n)
                gj = g(j)
            return Num(forall(ZERO, N, j, imp(gj, b)) if isall else exists(ZERO, N, j, band(gj, b)), 'b1')
        with self.assuming(*self.ranges(a.shape, ii)):
            t, n = a.at(*ii)
            b = bor(t if t.sort == 'B' else bnot(eq0(t)), n)
        for j, d in list(zip(ii, a.shape))[::-1]:
            b = forall(ZERO, d, j, b) if isall else exists(ZERO, d, j, b)
        return Num(b, 'b1')

    def f_any(self, v, **kw):
        opt(kw)
        return self._q(v, False)

    def f_all(self, v, **kw):
        opt(kw)
        return self._q(v, True)

    def f_count_nonzero(self, v):
        a = self.getarr(v)

        def f(N, j, t, n, g):
            return Num(mk_sum(ZERO, N, j, ind(band(g, bnot(eq0(t))))), 'int')
        return self.reduce1(a, f)

    def f_cumsum(self, v):
        a = self.getarr(v)
        if a.ndim != 1:
            raise Unsupported('cumsum rank')

        def fn(k):
            j = fresh('j', 'I')
            with self.assuming(le(ZERO, j), le(j, k)):
                t, n = a.at(j)
            if n is not FALSE:
                raise Unsupported('nan cumsum')
            return (mk_sum(ZERO, k + 1, j, lift(t)), FALSE)
        return self.ip.new(ArrObj(a.shape, fn, 'i' if a.dtype == 'b' else a.dtype))

    # ----- index arrays ---------------------------------------------------------------------------------
    def f_where(self, c, *xy):
        if not xy:
            return self.f_nonzero(c)
        x, y = xy
        dt = join(self.code(x), self.code(y))
        def f(xs):
            (c_, cn), (a, na), (b, nb) = xs
            cc = bor(c_ if c_.sort == 'B' else bnot(eq0(c_)), cn)
            a = self.cast_term(a, self.code(x), dt)
            b = self.cast_term(b, self.code(y), dt)
            return (ite(cc, a, b), bite(cc, na, nb))
        if all(isinstance(z, Num) for z in (c, x, y)):
            t, n = f([(z.t, z.nan) for z in (c, x, y)])
            return self.ip.new(ArrObj((), lambda: (t, n), dt))
        return self.elementwise(f, [c, x, y], dt)

    def f_nonzero(self, v):
        a = self.getarr(v)
        if a.ndim == 1:
            return (self.ip.new(self._nz(a)),)
        if a.ndim == 2 and (a.shape[0] is ONE):
            row = ArrObj((a.shape[1],), lambda i: a.at(ZERO, i), a.dtype)
            r = self._nz(row)
            N, g, _ = r.filt
            return (self.ip.new(self.filt_arr(N, g, lambda i: (ZERO, FALSE), 'i')), self.ip.new(r))
        if a.ndim == 2:
            return self.nonzero2(a)
        raise Unsupported('nonzero of %d-D' % a.ndim)

    def _nz(self, a):
        b = lambda x: bor(x[0] if x[0].sort == 'B' else bnot(eq0(x[0])), x[1])
        if a.filt:
            return self._nz_filt(a)
        return self.idxset(a.shape[0], lambda i: b(a.at(i)))

    def _nz_filt(self, a):
        raise Unsupported('nonzero of a filtered array')

    def f_flatnonzero(self, v):
        a = self.getarr(v)
        if a.ndim != 1:
            raise Unsupported('flatnonzero rank')
        return self.ip.new(self._nz(a))

    def f_argwhere(self, v):
        a = self._nz(self.getarr(v))
        return self.ip.new(ArrObj((a.shape[0], ONE), lambda k, z: a.at(k), 'i', note=('argwhere', a)))

    def idxarr(self, v):
        a = self.getarr(v)
        if a.filt and a.identity:
            return a
        if a.note and isinstance(a.note, tuple) and a.note[0] == 'concat':
            return None
        return None

    def setparts(self, v):
        """list of identity index sets whose union (as a set) is v, or None"""
        a = self.getarr(v)
        if a.filt and a.identity:
            return [a]
        if isinstance(a.note, tuple) and a.note[0] == 'concat':
            return a.note[1]
        if a.ndim == 1 and a.shape[0] is ZERO:
            return []
        return None

    def union(self, parts):
        N = parts[0].filt[0]
        for p in parts[1:]:
            n2 = p.filt[0]
            if n2 is not N and solve.entails(self.ip.pc, eq(N, n2)) is not True:
                N2 = n2
                if self.ip.decide(le(N, N2)):
                    N = N2
        gs = []
        for p in parts:
            n2, g, _ = p.filt
            if n2 is N:
                gs.append(g)
            else:
                gs.append(lambda i, g=g, n2=n2: band(lt(i, n2), g(i)))
        return self.idxset(N, lambda i: bor(*[g(i) for g in gs]))

    def f_unique(self, v, return_counts=None, **kw):
        opt(kw)
        ps = self.setparts(v)
        if return_counts is not None:
            return self.unique_counts(v)
        if ps is None:
            raise Unsupported('unique')
        if not ps:
            return v
        return self.ip.new(self.union(ps))

    def unique_counts(self, v):
        a = self.getarr(v)
        j = fresh('j', 'I')
        if a.ndim != 1 or a.filt:
            raise Unsupported('unique counts')
        with self.assuming(le(ZERO, j), lt(j, a.shape[0])):
            t, n = a.at(j)
        if n is not FALSE:
            raise Unsupported('nan unique')
        n = a.shape[0]
        l = lam([j], lift(t))
        m = uf('nuniq', l, n, sort='I')
        self.ip.assume(le(ZERO, m))
        self.ip.assume(le(m, n))
        self.ip.assume(imp(lt(ZERO, n), lt(ZERO, m)))
        srt = 'I' if a.dtype == 'i' else 'R'
        vals = ArrObj((m,), lambda k: (uf('uniq', l, n, k, sort=srt), FALSE), a.dtype)

        def cnt(k):
            jj = fresh('j', 'I')
            return (mk_sum(ZERO, n, jj, ind(eq(apply(l, jj), uf('uniq', l, n, k, sort=srt)))), FALSE)
        counts = ArrObj((m,), cnt, 'i')
        return (self.ip.new(vals), self.ip.new(counts))

    def f_sort(self, v, **kw):
        opt(kw)
        ps = self.setparts(v)
        if ps is not None and len(ps) == 1:
            return self.ip.new(ps[0].copy_as())
        if ps is not None and len(ps) > 1:
            # concatenation of disjoint sets sorts to their union
            for x in range(len(ps)):
                for y in range(x):
                    j = fresh('j', 'I')
                    r = solve.prove(self.ip.pc + [le(ZERO, j), lt(j, ps[x].filt[0])], bnot(band(ps[x].filt[1](j), ps[y].filt[1](j))), 3000)
                    if r.status != 'proved':
                        raise Unsupported('sort of overlapping sets')
            return self.ip.new(self.union(ps))
        if ps == []:
            return v
        raise Unsupported('sort')

    def f_intersect1d(self, a, b, **kw):
        opt(kw, 'assume_unique')
        x, y = self.setparts(a), self.setparts(b)
        if x is None or y is None:
            raise Unsupported('intersect1d')
        if not x or not y:
            raise Unsupported('intersect1d of empty')
        x, y = self.union(x), self.union(y)
        N = x.filt[0]
        gy = y.filt[1]
        if y.filt[0] is not N:
            n2 = y.filt[0]
            g0 = y.filt[1]
            gy = lambda i: band(lt(i, n2), g0(i))
        return self.ip.new(self.idxset(N, lambda i: band(x.filt[1](i), gy(i))))

    def f_union1d(self, a, b):
        x, y = self.setparts(a), self.setparts(b)
        if x is None or y is None or not (x + y):
            raise Unsupported('union1d')
        return self.ip.new(self.union(x + y))

    def f_setdiff1d(self, a, b, **kw):
        opt(kw, 'assume_unique')
        x, y = self.setparts(a), self.setparts(b)
        if not x or y is None:
            raise Unsupported('setdiff1d')
        x = self.union(x)
        if not y:
            return self.ip.new(x)
        y = self.union(y)
        n2 = y.filt[0]
        return self.ip.new(self.idxset(x.filt[0], lambda i: band(x.filt[1](i), bnot(band(y.filt[1](i), lt(i, n2) if n2 is not x.filt[0] else TRUE)))))

    def f_concatenate(self, vs, axis=None, **kw):
        opt(kw)
        ip = self.ip
        items = self.unpack(vs, None)
        arrs = []
        flat = 'axis_none' if (axis is None and False) else None
        for x in items:
            if isinstance(x, tuple) and len(x) == 1 and self.isarr(x[0]):
                arrs.append(('wrapped', self.getarr(x[0])))
            else:
                arrs.append(('plain', self.getarr(x)))
        return self._concat([a for _, a in arrs], any(k == 'wrapped' for k, _ in arrs), axis)

    def _concat(self, arrs, wrapped, axis):
        ip = self.ip
        if any(a.ndim == 0 for a in arrs):
            raise PRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
        ax = None if axis is None else axis.const()
        if not all(a.ndim == 1 for a in arrs):
            if all(a.ndim == 2 for a in arrs) and ax in (0, None):
                return self._vcat(arrs)
            raise Unsupported('concatenate rank')
        dt = arrs[0].dtype
        for a in arrs[1:]:
            dt = join(dt, a.dtype)
        total = addn([a.shape[0] for a in arrs])

        def fn(i):
            offs = []
            o = ZERO
            for a in arrs:
                offs.append(o)
                o = o + a.shape[0]
            # choose the segment
            r = None
            for k in range(len(arrs) - 1, -1, -1):
                a = arrs[k]
                if r is None:
                    t, n = a.at(i - offs[k])
                    r = (self.cast_term(t, a.dtype, dt), n)
                else:
                    c = lt(i, offs[k] + a.shape[0])
                    d = solve.entails(ip.pc, c) if _term.CTX[0] is not None else None
                    if d is False:
                        continue
                    t, n = a.at(i - offs[k])
                    t = self.cast_term(t, a.dtype, dt)
                    if d is True:
                        r = (t, n)
                    else:
                        r = (ite(c, t, r[0]), bite(c, n, r[1]))
            return r
        res = ArrObj((total,), fn, dt)
        parts = []
        for a in arrs:
            p = [a] if (a.filt and a.identity) else (a.note[1] if isinstance(a.note, tuple) and a.note[0] == 'concat' else ([] if a.shape[0] is ZERO else None))
            if p is None:
                parts = None
                break
            parts.extend(p)
        if parts:
            res.note = ('concat', parts)
            if len(parts) == 1 and len(arrs) == 1:
                res = parts[0].copy_as()
        return ip.new(res)

    def _vcat(self, arrs):
        w = arrs[0].shape[1]
        for a in arrs[1:]:
            if not self.ip.decide(eq(a.shape[1], w)):
                raise PRaise('ValueError')
        rows = addn([a.shape[0] for a in arrs])

        def fn(i, j):
            o = ZERO
            offs = []
            for a in arrs:
                offs.append(o)
                o = o + a.shape[0]
            r = arrs[-1].at(i - offs[-1], j)
            for k in range(len(arrs) - 2, -1, -1):
                t, n = arrs[k].at(i - offs[k], j)
                c = lt(i, offs[k] + arrs[k].shape[0])
                r = (cite(c, t, r[0]), bite(c, n, r[1]))
            return r
        dt = arrs[0].dtype
        for a in arrs[1:]:
            dt = join(dt, a.dtype)
        return self.ip.new(ArrObj((rows, w), fn, dt, note=('vcat', arrs)))

    def f_vstack(self, vs):
        items = [self.getarr(x) for x in self.unpack(vs, None)]
        items = [a if a.ndim == 2 else ArrObj((ONE,) + a.shape, lambda i, j, a=a: a.at(j), a.dtype, note=a.note) for a in items]
        return self._vcat(items)

    def f_hstack(self, vs):
        items = [self.getarr(x) for x in self.unpack(vs, None)]
        return self._concat([a if a.ndim else ArrObj((ONE,), lambda i, a=a: a.at(), a.dtype) for a in items], False, None)

    def f_append(self, a, b, **kw):
        opt(kw)
        if isinstance(a, Ref):
            o = self.ip.heap[a.id]
            if isinstance(o, SeqList):
                if isinstance(b, Num):
                    return self.ip.new(SeqList(o.key, o.base, o.appended + (Num(b.t, 'f8' if not b.isint else b.ty, b.nan),)))
                raise Unsupported('append')
        x, y = self.getarr(a), self.getarr(b)
        fl = lambda z: z if z.ndim == 1 else ArrObj((ONE,), lambda i: z.at(), z.dtype) if z.ndim == 0 else self.getarr(self.f_ravel(self.ip.new(z)))
        return self._concat([fl(x), fl(y)], False, None)

    def f_insert(self, a, pos, v, **kw):
        opt(kw)
        x = self.getarr(a)
        if pos.const() != 0 or not isinstance(v, Num) or x.ndim != 1:
            raise Unsupported('insert')
        head = ArrObj((ONE,), lambda i: (self.cast_term(v.t, TYCODE[v.ty], x.dtype), v.nan), x.dtype)
        return self._concat([head, x], False, None)

    def f_delete(self, a, pos, **kw):
        opt(kw)
        x = self.getarr(a)
        if not isinstance(pos, Num) or x.ndim != 1:
            raise Unsupported('delete')
        p = self.norm_index(pos, x.shape[0])

        def fn(i):
            c = lt(i, p)
            t1, n1 = x.at(i)
            t2, n2 = x.at(i + 1)
            return (cite(c, t1, t2), bite(self.simp(c), n1, n2))
        return self.ip.new(ArrObj((x.shape[0] - 1,), fn, x.dtype))

    def f_diff(self, v, n=None, **kw):
        opt(kw)
        if n is not None and n.const() != 1:
            raise Unsupported('diff order')
        a = self.getarr(v)
        if a.ndim != 1:
            raise Unsupported('diff rank')
        n = a.shape[0]
        ln = (n - 1) if self.ip.decide(lt(ZERO, n)) else ZERO

        def fn(i):
            t1, n1 = a.at(i + 1)
            t0, n0 = a.at(i)
            if a.dtype == 'b':
                return (bnot(iff(t1, t0)), FALSE)
            return (t1 - t0, bor(n1, n0))
        r = ArrObj((ln,), fn, a.dtype)
        if a.filt and a.identity:
            r.note = ('setdiff', a)
        return self.ip.new(r)

    def f_ediff1d(self, v, **kw):
        opt(kw)
        return self.f_diff(v)

    def f_gradient(self, v, **kw):
        opt(kw)
        a = self.getarr(v)
        if a.ndim != 1:
            raise Unsupported('gradient rank')
        n = a.shape[0]
        if not self.ip.decide(le(num(2), n)):
            raise PRaise('ValueError', 'shape too small for gradient')

        def fn(i):
            def val(k):
                t, nn = k
                return lift(t), nn
            inner = lambda: ((lift(a.at(i + 1)[0]) - lift(a.at(i - 1)[0])) / 2, bor(a.at(i + 1)[1], a.at(i - 1)[1]))
            c0 = self.simp(eq(i, ZERO))
            c1 = self.simp(eq(i, n - 1))
            lo = (lift(a.at(ONE)[0]) - lift(a.at(ZERO)[0]), bor(a.at(ONE)[1], a.at(ZERO)[1]))
            hi = (lift(a.at(n - 1)[0]) - lift(a.at(n - 2)[0]), bor(a.at(n - 1)[1], a.at(n - 2)[1]))
            if c0 is TRUE:
                return lo
            if c1 is TRUE:
                return hi
            mid = inner()
            return (ite(c0, lo[0], ite(c1, hi[0], mid[0])), bite(c0, lo[1], bite(c1, hi[1], mid[1])))
        return self.ip.new(ArrObj((n,), fn, 'f'))

    def f_tile(self, v, reps):
        a = self.getarr(v)
        if isinstance(reps, tuple) and len(reps) == 2 and reps[1].const() == 1 and a.ndim == 1:
            return self.ip.new(ArrObj((reps[0].arith(), a.shape[0]), lambda i, j: a.at(j), a.dtype))
        if isinstance(reps, tuple) and len(reps) == 2 and reps[0].const() == 1 and a.ndim == 2 and a.shape[1] is ONE:
            return self.ip.new(ArrObj((a.shape[0], reps[1].arith()), lambda i, j: a.at(i, ZERO), a.dtype))
        raise Unsupported('tile')

    def f_repeat(self, v, n, **kw):
        opt(kw)
        a = self.getarr(v)
        if a.ndim == 0 or a.shape[0] is ONE:
            return self.ip.new(ArrObj((n.arith(),), lambda i: a.at(*[ZERO] * a.ndim), a.dtype))
        raise Unsupported('repeat')

    def f_outer(self, a, b):
        x, y = self.getarr(a), self.getarr(b)
        return self.ip.new(ArrObj((x.shape[0], y.shape[0]), lambda i, j: (x.at(i)[0] * y.at(j)[0], FALSE), join(x.dtype, y.dtype)))

    # ----- linear algebra ----------------------------------------------------------------------------------
    def f_dot(self, a, b):
        if isinstance(a, Num) or isinstance(b, Num) or self.getarr(a).ndim == 0 or self.getarr(b).ndim == 0:
            return self.npop('Mult', a, b)
        return self.matmul(a, b)

    def f_matmul(self, a, b):
        return self.matmul(a, b)

    def matmul(self, a, b):
        ip = self.ip
        x, y = self.getarr(a), self.getarr(b)
        if x.ndim == 0 or y.ndim == 0:
            raise PRaise('ValueError')
        dt = join(x.dtype, y.dtype)
        inner = x.shape[-1]
        other = y.shape[0]
        if inner is not other and not ip.decide(eq(inner, other)):
            raise PRaise('ValueError', 'shapes not aligned')

        def prodsum(fx, fy):
            if isinstance(inner, T) and x.filt is None and y.filt is None and False:
                pass
            j = fresh('j', 'I')
            with self.assuming(le(ZERO, j), lt(j, inner)):
                t1, n1 = fx(j)
                t2, n2 = fy(j)
                if n1 is not FALSE or n2 is not FALSE:
                    n1, n2 = self.simp(n1), self.simp(n2)
            if n1 is not FALSE or n2 is not FALSE:
                raise Unsupported('nan matmul')
            return (self.sum_enum(inner, j, lift(t1) * lift(t2)), FALSE)
        if x.ndim == 2 and y.ndim == 2:
            return ip.new(ArrObj((x.shape[0], y.shape[1]), lambda i, k: prodsum(lambda j: x.at(i, j), lambda j: y.at(j, k)), dt))
        if x.ndim == 1 and y.ndim == 1:
            t, n = prodsum(lambda j: x.at(j), lambda j: y.at(j))
            return Num(t, SC[dt], n)
        if x.ndim == 2 and y.ndim == 1:
            return ip.new(ArrObj((x.shape[0],), lambda i: prodsum(lambda j: x.at(i, j), lambda j: y.at(j)), dt))
        if x.ndim == 1 and y.ndim == 2:
            return ip.new(ArrObj((y.shape[1],), lambda k: prodsum(lambda j: x.at(j), lambda j: y.at(j, k)), dt))
        raise Unsupported('matmul rank')

    def l_inv(self, a):
        o = self.getarr(a)
        if o.ndim != 2:
            raise PRaise('LinAlgError')
        if not (o.shape[0] is ONE and o.shape[1] is ONE):
            raise Unsupported('inverse of a general matrix')
        t, n = o.at(ZERO, ZERO)
        if self.ip.decide(eq0(lift(t))):
            raise PRaise('LinAlgError', 'singular')
        return self.ip.new(ArrObj((ONE, ONE), lambda i, j: (ONE / lift(t), n), 'f'))

    def l_norm(self, v, **kw):
        opt(kw)
        a = self.getarr(v)

        def f(N, j, t, n, g):
            s = mk_sum(ZERO, N, j, mul(ind(g), t * t))
            solve.KNOWN_NONNEG.add(s)
            return Num(sqrt(s), 'f8', self.anynan(N, j, n, g))
        return self.reduce1(a, f)

    def l_eigh(self, m):
        a = self.getarr(m)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        with self.assuming(*self.ranges(a.shape, (i, j))):
            t, n = a.at(i, j)
        l = lam([i, j], lift(t))
        k = a.shape[0]
        return (self.ip.new(ArrObj((k,), lambda x: (uf('eigval', l, k, x, sort='R'), FALSE), 'f')),
                self.ip.new(ArrObj((k, k), lambda x, y: (uf('eigvec', l, k, x, y, sort='R'), FALSE), 'f')))

    # ----- math module -------------------------------------------------------------------------------------
    def m_sqrt(self, v):
        if self.ip.decide(lt(v.arith(), ZERO)):
            raise PRaise('ValueError')
        return Num(sqrt(v.arith()), 'float', v.nan)

    def m_log(self, v):
        if self.ip.decide(le(v.arith(), ZERO)):
            raise PRaise('ValueError')
        return Num(log(v.arith()), 'float', v.nan)

    def m_erf(self, v):
        return Num(erf(v.arith()), 'float', v.nan)

    def m_erfc(self, v):
        return Num(erfc(v.arith()), 'float', v.nan)

    def m_exp(self, v): return Num(exp(v.arith()), 'float', v.nan)
    def m_sin(self, v): return Num(sin(v.arith()), 'float', v.nan)
    def m_cos(self, v): return Num(cos(v.arith()), 'float', v.nan)
    def m_atan(self, v): return Num(arctan(v.arith()), 'float', v.nan)
    def m_atan2(self, y, x): return Num(uf('arctan2', y.arith(), x.arith(), sort='R'), 'float')
    def m_floor(self, v): return Num(tfloor(v.arith()), 'int')
    def m_ceil(self, v): return Num(tceil(v.arith()), 'int')
    def m_fabs(self, v): return Num(abs(v.arith()), 'float', v.nan)
    def m_isnan(self, v): return Num(v.nan, 'bool')
    def m_fsum(self, v): return self.b_sum(v)

    def m_isfinite(self, v): return Num(bnot(v.nan), 'bool')

    def m_pow(self, a, b): return self.binop('Pow', a, b)

    # ----- masked arrays (used on scalars only) ---------------------------------------------------------
    def ma_sqrt(self, v):
        if isinstance(v, Num):
            if self.ip.decide(lt(v.arith(), ZERO)):
                raise Unsupported('masked')
            return Num(sqrt(v.arith()), 'f8', v.nan)
        raise Unsupported('masked')

    def ma_power(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            self.check_arith('Pow', (a.t, a.nan), (b.t, b.nan))
            if self.ip.decide(lt(a.arith(), ZERO)):
                raise Unsupported('masked power of a negative base')
            return Num(power(a.arith(), b.arith()), 'f8', a.nan)
        raise Unsupported('masked')

    # ----- unknown functions ----------------------------------------------------------------------------
    def call_symfn(self, f, args, kw):
        if kw:
            raise Unsupported('keyword call of unknown function')
        ts = []
        for a in args:
            if not isinstance(a, Num):
                raise Unsupported('argument of unknown function')
            ts.append(lift(a.t) if a.t.sort != 'R' else a.t)
        t = uf(f.name, *ts, sort='R')
        g = self.ip.ghosts.get(f.name)
        if g is not None:
            o = self.ip.heap[g]
            self.ip.heap[g] = Ghost(o.n + 1, t if o.best is None else tmin(o.best, t))
        return Num(t, f.retty)

    def inst_method(self, recv, o, name, args, kw):
        m = getattr(self, 'o_%s_%s' % (o.cls, name), None)
        if m is None:
            raise Unsupported('%s.%s' % (o.cls, name))
        return m(recv, o, *args, **kw)

    def call_inst(self, f, args, kw):
        o = self.ip.heap[f.id]
        return self.inst_method(f, o, 'call', args, kw)

    # scikit-learn polynomial regression and scipy cubic interpolation: unknown pure functions of their data
    def x_sklearn_preprocessing_PolynomialFeatures(self, degree=None, **kw):
        opt(kw)
        return self.ip.new(InstObj('polyf', {'degree': degree}))

    def o_polyf_fit_transform(self, recv, o, x):
        return self.ip.new(InstObj('polydata', {'x': x, 'degree': o.attrs['degree']}))

    o_polyf_transform = o_polyf_fit_transform

    def o_polyf_fit(self, recv, o, x):
        return recv

    def x_sklearn_linear_model_LinearRegression(self, **kw):
        opt(kw)
        return self.ip.new(InstObj('linreg', {}))

    def o_linreg_fit(self, recv, o, x, y):
        self.ip.setobj(recv, InstObj('linreg', {'X': x, 'Y': y}))
        return recv

    def lam1(self, v):
        a = self.getarr(v)
        if a.ndim == 2 and a.shape[1] is ONE:
            b = a
            a = ArrObj((b.shape[0],), lambda i: b.at(i, ZERO), b.dtype)
        if a.ndim == 0:
            b0 = a
            a = ArrObj((ONE,), lambda i: b0.at(), b0.dtype)
        if a.ndim != 1 or a.filt:
            raise Unsupported('function data')
        j = fresh('j', 'I')
        with self.assuming(le(ZERO, j), lt(j, a.shape[0])):
            t, n = a.at(j)
            n = self.simp(n)
            if n is not FALSE and solve.entails(self.ip.pc, bnot(n)) is True:
                n = FALSE
        if n is not FALSE:
            raise Unsupported('NaN in function data')
        return lam([j], lift(t)), a.shape[0], a

    def o_linreg_predict(self, recv, o, z):
        ip = self.ip
        X, Z = ip.heap[o.attrs['X'].id], ip.heap[z.id]
        if not isinstance(X, InstObj) or not isinstance(Z, InstObj):
            raise Unsupported('regression on other features')
        lx, n, _ = self.lam1(X.attrs['x'])
        ly, n2, _ = self.lam1(o.attrs['Y'])
        if not ip.decide(eq(n, n2)):
            raise PRaise('ValueError')
        if not ip.decide(lt(ZERO, n)):
            raise PRaise('ValueError')
        lz, m, za = self.lam1(Z.attrs['x'])
        deg, deg2 = X.attrs['degree'].arith(), Z.attrs['degree'].arith()
        if not ip.decide(eq(deg, deg2)):
            raise PRaise('ValueError')
        return ip.new(ArrObj((m,), lambda i: (uf('olsfit', lx, ly, n, deg, lift(za.at(i)[0]), sort='R'), FALSE), 'f'))

    def x_scipy_interpolate_interp1d(self, x, y, kind=None, **kw):
        opt(kw)
        return self.ip.new(InstObj('interp', {'x': x, 'y': y, 'kind': kind}))

    def o_interp_call(self, recv, o, z):
        lx, n, _ = self.lam1(o.attrs['x'])
        ly, n2, _ = self.lam1(o.attrs['y'])
        if not self.ip.decide(eq(n, n2)):
            raise PRaise('ValueError')
        t = uf('spline', lx, ly, n, o.attrs['kind'].arith(), z.arith(), sort='R')
        return self.ip.new(ArrObj((), lambda: (t, FALSE), 'f'))

    # scipy spectra: unknown pure functions of the samples, the window and the settings
    def x_scipy_signal_windows_hann(self, M, sym=True, **kw):
        opt(kw)
        if not isinstance(M, Num) or not M.isint:
            raise Unsupported('window length')
        if not self.ip.decide(lt(ONE, M.t)):
            raise Unsupported('window of length one')
        d = M.t - (1 if sym is True or self.ip.truth(sym) else 0)
        return self.ip.new(ArrObj((M.t,), lambda i: (num(Fraction(1, 2)) - cos(2 * PI * i / d) / 2, FALSE), 'f'))

    def x_scipy_signal_welch(self, x, fs=None, window=None, nperseg=None, noverlap=None, nfft=None, return_onesided=True, **kw):
        opt(kw)
        ip = self.ip
        if nperseg is not None or not isinstance(window, Ref) or not isinstance(noverlap, Num) or not noverlap.isint \
                or not isinstance(nfft, Num) or not nfft.isint or not isinstance(fs, Num):
            raise Unsupported('welch with these settings')
        one = return_onesided if isinstance(return_onesided, bool) else ip.truth(return_onesided)
        lx, n, xa = self.lam1(x)
        lw, m, _ = self.lam1(window)
        N, o = nfft.t, noverlap.t
        if not ip.decide(band(le(m, n), le(m, N), lt(o, m), le(ZERO, o), lt(ZERO, m))):
            raise Unsupported('welch on other sizes')
        L = trunc(div(N, num(2))) + 1 if one else N
        f = lambda i: (i * fs.arith() / N if one else ite(le(2 * i, N - 1), i, i - N) * fs.arith() / N, FALSE)
        p = lambda i: (uf('welch', lx, n, lw, m, fs.arith(), o, N, num(int(one)), i, sort='R'), FALSE)
        return (ip.new(ArrObj((L,), f, 'f')), ip.new(ArrObj((L,), p, 'f')))


EXCNAMES = {'ValueError', 'TypeError', 'IndexError', 'KeyError', 'ZeroDivisionError', 'AssertionError', 'Exception',
            'NotImplementedError', 'RuntimeError', 'AttributeError', 'LookupError', 'ArithmeticError', 'OverflowError',
            'LinAlgError', 'StopIteration', 'NameError'}

solve.LEN_OF['median'] = lambda s, vs: [le(ZERO, vs[0]), lt(vs[0], s.args[2])]
solve.LEN_OF['nuniq'] = solve.LEN_OF['median']
solve.LEN_OF['uniq'] = solve.LEN_OF['median']
solve.LEN_OF['enum'] = solve.LEN_OF['median']
solve.LEN_OF['olsfit'] = lambda s, vs: [le(ZERO, vs[0]), lt(vs[0], s.args[3])]
solve.LEN_OF['welch'] = lambda s, vs: []
solve.LEN_OF['spline'] = lambda s, vs: [le(ZERO, vs[0]), lt(vs[0], s.args[3])]
solve.LEN_OF['eigvec'] = lambda s, vs: [c for v in vs for c in (le(ZERO, v), lt(v, s.args[2]))]
solve.LEN_OF['eigval'] = solve.LEN_OF['eigvec']


def _enum_facts(s):
    _, l, N, k = s.args
    j = fresh('j', 'I')
    cnt = mk_sum(ZERO, N, j, ind(apply(l, j)))
    rank = mk_sum(ZERO, s, j, ind(apply(l, j)))
    g = band(le(ZERO, k), lt(k, cnt), le(ZERO, N))
    out = [imp(g, band(le(ZERO, s), lt(s, N), apply(l, s), eq(rank, k)))]
    # neighbours in the enumeration: k = number of selected positions before t, plus d
    P = lambda x: apply(l, x)
    for p in [x for m in pdict(k) for x, e in m if x.op == 'uf' and x.args[0] == 'psum']:
        d, t = k - p, p.args[2]
        if d.op != 'num' or p.args[1] is not lam([j], ind(apply(l, j))):
            continue
        d = d.args[0]
        if d == 0:
            out.append(imp(band(le(ZERO, t), lt(t, N), P(t)), eq(s, t)))
        elif d == -1:
            out.append(imp(band(lt(ZERO, t), le(t, N), P(t - 1)), band(eq(s, t - 1), le(ZERO, k))))
            out.append(imp(band(le(ZERO, t), le(t, N), le(ZERO, k)), lt(s, t)))
        elif d == 1:
            out.append(imp(band(le(ZERO, t), lt(t + 1, N), P(t), P(t + 1)), band(eq(s, t + 1), lt(k, cnt))))
            out.append(imp(band(le(ZERO, t), lt(t, N), P(t), lt(k, cnt)), lt(t, s)))
    return out


solve.SYMBOLS['enum'] = _enum_facts
