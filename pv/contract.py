"""Contracts: kinds of arguments, specifications of results, obligations, concrete evaluation of the same contracts."""
import time, random, math, traceback, mpmath
from fractions import Fraction
from .term import *
from . import term as _term
from . import solve
from .values import *
from .interp import Interp, Loader, Frame, exc_match
from . import npextra
from .ev import Ev, V, Undefined


# --- views ---------------------------------------------------------------------------------
class FView:
    """one-dimensional data: .n and [i]"""
    def __init__(self, n, get):
        self.n, self.get = n, get

    def __getitem__(self, i):
        return self.get(lift(i))


class MView:
    def __init__(self, n, m, get):
        self.n, self.m, self.get = n, m, get

    def __getitem__(self, ij):
        return self.get(lift(ij[0]), lift(ij[1]))


class SView:
    """set of indices in [0, N)"""
    def __init__(self, N, has):
        self.N, self._has = N, has

    def has(self, i):
        return self._has(lift(i))


class FnView:
    def __init__(self, name):
        self.name = name

    def __call__(self, *xs):
        ts = []
        for x in xs:
            x = lift(x)
            ts.append(x)
        return uf(self.name, *ts, sort='R')


class Args:
    abstract = False        # True where the contract is used at a call site: definitions may stay folded


# --- kinds -----------------------------------------------------------------------------------
class Kind:
    pass


def size(S, name):
    if isinstance(name, int):
        return num(name)
    if name not in S:
        S[name] = var(name, 'I')
    return S[name]


class FArr(Kind):
    """1-D numpy array of real samples; list=True: Python list; dt 'f' or 'i'"""
    def __init__(self, n='n', dt='f', pylist=False, style=None):
        self.nname, self.dt, self.pylist, self.style = n, dt, pylist, style

    def sym(self, ip, name, S):
        n = size(S, self.nname)
        so = 'R' if self.dt == 'f' else 'I'
        ip.assume(le(ZERO, n))
        get = lambda i: uf(name, i, sort=so)
        v = ip.new(ArrObj((n,), lambda i: (get(i), FALSE), self.dt, pylist=self.pylist))
        return v, FView(n, get)

    def view(self, name, S):
        so = 'R' if self.dt == 'f' else 'I'
        return FView(size(S, self.nname), lambda i: uf(name, i, sort=so))

    def match(self, ip, v, S):
        if not isinstance(v, Ref) or not isinstance(ip.heap[v.id], ArrObj):
            return None
        a = ip.np.getarr(v)
        if a.ndim != 1 or a.dtype != self.dt or a.pylist != self.pylist:
            return None
        n = a.shape[0]
        if not bindsize(ip, S, self.nname, n):
            return None
        j = fresh('m', 'I')
        with ip.np.assuming(le(ZERO, j), lt(j, n)):
            if ip.np.simp(a.at(j)[1]) is not FALSE:
                return None
        return FView(n, lambda i: a.at(i)[0])

    def sizes(self):
        return [self.nname]

    def gen(self, g, name):
        n = g.size(self.nname)
        return g.values(n, self.style or ('int' if self.dt == 'i' else None))

    def enc(self, v):
        if self.pylist:
            return {'t': 'list', 'v': [float(x) if self.dt == 'f' else int(x) for x in v]}
        return {'t': 'farr' if self.dt == 'f' else 'iarr', 'v': [float(x) if self.dt == 'f' else int(x) for x in v]}

    def bind(self, name, v, ufs, vars_):
        bindvar(vars_, self.nname, len(v))
        if self.dt == 'f':
            ufs[name] = lambda i: V(v[i]) if 0 <= i < len(v) else None
        else:
            ufs[name] = lambda i: int(v[i]) if 0 <= i < len(v) else None

    def from_model(self, name, mv, S):
        n = mv.int(size({}, self.nname)) if not isinstance(self.nname, int) else self.nname
        if n is None or not 0 <= n <= 80:
            return None
        so = 'R' if self.dt == 'f' else 'I'
        return [mv.val(uf(name, num(i), sort=so)) for i in range(n)]


class CArr(FArr):
    """1-D numpy array of complex numbers"""
    def __init__(self, n='n'):
        FArr.__init__(self, n, 'c')

    def sym(self, ip, name, S):
        CXNAMES.add(name + '~c')
        n = size(S, self.nname)
        ip.assume(le(ZERO, n))
        get = lambda i: uf(name + '~c', i, sort='R')
        return ip.new(ArrObj((n,), lambda i: (get(i), FALSE), 'c')), FView(n, get)

    def view(self, name, S):
        CXNAMES.add(name + '~c')
        return FView(size(S, self.nname), lambda i: uf(name + '~c', i, sort='R'))

    def gen(self, g, name):
        return [complex(float(g.one('float')), float(g.one('float')) * g.rng.choice([0, 1, 1])) for _ in range(g.size(self.nname))]

    def enc(self, v):
        return {'t': 'carr', 'v': [[x.real, x.imag] for x in v]}

    def bind(self, name, v, ufs, vars_):
        bindvar(vars_, self.nname, len(v))
        ufs[name + '~c'] = lambda i: V(mpmath.mpc(v[i])) if 0 <= i < len(v) else None

    def from_model(self, name, mv, S):
        return None


class IdxSet(Kind):
    """strictly increasing integer array of indices of [0, of)"""
    def __init__(self, of='n'):
        self.of = of

    def sym(self, ip, name, S):
        N = size(S, self.of)
        has = lambda i: uf(name, i, sort='B')
        return ip.new(ip.np.idxset(N, has)), SView(N, has)

    def view(self, name, S):
        return SView(size(S, self.of), lambda i: uf(name, i, sort='B'))

    def match(self, ip, v, S):
        if not isinstance(v, Ref) or not isinstance(ip.heap[v.id], ArrObj):
            return None
        a = ip.np.getarr(v)
        if a.ndim != 1 or not a.filt or not a.identity:
            return None
        if self.of not in S or S[self.of] is not a.filt[0]:
            N = S.get(self.of)
            if N is None or solve.entails(ip.pc, eq(N, a.filt[0])) is not True:
                return None
        return SView(a.filt[0], a.filt[1])

    def sizes(self):
        return [self.of]

    def gen(self, g, name):
        return g.indices(g.size(self.of))

    def enc(self, v):
        return {'t': 'iarr', 'v': [int(x) for x in v]}

    def bind(self, name, v, ufs, vars_):
        s = set(v)
        ufs[name] = lambda i: i in s

    def from_model(self, name, mv, S):
        n = mv.int(size({}, self.of)) if not isinstance(self.of, int) else self.of
        if n is None or not 0 <= n <= 80:
            return None
        return [i for i in range(n) if mv.bool(uf(name, num(i), sort='B'))]


class Mat(Kind):
    def __init__(self, n='n', m='m', dt='f', pick=None):
        self.a, self.b, self.dt, self.pick = n, m, dt, pick
        self.so = 'R' if dt == 'f' else 'I'

    def sym(self, ip, name, S):
        n, m = size(S, self.a), size(S, self.b)
        ip.assume(le(ZERO, n))
        ip.assume(le(ZERO, m))
        get = lambda i, j: uf(name, i, j, sort=self.so)
        return ip.new(ArrObj((n, m), lambda i, j: (get(i, j), FALSE), self.dt)), MView(n, m, get)

    def view(self, name, S):
        return MView(size(S, self.a), size(S, self.b), lambda i, j: uf(name, i, j, sort=self.so))

    def match(self, ip, v, S):
        if not isinstance(v, Ref) or not isinstance(ip.heap[v.id], ArrObj):
            return None
        a = ip.np.getarr(v)
        if a.ndim != 2 or a.dtype != self.dt or a.pylist:
            return None
        if not bindsize(ip, S, self.a, a.shape[0]) or not bindsize(ip, S, self.b, a.shape[1]):
            return None
        i, j = fresh('m', 'I'), fresh('m', 'I')
        with ip.np.assuming(le(ZERO, i), lt(i, a.shape[0]), le(ZERO, j), lt(j, a.shape[1])):
            if ip.np.simp(a.at(i, j)[1]) is not FALSE:
                return None
        return MView(a.shape[0], a.shape[1], lambda i, j: a.at(i, j)[0])

    def sizes(self):
        return [self.a, self.b]

    def gen(self, g, name):
        n, m = g.size(self.a), g.size(self.b)
        if self.pick is not None:
            return [[g.rng.choice(self.pick) for _ in range(m)] for _ in range(n)]
        return [g.values(m, None if self.dt == 'f' else 'int') for _ in range(n)]

    def enc(self, v):
        n = len(v)
        m = len(v[0]) if v else 0
        return {'t': 'farr' if self.dt == 'f' else 'iarr', 'v': [float(x) if self.dt == 'f' else int(x) for r in v for x in r], 'shape': [n, m]}

    def bind(self, name, v, ufs, vars_):
        bindvar(vars_, self.a, len(v))
        bindvar(vars_, self.b, len(v[0]) if v else 0)
        ufs[name] = lambda i, j: (V if self.dt == 'f' else int)(v[i][j]) if 0 <= i < len(v) and 0 <= j < len(v[i]) else None

    def from_model(self, name, mv, S):
        n, m = [mv.int(size({}, x)) if not isinstance(x, int) else x for x in (self.a, self.b)]
        if n is None or m is None or not 0 < n <= 30 or not 0 <= m <= 30:
            return None
        return [[mv.val(uf(name, num(i), num(j), sort=self.so)) for j in range(m)] for i in range(n)]


class F(Kind):
    """real scalar; np=True: numpy float64; vals: candidate values for the concrete search"""
    def __init__(self, vals=None, np=False, gen=None):
        self.vals, self.np, self._gen = vals, np, gen

    def sym(self, ip, name, S):
        t = var(name, 'R')
        return Num(t, 'f8' if self.np else 'float'), t

    def view(self, name, S):
        return var(name, 'R')

    def match(self, ip, v, S):
        if isinstance(v, Num) and v.nan is FALSE and not v.isbool and v.ty != 'c16':
            return v.t
        return None

    def sizes(self):
        return []

    def gen(self, g, name):
        if self._gen:
            return self._gen(g)
        if self.vals and g.rng.random() < 0.8:
            return g.rng.choice(self.vals)
        return g.scalar()

    def enc(self, v):
        return {'t': 'npf' if self.np else 'val', 'v': float(v)}

    def bind(self, name, v, ufs, vars_):
        vars_[name] = V(Fraction(float(v)))

    def from_model(self, name, mv, S):
        return mv.val(var(name, 'R'))


class I(Kind):
    """integer scalar"""
    def __init__(self, lo=0, hi=12, np=False, gen=None):
        self.lo, self.hi, self.np, self._gen = lo, hi, np, gen

    def sym(self, ip, name, S):
        t = var(name, 'I')
        return Num(t, 'i8' if self.np else 'int'), t

    def view(self, name, S):
        return var(name, 'I')

    def match(self, ip, v, S):
        if isinstance(v, Num) and v.isint:
            return v.t
        return None

    def sizes(self):
        return []

    def gen(self, g, name):
        if self._gen:
            return self._gen(g)
        if g.consts and g.rng.random() < (0.5 if g.wide else 0.1):
            c = g.rng.choice(g.consts)
            if float(c) == int(c):
                return int(c) + (g.rng.choice([-1, 0, 1, 2]) if g.wide else 0)
        return g.rng.randint(self.lo, self.hi)

    def enc(self, v):
        return {'t': 'val', 'v': int(v)}

    def bind(self, name, v, ufs, vars_):
        vars_[name] = int(v)

    def from_model(self, name, mv, S):
        return mv.int(var(name, 'I'))


class Const(Kind):
    def __init__(self, v):
        self.v = v

    def pv(self, ip):
        v = self.v
        if isinstance(v, bool):
            return pybool(v)
        if isinstance(v, int):
            return pyint(v)
        if isinstance(v, float):
            return Num(num(v), 'float')
        if isinstance(v, tuple):
            return tuple(Const(x).pv(ip) for x in v)
        if isinstance(v, list):
            return ip.new(ListObj([Const(x).pv(ip) for x in v]))
        return v

    def sym(self, ip, name, S):
        return self.pv(ip), self.v

    def view(self, name, S):
        return self.v

    def match(self, ip, v, S):
        if isinstance(v, Num):
            c = v.const()
            if isinstance(self.v, (int, float)) and c is not None and type(c) != bool and not isinstance(self.v, bool):
                return self.v if Fraction(c) == Fraction(self.v) else None
            if isinstance(self.v, bool) and isinstance(c, bool) and c == self.v:
                return _Hit(self.v)
            return None
        if isinstance(self.v, (str, tuple)) or self.v is None:
            return _Hit(self.v) if v == self.v else None
        return None

    def sizes(self):
        return []

    def gen(self, g, name):
        return self.v

    def enc(self, v):
        if isinstance(v, tuple):
            return {'t': 'tuple', 'v': [self.enc(x) for x in v]}
        if isinstance(v, list):
            return {'t': 'list', 'v': v}
        return {'t': 'val', 'v': v}

    def bind(self, name, v, ufs, vars_):
        pass

    def from_model(self, name, mv, S):
        return self.v


class Default(Const):
    """a parameter the caller leaves out; v: its documented default; about: facts that hold of v and are all the proof needs of it"""
    def __init__(self, v, about=None):
        self.v, self.about = v, about

    def sym(self, ip, name, S):
        if self.about is not None:
            t = var(name, 'I' if isinstance(self.v, int) else 'R')
            for g in self.about(t):
                ip.assume(g)
            assert all(self._holds(g, t) for g in self.about(t))
            return Num(t, 'int' if isinstance(self.v, int) else 'float'), t
        return None, self.view(name, S)

    def _holds(self, g, t):
        return subst(g, {t: num(self.v)}) is TRUE

    def view(self, name, S):
        return lift(self.v) if isinstance(self.v, (int, float)) and not isinstance(self.v, bool) else self.v

    def match(self, ip, v, S):
        r = Const.match(self, ip, v, S)
        return r if r is None or isinstance(r, _Hit) else self.view(None, None)


class _Hit:
    def __init__(self, v):
        self.v = v


class FnKind(Kind):
    """an arbitrary pure real function of `arity` real arguments"""
    def __init__(self, pool, value):
        self.pool, self.value = pool, value

    def sym(self, ip, name, S):
        ip.ghosts[name] = ip.new(Ghost(ZERO, None)).id
        return SymFn(name), FnView(name)

    def view(self, name, S):
        return FnView(name)

    def match(self, ip, v, S):
        if isinstance(v, SymFn):
            return FnView(v.name)
        return None

    def sizes(self):
        return []

    def gen(self, g, name):
        return self.pool(g)

    def enc(self, v):
        return dict(v, t='fn')

    def bind(self, name, v, ufs, vars_):
        ufs[name] = lambda *xs: V(Fraction(self.value(v, *[float(getattr(x, 'x', x)) for x in xs])), 0.0)

    def from_model(self, name, mv, S):
        return None


class Tup(Kind):
    """tuple (or list) of scalars"""
    def __init__(self, *ks, aslist=False):
        self.ks, self.aslist = ks, aslist

    def sym(self, ip, name, S):
        xs = [k.sym(ip, '%s_%d' % (name, i), S) for i, k in enumerate(self.ks)]
        vs = tuple(x[0] for x in xs)
        return (ip.new(ListObj(list(vs))) if self.aslist else vs), [x[1] for x in xs]

    def view(self, name, S):
        return [k.view('%s_%d' % (name, i), S) for i, k in enumerate(self.ks)]

    def match(self, ip, v, S):
        if self.aslist:
            if not isinstance(v, Ref) or not isinstance(ip.heap[v.id], ListObj):
                return None
            v = ip.heap[v.id].items
        elif not isinstance(v, tuple):
            return None
        if len(v) != len(self.ks):
            return None
        out = [k.match(ip, x, S) for k, x in zip(self.ks, v)]
        return None if any(o is None for o in out) else out

    def sizes(self):
        return [s for k in self.ks for s in k.sizes()]

    def gen(self, g, name):
        return tuple(k.gen(g, '%s_%d' % (name, i)) for i, k in enumerate(self.ks))

    def enc(self, v):
        if self.aslist:
            return {'t': 'lists', 'v': [k.enc(x) for k, x in zip(self.ks, v)]}
        return {'t': 'tuple', 'v': [k.enc(x) for k, x in zip(self.ks, v)]}

    def bind(self, name, v, ufs, vars_):
        for i, (k, x) in enumerate(zip(self.ks, v)):
            k.bind('%s_%d' % (name, i), x, ufs, vars_)

    def from_model(self, name, mv, S):
        out = tuple(k.from_model('%s_%d' % (name, i), mv, S) for i, k in enumerate(self.ks))
        return None if any(o is None for o in out) else out


def bindsize(ip, S, name, n):
    if isinstance(name, int):
        return solve.entails(ip.pc, eq(num(name), n)) is True
    if name in S:
        return S[name] is n or solve.entails(ip.pc, eq(S[name], n)) is True
    S[name] = n
    return True


def bindvar(vars_, name, n):
    if isinstance(name, str):
        vars_[name] = n


# --- result specifications -------------------------------------------------------------------------
class Spec:
    pass


class SNum(Spec):
    def __init__(self, t, nan=FALSE, ty='f8', tol=None):
        self.t, self.nan, self.ty, self.tol = lift(t) if not (isinstance(t, T) and t.sort == 'B') else t, nan, ty, tol


class SArr(Spec):
    def __init__(self, shape, fn, dtype='f', nan=None, anytype=True, tol=None, where=None):
        self.where = where      # specified at these indices only
        self.shape = tuple(lift(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        self.fn, self.dtype, self.nan, self.tol = fn, dtype, nan or (lambda *i: FALSE), tol


class SIdx(Spec):
    def __init__(self, N, pred):
        self.N, self.pred = N, pred


class STup(Spec):
    def __init__(self, *items):
        self.items = items


class SList(STup):
    pass


class SDict(Spec):
    def __init__(self, d):
        self.d = d


class SConst(Spec):
    def __init__(self, v):
        self.v = v


class SAny(Spec):
    pass


class SRel(Spec):
    """relational: build(R) gives [(name, goal)] over the actual result R (RView)"""
    def __init__(self, shape, goals):
        self.shape, self.goals = shape, goals


class SAlt(Spec):
    """scalar characterised by several acceptable goals; goals(r) -> list of (name, term) all to hold"""
    def __init__(self, goals, kind='num'):
        self.goals, self.kind = goals, kind


SIGNATURES = {}     # target -> documented order of its parameters


def given(args):
    return [k for k in args if not isinstance(args[k], Default)]


def positional(target, names):
    pos = []
    for k in SIGNATURES.get(target, []):
        if k not in names:
            break
        pos.append(k)
    return pos, [k for k in names if k not in pos]


class Case:
    def __init__(self, name, args, result=None, requires=None, raises=None, rels=None, kwonly=(), modifies=(), fresh=True,
                 gen=None, invariants=None, runs=None, concrete=True, extra_gen=(), nconc=None, prelude=None, sizes=None,
                 maxn=None, summary=None, draws=False):
        self.name, self.args = name, args
        self.summary = summary      # summary(ip, A): the result at a call site, where the postcondition is a relation
        self.draws = draws          # the contract speaks about random draws by their number
        self.result, self.requires, self.raises, self.rels = result, requires, raises, rels
        self.modifies, self.fresh = modifies, fresh
        self.gen, self.invariants, self.runs = gen, invariants, runs
        self.concrete, self.extra_gen, self.nconc = concrete, extra_gen, nconc
        self.prelude = prelude
        self.sizes = sizes or {}
        self.maxn = maxn

    def req(self, A):
        """conditions in order; each may be built with the earlier ones known"""
        return self.requires(A) if self.requires else []


class Contract:
    def __init__(self, target, *cases, uses=(), internal=False, doc='', bounded=False):
        self.target, self.cases, self.uses, self.internal, self.doc = target, list(cases), tuple(uses), internal, doc
        self.bounded = bounded      # no symbolic attempt: outside the subset by nature (stated reason in doc)

    # --- use at a call site ------------------------------------------------------------------
    def apply(self, ip, env, f):
        order = SIGNATURES.get(self.target)
        now = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if order and order != now:
            # parameters are known by position: a renamed one keeps its meaning
            env = {(order[now.index(k)] if k in now and now.index(k) < len(order) else k): v for k, v in env.items()}
        for c in self.cases:
            if c.result is None and c.summary is None or c.modifies or not set(c.args) <= set(env):
                continue
            S = {}
            A = Args()
            A.abstract = True
            # parameters the case leaves at their defaults must have them here too
            dfl = dict(zip([order[i] if order and i < len(order) else a for i, a in enumerate(now)][-len(f.defaults):], f.defaults)) if f.defaults else {}
            dfl.update(f.kwdefaults)
            ok = all(k in dfl and same_const(env[k], dfl[k]) for k in env if k not in c.args)
            if not ok:
                continue
            # arrays first so that sizes are bound before index sets
            names = sorted(c.args, key=lambda k: isinstance(c.args[k], IdxSet))
            for k in names:
                v = c.args[k].match(ip, env[k], S)
                if v is None:
                    ok = False
                    break
                setattr(A, k, v.v if isinstance(v, _Hit) else v)
            if not ok:
                continue
            A.S = S
            if any(solve.entails(ip.pc, r) is not True for r in c.req(A) if r is not TRUE):
                continue
            if c.raises:
                for et, cond in c.raises(A):
                    if ip.decide(cond):
                        raise PRaise(et)
            if c.summary:
                return c.summary(ip, A)
            return build(ip, c.result(A))
        return NotImplemented


def same_const(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return a.t is b.t and a.nan is b.nan and a.isbool == b.isbool
    return a is b or (isinstance(a, (str, tuple)) and a == b)


class Unspecified:
    """part of a result a contract says nothing about: every use of it is outside the subset"""


def build(ip, s):
    if isinstance(s, SNum):
        return Num(s.t, s.ty, s.nan)
    if isinstance(s, SArr):
        return ip.np.wrap(ArrObj(s.shape, lambda *i: (s.fn(*i), s.nan(*i)), s.dtype))
    if isinstance(s, SIdx):
        return ip.new(ip.np.idxset(s.N, s.pred))
    if isinstance(s, SList):
        return ip.new(ListObj([build(ip, x) for x in s.items]))
    if isinstance(s, STup):
        return tuple(build(ip, x) for x in s.items)
    if isinstance(s, SDict):
        return ip.new(DictObj({k: build(ip, v) for k, v in s.d.items()}))
    if isinstance(s, SConst):
        return Const(s.v).pv(ip)
    if isinstance(s, SAny):
        return Unspecified()
    raise Unsupported('contract result')


# --- obligations ------------------------------------------------------------------------------------
class Obl:
    def __init__(self, name, hyps, goal, kind, path=None):
        self.name, self.hyps, self.goal, self.kind, self.path = name, hyps, goal, kind, path
        self.res = None


class Mismatch(Exception):
    """result has the wrong structure on a feasible path"""


def has_rec(t):
    return any(s.op == 'uf' and s.args[0] == 'rec' for s in all_subterms([t]))


class CaseRun:
    """symbolic verification of one case of one contract"""
    def __init__(self, loader, contract, case, contracts, budget):
        self.loader, self.contract, self.case, self.contracts = loader, contract, case, contracts
        self.deadline = time.time() + budget
        self.obls = []
        self.paths = 0
        self.normal = 0
        self.info = {}

    def run(self):
        target = self.contract.target
        modname, fn = target.split(':')
        mod = self.loader.get(modname)
        ip = Interp(self.loader, self.contracts, target)
        self.ip = ip
        ip.deadline = self.deadline
        _term.CTX[0] = ip.ctx
        f = ip.global_(mod, fn)
        if not isinstance(f, FuncVal):
            raise Unsupported('%s is not a function' % target)
        S = {}
        A = Args()
        args = {}
        names = sorted(self.case.args, key=lambda k: isinstance(self.case.args[k], IdxSet))
        for k in names:
            v, view = self.case.args[k].sym(ip, k, S)
            args[k] = v
            setattr(A, k, view)
        A.S = S
        self.A = A
        for c in self.case.req(A):
            ip.assume(c)
        if not solve.feasible(ip.pc):
            raise Unsupported('contradictory precondition')
        base = list(ip.pc)
        heap0 = dict(ip.heap)
        if self.case.draws:
            ip.draws = ip.new(npextra.Draws({})).id
        if self.case.invariants:
            ip.invariants = self.case.invariants(A)
        if self.case.runs:
            ip.runsets = self.case.runs(A)
        if self.case.prelude:
            self.case.prelude(ip, A)
        params = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        pos, kws = positional(target, given(self.case.args))
        for k, kd in self.case.args.items():
            if isinstance(kd, Default) and kd.about is not None:
                # passed as a symbol in place of the value the function has as its default
                j = SIGNATURES[target].index(k) if k in SIGNATURES.get(target, []) else -1
                if k not in params and 0 <= j < len(params):
                    k2 = params[j]
                else:
                    k2 = k
                dfl = dict(zip(params[len(f.node.args.posonlyargs + f.node.args.args) - len(f.defaults):], f.defaults))
                dfl.update(f.kwdefaults)
                d = dfl.get(k2)
                if not isinstance(d, Num) or d.const() is None or num(d.const()) is not num(kd.v):
                    self.add('default of %s is %s' % (k, kd.v), ip.pc, FALSE, 'default')
                kws = kws + [k2]
                args[k2] = args[k]
        for k in kws:
            if k not in params:
                raise Unsupported('parameter %s of %s is gone' % (k, target))
        if len(pos) > len(f.node.args.posonlyargs + f.node.args.args):
            raise Unsupported('parameters of %s are gone' % target)
        ip.frame = Frame({}, mod)
        paths = ip.explore(lambda: ip.call(f, [args[k] for k in pos], {k: args[k] for k in kws}))
        self.paths = len(paths)
        if ip.cut_need - ip.cut_hits:
            raise Unsupported('the invariant does not fit: nothing is assigned to %s' % ', '.join(sorted(ip.cut_need - ip.cut_hits)))
        for o in ip.obls:
            self.add('%s at %s' % (o.name, o.where), o.hyps, o.goal, 'definedness')
        for k, p in enumerate(paths):
            self.path(ip, A, args, heap0, base, p, k)
        self.info = dict(inlined=sorted(ip.inlined), used=sorted(ip.used_contracts), assumed=sorted(ip.assumed),
                         np=sorted(ip.np.used), inv=getattr(ip, 'inv_checked', 0))
        return self

    def add(self, name, hyps, goal, kind, path=None):
        self.obls.append(Obl(name, list(hyps), goal, kind, path))

    def path(self, ip, A, args, heap0, base, p, k):
        for k, o in p.heap.items():
            if k < 0 and o is not ip.persistent.get(k):
                raise Unsupported('state that outlives the call is written')
        old = ip.pc, ip.heap
        ip.pc = base + p.facts
        ip.heap = p.heap
        if not solve.feasible(ip.pc, 4000):
            ip.pc, ip.heap = old
            return
        try:
            rs = self.case.raises(A) if self.case.raises else []
            tag = 'path%d' % k
            if p.outcome == 'raise':
                e = p.value
                conds = [c for et, c in rs if exc_match(e.etype, et)]
                g = bor(*conds) if conds else FALSE
                self.add('%s: raises %s only when specified' % (tag, e.etype), ip.pc, g, 'raise', p)
                self.frame(ip, args, heap0, p, tag)
                return
            self.normal += 1
            for et, c in rs:
                self.add('%s: returns although %s is specified' % (tag, et), ip.pc, bnot(c), 'raise', p)
                ip.assume(bnot(c)) if bnot(c) is not FALSE else None
            if self.case.result is not None:
                spec = self.case.result(A)
                try:
                    self.match(ip, p.value, spec, tag + ': result', p)
                except Mismatch as m:
                    self.add('%s: %s' % (tag, m), ip.pc, FALSE, 'shape', p)
            if self.case.rels is not None:
                for nm, hy, g in self.case.rels(A, RVal(ip, p.value)):
                    self.add('%s: %s' % (tag, nm), ip.pc + hy, g, 'post', p)
            self.frame(ip, args, heap0, p, tag)
        finally:
            ip.pc, ip.heap = old

    def frame(self, ip, args, heap0, p, tag):
        for name, v in args.items():
            if name in self.case.modifies or not isinstance(v, Ref):
                continue
            a, b = heap0[v.id], p.heap[v.id]
            if a is b:
                self.add('%s: frame: argument %s unchanged' % (tag, name), ip.pc, TRUE, 'frame', p)
            else:
                if isinstance(a, ArrObj) and isinstance(b, ArrObj):
                    if len(a.shape) != len(b.shape):
                        self.add('%s: frame: %s unchanged' % (tag, name), ip.pc, FALSE, 'frame', p)
                        continue
                    ix = [fresh('fr', 'I') for _ in a.shape]
                    with ip.np.assuming(*ip.np.ranges(a.shape, ix)):
                        t, n = b.at(*ix)
                        g = band(eq(t, a.at(*ix)[0]) if t.sort != 'B' else iff(t, a.at(*ix)[0]), bnot(n))
                        for x, y in zip(a.shape, b.shape):
                            g = band(g, eq(x, y))
                        self.add('%s: frame: argument %s unchanged' % (tag, name), ip.pc, g, 'frame', p)
                else:
                    self.add('%s: frame: argument %s unchanged' % (tag, name), ip.pc, FALSE, 'frame', p)
            if self.case.fresh and isinstance(p.value, Ref):
                r = p.value.id
                o = p.heap[r]
                while isinstance(o, ArrObj) and o.view is not None and r != v.id:
                    r = o.view[0]
                    o = p.heap[r]
                if r == v.id:
                    self.add('%s: frame: result does not alias argument %s' % (tag, name), ip.pc, FALSE, 'frame', p)

    def match(self, ip, v, s, tag, p):
        if isinstance(s, SAny):
            return
        if isinstance(s, SConst):
            if isinstance(s.v, (str, type(None))):
                if v != s.v:
                    raise Mismatch('%s is %r' % (tag, s.v))
                return
            if isinstance(s.v, bool):
                if not isinstance(v, Num):
                    raise Mismatch('%s is %r' % (tag, s.v))
                t = v.t if v.t.sort == 'B' else bnot(eq0(v.t))
                self.add('%s == %r' % (tag, s.v), ip.pc, t if s.v else bnot(t), 'post', p)
                return
            s = SNum(num(s.v))
        if isinstance(s, (SNum, SAlt)):
            if isinstance(v, Ref) and isinstance(ip.heap[v.id], ArrObj) and ip.heap[v.id].ndim == 0:
                a = ip.np.getarr(v)
                t, n = a.at()
                v = Num(t, 'f8', n)
            if not isinstance(v, Num) or v.ty == 'c16':
                raise Mismatch('%s is a number' % tag)
            t = v.arith()
            if isinstance(s, SAlt):
                self.add('%s is not NaN' % tag, ip.pc, bnot(v.nan), 'post', p)
                for nm, hy, g in s.goals(t):
                    self.add('%s: %s' % (tag, nm), ip.pc + hy, g, 'post', p)
                return
            st = ind(s.t) if s.t.sort == 'B' else s.t
            self.add('%s NaN exactly when specified' % tag, ip.pc, iff(v.nan, s.nan), 'post', p)
            self.add('%s == specified value' % tag, ip.pc + ([bnot(s.nan)] if s.nan is not FALSE else []), eq(t, st), 'post', p)
            return
        if isinstance(s, SArr):
            if isinstance(v, Num):
                raise Mismatch('%s is an array' % tag)
            try:
                a = ip.np.getarr(v)
            except PRaise:
                raise Mismatch('%s is an array' % tag)
            if a.ndim != len(s.shape):
                raise Mismatch('%s has %d dimensions' % (tag, len(s.shape)))
            for x, y in zip(a.shape, s.shape):
                self.add('%s has the specified length' % tag, ip.pc, eq(x, y), 'post', p)
            ix = [fresh('ix', 'I') for _ in s.shape]
            with ip.np.assuming(*(ip.np.ranges(s.shape, ix) + [eq(x, y) for x, y in zip(a.shape, s.shape) if x is not y])):
                t, n = a.at(*ix)
                st, sn = s.fn(*ix), s.nan(*ix)
                hy = list(ip.pc)
                if s.where is not None:
                    hy.append(s.where(*ix))
                if len(ix) == 1 and s.where is None and t.sort != 'B' and (has_rec(t) or has_rec(st)):
                    q = fresh('q', 'I')
                    with ip.np.assuming(le(ZERO, q), lt(q, ix[0])):
                        body = eq(a.at(q)[0], s.fn(q))
                    hy.append(forall(ZERO, ix[0], q, body))
                self.add('%s[i] NaN exactly when specified' % tag, hy, iff(n, sn), 'post', p)
                if t.sort == 'B' or st.sort == 'B':
                    if t.sort != st.sort:
                        t, st = (ind(t) if t.sort == 'B' else t), (ind(st) if st.sort == 'B' else st)
                        g = eq(t, st)
                    else:
                        g = iff(t, st)
                else:
                    g = eq(t, st)
                self.add('%s[i] == specified value' % tag, hy + ([bnot(sn)] if sn is not FALSE else []), g, 'post', p)
            return
        if isinstance(s, SIdx):
            try:
                a = ip.np.getarr(v) if not isinstance(v, Num) else None
            except PRaise:
                a = None
            if a is None or a.ndim != 1:
                raise Mismatch('%s is an index array' % tag)
            if solve.entails(ip.pc, eq(a.shape[0], ZERO)) is True:
                if s.pred is None:
                    return
                i = fresh('ix', 'I')
                self.add('%s empty: nothing qualifies' % tag, ip.pc + [le(ZERO, i), lt(i, s.N)], bnot(s.pred(i)), 'post', p)
                return
            if not a.filt or not a.identity:
                raise Unsupported('result is not in the form of an index set')
            N, g, _ = a.filt
            i = fresh('ix', 'I')
            self.add('%s: strictly increasing indices' % tag, ip.pc, TRUE, 'post', p)
            if s.pred is not None:
              with ip.np.assuming(le(ZERO, i), lt(i, s.N)):
                mine = band(lt(i, N), g(i)) if N is not s.N else g(i)
                want = s.pred(i)
                self.add('%s: every reported index qualifies' % tag, ip.pc + [mine], want, 'post', p)
                self.add('%s: every qualifying index is reported' % tag, ip.pc + [want], mine, 'post', p)
            if N is not s.N:
                with ip.np.assuming(le(s.N, i), lt(i, N)):
                    self.add('%s: indices lie in the record' % tag, ip.pc, bnot(g(i)), 'post', p)
            return
        if isinstance(s, STup):
            if isinstance(v, Ref) and isinstance(ip.heap[v.id], ListObj):
                v = tuple(ip.heap[v.id].items)
            if not isinstance(v, tuple) or len(v) != len(s.items):
                raise Mismatch('%s is a tuple of %d' % (tag, len(s.items)))
            for k, (x, y) in enumerate(zip(v, s.items)):
                self.match(ip, x, y, '%s[%d]' % (tag, k), p)
            return
        if isinstance(s, SDict):
            if not isinstance(v, Ref) or not isinstance(ip.heap[v.id], DictObj):
                raise Mismatch('%s is a dictionary' % tag)
            d = ip.heap[v.id].d
            for k in s.d:
                if k not in d:
                    raise Mismatch('%s has key %s' % (tag, k))
                self.match(ip, d[k], s.d[k], '%s[%s]' % (tag, k), p)
            return
        raise Unsupported('spec')

    def prove(self, quick=True):
        seen = {}
        for o in self.obls:
            key = (o.goal, tuple(h.id for h in o.hyps))
            if key in seen:
                o.res = seen[key]
                continue
            left = self.deadline - time.time()
            if left <= 0:
                o.res = solve.Result('unknown', 'time', None, 'time budget')
                continue
            ip = self.ip
            old = ip.pc
            ip.pc = list(o.hyps)
            try:
                o.res = solve.prove(o.hyps, o.goal, 8000, 0, time.time() + min(left, 60))
            except (TooBig, RecursionError) as e:
                o.res = solve.Result('unknown', 'size', None, type(e).__name__)
            finally:
                ip.pc = old
            seen[key] = o.res
        return self


class RVal:
    """access to the actual result in relational postconditions"""
    def __init__(self, ip, v):
        self.ip, self.v = ip, v

    def calls(self, f):
        return self.ip.heap[self.ip.ghosts[f]].n

    def best(self, f):
        return self.ip.heap[self.ip.ghosts[f]].best

    def num(self):
        v = self.v
        if isinstance(v, Ref) and isinstance(self.ip.heap[v.id], ArrObj) and self.ip.heap[v.id].ndim == 0:
            t, n = self.ip.np.getarr(v).at()
            v = Num(t, 'f8', n)
        if not isinstance(v, Num):
            raise Unsupported('relational result')
        return v.arith()

    def truth(self):
        if not isinstance(self.v, Num) or self.v.nan is not FALSE:
            raise Unsupported('relational result')
        return self.v.t if self.v.t.sort == 'B' else bnot(eq0(self.v.t))

    def item(self, k):
        v = self.v
        if isinstance(v, Ref):
            o = self.ip.heap[v.id]
            if isinstance(o, ListObj):
                v = tuple(o.items)
            elif isinstance(o, DictObj):
                return RVal(self.ip, o.d[k])
        if not isinstance(v, tuple):
            raise Unsupported('relational result')
        return RVal(self.ip, v[k])

    def arr(self):
        a = self.ip.np.getarr(self.v)
        return a.shape, (lambda *i: a.at(*[lift(x) for x in i])[0])


# --- DSL for specifications ---------------------------------------------------------------------------
def Sum(f, hi, lo=0):
    j = fresh('j', 'I')
    return mk_sum(lift(lo), lift(hi), j, f(j))


def Count(p, hi, lo=0):
    return Sum(lambda j: ind(p(j)), hi, lo)


def fn_of(v):
    return (lambda j: v[j]) if isinstance(v, FView) else v


def Mean(v, n=None):
    n = v.n if n is None else n
    return Sum(fn_of(v), n) / n


def Var(v, n=None):
    n = v.n if n is None else n
    f = fn_of(v)
    mu = Mean(v, n)
    return Sum(lambda j: (f(j) - mu) ** 2, n) / n


def Std(v, n=None):
    return sqrt(Var(v, n))


def Median(v, n=None):
    n = v.n if n is None else n
    f = fn_of(v)
    j = fresh('j', 'I')
    return uf('median', lam([j], lift(f(j))), n, sort='R')


def Minimum(v, n=None):
    n = v.n if n is None else n
    j = fresh('j', 'I')
    return extremum('amin', ZERO, n, j, fn_of(v)(j))


def Maximum(v, n=None):
    n = v.n if n is None else n
    j = fresh('j', 'I')
    return extremum('amax', ZERO, n, j, fn_of(v)(j))


def Forall(lo, hi, f):
    j = fresh('j', 'I')
    return forall(lift(lo), lift(hi), j, f(j))


def Exists(lo, hi, f):
    j = fresh('j', 'I')
    return exists(lift(lo), lift(hi), j, f(j))


def First(lo, hi, f):
    j = fresh('j', 'I')
    return first(lift(lo), lift(hi), j, f(j))


def Last(lo, hi, f):
    """largest j in [lo,hi) with f(j); lo-1 when none"""
    lo, hi = lift(lo), lift(hi)
    return hi - 1 - First(0, hi - lo, lambda d: f(hi - 1 - d))


def Def(f):
    """an opaque name for the function f of an index: proofs see through it only when they have to"""
    i = fresh('i', 'I')
    l = lam([i], lift(f(i)))
    return lambda k: uf('def', l, lift(k), sort='R')


def Rec(f, sort='R'):
    """Rec(lambda self, i: ...) -> function of i"""
    i = fresh('i', 'I')
    body = f(lambda k: uf('self', lift(k), sort=sort), i)
    l = solve.check_rec(lam([i], lift(body)))
    return lambda k: uf('rec', l, lift(k), sort=sort)


def Round(t, d=4):
    return around(lift(t), lift(d))


def arctan2(y, x):
    return uf('arctan2', lift(y), lift(x), sort='R')
