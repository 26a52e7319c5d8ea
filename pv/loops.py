"""Loops: invariants are inferred as closed forms of the loop-carried state and
then checked to be inductive (base case by construction, step by re-executing
the body from the closed form at a symbolic iteration)."""
import ast, itertools
from .term import *
from . import term as _term
from .values import *
from . import solve
from .npmodel import TYCODE, SC, ORDER, join

UNROLL = 24
_ids = itertools.count()


class WhileExit(Exception):
    pass


def assigned_names(stmts):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    v = V()
    for s in stmts:
        v.visit(s)
    return out


def map_uf(t, f, memo=None):
    """rebuild t bottom-up; f(name, args, term) -> replacement or None for uf applications and variables"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ('num', 'bv', 'true', 'false'):
        r = t
    elif op == 'var':
        r = f(t.args[0], None, t) or t
    elif op == 'lam':
        bvs, body = t.args
        fr = [fresh('b', b.sort) for b in bvs]
        b1 = apply(t, *fr)
        b2 = map_uf(b1, f, {})
        r = t if b2 is b1 else lam(fr, b2)
    elif op == 'uf':
        args = [map_uf(x, f, memo) if isinstance(x, T) else x for x in t.args[1:]]
        r = f(t.args[0], args, t)
        if r is None:
            if all(a is b for a, b in zip(args, t.args[1:])):
                r = t
            else:
                r = rebuild_uf(t.args[0], args, t.sort)
    else:
        m = {}
        for c in subterms1(t):
            g = map_uf(c, f, memo)
            if g is not c:
                m[c] = g
        r = subst(t, m) if m else t
    memo[t] = r
    return r


def uses(t, keys):
    """placeholder keys occurring in t"""
    out = set()
    for s in all_subterms([t]):
        if s.op == 'var' and s.args[0] in keys:
            out.add(s.args[0])
        elif s.op == 'uf' and s.args[0] in keys:
            out.add(s.args[0])
    return out


def unit_index(shape, i):
    """index 0 in dimensions of extent 1"""
    return [ZERO if d is ONE else x for d, x in zip(shape, i)]


def rsub(r, i):
    return {a: b for a, b in zip(r, i) if a.op == 'var'}


class Carrier:
    """loop-carried piece of state"""
    def __init__(self, kind, where, key):
        self.kind, self.where, self.key = kind, where, key   # kind: num arr seq ; where ('v',name)|('h',id)
        self.nankey = key + '?'
        self.maybe_nan = False
        self.ty = None
        self.init = None
        self.cf = None
        self.ref = None
        self.length = None


def merge(paths, vals):
    """ite over the (exhaustive, disjoint) path conditions"""
    r = vals[-1]
    for p, v in list(zip(paths, vals))[-2::-1]:
        if v is r:
            continue
        r = ite(band(*p.conds), v, r) if (v.sort != 'B' and r.sort != 'B') else bite(band(*p.conds), blift(v), blift(r))
    return r


def widen(a, b):
    if a == b:
        return a
    o = ['bool', 'b1', 'int', 'i8', 'float', 'f8', 'c16']
    return a if o.index(a) >= o.index(b) else b


class Loop:
    def __init__(self, ip, body, names, it, step=None):
        """step(t): bind the targets / run the test, then run the body"""
        self.ip, self.body, self.names, self.it, self.step = ip, body, names, it, step
        self.lid = next(_ids)
        self.N = it.N
        self.guard = it.guard

    def guard_at(self, t):
        return self.guard(t) if self.guard is not None else TRUE

    # -- discovery -----------------------------------------------------------------
    def discover(self):
        ip = self.ip
        self.env0 = dict(ip.frame.env)
        self.heap0 = dict(ip.heap)
        self.car = {}          # where -> Carrier
        self.t = fresh('t', 'I')
        for attempt in range(40):
            try:
                if self._attempt():
                    return
            except PoisonRead as e:
                if not (isinstance(e.name, tuple) and e.name[0] == self.lid):
                    raise
                self.upgrade(e.name[1])
        raise Unsupported('loop state not stable')

    def upgrade(self, name):
        w = ('v', name)
        v = self.env0.get(name)
        if name not in self.env0 or isinstance(v, PoisonVal):
            raise Unsupported('loop variable %s read before assignment' % name)
        if isinstance(v, Num):
            c = Carrier('num', w, 'ph!%d!%s' % (self.lid, name))
            c.ty, c.init = v.ty, v
        elif isinstance(v, Ref):
            o = self.ip.heap[v.id]
            if isinstance(o, ListObj) or (isinstance(o, ArrObj) and o.shape == (ZERO,)):
                c = Carrier('seq', w, 'ph!%d!%s' % (self.lid, name))
                c.init = o
            elif isinstance(o, ArrObj):
                c = Carrier('arr', w, 'ph!%d!%s' % (self.lid, name))
                c.init, c.ty = o, o.dtype
                c.shape = o.shape
                c.elementwise = True
            else:
                raise Unsupported('loop variable %s' % name)
        else:
            raise Unsupported('loop variable %s' % name)
        self.car[w] = c

    def phval(self, c):
        """value of the carrier at the start of the symbolic iteration"""
        ip = self.ip
        if c.kind == 'num':
            if c.ty in ('bool', 'b1'):
                return Num(var(c.key, 'B'), c.ty)
            s = 'I' if c.ty in ('int', 'i8') else 'R'
            return Num(var(c.key, s), c.ty, var(c.nankey, 'B') if c.maybe_nan else FALSE)
        if c.kind == 'arr':
            sort = {'i': 'I', 'b': 'B'}.get(c.ty, 'R')
            o = c.init
            def fn(*i):
                i = unit_index(o.shape, i)
                n = uf(c.nankey, *i, sort='B') if c.maybe_nan else FALSE
                return (uf(c.key, *i, sort=sort), n)
            return ArrObj(o.shape, fn, c.ty, pylist=o.pylist, note=o.note)
        if c.kind == 'seq':
            return self.seqval(c, self.t)

    def seqval(self, c, s):
        c.k0 = len(c.init.items) if isinstance(c.init, ListObj) else 0
        return SeqList(c.key, (c, s))

    def install(self, valof):
        """put carrier values into env/heap; other assigned names become poison"""
        ip = self.ip
        env = ip.frame.env
        for n in self.names:
            env[n] = PoisonVal((self.lid, n))
        for w, c in self.car.items():
            v = valof(c)
            if w[0] == 'v':
                if c.kind == 'num':
                    env[w[1]] = v
                else:
                    env[w[1]] = v if isinstance(v, Ref) else ip.new(v)
                    c.curref = env[w[1]]
            else:
                ip.heap[w[1]] = v if not isinstance(v, Ref) else ip.heap[v.id]

    def ranges(self, t):
        out = [le(ZERO, t)]
        if self.N is not None:
            out.append(lt(t, self.N))
        g = self.guard_at(t)
        if g is not TRUE:
            out.append(g)
        return out

    def run_paths(self, t, valof):
        ip = self.ip

        def thunk():
            for c in self.ranges(t):
                ip.assume(c)
            self.install(valof)
            try:
                self.step(t)
            except PContinue:
                pass
            except WhileExit:
                return 'whileexit'
            return None
        return ip.explore(thunk)

    def _attempt(self):
        ip = self.ip
        oldc = ip.collect
        ip.collect = False
        try:
            self.paths = self.run_paths(self.t, self.phval)
        finally:
            ip.collect = oldc
        again = False
        for p in self.paths:
            if p.outcome != 'normal' or p.value == 'whileexit':
                continue
            for rid, o in self.heap0.items():
                w = ('h', rid)
                if w in self.car:
                    continue
                if p.heap.get(rid) is not o:
                    again = True
                    self.add_heap(rid, o)
            for w, c in self.car.items():
                if c.kind == 'num':
                    v = p.env.get(w[1])
                    if not isinstance(v, Num):
                        raise Unsupported('loop variable %s changes kind' % w[1])
                    ty = widen(c.ty, v.ty)
                    if ty != c.ty:
                        c.ty = ty
                        again = True
                    if v.nan is not FALSE or c.init.nan is not FALSE:
                        raise Unsupported('loop variable %s may be NaN' % w[1])
                if c.kind == 'arr':
                    o = self.post_obj(p, c)
                    if not isinstance(o, ArrObj):
                        raise Unsupported('loop array changes kind')
                    if len(o.shape) != len(c.init.shape):
                        raise Unsupported('loop array changes rank')
                    d = join(c.ty, o.dtype)
                    if d != c.ty:
                        c.ty = d
                        again = True
                    if not c.maybe_nan and self.has_nan(c, o, p):
                        c.maybe_nan = True
                        again = True
        # the assigned names bound only inside are temporaries; names keeping their value are dropped
        return not again

    def has_nan(self, c, o, p):
        ip = self.ip
        r = [fresh('r', 'I') for _ in o.shape]
        with ip.np.assuming(*ip.np.ranges(c.init.shape, r)):
            if c.init.at(*r)[1] is not FALSE:
                return True
        old = ip.pc
        ip.pc = old + p.facts + ip.np.ranges(o.shape, r)
        try:
            return o.at(*r)[1] is not FALSE
        finally:
            ip.pc = old

    def add_heap(self, rid, o):
        w = ('h', rid)
        if isinstance(o, ArrObj):
            c = Carrier('arr', w, 'ph!%d!h%d' % (self.lid, rid))
            c.init, c.ty = o, o.dtype
            c.shape = o.shape
            c.elementwise = False
        elif isinstance(o, ListObj):
            c = Carrier('seq', w, 'ph!%d!h%d' % (self.lid, rid))
            c.init = o
        else:
            raise Unsupported('loop mutates %s' % type(o).__name__)
        self.car[w] = c

    def post_obj(self, p, c):
        if c.where[0] == 'h':
            return p.heap[c.where[1]]
        v = p.env[c.where[1]]
        if not isinstance(v, Ref):
            raise Unsupported('loop variable %s changes kind' % c.where[1])
        o = p.heap[v.id]
        return o

    # -- resolution --------------------------------------------------------------------
    def normal(self):
        return [p for p in self.paths if p.outcome == 'normal' and p.value != 'whileexit']

    def exits(self):
        return [p for p in self.paths if not (p.outcome == 'normal' and p.value != 'whileexit')]

    def resolve(self):
        keys = {}
        for c in self.car.values():
            keys[c.key] = c
            keys[c.nankey] = c
        self.keys = keys
        np_ = self.normal()
        todo = list(self.car.values())
        if not np_:
            for c in todo:
                c.cf = (lambda c: lambda t: self.init_value(c))(c)
            return
        def remaining():
            for c in todo:
                c.M = self.merged(c, self.normal())
        nums = [c for c in todo if c.kind == 'num']
        for c in nums:
            c.M = self.merged(c, np_)
        # counters first: their closed form sharpens the exploration of the rest
        prog = True
        done = False
        while prog and nums:
            prog = False
            for c in list(nums):
                dep = {keys[k] for m in c.M['terms'] for k in uses(m, keys) if keys[k] is not c}
                if all(d.cf is not None for d in dep):
                    try:
                        self.close(c)
                    except Unsupported:
                        continue
                    nums.remove(c)
                    todo.remove(c)
                    prog = done = True
        if done and todo:
            oldc = self.ip.collect
            self.ip.collect = False
            try:
                self.paths = self.run_paths(self.t, lambda c: c.cf(self.t) if c.cf is not None else self.phval(c))
            finally:
                self.ip.collect = oldc
        remaining()
        while todo:
            prog = False
            for c in list(todo):
                dep = set()
                for m in c.M['terms']:
                    for k in uses(m, keys):
                        if keys[k] is not c:
                            dep.add(keys[k])
                if all(d.cf is not None for d in dep):
                    self.close(c)
                    todo.remove(c)
                    prog = True
            if not prog:
                raise Unsupported('mutually dependent loop state: %s' % ', '.join(str(c.where[1]) for c in todo))

    def init_value(self, c):
        return c.init

    def at_path(self, p, r, shape, f):
        ip = self.ip
        old = ip.pc
        ip.pc = old + [x for x in p.facts if x not in old] + ip.np.ranges(shape, r)
        try:
            return f()
        finally:
            ip.pc = old

    def merged(self, c, paths):
        ip = self.ip
        if c.kind == 'num':
            vals = []
            for p in paths:
                v = p.env[c.where[1]]
                vals.append(v.t if c.ty in ('bool', 'b1') else v.arith())
            m = merge(paths, vals)
            return {'terms': [m], 'm': m}
        if c.kind == 'seq':
            apps = []
            for p in paths:
                o = self.post_obj(p, c)
                if not isinstance(o, SeqList) or o.key != c.key:
                    raise Unsupported('list rebuilt in loop')
                apps.append(o.appended)
            n = {len(a) for a in apps}
            if not n <= {0, 1}:
                raise Unsupported('several appends per iteration')
            cond = TRUE
            if 0 in n:
                cond = bor(*[band(*p.conds) for p, a in zip(paths, apps) if a])
            pa = [(p, a[0]) for p, a in zip(paths, apps) if a]
            if not pa:
                return {'terms': [], 'cond': FALSE, 'elem': None}
            first_ = pa[0][1]
            if isinstance(first_, Num):
                ty = first_.ty
                for p, a in pa:
                    if not isinstance(a, Num):
                        raise Unsupported('mixed list')
                    ty = widen(ty, a.ty)
                isb = ty in ('bool', 'b1')
                m = merge([p for p, a in pa], [a.t if isb else a.arith() for p, a in pa])
                nan = merge([p for p, a in pa], [a.nan for p, a in pa])
                return {'terms': [cond, m, nan], 'cond': cond, 'elem': (m, nan), 'ty': ty, 'inner': ()}
            arrs = []
            for p, a in pa:
                if not isinstance(a, Ref) or not isinstance(p.heap[a.id], ArrObj):
                    raise Unsupported('list of %r' % (a,))
                arrs.append(p.heap[a.id])
            sh = arrs[0].shape
            r = [fresh('r', 'I') for _ in sh]
            dt = arrs[0].dtype
            vals, nans = [], []
            for (p, _), o in zip(pa, arrs):
                if len(o.shape) != len(sh) or any(solve.entails(p.facts + ip.pc, eq(x, y)) is not True for x, y in zip(o.shape, sh)):
                    raise Unsupported('ragged list')
                t, n_ = self.at_path(p, r, sh, lambda: o.at(*r))
                vals.append(t)
                nans.append(n_)
                dt = join(dt, o.dtype)
            m, nan = merge([p for p, a in pa], vals), merge([p for p, a in pa], nans)
            return {'terms': [cond, m, nan], 'cond': cond, 'elem': (m, nan), 'ty': SC[dt], 'inner': sh, 'r': r}
        # arrays
        r = unit_index(c.init.shape, [fresh('r', 'I') for _ in c.init.shape])
        vals, nans, writes = [], [], []
        ok = True
        for p in paths:
            o = self.post_obj(p, c)
            for x, y in zip(o.shape, c.init.shape):
                if solve.entails(p.facts + ip.pc, eq(x, y)) is not True:
                    raise Unsupported('loop array changes shape')
            layers = self.layers(c, o)
            if layers is None:
                ok = False
            else:
                for ob in layers:
                    writes.append((p, ob))
            t, n_ = self.at_path(p, r, c.init.shape, lambda: o.at(*r))
            vals.append(t)
            nans.append(n_)
        m, nan = merge(paths, vals), merge(paths, nans)
        return {'terms': [m, nan], 'm': m, 'nan': nan, 'r': r, 'writes': writes if ok else None}

    def layers(self, c, o):
        out = []
        while o.base is not None:
            out.append(o)
            o = o.base
        # the bottom must be the placeholder
        r = unit_index(o.shape, [fresh('r', 'I') for _ in o.shape])
        t, _ = o.at(*r)
        if t.op == 'uf' and t.args[0] == c.key and list(t.args[1:]) == r:
            return out
        return None

    # replace the placeholders of resolved carriers by their closed forms at iteration self.t
    def inst(self, t, skip=None):
        keys = self.keys

        def f(name, args, term):
            c = keys.get(name)
            if c is None or c is skip or c.cf is None:
                return None
            v = c.cf(self.t)
            if c.kind == 'num':
                return v.t if name == c.key else v.nan
            x = v.at(*args)
            return x[0] if name == c.key else x[1]
        rng = [le(ZERO, self.t)]
        if self.N is not None:
            rng.append(lt(self.t, self.N))
        with self.ip.np.assuming(*rng):
            return map_uf(t, f)

    def close(self, c):
        ip = self.ip
        t = self.t
        ok = []
        if c.kind == 'num':
            m = self.inst(c.M['m'], c)
            ph = self.phval(c).t
            g = self.guard_at(t)
            isb = c.ty in ('bool', 'b1')
            init = c.init.t if isb else c.init.arith()
            fn = self.closed_scalar(init, m, ph, c)
            ty = c.ty
            c.cf = lambda s: Num(fn(s), ty)
            return
        if c.kind == 'seq':
            return self.close_seq(c)
        return self.close_arr(c)

    def closed_scalar(self, init, m, ph, c, extra=()):
        """closed form of x_{t+1} = m(x_t, t) (only under the guard), x_0 = init"""
        t = self.t
        g = self.guard_at(t)
        if ph.sort == 'B':
            return self.closed_bool(init, m, ph)
        if m is ph:
            return lambda s: init
        keys = {c.key, c.nankey}
        d = m - ph
        if not uses(d, keys):
            # accumulation
            body = mul(ind(g), d)
            def fn(s):
                j = fresh('j', 'I')
                return init + mk_sum(ZERO, s, j, subst(body, {t: j}))
            return fn
        if not uses(m, keys):
            if g is TRUE:
                def fn(s):
                    return cite(le(s, ZERO), init, subst(m, {t: s - 1}))
                return fn
            if t not in free_vars(m):
                def fn(s):
                    j = fresh('j', 'I')
                    return ite(exists(ZERO, s, j, subst(g, {t: j})), m, init)
                return fn
        ext = self.running_extremum(init, m, ph, g)
        if ext is not None:
            return ext
        cond = self.last_update(init, m, ph, g)
        if cond is not None:
            return cond
        if len(pdict(m)) > 4000:
            raise Unsupported('large recurrence')
        # general self recurrence
        s0 = fresh('s', 'I')
        body = m if g is TRUE else ite(g, m, ph)
        if solve.captured(m, keys):
            raise Unsupported('nested recurrence')
        prev = uf('self', s0 - 1, *extra, sort='R')
        b = subst(body, {t: s0 - 1})
        b = map_uf(b, lambda name, args, term: prev if name == c.key else None)
        l = solve.check_rec(lam([s0] + list(extra), ite(le(s0, ZERO), init, b)))
        return lambda s: uf('rec', l, s, *extra, sort='R')

    def closed_bool(self, init, m, ph):
        t = self.t
        g = self.guard_at(t)
        if m is ph:
            return lambda s: init
        hi, lo = subst(m, {ph: TRUE}), subst(m, {ph: FALSE})
        if hi is TRUE:      # x or lo
            def fn(s):
                j = fresh('j', 'I')
                return bor(init, exists(ZERO, s, j, subst(band(g, lo), {t: j})))
            return fn
        if lo is FALSE:     # x and hi
            def fn(s):
                j = fresh('j', 'I')
                return band(init, forall(ZERO, s, j, subst(imp(g, hi), {t: j})))
            return fn
        if hi is lo and g is TRUE:
            return lambda s: bite(le(s, ZERO), init, subst(hi, {t: s - 1}))
        if hi is bnot(lo) and lo is TRUE and g is TRUE and init in (TRUE, FALSE):
            # alternating flag
            k = 0 if init is TRUE else 1
            return lambda s: eq(mod(s, num(2)), num(k))
        raise Unsupported('boolean loop state')

    def running_extremum(self, init, m, ph, g):
        t = self.t
        inds = [s for s in all_subterms([m], into_lam=False) if s.op == 'ind' and ph in all_subterms([s])]
        if len(inds) != 1 or g is not TRUE:
            return None
        i = inds[0]
        a, b = subst(m, {i: ONE}), subst(m, {i: ZERO})
        e = b if a is ph else a if b is ph else None
        if e is None or ph in all_subterms([e]):
            return None
        ip = self.ip
        old = ip.pc
        for kind, f in (('amin', tmin), ('amax', tmax)):
            if solve.entails(ip.pc, eq(m, f(ph, e))) is True:
                def fn(s, kind=kind, f=f):
                    j = fresh('j', 'I')
                    if s.op == 'num' and s.args[0] <= 0:
                        return init
                    return ite(le(s, ZERO), init, f(init, extremum(kind, ZERO, s, j, subst(e, {t: j}))))
                return fn
        return None

    def last_update(self, init, m, ph, g):
        """m = if c(t) then v else ph, with v independent of the iteration"""
        t = self.t
        inds = [s for s in all_subterms([m], into_lam=False) if s.op == 'ind']
        if ph in set().union(*[all_subterms([s]) for s in inds]) if inds else True:
            return None
        lin = _lin(m, ph)
        if lin is None:
            return None
        c1, c0 = lin     # m = c1*ph + c0, c1 must be an indicator polynomial
        v = None
        keep = eq(c1, ONE)
        drop = eq(c1, ZERO)
        if solve.entails(self.ip.pc + self.ranges(t), bor(keep, drop)) is not True:
            return None
        upd = drop
        vals = solve.simplify_under(self.ip.pc + [drop], c0)
        if t in free_vars(vals):
            return None
        if solve.prove(self.ip.pc + self.ranges(t), imp(keep, eq(c0, ZERO))).status != 'proved':
            return None
        def fn(s):
            j = fresh('j', 'I')
            return ite(exists(ZERO, s, j, subst(band(g, upd), {t: j})), vals, init)
        return fn

    def close_seq(self, c):
        ip = self.ip
        t = self.t
        M = c.M
        init = c.init
        if isinstance(init, ListObj):
            items = init.items
            pylist = True
        else:
            items = []
            pylist = init.pylist
        if M['elem'] is None:
            c.cf = lambda s: init
            return
        cond = self.inst(M['cond'], c)
        m = self.inst(M['elem'][0], c)
        nan = self.inst(M['elem'][1], c)
        keys = {c.key, c.nankey}
        g = band(self.guard_at(t), cond)
        if uses(cond, keys) or uses(nan, keys):
            raise Unsupported('list contents steer the loop')
        code = TYCODE[M['ty']]
        note = 'npelems' if M['ty'] in ('f8', 'i8', 'b1') else None
        inner = M['inner']
        rr = M.get('r', [])
        if not pylist and code == 'i' and init.dtype == 'f':
            code = 'f'
        k0 = len(items)
        selfref = bool(uses(m, keys))
        if g is not TRUE and getattr(c, 'lenread', False):
            raise Unsupported('list read while conditionally built')
        if g is not TRUE:
            if items or inner or selfref:
                raise Unsupported('conditional appends')
            def cf(s):
                ident = m is t
                a = ip.np.filt_arr(s, lambda i: subst(g, {t: i}), lambda i: (subst(m, {t: i}), subst(nan, {t: i})), code, identity=ident)
                a.pylist, a.note = pylist, note
                return a
            c.cf = cf
            return
        if items:
            if inner or not all(isinstance(x, Num) for x in items):
                raise Unsupported('appending to a non-empty list')
            for x in items:
                code = join(code, TYCODE[x.ty])
            ia = ip.np.from_items(items)
            head = lambda i: ia.at(i)
        if selfref:
            # element k0+t in terms of earlier ones: strong recursion over the position
            s0 = fresh('s', 'I')
            if solve.captured(m, keys):
                raise Unsupported('nested recurrence')
            b = subst(m, {t: s0 - k0})
            def f(name, args, term):
                return uf('self', *args, sort='R') if name == c.key else None
            b = map_uf(b, f)
            l = solve.check_rec(lam([s0], ite(lt(s0, num(k0)), head(s0)[0] if items else ZERO, b)))
            el = lambda i: (uf('rec', l, i, sort='R'), FALSE)
        elif items:
            def el(i):
                x = head(i)
                mm = {t: i - k0}
                cc = lt(i, num(k0))
                return (cite(cc, x[0], subst(m, mm)), bite(cc, x[1], subst(nan, mm)))
        elif inner:
            def el(i, *r):
                mm = {t: i}
                mm.update(zip(rr, r))
                return (subst(m, mm), subst(nan, mm))
        else:
            def el(i):
                return (subst(m, {t: i}), subst(nan, {t: i}))

        def cf(s):
            return ArrObj((s + k0,) + tuple(inner), el, code, pylist=pylist, note=note)
        c.cf = cf

    # -- arrays -----------------------------------------------------------------------------
    def close_arr(self, c):
        ip = self.ip
        t = self.t
        M = c.M
        r = M['r']
        init = c.init
        keys = {c.key, c.nankey}
        m, nan = self.inst(M['m'], c), self.inst(M['nan'], c)
        w = None
        if M['writes'] is not None:
            w = self.writer(c, M, r)
        if w is None:
            # every cell evolves on its own
            if c.maybe_nan:
                raise Unsupported('NaN in accumulated array')
            sort = {'i': 'I', 'b': 'B'}.get(c.ty, 'R')
            ph = uf(c.key, *r, sort=sort)
            marker = var('cell!%d' % self.lid, sort)
            bad = []

            def f(name, args, term):
                if name == c.key:
                    if all(a is b for a, b in zip(args, r)):
                        return marker
                    bad.append(args)
                return None
            m1 = map_uf(m, f)
            if bad:
                # cells read and written at the same place, as in a[k[t]] += v
                with ip.np.assuming(*self.ranges(t), *ip.np.ranges(init.shape, r)):
                    hyps = list(ip.pc)
                    for args in set(map(tuple, bad)):
                        hyps.append(imp(band(*[eq(a, b) for a, b in zip(args, r)]), eq(uf(c.key, *args, sort=sort), ph)))
                    m2 = map_uf(m, lambda name, args, term: ph if name == c.key else None)
                    if solve.prove(hyps, eq(m, m2)).status != 'proved':
                        raise Unsupported('cross-cell recurrence')
                m1 = map_uf(m2, lambda name, args, term: marker if name == c.key else None)
            c2 = Carrier('num', c.where, marker.args[0])
            rngs = ip.np.ranges(init.shape, r)
            with ip.np.assuming(*rngs):
                init_t = init.at(*r)[0]
                fn1 = self.closed_scalar(init_t, m1, marker, c2, extra=tuple(x for x in r if x.op == 'var'))
            def cf(s):
                v = fn1(s)
                return ArrObj(init.shape, lambda *i: (subst(v, rsub(r, i)), FALSE), c.ty)
            c.cf = cf
            return
        tau, sel = w              # tau(*r) the only iteration that may write cell r, if sel
        with ip.np.assuming(*ip.np.ranges(init.shape, r)):
            A0 = init.at(*r)
            tr = tau(*r)
            g = self.guard_at(t)
            gr = subst(band(g, le(ZERO, t)) if self.N is None else band(g, le(ZERO, t), lt(t, self.N)), {t: tr})
            if sel is not TRUE and solve.prove(ip.pc + self.rank_facts(r, tr) + [sel], gr, 4000).status == 'proved':
                gr = sel
            gr = self.simp(band(sel, gr))
            hy = [gr] if gr is not TRUE else []
            with ip.np.assuming(*hy):
                sub = {t: tr}
                self_used = []

                def rd(name, args, term):
                    if name not in keys:
                        return None
                    if all(a is b for a, b in zip(args, r)):
                        # own cell before the write: not written earlier
                        return A0[0] if name == c.key else A0[1]
                    tq = tau(*args)
                    a0 = init.at(*args)
                    d = solve.entails(ip.pc + self.run_fact(args, tr), band(lt(tq, tr)))
                    if d is False:
                        return a0[0] if name == c.key else a0[1]
                    if name == c.nankey:
                        # NaN flags: not written earlier, or written with the same flag formula
                        raise Unsupported('NaN recurrence')
                    self_used.append(args)
                    s = uf('self', *args, sort=term.sort)
                    if d is True:
                        return s
                    return ite(lt(tq, tr), s, a0[0])
                if solve.captured(m, keys) and M['writes'] is not None:
                    raise Unsupported('nested recurrence')
                mv = map_uf(subst(m, sub), rd)
                if sel is not TRUE:
                    mv = solve.simplify_under(ip.pc, mv)
                nv = self.nan_value(c, nan, sub, keys, r, tau, tr, A0, init)
            if any(t in free_vars(x) for x in (mv, nv)):
                raise Unsupported('loop write')
            if self_used:
                sort = A0[0].sort if A0[0].sort == 'B' else 'R'
                if any(x.op != 'var' for x in r):
                    raise Unsupported('recurrence in a unit dimension')
                l = solve.check_rec(lam(r, ite(gr, mv, A0[0])))
                val = lambda *i: uf('rec', l, *i, sort='R')
            else:
                val = lambda *i: subst(mv, rsub(r, i))

        ty = c.ty

        def cf(s):
            def pred(*i):
                tq = tau(*i)
                cs = [subst(gr, rsub(r, i)), lt(tq, s)]
                if self.N is not None and s is self.N:
                    cs = [subst(gr, rsub(r, i))]
                return band(*cs)

            def fn(*i):
                p = self.simp(pred(*i))
                if p is TRUE:
                    return (val(*i), subst(nv, rsub(r, i)))
                a0 = init.at(*i)
                if p is FALSE:
                    return a0
                return (ite(p, val(*i), a0[0]), bite(p, subst(nv, rsub(r, i)), a0[1]))
            return ArrObj(init.shape, fn, ty, base=init, wpred=lambda *i: pred(*i),
                          wval=lambda *i: (val(*i), subst(nv, rsub(r, i))), pylist=init.pylist, note=init.note)
        c.cf = cf

    def nan_value(self, c, nan, sub, keys, r, tau, tr, A0, init):
        ip = self.ip
        if not c.maybe_nan:
            return FALSE
        n = subst(nan, sub)

        def rd(name, args, term):
            if name not in keys:
                return None
            if all(a is b for a, b in zip(args, r)):
                return A0[0] if name == c.key else A0[1]
            tq = tau(*args)
            a0 = init.at(*args)
            if solve.entails(ip.pc + self.run_fact(args, tr), lt(tq, tr)) is False:
                return a0[0] if name == c.key else a0[1]
            raise Unsupported('NaN recurrence')
        return map_uf(n, rd)

    def rank_facts(self, r, s):
        """of a selected position e: there are as many selected before it as its rank says, it is the only one of that rank"""
        out = []
        for en, e, d, r0 in self.ranks:
            e = subst(e, {r0[i]: r[i] for i in r0})
            _, l, N, k = en.args
            k = subst(k, {self.t: s})
            j = fresh('j', 'I')
            rank, cnt = mk_sum(ZERO, e, j, ind(apply(l, j))), mk_sum(ZERO, N, j, ind(apply(l, j)))
            inside = band(le(ZERO, e), lt(e, N), apply(l, e))
            out += [imp(inside, band(le(ZERO, rank), lt(rank, cnt))),
                    imp(band(le(ZERO, k), lt(k, cnt)), iff(eq(uf('enum', l, N, k, sort='I'), e), band(inside, eq(rank, k))))]
        return out

    def run_fact(self, args, tr):
        """the run containing cell q, seen from the start tr of a run: every cell from the run's start to q is selected"""
        if getattr(self, 'runs', None) is None or len(args) != 1:
            return []
        N, P = self.runs
        q = args[0]
        k = fresh('k', 'I')
        f = first(ZERO, q + 1, k, bnot(P(q - k)))
        return [imp(band(le(ZERO, c), lt(c, f)), P(q - c)) for c in (q - tr, q - tr + 1)]

    def simp(self, c):
        """drop conjuncts known in the current context"""
        ip = self.ip
        if c.op == 'and':
            out = []
            for x in c.args:
                d = solve.entails(ip.pc, x)
                if d is True:
                    continue
                if d is False:
                    return FALSE
                out.append(x)
            return band(*out)
        d = solve.entails(ip.pc, c)
        return TRUE if d is True else FALSE if d is False else c

    def writer(self, c, M, r):
        """tau: cell -> the iteration writing it"""
        t = self.t
        taus = []
        ip = self.ip
        self.ranks = []
        runs = getattr(self.it, 'facts', None)
        for p, o in M['writes']:
            pr = self.at_path(p, r, c.init.shape, lambda: o.wpred(*r))
            pr = self.inst(pr, c)
            parts = pr.args if pr.op == 'and' else (pr,)
            best, sel = None, TRUE
            for x in parts:
                if x.op == 'eq':
                    lr = _lin_t(x.args[0], t)
                    if lr and abs(lr[0]) == 1:
                        e = neg(lr[1]) if lr[0] == 1 else lr[1]
                        if not uses(e, {c.key, c.nankey}):
                            best = e
                            break
                    for m, co in pdict(x.args[0]).items():
                        if len(m) != 1 or m[0][1] != 1 or abs(co) != 1:
                            continue
                        en = m[0][0]
                        e = (en - x.args[0]) if co == 1 else x.args[0] + en
                        # positions selected in increasing order: the iteration is the cell's rank
                        if en.op == 'uf' and en.args[0] == 'enum' and not uses(en.args[1], {t.args[0]}) and t not in free_vars(e):
                            k = _lin_t(en.args[3], t)
                            if k and k[0] == 1 and t not in free_vars(en.args[1]) and t not in free_vars(en.args[2]):
                                j = fresh('j', 'I')
                                best = mk_sum(ZERO, e, j, ind(apply(en.args[1], j))) - k[1]
                                sel = apply(en.args[1], e)
                                self.ranks.append((en, e, k[1], dict(enumerate(r))))
                    if best is not None:
                        break
            if best is None and runs and runs[0] == 'runs' and len(r) == 1:
                N, P = runs[1], runs[2]
                k = fresh('k', 'I')
                e = r[0] + 1 - first(ZERO, r[0] + 1, k, bnot(P(r[0] - k)))
                # every write stays inside the run starting at t
                hy = ip.pc + p.facts + ip.np.ranges(c.init.shape, r) + [pr]
                kk = fresh('k', 'I')
                end = first(t, N, kk, bnot(P(kk))) - 1
                if solve.prove(hy, band(le(t, r[0]), le(r[0], end))).status != 'proved':
                    return None
                best = e
                self.runs = (N, P)
            if best is None:
                return None
            if taus and taus[0] != (best, sel):
                return None
            taus.append((best, sel))
        if not taus:
            return None
        e, sel = taus[0]
        if any(x not in r for v in (e, sel) for x in free_vars(v) if x.op == 'var' and x.args[0].startswith('r!')):
            return None
        return (lambda *i: subst(e, dict(zip(r, i)))), sel

    # -- validation ------------------------------------------------------------------------
    def closed_at(self, s):
        def valof(c):
            return self.seqval(c, s) if c.kind == 'seq' else c.cf(s)
        return valof

    def settle(self, s):
        """lists under construction become ordinary values when the loop is left early"""
        ip = self.ip
        for w, c in self.car.items():
            if c.kind != 'seq':
                continue
            ref = ip.frame.env[w[1]] if w[0] == 'v' else Ref(w[1])
            if not isinstance(ref, Ref):
                continue
            o = ip.heap[ref.id]
            if isinstance(o, SeqList) and o.key == c.key:
                a = c.cf(s)
                if isinstance(a, ListObj):
                    a = ListObj(a.items + list(o.appended))
                elif o.appended:
                    if a.filt:
                        raise Unsupported('append before leaving the loop')
                    tail = ip.np.from_items(list(o.appended))
                    r = ip.np._concat([a, tail], False, None)
                    a = ip.np.getarr(r).copy_as(pylist=a.pylist, note=a.note)
                ip.heap[ref.id] = a

    def validate(self):
        """re-execute the body from the closed forms; collect obligations; check inductiveness"""
        ip = self.ip
        if not ip.collect:
            return
        s = fresh('t', 'I')
        before = self.not_exited(s)
        paths = []

        def thunk():
            for c in self.ranges(s):
                ip.assume(c)
            ip.assume(before)
            self.install(self.closed_at(s))
            try:
                self.step(s)
            except PContinue:
                pass
            except WhileExit:
                return 'whileexit'
        paths = ip.explore(thunk)
        for p in paths:
            if p.outcome != 'normal' or p.value == 'whileexit':
                continue
            for w, c in self.car.items():
                self.check_step(p, c, s)

    def check_step(self, p, c, s):
        ip = self.ip
        old = ip.pc
        ip.pc = old + [x for x in p.facts if x not in old]
        nxt = s + 1
        try:
            if self.guard is not None:
                pass
            if c.kind == 'num':
                v = p.env[c.where[1]]
                want = c.cf(nxt)
                goal = eq(v.t if v.t.sort == 'B' else v.arith(), want.t)
                self.expect(goal, c)
            elif c.kind == 'arr':
                o = self.post_obj(p, c)
                r = [fresh('r', 'I') for _ in o.shape]
                ip.pc = ip.pc + ip.np.ranges(o.shape, r)
                x, nx = o.at(*r)
                y, ny = c.cf(nxt).at(*r)
                cases = [TRUE]
                if getattr(self, 'ranks', None) and len(self.ranks[0][3]) == len(r):
                    ip.pc = ip.pc + self.rank_facts(r, s)
                    w = eq(subst(self.ranks[0][0], {self.t: s}), subst(self.ranks[0][1], dict(zip(self.ranks[0][3].values(), r))))
                    cases = [w, bnot(w)]
                pc = ip.pc
                for case in cases:
                    ip.pc = pc + [case]
                    self.expect(eq(x, y), c)
                    self.expect(iff(nx, ny), c)
        finally:
            ip.pc = old

    def expect(self, goal, c):
        ip = self.ip
        ip.inv_checked = getattr(ip, 'inv_checked', 0) + 1
        r = solve.prove(ip.pc, goal, 4000)
        if r.status != 'proved':
            raise Unsupported('inferred loop invariant for %s not confirmed inductive' % (c.where[1],))

    # -- exits --------------------------------------------------------------------------------
    def exit_cond(self):
        ex = self.exits()
        if not ex:
            return FALSE
        return self.inst(bor(*[band(*p.conds) for p in ex]))

    def not_exited(self, s):
        if self.E is FALSE:
            return TRUE
        j = fresh('j', 'I')
        return forall(ZERO, s, j, imp(subst(self.guard_at(self.t), {self.t: j}), bnot(subst(self.E, {self.t: j}))))

    def final(self, s, n_iter_known):
        """state after s complete iterations"""
        ip = self.ip
        env = ip.frame.env
        temps = {}
        for n in self.names:
            if ('v', n) in self.car:
                continue
            temps[n] = self.temp_value(n, s)
        for n, v in temps.items():
            if v is NotImplemented:
                env[n] = PoisonVal((self.lid, n))
            elif v is None:
                env.pop(n, None)
            else:
                env[n] = v
        for w, c in self.car.items():
            v = c.cf(s)
            if w[0] == 'v':
                env[w[1]] = v if c.kind == 'num' else ip.new(v)
            else:
                ip.heap[w[1]] = v

    def temp_value(self, n, s):
        """value of a temporary after s iterations"""
        ip = self.ip
        np_ = self.normal()
        if self.guard is not None or not np_:
            return NotImplemented
        vals = []
        ty = None
        for p in np_:
            v = p.env.get(n)
            if isinstance(v, PoisonVal):
                return NotImplemented
            if not isinstance(v, Num):
                return NotImplemented
            ty = v.ty if ty is None else widen(ty, v.ty)
            vals.append(v)
        isb = ty in ('bool', 'b1')
        m = merge(np_, [v.t if isb else v.arith() for v in vals])
        nan = merge(np_, [v.nan for v in vals])
        try:
            m, nan = self.inst(m), self.inst(nan)
        except Unsupported:
            return NotImplemented
        if uses(m, self.keys) or uses(nan, self.keys):
            return NotImplemented
        at = {self.t: s - 1}
        d = solve.entails(ip.pc, lt(ZERO, s))
        if d is True:
            return Num(subst(m, at), ty, subst(nan, at))
        iv = self.env0.get(n)
        if d is False:
            return iv if n in self.env0 else None
        if isinstance(iv, Num):
            c = lt(ZERO, s)
            return Num(ite(c, subst(m, at), iv.t), widen(ty, iv.ty), bite(c, subst(nan, at), iv.nan))
        return NotImplemented

    def run(self, orelse):
        ip = self.ip
        self.discover()
        self.resolve()
        self.E = self.exit_cond()
        if uses(self.E, self.keys):
            raise Unsupported('exit condition')
        t = self.t
        if self.N is None:
            self.bound_while()
        self.validate()
        if self.E is FALSE:
            self.final(self.N, True)
            self.facts(self.N)
            ip.block(orelse)
            return
        # search for the first exiting iteration
        j = fresh('j', 'I')
        tend = first(ZERO, self.N, j, subst(band(self.guard_at(t), self.E), {t: j}))
        if ip.decide(lt(tend, self.N)):
            s = tend
            ip.assume(le(ZERO, s))
            g = subst(band(self.guard_at(t), self.E), {t: s})
            ip.assume(g)
            ip.assume(self.not_exited(s))
            self.install(self.closed_at(s))
            try:
                self.step(s)
            except PBreak:
                self.settle(s)
                return
            except PContinue:
                pass
            except PReturn:
                self.settle(s)
                raise
            except WhileExit:
                self.settle(s)
                ip.block(orelse)
                return
            raise Infeasible()
        ip.assume(self.not_exited(self.N))
        self.final(self.N, True)
        self.facts(self.N)
        ip.block(orelse)

    def facts(self, s):
        pass

    def bound_while(self):
        """while loop: the test failing must be monotone in the iteration number"""
        ip = self.ip
        t = self.t
        ws = [p for p in self.paths if p.outcome == 'normal' and p.value == 'whileexit']
        if not ws:
            raise Unsupported('while without exit')
        W = self.inst(bor(*[band(*p.conds) for p in ws]))
        lit = W.args[0] if W.op == 'not' else W
        N = None
        if lit.op == 'le' and lit.args[0].sort == 'I':
            lr = _lin_t(lit.args[0], t)
            if lr and abs(lr[0]) == 1:
                c, r = lr
                if W.op == 'not':
                    c, r = -c, ONE - r
                if c == -1:
                    N = cmax(ZERO, r)
        if N is None:
            raise Unsupported('while loop without a counter')
        self.N = N
        self.paths = [p for p in self.paths if p not in ws]
        self.E = self.exit_cond()


def _lin(p, x):
    """p = c1*x + c0 with c1, c0 free of x"""
    c1, c0 = {}, {}
    for m, k in pdict(p).items():
        d = dict(m)
        e = d.pop(x, 0)
        if any(x in all_subterms([a]) for a in d):
            return None
        mm = tuple(ae for ae in m if ae[0] is not x)
        if e == 1:
            c1[mm] = c1.get(mm, 0) + k
        elif e == 0:
            c0[mm] = c0.get(mm, 0) + k
        else:
            return None
    return from_pdict(c1), from_pdict(c0)


def _lin_t(p, t):
    return _term._lin_in(p, t)


def bind_target(ip, target, v):
    ip.assign(target, v)


def run_for(ip, s, it):
    conc = ip.np.concrete(it)
    if conc is not None and len(conc) > 6 and not isinstance(it, list):
        # long but fixed: summarise it, unroll only if that fails
        saved = dict(ip.heap), list(ip.pc), dict(ip.frame.env), len(ip.obls)
        names = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))] + s.body)

        def step1(t):
            ip.assign(s.target, it.item(t))
            ip.block(s.body)
        try:
            return Loop(ip, s.body, names, it, step1).run(s.orelse)
        except (Unsupported, TooBig):
            ip.heap, ip.pc, ip.frame.env = dict(saved[0]), list(saved[1]), dict(saved[2])
            del ip.obls[saved[3]:]
    if conc is not None:
        for x in conc:
            ip.assign(s.target, x)
            try:
                ip.block(s.body)
            except PBreak:
                return
            except PContinue:
                pass
        ip.block(s.orelse)
        return
    inv = find_invariant(ip, s)
    if inv is not None:
        return invariant_for(ip, s, it, inv)
    names = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))] + s.body)

    def step(t):
        ip.assign(s.target, it.item(t))
        ip.block(s.body)
    saved = dict(ip.heap), list(ip.pc), dict(ip.frame.env), len(ip.obls)
    try:
        Loop(ip, s.body, names, it, step).run(s.orelse)
    except Unsupported:
        ip.heap, ip.pc, ip.frame.env = dict(saved[0]), list(saved[1]), dict(saved[2])
        if solve.entails(ip.pc, le(it.N, ZERO)) is not True:
            raise
        # a body that does not run
        del ip.obls[saved[3]:]
        ip.block(s.orelse)


def run_while(ip, s):
    inv = find_invariant(ip, s)
    if inv is not None:
        return invariant_while(ip, s, inv)
    # concrete prefix: nothing symbolic decides the test
    names = assigned_names(s.body)

    def step(t):
        if not ip.truth(ip.eval(s.test)):
            raise WhileExit()
        ip.block(s.body)
    Loop(ip, s.body, names, Iter(None, None), step).run(s.orelse)


# -- comprehensions ---------------------------------------------------------------------
def gen_iter(ip, gv):
    old = ip.frame
    ip.frame = gv.frame
    try:
        return comp_iter(ip, gv.node)
    finally:
        ip.frame = old


def comp_iter(ip, node):
    """Iter or python list for a one-level comprehension"""
    if len(node.generators) != 1:
        return comp_nested(ip, node)
    gen = node.generators[0]
    it = ip.np.iterate(ip.eval(gen.iter))
    conc = ip.np.concrete(it)
    from .interp import Frame
    if conc is not None:
        out = []
        fr = ip.frame
        ip.frame = Frame({}, fr.module, fr, fr.func)
        try:
            for x in conc:
                ip.assign(gen.target, x)
                if all(ip.truth(ip.eval(c)) for c in gen.ifs):
                    out.append(ip.eval(node.elt))
        finally:
            ip.frame = fr
        return out
    t = fresh('t', 'I')
    fr = ip.frame
    rng = [le(ZERO, t), lt(t, it.N)]
    if it.guard is not None:
        rng.append(it.guard(t))

    def thunk():
        for c in rng:
            ip.assume(c)
        ip.frame = Frame({}, fr.module, fr, fr.func)
        try:
            ip.assign(gen.target, it.item(t))
            for c in gen.ifs:
                if not ip.truth(ip.eval(c)):
                    return 'skip'
            return ('v', ip.eval(node.elt))
        finally:
            ip.frame = fr
    paths = ip.explore(thunk)
    bad = [p for p in paths if p.outcome != 'normal']
    if bad:
        for p in bad:
            cond = band(*p.conds)
            j = fresh('j', 'I')
            g = band(it.guard(j), subst(cond, {t: j})) if it.guard is not None else subst(cond, {t: j})
            if ip.decide(exists(ZERO, it.N, j, g)):
                raise PRaise(p.value.etype)
        paths = [p for p in paths if p.outcome == 'normal']
    keep = [p for p in paths if p.value != 'skip']
    if not keep:
        return []
    guard = it.guard
    if len(keep) < len(paths):
        cond = bor(*[band(*p.conds) for p in keep])
        g0 = it.guard
        guard = lambda i: band(g0(i), subst(cond, {t: i})) if g0 is not None else subst(cond, {t: i})
    vals = [p.value[1] for p in keep]
    item = merged_item(ip, keep, vals, t)
    return Iter(it.N, item, guard=guard)


def merged_item(ip, paths, vals, t):
    if all(isinstance(v, Num) for v in vals):
        ty = vals[0].ty
        for v in vals:
            ty = widen(ty, v.ty)
        isb = ty in ('bool', 'b1')
        m = merge(paths, [v.t if isb else v.arith() for v in vals])
        nan = merge(paths, [v.nan for v in vals])
        return lambda i: Num(subst(m, {t: i}), ty, subst(nan, {t: i}))
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        parts = [merged_item(ip, paths, [v[k] for v in vals], t) for k in range(len(vals[0]))]
        return lambda i: tuple(f(i) for f in parts)
    if len(vals) == 1 and isinstance(vals[0], Ref) and isinstance(paths[0].heap[vals[0].id], ArrObj):
        o = paths[0].heap[vals[0].id]
        r = [fresh('r', 'I') for _ in o.shape]
        old = ip.pc
        ip.pc = old + paths[0].facts + ip.np.ranges(o.shape, r)
        try:
            m, nan = o.at(*r)
        finally:
            ip.pc = old
        if any(t in free_vars(d) for d in o.shape):
            raise Unsupported('ragged list')

        def item(i):
            return ip.new(ArrObj(o.shape, lambda *rr: (subst(m, dict(zip([t] + r, [i] + list(rr)))),
                                                       subst(nan, dict(zip([t] + r, [i] + list(rr))))), o.dtype))
        return item
    raise Unsupported('comprehension element')


def comp_nested(ip, node):
    raise Unsupported('nested comprehension')


def comprehension(ip, node):
    it = comp_iter(ip, node)
    if isinstance(it, list):
        return ip.new(ListObj(it))
    return ip.new(ip.np.list_of_iter(it))


# -- explicit invariants --------------------------------------------------------------------
def find_invariant(ip, s):
    """the first invariant of the contract whose variables all exist here"""
    for inv in ip.invariants or ():
        if inv.moving and not set(inv.moving) <= set(assigned_names(s.body)):
            continue
        if all(isinstance(ip.frame.env.get(n), Num) for n in inv.names) and all(isarr1(ip, ip.frame.env.get(n)) for n in inv.arrs) \
                and all(listfact(ip, ip.frame.env.get(n)) for n in inv.lists):
            return inv
    return None


def havoc(ip, names, ints=None):
    for n in names:
        v = ip.frame.env.get(n)
        if isinstance(v, Num):
            if ints is not None and not v.isbool and n not in ints:
                ip.frame.env[n] = Num(fresh('h_' + n, 'R'), 'float')
            elif v.isbool:
                ip.frame.env[n] = Num(fresh('h_' + n, 'B'), v.ty)
            elif v.isint:
                ip.frame.env[n] = Num(fresh('h_' + n, 'I'), v.ty)
            else:
                ip.frame.env[n] = Num(fresh('h_' + n, 'R'), v.ty)
        else:
            ip.frame.env[n] = PoisonVal(('havoc', n))


def isarr1(ip, v):
    o = ip.heap.get(v.id) if isinstance(v, Ref) else None
    return isinstance(o, ArrObj) and o.ndim == 1 and o.dtype == 'f' and not o.pylist and o.filt is None and o.view is None


class ArrFact:
    """an array variable as an invariant sees it"""
    def __init__(self, o):
        self.o, self.n = o, o.shape[0]

    def __getitem__(self, i):
        return self.o.at(lift(i))[0]

    def nan(self, i):
        return self.o.at(lift(i))[1]


class ListFact:
    """a list of integers as an invariant sees it"""
    def __init__(self, n, at):
        self.n, self.at = n, at

    def __getitem__(self, i):
        return self.at(lift(i))


def listfact(ip, v):
    """the list behind v, if it is one of integers"""
    o = ip.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, ListObj) and all(isinstance(x, Num) and x.isint and not x.isbool for x in o.items):
        def at(i):
            r = ZERO
            for k, x in reversed(list(enumerate(o.items))):
                r = ite(eq(i, num(k)), x.t, r)
            return r
        return ListFact(num(len(o.items)), at)
    if isinstance(o, ArrObj) and o.pylist and o.ndim == 1 and o.dtype == 'i' and o.filt is None and o.view is None:
        return ListFact(o.shape[0], lambda i: o.at(i)[0])
    return None


class Inv:
    """a loop invariant given in a contract, over the local variables named in `names`: facts(E) -> [(label, formula)], E(name) -> term,
    E.t the number of iterations done so far (None: not a counted loop), E.calls(f), E.best(f): ghosts of the function parameter f.
    cuts: {local variable: facts(E, new value)} assertions on variables assigned in the body
    merge: {local variable: (kept variables, facts(E))} after the assignment to it in the body all paths continue as one, of which the facts are
    all that is known besides the kept variables, which the body has not changed by then
    also: variables that the loop does not assign but of whose values only the invariant is to be used
    arrs: one-dimensional float arrays the loop writes to or rebinds, {name: may hold NaN}; E.arr(name) is the array now; their length stays.
    {name: form(E, i) -> (value, NaN)} says that the array is given by form, which uses E.t and E(name) only; (value, NaN, where) says so of
    the values where the condition holds, and nothing of the others
    lists: lists of integers that the loop changes; E.list(name) is the list now
    moving: it is for a loop that assigns these"""
    def __init__(self, names, facts, ints=(), cuts=None, merge=None, also=(), arrs=None, lists=(), moving=()):
        self.lists, self.moving = lists, moving
        self.names, self.facts, self.ints, self.cuts, self.at, self.also = names, facts, ints, cuts or {}, merge or {}, also
        self.arrs = arrs or {}
        self.reached = {}

    def reach(self, ip, name):
        ip.cut_hits.add(name)
        keep, facts = self.at[name]
        E = self.E
        for n in keep:
            if ip.frame.env.get(n) is not self.start[n]:
                raise Unsupported('the invariant does not fit: %s has changed' % n)
        for n in self.names:
            if not isinstance(ip.frame.env.get(n), Num):
                raise Unsupported('the invariant does not fit: no local number %s' % n)
            if n in self.ints and not ip.frame.env[n].isint:
                raise Unsupported('the invariant does not fit: %s is no integer' % n)
            ip.oblige('assertion after %s: %s is a number' % (name, n), bnot(ip.frame.env[n].nan))
        new = ip.pos >= len(ip.trail) and not ip.muted
        for nm, g in facts(E):
            ip.oblige('assertion after %s: %s' % (name, nm), g)
        self.same_heap(ip, self.heap0)
        if new:
            if self.reached.get(name):
                raise Infeasible()
            self.reached[name] = True
        ip.pc = list(self.pc0)
        for n in self.assigned:
            if n not in keep and n not in self.names:
                ip.frame.env[n] = PoisonVal(n)
        havoc(ip, [n for n in self.names if n in self.assigned and n not in keep], self.ints)
        for g in ip.ghosts.values():
            ip.heap[g] = Ghost(fresh('calls', 'I'), fresh('best', 'R'))
        for nm, g in facts(E):
            ip.assume(g)
        if not solve.feasible(ip.pc):
            raise Infeasible()

    def __call__(self, ip, s, it, assigned):
        for n in self.names:
            if n not in ip.frame.env or not isinstance(ip.frame.env[n], Num):
                raise Unsupported('the invariant does not fit: no local number %s' % n)
        if it is not None and it.N is None:
            raise Unsupported('loop with an invariant over this range')
        if (self.arrs or self.lists) and self.at:
            raise Unsupported('arrays and join points')
        for n in self.lists:
            if listfact(ip, ip.frame.env.get(n)) is None:
                raise Unsupported('the invariant does not fit: no local list %s' % n)
        for n in self.arrs:
            if not isarr1(ip, ip.frame.env.get(n)):
                raise Unsupported('the invariant does not fit: no local array %s' % n)

        def E(n):
            return ip.frame.env[n].arith()
        E.arr = lambda n: ArrFact(ip.heap[ip.frame.env[n].id])
        E.calls = lambda f: ip.heap[ip.ghosts[f]].n
        E.best = lambda f: ip.heap[ip.ghosts[f]].best
        E.list = lambda n: listfact(ip, ip.frame.env[n])

        def check(what, t):
            E.t = t
            for nm, g in self.facts(E):
                ip.oblige('loop invariant %s: %s' % (what, nm), g)
        check('holds at entry', ZERO if it is not None else None)
        entry = {n: ip.frame.env.get(n) for n in assigned}
        for n in self.names:
            if n in self.ints and not ip.frame.env[n].isint or ip.frame.env[n].isbool:
                raise Unsupported('the invariant does not fit: type of %s' % n)
            ip.oblige('loop invariant holds at entry: %s is a number' % n, bnot(ip.frame.env[n].nan))
        sh = {}
        for n, nan in self.arrs.items():
            r = ip.frame.env[n]
            o = ip.heap[r.id]
            sh[n] = o.shape[0]
            if callable(nan):
                E.t = ZERO if it is not None else None
                self.formed(ip, 'holds at entry', n, o, E)
            elif not nan:
                ip.oblige('loop invariant holds at entry: %s has no NaN' % n, self.no_nan(o))
        for n in self.arrs:
            r = ip.frame.env[n]
            if any(isinstance(o, ArrObj) and o.view == r.id for o in ip.heap.values()):
                raise Unsupported('the invariant does not fit: %s is shared' % n)
            if r.id not in ip.heap:
                raise Unsupported('the invariant does not fit: %s is shared' % n)
            # whoever else refers to the array before the loop cannot read it any more
            ip.heap.pop(r.id)
            nm = fresh('h_' + n, 'I').args[0]
            nn = (lambda i, nm=nm: uf('nan!' + nm, i, sort='B')) if self.arrs[n] else (lambda i: FALSE)
            if callable(self.arrs[n]):
                ip.frame.env[n] = ip.new(ArrObj((sh[n],), None, 'f'))
                continue
            ip.frame.env[n] = ip.new(ArrObj((sh[n],), lambda i, nm=nm, nn=nn: (uf(nm, i, sort='R'), nn(i)), 'f'))
        for n in self.lists:
            # whoever else refers to the list before the loop cannot read it any more
            ip.heap.pop(ip.frame.env[n].id, None)
            nm, m = fresh('h_' + n, 'I').args[0], fresh('len_' + n, 'I')
            ip.assume(le(ZERO, m))
            ip.frame.env[n] = ip.new(ArrObj((m,), lambda i, nm=nm: (uf(nm, i, sort='I'), FALSE), 'i', pylist=True))
        self.refs = {n: ip.frame.env[n].id for n in list(self.arrs) + list(self.lists)}
        for n in assigned:
            if n not in self.names and n not in self.arrs and n not in self.lists:
                ip.frame.env[n] = PoisonVal(n)
        havoc(ip, [n for n in self.names if n in assigned or n in self.also], self.ints)
        for g in ip.ghosts.values():
            ip.heap[g] = Ghost(fresh('calls', 'I'), fresh('best', 'R'))
        heap0 = dict(ip.heap)
        for n in self.names:
            if isinstance(ip.frame.env[n], PoisonVal):
                raise Unsupported('the invariant does not fit')
        t = None
        if it is not None:
            t = fresh('t', 'I')
            ip.assume(le(ZERO, t))
            ip.assume(le(t, tmax(it.N, ZERO)))
        E.t = t
        for n, form in self.arrs.items():
            if callable(form):
                class E0:
                    t = E.t
                    nums = {m: ip.frame.env[m].arith() for m in self.names}

                    def __call__(self, m):
                        return self.nums[m]
                ip.heap[self.refs[n]].fn = lambda i, form=form, e=E0(), nm=fresh('h_' + n, 'I').args[0]: self.given(form(e, i), nm, i)
        for nm, g in self.facts(E):
            ip.assume(g)
        if it is None:
            again = ip.truth(ip.eval(s.test))
        else:
            again = ip.decide(lt(t, it.N))
        if not again:
            if it is not None:
                for n in assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]):
                    ip.frame.env[n] = entry[n] if entry[n] is not None else PoisonVal(n)
                if ip.decide(lt(ZERO, it.N)):
                    ip.assign(s.target, it.item(it.N - 1))
            return ip.block(s.orelse)
        if it is not None:
            ip.assign(s.target, it.item(t))
        if it is not None and it.guard is not None and not ip.decide(it.guard(t)):
            check('is preserved where nothing is done', t + 1)
            for n in self.arrs:
                if callable(self.arrs[n]):
                    self.formed(ip, 'is preserved where nothing is done', n, ip.heap[self.refs[n]], E)
            raise Infeasible()
        old = ip.cuts
        ip.cuts = dict(self.cuts, frame=ip.frame)
        ip.cut_need |= set(self.cuts) | set(self.at)
        oldm = ip.merges
        ip.merges = self if self.at else None
        self.frame, self.E, self.pc0, self.heap0, self.assigned = ip.frame, E, list(ip.pc), heap0, assigned
        self.start = dict(ip.frame.env)
        try:
            ip.block(s.body)
        except PBreak:
            self.same_heap(ip, heap0)
            return
        except PContinue:
            pass
        finally:
            ip.cuts, ip.merges = old, oldm
        self.same_heap(ip, heap0)
        for n in self.names:
            v = ip.frame.env.get(n)
            if not isinstance(v, Num) or v.isbool or v.ty == 'c16' or (n in self.ints and not v.isint):
                raise Unsupported('the invariant does not fit')
            ip.oblige('loop invariant is preserved: %s is a number' % n, bnot(v.nan))
        for n in self.arrs:
            v = ip.frame.env.get(n)
            if not isarr1(ip, v) or v.id in heap0 and v.id != self.refs[n]:
                raise Unsupported('the invariant does not fit: %s' % n)
            o = ip.heap[v.id]
            ip.oblige('loop invariant is preserved: length of %s' % n, eq(o.shape[0], sh[n]))
            if callable(self.arrs[n]):
                E.t = t + 1 if t is not None else None
                self.formed(ip, 'is preserved', n, o, E)
            elif not self.arrs[n]:
                ip.oblige('loop invariant is preserved: %s has no NaN' % n, self.no_nan(o))
        for n in self.lists:
            if listfact(ip, ip.frame.env.get(n)) is None:
                raise Unsupported('the invariant does not fit: %s' % n)
        check('is preserved', t + 1 if t is not None else None)
        raise Infeasible()

    def formed(self, ip, what, n, o, E):
        """the array o is what its form says, at the position of this iteration and elsewhere"""
        j = fresh('j', 'I')
        at = [(j, [])]
        if E.t is not None and E.t.op != 'num':
            at = [(E.t - 1, []), (j, [lt(j, E.t - 1)]), (j, [le(E.t, j)])]
        for k, cs in at:
            old = list(ip.pc)
            for v in [le(ZERO, k), lt(k, o.shape[0])] + cs:
                ip.assume(v)
            t, nan = o.at(k)
            t1, nan1, *where = self.arrs[n](E, k)
            ip.oblige('loop invariant %s: NaN in %s' % (what, n), iff(nan, nan1))
            ip.oblige('loop invariant %s: values of %s' % (what, n), imp(band(bnot(nan1), *where), eq(t, t1)))
            ip.pc = old

    def given(self, form, name, i):
        if len(form) == 2:
            return form
        t, nan, where = form
        return ite(where, t, uf(name, lift(i), sort='R')), nan

    def no_nan(self, o):
        j = fresh('j', 'I')
        return forall(ZERO, o.shape[0], j, bnot(o.at(j)[1]))

    def same_heap(self, ip, heap0):
        for k, o in heap0.items():
            if ip.heap.get(k) is not o and not isinstance(o, Ghost) and k not in self.refs.values():
                raise Unsupported('loop with an invariant writes to the heap')


def invariant_for(ip, s, it, inv):
    names = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))] + s.body)
    return inv(ip, s, it, names)


def invariant_while(ip, s, inv):
    names = assigned_names(s.body)
    return inv(ip, s, None, names)
