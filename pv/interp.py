"""Symbolic executor for the Python subset used by the repository.

The functions are parsed from the repository's files on every run; nothing of
their text is changed or dropped except docstrings/annotations/comments.
"""
import builtins
import ast, os
from .term import *
from . import term as _term
from .values import *
from . import solve

MAXPATHS = 400
UNROLL = 24


def is_main(st):
    return isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == '__name__'


class Module:
    def __init__(self, name, path, loader):
        self.name, self.path, self.loader = name, path, loader
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.ns = {}
        self.other = []
        self.pkg = name if os.path.basename(path) == '__init__.py' else name.rpartition('.')[0]
        for st in self.tree.body:
            if isinstance(st, ast.FunctionDef):
                self.ns[st.name] = ('func', st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.ns[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = resolve_from(self.pkg, st)
                for a in st.names:
                    self.ns[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.ns[st.targets[0].id] = ('assign', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.ns[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            else:
                self.other.append(st)
        # what the remaining module-level statements (branches, loops, calls, assignments to attributes) may bind or do
        self.rebound = set()
        self.effects = False
        for st in self.other:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    self.rebound.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.rebound.add(n.name)
                elif isinstance(n, ast.alias):
                    self.rebound.add((n.asname or n.name).split('.')[0])
                    self.effects |= n.name == '*'
                elif isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) and not isinstance(st, (ast.ClassDef, ast.If)):
                    self.effects = True
            if isinstance(st, ast.If) and not is_main(st):
                self.effects = True


def resolve_from(pkg, st):
    if st.level == 0:
        return st.module
    parts = pkg.split('.')
    parts = parts[:len(parts) - (st.level - 1)]
    if st.module:
        parts.append(st.module)
    return '.'.join(parts)


class Loader:
    def __init__(self, root, pkg='proadv'):
        self.root, self.pkg = root, pkg
        self.mods = {}

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def get(self, name):
        m = self.mods.get(name)
        if m is None:
            p = self.path(name)
            if p is None:
                raise Unsupported('module %s not found' % name)
            m = self.mods[name] = Module(name, p, self)
        return m


class Frame:
    def __init__(self, env, module, parent=None, func=None):
        self.env, self.module, self.parent, self.func = env, module, parent, func


class Path:
    def __init__(self, conds, facts, outcome, value, heap, env):
        self.conds, self.facts, self.outcome, self.value, self.heap, self.env = conds, facts, outcome, value, heap, env


class Obligation:
    def __init__(self, name, hyps, goal, where):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where


class Interp:
    def __init__(self, loader, contracts=None, self_target=None):
        self.loader = loader
        self.contracts = contracts or {}
        self.self_target = self_target
        self.heap = {}
        self.nref = 0
        self.persisting, self.npersist, self.persistent = 0, 0, {}
        self.pc = []          # all facts on the current path
        self.branch = []      # branch conditions taken (subset of pc)
        self.trail = None
        self.pos = 0
        self.pending = None
        self.obls = []
        self.collect = True
        self.frame = None
        self.depth = 0
        self.written = None
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.line = 0
        self.callstack = []
        self.muted = False
        self.cuts = {}
        self.cut_hits = set()
        self.merges = None
        self.cut_need = set()
        self.ghosts = {}
        self.invariants = {}
        self.effort = 0
        from . import npmodel
        self.np = npmodel.NP(self)

    # --- heap -----------------------------------------------------------
    def new(self, obj):
        if self.persisting:
            # objects of module level and of parameter defaults outlive the call
            self.npersist -= 1
            self.heap[self.npersist] = obj
            return Ref(self.npersist)
        self.nref += 1
        r = Ref(self.nref)
        self.heap[r.id] = obj
        return r

    def obj(self, v):
        return self.heap[v.id]

    def setobj(self, ref, obj):
        self.heap[ref.id] = obj

    def arr(self, v):
        """ArrObj of a value or None"""
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if isinstance(o, ArrObj):
                return o
        return None

    # --- path conditions -------------------------------------------------
    def ctx(self, c):
        return solve.entails(self.pc, c)

    def assume(self, c):
        if c is FALSE:
            raise Infeasible()
        if c is not TRUE:
            if c.op == 'and':
                for x in c.args:
                    if x not in self.pc:
                        self.pc.append(x)
            elif c not in self.pc:
                self.pc.append(c)

    def decide(self, c):
        """branch on a condition; returns python bool"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = solve.entails(self.pc, c)
        if r is not None:
            return r
        if self.trail is None:
            raise Unsupported('branch outside exploration')
        if self.pos < len(self.trail):
            b = self.trail[self.pos]
        else:
            b = True
            self.trail.append(True)
            self.pending.append(self.trail[:-1] + [False])
        self.pos += 1
        lit = c if b else bnot(c)
        self.assume(lit)
        self.branch.append(lit)
        return b

    def explore(self, thunk, base_env=None):
        """run thunk on every feasible path from the current state; state restored afterwards"""
        saved = (self.heap, self.pc, self.branch, self.trail, self.pos, self.pending, self.nref, self.frame)
        frame = self.frame
        env0 = dict(frame.env) if frame is not None else None
        out = []
        todo = [[]]
        base = len(self.pc)
        muted = self.muted
        self.muted = muted or (self.trail is not None and self.pos < len(self.trail))
        try:
            while todo:
                tr = todo.pop()
                self.heap = dict(saved[0])
                self.pc = list(saved[1])
                self.branch = []
                self.trail = tr
                self.pos = 0
                self.pending = []
                self.nref = saved[6]
                self.frame = frame
                if frame is not None:
                    frame.env = dict(env0)
                try:
                    try:
                        v = thunk()
                        oc = 'normal'
                    except PReturn as e:
                        oc, v = 'return', e.value
                    except PBreak:
                        oc, v = 'break', None
                    except PContinue:
                        oc, v = 'normal', None
                    except PRaise as e:
                        oc, v = 'raise', e
                    self.frame = frame
                    out.append(Path(list(self.branch), self.pc[base:], oc, v, self.heap, frame.env if frame is not None else None))
                except Infeasible:
                    pass
                todo.extend(self.pending)
                if len(out) > MAXPATHS:
                    raise Unsupported('too many paths')
        finally:
            (self.heap, self.pc, self.branch, self.trail, self.pos, self.pending, self.nref, self.frame) = saved
            self.muted = muted
            if frame is not None:
                frame.env = env0
        self.nref = max([self.nref] + [max(p.heap) if p.heap else 0 for p in out])
        return out

    def oblige(self, name, goal):
        if goal is TRUE or not self.collect:
            return
        if self.muted or (self.trail is not None and self.pos < len(self.trail)):
            return      # raised already by the path of which this one repeats the beginning
        g = goal
        if g in self.pc:
            return
        self.obls.append(Obligation(name, list(self.pc), g, '%s:%d' % (self.callstack[-1] if self.callstack else '?', self.line)))

    def cut(self, name, v):
        """an assertion on a local variable: proved here, then all that is known of its value"""
        self.cut_hits.add(name)
        E = lambda n: self.frame.env[n].arith()
        for nm, g in self.cuts[name](E, v.arith()):
            self.oblige('assertion on %s: %s' % (name, nm), g)
        self.oblige('assertion on %s: a number' % name, bnot(v.nan))
        x = Num(fresh('c_' + name, 'I' if v.isint else 'R'), v.ty)
        for nm, g in self.cuts[name](E, x.t):
            self.assume(g)
        return x

    # --- names ---------------------------------------------------------------
    def lookup(self, name):
        f = self.frame
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, PoisonVal):
                    raise PoisonRead(v.name)
                return v
            f = f.parent
        return self.global_(self.frame.module, name)

    def global_(self, mod, name):
        if mod.effects or name in mod.rebound:
            raise Unsupported('module-level code of %s' % mod.name)
        e = mod.ns.get(name)
        if e is not None:
            return self.resolve(mod, name, e)
        b = self.np.builtin(name)
        if b is not None:
            return b
        if hasattr(builtins, name):
            raise Unsupported('builtin %s' % name)
        raise PRaise('NameError', name)

    def persist(self, thunk):
        lo = self.npersist
        self.persisting += 1
        try:
            v = thunk()
        finally:
            self.persisting -= 1
        for k in range(self.npersist, lo):
            self.persistent[k] = self.heap[k]
        return v

    def resolve(self, mod, name, e):
        if e[0] == 'func':
            return self.mkfunc(e[1], mod, None)
        if e[0] == 'import':
            return self.import_mod(e[1])
        if e[0] == 'from':
            return self.import_from(e[1], e[2])
        if e[0] == 'assign':
            fr = Frame({}, mod)
            old = self.frame
            self.frame = fr
            try:
                return self.persist(lambda: self.eval(e[1]))
            finally:
                self.frame = old
        raise Unsupported('global %s' % name)

    def import_mod(self, name):
        if name.split('.')[0] == self.loader.pkg:
            return self.loader.get(name)
        return ExtModule(name)

    def import_from(self, base, name):
        if base.split('.')[0] == self.loader.pkg:
            if self.loader.path(base + '.' + name):
                return self.loader.get(base + '.' + name)
            m = self.loader.get(base)
            e = m.ns.get(name)
            if e is None:
                raise Unsupported('import %s from %s' % (name, base))
            return self.resolve(m, name, e)
        return self.np.external(base + '.' + name)

    def mkfunc(self, node, mod, closure):
        if node.decorator_list:
            raise Unsupported('decorator on %s' % node.name)
        a = node.args
        if a.vararg or a.kwarg:
            raise Unsupported('varargs')
        old = self.frame
        if closure is None:
            self.frame = Frame({}, mod)
        try:
            ev = (lambda d: self.persist(lambda: self.eval(d))) if closure is None else self.eval
            dfl = tuple(ev(d) for d in a.defaults)
            kwd = {k.arg: ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        finally:
            self.frame = old
        return FuncVal(node, mod, closure, node.name, dfl, kwd)

    # --- calls -----------------------------------------------------------------
    def call(self, f, args, kwargs):
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, BoundMethod):
            return self.np.method(f.recv, f.name, args, kwargs)
        if isinstance(f, TypeVal):
            return self.np.construct(f, args, kwargs)
        if isinstance(f, SymFn):
            return self.np.call_symfn(f, args, kwargs)
        if isinstance(f, Ref) and isinstance(self.obj(f), InstObj):
            return self.np.call_inst(f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            raise PRaise('TypeError', 'too many arguments')
        env = dict(zip(names, args))
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in env or k not in names + kwn:
                raise PRaise('TypeError', 'bad keyword %s' % k)
            env[k] = v
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            env.setdefault(n, d)
        for k, d in f.kwdefaults.items():
            env.setdefault(k, d)
        for n in names + kwn:
            if n not in env:
                raise PRaise('TypeError', 'missing argument %s' % n)
        return env

    def call_func(self, f, args, kwargs):
        env = self.bind(f, args, kwargs) if not isinstance(f.node, ast.Lambda) else self.bind(f, args, kwargs)
        q = f.qual
        c = self.contracts.get(q) if f.closure is None else None
        if c is not None and not (q == self.self_target and self.depth == 0):
            r = c.apply(self, env, f)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        if self.depth > 12:
            raise Unsupported('recursion depth in %s' % q)
        if f.closure is None and self.callstack:
            self.inlined.add(q)
        return self.run_body(f, env)

    def run_body(self, f, env):
        old = self.frame
        oldline = self.line
        self.frame = Frame(env, f.module, f.closure, f)
        self.callstack.append(f.qual)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            try:
                self.block(f.node.body)
            except PReturn as e:
                return e.value
            return None
        finally:
            self.depth -= 1
            self.frame = old
            self.callstack.pop()
            self.line = oldline

    # --- statements ----------------------------------------------------------------
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.line = getattr(s, 'lineno', self.line)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            raise PRaise('AssertionError')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Global(self, s):
        raise Unsupported('global')

    def s_Nonlocal(self, s):
        raise Unsupported('nonlocal')

    def s_Import(self, s):
        for a in s.names:
            self.frame.env[a.asname or a.name.split('.')[0]] = self.import_mod(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        base = resolve_from(self.frame.module.pkg, s)
        for a in s.names:
            self.frame.env[a.asname or a.name] = self.import_from(base, a.name)

    def s_FunctionDef(self, s):
        self.frame.env[s.name] = self.mkfunc(s, self.frame.module, self.frame)

    def s_Return(self, s):
        raise PReturn(self.eval(s.value) if s.value is not None else None)

    def s_Raise(self, s):
        if s.exc is None:
            raise Unsupported('bare raise')
        e = s.exc
        if isinstance(e, ast.Call):
            # the message is evaluated for effects only where it is cheap; its text is not part of any contract
            t = self.eval(e.func)
        else:
            t = self.eval(e)
        if not isinstance(t, TypeVal):
            raise Unsupported('raise')
        raise PRaise(t.name)

    def s_Break(self, s):
        raise PBreak()

    def s_Continue(self, s):
        raise PContinue()

    def s_If(self, s):
        if self.truth(self.eval(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            self.block(s.body)
        except PRaise as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.eval(h.type)
                    ts = t if isinstance(t, tuple) else (t,)
                    ok = any(exc_match(e.etype, x.name) for x in ts)
                if ok:
                    if h.name:
                        self.frame.env[h.name] = PoisonVal(h.name)
                    self.block(h.body)
                    return
            raise
        else:
            self.block(s.orelse)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(s.value)
            a = self.arr(cur)
            if a is not None and not a.pylist:
                # in place on arrays
                r = self.np.binop(op, cur, v)
                self.np.store_full(cur, r)
                return
            self.frame.env[t.id] = self.np.binop(op, cur, v, inplace=True)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.index(t.slice)
            cur = self.np.getitem(base, idx)
            v = self.np.binop(op, cur, self.eval(s.value))
            self.np.setitem(base, idx, v)
        else:
            raise Unsupported('augassign')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.cuts and self.frame is self.cuts['frame'] and isinstance(v, Num):
                v = self.cut(t.id, v)
            self.frame.env[t.id] = v
            if self.merges and t.id in self.merges.at and self.frame is self.merges.frame:
                self.merges.reach(self, t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred')
            vs = self.np.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            self.np.setitem(base, self.index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.np.setattr(base, t.attr, v)
        else:
            raise Unsupported('assign target')

    def index(self, n):
        return self.eval(n)

    # --- loops -------------------------------------------------------------------------
    def s_For(self, s):
        it = self.np.iterate(self.eval(s.iter))
        from . import loops
        loops.run_for(self, s, it)

    def s_While(self, s):
        from . import loops
        loops.run_while(self, s)

    # --- expressions ----------------------------------------------------------------------
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None or isinstance(v, str) or v is Ellipsis:
            return v
        if isinstance(v, bool):
            return pybool(v)
        if isinstance(v, int):
            return pyint(v)
        if isinstance(v, float):
            return Num(num(v), 'float')
        if isinstance(v, complex):
            if v.real == 0:
                return Num(mul(num(v.imag), _term.var('I_', 'R')), 'c16')
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.np.unpack(self.eval(x.value), None))
            else:
                out.append(self.eval(x))
        return tuple(out)

    def e_List(self, e):
        return self.new(ListObj(list(self.e_Tuple(e))))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k)
            if not isinstance(kk, str):
                kk = self.np.hashkey(kk)
            d[kk] = self.eval(v)
        return self.new(DictObj(d))

    def e_JoinedStr(self, e):
        return '<formatted>'

    def e_Lambda(self, e):
        a = e.args
        if a.vararg or a.kwarg:
            raise Unsupported('lambda varargs')
        return FuncVal(e, self.frame.module, self.frame, '<lambda>', tuple(self.eval(d) for d in a.defaults))

    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            b = self.truth(v)
            if b != isand:
                return v if not (isinstance(v, Num) and v.isbool) else pybool(b)
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            if isinstance(v, Num) and v.nan is FALSE:
                return Num(bnot(self.np.truth_term(v)), 'bool')
            return pybool(not self.truth(v))
        return self.np.unop(op, v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.np.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.np.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                res = c
            if len(e.ops) > 1:
                if op is not e.ops[-1]:
                    if not self.truth(c):
                        return pybool(False)
            left = right
        return res

    def e_Call(self, e):
        line = self.line
        if isinstance(e.func, ast.Attribute):
            base = self.eval(e.func.value)
            f = self.np.getattr(base, e.func.attr)
        else:
            f = self.eval(e.func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.np.unpack(self.eval(x.value), None))
            else:
                args.append(self.eval(x))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kw[k.arg] = self.eval(k.value)
        self.line = line
        return self.call(f, args, kw)

    def e_Attribute(self, e):
        return self.np.getattr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        return self.np.getitem(self.eval(e.value), self.index(e.slice))

    def e_Slice(self, e):
        return ('slice', self.eval(e.lower) if e.lower else None, self.eval(e.upper) if e.upper else None,
                self.eval(e.step) if e.step else None)

    def e_ListComp(self, e):
        from . import loops
        return loops.comprehension(self, e)

    def e_GeneratorExp(self, e):
        return GenVal(e, self.frame)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.frame.env[e.target.id] = v
        return v

    def truth(self, v):
        """python truth value, branching when symbolic"""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Num):
            t = self.np.truth_term(v)
            return self.decide(t)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                return len(o.items) > 0
            if isinstance(o, DictObj):
                return len(o.d) > 0
            if isinstance(o, ArrObj):
                if o.pylist:
                    return self.decide(lt(ZERO, o.shape[0]))
                if o.ndim == 0:
                    t, n = o.at()
                    return self.decide(bor(t if t.sort == 'B' else bnot(eq0(t)), n))
                # numpy: only size-1 arrays have a truth value
                size = ONE
                for d in o.shape:
                    size = size * d
                if self.decide(eq(size, ONE)):
                    t, n = o.at(*[ZERO] * o.ndim)
                    return self.decide(bor(t if t.sort == 'B' else bnot(eq0(t)), n))
                raise PRaise('ValueError', 'truth value of an array')
        raise Unsupported('truth of %r' % (v,))


EXC = {'ValueError': ['Exception'], 'TypeError': ['Exception'], 'IndexError': ['LookupError', 'Exception'],
       'KeyError': ['LookupError', 'Exception'], 'ZeroDivisionError': ['ArithmeticError', 'Exception'],
       'AssertionError': ['Exception'], 'NotImplementedError': ['RuntimeError', 'Exception'],
       'NameError': ['Exception'], 'UnboundLocalError': ['NameError', 'Exception'],
       'LinAlgError': ['ValueError', 'Exception'], 'RuntimeError': ['Exception'], 'AttributeError': ['Exception'],
       'OverflowError': ['ArithmeticError', 'Exception'], 'ArithmeticError': ['Exception'], 'StopIteration': ['Exception']}


def exc_match(raised, handler):
    return raised == handler or handler in EXC.get(raised, ['Exception']) or handler == 'BaseException'
