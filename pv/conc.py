"""Concrete side of the contracts: the same specification terms evaluated on inputs and compared with the real code."""
import random, math, ast, time, mpmath
from fractions import Fraction
from .term import *
from . import term as _term
from . import solve
from .contract import *
from .ev import Ev, V, Undefined
from .real import Real


SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 16, 21, 24, 25, 33, 40]


class Gen:
    def __init__(self, rng, case, consts, wide=False):
        self.rng, self.case, self.consts = rng, case, consts
        self.sz = {}
        self.wide = wide
        self.span = rng.choice([2, 2, 4, 9])
        self.style = rng.choice(['ints', 'dyadic', 'dyadic', 'float', 'spiky', 'spiky', 'const', 'ramp', 'ties', 'consts', 'offset'])

    def size(self, name):
        if isinstance(name, int):
            return name
        if name not in self.sz:
            o = self.case.sizes.get(name)
            if callable(o):
                self.sz[name] = o(self)
            elif o:
                self.sz[name] = self.rng.choice(o)
            else:
                c = [k for k in SIZES if k <= (self.case.maxn or 40)]
                if self.consts and self.rng.random() < 0.15:
                    ks = [int(x) + d for x in self.consts if float(x) == int(x) and 0 <= x <= (self.case.maxn or 60) for d in (-1, 0, 1)]
                    c = [k for k in ks if k >= 0] or c
                if self.wide and self.consts and self.rng.random() < 0.5:
                    # a proof failed: sizes beyond the constants of the code
                    k = self.rng.choice(self.consts)
                    if float(k) == int(k) and 0 <= k <= 1500:
                        c = [int(k) + self.rng.choice([-1, 0, 1, 2, 3, int(k) // 3 + 1, int(k)])]
                elif self.wide and not self.case.maxn and self.rng.random() < 0.2:
                    c = [60, 130, 260]
                self.sz[name] = max(0, self.rng.choice(c))
        return self.sz[name]

    def one(self, st):
        r = self.rng
        if st in ('ints', 'int'):
            return Fraction(r.randint(-4, 4))
        if st == 'dyadic':
            return Fraction(r.randint(-160, 160), 8)
        if st == 'pos':
            return Fraction(r.randint(1, 160), 8)
        if st == 'ties':
            return Fraction(r.randint(-self.span, self.span), 2)
        if st == 'consts' and self.consts:
            return Fraction(float(r.choice(self.consts))) * r.choice([1, 1, -1, 2]) + r.choice([0, 0, Fraction(1, 64)])
        return Fraction(round(r.gauss(0, 1) * 8192) / 8192)

    def values(self, n, style=None):
        r = self.rng
        st = style or self.style
        if callable(st):
            return [Fraction(x) for x in st(self, n)]
        if st == 'const':
            c = self.one('dyadic')
            return [c] * n
        if st == 'ramp':
            a, b = self.one('dyadic'), self.one('ints')
            return [a + b * i for i in range(n)]
        if st == 'offset':
            c = Fraction(r.randint(-400, 400), 4)
            return [c + self.one('float') for _ in range(n)]
        if st == 'spiky':
            v = [self.one('float') for _ in range(n)]
            for _ in range(r.randint(1, 3)):
                if n:
                    v[r.randrange(n)] += r.choice([-1, 1]) * r.choice([8, 16, 40, 300])
            return v
        return [self.one(st) for _ in range(n)]

    def indices(self, n):
        r = self.rng
        if n == 0:
            return []
        k = r.randint(0, 9)
        if k == 0:
            return []
        if k == 1:
            return [r.randrange(n)]
        if k == 2:
            return [0]
        if k == 3:
            return [n - 1]
        if k == 4:
            return list(range(r.randint(1, n)))
        if k == 5:
            return list(range(r.randrange(n), n))
        if k == 6:
            a = r.randrange(n)
            return list(range(a, r.randint(a, n - 1) + 1))
        if k == 7:
            return list(range(n))
        p = r.choice([0.2, 0.4, 0.6])
        return [i for i in range(n) if r.random() < p]

    def scalar(self):
        r = self.rng
        k = r.random()
        if self.consts and k < 0.2:
            return float(r.choice(self.consts))
        if k < 0.4:
            return r.choice([0.0, 1.0, -1.0, 0.5, 2.0])
        if k < 0.7:
            return r.randint(-40, 40) / 8
        return round(abs(r.gauss(0, 3)) * 64) / 64


def mine(loader, mods):
    """numeric constants of the source files involved"""
    out = set()
    for mname in mods:
        try:
            m = loader.get(mname)
        except Exception:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                if abs(n.value) < 1e6 and n.value == n.value:
                    out.add(n.value)
                    out.add(-n.value)
    return sorted(out)


class Concrete:
    def __init__(self, contract, case, loader, real, seed=1):
        self.contract, self.case, self.loader, self.real, self.seed = contract, case, loader, real, seed
        self.rng = random.Random(seed * 7919 + hash_str(contract.target + case.name))
        self.consts = mine(loader, [contract.target.split(':')[0]] + [u.split(':')[0] for u in contract.uses])
        self.runs = 0
        self.compared = 0
        self.undef = 0
        self.rejected = 0
        self.A = None

    def setup(self):
        if self.A is not None:
            return
        ip = Interp(self.loader, {}, None)
        S = {}
        A = Args()
        for k in sorted(self.case.args, key=lambda k: isinstance(self.case.args[k], IdxSet)):
            setattr(A, k, self.case.args[k].view(k, S))
        A.S = S
        ip.pc = [le(ZERO, t) for t in S.values() if t.op == 'var']
        self.ip = ip
        _term.CTX[0] = ip.ctx
        self.req = []
        for c in self.case.req(A):
            self.req.append(c)
            if c is not TRUE:
                ip.pc.append(c)
        self.raises = self.case.raises(A) if self.case.raises else []
        ip.pc += [bnot(c) for _, c in self.raises if bnot(c) is not FALSE]
        self.spec = self.case.result(A) if self.case.result else None
        self.A = A
        self.skol = {}

    wide = False

    def gen(self):
        g = Gen(self.rng, self.case, self.consts, self.wide)
        if self.case.gen and self.rng.random() < 0.7:
            r = self.case.gen(g)
            if r is not None:
                return {k: (r[k] if k in r else self.case.args[k].gen(g, k)) for k in self.case.args}
        return {k: self.case.args[k].gen(g, k) for k in sorted(self.case.args, key=lambda k: isinstance(self.case.args[k], IdxSet))}

    def evaluator(self, inp):
        ufs, vars_ = {}, {}
        for k, kind in self.case.args.items():
            kind.bind(k, inp[k], ufs, vars_)
        return Ev(ufs, vars_)

    def admissible(self, ev):
        for c in self.req:
            if c is TRUE:
                continue
            try:
                if ev.ev(c, {}) is not True:
                    return False
            except Undefined:
                return False
        return True

    def call(self, inp):
        pos, kws = positional(self.contract.target, [k for k in given(self.case.args) if k in inp])
        enc = lambda k: self.case.args[k].enc(inp[k])
        rep = self.real.call(self.contract.target, [enc(k) for k in pos], {k: enc(k) for k in kws})
        rep['mutated'] = [k for k, m in zip(pos + kws, rep.get('mut', []) + rep.get('mutkw', [])) if m]
        rep['aliased'] = [pos[i] for i in rep.get('alias', [])] + rep.get('aliaskw', [])
        return rep

    def check(self, inp):
        """None if fine / not judged; else a dict describing the failure"""
        self.setup()
        _term.CTX[0] = self.ip.ctx
        ev = self.evaluator(inp)
        if not self.admissible(ev):
            self.rejected += 1
            return None
        rep = self.call(inp)
        self.runs += 1
        if 'missing' in rep:
            return {'what': 'function is missing: ' + rep['missing'], 'missing': True}
        if 'timeout' in rep:
            return {'what': 'no result within %s s' % rep['timeout']}
        if 'crash' in rep:
            return {'what': 'interpreter died'}
        ms = [k for k in rep['mutated'] if k not in self.case.modifies]
        if ms:
            return {'what': 'argument %s was modified' % ms[0]}
        unk = False
        exp = []
        for et, c in self.raises:
            try:
                t = ev.ev(c, {})
            except Undefined:
                t = None
            if t is None:
                unk = True
            elif t:
                exp.append(et)
        if 'exc' in rep:
            if any(e in rep['exc'] for e in exp):
                self.compared += 1
                return None
            if unk and any(et in rep['exc'] for et, _ in self.raises):
                return None
            return {'what': 'raised %s: %s' % (rep['exc'][0], rep.get('msg', ''))}
        if exp:
            return {'what': 'returned although %s is specified' % exp[0], 'result': rep['ok']}
        if unk:
            return None
        if self.case.fresh and rep['aliased']:
            return {'what': 'result shares memory with argument %s' % rep['aliased'][0]}
        bad = None
        if self.spec is not None:
            bad = self.compare(rep['ok'], self.spec, ev, 'result')
        if bad is None and self.case.concrete and callable(self.case.concrete):
            bad = self.case.concrete(inp, rep)
            self.compared += 1
        if bad:
            return {'what': bad, 'result': rep['ok']}
        return None

    def compare(self, r, s, ev, tag):
        if isinstance(s, SAny):
            return None
        if isinstance(s, SConst):
            v = s.v
            if isinstance(v, (str, type(None), bool)):
                self.compared += 1
                return None if r.get('t') == 'val' and r.get('v') == v else '%s should be %r, is %s' % (tag, v, brief(r))
            s = SNum(num(v))
        if isinstance(s, SNum):
            return self.cmp_num(r, s.t, s.nan, ev, tag, s.tol)
        if isinstance(s, SAlt):
            return None
        if isinstance(s, STup):
            if r.get('t') == 'arr' and len(r['shape']) == 1:
                r = {'t': 'tuple', 'v': [{'t': 'float', 'v': x} for x in r['v']]}
            if r.get('t') not in ('tuple', 'list') or len(r['v']) != len(s.items):
                return '%s should have %d parts, is %s' % (tag, len(s.items), brief(r))
            for k, (x, y) in enumerate(zip(r['v'], s.items)):
                b = self.compare(x, y, ev, '%s[%d]' % (tag, k))
                if b:
                    return b
            return None
        if isinstance(s, SDict):
            if r.get('t') != 'dict':
                return '%s should be a dictionary, is %s' % (tag, brief(r))
            for k, y in s.d.items():
                if k not in r['v']:
                    return '%s lacks key %s' % (tag, k)
                b = self.compare(r['v'][k], y, ev, '%s[%s]' % (tag, k))
                if b:
                    return b
            return None
        if isinstance(s, SIdx):
            r = flat(r)
            if r is None or r['k'] not in 'ifb' or len(r['shape']) != 1:
                return '%s should be an index array, is %s' % (tag, brief(r))
            v = r['v']
            if any(isinstance(x, str) or x != int(x) for x in v):
                return '%s should hold integers' % tag
            if r['k'] == 'f' and v:
                return '%s should hold integers' % tag
            if any(a >= b for a, b in zip(v, v[1:])):
                return '%s is not strictly increasing: %s' % (tag, v[:20])
            try:
                N = ev.int(s.N, {})
            except Undefined:
                return None
            if any(not 0 <= x < N for x in v):
                return '%s holds an index outside [0,%d): %s' % (tag, N, v[:20])
            if s.pred is None:
                self.compared += 1
                return None
            have = set(v)
            p, q = self.skolem1(s, 'pred', s.pred)
            for i in range(N):
                try:
                    t = ev_at(ev, p, q, i)
                except Undefined:
                    t = None
                if t is None:
                    self.undef += 1
                    continue
                self.compared += 1
                if bool(t) != (i in have):
                    return 'index %d %s' % (i, 'qualifies but is not reported' if t else 'is reported but does not qualify')
            return None
        if isinstance(s, SArr):
            f = flat(r)
            if f is None:
                return '%s should be an array, is %s' % (tag, brief(r))
            try:
                sh = [ev.int(d, {}) for d in s.shape]
            except Undefined:
                return None
            sh = [max(d, 0) for d in sh]
            if list(f['shape']) != sh:
                return '%s should have shape %s, has %s' % (tag, sh, f['shape'])
            p, q = self.skolem1(s, 'fn', s.fn, len(sh))
            pn, qn = self.skolem1(s, 'nan', s.nan, len(sh))
            pw, qw = self.skolem1(s, 'where', s.where, len(sh)) if s.where is not None else (TRUE, None)
            k = 0
            for idx in indices(sh):
                x = f['v'][k]
                k += 1
                try:
                    if pw is not TRUE and not ev_at(ev, pw, qw, *idx):
                        continue
                    n = False if pn is FALSE else ev_at(ev, pn, qn, *idx)
                    want = None if n else ev_at(ev, p, q, *idx)
                except Undefined:
                    self.undef += 1
                    continue
                if n is None:
                    continue
                b = self.cmp_val(x, want, n, '%s%s' % (tag, list(idx)), s.tol)
                if b:
                    return b
            return None
        return None

    def skolem1(self, s, key, fn, nd=1):
        k = (id(s), key)
        if k not in self.skol:
            q = [var('cix%d' % d, 'I') for d in range(nd)]
            old = self.ip.pc
            self.ip.pc = old + [le(ZERO, x) for x in q] + ([lt(x, d) for x, d in zip(q, s.shape)] if isinstance(s, SArr) else [lt(q[0], s.N)])
            t = fn(*q)
            self.ip.pc = old
            if not isinstance(t, T):
                t = lift(t)
            # abstract the skolem indices so that the evaluator's memo stays valid
            self.skol[k] = (lam(q, t), q)
        return self.skol[k]

    def cmp_num(self, r, t, nan, ev, tag, tol=None):
        f = flat(r)
        if f is not None and f['v'] and len(f['v']) == 1 and f['shape'] == []:
            x = f['v'][0]
        elif r.get('t') in ('float', 'int'):
            x = r['v']
        elif r.get('t') == 'val' and isinstance(r['v'], bool):
            x = int(r['v'])
        else:
            return '%s should be a number, is %s' % (tag, brief(r))
        try:
            n = False if nan is FALSE else ev.ev(nan, {})
            if n is None:
                return None
            want = None if n else (ev.ev(t, {}))
        except Undefined:
            self.undef += 1
            return None
        return self.cmp_val(x, want, n, tag, tol)

    def cmp_val(self, x, want, n, tag, tol=None):
        if n:
            self.compared += 1
            return None if x == 'nan' else '%s should be NaN, is %s' % (tag, x)
        if want is None:
            self.undef += 1
            return None
        if isinstance(want, V) and isinstance(want.x, mpmath.mpc):
            w = complex(want.x)
            g = complex(*x) if isinstance(x, list) and not isinstance(x[0], str) and not isinstance(x[1], str) else None if isinstance(x, (str, list)) else complex(x)
            self.compared += 1
            if g is None or abs(g - w) > (tol or 1e-9) * (1 + abs(w)) + 20 * want.e:
                return '%s should be %s, is %s' % (tag, w, x)
            return None
        if isinstance(x, list):
            if abs(x[1]) > 1e-9:
                return '%s is complex: %s' % (tag, x)
            x = x[0]
        self.compared += 1
        if isinstance(want, V):
            w, e = float(want.x), want.e
        else:
            w, e = float(want), 0.0
        if isinstance(x, str):
            return '%s should be %.12g, is %s' % (tag, w, x)
        x = float(x)
        if abs(x - w) > (tol or 1e-9) * (1 + abs(w)) + 20 * e:
            return '%s should be %.15g, is %.15g' % (tag, w, x)
        return None

    def search(self, n, deadline):
        k = 0
        tries = 0
        while k < n and time.time() < deadline and tries < 30 * n:
            tries += 1
            inp = self.gen()
            r0 = self.runs
            try:
                bad = self.check(inp)
            except (Undefined, TooBig, RecursionError, OverflowError, ZeroDivisionError):
                continue
            if self.runs > r0:
                k += 1
            if bad:
                return inp, bad
        return None

    def minimise(self, inp, bad, deadline):
        """shrink arrays while the failure persists"""
        best, bb = inp, bad
        arrs = [k for k, kd in self.case.args.items() if isinstance(kd, FArr)]
        if not arrs:
            return best, bb
        improved = True
        while improved and time.time() < deadline:
            improved = False
            n = len(best[arrs[0]])
            for cut in (n // 2, n // 4, 1):
                if cut <= 0:
                    continue
                for at in range(0, n, cut):
                    c = dict(best)
                    for k, kd in self.case.args.items():
                        if isinstance(kd, FArr) and len(c[k]) == n:
                            c[k] = c[k][:at] + c[k][at + cut:]
                        elif isinstance(kd, IdxSet):
                            c[k] = [i if i < at else i - cut for i in c[k] if not at <= i < at + cut]
                    try:
                        b = self.check(c)
                    except Exception:
                        continue
                    if b:
                        best, bb, improved = c, b, True
                        break
                    if time.time() > deadline:
                        return best, bb
                if improved:
                    break
        return best, bb

    def from_model(self, model):
        mv = ModelView(model)
        out = {}
        for k, kd in self.case.args.items():
            v = kd.from_model(k, mv, {})
            if v is None:
                if isinstance(kd, FnKind):
                    return None
                return None
            out[k] = v
        return out


class ModelView:
    def __init__(self, model):
        self.m = model

    def _ev(self, t):
        import z3
        with_ctx = _term.CTX[0]
        _term.CTX[0] = None
        try:
            return self.m.eval(solve._tr(t), model_completion=True)
        finally:
            _term.CTX[0] = with_ctx

    def int(self, t):
        if t.op == 'num':
            return int(t.args[0])
        try:
            return self._ev(t).as_long()
        except Exception:
            return None

    def val(self, t):
        try:
            v = self._ev(t)
            try:
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            except Exception:
                v = v.approx(20)
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return Fraction(float(f))
        except Exception:
            return Fraction(0)

    def bool(self, t):
        import z3
        try:
            return z3.is_true(self._ev(t))
        except Exception:
            return False


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def indices(sh):
    if not sh:
        yield ()
        return
    for i in range(sh[0]):
        for r in indices(sh[1:]):
            yield (i,) + r


def ev_at(ev, l, q, *idx):
    if l.op == 'lam':
        return ev.lamcall(l, list(idx), {})
    return ev.ev(l, {})


def brief(r):
    return str(r)[:160]


def flat(r):
    """normalise array-like replies"""
    if r is None:
        return None
    if r.get('t') == 'arr':
        return r
    if r.get('t') == 'masked':
        return {'t': 'arr', 'k': 'f', 'v': r['v'], 'shape': r['shape']}
    if r.get('t') in ('list', 'tuple'):
        vs, ks = [], set()
        shp = None
        for x in r['v']:
            if x.get('t') in ('float', 'int'):
                vs.append(x['v'])
                ks.add('f' if x['t'] == 'float' else 'i')
                sh = []
            elif x.get('t') == 'arr':
                vs.extend(x['v'])
                ks.add(x['k'])
                sh = x['shape']
            else:
                return None
            if shp is not None and shp != sh:
                return None
            shp = sh
        return {'t': 'arr', 'k': 'i' if ks <= {'i'} else 'f', 'v': vs, 'shape': [len(r['v'])] + (shp or [])}
    return None
