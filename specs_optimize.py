"""Contracts of proadv.statistics.optimize: the root finder and the bounded minimiser, for an arbitrary pure real function."""
from specs_normal import *
from pv.loops import Inv

O_ = 'proadv.statistics.optimize.optimize:'


def between(a, x, b):
    return band(le(a, x), le(x, b))


def same_sign(a, b):
    return bor(band(lt(ZERO, a), lt(ZERO, b)), band(lt(a, ZERO), lt(b, ZERO)))


def opposite(a, b):
    return bor(band(lt(ZERO, a), lt(b, ZERO)), band(lt(a, ZERO), lt(ZERO, b)))


def brent_inv(A):
    f = A.f
    lo, hi = A.xa, A.xb

    def facts(E):
        xp, xc, xb, fp, fc, fb = [E(n) for n in ('xpre', 'xcur', 'xblk', 'fpre', 'fcur', 'fblk')]
        inner = band(eq(fb, f(xb)), opposite(fb, fc), between(lo, xb, hi),
                     bor(band(lt(xp, xc), lt(xc, xb)), band(lt(xb, xc), lt(xc, xp))))
        return [('the previous point was evaluated', eq(fp, f(xp))), ('the current point was evaluated', eq(fc, f(xc))),
                ('the previous value is not zero', bnot(eq(fp, ZERO))), ('the points differ', bnot(eq(xp, xc))),
                ('the previous point is in the interval', between(lo, xp, hi)), ('the current point is in the interval', between(lo, xc, hi)),
                ('the bracket holds a sign change', bor(bnot(same_sign(fp, fc)), inner)),
                ('every iteration evaluates one point', eq(E.calls('f'), 2 + (E('i') if E.t is None else E.t)))]
    return Inv(['xpre', 'xcur', 'xblk', 'fpre', 'fcur', 'fblk', 'spre', 'scur', 'i'], facts, ints=['i'],
               cuts={'stry': lambda E, s: [('points to the other end of the bracket', bor(band(le(ZERO, s), lt(E('xcur'), E('xblk'))),
                                                                                          band(le(s, ZERO), lt(E('xblk'), E('xcur')))))]})


def points(R, name, *more):
    """the points at which the function occurs in what is known on this path"""
    out = [t.args[1] for t in all_subterms(list(R.ip.pc) + list(more)) if t.op == 'uf' and t.args[0] == name]
    return out


def brent_rel(full):
    def rel(A, R):
        f, lo, hi = A.f, A.xa, A.xb
        r = R.item('root').num() if full else R.num()
        conv = R.item('converged').truth() if full else None
        out = [('the root lies in the interval', [], between(lo, r, hi)),
               ('a root at the left end is returned', [eq(f(lo), ZERO)], eq(r, lo)),
               ('a root at the right end is returned', [eq(f(hi), ZERO), bnot(eq(f(lo), ZERO))], eq(r, hi))]
        tol = A.xtol + A.rtol * absv(r)
        near = bor(eq(f(r), ZERO), *[band(between(lo, y, hi), opposite(f(y), f(r)), le(absv(r - y), tol))
                                     for y in points(R, 'f', r)])
        if full:
            out += [('a converged root is within the tolerance of a sign change', [conv], near),
                    ('an end-point root converges', [bor(eq(f(lo), ZERO), eq(f(hi), ZERO))], conv)]
            it, fc = R.item('iterations').num(), R.item('function_calls').num()
            out += [('the calls are counted', [], eq(fc, R.calls('f'))),
                    ('no iterations for a root at an end', [bor(eq(f(lo), ZERO), eq(f(hi), ZERO))], eq(it, ZERO))]
            out += [('the iterations do not exceed maxiter', [], band(le(ZERO, it), le(it, A.maxiter))),
                    ('the flag says whether it converged', [], iff(conv, TRUE) if R.item('flag').v == 'converged' else bnot(conv))]
        return out
    return rel


absv = abs


def fn_pool(g):
    r = g.rng
    k = r.choice(['poly', 'poly', 'sin', 'step', 'abs', 'stair', 'flat'])
    q = lambda: r.randint(-24, 24) / 8
    if k == 'poly':
        return dict(kind='poly', c=[q() for _ in range(r.randint(2, 5))])
    if k == 'sin':
        return dict(kind='sin', c=[q(), q(), r.choice([0, 0, 0.25, -0.5])])
    if k == 'step':
        return dict(kind='step', c=[q(), q(), q()])
    if k == 'stair':
        return dict(kind='stair', c=[q(), r.choice([1, 3, -2, 40]), r.choice([0, 0.5, 1e6, 1e13, -1e13])])
    if k == 'flat':
        return dict(kind='flat', c=[q(), r.choice([3, 5, 9]), r.choice([1, -1, 1e-3, 1e3])])
    return dict(kind='abs', c=[q(), q(), q()])


def fn_eval(d, x, *extra):
    c = d['c']
    if d['kind'] == 'poly':
        v = 0.0
        for a in reversed(c):
            v = v * x + a
    elif d['kind'] == 'abs':
        v = abs(x - c[0]) * c[1] + c[2]
    elif d['kind'] == 'stair':
        v = c[2] + float(round(c[1] * abs(x - c[0])))
    elif d['kind'] == 'flat':
        v = c[2] * (x - c[0]) ** c[1]
    elif d['kind'] == 'sin':
        v = math.sin(c[0] * x + c[1]) + c[2]
    else:
        v = (c[1] if x < c[0] else c[2]) + 0.0
    return v + sum(extra)


def brent_conc(full):
    def conc(inp, rep):
        f = lambda x: fn_eval(inp['f'], x)
        a, b = float(inp['xa']), float(inp['xb'])
        xtol, rtol = float(inp.get('xtol', 1.48e-8)), float(inp.get('rtol', 1.48e-8))
        calls = rep['calls']
        v = {x: y for x, y in calls}
        r = rep['ok']
        if full:
            if r.get('t') != 'dict':
                return 'the full output is no dictionary'
            d = r['v']
            for k in ('root', 'function_calls', 'iterations', 'converged', 'flag'):
                if k not in d:
                    return 'the full output lacks %s' % k
            conv = d['converged']['v']
            if bool(conv) != (d['flag']['v'] == 'converged'):
                return 'converged=%s, flag=%s' % (conv, d['flag']['v'])
            if not 0 <= d['iterations']['v'] <= inp['maxiter']:
                return '%s iterations, maxiter=%s' % (d['iterations']['v'], inp['maxiter'])
            if len(calls) < 200 and d['function_calls']['v'] != len(calls):
                return 'function_calls is %s after %d calls' % (d['function_calls']['v'], len(calls))
            r = d['root']
        else:
            conv = None
        try:
            x = float(r['v'])
        except Exception:
            return 'the root is %s' % r
        if not a <= x <= b:
            return 'the root %r lies outside [%r, %r]' % (x, a, b)
        fx = v.get(x, f(x))
        if v.get(a, f(a)) == 0:
            return None if x == a and conv in (None, True) else 'a root at the left end is not returned'
        if v.get(b, f(b)) == 0:
            return None if x == b and conv in (None, True) else 'a root at the right end is not returned'
        if conv is None:
            conv = inp.get('maxiter', 500) >= 150
        if conv and fx != 0 and len(calls) < 200:
            tol = (xtol + rtol * abs(x)) * 1.001 + 1e-14 * (1 + abs(x))
            if not any(y * fx < 0 and abs(x - p) <= tol for p, y in calls):
                return 'no sign change within %g of the root %r' % (tol, x)
            if full is False and abs(calls[-1][0]) > 1e300:
                return 'diverged'
        return None
    return conc


BF = {'f': FnKind(fn_pool, fn_eval), 'xa': F(gen=lambda g: g.rng.randint(-24, 8) / 4), 'xb': F(gen=lambda g: g.rng.randint(-8, 24) / 4)}
BT = dict(BF, xtol=F(gen=lambda g: g.rng.choice([1e-3, 1e-6, 1e-9, 0.25])), rtol=F(gen=lambda g: g.rng.choice([1e-3, 1e-6, 1e-9, 0.0, 0.5])),
          maxiter=I(0, 300, gen=lambda g: g.rng.choice([0, 1, 2, 3, 5, 300, 300])))
BD = dict(BF, xtol=Default(1.48e-8, lambda t: [lt(ZERO, t)]), rtol=Default(1.48e-8, lambda t: [le(ZERO, t)]), maxiter=Default(500, lambda t: [le(ZERO, t)]))
BR = lambda A: [('ValueError', le(A.xb, A.xa)), ('ValueError', same_sign(A.f(A.xa), A.f(A.xb)))]
BQ = lambda A: [lt(ZERO, A.xtol), le(ZERO, A.rtol), le(ZERO, A.maxiter)]
KEYS = {k: SAny() for k in ('root', 'function_calls', 'iterations', 'converged', 'flag')}

contract(O_ + 'brentq',
         Case('root', dict(BT, full_output=Const(False)), lambda A: SAny(), requires=BQ, raises=BR, rels=brent_rel(False),
              concrete=brent_conc(False), invariants=lambda A: [brent_inv(A)]),
         Case('full output', dict(BT, full_output=Const(True)), lambda A: SDict(KEYS), requires=BQ, raises=BR, rels=brent_rel(True),
              concrete=brent_conc(True), invariants=lambda A: [brent_inv(A)]),
         Case('defaults', dict(BD, full_output=Default(False)), lambda A: SAny(), raises=BR, rels=brent_rel(False),
              concrete=brent_conc(False), invariants=lambda A: [brent_inv(A)]))


# --- bounded minimisation ---------------------------------------------------------------------------
EPS_SQRT = sqrt(num(Fraction('2.2e-16')))


def target_of(A):
    extra = getattr(A, 'parameters', None)
    return (lambda x: A.target(x, *extra)) if isinstance(extra, list) else A.target


def fmin_inv(A):
    F_ = target_of(A)

    def facts(E):
        l, r, x, fx = E('left'), E('right'), E('x_optimal'), E('f_current')
        t1 = E('epsilon_sqrt') * abs(x) + A.tolerance / 3
        return [('the bracket lies in the bounds', band(le(A.lower, l), le(r, A.upper))), ('the best point lies in the bracket', between(l, x, r)),
                ('the best value belongs to the best point', eq(fx, F_(x))), ('no evaluated point is better', le(fx, E.best('target'))),
                ('the left end is a bound or no better', bor(eq(l, A.lower), band(lt(l, x), le(fx, F_(l))))),
                ('the right end is a bound or no better', bor(eq(r, A.upper), band(lt(x, r), le(fx, F_(r))))),
                ('the evaluations are counted', eq(E('iteration_count'), E.calls('target'))), ('something was evaluated', le(num(1), E.calls('target'))),
                ('the first tolerance belongs to the best point', eq(E('tolerance_1'), t1)), ('the second tolerance is twice the first', eq(E('tolerance_2'), 2 * E('tolerance_1'))),
                ('the centre is the centre of the bracket', eq(2 * E('x_central'), l + r)), ('no verdict yet', eq(E('convergence_flag'), ZERO)),
                ('the golden section is a fraction', band(lt(ZERO, E('golden_ratio')), lt(E('golden_ratio'), num(1)))),
                ('evaluations are left', bor(eq(E('iteration_count'), num(1)), lt(E('iteration_count'), A.max_evaluations)))]

    def asked(E):
        y, fy = E('x_current'), E('f_temp')
        return [('the new point lies inside the bracket', band(lt(E('left'), y), lt(y, E('right')))), ('the new point is another one', bnot(eq(y, E('x_optimal')))), ('the new point was evaluated', eq(fy, F_(y))),
                ('the call was made once', eq(E.calls('target'), E('iteration_count') + 1)), ('the best value so far', le(tmin(fy, E('f_current')), E.best('target')))]
    kept = ['left', 'right', 'x_optimal', 'f_current', 'tolerance_1', 'tolerance_2', 'x_central', 'iteration_count', 'convergence_flag']
    free = lambda E, v: []
    return Inv(['left', 'right', 'x_optimal', 'x_temp', 'x_middle', 'x_current', 'f_temp', 'f_current', 'f_x_temp', 'f_x_middle', 'tolerance_1', 'tolerance_2', 'x_central',
                'e', 'step_size', 'iteration_count', 'convergence_flag', 'epsilon_sqrt', 'golden_ratio'], facts, ints=['iteration_count', 'convergence_flag'],
               cuts={'r': free, 'q': free, 'p': free}, merge={'f_temp': (kept, asked)}, also=['golden_ratio'])


def fmin_rel(full):
    def rel(A, R):
        F_ = target_of(A)
        lo, hi = A.lower, A.upper
        if not full:
            x = R.num()
            return [('the minimiser lies in the bounds', [], between(lo, x, hi)), ('no evaluated point is better', [], le(F_(x), R.best('target')))]
        x, fx, flag, n = [R.item(k).num() for k in range(4)]
        tol = 4 * (EPS_SQRT * abs(x) + A.tolerance / 3)
        ends = points(R, 'target', F_(x)) + [lo, hi]
        ends = list(dict.fromkeys(ends))
        near = bor(*[band(between(lo, y, x), between(x, z, hi), le(z - y, tol), bor(eq(y, lo), band(lt(y, x), le(fx, F_(y)))), bor(eq(z, hi), band(lt(x, z), le(fx, F_(z)))))
                     for y in ends for z in ends])
        return [('the minimiser lies in the bounds', [], between(lo, x, hi)), ('the value belongs to the minimiser', [], eq(fx, F_(x))),
                ('no evaluated point is better', [], le(fx, R.best('target'))), ('the evaluations are counted', [], eq(n, R.calls('target'))),
                ('the limit holds', [], le(n, tmax(A.max_evaluations, num(2)))), ('the flag is 0 or 1', [], bor(eq(flag, ZERO), eq(flag, num(1)))),
                ('flag 1: the limit was reached', [eq(flag, num(1))], le(A.max_evaluations, n)),
                ('flag 0: the minimiser is bracketed within the tolerance', [eq(flag, ZERO)], near)]
    return rel


def fmin_conc(full):
    def conc(inp, rep):
        extra = [float(v) for v in inp.get('parameters', ())]
        calls = rep['calls']
        lo, hi = float(inp['lower']), float(inp['upper'])
        tol = float(inp.get('tolerance', 1e-5))
        lim = inp.get('max_evaluations', 500)
        r = rep['ok']
        flag = n = fx = None
        if full:
            if r.get('t') != 'tuple' or len(r['v']) != 4:
                return 'the detailed output is no tuple of 4'
            r, fx, flag, n = r['v']
            fx, flag, n = fx['v'], flag['v'], n['v']
        try:
            x = float(r['v'])
        except Exception:
            return 'the minimiser is %s' % r
        if not lo <= x <= hi:
            return 'the minimiser %r lies outside [%r, %r]' % (x, lo, hi)
        v = fn_eval(inp['target'], x, *extra)
        eps = 1e-9 * (1 + abs(v))
        best = min(y for _, y in calls)
        if len(calls) < 200 and v > best + eps:
            return 'f(%r) = %r although a value of %r was found' % (x, v, best)
        if not full:
            return None
        if abs(fx - v) > eps:
            return 'the value %r is not f(%r) = %r' % (fx, x, v)
        if len(calls) < 200 and n != len(calls):
            return '%d evaluations reported, %d made' % (n, len(calls))
        if n > max(lim, 2):
            return '%d evaluations, at most %d allowed' % (n, lim)
        if flag not in (0, 1) or (flag == 1 and n < lim):
            return 'flag %s after %d of %d evaluations' % (flag, n, lim)
        if flag == 0 and len(calls) < 200:
            w = 4 * (math.sqrt(2.2e-16) * abs(x) + tol / 3) * 1.0001 + 1e-14 * (1 + abs(x))
            ys = [p for p, y in calls if p < x and y >= fx] + [lo]
            zs = [p for p, y in calls if p > x and y >= fx] + [hi]
            if min(zs) - max(ys) > w:
                return 'the bracket [%r, %r] of the minimiser %r is wider than the tolerance' % (max(ys), min(zs), x)
        return None
    return conc


MB = {'target': FnKind(fn_pool, fn_eval), 'lower': F(gen=lambda g: g.rng.randint(-24, 10) / 4), 'upper': F(gen=lambda g: g.rng.randint(-8, 24) / 4)}
MD = dict(MB, parameters=Default(()), tolerance=Default(1e-5, lambda t: [lt(ZERO, t)]), max_evaluations=Default(500, lambda t: [le(num(1), t)]))
ME = dict(MB, parameters=Tup(F()), tolerance=F(gen=lambda g: g.rng.choice([1e-2, 1e-4, 1e-7])), max_evaluations=I(1, 200, gen=lambda g: g.rng.choice([1, 2, 3, 4, 6, 300, 300])))
MR = lambda A: [('ValueError', lt(A.upper, A.lower))]
MQ = lambda A: [lt(ZERO, A.tolerance), le(num(1), A.max_evaluations)]
contract(O_ + 'fminbound',
         Case('minimiser', dict(ME, detailed_output=Const(False)), lambda A: SAny(), requires=MQ, raises=MR, rels=fmin_rel(False),
              concrete=fmin_conc(False), invariants=lambda A: [fmin_inv(A)]),
         Case('detailed', dict(ME, detailed_output=Const(True)), lambda A: STup(SAny(), SAny(), SAny(), SAny()), requires=MQ, raises=MR, rels=fmin_rel(True),
              concrete=fmin_conc(True), invariants=lambda A: [fmin_inv(A)]),
         Case('defaults', dict(MD, detailed_output=Default(False)), lambda A: SAny(), raises=MR, rels=fmin_rel(False),
              concrete=fmin_conc(False), invariants=lambda A: [fmin_inv(A)]))
