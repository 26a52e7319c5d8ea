"""Running contracts: one process per case, helpers before callers, verdicts, replay files, evidence."""
import json, os, sys, time, traceback, multiprocessing as mp, signal
from .term import *
from . import term as _term
from . import solve
from .contract import *
from .conc import Concrete, Fraction
from .real import Real

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')


def jsonable(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return v


class Limit(Exception):
    pass


def _alarm(*a):
    raise Limit('time limit')


def case_task(C, target, k, contracts, budget, nconc, conc_s, seed, q):
    """verify case k of a contract in its own process; q: pipe for the verdict"""
    sys.setrecursionlimit(20000)
    t0 = time.time()
    c = C[target]
    case = c.cases[k]
    loader = Loader(REPO)
    real = Real(REPO)
    out = dict(target=target, case=case.name, status='proved', obligations=0, discharged=0, by={}, failed=[], why='', conc={},
               violation=None, used=[], inlined=[], np=[], assumed=[], paths=0)
    run = None
    if c.bounded:
        out['status'], out['why'] = 'bounded', c.doc or 'outside the subset'
    else:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(budget) + 5)
        try:
            run = CaseRun(loader, c, case, {u: C[u] for u in contracts}, budget)
            run.run()
            if run.paths == 0 or (run.normal == 0 and not run.obls):
                raise Unsupported('no execution path')
            run.prove()
        except Unsupported as e:
            out['status'], out['why'] = 'unsupported', str(e)[:300]
        except (TooBig, RecursionError, Limit, MemoryError) as e:
            out['status'], out['why'] = 'unsupported', '%s %s' % (type(e).__name__, str(e)[:200])
        except PoisonRead as e:
            out['status'], out['why'] = 'unsupported', 'read of %s' % (e.name,)
        except Exception as e:
            out['status'], out['why'] = 'unsupported', 'engine: %s %s' % (type(e).__name__, str(e)[:200])
            out['trace'] = traceback.format_exc()[-1500:]
        signal.alarm(0)
        if run is not None and out['status'] == 'proved':
            out['paths'] = run.paths
            out['info'] = run.info
            for o in run.obls:
                out['obligations'] += 1
                if o.res is not None and o.res.status == 'proved':
                    out['discharged'] += 1
                    out['by'][o.res.how] = out['by'].get(o.res.how, 0) + 1
                else:
                    out['failed'].append(o)
            if out['failed']:
                out['status'] = 'failed'
            if getattr(case, 'soft', False) and any('loop invariant' in o.name for o in out['failed']):
                # the invariant is only a means here: without it the contract is not decided
                out['status'], out['why'], out['failed'] = 'unsupported', 'not inductive: ' + out['failed'][0].name, []
    out['stats'] = dict(solve.STATS)
    out['t_sym'] = time.time() - t0
    # the same contract against the running code
    t1 = time.time()
    co = Concrete(c, case, loader, real, seed)
    hit = None
    try:
        if case.concrete:
            co.wide = bool(out['failed'] or out['status'] == 'unsupported')
            if out['failed']:
                hit = from_models(co, run, out['failed'], time.time() + 20)
            n = nconc if not out['failed'] and out['status'] != 'unsupported' else nconc * 6
            s = conc_s if not out['failed'] and out['status'] != 'unsupported' else conc_s * 4
            if hit is None:
                hit = co.search(n, time.time() + s)
            if hit:
                hit = co.minimise(hit[0], hit[1], time.time() + 8)
    except Exception as e:
        out['conc_error'] = traceback.format_exc()[-1500:]
    out['conc'] = dict(runs=co.runs, compared=co.compared, undecided=co.undef, rejected=co.rejected, secs=round(time.time() - t1, 2))
    if hit:
        inp, bad = hit
        out['violation'] = dict(target=target, case=case.name, what=bad['what'], result=jsonable(bad.get('result')),
                                input={a: jsonable(v) for a, v in inp.items()},
                                call={a: case.args[a].enc(v) for a, v in inp.items() if not isinstance(case.args[a], Default)}, missing=bad.get('missing', False))
    out['failed'] = [dict(name=o.name, kind=o.kind, status=o.res.status, how=o.res.how, reason=o.res.reason[:200], goal=str(o.goal)[:1500])
                     for o in out['failed'][:8]]
    real.close()
    q.send(json.loads(json.dumps(jsonable(out), default=str)))
    q.close()
    os._exit(0)


def from_models(co, run, failed, deadline):
    """inputs suggested by the solver for the failed obligations"""
    for o in failed[:6]:
        cands = []
        if o.res.model is not None:
            cands.append(o.res.model)
        sizes = [t for t in run.A.S.values() if t.op == 'var']
        for k in (2, 4, 7):
            if time.time() > deadline or not sizes:
                break
            try:
                r, m, _ = solve.z3_check(o.hyps + [bnot(o.goal)] + [le(s, num(k)) for s in sizes], 1500, 1, want_model=True)
            except Exception:
                break
            if m is not None:
                cands.append(m)
        for m in cands:
            try:
                inp = co.from_model(m)
                if inp is None:
                    continue
                bad = co.check(inp)
            except Exception:
                continue
            if bad:
                return inp, bad
    return None


def schedule(C, tasks, jobs, **kw):
    """tasks: (target, k, contracts); returns verdicts in order"""
    ctx = mp.get_context('fork')
    todo = list(enumerate(tasks))
    running = {}
    res = [None] * len(tasks)
    while todo or running:
        while todo and len(running) < jobs:
            i, (target, k, cs) = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=case_task, args=(C, target, k, cs, kw['budget'], kw['nconc'], kw['conc_s'], kw['seed'], b))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), target, k)
        for i, (p, a, t0, target, k) in list(running.items()):
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = None
                p.join(5)
                res[i] = got or dead(C, target, k, 'verifier process died')
                del running[i]
            elif time.time() - t0 > kw['budget'] + kw['conc_s'] * 4 + 75:
                p.kill()
                p.join()
                res[i] = dead(C, target, k, 'time limit')
                del running[i]
    return res


def dead(C, target, k, why):
    return dict(target=target, case=C[target].cases[k].name, status='unsupported', obligations=0, discharged=0, by={}, failed=[], why=why,
                conc={}, violation=None, stats={}, paths=0)


def closure(C, roots):
    """roots and everything their contracts use, helpers first"""
    out = []

    def go(t):
        if t in out:
            return
        for u in C[t].uses:
            go(u)
        out.append(t)
    for r in roots:
        go(r)
    return out


def verify(C, roots, jobs, quiet_helpers=True, **kw):
    """roots: {target: None or list of case names}"""
    order = closure(C, roots)
    tasks = []
    for t in order:
        for k, case in enumerate(C[t].cases):
            if t in roots and roots[t] is not None and case.name not in roots[t] and not any(t in C[o].uses for o in order):
                continue
            tasks.append((t, k, list(C[t].uses)))
    verdicts = {(t, k): v for (t, k, _), v in zip(tasks, schedule(C, tasks, jobs, **kw))}
    # a helper whose contract is not discharged may not be used by its callers: verify those with its body instead
    bad = {t for (t, k), v in verdicts.items() if v['status'] != 'proved' or v['violation']}
    for _ in range(4):
        again = []
        for t in order:
            use = [u for u in C[t].uses if u not in bad]
            if len(use) < len(C[t].uses):
                for k in range(len(C[t].cases)):
                    if (t, k) in verdicts and verdicts[(t, k)].get('uses') != use and not C[t].bounded:
                        again.append((t, k, use))
        if not again:
            break
        for (t, k, use), v in zip(again, schedule(C, again, jobs, **kw)):
            v['uses'] = use
            verdicts[(t, k)] = v
        nb = {t for (t, k), v in verdicts.items() if v['status'] != 'proved' or v['violation']}
        if nb <= bad:
            break
        bad |= nb
    return verdicts
