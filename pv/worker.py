"""Runs the real code (under /opt/venv python) on concrete inputs given as JSON lines."""
import sys, json, importlib, warnings, os, zlib
sys.path.insert(0, os.environ.get('PV_REPO', '/repo'))
sys.dont_write_bytecode = True
import numpy as np
warnings.simplefilter('ignore')
np.seterr(all='ignore')


def dec(a):
    t = a['t']
    if t == 'farr':
        return np.array(a['v'], dtype=float).reshape(a.get('shape', (len(a['v']),)))
    if t == 'iarr':
        return np.array(a['v'], dtype=int).reshape(a.get('shape', (len(a['v']),)))
    if t == 'barr':
        return np.array(a['v'], dtype=bool)
    if t == 'list':
        return list(a['v'])
    if t == 'carr':
        return np.array([complex(*x) for x in a['v']], dtype=complex)
    if t == 'tuple':
        return tuple(dec(x) for x in a['v'])
    if t == 'lists':
        return [dec(x) for x in a['v']]
    if t == 'val':
        return a['v']
    if t == 'npf':
        return np.float64(a['v'])
    if t == 'fn':
        k, c = a['kind'], a['c']
        calls = CALLS
        if k == 'poly':
            def f(x, *extra):
                r = 0.0
                for q in reversed(c):
                    r = r * x + q
                r = r + sum(extra)
                calls.append((float(x), float(r)))
                return r
        elif k == 'abs':
            def f(x, *extra):
                r = abs(x - c[0]) * c[1] + c[2] + sum(extra)
                calls.append((float(x), float(r)))
                return r
        elif k == 'sin':
            def f(x, *extra):
                r = float(np.sin(c[0] * x + c[1]) + c[2]) + sum(extra)
                calls.append((float(x), float(r)))
                return r
        elif k == 'stair':
            def f(x, *extra):
                r = c[2] + float(round(c[1] * abs(x - c[0]))) + sum(extra)
                calls.append((float(x), float(r)))
                return r
        elif k == 'flat':
            def f(x, *extra):
                r = c[2] * (x - c[0]) ** c[1] + sum(extra)
                calls.append((float(x), float(r)))
                return r
        elif k == 'step':
            def f(x, *extra):
                r = (c[1] if x < c[0] else c[2]) + 0.0 + sum(extra)
                calls.append((float(x), float(r)))
                return r
        return f
    raise ValueError(t)


def num(x):
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return x


def enc(v):
    if v is None or isinstance(v, (str, bool)):
        return {'t': 'val', 'v': v}
    if isinstance(v, np.bool_):
        return {'t': 'val', 'v': bool(v)}
    if isinstance(v, (int, np.integer)):
        return {'t': 'int', 'v': int(v)}
    if isinstance(v, (float, np.floating)):
        return {'t': 'float', 'v': num(v)}
    if isinstance(v, (complex, np.complexfloating)):
        return {'t': 'complex', 're': num(v.real), 'im': num(v.imag)}
    if isinstance(v, np.ma.MaskedArray):
        return {'t': 'masked', 'v': [num(x) for x in np.asarray(v.filled(np.nan), dtype=float).ravel()], 'shape': list(v.shape)}
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'f':
            return {'t': 'arr', 'k': 'f', 'v': [num(x) for x in v.ravel()], 'shape': list(v.shape)}
        if v.dtype.kind in 'iu':
            return {'t': 'arr', 'k': 'i', 'v': [int(x) for x in v.ravel()], 'shape': list(v.shape)}
        if v.dtype.kind == 'b':
            return {'t': 'arr', 'k': 'b', 'v': [bool(x) for x in v.ravel()], 'shape': list(v.shape)}
        if v.dtype.kind == 'c':
            return {'t': 'arr', 'k': 'c', 'v': [[num(x.real), num(x.imag)] for x in v.ravel()], 'shape': list(v.shape)}
        return {'t': 'other', 'v': str(v.dtype)}
    if isinstance(v, tuple):
        return {'t': 'tuple', 'v': [enc(x) for x in v]}
    if isinstance(v, list):
        return {'t': 'list', 'v': [enc(x) for x in v]}
    if isinstance(v, dict):
        return {'t': 'dict', 'v': {str(k): enc(x) for k, x in v.items()}}
    if callable(v):
        return {'t': 'fn'}
    return {'t': 'other', 'v': type(v).__name__}


CALLS = []


def main():
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = open(os.devnull, 'w')
    for line in sys.stdin:
        q = json.loads(line)
        try:
            mod = importlib.import_module(q['mod'])
            f = getattr(mod, q['fn'])
        except Exception as e:
            out.write(json.dumps({'missing': '%s: %s' % (type(e).__name__, e)}) + '\n')
            out.flush()
            continue
        del CALLS[:]
        args = [dec(a) for a in q['args']]
        kw = {k: dec(a) for k, a in q.get('kw', {}).items()}
        before = [enc(a) for a in args]
        beforekw = {k: enc(a) for k, a in kw.items()}
        np.random.seed(zlib.crc32(line.encode()) % (1 << 31))
        pre = enc(args)
        try:
            r = f(*args, **kw)
            rep = {'ok': enc(r)}
            rep['alias'] = [k for k, a in enumerate(args) if isinstance(a, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(a, r) and a.size > 0]
            rep['aliaskw'] = [k for k, a in kw.items() if isinstance(a, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(a, r) and a.size > 0]
        except Exception as e:
            rep = {'exc': [c.__name__ for c in type(e).__mro__], 'msg': str(e)[:200]}
        after = [enc(a) for a in args]
        rep['mut'] = [b != a for b, a in zip(before, after)]
        rep['mutkw'] = [beforekw[k] != enc(kw[k]) for k in kw]
        rep['calls'] = CALLS[:200]
        out.write(json.dumps(rep) + '\n')
        out.flush()


main()
