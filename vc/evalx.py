"""Concrete evaluation of terms (f64, as the machine does it)."""
import math
from .terms import *
from . import terms as T

class EvalError(Exception): pass
MAXITER = 200000

def f2i_c(v, kind, bits):
    lo, hi = INT_RANGE[(kind, bits)]
    return 0 if v != v else lo if v <= lo else hi if v >= hi else int(v)
def ws_trim(b):
    try: return b.decode().strip().encode()
    except UnicodeDecodeError: return b.strip()
UNDEFV = object()
CONTRACTS = {}
_order = {}

def ev_float(op, a):
    try: return EV[op](*a)
    except OverflowError: return math.inf
    except (ValueError, TypeError): return math.nan

def plan(roots):
    key = tuple(r.id for r in roots)
    if key not in _order:
        if len(_order) > 4000: _order.clear()
        _order[key] = postorder(roots, stop=lambda n: n.op in ('lam', 'mu') and False)
    return _order[key]

def evaluate(roots, env):
    """env: variable name -> python value. -> list of values (float, int, bool, bytes, list, tuple)"""
    m = {}
    for n in plan(roots):
        op = n.op
        if op == 'lam': m[n.id] = None; continue
        if op == 'ite':
            c = m[n.args[0].id]
            m[n.id] = UNDEFV if c is UNDEFV else m[n.args[1].id] if c else m[n.args[2].id]
            continue
        if op == 'var':
            m[n.id] = env.get(n.k, UNDEFV); continue
        if op == 'f': m[n.id] = fval(n); continue
        if op in ('i', 'b', 's'): m[n.id] = n.k; continue
        a = [m[x.id] for x in n.args]
        if op == 'app':
            m[n.id] = ev_app(n, a) if '$opaque' not in env else ev_opaque(n, a, env['$opaque']); continue
        if op == 'mu':
            m[n.id] = ev_mu(n, a); continue
        if any(x is UNDEFV for x in a) and op not in ('pack', 'push'):
            m[n.id] = UNDEFV; continue
        m[n.id] = ev1(n, op, a, env)
    return [m[r.id] for r in roots]

def ev1(n, op, a, env):
    if op in EV: return ev_float(op, a)
    if op == 'flt': return a[0] < a[1]
    if op == 'fle': return a[0] <= a[1]
    if op == 'feq': return a[0] == a[1]
    if op == 'powi': return ev_float('pow', [a[0], float(a[1])])
    if op == 'finite': return math.isfinite(a[0])
    if op == 'isnan': return a[0] != a[0]
    if op == 'signbit': return math.copysign(1.0, a[0]) < 0
    if op == 'iadd': return a[0] + a[1]
    if op == 'isub': return a[0] - a[1]
    if op == 'imul': return a[0] * a[1]
    if op == 'idiv':
        if a[1] == 0: return UNDEFV
        q = abs(a[0]) // abs(a[1]); return q if (a[0] < 0) == (a[1] < 0) else -q
    if op == 'irem':
        if a[1] == 0: return UNDEFV
        r = abs(a[0]) % abs(a[1]); return -r if a[0] < 0 else r
    if op == 'imod': return a[0] % a[1]
    if op == 'ilt': return a[0] < a[1]
    if op == 'ieq': return a[0] == a[1]
    if op == 'wrap':
        lo, hi = INT_RANGE[n.k]; return (a[0] - lo) % (hi - lo + 1) + lo
    if op == 'i2f': return float(a[0])
    if op == 'f2i': return f2i_c(a[0], *n.k)
    if op == 'trim': return ws_trim(a[0])
    if op == 'slen': return len(a[0])
    if op == 'seq': return a[0] == a[1]
    if op == 'getok': return T._py_get(a[0], a[1], a[2] if len(a) > 2 else None) is not None
    if op == 'slice':
        r = T._py_get(a[0], a[1], a[2] if len(a) > 2 else None)
        return UNDEFV if r is None else r
    if op == 'concat': return b''.join(a)
    if op == 'sbyte': return a[0][a[1]] if 0 <= a[1] < len(a[0]) else -1
    if op == 'parseok': return T.py_parse(a[0], n.k) is not None
    if op == 'parse':
        r = T.py_parse(a[0], n.k); return UNDEFV if r is None else r
    if op == 'parseerr': return ('parseerr', a[0], n.k)
    if op == 'starts': return a[0].startswith(a[1])
    if op == 'disp': return str(a[0]).encode()
    if op == 'chrono': return a[0][n.k]
    if op == 'bytes': return list(a[0])
    if op == 'splitq': return a[0].split(a[1]) if a[1] else UNDEFV
    if op == 'linesq':
        l = a[0].split(b'\n')
        if l and l[-1] == b'': l.pop()
        return [x[:-1] if x.endswith(b'\r') else x for x in l]
    if op == 'filterq':
        lam = n.args[1]; x, p = lam.args
        return [v for v in a[0] if evaluate([p], dict(env, **{x.k: v}))[0] is True]
    if op == 'emptyq': return []
    if op == 'push': return (a[0] + [a[1]]) if a[0] is not UNDEFV else UNDEFV
    if op == 'nth': return a[0][a[1]] if 0 <= a[1] < len(a[0]) else UNDEFV
    if op == 'qlen': return len(a[0])
    if op == 'pack': return (n.k, tuple(a))
    if op == 'undef': return UNDEFV
    if op == 'isint': return abs(a[0] - round(a[0])) < 1e-6 * max(1.0, abs(a[0]))  if math.isfinite(a[0]) else False
    raise EvalError('cannot evaluate ' + op)

def ev_opaque(n, a, seed):
    """callees as arbitrary functions of their arguments"""
    import random
    a = tuple(float('%.8g' % x) if isinstance(x, float) else repr(x) for x in a)
    r = random.Random(repr((n.k, a, seed)))
    if n.sort == 'F': return r.choice([r.uniform(0.3, 2.0), r.uniform(0.3, 2.0), r.uniform(-2, -0.1), r.uniform(0.0, 0.03)])
    if n.sort == 'I': return r.randrange(DOM.get(n.id, 3))
    if n.sort == 'B': return r.random() < 0.5
    return UNDEFV
_appmemo = {}
def ev_app(n, a):
    f, path = n.k
    c = CONTRACTS.get(f)
    if c is None or path not in c.outs: return UNDEFV
    if path in c.relational: return UNDEFV
    e = c.outs[path]
    ds = c.deps(path)
    try:
        key = (n.k, tuple(a))
        r = _appmemo.get(key)
    except TypeError: key = None; r = None
    if r is None:
        r = evaluate([e], {v.k: x for v, x in zip(ds, a)})[0]
        if len(_appmemo) > 200000: _appmemo.clear()
        if key is not None: _appmemo[key] = r
    return r
def ev_mu(n, a):
    from .exec import LOOPS
    L = LOOPS[n.k[0]]
    vals = list(a[:L.n]); par = {v.k: x for v, x in zip(L.params, a[L.n:])}
    for _ in range(MAXITER):
        env = dict(par)
        for v, x in zip(L.vars, vals): env[v.k] = x
        r = evaluate([L.cont] + list(L.upd), env)
        if r[0] is not True: return vals[n.k[1]]
        vals = r[1:]
        if any(isinstance(v, float) and not math.isfinite(v) for v in vals) and _ > 1000: return UNDEFV
    return UNDEFV
