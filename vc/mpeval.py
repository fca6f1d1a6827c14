"""Evaluation of terms over the reals (50 digits), to tell a real difference from rounding."""
import math
import mpmath as mp
from .terms import *
from . import evalx
from .evalx import UNDEFV, EvalError
mp.mp.dps = 50

def _z(f):
    def g(*a):
        try: return f(*a)
        except (ValueError, ZeroDivisionError, TypeError, mp.libmp.libhyper.NoConvergence): return mp.nan
    return g
def _rem(a, b):
    if b == 0 or not mp.isfinite(a): return mp.nan
    q = a / b
    return a - b * (mp.floor(q) if q >= 0 else mp.ceil(q))
def _sqrt(a): return mp.sqrt(a) if a >= 0 else mp.nan
def _pow(a, b):
    if a < 0 and b != mp.floor(b): return mp.nan
    return mp.power(a, b)
def _asin(a): return mp.asin(a) if -1 <= a <= 1 else mp.nan
def _acos(a): return mp.acos(a) if -1 <= a <= 1 else mp.nan
def _round(a): return mp.sign(a) * mp.floor(abs(a) + mp.mpf(1) / 2)
MP = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
      'neg': lambda a: -a, 'rem': _rem, 'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'asin': _asin, 'acos': _acos, 'atan': mp.atan,
      'atan2': mp.atan2, 'sqrt': _sqrt, 'pow': _pow, 'floor': mp.floor, 'ceil': mp.ceil, 'trunc': lambda a: mp.floor(a) if a >= 0 else mp.ceil(a),
      'round': _round, 'abs': abs, 'fmin': min, 'fmax': max, 'exp': mp.exp, 'ln': mp.log, 'cbrt': mp.cbrt, 'powi': lambda a, b: mp.power(a, b),
      'copysign': lambda a, b: abs(a) if b >= 0 else -abs(a)}
MP = {k: _z(v) for k, v in MP.items()}

def evaluate(roots, env):
    m = {}
    for n in evalx.plan(roots):
        op = n.op
        if op == 'lam': m[n.id] = None; continue
        if op == 'ite':
            c = m[n.args[0].id]
            m[n.id] = UNDEFV if c is UNDEFV else m[n.args[1].id] if c else m[n.args[2].id]
            continue
        if op == 'var':
            v = env.get(n.k, UNDEFV)
            m[n.id] = mp.mpf(v) if isinstance(v, float) else v; continue
        if op == 'f': m[n.id] = mp.mpf(fval(n)); continue
        if op in ('i', 'b', 's'): m[n.id] = n.k; continue
        a = [m[x.id] for x in n.args]
        if op == 'app': m[n.id] = app(n, a); continue
        if op == 'mu': m[n.id] = mu(n, a); continue
        if any(x is UNDEFV for x in a) and op not in ('pack', 'push'): m[n.id] = UNDEFV; continue
        if op in MP: m[n.id] = MP[op](*a)
        elif op == 'finite': m[n.id] = bool(mp.isfinite(a[0]))
        elif op == 'isnan': m[n.id] = bool(mp.isnan(a[0]))
        elif op == 'signbit': m[n.id] = a[0] < 0
        elif op == 'i2f': m[n.id] = mp.mpf(a[0])
        elif op == 'f2i':
            lo, hi = INT_RANGE[n.k]
            m[n.id] = 0 if mp.isnan(a[0]) else lo if a[0] <= lo else hi if a[0] >= hi else int(a[0])
        elif op == 'parse' and n.sort == 'F':
            v = evalx.ev1(n, op, a, env); m[n.id] = v if v is UNDEFV else mp.mpf(v)
        elif op == 'isint': m[n.id] = bool(mp.isfinite(a[0]) and abs(a[0] - mp.nint(a[0])) < mp.mpf('1e-12') * max(1, abs(a[0])))
        elif op == 'disp' : m[n.id] = evalx.ev1(n, op, [float(a[0]) if isinstance(a[0], mp.mpf) else a[0]], env)
        else: m[n.id] = evalx.ev1(n, op, a, env)
    return [m[r.id] for r in roots]
def app(n, a):
    f, path = n.k
    c = evalx.CONTRACTS.get(f)
    if c is None or path not in c.outs or path in c.relational: return UNDEFV
    return evaluate([c.outs[path]], {v.k: x for v, x in zip(c.deps(path), a)})[0]
def mu(n, a):
    from .exec import LOOPS
    L = LOOPS[n.k[0]]
    vals = list(a[:L.n]); par = {v.k: x for v, x in zip(L.params, a[L.n:])}
    for _ in range(5000):
        env = dict(par)
        for v, x in zip(L.vars, vals): env[v.k] = x
        r = evaluate([L.cont] + list(L.upd), env)
        if r[0] is not True: return vals[n.k[1]]
        vals = r[1:]
    return UNDEFV
