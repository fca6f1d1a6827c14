"""Hash-consed terms used for both the executed MIR and the contracts.

Sorts: F (f64), I (integer), B (bool), S (string/str), Q (sequence), X (opaque value).
Booleans and data-dependent choices are decision diagrams ('ite' nodes whose condition is an
atom, ordered by atom id), so every choice structure has one canonical form.
"""
import math, struct, sys
from fractions import Fraction
sys.setrecursionlimit(200000)

class Node:
    __slots__ = ('id', 'op', 'args', 'k', 'sort', '_top')
    def __repr__(self): return show(self, 4)
    def __bool__(self): raise TypeError('symbolic value used as a python bool')

_table = {}
_nodes = []

def mk(op, args=(), k=None, sort='F'):
    key = (op, tuple([a.id for a in args]), k, sort)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.id = len(_nodes); n.op = op; n.args = tuple(args); n.k = k; n.sort = sort; n._top = None
        _table[key] = n
        _nodes.append(n)
    return n

def show(n, d=6):
    if n.op == 'f': return repr(fval(n))
    if n.op in ('i', 's'): return repr(n.k)
    if n.op == 'b': return str(n.k)
    if n.op == 'var': return str(n.k)
    if d <= 0: return '#%d' % n.id
    a = ','.join(show(x, d - 1) for x in n.args)
    return '%s%s(%s)' % (n.op, '' if n.k is None else '[%s]' % (n.k if not isinstance(n.k, tuple) else str(n.k)[:40]), a)

# ---------------------------------------------------------------- constants
def F(x):
    x = float(x)
    return mk('f', (), struct.pack('>d', x), 'F')
def fval(n): return struct.unpack('>d', n.k)[0]
def Ic(x): return mk('i', (), int(x), 'I')
def Sc(b):
    if isinstance(b, str): b = b.encode()
    return mk('s', (), bytes(b), 'S')
TRUE = mk('b', (), True, 'B')
FALSE = mk('b', (), False, 'B')
def Bc(x): return TRUE if x else FALSE
def var(name, sort='F', dom=None):
    n = mk('var', (), name, sort)
    if dom is not None: DOM[n.id] = dom
    return n
DOM = {}     # var id -> number of values (enum discriminants 0..n-1)

def isconst(n): return n.op in ('f', 'i', 'b', 's')
def isfc(n): return n.op == 'f'

# ---------------------------------------------------------------- decisions
_ite_memo = {}
def topatom(n):
    """atom of a decision node / of a bool atom; None for leaves."""
    if n.op == 'ite': return n.args[0]
    if n.sort == 'B' and n.op != 'b': return n
    return None
def _cof(n, atom, pos):
    if n.op == 'ite':
        if n.args[0] is atom: return n.args[1] if pos else n.args[2]
        return n
    if n is atom: return TRUE if pos else FALSE
    return n
def _decide(atom, hi, lo):
    if hi is lo: return hi
    if hi is TRUE and lo is FALSE: return atom
    return mk('ite', (atom, hi, lo), None, hi.sort)
def ite(c, t, e):
    if c is TRUE: return t
    if c is FALSE: return e
    if t is e: return t
    if t is TRUE and e is FALSE: return c
    key = (c.id, t.id, e.id)
    r = _ite_memo.get(key)
    if r is not None: return r
    tops = [x for x in (topatom(c), topatom(t), topatom(e)) if x is not None]
    a = min(tops, key=lambda x: x.id)
    r = _decide(a, ite(_cof(c, a, 1), _cof(t, a, 1), _cof(e, a, 1)),
                   ite(_cof(c, a, 0), _cof(t, a, 0), _cof(e, a, 0)))
    if r.sort == 'I' and r.op == 'ite': r = _enum_copy(r)
    _ite_memo[key] = r
    return r
def _enum_copy(r):
    """a choice over the values of one enumerated term that maps every value to itself is that term"""
    a = r.args[0]
    if a.op != 'ieq' or a.args[0].id not in DOM or DOM[a.args[0].id] > 8: return r
    x = a.args[0]
    for k in range(DOM[x.id]):
        n = r
        while n.op == 'ite':
            c = n.args[0]
            if c.op != 'ieq' or c.args[0] is not x or c.args[1].op != 'i': return r
            n = n.args[1] if c.args[1].k == k else n.args[2]
        if n.op != 'i' or n.k != k: return r
    return x
def Not(a): return ite(a, FALSE, TRUE)
def And(*xs):
    r = TRUE
    for x in xs: r = ite(r, x, FALSE)
    return r
def Or(*xs):
    r = FALSE
    for x in xs: r = ite(r, TRUE, x)
    return r
def Iff(a, b): return ite(a, b, Not(b))
def Implies(a, b): return ite(a, b, TRUE)

_restrict_memo = {}
def restrict(f, care):
    """Coudert-Madre restrict: a (simpler) f' with f' == f wherever care holds."""
    if care is FALSE: return f
    if care is TRUE: return f
    if topatom(f) is None: return f
    key = (f.id, care.id)
    r = _restrict_memo.get(key)
    if r is not None: return r
    ca, fa = topatom(care), topatom(f)
    if ca.id < fa.id:
        hi, lo = _cof(care, ca, 1), _cof(care, ca, 0)
        r = restrict(f, Or(hi, lo))
    else:
        hi, lo = _cof(care, fa, 1), _cof(care, fa, 0)
        if hi is FALSE: r = restrict(_cof(f, fa, 0), lo)
        elif lo is FALSE: r = restrict(_cof(f, fa, 1), hi)
        else: r = _decide(fa, restrict(_cof(f, fa, 1), hi), restrict(_cof(f, fa, 0), lo))
    _restrict_memo[key] = r
    return r

def leaves(n, out=None, seen=None):
    if out is None: out, seen = [], set()
    if n.id in seen: return out
    seen.add(n.id)
    if n.op == 'ite':
        leaves(n.args[1], out, seen); leaves(n.args[2], out, seen)
    else: out.append(n)
    return out
def const_choice(n):
    return n.op == 'ite' and n.sort != 'B' and all(isconst(l) for l in leaves(n))
def dist1(n, f, memo=None):
    """apply f at the leaves of a decision diagram"""
    if memo is None: memo = {}
    if n.id in memo: return memo[n.id]
    if n.op == 'ite': r = ite(n.args[0], dist1(n.args[1], f, memo), dist1(n.args[2], f, memo))
    else: r = f(n)
    memo[n.id] = r
    return r

# ---------------------------------------------------------------- floats
COMM = {'add', 'mul', 'feq'}
def _ok(x): return x
def fop(op, *a):
    """IEEE operation; constants are folded exactly as f64."""
    if op == 'sub' : pass
    if all(isfc(x) for x in a):
        try:
            v = EV[op](*[fval(x) for x in a])
            return F(v)
        except (OverflowError, ValueError, ZeroDivisionError):
            pass
    if op in COMM and len(a) == 2 and a[1].id < a[0].id: a = (a[1], a[0])
    return mk(op, a, None, 'F')
def fadd(a, b): return fop('add', a, b)
def fsub(a, b): return fop('sub', a, b)
def fmul(a, b): return fop('mul', a, b)
def fdiv(a, b): return fop('div', a, b)
def fneg(a):
    if a.op == 'neg': return a.args[0]
    return fop('neg', a)
def frem(a, b): return fop('rem', a, b)

def _pow(a, b):
    try: return math.pow(a, b)
    except OverflowError: return math.inf
    except ValueError:
        if a == 0: return math.inf
        return math.nan
def _fdiv(a, b):
    try: return a / b
    except ZeroDivisionError:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
def _fmod(a, b):
    if a != a or b != b or math.isinf(a) or b == 0: return math.nan
    return math.fmod(a, b)
def _sqrt(a): return math.sqrt(a) if a >= 0 else math.nan
def _trig(f):
    def g(a): return f(a) if math.isfinite(a) else math.nan
    return g
def _asin(a): return math.asin(a) if -1 <= a <= 1 else math.nan
def _acos(a): return math.acos(a) if -1 <= a <= 1 else math.nan
def _floor(a): return float(math.floor(a)) if math.isfinite(a) else a
def _ceil(a): return float(math.ceil(a)) if math.isfinite(a) else a
def _trunc(a): return float(math.trunc(a)) if math.isfinite(a) else a
def _round(a):
    if not math.isfinite(a): return a
    r = math.floor(abs(a) + 0.5) if abs(a) < 2**52 else abs(a)
    return math.copysign(float(r), a)
def _fmin(a, b): return b if a != a else a if b != b else min(a, b)
def _fmax(a, b): return b if a != a else a if b != b else max(a, b)
def _exp(a):
    try: return math.exp(a)
    except OverflowError: return math.inf
def _ln(a): return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)
EV = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': _fdiv,
    'neg': lambda a: -a, 'rem': _fmod, 'sin': _trig(math.sin), 'cos': _trig(math.cos), 'tan': _trig(math.tan),
    'asin': _asin, 'acos': _acos, 'atan': math.atan, 'atan2': math.atan2, 'sqrt': _sqrt, 'pow': _pow,
    'floor': _floor, 'ceil': _ceil, 'trunc': _trunc, 'round': _round, 'abs': abs, 'fmin': _fmin, 'fmax': _fmax,
    'exp': _exp, 'ln': _ln, 'cbrt': lambda a: math.copysign(abs(a) ** (1 / 3.), a),
    'copysign': math.copysign,
}
def fun1(op): return lambda a: fop(op, a)
fsin, fcos, fsqrt, ffloor, fasin, ftan = map(fun1, ('sin', 'cos', 'sqrt', 'floor', 'asin', 'tan'))
def fabs(a): return fop('abs', a)
def fatan2(a, b): return fop('atan2', a, b)
def fpow(a, b): return fop('pow', a, b)
def fpowi(a, k):
    """x.powi(k) for a known integer k"""
    if k.op == 'i': return powi_const(a, k.k)
    return mk('powi', (a, k), None, 'F')
def powi_const(a, n):
    if isfc(a):
        try: return F(math.pow(fval(a), n))
        except Exception: pass
    return mk('powi', (a, Ic(n)), None, 'F')

def flt(a, b):
    if isfc(a) and isfc(b): return Bc(fval(a) < fval(b))
    if (const_choice(a) or isfc(a)) and (const_choice(b) or isfc(b)):
        return dist1(a, lambda x: dist1(b, lambda y: flt(x, y)))
    return mk('flt', (a, b), None, 'B')
def fle(a, b):
    if isfc(a) and isfc(b): return Bc(fval(a) <= fval(b))
    if (const_choice(a) or isfc(a)) and (const_choice(b) or isfc(b)):
        return dist1(a, lambda x: dist1(b, lambda y: fle(x, y)))
    return mk('fle', (a, b), None, 'B')
def feq(a, b):
    if isfc(a) and isfc(b): return Bc(fval(a) == fval(b))
    if (const_choice(a) or isfc(a)) and (const_choice(b) or isfc(b)):
        return dist1(a, lambda x: dist1(b, lambda y: feq(x, y)))
    if b.id < a.id: a, b = b, a
    return mk('feq', (a, b), None, 'B')
def read_number(a): return any(n.op == 'parse' for n in postorder([a]))
def finite(a):
    """inputs and computed values are finite numbers; only a number read from text can be infinite"""
    if isfc(a): return Bc(math.isfinite(fval(a)))
    return mk('finite', (a,), None, 'B') if read_number(a) else TRUE
def isnan(a):
    if isfc(a): return Bc(fval(a) != fval(a))
    return mk('isnan', (a,), None, 'B') if read_number(a) else FALSE

# ---------------------------------------------------------------- integers
def iadd(a, b):
    if a.op == 'i' and b.op == 'i': return Ic(a.k + b.k)
    if (const_choice(a) or a.op == 'i') and (const_choice(b) or b.op == 'i'):
        return dist1(a, lambda x: dist1(b, lambda y: iadd(x, y)))
    if a.op == 'i': a, b = b, a
    if b.op == 'i':
        if b.k == 0: return a
        if a.op == 'iadd' and a.args[1].op == 'i': return iadd(a.args[0], Ic(a.args[1].k + b.k))
    elif b.id < a.id: a, b = b, a
    return mk('iadd', (a, b), None, 'I')
def ineg(a): return imul(Ic(-1), a)
def isub(a, b):
    if b.op == 'i': return iadd(a, Ic(-b.k))
    if a is b: return Ic(0)
    if (const_choice(a) or a.op == 'i') and (const_choice(b) or b.op == 'i'):
        return dist1(a, lambda x: dist1(b, lambda y: isub(x, y)))
    return mk('isub', (a, b), None, 'I')
def imul(a, b):
    if a.op == 'i' and b.op == 'i': return Ic(a.k * b.k)
    if (const_choice(a) or a.op == 'i') and (const_choice(b) or b.op == 'i'):
        return dist1(a, lambda x: dist1(b, lambda y: imul(x, y)))
    if b.op == 'i': a, b = b, a
    if a.op == 'i' and a.k == 1: return b
    if a.op != 'i' and b.id < a.id: a, b = b, a
    return mk('imul', (a, b), None, 'I')
def idiv(a, b):      # truncated division (Rust /)
    if a.op == 'i' and b.op == 'i' and b.k != 0:
        q = abs(a.k) // abs(b.k)
        return Ic(q if (a.k < 0) == (b.k < 0) else -q)
    return mk('idiv', (a, b), None, 'I')
def irem(a, b):
    if a.op == 'i' and b.op == 'i' and b.k != 0:
        r = abs(a.k) % abs(b.k)
        return Ic(-r if a.k < 0 else r)
    return mk('irem', (a, b), None, 'I')
def ilt(a, b):
    if a.op == 'i' and b.op == 'i': return Bc(a.k < b.k)
    if a is b: return FALSE
    if (const_choice(a) or a.op == 'i') and (const_choice(b) or b.op == 'i'):
        return dist1(a, lambda x: dist1(b, lambda y: ilt(x, y)))
    return mk('ilt', (a, b), None, 'B')
def ile(a, b):
    return Not(ilt(b, a))
def ieq(a, b):
    if a.op == 'i' and b.op == 'i': return Bc(a.k == b.k)
    if a is b: return TRUE
    if (a.op == 'ite' and all(isconst(l) or l.id in DOM for l in leaves(a))) and b.op == 'i':
        return dist1(a, lambda x: ieq(x, b))
    if (b.op == 'ite' and all(isconst(l) or l.id in DOM for l in leaves(b))) and a.op == 'i':
        return ieq(b, a)
    if const_choice(a) and const_choice(b):
        return dist1(a, lambda x: dist1(b, lambda y: ieq(x, y)))
    if a.op == 'i': a, b = b, a
    if b.op == 'i':
        if a.id in DOM:
            d = DOM[a.id]
            if not (0 <= b.k < d): return FALSE
            if d == 1: return TRUE
            if d == 2 and b.k == 0: return Not(mk('ieq', (a, Ic(1)), None, 'B'))
        return mk('ieq', (a, b), None, 'B')
    if b.id < a.id: a, b = b, a
    return mk('ieq', (a, b), None, 'B')
INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE[('int', _b)] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    INT_RANGE[('uint', _b)] = (0, (1 << _b) - 1)
def wrap(a, kind, bits):
    lo, hi = INT_RANGE[(kind, bits)]
    if a.op == 'i': return Ic((a.k - lo) % (1 << bits) + lo)
    if const_choice(a): return dist1(a, lambda x: wrap(x, kind, bits))
    r = int_bounds(a)
    if r is not None and lo <= r[0] and r[1] <= hi: return a
    return mk('wrap', (a,), (kind, bits), 'I')
BOUNDS = {}   # node id -> (lo, hi) known bounds of an integer term (type ranges)
def int_bounds(a):
    if a.op == 'i': return (a.k, a.k)
    if a.id in DOM: return (0, DOM[a.id] - 1)
    if a.op == 'wrap' or a.op == 'f2i': return INT_RANGE[a.k]
    if a.op == 'ite':
        p, q = int_bounds(a.args[1]), int_bounds(a.args[2])
        return None if p is None or q is None else (min(p[0], q[0]), max(p[1], q[1]))
    if a.op == 'iadd':
        p, q = int_bounds(a.args[0]), int_bounds(a.args[1])
        return None if p is None or q is None else (p[0] + q[0], p[1] + q[1])
    if a.op == 'isub':
        p, q = int_bounds(a.args[0]), int_bounds(a.args[1])
        return None if p is None or q is None else (p[0] - q[1], p[1] - q[0])
    return BOUNDS.get(a.id)
def i2f(a):
    if a.op == 'i': return F(float(a.k))
    if const_choice(a): return dist1(a, i2f)
    return mk('i2f', (a,), None, 'F')
def f2i(a, kind, bits):
    """Rust `as` cast: truncating, saturating, NaN -> 0"""
    lo, hi = INT_RANGE[(kind, bits)]
    if isfc(a):
        v = fval(a)
        return Ic(0 if v != v else lo if v <= lo else hi if v >= hi else int(v))
    return mk('f2i', (a,), (kind, bits), 'I')

# ---------------------------------------------------------------- strings and sequences
def app(name, sort, *args): return mk(name, args, None, sort)
WS = b' \t\n\x0b\x0c\r'
def strim(s):
    if s.op == 's':
        try: return Sc(s.k.decode().strip().encode())
        except UnicodeDecodeError: pass
    if s.op == 'trim': return s
    if s.op == 'ite': return dist1(s, strim)
    return mk('trim', (s,), None, 'S')
def slen(s):
    if s.op == 's': return Ic(len(s.k))
    if s.op == 'ite' and all(isconst(l) for l in leaves(s)): return dist1(s, slen)
    return mk('slen', (s,), None, 'I')
def seq_(a, b):
    """string equality"""
    if a is b: return TRUE
    if a.op == 's' and b.op == 's': return Bc(a.k == b.k)
    if b.id < a.id: a, b = b, a
    if a.op == 'ite': return dist1(a, lambda x: seq_(x, b))
    if b.op == 'ite': return dist1(b, lambda x: seq_(a, x))
    return mk('seq', (a, b), None, 'B')
def sempty(s): return seq_(s, Sc(b''))
def get_ok(s, lo, hi):
    """s.get(lo..hi).is_some(); hi None = to the end"""
    if s.op == 's' and lo.op == 'i' and (hi is None or hi.op == 'i'):
        return Bc(_py_get(s.k, lo.k, None if hi is None else hi.k) is not None)
    if s.op == 'ite': return dist1(s, lambda x: get_ok(x, lo, hi))
    return mk('getok', (s, lo) + (() if hi is None else (hi,)), None, 'B')
def sslice(s, lo, hi):
    if s.op == 's' and lo.op == 'i' and (hi is None or hi.op == 'i'):
        r = _py_get(s.k, lo.k, None if hi is None else hi.k)
        if r is not None: return Sc(r)
    return mk('slice', (s, lo) + (() if hi is None else (hi,)), None, 'S')
def _py_get(b, lo, hi):
    if hi is None: hi = len(b)
    if not (0 <= lo <= hi <= len(b)): return None
    for p in (lo, hi):
        if p < len(b) and (b[p] & 0xC0) == 0x80: return None
    return b[lo:hi]
def sconcat(parts):
    out = []
    for p in parts:
        if p.op == 'concat': ps = list(p.args)
        else: ps = [p]
        for q in ps:
            if q.op == 's' and q.k == b'': continue
            if out and out[-1].op == 's' and q.op == 's': out[-1] = Sc(out[-1].k + q.k)
            else: out.append(q)
    if not out: return Sc(b'')
    if len(out) == 1: return out[0]
    return mk('concat', tuple(out), None, 'S')
def sbyte(s, i):
    if s.op == 's' and i.op == 'i' and 0 <= i.k < len(s.k): return Ic(s.k[i.k])
    n = mk('sbyte', (s, i), None, 'I')
    BOUNDS[n.id] = (-1, 255)       # -1: there is no such byte
    return n
def parse_ok(s, ty):
    if s.op == 's': return Bc(py_parse(s.k, ty) is not None)
    if s.op == 'ite': return dist1(s, lambda x: parse_ok(x, ty))
    return mk('parseok', (s,), ty, 'B')
def parse_val(s, ty):
    if s.op == 's':
        v = py_parse(s.k, ty)
        if v is not None: return F(v) if ty == 'f64' else Ic(v)
    if s.op == 'ite' and all(isconst(l) for l in leaves(s)) and False: pass
    return mk('parse', (s,), ty, 'F' if ty == 'f64' else 'I')
import re
_FRE = re.compile(rb'^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)$', re.I)
_IRE = re.compile(rb'^[+-]?\d+$')
def py_parse(b, ty):
    if ty == 'f64':
        if not _FRE.match(b): return None
        return float(b)
    if not _IRE.match(b): return None
    v = int(b)
    kind = 'int' if ty[0] == 'i' else 'uint'
    bits = 64 if ty.endswith('size') else int(ty[1:])
    if kind == 'uint' and b.startswith(b'-') and v != 0: return None
    if kind == 'uint' and b.startswith(b'-'): return None
    lo, hi = INT_RANGE[(kind, bits)]
    return v if lo <= v <= hi else None

# ---------------------------------------------------------------- traversal
def postorder(roots, stop=None):
    seen = set(); out = []
    for r in roots:
        if r.id in seen: continue
        st = [(r, 0)]
        seen.add(r.id)
        while st:
            n, i = st.pop()
            a = n.args
            if stop is not None and stop(n): a = ()
            if i < len(a):
                st.append((n, i + 1))
                c = a[i]
                if c.id not in seen:
                    seen.add(c.id); st.append((c, 0))
            else: out.append(n)
    return out

_FB = None
def rebuild(n, a):
    """re-apply the simplifying constructor of n to new arguments"""
    op = n.op
    if op in ('add', 'sub', 'mul', 'div', 'rem', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt',
              'pow', 'floor', 'ceil', 'trunc', 'round', 'abs', 'fmin', 'fmax', 'exp', 'ln', 'cbrt', 'copysign'):
        return fop(op, *a)
    if op == 'neg': return fneg(a[0])
    if op == 'ite': return ite(a[0], a[1], a[2])
    if op == 'flt': return flt(*a)
    if op == 'fle': return fle(*a)
    if op == 'feq': return feq(*a)
    if op == 'powi': return fpowi(*a)
    if op == 'finite': return finite(*a)
    if op == 'isnan': return isnan(*a)
    if op == 'iadd': return iadd(*a)
    if op == 'isub': return isub(*a)
    if op == 'imul': return imul(*a)
    if op == 'idiv': return idiv(*a)
    if op == 'irem': return irem(*a)
    if op == 'ilt': return ilt(*a)
    if op == 'ieq': return ieq(*a)
    if op == 'wrap': return wrap(a[0], *n.k)
    if op == 'i2f': return i2f(*a)
    if op == 'f2i': return f2i(a[0], *n.k)
    if op == 'trim': return strim(*a)
    if op == 'slen': return slen(*a)
    if op == 'seq': return seq_(*a)
    if op == 'getok': return get_ok(a[0], a[1], a[2] if len(a) > 2 else None)
    if op == 'slice': return sslice(a[0], a[1], a[2] if len(a) > 2 else None)
    if op == 'concat': return sconcat(a)
    if op == 'sbyte': return sbyte(*a)
    if op == 'parseok': return parse_ok(a[0], n.k)
    if op == 'parse': return parse_val(a[0], n.k)
    r = mk(op, a, n.k, n.sort)
    if n.id in DOM: DOM[r.id] = DOM[n.id]
    if n.id in BOUNDS: BOUNDS[r.id] = BOUNDS[n.id]
    return r

def subst(roots, m):
    """m: {node id: replacement}. Simultaneous substitution, re-simplifying."""
    memo = dict(m)
    for n in postorder(roots, stop=lambda x: x.id in m):
        if n.id in memo: continue
        if not n.args: memo[n.id] = n; continue
        na = [memo[x.id] for x in n.args]
        if all(p is q for p, q in zip(na, n.args)): memo[n.id] = n
        else: memo[n.id] = rebuild(n, na)
    return [memo[r.id] for r in roots]

def vars_of(roots):
    return [n for n in postorder(roots) if n.op == 'var']
def size(roots): return len(postorder(roots))
