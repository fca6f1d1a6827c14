"""Notation for contracts: operators on terms, formals, calls of other contracts."""
import math
from .terms import *
from . import terms as T
from .contract import *
from .exec import mu_nodes

def lift(x, sort):
    if isinstance(x, Node): return x
    if isinstance(x, bool): return Bc(x)
    if sort == 'I' and isinstance(x, int): return Ic(x)
    return F(float(x))
def _bin(ff, fi):
    def g(a, b):
        s = a.sort if isinstance(a, Node) else b.sort
        a, b = lift(a, s), lift(b, s)
        return (fi if s == 'I' else ff)(a, b)
    return g
_add, _sub, _mul = _bin(fadd, iadd), _bin(fsub, isub), _bin(fmul, imul)
_div, _mod = _bin(fdiv, idiv), _bin(frem, irem)
_lt, _le = _bin(flt, ilt), _bin(fle, ile)
Node.__add__ = _add; Node.__radd__ = lambda a, b: _add(lift(b, a.sort), a)
Node.__sub__ = _sub; Node.__rsub__ = lambda a, b: _sub(lift(b, a.sort), a)
Node.__mul__ = _mul; Node.__rmul__ = lambda a, b: _mul(lift(b, a.sort), a)
Node.__truediv__ = _div; Node.__rtruediv__ = lambda a, b: _div(lift(b, a.sort), a)
Node.__mod__ = _mod
Node.__neg__ = lambda a: fneg(a) if a.sort == 'F' else ineg(a)
Node.__lt__ = _lt; Node.__le__ = _le
Node.__gt__ = lambda a, b: _lt(lift(b, a.sort), a); Node.__ge__ = lambda a, b: _le(lift(b, a.sort), a)
Node.__and__ = lambda a, b: And(a, b); Node.__or__ = lambda a, b: Or(a, b); Node.__invert__ = lambda a: Not(a)
def eq(a, b):
    s = a.sort if isinstance(a, Node) else b.sort
    a, b = lift(a, s), lift(b, s)
    return {'F': feq, 'I': ieq, 'S': seq_, 'B': Iff}[s](a, b)
def If(c, a, b):
    s = a.sort if isinstance(a, Node) else b.sort if isinstance(b, Node) else 'F'
    return ite(c, lift(a, s), lift(b, s))
sin, cos, sqrt, floor, asin, absf = fsin, fcos, fsqrt, ffloor, fasin, fabs
atan2 = fatan2
def fpowr(a, r): return fpow(a, F(r))
def powi(a, n): return powi_const(a, n)
def sq(a): return fmul(a, a)
PI = math.pi; TWOPI = 2 * math.pi

class Ctx:
    """the program under verification, and the contracts stated so far"""
    def __init__(self, prog):
        self.p = prog; self.c = {}
        self.byshort = {}
        for i, t in prog.types.items():
            if t and t.get('k') == 'adt': self.byshort.setdefault(t['name'].split('<')[0].split('::')[-1], i)
    def variants(self, ty):
        return [v['name'] for v in self.p.types[self.byshort[ty]]['variants']]
    def isv(self, path, ty, variant):
        vs = self.variants(ty)
        n = path if isinstance(path, Node) else var(path + '.#', 'I', dom=len(vs))
        return ieq(n, Ic(vs.index(variant)))
    def vidx(self, ty, variant): return Ic(self.variants(ty).index(variant))
    def fields(self, ty):
        return [(f[0], f[1]) for f in self.p.types[self.byshort[ty]]['variants'][0]['fields']]
    def leafpaths(self, name, pnames):
        """{path: var} of all parameter leaves of a function"""
        fn = Fn(self.p, name, pnames)
        out = {}
        def leaf(path, sort, ty):
            n = leaf_var(self.p, path, sort, ty); out[path] = n; return n
        for n, t in zip(pnames, fn.ptys): build(self.p, t, n, leaf, lambda v: v)
        return out
    def define(self, name, params, outs, **kw):
        c = Contract(name, params, outs, **kw)
        self.c[name] = c
        return c
    def call(self, name, actual):
        """outputs of a contracted function at the given actual leaves: {path: node}"""
        c = self.c[name]
        return {p: c.out_app(p, actual, c.outs[p].sort) for p in c.outs}

def formals(*names):
    return [var(n, 'F') for n in names]
class Rec:
    """r.x is the leaf prefix.x"""
    def __init__(self, prefix, leaves): object.__setattr__(self, '_p', prefix); object.__setattr__(self, '_l', leaves)
    def __getattr__(self, n): return self._l['%s.%s' % (self._p, n)]
def isint(x): return mk('isint', (x,), None, 'B')
