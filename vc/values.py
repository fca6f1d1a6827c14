"""Runtime values of the symbolic executor."""
from .terms import *
from .mir import Unsupported

class Agg:
    """struct / tuple / array"""
    __slots__ = ('vals', 'ty')
    def __init__(self, vals, ty=None): self.vals = tuple(vals); self.ty = ty
    def __repr__(self): return 'Agg%s' % (self.vals,)
class Enum:
    __slots__ = ('discr', 'vs', 'ty')
    def __init__(self, discr, vs, ty=None): self.discr = discr; self.vs = vs; self.ty = ty
    def __repr__(self): return 'Enum(%r,%r)' % (self.discr, self.vs)
class Ref:
    __slots__ = ('alloc', 'path')
    def __init__(self, alloc, path=()): self.alloc = alloc; self.path = tuple(path)
    def __repr__(self): return 'Ref(%s,%s)' % (self.alloc, self.path)
class RefIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class Closure:
    __slots__ = ('ty', 'vals')
    def __init__(self, ty, vals): self.ty = ty; self.vals = tuple(vals)
class FnVal:
    __slots__ = ('inst',)
    def __init__(self, inst): self.inst = inst
class Model:
    """value of a library type that is modelled rather than executed (iterators, fmt::Arguments)"""
    __slots__ = ('kind', 'data')
    def __init__(self, kind, *data): self.kind = kind; self.data = data
    def __repr__(self): return 'Model(%s)' % self.kind
class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()
UNIT = Agg(())

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Node): return a is b
    if isinstance(a, Agg):
        return len(a.vals) == len(b.vals) and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, Enum):
        return a.discr is b.discr and a.vs.keys() == b.vs.keys() and all(
            len(a.vs[k]) == len(b.vs[k]) and all(same(x, y) for x, y in zip(a.vs[k], b.vs[k])) for k in a.vs)
    if isinstance(a, Ref): return a.alloc == b.alloc and len(a.path) == len(b.path) and all(
        p == q or (p[0] == q[0] and p[-1] is q[-1]) for p, q in zip(a.path, b.path))
    if isinstance(a, RefIte): return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Closure): return a.ty == b.ty and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, FnVal): return a.inst == b.inst
    if isinstance(a, Model):
        return a.kind == b.kind and len(a.data) == len(b.data) and all(same(x, y) for x, y in zip(a.data, b.data))
    return a == b

def merge(c, a, b):
    """value equal to a where c holds and b elsewhere"""
    if a is b or a is UNDEF and b is UNDEF: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Node) and isinstance(b, Node):
        if a.sort != b.sort: raise Unsupported('merge of sorts %s/%s' % (a.sort, b.sort))
        return ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.vals) == len(b.vals):
        return Agg([merge(c, x, y) for x, y in zip(a.vals, b.vals)], a.ty)
    if isinstance(a, Enum) and isinstance(b, Enum):
        vs = {}
        for k in set(a.vs) | set(b.vs):
            x, y = a.vs.get(k), b.vs.get(k)
            if x is None: vs[k] = y
            elif y is None: vs[k] = x
            else: vs[k] = tuple(merge(c, p, q) for p, q in zip(x, y))
        return Enum(ite(c, a.discr, b.discr), vs, a.ty if a.ty is not None else b.ty)
    if same(a, b): return a
    if isinstance(a, (Ref, RefIte)) and isinstance(b, (Ref, RefIte)):
        return RefIte(c, a, b)
    if isinstance(a, Model) and isinstance(b, Model) and a.kind == b.kind and len(a.data) == len(b.data):
        return Model(a.kind, *[merge(c, x, y) for x, y in zip(a.data, b.data)])
    if isinstance(a, Closure) and isinstance(b, Closure) and a.ty == b.ty:
        return Closure(a.ty, [merge(c, x, y) for x, y in zip(a.vals, b.vals)])
    raise Unsupported('cannot merge %r and %r' % (type(a).__name__, type(b).__name__))
