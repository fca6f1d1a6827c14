"""Contracts: symbolic formals from the types in the dump, flattening of values to named leaves,
application of a contract at a call site, and extraction of what the real body computes."""
from .terms import *
from . import terms as T
from .mir import *
from .values import *
from . import stdmodel
from .exec import *

def is_str(p, ty):
    t = p.types[ty]
    return t['k'] == 'adt' and t['def'].endswith('string::String') or \
        t['k'] == 'ref' and p.types[t['to']]['k'] == 'str'
def is_opaque(p, ty):
    t = p.types[ty]
    return t['k'] == 'adt' and 'chrono' in t['name']
def is_vec(p, ty):
    t = p.types[ty]
    return t['k'] == 'adt' and t['def'].endswith('vec::Vec')
def is_box(p, ty):
    t = p.types[ty]
    return t['k'] == 'adt' and t.get('box')

def build(p, ty, pre, leaf, alloc, depth=0):
    """value of type ty whose leaves are leaf(path, sort, ty)"""
    t = p.types[ty]; k = t['k']
    if k == 'float': return leaf(pre, 'F', ty)
    if k in ('int', 'uint', 'char'): return leaf(pre, 'I', ty)
    if k == 'bool': return leaf(pre, 'B', ty)
    if is_str(p, ty): return leaf(pre, 'S', ty)
    if is_opaque(p, ty): return leaf(pre, 'X', ty)
    if is_vec(p, ty): return leaf(pre, 'Q', ty)
    if is_box(p, ty):
        if depth > 1: return UNDEF
        return alloc(build(p, t['args'][0], pre, leaf, alloc, depth + 1))
    if k == 'ref': return alloc(build(p, t['to'], pre, leaf, alloc, depth))
    if k == 'tuple': return Agg([build(p, e, '%s.%d' % (pre, i), leaf, alloc, depth) for i, e in enumerate(t['elems'])], ty)
    if k == 'array': return Agg([build(p, t['elem'], '%s.%d' % (pre, i), leaf, alloc, depth) for i in range(t['len'])], ty)
    if k == 'adt' and t['kind'] == 'Struct':
        return Agg([build(p, f[1], '%s.%s' % (pre, f[0]), leaf, alloc, depth) for f in t['variants'][0]['fields']], ty)
    if k == 'adt' and t['kind'] == 'Enum':
        d = leaf(pre + '.#', 'I', ty)
        vs = {}
        for i, v in enumerate(t['variants']):
            try: vs[i] = tuple(build(p, f[1], '%s.%s.%s' % (pre, v['name'], f[0]), leaf, alloc, depth) for f in v['fields'])
            except Unsupported: pass
        return Enum(d, vs, ty)
    if k == 'never': return UNDEF
    return leaf(pre, 'X', ty)

def flat(p, st_read, v, ty, pre, out, care=TRUE, cares=None):
    """out[path] = node for every leaf of v (read as type ty)"""
    t = p.types[ty]; k = t['k']
    if isinstance(v, Model) and v.kind == 'valref': v = v.data[0]
    if k == 'ref' and not is_str(p, ty):
        if isinstance(v, (Ref, RefIte)): v = st_read(v)
        return flat(p, st_read, v, t['to'], pre, out, care, cares)
    if is_box(p, ty):
        if isinstance(v, (Ref, RefIte)): v = st_read(v)
        if v is UNDEF: return
        return flat(p, st_read, v, t['args'][0], pre, out, care, cares)
    if isinstance(v, (Ref, RefIte)) and (is_str(p, ty) or k in ('float', 'int', 'uint', 'bool')): v = st_read(v)
    if isinstance(v, Node):
        if k == 'adt' and t['kind'] == 'Struct' and v.op == 'pack' and not is_str(p, ty): pass
        out[pre] = v
        if cares is not None: cares[pre] = care
        return
    if v is UNDEF:
        out[pre] = UNDEF
        if cares is not None: cares[pre] = care
        return
    if isinstance(v, Agg):
        if k == 'tuple': fs = [(str(i), e) for i, e in enumerate(t['elems'])]
        elif k == 'array': fs = [(str(i), t['elem']) for i in range(t['len'])]
        elif k == 'slice': fs = [(str(i), t['elem']) for i in range(len(v.vals))]
        else: fs = t['variants'][0]['fields']
        for (n, e), x in zip(fs, v.vals): flat(p, st_read, x, e, '%s.%s' % (pre, n), out, care, cares)
        return
    if isinstance(v, Enum):
        out[pre + '.#'] = v.discr
        if cares is not None: cares[pre + '.#'] = care
        for i, var_ in enumerate(t['variants']):
            if i not in v.vs: continue
            c = ieq(v.discr, Ic(i))
            if c is FALSE: continue
            for f, x in zip(var_['fields'], v.vs[i]):
                flat(p, st_read, x, f[1], '%s.%s.%s' % (pre, var_['name'], f[0]), out, And(care, c), cares)
        return
    raise Unsupported('cannot flatten %r' % (v,))

def leaf_var(p, path, sort, ty):
    t = p.types[ty]
    if t['k'] == 'adt' and t['kind'] == 'Enum' and path.endswith('.#'):
        return var(path, 'I', dom=len(t['variants']))
    n = var(path, sort)
    if t['k'] in ('int', 'uint'): BOUNDS[n.id] = INT_RANGE[(t['k'], t['bits'])]
    return n

class Fn:
    """a function of the crate with named formal parameters"""
    def __init__(self, prog, name, pnames):
        self.p = prog; self.name = name; self.pnames = pnames
        key = prog.byname.get(name)
        if key is None or 'body' not in prog.bodies.get(key, {}): raise Unsupported('no function ' + name)
        self.b = prog.bodies[key]
        b = self.b['body']
        if b['argc'] != len(pnames): raise Unsupported('%s takes %d parameters, the contract names %d' % (name, b['argc'], len(pnames)))
        self.ptys = b['locals'][1:1 + b['argc']]
        self.rty = b['locals'][0]
    def formals(self, st, ex):
        vals = []; self.leaves = {}
        def leaf(path, sort, ty):
            n = leaf_var(self.p, path, sort, ty); self.leaves[path] = n; return n
        for n, t in zip(self.pnames, self.ptys):
            vals.append(build(self.p, t, n, leaf, lambda v: ex.new_alloc(st, v)))
        return vals
    def muts(self):
        """indices of &mut parameters"""
        return [i for i, t in enumerate(self.ptys) if self.p.types[t]['k'] == 'ref' and self.p.types[t]['mut']]

class Run:
    """what the real body of a function computes, as terms over its formals"""
    def __init__(self, prog, fn, contracts, inline=(), requires=TRUE):
        ex = Exec(prog, contracts, inline)
        self.ex = ex
        st = State(requires, {})
        args = fn.formals(st, ex)
        self.leaves = fn.leaves
        self.entry = dict(st.mem)
        r = ex.run_body(st, fn.b, args)
        self.panics = ex.panics
        self.outs, self.cares = {}, {}
        if r is None:
            self.guard = FALSE
            return
        v, st = r
        self.guard = st.guard
        rd = lambda x: ex.read_ref(st, x)
        flat(prog, rd, v, fn.rty, 'ret', self.outs, TRUE, self.cares)
        for i in fn.muts():
            flat(prog, rd, args[i], fn.ptys[i], fn.pnames[i], self.outs, TRUE, self.cares)

class Contract:
    """outs: {path: node over formals}; &mut leaves not mentioned are unchanged; `havoc` paths are
    unspecified; panics: condition over formals."""
    def __init__(self, name, params, outs, havoc=None, panics=FALSE, requires=TRUE, ensures=(), opaque=False, doc='', relational=(), care=None, termination=(), centre=None):
        self.centre = centre or {}      # var -> (c, s): proofs use (var - c) / s, so that every constant matters
        self.name = name; self.params = params; self.outs = outs; self.havoc = havoc or {}
        self.panics = panics; self.requires = requires; self.ensures = list(ensures); self.doc = doc
        self.relational = set(relational); self.care = care or {}; self.termination = list(termination)
        self.opaque = opaque
        self._deps = {}
    def deps(self, path):
        if path not in self._deps:
            n = self.outs[path]
            self._deps[path] = sorted([v for v in vars_of([n]) if not v.k.startswith('$')], key=lambda v: v.k)
        return self._deps[path]
    def out_app(self, path, actual, sort):
        """node for output `path` at a call with the given actual leaves (dict path -> node)"""
        n = self.outs.get(path)
        if n is None or path in self.relational:
            ks = sorted(k for k in actual if isinstance(actual[k], Node))
            return mk('app', [actual[k] for k in ks], (self.name, path), sort)
        ds = self.deps(path)
        args = []
        for v in ds:
            a = actual.get(v.k)
            if a is None or a is UNDEF: a = UND[v.sort]
            args.append(a)
        if isconst(n) or n.op == 'var' or n.sort in ('I', 'B') and size([n]) <= 12:
            r = subst([n], {v.id: a for v, a in zip(ds, args)})[0]
        elif any(isconst(a) and v.sort == 'I' for v, a in zip(ds, args)) and (q := self.special(path, n, ds, args)) is not None:
            r = subst([q], {v.id: a for v, a in zip(ds, args)})[0]
        else: r = mk('app', args, (self.name, path), n.sort)
        if path in self.care:                  # specified only where `care` holds: an unknown value elsewhere
            vs = vars_of([self.care[path]])
            c = subst([self.care[path]], {v.id: actual[v.k] for v in vs})[0]
            ks = sorted(k for k in actual if isinstance(actual[k], Node))
            r = ite(c, r, mk('app', [actual[k] for k in ks], (self.name, path + '?'), n.sort))
        return r
    def special(self, path, n, ds, args):
        """the output for these constant arguments, when it is then a formal parameter or a constant"""
        c = tuple((v.id, a.id) for v, a in zip(ds, args) if isconst(a) and v.sort == 'I')
        key = (path, c)
        if key not in self._deps:
            q = subst([n], {v: T._nodes[a] for v, a in c})[0]
            self._deps[key] = q if isconst(q) or q.op == 'var' else None
        return self._deps[key]
    def apply(self, ex, st, args, dty):
        p = ex.p
        fn = Fn(p, self.name, self.params)
        actual = {}
        rd = lambda x: ex.read_ref(st, x)
        for n, t, a in zip(self.params, fn.ptys, args): flat(p, rd, a, t, n, actual)
        if self.panics is not FALSE:
            ds = vars_of([self.panics])
            c = subst([self.panics], {v.id: actual[v.k] for v in ds})[0]
            bad = And(st.guard, c)
            if bad is not FALSE:
                ex.panics.append(Panic(bad, 'panic in ' + self.name, ex.stack[-1]))
                st.guard = And(st.guard, Not(c))
        if self.requires is not TRUE:
            ds = vars_of([self.requires])
            c = subst([self.requires], {v.id: actual[v.k] for v in ds})[0]
            bad = And(st.guard, Not(c))
            if bad is not FALSE: ex.panics.append(Panic(bad, 'precondition of ' + self.name, ex.stack[-1]))
        def leaf(path, sort, ty):
            n = self.out_app(path, actual, sort)
            t = p.types[ty]
            if n.sort == 'I' and n.op == 'app':
                if path.endswith('.#') and t['k'] == 'adt': DOM[n.id] = len(t['variants'])
                elif t['k'] in ('int', 'uint'): BOUNDS[n.id] = INT_RANGE[(t['k'], t['bits'])]
            return n
        rv = build(p, fn.rty, 'ret', leaf, lambda v: ex.new_alloc(st, v))
        for i in fn.muts():
            pre = self.params[i]
            def mleaf(path, sort, ty):
                if path in self.outs or path in self.havoc: return leaf(path, sort, ty)
                return actual.get(path, UNDEF)
            t = p.types[fn.ptys[i]]
            nv = build(p, t['to'], pre, mleaf, lambda v: ex.new_alloc(st, v))
            ex.write_ref(st, args[i], nv)
        return rv, st
