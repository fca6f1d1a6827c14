"""Symbolic execution of the dumped MIR: strongest postconditions as terms.

Straight-line code, branches and counted loops are executed exactly; loops without a known bound
are summarised by 'mu' nodes (the first state of the iteration that leaves the loop); a call to a
function under contract is replaced by its contract, any other call is executed in place.
"""
from .terms import *
from .mir import *
from .values import *
from . import stdmodel

UNROLL = 45

class State:
    __slots__ = ('guard', 'mem')
    def __init__(self, guard, mem): self.guard = guard; self.mem = mem
    def fork(self, guard=None): return State(self.guard if guard is None else guard, dict(self.mem))

def merge_states(a, b):
    tot = Or(a.guard, b.guard)
    c = restrict(a.guard, tot)
    if c is FALSE: c = a.guard
    mem = dict(a.mem)
    for k, v in b.mem.items():
        if k in mem:
            if mem[k] is not v: mem[k] = merge(c, mem[k], v)
        else: mem[k] = v
    return State(tot, mem)

class Panic:
    """a way the function can abort: cond says when"""
    def __init__(self, cond, kind, where): self.cond = cond; self.kind = kind; self.where = where

# ---------------------------------------------------------------- loops in the CFG
def succs(term):
    k = term['kind']
    if isinstance(k, str): return []
    t = next(iter(k)); d = k[t]
    if t == 'Goto': return [d['target']]
    if t == 'SwitchInt': return [b for _, b in d['targets']['branches']] + [d['targets']['otherwise']]
    if t in ('Call', 'Assert', 'Drop', 'InlineAsm'):
        return [d['target']] if d.get('target') is not None else []
    return []

class Cfg:
    def __init__(self, body):
        bl = body['blocks']
        self.succ = {i: succs(b['terminator']) for i, b in enumerate(bl)}
        order = []; seen = set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m); st.append((m, iter(self.succ[m]))); break
            else:
                order.append(n); st.pop()
        self.rpo = order[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: pred[s].append(b)
        idom = {0: 0}
        ch = True
        def inter(a, b):
            while a != b:
                while pos[a] > pos[b]: a = idom[a]
                while pos[b] > pos[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]: d = inter(d, p)
                if idom.get(b) != d: idom[b] = d; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if pos[s] <= pos[b]:
                    if not dom(s, b): raise Unsupported('irreducible control flow')
                    L = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in L: continue
                        L.add(x); w.extend(pred[x])

# ---------------------------------------------------------------- loop summaries
LOOPS = {}        # loop id -> Loop
_loopkey = {}
class Loop:
    __slots__ = ('n', 'np', 'cont', 'upd', 'vars', 'params')
def lvar(i, sort): return var('$L%d%s' % (i, sort), sort)
def pvar(i, sort): return var('$P%d%s' % (i, sort), sort)

def filter_loop(ids, byid, init, cont, upd, order, out):
    """A loop that walks a sequence q from its start to its end and pushes exactly those elements that satisfy a predicate of
    the element alone computes q filtered by that predicate; None when the loop is not of this form."""
    if len(order) != 2 or out.sort != 'Q' or init[out.id].op != 'emptyq' or cont.op != 'ilt': return None
    i = byid[[v for v in order if v != out.id][0]] if out.id in order else None
    if i is None or i.sort != 'I' or cont.args[0] is not i or cont.args[1].op != 'qlen': return None
    q = cont.args[1].args[0]; z = init[i.id]
    if not (z.op == 'i' and z.k == 0) or q.op not in ('splitq', 'linesq') or upd[i.id] is not iadd(i, Ic(1)): return None
    u = upd[out.id]
    if u.op != 'ite': return None
    el = mk('nth', (q, i), None, 'S')
    c, a, b = u.args
    if a is out: c, a, b = Not(c), b, a
    if b is not out or a.op != 'push' or a.args[0] is not out or a.args[1] is not el: return None
    if any(n.op in ('lam', 'mu', 'cmu') for n in postorder([c])): return None
    x = var('$elem', 'S')
    p = subst([c], {el.id: x})[0]
    if any(n.id in ids for n in postorder([p, q])): return None
    return mk('filterq', (q, mk('lam', (x, p), None, 'X')), None, 'Q')
def mu_nodes(vars_, init, cont, upd, outs):
    """vars_: loop variables (nodes); init/upd: var id -> term; cont: continue condition over the
    variables. Returns {var id: value of the variable in the first state where cont is false}."""
    ids = {v.id for v in vars_}
    byid = {v.id: v for v in vars_}
    res = {}
    for out in outs:
        order = []
        def scan(t):
            for n in postorder([t]):
                if n.id in ids and n.id not in order: order.append(n.id)
        scan(cont)
        i = 0; added = False
        while True:
            while i < len(order): scan(upd[order[i]]); i += 1
            if out.id in order: break
            order.append(out.id)
        f = filter_loop(ids, byid, init, cont, upd, order, out)
        if f is not None: res[out.id] = f; continue
        # parameters: maximal subterms without loop variables
        roots = [cont] + [upd[v] for v in order]
        dep = {}
        for n in postorder(roots):
            dep[n.id] = n.id in ids or any(dep[a.id] for a in n.args)
        params = []; m = {}
        def walk(t):
            st = [t]; seen = walk.seen
            while st:
                n = st.pop()
                if n.id in seen: continue
                seen.add(n.id)
                if not dep[n.id]:
                    if not isconst(n) and n.id not in m:
                        m[n.id] = pvar(len(params), n.sort); params.append(n)
                    continue
                st.extend(reversed(n.args))
        walk.seen = set()
        for t in roots: walk(t)
        lv = []
        for j, v in enumerate(order):
            x = lvar(j, byid[v].sort); lv.append(x); m[v] = x
            if v in DOM: DOM[x.id] = DOM[v]
        body = subst(roots, m)
        key = (tuple(x.id for x in lv), tuple(m[p.id].id for p in params), tuple(b.id for b in body))
        if key not in _loopkey:
            L = Loop(); L.n = len(lv); L.np = len(params); L.cont = body[0]; L.upd = body[1:]
            L.vars = lv; L.params = [m[p.id] for p in params]
            _loopkey[key] = len(LOOPS); LOOPS[len(LOOPS)] = L
        lid = _loopkey[key]
        res[out.id] = mk('mu', tuple(init[v] for v in order) + tuple(params), (lid, order.index(out.id)), out.sort)
    return res

# ---------------------------------------------------------------- the executor
class Exec:
    def __init__(self, prog, contracts=None, inline=()):
        self.p = prog
        self.contracts = contracts or {}
        self.inline = set(inline)
        self.panics = []
        self.fid = 0
        self.heap = 0
        self.nfresh = 0
        self.depth = 0
        self.used_contracts = set()
        self.inlined = set()
        self.models = set()
        self.stack = []
        self.unrolled = {}
        self.cut = 0

    # ---- memory
    def new_alloc(self, st, v):
        self.heap += 1
        st.mem[('h', self.heap)] = v
        return Ref(('h', self.heap))
    def read_path(self, v, path, st):
        for p in path:
            if v is UNDEF: return UNDEF
            if p[0] == 'f':
                if isinstance(v, Agg): v = v.vals[p[1]]
                elif isinstance(v, Closure): v = v.vals[p[1]]
                elif isinstance(v, tuple): v = v[p[1]]
                else: raise Unsupported('field of %r' % (v,))
            elif p[0] == 'v':
                if not isinstance(v, Enum): raise Unsupported('downcast of %r' % (v,))
                if p[1] not in v.vs: return UNDEF
                v = v.vs[p[1]]
            elif p[0] == 'i':
                i = p[1]
                if isinstance(v, Agg):
                    i = restrict(i, st.guard)
                    if i.op == 'i':
                        if not 0 <= i.k < len(v.vals): return UNDEF
                        v = v.vals[i.k]
                    else:
                        if not v.vals: return UNDEF
                        r = v.vals[-1]
                        for j in range(len(v.vals) - 2, -1, -1): r = merge(ieq(i, Ic(j)), v.vals[j], r)
                        v = r
                elif isinstance(v, Node) and v.sort == 'Q': v = stdmodel.nth(v, i)
                else: raise Unsupported('index into %r' % (v,))
        return v
    def read_ref(self, st, r):
        if isinstance(r, RefIte): return merge(r.c, self.read_ref(st, r.a), self.read_ref(st, r.b))
        if r.alloc not in st.mem: return UNDEF
        return self.read_path(st.mem[r.alloc], r.path, st)
    def upd_path(self, v, path, x, st):
        if not path: return x
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            if isinstance(v, tuple):
                l = list(v); l[p[1]] = self.upd_path(l[p[1]], rest, x, st); return tuple(l)
            if isinstance(v, Closure):
                l = list(v.vals); l[p[1]] = self.upd_path(l[p[1]], rest, x, st); return Closure(v.ty, l)
            if not isinstance(v, Agg): raise Unsupported('write to a field of %r' % (v,))
            l = list(v.vals); l[p[1]] = self.upd_path(l[p[1]], rest, x, st); return Agg(l, v.ty)
        if p[0] == 'v':
            if not isinstance(v, Enum) or p[1] not in v.vs: raise Unsupported('write to a variant')
            vs = dict(v.vs); vs[p[1]] = self.upd_path(vs[p[1]], rest, x, st); return Enum(v.discr, vs, v.ty)
        if p[0] == 'i':
            if not isinstance(v, Agg): raise Unsupported('indexed write to %r' % (v,))
            i = restrict(p[1], st.guard); l = list(v.vals)
            if i.op == 'i':
                if not 0 <= i.k < len(l): return v
                l[i.k] = self.upd_path(l[i.k], rest, x, st)
            else:
                for j in range(len(l)):
                    l[j] = merge(ieq(i, Ic(j)), self.upd_path(l[j], rest, x, st), l[j])
            return Agg(l, v.ty)
        raise Unsupported('write path')
    def write_ref(self, st, r, x):
        if isinstance(r, RefIte):
            self.write_ref(st, r.a, merge(r.c, x, self.read_ref(st, r.a)))
            self.write_ref(st, r.b, merge(r.c, self.read_ref(st, r.b), x)); return
        if not isinstance(r, Ref): raise Unsupported('write through %r' % (r,))
        st.mem[r.alloc] = self.upd_path(st.mem.get(r.alloc, UNDEF), r.path, x, st) if r.path else x

    def place(self, st, fr, pl):
        """-> Ref/RefIte to the place, or ('val', v) for the target of a by-value fat pointer"""
        cur = Ref((fr['id'], pl['local']))
        for e in pl['projection']:
            if e == 'Deref':
                v = cur[1] if isinstance(cur, tuple) else self.read_ref(st, cur)
                if isinstance(v, (Ref, RefIte)): cur = v
                elif isinstance(v, Node) and v.sort in ('S', 'Q', 'X'): cur = ('val', v)
                elif isinstance(v, Model) and v.kind == 'valref': cur = ('val', v.data[0])
                else: raise Unsupported('deref of %r' % (v,))
                continue
            k = next(iter(e)); a = e[k]
            if k == 'Field': step = ('f', a[0])
            elif k == 'Downcast': step = ('v', a)
            elif k == 'Index': step = ('i', self.read_ref(st, Ref((fr['id'], a))))
            elif k == 'ConstantIndex':
                o = a['offset']
                if a['from_end']:
                    v = cur[1] if isinstance(cur, tuple) else self.read_ref(st, cur)
                    if not isinstance(v, Agg): raise Unsupported('from_end index')
                    o = len(v.vals) - o
                step = ('i', Ic(o))
            elif k in ('OpaqueCast', 'Subtype', 'UnwrapUnsafeBinder'): continue
            else: raise Unsupported('projection ' + k)
            if isinstance(cur, tuple): cur = ('val', self.read_path(cur[1], (step,), st))
            elif isinstance(cur, Ref): cur = Ref(cur.alloc, cur.path + (step,))
            else: cur = self.ref_step(cur, step)
        return cur
    def ref_step(self, r, step):
        if isinstance(r, RefIte): return RefIte(r.c, self.ref_step(r.a, step), self.ref_step(r.b, step))
        return Ref(r.alloc, r.path + (step,))
    def load(self, st, fr, pl):
        r = self.place(st, fr, pl)
        if isinstance(r, tuple): return r[1]
        return self.read_ref(st, r)
    def store(self, st, fr, pl, v):
        r = self.place(st, fr, pl)
        if isinstance(r, tuple): raise Unsupported('store to a borrowed value')
        self.write_ref(st, r, v)
    def place_ty(self, fr, pl):
        t = fr['locals'][pl['local']]
        var_ = None
        for e in pl['projection']:
            ty = self.p.types[t]
            if e == 'Deref':
                if ty['k'] in ('ref', 'ptr'): t = ty['to']
                elif ty['k'] == 'adt' and ty.get('box'): t = ty['args'][0]
                else: raise Unsupported('deref type')
                continue
            k = next(iter(e)); a = e[k]
            if k == 'Field': t = a[1]
            elif k in ('Index', 'ConstantIndex'): t = ty['elem']
        return t

    # ---- constants
    def const(self, st, c):
        ty = c['ty']; k = c['kind']
        t = self.p.types[ty]
        if k == 'ZeroSized' or (isinstance(k, dict) and 'ZeroSized' in k):
            return self.zst(ty)
        if isinstance(k, dict) and 'Allocated' in k:
            a = k['Allocated']
            return self.decode(st, a['bytes'], {o: i for o, i in a['provenance']['ptrs']}, 0, ty)
        if isinstance(k, dict) and 'Ty' in k:
            raise Unsupported('type constant')
        raise Unsupported('constant %s' % (str(k)[:60]))
    def zst(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'fndef': return FnVal(t.get('inst'))
        if t['k'] == 'closure': return Closure(ty, ())
        if t['k'] == 'tuple': return Agg([self.zst(e) for e in t['elems']], ty)
        if t['k'] == 'array': return Agg((), ty)
        if t['k'] == 'adt':
            if t['kind'] == 'Struct': return Agg([self.zst(f[1]) for f in t['variants'][0]['fields']], ty)
            if t['kind'] == 'Enum' and len(t['variants']) == 1: return Enum(Ic(0), {0: tuple(self.zst(f[1]) for f in t['variants'][0]['fields'])}, ty)
        raise Unsupported('zero-sized constant of %s' % self.p.tyname(ty))
    def decode(self, st, bs, prov, off, ty):
        t = self.p.types[ty]; k = t['k']
        if k == 'float':
            if t['name'] != 'f64': raise Unsupported('f32')
            return F(struct.unpack('<d', bytes(bs[off:off + 8]))[0])
        if k in ('int', 'uint'): return Ic(int_of(bs[off:off + t['bits'] // 8], k == 'int'))
        if k == 'bool': return Bc(bs[off])
        if k == 'char': return Ic(int_of(bs[off:off + 4]))
        if k == 'array':
            n = t['len']; es = self.p.types[t['elem']].get('size')
            if es is None: raise Unsupported('array layout')
            return Agg([self.decode(st, bs, prov, off + i * es, t['elem']) for i in range(n)], ty)
        if k == 'tuple':
            if not t['elems']: return UNIT
            return Agg([self.decode(st, bs, prov, off + o, e) for o, e in zip(t['offs'], t['elems'])], ty)
        if k == 'adt':
            nm = t['def']
            if nm.endswith('string::String'):
                return Sc(b'')      # only String::new() can be a constant
            if nm.endswith('vec::Vec'): return stdmodel.empty_seq(t)
            if t['kind'] == 'Struct':
                fs = t['variants'][0]['fields']
                if len(fs) and 'offs' not in t: raise Unsupported('layout of ' + nm)
                return Agg([self.decode(st, bs, prov, off + o, f[1]) for o, f in zip(t.get('offs', []), fs)], ty)
            if t['kind'] == 'Enum' and all(not v['fields'] for v in t['variants']):
                sz = t.get('size', 1)
                d = int_of(bs[off:off + sz]) if sz else 0
                for i, v in enumerate(t['variants']):
                    if int(v['discr']) % (1 << (8 * max(sz, 1))) == d: return Enum(Ic(i), {i: ()}, ty)
            raise Unsupported('constant of ' + self.p.tyname(ty))
        if k in ('ref', 'ptr'):
            to = self.p.types[t['to']]
            if off not in prov:
                if to['k'] in ('str',) : return Sc(b'')
                raise Unsupported('dangling constant reference')
            a = self.p.allocs[prov[off]]
            base = int_of(bs[off:off + 8])
            if 'memory' in a: m = a['memory']
            elif 'static' in a: m = a['init']
            elif 'function' in a: return FnVal(a['function'])
            else: raise Unsupported('constant reference')
            mp = {o: i for o, i in m['prov']}
            if to['k'] == 'str':
                n = int_of(bs[off + 8:off + 16])
                return Sc(bytes(m['bytes'][base:base + n]))
            key = ('c', prov[off], base, t['to'])
            if to['k'] == 'slice':
                n = int_of(bs[off + 8:off + 16]); es = self.p.types[to['elem']].get('size', 0)
                key = key + (n,)
                v = Agg([self.decode(st, m['bytes'], mp, base + i * es, to['elem']) for i in range(n)])
            else: v = self.decode(st, m['bytes'], mp, base, t['to'])
            st.mem[key] = v
            return Ref(key)
        if k == 'fndef': return FnVal(t.get('inst'))
        if k == 'closure': return Closure(ty, ())
        raise Unsupported('constant of type ' + k)

    def operand(self, st, fr, o):
        k = next(iter(o)); a = o[k]
        if k in ('Copy', 'Move'): return self.load(st, fr, a)
        if k == 'Constant': return self.const(st, a['const_'])
        if k == 'RuntimeChecks': return FALSE
        raise Unsupported('operand ' + k)
    def op_ty(self, fr, o):
        k = next(iter(o)); a = o[k]
        if k in ('Copy', 'Move'): return self.place_ty(fr, a)
        return a['const_']['ty']

    # ---- rvalues
    def rvalue(self, st, fr, rv, dty):
        k = next(iter(rv)); a = rv[k]
        if k == 'Use': return self.operand(st, fr, a[0] if isinstance(a, list) else a)
        if k == 'CopyForDeref': return self.load(st, fr, a)
        if k in ('Ref', 'AddressOf', 'RawPtr'):
            r = self.place(st, fr, a[-1])
            if isinstance(r, tuple):
                v = r[1]
                if isinstance(v, Node) and v.sort in ('S', 'Q', 'X') and self.p.types[self.place_ty(fr, a[-1])]['k'] in ('str', 'slice'): return v
                return Model('valref', v)
            return r
        if k == 'BinaryOp': return self.binop(st, fr, a[0], self.operand(st, fr, a[1]), self.operand(st, fr, a[2]), self.op_ty(fr, a[1]))
        if k == 'CheckedBinaryOp':
            x, y = self.operand(st, fr, a[1]), self.operand(st, fr, a[2])
            if x is UNDEF or y is UNDEF: raise Unsupported('use of an unset value in ' + fr['name'])
            t = self.p.types[self.op_ty(fr, a[1])]
            r = {'Add': iadd, 'Sub': isub, 'Mul': imul}[a[0]](x, y)
            lo, hi = INT_RANGE[(t['k'], t['bits'])]
            b = int_bounds(r)
            ov = FALSE if b and lo <= b[0] and b[1] <= hi else Or(ilt(r, Ic(lo)), ilt(Ic(hi), r))
            return Agg((r, ov))
        if k == 'UnaryOp':
            x = self.operand(st, fr, a[1]); t = self.p.types[self.op_ty(fr, a[1])]
            if x is UNDEF: raise Unsupported('use of an unset value in ' + fr['name'])
            if a[0] == 'Neg':
                if t['k'] == 'float': return fneg(x)
                return ineg(x)
            if a[0] == 'Not':
                if t['k'] == 'bool': return Not(x)
                raise Unsupported('bitwise not')
            if a[0] == 'PtrMetadata': return stdmodel.length(self, st, x)
            raise Unsupported('unary ' + a[0])
        if k == 'Cast': return self.cast(st, fr, a[0], a[1], a[2])
        if k == 'Discriminant':
            v = self.load(st, fr, a)
            return self.discriminant(v, self.place_ty(fr, a))
        if k == 'Len':
            r = self.place(st, fr, a)
            return stdmodel.length(self, st, r[1] if isinstance(r, tuple) else r)
        if k == 'Repeat':
            v = self.operand(st, fr, a[0]); n = a[1]
            t = self.p.types[dty]
            return Agg([v] * t['len'], dty)
        if k == 'Aggregate':
            kind, ops = a
            vals = [self.operand(st, fr, o) for o in ops]
            if kind == 'Tuple' or (isinstance(kind, dict) and ('Tuple' in kind or 'Array' in kind)): return Agg(vals, dty)
            kk = next(iter(kind))
            if kk == 'Closure': return Closure(dty, vals)
            if kk == 'Adt':
                t = self.p.types[dty]
                if t['k'] != 'adt': raise Unsupported('adt aggregate')
                vi = kind['Adt'][1]
                if t['kind'] == 'Enum': return Enum(Ic(vi), {vi: tuple(vals)}, dty)
                if t['kind'] == 'Union': raise Unsupported('union')
                return Agg(vals, dty)
            raise Unsupported('aggregate ' + kk)
        raise Unsupported('rvalue ' + k)
    def discriminant(self, v, ty):
        t = self.p.types[ty]
        if not isinstance(v, Enum): raise Unsupported('discriminant of %r' % (v,))
        ds = [int(x['discr']) for x in t['variants']]
        if ds == list(range(len(ds))): return v.discr
        r = Ic(ds[-1])
        for i in range(len(ds) - 2, -1, -1): r = ite(ieq(v.discr, Ic(i)), Ic(ds[i]), r)
        return r
    def binop(self, st, fr, op, x, y, ty):
        t = self.p.types[ty]; k = t['k']
        if x is UNDEF or y is UNDEF: raise Unsupported('use of an unset value in ' + fr['name'])
        if k == 'float':
            if op == 'Add': return fadd(x, y)
            if op == 'Sub': return fsub(x, y)
            if op == 'Mul': return fmul(x, y)
            if op == 'Div': return fdiv(x, y)
            if op == 'Rem': return frem(x, y)
            if op == 'Lt': return flt(x, y)
            if op == 'Le': return fle(x, y)
            if op == 'Gt': return flt(y, x)
            if op == 'Ge': return fle(y, x)
            if op == 'Eq': return feq(x, y)
            if op == 'Ne': return Not(feq(x, y))
        if k == 'bool':
            if op in ('BitAnd', 'Mul'): return And(x, y)
            if op == 'BitOr': return Or(x, y)
            if op == 'BitXor' or op == 'Ne': return Not(Iff(x, y))
            if op == 'Eq': return Iff(x, y)
        if k in ('int', 'uint', 'char'):
            if op == 'Lt': return ilt(x, y)
            if op == 'Le': return ile(x, y)
            if op == 'Gt': return ilt(y, x)
            if op == 'Ge': return ile(y, x)
            if op == 'Eq': return ieq(x, y)
            if op == 'Ne': return Not(ieq(x, y))
            if k != 'char':
                w = lambda r: wrap(r, k, t['bits'])
                if op == 'Add': return w(iadd(x, y))
                if op == 'Sub': return w(isub(x, y))
                if op == 'Mul': return w(imul(x, y))
                if op in ('AddUnchecked',): return iadd(x, y)
                if op in ('SubUnchecked',): return isub(x, y)
                if op == 'Div': return idiv(x, y)
                if op == 'Rem': return irem(x, y)
                if op == 'Shr' and y.op == 'i' and k == 'uint': return idiv(x, Ic(1 << y.k))
                if op == 'Shl' and y.op == 'i': return w(imul(x, Ic(1 << y.k)))
                if op == 'BitAnd' and y.op == 'i' and k == 'uint' and (y.k & (y.k + 1)) == 0: return irem(x, Ic(y.k + 1))
                if op == 'BitAnd' and y.op == 'i' and k == 'int' and (y.k & (y.k + 1)) == 0 and y.k > 0:
                    return mk('imod', (x, Ic(y.k + 1)), None, 'I')
        raise Unsupported('operator %s on %s' % (op, k))
    def cast(self, st, fr, ck, o, ty):
        x = self.operand(st, fr, o); t = self.p.types[ty]; s = self.p.types[self.op_ty(fr, o)]
        name = ck if isinstance(ck, str) else next(iter(ck))
        if x is UNDEF: raise Unsupported('use of an unset value in ' + fr['name'])
        if name == 'IntToInt':
            if isinstance(x, Enum): x = self.discriminant(x, self.op_ty(fr, o))
            if x.sort == 'B': x = ite(x, Ic(1), Ic(0))
            if t['k'] == 'char': return x
            return wrap(x, t['k'], t['bits'])
        if name == 'IntToFloat': return i2f(x)
        if name == 'FloatToInt': return f2i(x, t['k'], t['bits'])
        if name == 'FloatToFloat' and t == s: return x
        if name == 'PointerCoercion': return x
        if name in ('PtrToPtr', 'Transmute') and isinstance(x, (Ref, RefIte)): return x
        raise Unsupported('cast ' + name)

    # ---- statements and blocks
    def stmt(self, st, fr, s):
        k = s['kind']
        if isinstance(k, str): return
        t = next(iter(k)); a = k[t]
        if t == 'Assign':
            self.store(st, fr, a[0], self.rvalue(st, fr, a[1], self.place_ty(fr, a[0])))
        elif t == 'StorageDead' or t == 'StorageLive':
            st.mem.pop((fr['id'], a), None)
        elif t == 'SetDiscriminant': raise Unsupported(t)
        elif t == 'Intrinsic':
            pass
        # FakeRead, Retag, PlaceMention, AscribeUserType, Coverage, ConstEvalCounter, Nop: no effect

    def block(self, st, fr, bi):
        """-> list of (successor | 'ret', state)"""
        b = fr['body']['blocks'][bi]
        for s in b['statements']: self.stmt(st, fr, s)
        k = b['terminator']['kind']
        if k == 'Return': return [('ret', st)]
        if isinstance(k, str):
            if k == 'Unreachable': return []
            return []
        t = next(iter(k)); d = k[t]
        if t == 'Goto': return [(d['target'], st)]
        if t == 'Drop': return [(d['target'], st)]
        if t == 'SwitchInt':
            v = self.operand(st, fr, d['discr'])
            if not isinstance(v, Node): raise Unsupported('switch on %r' % (v,))
            v = restrict(v, st.guard)
            out = []; rest = TRUE
            isb = v.sort == 'B'
            for val, tgt in d['targets']['branches']:
                if isb: c = v if val else Not(v)
                else:
                    ty = self.p.types[self.op_ty(fr, d['discr'])]
                    val = int(val)
                    if ty['k'] == 'int' and val >= 1 << (ty['bits'] - 1): val -= 1 << ty['bits']
                    c = ieq(v, Ic(val))
                g = And(st.guard, rest, c)
                if g is not FALSE: out.append((tgt, st.fork(g)))
                rest = And(rest, Not(c))
            g = And(st.guard, rest)
            if g is not FALSE: out.append((d['targets']['otherwise'], st.fork(g)))
            return out
        if t == 'Assert':
            c = self.operand(st, fr, d['cond'])
            bad = And(st.guard, Not(c) if d['expected'] else c)
            if bad is not FALSE:
                m = d['msg']; kind = m if isinstance(m, str) else next(iter(m))
                self.panics.append(Panic(bad, 'assert ' + kind, fr['name']))
                if And(st.guard, c if d['expected'] else Not(c)) is FALSE: return []
            return [(d['target'], st)]
        if t == 'Call':
            r = self.call(st, fr, d)
            if r is None or d['target'] is None: return []
            return [(d['target'], r)]
        raise Unsupported('terminator ' + t)

    # ---- calls
    def callee(self, st, fr, f):
        if 'Constant' in f:
            t = self.p.types[f['Constant']['const_']['ty']]
            if t['k'] == 'fndef': return t.get('inst'), None
        v = self.operand(st, fr, f)
        if isinstance(v, FnVal): return v.inst, None
        raise Unsupported('indirect call')
    def call(self, st, fr, d):
        inst, _ = self.callee(st, fr, d['func'])
        if inst is None: raise Unsupported('unresolved call')
        args = [self.operand(st, fr, a) for a in d['args']]
        dty = self.place_ty(fr, d['destination'])
        r = self.apply(st, inst, args, dty, d['target'] is None)
        if r is None: return None
        v, st2 = r
        self.store(st2, fr, d['destination'], v)
        return st2
    def apply(self, st, inst, args, dty, diverges=False):
        """-> (value, state) or None if the call never returns"""
        name = inst['name']
        if diverges:
            self.panics.append(Panic(st.guard, 'panic: ' + name, self.stack[-1] if self.stack else ''))
            return None
        c = self.contracts.get(name)
        if c is not None and name not in self.inline:
            self.used_contracts.add(name)
            return c.apply(self, st, args, dty)
        m = stdmodel.lookup(inst)
        if m is not None:
            r = m(self, st, args, dty, inst)
            if r is not NotImplemented:
                self.models.add(stdmodel.short(name))
                return (r, st) if not isinstance(r, stdmodel.Ret) else (r.v, r.st)
        b = self.p.bodies.get(inst['key'])
        if b is None or 'body' not in b: raise Unsupported('call to %s' % name)
        if name.endswith('}') and '{closure#' in name.rsplit('::', 1)[-1]:       # called with its arguments in a tuple
            if len(args) != 2 or not isinstance(args[1], Agg): raise Unsupported('closure call')
            env = args[0]
            if self.p.types[b['body']['locals'][1]]['k'] == 'ref' and isinstance(env, Closure): env = self.new_alloc(st, env)
            elif self.p.types[b['body']['locals'][1]]['k'] != 'ref' and isinstance(env, (Ref, RefIte)): env = self.read_ref(st, env)
            args = [env] + list(args[1].vals)
        return self.run_body(st, b, args)
    def call_value(self, st, fv, args, dty=None):
        """call a closure / fn item with already evaluated arguments"""
        if isinstance(fv, (Ref, RefIte)): fv = self.read_ref(st, fv)
        if isinstance(fv, FnVal): return self.apply(st, fv.inst, args, dty)
        if isinstance(fv, Closure):
            t = self.p.types[fv.ty]
            b = self.p.bodies.get(t['inst']['key'])
            if b is None or 'body' not in b: raise Unsupported('closure body')
            envty = self.p.types[b['body']['locals'][1]]
            env = self.new_alloc(st, fv) if envty['k'] == 'ref' else fv
            return self.run_body(st, b, [env] + list(args))
        raise Unsupported('call of %r' % (fv,))

    def run_body(self, st, b, args):
        if len(self.stack) > 24 or b['name'] in self.stack: raise Unsupported('recursion / deep calls in ' + b['name'])
        body = b['body']
        if b['local']: self.inlined.add(b['name'])
        if '_cfg' not in b: b['_cfg'] = Cfg(body)
        self.fid += 1
        fr = {'id': self.fid, 'body': body, 'locals': body['locals'], 'name': b['name'], 'cfg': b['_cfg']}
        for i, a in enumerate(args): st.mem[(fr['id'], i + 1)] = a
        if body['argc'] != len(args):
            if body['argc'] == 2 and len(args) == 1 + 0: pass
            raise Unsupported('argument count')
        self.stack.append(b['name'])
        try:
            outs, _ = self.region(fr, set(fr['cfg'].rpo), {0: [st]}, None)
        finally: self.stack.pop()
        rets = [s for t, s in outs if t == 'ret']
        if not rets: return None
        r = rets[0]
        for s in rets[1:]: r = merge_states(r, s)
        v = r.mem.get((fr['id'], 0), UNIT if self.p.types[body['locals'][0]] ['k'] == 'tuple' else UNDEF)
        for key in [x for x in r.mem if x[0] == fr['id']]: del r.mem[key]
        return v, r

    def region(self, fr, blocks, pending, header):
        """run the blocks of a region; -> (exits, back states)"""
        exits, back = [], []
        cfg = fr['cfg']
        pending = {k: list(v) for k, v in pending.items()}
        skip = set()
        first = header is not None
        for bi in cfg.rpo:
            if bi not in blocks or bi in skip: continue
            sts = pending.pop(bi, None)
            if bi in cfg.loops and not (bi == header and first):
                skip |= cfg.loops[bi]
            if not sts: continue
            st = sts[0]
            for s in sts[1:]: st = merge_states(st, s)
            if bi in cfg.loops and not (bi == header and first):
                out = self.loop(fr, bi, st)
            else:
                first = False if bi == header else first
                out = self.block(st.fork(), fr, bi)
            for tgt, s in out:
                if s.guard is FALSE: continue
                if tgt == header and header is not None: back.append(s)
                elif tgt == 'ret' or tgt not in blocks: exits.append((tgt, s))
                else: pending.setdefault(tgt, []).append(s)
        left = [k for k, v in pending.items() if v]
        if left: raise Unsupported('control flow order')
        return exits, back

    # ---- loops
    def type_bounds(self, ty, v, isvar):
        """a loop-carried integer stays in the range of its type"""
        t = self.p.types.get(ty) if hasattr(self.p.types, 'get') else self.p.types[ty]
        if not t: return
        k = t['k']
        if isinstance(v, Node):
            if v.id in isvar and v.sort == 'I' and k in ('int', 'uint'): BOUNDS[v.id] = INT_RANGE[(k, t['bits'])]
        elif isinstance(v, Agg):
            es = t['elems'] if k == 'tuple' else [f[1] for f in t['variants'][0]['fields']] if k == 'adt' and t['kind'] == 'Struct' else [t['elem']] * len(v.vals) if k == 'array' else []
            if len(es) == len(v.vals):
                for e, x in zip(es, v.vals): self.type_bounds(e, x, isvar)
        elif isinstance(v, Enum) and k == 'adt':
            for i, xs in v.vs.items():
                fs = t['variants'][i]['fields'] if i < len(t['variants']) else []
                if len(fs) == len(xs):
                    for f, x in zip(fs, xs): self.type_bounds(f[1], x, isvar)
    def iterate(self, fr, h, st):
        exits, back = self.region(fr, fr['cfg'].loops[h], {h: [st]}, h)
        b = None
        for s in back: b = s if b is None else merge_states(b, s)
        return exits, b
    def loop(self, fr, h, st):
        np = len(self.panics); heap = self.heap
        exits = []; cur = st.fork(); n = 0
        while True:
            ex, b = self.iterate(fr, h, cur)
            exits += ex
            if b is None: 
                self.unrolled[(fr['name'], h)] = n
                return exits
            n += 1
            b = self.clean(fr, h, b)
            if n >= UNROLL or not self.progress(cur, b): break
            cur = b
        del self.panics[np:]
        self.cut += 1
        return self.cut_loop(fr, h, st)
    def clean(self, fr, h, b):
        """restrict small integer choices of a back state by its guard"""
        b = b.fork()
        def f(n): return restrict(n, b.guard) if (n.sort == 'I' and n.op == 'ite') or (n.sort == 'B' and not isconst(n)) else n
        for k in list(b.mem):
            if k[0] != 'c': b.mem[k] = vmap(b.mem[k], f)
        return b
    def progress(self, a, b):
        def ints(v, out):
            vmap(v, lambda n: (out.append(n), n)[1] if True else n)
            return out
        for k, v in b.mem.items():
            if k in a.mem and a.mem[k] is not v and k[0] != 'c':
                x, y = ints(a.mem[k], []), ints(v, [])
                if len(x) != len(y): continue
                for p, q in zip(x, y):
                    if p.op == 'i' and q.op == 'i' and p.k != q.k: return True
        return False

    def cut_loop(self, fr, h, entry):
        np = len(self.panics)
        base = entry.fork(TRUE)
        head = base.fork()
        isvar = {}
        def fresh(sort):
            _fresh[0] += 1                          # unique in the process: bounds are attached to it
            v = var('$h%d' % _fresh[0], sort); isvar[v.id] = v; return v
        keepconst = set()
        for rnd in range(60):
            del self.panics[np:]
            exits, b = self.iterate(fr, h, head.fork())
            if b is None: raise Unsupported('loop that never iterates')
            b = self.clean(fr, h, b)
            # leaves that leave their constant value: follow those states until they exit
            again = False
            for key in list(b.mem):
                if key not in head.mem or key[0] == 'c': continue
                hv, bv = head.mem[key], b.mem[key]
                if isinstance(hv, Node) and isinstance(bv, Node) and hv.op in ('i', 'b') and bv is not hv and key not in keepconst \
                        and ((bv.op == 'ite' and all(isconst(l) for l in leaves(bv)) and hv in leaves(bv)) or (bv.sort == 'B' and not isconst(bv))):
                    c = ieq(bv, hv) if bv.sort == 'I' else Iff(bv, hv)
                    off = b.fork(And(b.guard, Not(c)))
                    if off.guard is FALSE: continue
                    off = self.clean(fr, h, off)
                    try:
                        ex2, b2 = self.iterate(fr, h, off)
                    except Unsupported: ex2, b2 = None, 1
                    if b2 is None:
                        exits = exits + ex2
                        b = self.clean(fr, h, b.fork(And(b.guard, c)))
            changed = False
            for key in list(head.mem):
                if key[0] == 'c' or key not in b.mem: continue
                nv = generalise(head.mem[key], b.mem[key], fresh, isvar)
                if nv is not head.mem[key]:
                    head.mem[key] = nv; changed = True
                    if key[0] == fr['id']: self.type_bounds(fr['locals'][key[1]], nv, isvar)
            if not changed: break
        else: raise Unsupported('loop does not stabilise')
        # extract initial values and updates
        init, upd = {}, {}
        for key in head.mem:
            if key[0] == 'c': continue
            pair(head.mem[key], base.mem.get(key, UNDEF), isvar, init)
            if key in b.mem: pair(head.mem[key], b.mem[key], isvar, upd)
        live = [v for v in isvar.values() if v.id in init and v.id in upd]
        care = Not(b.guard)
        cont = b.guard
        used = set()
        outs_needed = []
        finals = []
        lids = {v.id for v in live}
        for tgt, s in exits:
            g = restrict(s.guard, care)
            finals.append((tgt, State(g, s.mem)))
        # which variables are needed by exits
        need = set()
        roots = [s.guard for _, s in finals]
        for _, s in finals:
            for key, v in s.mem.items():
                if key[0] == 'c': continue
                if key in base.mem and v is base.mem[key]: continue
                vmap(v, lambda n: (roots.append(n), n)[1])
        for n in postorder(roots):
            if n.id in lids: need.add(n.id)
        mus = mu_nodes(live, init, cont, upd, [v for v in live if v.id in need])
        for v in isvar.values():
            if v.id not in mus: mus.setdefault(v.id, v)
        # panic conditions found inside the body hold for every reachable iteration
        for p in self.panics[np:]:
            p.loop = (live, init, cont, upd)
            p.entry = entry.guard
        out = []
        memo = {}
        def sub(n):
            return subst([n], {k: x for k, x in mus.items()})[0]
        for tgt, s in finals:
            mem = {}
            for key, v in s.mem.items():
                if key[0] == 'c' or (key in base.mem and v is base.mem[key]): mem[key] = v
                else: mem[key] = vmap(v, sub)
            out.append((tgt, State(And(entry.guard, sub(s.guard)), mem)))
        return out

_fresh = [0]
def vmap(v, f):
    """apply f to every node of a value"""
    if isinstance(v, Node): return f(v)
    if isinstance(v, Agg):
        l = [vmap(x, f) for x in v.vals]
        return v if all(p is q for p, q in zip(l, v.vals)) else Agg(l, v.ty)
    if isinstance(v, Enum):
        d = f(v.discr); vs = {k: tuple(vmap(x, f) for x in t) for k, t in sorted(v.vs.items())}
        if d is v.discr and all(all(p is q for p, q in zip(vs[k], v.vs[k])) for k in vs): return v
        return Enum(d, vs, v.ty)
    if isinstance(v, Model):
        l = [vmap(x, f) for x in v.data]
        return v if all(p is q for p, q in zip(l, v.data)) else Model(v.kind, *l)
    if isinstance(v, Closure):
        l = [vmap(x, f) for x in v.vals]
        return v if all(p is q for p, q in zip(l, v.vals)) else Closure(v.ty, l)
    if isinstance(v, RefIte): return RefIte(f(v.c), v.a, v.b)
    if isinstance(v, tuple): return tuple(vmap(x, f) for x in v)
    return v

def generalise(h, b, fresh, isvar):
    if h is b or same(h, b): return h
    if h is UNDEF or b is UNDEF: return h
    if isinstance(h, Node) and isinstance(b, Node):
        if h.id in isvar: return h
        v = fresh(h.sort)
        if h.id in DOM: DOM[v.id] = DOM[h.id]
        return v
    if isinstance(h, Agg) and isinstance(b, Agg) and len(h.vals) == len(b.vals):
        l = [generalise(x, y, fresh, isvar) for x, y in zip(h.vals, b.vals)]
        return h if all(p is q for p, q in zip(l, h.vals)) else Agg(l, h.ty)
    if isinstance(h, Enum) and isinstance(b, Enum):
        d = generalise(h.discr, b.discr, fresh, isvar)
        vs = {}; ch = d is not h.discr
        for k in set(h.vs) | set(b.vs):
            if k in h.vs and k in b.vs:
                vs[k] = tuple(generalise(x, y, fresh, isvar) for x, y in zip(h.vs[k], b.vs[k]))
                if any(p is not q for p, q in zip(vs[k], h.vs[k])): ch = True
            elif k in h.vs: vs[k] = h.vs[k]
            else:
                vs[k] = tuple(vmap(x, lambda n: fresh(n.sort)) for x in b.vs[k]); ch = True
        return Enum(d, vs, h.ty) if ch else h
    if isinstance(h, Model) and isinstance(b, Model) and h.kind == b.kind and len(h.data) == len(b.data):
        l = [generalise(x, y, fresh, isvar) for x, y in zip(h.data, b.data)]
        return h if all(p is q for p, q in zip(l, h.data)) else Model(h.kind, *l)
    if isinstance(h, tuple) and isinstance(b, tuple) and len(h) == len(b):
        return tuple(generalise(x, y, fresh, isvar) for x, y in zip(h, b))
    raise Unsupported('loop-carried %s' % type(h).__name__)

UND = {s: mk('undef', (), None, s) for s in 'FIBSQX'}
def pair(h, x, isvar, out):
    if isinstance(h, Node):
        if h.id in isvar: out[h.id] = x if isinstance(x, Node) else UND[h.sort]
        return
    if isinstance(h, Agg):
        for i, a in enumerate(h.vals): pair(a, x.vals[i] if isinstance(x, Agg) else UNDEF, isvar, out)
    elif isinstance(h, Enum):
        pair(h.discr, x.discr if isinstance(x, Enum) else UNDEF, isvar, out)
        for k, t in h.vs.items():
            y = x.vs.get(k) if isinstance(x, Enum) else None
            for i, a in enumerate(t): pair(a, y[i] if y is not None else UNDEF, isvar, out)
    elif isinstance(h, Model):
        for i, a in enumerate(h.data): pair(a, x.data[i] if isinstance(x, Model) else UNDEF, isvar, out)
    elif isinstance(h, tuple):
        for i, a in enumerate(h): pair(a, x[i] if isinstance(x, tuple) else UNDEF, isvar, out)
