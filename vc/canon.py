"""Canonical forms over the reals / integers: polynomials over canonical atoms, decision diagrams
over canonical atoms. Two terms with the same canonical form are equal as real-number expressions
(wherever the denominators and radicands involved are defined). Floating-point constants are exact
rationals; two coefficients are identified when they agree to 1e-13 (relative)."""
import math, itertools
from fractions import Fraction as Q
from .terms import *
from . import terms as T

TOL = Q(1, 10**13)
class TooBig(Exception): pass

# ---------------------------------------------------------------- atoms and polynomials
ATOMS = []          # atom id -> canonical Node
_atomid = {}
def atom(n):
    if n.id not in _atomid:
        _atomid[n.id] = len(ATOMS); ATOMS.append(n)
    return _atomid[n.id]

POLYS = []          # poly id -> dict
_polyidx = {}
def close(a, b):
    if a == b: return True
    m = max(abs(a), abs(b))
    return abs(a - b) <= TOL * m
def intern(p):
    """-> canonical Node of sort F/I for polynomial p"""
    key = tuple(sorted(p))
    lst = _polyidx.setdefault(key, [])
    for i in lst:
        q = POLYS[i]
        if all(close(q[m], p[m]) for m in key): return i
    POLYS.append(dict(p)); lst.append(len(POLYS) - 1)
    return len(POLYS) - 1

ONE = {(): Q(1)}
def cpoly(c): return {(): Q(c)} if c else {}
def clean(p):
    if len(p) < 2: return {m: c for m, c in p.items() if c}
    return {m: c for m, c in p.items() if c}
def denoise(p, mag):
    """drop terms that are rounding residue of constants"""
    out = {}
    for m, c in p.items():
        if c == 0: continue
        g = mag.get(m)
        if g is not None and abs(c) <= Q(1, 10**13) * g: continue
        out[m] = c
    return out
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None: r[m] = c * s
        else:
            y = x + c * s
            if y == 0 or abs(y) <= abs(x) * Q(1, 10**13): del r[m]
            else: r[m] = y
    return r
def pscale(a, c): return {m: x * c for m, x in a.items()} if c else {}
def _mm(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) + e
        if x == 0: d.pop(a, None)
        else: d[a] = x
    return tuple(sorted(d.items()))

class Canon:
    def __init__(self, limit=16, assume=None, unfold=None, split_abs=False, deadline=None, trig=True):
        self.limit = limit              # larger polynomials become atoms
        self.assume = assume or {}      # canonical B atom id -> bool
        self.unfold = unfold            # contracts whose applications are replaced by their definition
        self.memo = {}
        self.pm = {}
        self.split_abs = split_abs
        self.deadline = deadline
        self.trig = trig
        self.level = 0
        self.steps = 0

    # --- polynomial arithmetic with reductions
    def mul(self, a, b):
        if len(a) * len(b) > 40000: raise TooBig()
        r = {}
        todo = None
        for m, c in a.items():
            for n, d in b.items():
                k = _mm(m, n)
                x = r.get(k)
                if x is None: r[k] = c * d
                else:
                    y = x + c * d
                    if y == 0 or abs(y) <= abs(x) * Q(1, 10**13): del r[k]
                    else: r[k] = y
        return self.reduce(r)
    def reduce(self, p):
        """rewrite s(x)^2 -> 1 - c(x)^2, abs(x)^2 -> x^2, sqrt(x)^2 -> x, base(p)^k -> p^k"""
        for m in list(p):
            for a, e in m:
                n = ATOMS[a]
                if n.op == 'csin' and self.trig and e >= 2 and e == int(e):
                    co = atom(mk('ccos', n.args, n.k, 'F'))
                    c = p[m]
                    rest = _mm(m, ((a, -2),))
                    q = {mm: cc for mm, cc in p.items() if mm is not m and mm != m}
                    add = {rest: c}
                    q = padd(q, add)
                    q = padd(q, {_mm(rest, ((co, 2),)): -c})
                    return self.reduce(q)
                if n.op == 'cabs' and e >= 2:
                    c = p[m]
                    rest = _mm(m, ((a, -2),))
                    q = {mm: cc for mm, cc in p.items() if mm != m}
                    sq = self.mul(POLYS[n.k], POLYS[n.k])
                    return self.reduce(padd(q, self.mul({rest: c}, sq)))
                if n.op == 'cbase' and e > 0 and e >= 1:
                    c = p[m]; k = int(e)
                    rest = _mm(m, ((a, -k),))
                    q = {mm: cc for mm, cc in p.items() if mm != m}
                    return self.reduce(padd(q, self.mul({rest: c}, self.powk(POLYS[n.k], k))))
        return p
    def cleared(self, p, rounds=12, limit=1500):
        """p times powers of its denominators, multiplied out: zero exactly when p is (denominators are not zero)"""
        for _ in range(rounds):
            need = {}
            for m in p:
                for a, e in m:
                    if e < 0 and ATOMS[a].op == 'cbase': need[a] = max(need.get(a, 0), math.ceil(-e))
            if not need: return p
            if len(p) > limit: raise TooBig()
            a = max(need)                              # a base can only contain older atoms
            f = ((a, need[a]),)
            p = self.reduce({_mm(m, f): c for m, c in p.items()})
        raise TooBig()
    def powk(self, p, k):
        r = ONE
        for _ in range(k): r = self.mul(r, p)
        return r
    def content(self, p):
        """p = c * m * p' with p' having leading coefficient 1 and no common monomial"""
        ks = sorted(p)
        c = p[ks[-1]]
        common = None
        for m in ks:
            d = dict(m)
            if common is None: common = dict(d)
            else:
                for a in list(common):
                    if a not in d: del common[a]
                    else:
                        e, f = common[a], d[a]
                        if (e > 0) != (f > 0): del common[a]
                        else: common[a] = min(e, f) if e > 0 else max(e, f)
            if not common: break
        cm = tuple(sorted((common or {}).items()))
        inv = tuple((a, -e) for a, e in cm)
        return c, cm, {_mm(m, inv): x / c for m, x in p.items()}
    def inv(self, p):
        if not p: return {((atom(mk('cdiv0', (), None, 'F')), 1),): Q(1)}
        if len(p) == 1:
            (m, c), = p.items()
            return self.reduce({tuple((a, -e) for a, e in m): 1 / c})
        c, m, q = self.content(p)
        b = atom(mk('cbase', (), intern(q), 'F'))
        return {_mm(tuple((a, -e) for a, e in m), ((b, -1),)): 1 / c}
    def power(self, p, r):
        """p^r for a rational constant r"""
        if r == int(r):
            r = int(r)
            if r >= 0:
                if r <= 8: return self.powk(p, r)
            else:
                return self.powk(self.inv(p), -r) if r >= -8 else self._rawpow(p, r)
        return self._rawpow(p, r)
    def _rawpow(self, p, r):
        if not p: return {((atom(mk('cpow0', (), r, 'F')), 1),): Q(1)}
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 0:
                if c > 0:
                    return {(): Q(float(c) ** float(r))}
            elif len(m) == 1 and c > 0 and m[0][1] == 1:
                return self.reduce({((m[0][0], r),): Q(float(c) ** float(r)) if c != 1 else Q(1)})
            elif len(m) == 1 and c > 0 and ATOMS[m[0][0]].op == 'cbase':
                return self.reduce({((m[0][0], m[0][1] * r),): Q(float(c) ** float(r)) if c != 1 else Q(1)})
        ks = sorted(p); c = abs(p[ks[-1]])
        q = {m: x / c for m, x in p.items()}
        b = atom(mk('cbase', (), intern(q), 'F'))
        return self.reduce({((b, r),): Q(float(c) ** float(r)) if c != 1 else Q(1)})

    # --- node <-> polynomial
    def node(self, p, sort='F'):
        if not p: return mk('cpoly', (), intern({}), sort)
        if len(p) == 1:
            (m, c), = p.items()
            if (c == 1 or sort == 'F' and close(c, Q(1))) and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].sort == sort: return ATOMS[m[0][0]]
        return mk('cpoly', (), intern(p), sort)
    def topoly(self, n):
        """canonical node -> polynomial"""
        if n.op == 'cpoly':
            p = POLYS[n.k]
            if len(p) <= self.limit: return p
            return {((atom(n), 1),): Q(1)}
        return {((atom(n), 1),): Q(1)}

    def poly(self, n): return self.topoly(self.canon(n))
    def canon(self, n):
        r = self.memo.get(n.id)
        if r is not None: return r
        for x in postorder([n], stop=lambda y: y.id in self.memo):
            if x.id in self.memo: continue
            self.steps += 1
            if self.deadline and self.steps % 64 == 0:
                import time
                if time.time() > self.deadline: raise TooBig()
            self.memo[x.id] = self.one(x)
        return self.memo[n.id]

    def lt(self, p, sort):
        """canonical atom for p < 0"""
        if not p: return FALSE
        ks = sorted(p)
        if len(p) == 1 and ks[0] == (): return Bc(p[()] < 0)
        lead = p[ks[-1]]
        if sort == 'I':
            q = pscale(p, 1 / abs(lead)) if abs(lead) != 1 else p
            if any(c.denominator != 1 for c in q.values()): q = p
            if lead < 0:                       # -r < 0  <=>  not (r - 1 < 0)
                r = padd(pscale(q, -1), cpoly(-1))
                return Not(self.batom(mk('clt', (mk('cpoly', (), intern(r), 'I'),), None, 'B')))
            return self.batom(mk('clt', (mk('cpoly', (), intern(q), 'I'),), None, 'B'))
        q = pscale(p, 1 / abs(lead))
        return self.batom(mk('clt', (mk('cpoly', (), intern(q), 'F'),), None, 'B'))
    def eq(self, p, sort):
        if not p: return TRUE
        ks = sorted(p)
        if len(p) == 1 and ks[0] == (): return FALSE
        q = pscale(p, 1 / p[ks[-1]])
        return self.batom(mk('ceq', (mk('cpoly', (), intern(q), sort),), None, 'B'))
    def batom(self, n):
        v = self.assume.get(n.id)
        if v is not None: return Bc(v)
        return n
    def signed(self, p):
        """(sign, p') with p' having a positive leading coefficient"""
        if not p: return 1, p
        if p[sorted(p)[-1]] < 0: return -1, pscale(p, -1)
        return 1, p
    def trigfn(self, op, p):
        c = p.get((), Q(0))
        if c and self.trig:
            k = float(c) / (math.pi / 2)
            r = round(k)
            if r and abs(k - r) < 1e-12:
                q = {m: x for m, x in p.items() if m != ()}
                if r % 2 == 0: s = 1 if r % 4 == 0 else -1; o = op
                elif op == 'sin': s = 1 if r % 4 == 1 else -1; o = 'cos'
                else: s = -1 if r % 4 == 1 else 1; o = 'sin'
                return pscale(self.trigfn(o, q), s)
        if not p: return {} if op == 'sin' else ONE
        s, q = self.signed(p)
        if op == 'cos': s = 1
        a = atom(mk('c' + op, (), intern(q), 'F'))
        return {((a, 1),): Q(s)}

    def one(self, n):
        op = n.op; A = n.args
        get = lambda i: self.memo[A[i].id]
        P = lambda i: self.topoly(self.memo[A[i].id])
        if op == 'ite':
            return ite(get(0), get(1), get(2)) if not (n.sort in ('F', 'I')) else self.fite(get(0), get(1), get(2), n.sort)
        if op == 'var':
            if n.sort == 'B': return self.batom(n)
            return n
        if op in ('b', 's'): return n
        if op == 'f':
            v = fval(n)
            if not math.isfinite(v): return mk('cinf', (), n.k, 'F')
            return self.node(cpoly(Q(v)))
        if op == 'i': return self.node(cpoly(n.k), 'I')
        # distribute over choices between constants is done by the constructors already
        if n.sort == 'F' or op in ('flt', 'fle', 'feq'):
            if op == 'add': return self.node(padd(P(0), P(1)))
            if op == 'sub': return self.node(padd(P(0), P(1), -1))
            if op == 'neg': return self.node(pscale(P(0), Q(-1)))
            if op == 'mul': return self.node(self.mul(P(0), P(1)))
            if op == 'div': return self.node(self.mul(P(0), self.inv(P(1))))
            if op == 'flt': return self.lt(padd(P(0), P(1), -1), 'F')
            if op == 'fle': return Not(self.lt(padd(P(1), P(0), -1), 'F'))
            if op == 'feq': return self.eq(padd(P(0), P(1), -1), 'F')
            if op in ('sin', 'cos'): return self.node(self.trigfn(op, P(0)))
            if op == 'tan': return self.node(self.mul(self.trigfn('sin', P(0)), self.inv(self.trigfn('cos', P(0)))))
            if op == 'sqrt': return self.node(self.power(P(0), Q(1, 2)))
            if op == 'cbrt': return self.node(self.power(P(0), Q(1, 3)))
            if op == 'pow':
                e = P(1)
                if len(e) == 0: return self.node(ONE)
                if len(e) == 1 and () in e:
                    r = e[()].limit_denominator(1000)
                    if abs(r - e[()]) < Q(1, 10**13): return self.node(self.power(P(0), r))
            if op == 'powi':
                e = P(1)
                if len(e) == 0: return self.node(ONE)
                if len(e) == 1 and () in e: return self.node(self.power(P(0), e[()]))
            if op == 'abs':
                p = P(0)
                if len(p) == 0: return self.node({})
                if len(p) == 1 and () in p: return self.node({(): abs(p[()])})
                c = abs(p[sorted(p)[-1]])
                s, q = self.signed(pscale(p, 1 / c))
                neg = self.lt(q, 'F')
                if neg is TRUE: return self.node(pscale(q, -c))
                if neg is FALSE: return self.node(pscale(q, c))
                if self.split_abs:
                    return self.fite(neg, self.node(pscale(q, -c)), self.node(pscale(q, c)), 'F')
                return self.node({((atom(mk('cabs', (), intern(q), 'F')), 1),): c})
            if op == 'asin' or op == 'atan':
                s, q = self.signed(P(0))
                if not q: return self.node({})
                return self.node({((atom(mk('c' + op, (), intern(q), 'F')), 1),): Q(s)})
            if op == 'rem':
                s, q = self.signed(P(0))
                return self.node({((atom(mk('crem', (), (intern(q), intern(P(1))), 'F')), 1),): Q(s)})
            if op == 'atan2':
                y, x = P(0), P(1)
                s, q = self.signed(y)
                # a common positive constant factor
                if q:
                    c = q[sorted(q)[-1]]
                    q, x = pscale(q, 1 / c), pscale(x, 1 / c)
                return self.node({((atom(mk('catan2', (), (intern(q), intern(x)), 'F')), 1),): Q(s)})
            if op == 'i2f':
                p = P(0)
                r = {}
                for m, c in p.items():
                    r = padd(r, {tuple(sorted((atom(mk('ci2f', (ATOMS[a],), None, 'F')), e) for a, e in m)): c})
                return self.node(r)
            if op == 'mu': return self.mu(n)
            if op == 'app': return self.appl(n)
        if n.sort == 'I' or op in ('ilt', 'ieq'):
            if op == 'iadd': return self.node(padd(P(0), P(1)), 'I')
            if op == 'isub': return self.node(padd(P(0), P(1), -1), 'I')
            if op == 'imul': return self.node(self.mul(P(0), P(1)), 'I')
            if op == 'ilt': return self.lt(padd(P(0), P(1), -1), 'I')
            if op == 'ieq':
                x = A[0]
                if x.id in DOM and get(1).op == 'cpoly':
                    return self.batom(mk('ceq', (get(0), get(1)), None, 'B')) if self.assume or True else None
                return self.eq(padd(P(0), P(1), -1), 'I')
            if op == 'app': return self.appl(n)
            if op == 'mu': return self.mu(n)
        if op == 'mu': return self.mu(n)
        if op == 'app': return self.appl(n)
        if op == 'isint': return self.batom(mk('cisint', (self.node(P(0)),), None, 'B'))
        if op == 'seq':
            a, b = get(0), get(1)
            if a is b: return TRUE
            if b.id < a.id: a, b = b, a
            if a.op == 'ite' or b.op == 'ite': return self.batom(seq_(a, b)) if False else seq_(a, b)
            r = mk('seq', (a, b), None, 'B')
            return self.batom(r)
        if op == 'lam': return mk('lam', (A[0], get(1)), n.k, n.sort)
        if op == 'pack':                    # the leaves of the variants that are not present say nothing
            vs = [get(i) for i in range(len(A))]
            d = {k[:-1]: POLYS[v.k].get((), Q(0)) for k, v in zip(n.k, vs) if k.endswith('.#') and v.op == 'cpoly' and set(POLYS[v.k]) <= {()}}
            if d:
                def gone(k):
                    return any(k.startswith(q) and k[len(q):].split('.')[0].isdigit() and int(k[len(q):].split('.')[0]) != c for q, c in d.items())
                kv = [(k, v) for k, v in zip(n.k, vs) if not gone(k)]
                return mk('pack', [v for _, v in kv], tuple(k for k, _ in kv), n.sort)
            return mk('pack', vs, n.k, n.sort)
        r = mk('k' + op if n.sort in ('F', 'I') else op, [get(i) for i in range(len(A))], n.k, n.sort)
        if n.id in DOM: DOM[r.id] = DOM[n.id]
        if n.id in BOUNDS: BOUNDS.setdefault(r.id, BOUNDS[n.id])
        elif n.sort == 'I':
            b = int_bounds(n)
            if b: BOUNDS.setdefault(r.id, b)
        if r.sort == 'B': return self.batom(r)
        return r
    def fite(self, c, t, e, sort):
        if c is TRUE: return t
        if c is FALSE: return e
        if t is e: return t
        return ite(c, t, e)
    def appl(self, n):
        f, path = n.k
        c = self.unfold.get(f) if self.unfold else None
        if c is not None and path in c.outs and path not in c.relational:
            ds = c.deps(path)
            sub = subst([c.outs[path]], {v.id: a for v, a in zip(ds, n.args)})[0]
            return self.canon_nested(sub)
        r = mk('app', [self.memo[a.id] for a in n.args], n.k, n.sort)
        if n.id in DOM: DOM[r.id] = DOM[n.id]
        if n.id in BOUNDS: BOUNDS[r.id] = BOUNDS[n.id]
        if r.sort == 'B': return self.batom(r)
        return r
    def canon_nested(self, t):
        for x in postorder([t], stop=lambda y: y.id in self.memo):
            if x.id not in self.memo: self.memo[x.id] = self.one(x)
        return self.memo[t.id]
    def mu(self, n):
        from .exec import LOOPS
        L = LOOPS[n.k[0]]; idx = n.k[1]
        inits = n.args[:L.n]
        self.level += 1
        lv = [var('$M%d_%d%s' % (self.level, i, v.sort), v.sort) for i, v in enumerate(L.vars)]
        best = None
        perms = itertools.permutations(range(L.n)) if L.n <= 3 else [tuple(range(L.n))]
        for perm in perms:
            # loop variable i gets name perm[i]
            if any(lv[perm[i]].sort != L.vars[i].sort for i in range(L.n)): continue
            m = {L.vars[i].id: lv[perm[i]] for i in range(L.n)}
            for v, a in zip(L.params, n.args[L.n:]): m[v.id] = a
            body = subst([L.cont] + list(L.upd), m)
            cc = [self.canon_nested(b) for b in body]
            cc[1:] = [restrict(u, cc[0]) for u in cc[1:]]       # the body runs only while the condition holds
            order = sorted(range(L.n), key=lambda i: perm[i])
            key = (cc[0],) + tuple(cc[1 + i] for i in order) + tuple(self.memo[inits[i].id] for i in order)
            cand = (tuple(x.id for x in key), key, perm[idx])
            if best is None or cand[0] < best[0]: best = cand
        self.level -= 1
        return mk('cmu', best[1], (L.n, best[2]), n.sort)

# ---------------------------------------------------------------- helpers on canonical nodes
def BYID(i): return T._nodes[i]
def cchildren(n):
    out = list(n.args)
    ks = ()
    if n.op in ('cpoly', 'csin', 'ccos', 'cabs', 'cbase', 'casin', 'catan'): ks = (n.k,)
    elif n.op in ('crem', 'catan2'): ks = n.k
    for k in ks:
        for m in POLYS[k]:
            for a, _ in m: out.append(ATOMS[a])
    return out
def creach(roots):
    seen = {}; st = list(roots)
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen[n.id] = n
        st.extend(cchildren(n))
    return list(seen.values())
def mentions(n, x): return any(m is x for m in creach([n]))
def csubst(n, x, v):
    """substitute in a canonical boolean/string term without polynomials over x"""
    if n is x: return v
    if not n.args: return n
    a = [csubst(c, x, v) for c in n.args]
    if all(p is q for p, q in zip(a, n.args)): return n
    if n.op == 'ite': return ite(*a)
    return mk(n.op, a, n.k, n.sort)
