"""Discharging obligations: equality of two terms (under a care condition) and validity of formulas.
Back ends: identity (hash-consed terms), ring (canonical polynomials), cases (case split + ring),
unfold (callee definitions unfolded), smt (z3 over the canonical atoms with their axioms)."""
import math, time, itertools
from fractions import Fraction as Q
import z3
from .terms import *
from .canon import *
from . import canon as K
from .exec import LOOPS

PIQ = Q(math.pi)
STATS = {'smt_calls': 0, 'smt_time': 0.0}

def children(n):
    """canonical nodes directly below a canonical node"""
    out = list(n.args)
    ks = ()
    if n.op in ('cpoly', 'csin', 'ccos', 'cabs', 'cbase', 'casin', 'catan'): ks = (n.k,)
    elif n.op in ('crem', 'catan2'): ks = n.k
    for k in ks:
        for m in POLYS[k]:
            for a, _ in m: out.append(ATOMS[a])
    return out
def reach(roots, stop=()):
    seen = {}; st = list(roots)
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen[n.id] = n
        if n.op in ('cmu', 'lam'): continue
        st.extend(children(n))
    return list(seen.values())

class SMT:
    """translation of canonical nodes to z3, with axioms for the interpreted atoms"""
    def __init__(self, timeout=3000, nonlinear=False):
        self.axioms = []; self.timeout = timeout
        self.m = {}; self.n = 0; self.nl = nonlinear
        self.mono = {}
        self.pending = []
    def fresh(self, sort, tag='x'):
        self.n += 1
        nm = '%s%d' % (tag, self.n)
        return z3.Int(nm) if sort == 'I' else z3.Bool(nm) if sort == 'B' else z3.Real(nm)
    def ax(self, *fs):
        self.axioms.extend(fs)
    def rat(self, q):
        q = Q(q); return z3.RealVal('%d/%d' % (q.numerator, q.denominator))
    def real(self, e): return z3.ToReal(e) if z3.is_int(e) else e
    def poly(self, p, sort):
        if sort == 'I' and all(c.denominator == 1 for c in p.values()):
            r = z3.IntVal(0)
            for m, c in p.items(): r = r + int(c) * self.monom(m, 'I')
            return r
        r = self.rat(0)
        for m, c in p.items(): r = r + self.rat(c) * self.real(self.monom(m, 'F'))
        return r
    def monom(self, m, sort):
        if not m: return z3.IntVal(1) if sort == 'I' else self.rat(1)
        if len(m) == 1 and m[0][1] == 1: return self.tr(ATOMS[m[0][0]])
        key = m
        if key in self.mono: return self.mono[key]
        if self.nl and all(e == int(e) and 0 < e <= 4 for _, e in m):
            r = None
            for a, e in m:
                x = self.real(self.tr(ATOMS[a]))
                for _ in range(int(e)): r = x if r is None else r * x
            self.mono[key] = r
            return r
        v = self.fresh(sort, 'm')
        self.mono[key] = v
        if all(int(e) == e and int(e) % 2 == 0 for _, e in m): self.ax(v >= 0)
        if len(m) == 1:
            a, e = m[0]
            n = ATOMS[a]
            if e.denominator == 2 if isinstance(e, Q) else False:
                self.ax(v >= 0)
                if n.op == 'cbase' and e == Q(1, 2):
                    b = self.poly(POLYS[n.k], 'F')
                    self.ax(z3.Implies(b > 0, v > 0), z3.Implies(b == 0, v == 0), z3.Implies(b >= 1, z3.And(v >= 1, v <= b)),
                            z3.Implies(z3.And(b >= 0, b <= 1), z3.And(v <= 1, v >= b)))
                    if self.nl: self.ax(v * v == b)
            if e == -1 and n.op == 'cbase':
                b = self.poly(POLYS[n.k], 'F')
                self.ax(z3.Implies(b > 0, v > 0), z3.Implies(b < 0, v < 0))
                if self.nl: self.ax(v * b == 1)
        if self.nl and any(e < 0 for _, e in m):
            pos = tuple((a, e) for a, e in m if e > 0); neg = tuple((a, -e) for a, e in m if e < 0)
            if neg and all(int(e) == e for _, e in m):
                self.ax(v * self.real(self.monom(neg, 'F')) == self.real(self.monom(pos, 'F')))
        return v
    def tr(self, n):
        r = self.m.get(n.id)
        if r is None:
            r = self.tr1(n); self.m[n.id] = r
        return r
    def tr1(self, n):
        op = n.op
        if op == 'b': return z3.BoolVal(n.k)
        if op == 'ite':
            c, a, b = [self.tr(x) for x in n.args]
            if n.sort == 'F': a, b = self.real(a), self.real(b)
            return z3.If(c, a, b)
        if op == 'cpoly': return self.poly(POLYS[n.k], n.sort)
        if op == 'clt': return self.tr(n.args[0]) < 0
        if op == 'ceq':
            if len(n.args) == 2: return self.tr(n.args[0]) == self.tr(n.args[1])
            return self.tr(n.args[0]) == 0
        if op == 'cisint': return z3.IsInt(self.real(self.tr(n.args[0])))
        if op == 'ci2f': return z3.ToReal(self.tr(n.args[0]))
        if n.sort == 'B':
            v = self.fresh('B', 'b'); self.m[n.id] = v
            self.bool_axioms(n, v)
            return v
        if n.sort == 'I':
            v = self.fresh('I', 'i'); self.m[n.id] = v
            if n.id in DOM: self.ax(v >= 0, v < DOM[n.id])
            b = BOUNDS.get(n.id)
            if b: self.ax(v >= b[0], v <= b[1])
            self.int_axioms(n, v)
            return v
        if n.sort == 'F':
            v = self.fresh('F', 'r'); self.m[n.id] = v
            self.real_axioms(n, v)
            return v
        v = z3.Int('u%d' % n.id); self.m[n.id] = v      # opaque identity
        return v
    def real_axioms(self, n, v):
        op = n.op
        if op in ('csin', 'ccos'): self.ax(v >= -1, v <= 1)
        elif op == 'cabs':
            p = self.poly(POLYS[n.k], 'F'); self.ax(z3.Or(v == p, v == -p), v >= 0)
        elif op == 'catan2':
            self.ax(v >= -self.rat(PIQ), v <= self.rat(PIQ))
            x = self.poly(POLYS[n.k[1]], 'F'); y = self.poly(POLYS[n.k[0]], 'F')
            self.ax(z3.Implies(x >= 0, z3.And(v >= -self.rat(PIQ / 2), v <= self.rat(PIQ / 2))))
            self.ax(z3.Implies(y >= 0, v >= 0), z3.Implies(y < 0, v <= 0))
        elif op in ('casin', 'catan'): self.ax(v >= -self.rat(PIQ / 2), v <= self.rat(PIQ / 2))
        elif op == 'crem':
            a = self.poly(POLYS[n.k[0]], 'F'); b = POLYS[n.k[1]]
            if len(b) == 1 and () in b and b[()] != 0:
                B = self.rat(abs(b[()])); k = self.fresh('I', 'q')
                self.ax(v == a - B * z3.ToReal(k), z3.Implies(a >= 0, z3.And(v >= 0, v < B)), z3.Implies(a <= 0, z3.And(v <= 0, v > -B)))
        elif op == 'kfloor':
            k = self.fresh('I', 'q'); x = self.real(self.tr(n.args[0]))
            self.ax(v == z3.ToReal(k), v <= x, x < v + 1)
        elif op == 'kceil':
            k = self.fresh('I', 'q'); x = self.real(self.tr(n.args[0]))
            self.ax(v == z3.ToReal(k), v >= x, x > v - 1)
        elif op == 'ktrunc':
            k = self.fresh('I', 'q'); x = self.real(self.tr(n.args[0]))
            self.ax(v == z3.ToReal(k), z3.Implies(x >= 0, z3.And(v <= x, x < v + 1)), z3.Implies(x <= 0, z3.And(v >= x, x > v - 1)))
        elif op == 'kround':
            k = self.fresh('I', 'q'); x = self.real(self.tr(n.args[0]))
            self.ax(v == z3.ToReal(k), v - x <= self.rat(Q(1, 2)), x - v <= self.rat(Q(1, 2)))
        elif op in ('kfmin', 'kfmax'):
            a, b = [self.real(self.tr(x)) for x in n.args]
            self.ax(v == (z3.If(a <= b, a, b) if op == 'kfmin' else z3.If(a >= b, a, b)))
        elif op == 'cmu': self.mu_axioms(n, v)
        elif op == 'kexp': self.ax(v > 0)
    def int_axioms(self, n, v):
        op = n.op
        if op == 'kf2i':
            lo, hi = INT_RANGE[n.k]; x = self.real(self.tr(n.args[0])); r = z3.ToReal(v)
            self.ax(v >= lo, v <= hi)
            self.ax(z3.Implies(z3.And(x >= 0, x <= hi), z3.And(r <= x, x < r + 1)))
            self.ax(z3.Implies(x > hi, v == hi), z3.Implies(x < lo, v == lo))
            self.ax(z3.Implies(z3.And(x <= 0, x >= lo), z3.And(r >= x, x > r - 1)))
        elif op in ('kidiv', 'kirem', 'kimod'):
            a, b = self.tr(n.args[0]), n.args[1]
            bp = POLYS[b.k] if b.op == 'cpoly' else None
            if bp and len(bp) == 1 and () in bp and bp[()] > 0:
                B = int(bp[()])
                q = v if op == 'kidiv' else self.fresh('I', 'q')
                r = v if op != 'kidiv' else self.fresh('I', 'q')
                self.ax(a == B * q + r)
                if op == 'kimod': self.ax(r >= 0, r < B)
                else: self.ax(z3.Implies(a >= 0, z3.And(r >= 0, r < B)), z3.Implies(a < 0, z3.And(r <= 0, r > -B)))
        elif op == 'kwrap':
            lo, hi = INT_RANGE[n.k]; k = self.fresh('I', 'q'); x = self.tr(n.args[0])
            self.ax(v == x + (hi - lo + 1) * k, v >= lo, v <= hi, z3.Implies(z3.And(x >= lo, x <= hi), v == x))
        elif op == 'kslen':
            self.ax(v >= 0, v < 2**63)
            s = n.args[0]
            if s.op == 'nth' or s.op == 'var': self.string_facts(s)
        elif op == 'kqlen':
            self.ax(v >= 0, v < 2**60)
            if n.args[0].op == 'bytes': self.ax(v == self.tr(mk('kslen', n.args[0].args, None, 'I')))
            if n.args[0].op == 'push': self.ax(v == self.tr(mk('kqlen', (n.args[0].args[0],), None, 'I')) + 1)
            if n.args[0].op == 'splitq': self.ax(v >= 1)
        elif op == 'kparse':
            s = n.args[0]
            while s.op == 'trim': s = s.args[0]
            if s.op == 'slice' and len(s.args) == 3:
                w = [POLYS[a.k].get((), 0) if a.op == 'cpoly' and set(POLYS[a.k]) <= {()} else None for a in s.args[1:]]
                if w[0] is not None and w[1] is not None and 0 < w[1] - w[0] < 15:
                    d = int(w[1] - w[0]); self.ax(v < 10**d, v > -10**(d - 1))
        elif op == 'cmu': self.mu_axioms(n, v)
    def bool_axioms(self, n, v):
        if n.op == 'seq':
            a, b = n.args
            if a.op == 's': a, b = b, a
            if b.op == 's' and b.k == b'':
                t = a.args[0] if a.op == 'trim' else a
                L = self.tr(mk('kslen', (t,), None, 'I'))
                self.ax(z3.Implies(z3.Not(v), L >= 1))
                if a.op != 'trim': self.ax(z3.Implies(v, L == 0))
        elif n.op == 'getok' and len(n.args) == 3:
            L = self.tr(mk('kslen', (n.args[0],), None, 'I'))
            self.ax(z3.Implies(v, L >= self.tr(n.args[2])))
        elif n.op == 'getok':
            L = self.tr(mk('kslen', (n.args[0],), None, 'I'))
            self.ax(z3.Implies(v, L >= self.tr(n.args[1])))
    def string_facts(self, s):
        if s.op == 'nth' and s.args[0].op == 'filterq':
            q = s.args[0]; lam = q.args[1]
            if lam.op != 'lam': return
            x, body = lam.args
            b = K.csubst(body, x, s)
            i = self.tr(s.args[1]); L = self.tr(mk('kqlen', (q,), None, 'I'))
            self.ax(z3.Implies(z3.And(i >= 0, i < L), self.tr(b)))
    def mu_axioms(self, n, v):
        """single-variable additive loop: value = init + k*d with k >= 0; the loop condition is false at the
        value; if k > 0 it was true one step earlier"""
        N, idx = n.k
        cont, upds, inits = n.args[0], n.args[1:1 + N], n.args[1 + N:1 + 2 * N]
        lvs = mu_vars(n)
        if lvs is None: return
        if N == 1:
            x = lvs[0]
            up = upds[0]
            if x.sort == 'F' and up.op == 'cpoly':
                p = POLYS[up.k]; xm = ((atom(x), 1),)
                if set(p) <= {xm, ()} and p.get(xm) == 1:
                    d = p.get((), Q(0)); k = self.fresh('I', 'q')
                    if not additive_terminates(cont, x, d): return
                    self.ax(k >= 0, v == self.real(self.tr(inits[0])) + self.rat(d) * z3.ToReal(k))
                    self.ax(z3.Not(self.tr_at(cont, x, v)))
                    self.ax(z3.Implies(k >= 1, self.tr_at(cont, x, v - self.rat(d))))
            elif x.sort == 'F' and up.op == 'ite':
                g = choice_steps(cont, up, x)
                if g is None: return
                k = self.fresh('I', 'q')
                self.ax(v == self.real(self.tr(inits[0])) + self.rat(g) * z3.ToReal(k), z3.Not(self.tr_at(cont, x, v)))
    def tr_at(self, n, x, val):
        save = dict(self.m); sm = dict(self.mono)
        # terms mentioning x must be translated afresh
        t = SMT.__new__(SMT); t.__dict__.update(self.__dict__)
        t.m = {k: e for k, e in save.items() if not K.mentions(K.BYID(k), x)}
        t.mono = {}
        t.m[x.id] = val
        r = t.tr(n)
        self.n = t.n
        return r
    def solver(self, fs):
        s = z3.Solver(); s.set('timeout', self.timeout)      # a fresh, non-incremental solver per query
        s.add(*self.axioms); s.add(*fs)
        return s
    def check(self, *fs):
        t0 = time.time(); STATS['smt_calls'] += 1
        r = self.solver(fs).check()
        STATS['smt_time'] += time.time() - t0
        return str(r)
    def model(self, *fs):
        s = self.solver(fs)
        return s.model() if s.check() == z3.sat else None

def additive_terminates(cont, x, d):
    """x := x + d eventually makes the condition false: the condition implies a bound that x moves towards"""
    if d == 0: return False
    def side(a, pos):                    # literal a (or its negation) as a bound a1*x + a0 (<) 0
        if a.op != 'clt' or a.args[0].op != 'cpoly': return None
        p = POLYS[a.args[0].k]; xm = ((atom(x), 1),)
        if xm not in p: return None
        for m in p:
            if m != xm and any(K.mentions(ATOMS[t], x) or ATOMS[t] is x for t, _ in m): return None
        return (p[xm] if pos else -p[xm])
    def rec(n, ok):
        if n is FALSE: return True
        if n is TRUE: return ok
        a = topatom(n)
        sp, sn = side(a, True), side(a, False)
        return rec(T._cof(n, a, 1), ok or (sp is not None and sp * d > 0)) and rec(T._cof(n, a, 0), ok or (sn is not None and sn * d > 0))
    return rec(cont, False)

def choice_steps(cont, up, x):
    """x moves up by constants only below some bound and down only above another one, and a step never jumps over the
    gap between the two bounds: the loop ends, and x changes by whole multiples of the returned step"""
    ups, downs = [], []; xm = ((atom(x), 1),)
    def bound(a, pos):
        if a.op != 'clt' or a.args[0].op != 'cpoly': return None
        p = POLYS[a.args[0].k]
        if xm not in p or not set(p) <= {xm, ()}: return None
        c = -p.get((), Q(0)) / p[xm]
        return ('hi' if (p[xm] > 0) == pos else 'lo', c)
    def rec(c, u, bs):
        if c is FALSE: return True
        tops = [a for a in (topatom(c), topatom(u)) if a is not None]
        if tops:
            a = min(tops, key=lambda t: t.id)
            return all(rec(T._cof(c, a, q), T._cof(u, a, q), bs + [bound(a, bool(q))]) for q in (1, 0))
        if u.op != 'cpoly': return False
        p = POLYS[u.k]
        if not set(p) <= {xm, ()} or p.get(xm) != 1: return False
        d = p.get((), Q(0))
        b = [c for t in bs if t for k, c in [t] if k == ('hi' if d > 0 else 'lo')]
        if d == 0 or not b: return False
        (ups if d > 0 else downs).append((min(b) if d > 0 else max(b), d)); return True
    if not rec(cont, up, []) or not ups + downs: return None
    for cu, du in ups:
        for cd, dd in downs:
            if cu + du > cd + Q(1, 10 ** 9) or cd + dd < cu - Q(1, 10 ** 9): return None
    g = min(abs(d) for _, d in ups + downs)
    if any((d / g).denominator != 1 for _, d in ups + downs): return None
    return g

def mu_vars(n):
    N, idx = n.k
    found = {}
    for x in K.creach(n.args[:1 + N]):
        if x.op == 'var' and isinstance(x.k, str) and x.k.startswith('$M'):
            i = int(x.k[2:].split('_')[1].rstrip('FIBSQX')); found[i] = x
    if len(found) != N: return None
    return [found[i] for i in range(N)]

# ---------------------------------------------------------------- equality
class Fail(Exception):
    def __init__(self, why, path=None, x=None, y=None): self.why = why; self.path = path; self.x = x; self.y = y
    def __str__(self): return self.why

def paths(care, x, y, out, limit=4000):
    """(literals, leaf of x, leaf of y) for every way the two decision diagrams differ under care"""
    lits = []
    def rec(care, x, y):
        if care is FALSE or x is y: return
        tops = [a for a in (topatom(care), topatom(x), topatom(y)) if a is not None]
        if not tops:
            out.append((list(lits), x, y))      # every way: one that cannot happen says nothing about the others
            if len(out) >= limit: raise Fail('too many cases')
            return
        a = min(tops, key=lambda t: t.id)
        for pos in (1, 0):
            lits.append((a, bool(pos)))
            rec(T._cof(care, a, pos), T._cof(x, a, pos), T._cof(y, a, pos))
            lits.pop()
    rec(care, x, y)
    return out

def lit_smt(S, lits):
    return [S.tr(a) if v else z3.Not(S.tr(a)) for a, v in lits]

class Prover:
    LIMITS = (16, 80, 600, 4000)
    def __init__(self, contracts=None, seconds=60, facts=(), smt_ms=4000):
        self.smt_ms = smt_ms
        self.contracts = contracts or {}
        self.seconds = seconds
        self.facts = list(facts)      # extra formulas (nodes) assumed everywhere (contracts of callees)
    def equal(self, x, y, care=TRUE, quick=False):
        """-> back end that proved x == y wherever care holds; raises Fail"""
        if x is y: return 'identity'
        if restrict(x, care) is restrict(y, care): return 'identity'
        end = time.time() + self.seconds
        last = None
        for f in exit_facts([x, y, care]):            # a loop that was left: its condition is false
            care = And(care, f)
        if restrict(x, care) is restrict(y, care): return 'identity'
        for unfold in (None, self.contracts):
            if unfold is not None and not has_app([x, y, care], self.contracts): continue
            for lim in self.LIMITS[:1] if quick else self.LIMITS:
                try:
                    C = Canon(limit=lim, deadline=min(end, time.time() + self.seconds / 3), unfold=unfold)
                    cc = C.canon(care); cx, cy = C.canon(x), C.canon(y)
                    if cx is cy or restrict(cx, cc) is restrict(cy, cc): return 'ring' if unfold is None else 'unfold'
                except TooBig: break
        if quick: raise Fail('quick')
        if x.op == 'mu' and y.op == 'mu':
            try: return self.mu_equal(x, y, end)
            except Fail as f:
                for a, b in ((x, y), (y, x)):
                    try: return self.mu_exit(a, b, end)
                    except Fail: pass
                raise f
        if x.op == 'mu' or y.op == 'mu':
            try: return self.mu_exit(x, y, end) if x.op == 'mu' else self.mu_exit(y, x, end)
            except Fail: pass
        for unfold in (None, self.contracts):
            if unfold is not None and not has_app([x, y, care], self.contracts): continue
            for lim in (16, 600):
                for sa in (False, True):
                    if time.time() > end: break
                    try:
                        k = self.cases(x, y, care, {}, lim, sa, unfold, 0, end)
                        return k if unfold is None else 'unfold+' + k
                    except Fail as f: last = f
                    except TooBig: pass
        raise last or Fail('not decided within limits')
    def mu_equal(self, x, y, end):
        """two loops with the same state: equal initial states, equal conditions, and equal next states while they run"""
        A, B = LOOPS[x.k[0]], LOOPS[y.k[0]]
        if A.n != B.n or A.n > 5: raise Fail('loops with different state', [], x, y)
        ax = {v.id: a for v, a in zip(A.params, x.args[A.n:])}; ay = {v.id: a for v, a in zip(B.params, y.args[B.n:])}
        last = Fail('loops with different state', [], x, y)
        for perm in itertools.permutations(range(A.n)):
            if perm[x.k[1]] != y.k[1] or any(A.vars[i].sort != B.vars[j].sort for i, j in enumerate(perm)): continue
            v = [var('$loop%d_%d' % (A.n, i), a.sort) for i, a in enumerate(A.vars)]
            mx = dict(ax); my = dict(ay)
            for i, j in enumerate(perm): mx[A.vars[i].id] = v[i]; my[B.vars[j].id] = v[i]
            tx = subst([A.cont] + list(A.upd), mx); ty = subst([B.cont] + list(B.upd), my)
            try:
                for i, j in enumerate(perm): self.sub(end).equal(x.args[i], y.args[j])
                self.sub(end).equal(tx[0], ty[0])
                for i, j in enumerate(perm): self.sub(end).equal(tx[1 + i], ty[1 + j], tx[0])
                return 'loop'
            except Fail as f: last = f
        raise last
    def mu_exit(self, x, y, end):
        """y is computed from a loop that is left at most one iteration earlier than the loop x: equal steps while y's loop
        runs, and what y computes from the state it is left in is what x has after the iterations it still makes"""
        ms = outer_mus(y)
        if not ms: raise Fail('no loop')
        A = LOOPS[x.k[0]]
        main = max(ms, key=lambda m: LOOPS[m.k[0]].n); B = LOOPS[main.k[0]]
        if A.n != B.n or A.n > 5: raise Fail('loops with different state')
        v = [var('$loop%d_%d%s' % (B.n, i, b.sort), b.sort) for i, b in enumerate(B.vars)]
        at = {}
        for j in range(B.n):
            at[project(main, j).id] = v[j]; at[mk('mu', main.args, (main.k[0], j), B.vars[j].sort).id] = v[j]
        if any(m.id not in at for m in ms): raise Fail('several loops')
        yv = subst([y], {m.id: at[m.id] for m in ms})[0]
        ax = {w.id: a for w, a in zip(A.params, x.args[A.n:])}; ay = {w.id: a for w, a in zip(B.params, main.args[B.n:])}
        my = dict(ay)
        for i in range(B.n): my[B.vars[i].id] = v[i]
        ty = subst([B.cont] + list(B.upd), my)
        last = Fail('loops with different state', [], x, y)
        for perm in itertools.permutations(range(A.n)):                  # A's variable i is B's perm[i]
            if any(A.vars[i].sort != B.vars[j].sort for i, j in enumerate(perm)): continue
            mx = dict(ax)
            for i, j in enumerate(perm): mx[A.vars[i].id] = v[j]
            tx = subst([A.cont] + list(A.upd), mx)
            try:
                for i, j in enumerate(perm): self.sub(end).equal(x.args[i], main.args[j])
                self.sub(end).equal(And(ty[0], Not(tx[0])), FALSE)
                for i, j in enumerate(perm): self.sub(end).equal(tx[1 + i], ty[1 + j], ty[0])
                self.sub(end).equal(v[perm[x.k[1]]], yv, And(Not(ty[0]), Not(tx[0])))
                c = And(Not(ty[0]), tx[0])
                if c is not FALSE:
                    self.sub(end).equal(tx[1 + x.k[1]], yv, c)
                    nxt = subst([tx[0]], {v[perm[i]].id: tx[1 + i] for i in range(A.n)})[0]
                    self.sub(end).equal(nxt, FALSE, c)
                return 'loop'
            except Fail as f: last = f
        raise last
    def sub(self, end): return Prover(self.contracts, max(0.5, end - time.time()), self.facts, self.smt_ms)
    def cases(self, x, y, care, assume, lim, sa, unfold, depth, end):
        if time.time() > end: raise Fail('timeout')
        C = Canon(limit=lim, assume=assume, split_abs=sa, deadline=end, unfold=unfold)
        cc = C.canon(care); cx, cy = C.canon(x), C.canon(y)
        how = 'cases'
        if depth == 0 and cx.sort in ('F', 'I', 'B') and (cx.op == 'ite' or cy.op == 'ite' or cx.sort == 'B'):
            S = SMT(timeout=self.smt_ms)
            if S.check(S.tr(cc), S.tr(cx) != S.tr(cy), *[S.tr(C.canon(f)) for f in self.facts]) == 'unsat': return 'smt'
        ways = paths(cc, cx, cy, [])
        if len(ways) > 8:                             # all ways to one pair of leaves at once
            groups = {}
            for w in ways: groups.setdefault((w[1].id, w[2].id), []).append(w)
            ways = []
            for g in groups.values():
                lx, ly = g[0][1:]
                if len(g) > 1:
                    S = SMT(timeout=min(self.smt_ms, 10000))
                    L = lit_smt(S, [(T._nodes[i], v) for i, v in assume.items()])
                    L.append(z3.Or(*[z3.And(*lit_smt(S, w[0])) for w in g])); L += [S.tr(C.canon(f)) for f in self.facts]
                    if lx.sort in ('F', 'I', 'B'): L.append(S.tr(lx) != S.tr(ly))
                    if S.check(*L) == 'unsat': how = 'smt'; continue
                ways += g
            if len(ways) > 200: raise Fail('too many cases', *(ways[0][:1] + ways[0][1:]))
        for lits, lx, ly in ways:
            if time.time() > end: raise Fail('timeout')
            S = SMT(timeout=min(self.smt_ms, 10000))
            asm = [(T._nodes[i], v) for i, v in assume.items()] + lits
            L = lit_smt(S, asm)
            facts = [S.tr(C.canon(f)) for f in self.facts]
            if S.check(*(L + facts)) == 'unsat': how = 'smt'; continue
            if lx.sort in ('F', 'I', 'B'):
                a, b = S.tr(lx), S.tr(ly)
                if S.check(*(L + facts + [a != b])) == 'unsat': how = 'smt'; continue
            if depth >= 10: raise Fail('case split too deep', asm, lx, ly)
            na = dict(assume)
            for a, v in lits: na[a.id] = v
            if len(na) > len(assume):
                h = self.cases(x, y, care, na, lim, sa, unfold, depth + 1, end)
                if h == 'smt': how = 'smt'
                continue
            # a choice nested below arithmetic
            inner = [t for t in K.creach([lx, ly]) if t.op == 'ite' and topatom(t).id not in na]
            inner = [a for a in {topatom(t).id: topatom(t) for t in inner}.values() if closed(a)]
            if inner:
                a = min(inner, key=lambda t: t.id)
                for v in (True, False):
                    nb = dict(na); nb[a.id] = v
                    h = self.cases(x, y, care, nb, lim, sa, unfold, depth + 1, end)
                    if h == 'smt': how = 'smt'
                continue
            if lx.sort == 'F' and self.same_cleared(lx, ly, end): how = 'ring'; continue
            S = SMT(nonlinear=True, timeout=self.smt_ms)
            L = lit_smt(S, asm) + [S.tr(C.canon(f)) for f in self.facts]
            if S.check(*L) == 'unsat': how = 'smt'; continue
            if lx.sort in ('F', 'I') and S.check(*(L + [S.tr(lx) != S.tr(ly)])) == 'unsat': how = 'smt'; continue
            raise Fail('the two sides differ', asm, lx, ly)
        return how
    def same_cleared(self, x, y, end):
        C = Canon(limit=300, deadline=end)
        try: return not C.cleared(padd(C.topoly(x), C.topoly(y), -1))
        except (TooBig, OverflowError): return False
    def valid(self, f, care=TRUE):
        return self.equal(f, TRUE, And(care, TRUE))
    def unsat(self, f):
        return self.equal(f, FALSE)

def outer_mus(t):
    """the loops of a term that are not inside another loop's arguments"""
    out, seen, st = [], set(), [t]
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.op == 'mu': out.append(n)
        else: st.extend(n.args)
    return out
def project(n, j):
    """component j of a loop, as a loop of the variables it depends on"""
    from .exec import mu_nodes
    L = LOOPS[n.k[0]]
    m = {w.id: a for w, a in zip(L.params, n.args[L.n:])}
    vs = [var('$proj%d%s' % (i, w.sort), w.sort) for i, w in enumerate(L.vars)]
    for w, z in zip(L.vars, vs): m[w.id] = z
    t = subst([L.cont] + list(L.upd), m)
    return mu_nodes(vs, {z.id: a for z, a in zip(vs, n.args)}, t[0], {z.id: u for z, u in zip(vs, t[1:])}, [vs[j]])[vs[j].id]
def closed(n):
    return not any(t.op == 'var' and isinstance(t.k, str) and t.k.startswith('$M') for t in K.creach([n]))

def exit_facts(roots):
    from .exec import LOOPS
    out = []; seen = set()
    for n in postorder(roots):
        if n.op != 'mu': continue
        key = (n.k[0],) + tuple(a.id for a in n.args)
        if key in seen: continue
        seen.add(key)
        L = LOOPS[n.k[0]]
        m = {v.id: mk('mu', n.args, (n.k[0], i), v.sort) for i, v in enumerate(L.vars)}
        for v, a in zip(L.params, n.args[L.n:]): m[v.id] = a
        out.append(Not(subst([L.cont], m)[0]))
    return out

def has_app(roots, contracts):
    return any(n.op == 'app' and n.k[0] in contracts for n in postorder(roots))
