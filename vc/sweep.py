"""Equivalence sweeping: intermediate lemmas `code subterm == contract subterm`, found by evaluating both
sides on sample inputs and each discharged by the prover before it is used (evaluation only proposes
candidates). Larger equalities are then proved over the shared subterms."""
import time, math, random
import numpy as np
from .terms import *
from . import terms as T
from .canon import Canon, TooBig
from .prove import *
from .evalx import evaluate, UNDEFV, EvalError, plan

def unroll(roots, limit=24):
    """replace loops whose bound is concrete by nested choices"""
    from .exec import LOOPS
    mus = [n for n in postorder(roots) if n.op == 'mu']
    if not mus: return roots
    m = {}
    for n in mus:
        L = LOOPS[n.k[0]]
        args = subst(list(n.args), m)
        par = {v.id: a for v, a in zip(L.params, args[L.n:])}
        def go(st, k):
            env = dict(par); env.update({v.id: x for v, x in zip(L.vars, st)})
            c = subst([L.cont], env)[0]
            if c is FALSE: return st[n.k[1]]
            if k >= limit: return None
            nx = go(subst(L.upd, env), k + 1)
            return None if nx is None else ite(c, nx, st[n.k[1]])
        if any(bounded(a) for a in args[:L.n]):
            r = go(args[:L.n], 0)
            if r is not None: m[n.id] = r
    return subst(roots, m) if m else roots
def bounded(a): return a.op == 'i'

TRIVIAL = {0.0, 1.0, -1.0, 2.0, 0.5, math.pi, 2 * math.pi}
class Sweep:
    def __init__(self, cx, envs, seconds=120, contracts=None):
        self.cx = cx; self.envs = envs; self.end = time.time() + seconds
        self.contracts = cx.c if contracts is None else contracts
        self.rep = {}            # node id -> representative
        self.canon = Canon(limit=16)
        self.bycanon = {}
        self.lemmas = []         # (how, size)
        self.rows = []; self.reps = []
        self.vals = {}
        self.failed = set(); self.log = []
    def values(self, nodes):
        """numeric value of every node under every sample"""
        cols = []
        for env in self.envs:
            try: cols.append(evaluate(nodes, env))
            except EvalError: return None
        return cols
    def run(self, roots, nspec=0):
        """the first nspec roots are the contract side: lemmas are proposed between the two sides only"""
        roots = unroll(roots)
        self.specside = {n.id for n in postorder(roots[:nspec])}
        order = postorder(roots)
        cols = self.values(order)
        n = len(order)
        M = None
        if cols is not None and cols:
            M = np.full((n, len(cols)), np.nan)
            for j, c in enumerate(cols):
                for i, v in enumerate(c):
                    if isinstance(v, float): M[i, j] = v
                    elif isinstance(v, int) and not isinstance(v, bool): M[i, j] = float(min(max(v, -2**60), 2**60))
        cap = n + 16
        self.R = np.full((cap, len(self.envs)), np.nan); self.nr = 0
        for i, x in enumerate(order):
            a = [self.rep[y.id] for y in x.args]
            r = x if all(p is q for p, q in zip(a, x.args)) or x.op == 'lam' else rebuild(x, a)
            if r.id in self.rep and self.rep[r.id] is not r: r = self.rep[r.id]
            elif not isconst(r) and r.op not in ('var', 'lam'): r = self.merge(r, M[i] if M is not None else None, x.id in self.specside)
            self.rep[x.id] = r; self.rep.setdefault(r.id, r)
        return [self.rep[x.id] for x in roots]
    def merge(self, r, row, spec=False):
        if r.sort not in ('F', 'I', 'B'): return r
        try: c = self.canon.canon(r)
        except TooBig: return r
        m = self.bycanon.get(c.id)
        if m is not None: return m
        if r.sort == 'B':
            nc = Not(c)
            m = self.bycanon.get(nc.id)
            if m is not None: return Not(m)
            self.bycanon[c.id] = r
            return r
        if row is not None and r.sort == 'F':
            fin = np.isfinite(row)
            if fin.sum() >= 2 and (np.ptp(row[fin]) > 0 or row[fin][0] not in TRIVIAL):
                if spec:
                    self.R[self.nr] = row; self.reps.append(r); self.nr += 1
                elif self.nr:
                    R = self.R[:self.nr]
                    with np.errstate(all='ignore'):
                        ok = np.all(np.where(fin, np.abs(R - row) <= 1e-9 * np.abs(row) + 1e-300, ~np.isfinite(R)), axis=1)
                    cands = [self.reps[j] for j in np.nonzero(ok)[0]]
                    if cands:
                        sz = size([r])
                        for b in sorted(cands, key=lambda b: (b.op != r.op, abs(size([b]) - sz)))[:3]:
                            if b.sort != r.sort or (b.id, r.id) in self.failed: continue
                            t0 = time.time(); how = self.local(b, r); self.log.append((time.time() - t0, how, b.id, r.id))
                            if how:
                                self.lemmas.append(how)
                                self.bycanon[c.id] = b
                                return b
                            self.failed.add((b.id, r.id))
        self.bycanon[c.id] = r
        return r
    OPEN = {'add', 'sub', 'mul', 'neg', 'sin', 'cos', 'sqrt', 'abs', 'powi', 'ite'}
    def local(self, a, b, care=TRUE, levels=(1, 2, 3)):
        if time.time() > self.end: return None
        for lvl in levels:
            if lvl == 3 and not has_app([a, b], self.contracts) and size([a, b]) > 60: continue
            x, y, cc = self.cut(a, b, care, lvl) if lvl < 3 else (a, b, care)
            if self.refuted(x, y, cc): continue
            try: return 'lemma %d: %s' % (lvl, Prover(self.contracts if lvl == 3 else {}, 1.0 if lvl < 3 else 2.0, smt_ms=200).equal(x, y, cc))
            except Fail as f: pass
            except TooBig: pass
        return None
    def refuted(self, x, y, care=TRUE):
        """the two terms differ on a random assignment of their variables"""
        vs = vars_of([x, y, care])
        rnd = random.Random(7)
        for k in range(12):
            env = {}
            for v in vs:
                if v.sort == 'F': env[v.k] = rnd.choice([rnd.uniform(-1, 1), rnd.uniform(0.01, 0.9), rnd.uniform(-30, 30)])
                elif v.sort == 'I': env[v.k] = rnd.randrange(DOM.get(v.id, 3))
                elif v.sort == 'B': env[v.k] = rnd.random() < 0.5
                else: return False
            try: a, b, c = evaluate([x, y, care], env)
            except EvalError: return False
            if c is not True or not isinstance(a, float) or not isinstance(b, float): continue
            if math.isfinite(a) and math.isfinite(b) and abs(a - b) > 1e-5 * max(1e-300, abs(a), abs(b)) + 1e-9: return True
        return False
    def cut(self, a, b, care, lvl):
        ra = {n.id for n in postorder([a])}; rb = {n.id for n in postorder([b, care])}
        sh = ra & rb
        m = {}
        def name(n):
            v = var('$c%d%s' % (n.id, n.sort), n.sort)
            if n.id in DOM: DOM[v.id] = DOM[n.id]
            if n.id in BOUNDS: BOUNDS[v.id] = BOUNDS[n.id]
            return v
        st = [a, b, care]; seen = set()
        while st:
            n = st.pop()
            if n.id in seen: continue
            seen.add(n.id)
            if n.id in sh and not isconst(n) and n.op not in ('var', 'lam'):
                if lvl == 1 or n.op not in self.OPEN:
                    if n.sort in ('F', 'I') or n.sort == 'B' and n.op != 'ite' and lvl == 1: m[n.id] = name(n); continue
            if n.op == 'mu' or n.op == 'lam':
                pass
            st.extend(n.args)
        x, y, c = subst([a, b, care], m)
        return x, y, c
