"""Obligations of single properties that are not an equation with the contract: relational postconditions
(two runs of the same function) and consequences of the results that hold whatever the formulas are."""
import re
from .terms import *
from .oblig import Ob
from .prove import Prover, Fail
from .canon import TooBig
from .spec import *
from .contracts.sgp4 import SCRATCH, SGP4

class Part:
    """the share of a function's contract that a property needs: `only` selects obligations by path,
    `gen(cx, obs, run)` replaces them"""
    def __init__(self, fn, only=None, gen=None): self.fn = fn; self.only = only; self.gen = gen
    def relevant(self, bad):
        if not self.only or self.only == 'no panic': return [b for b in bad if self.only is None or b[0] in ('no panic', 'the call returns')]
        return [b for b in bad if re.match(self.only + r'$', b[0]) or b[0] in ('no panic', 'the call returns')]
    def select(self, cx, obs, run):
        if self.gen: return self.gen(cx, obs, run)
        if self.only: return [o for o in obs if re.match(self.only + r'$', o.kind if self.only == 'no panic' else o.path)]
        return obs

def history(cx, obs, run):
    """two runs whose records differ in what earlier propagations may have left behind (time, error code, and for
    deep-space orbits the scratch coefficients) return the same result"""
    deep = cx.isv('satrec.method', 'InitlMethod', 'D')
    m = {}
    for k in ['t', 'error'] + SCRATCH:
        v = run.leaves.get('satrec.' + k)
        if v is None: continue
        h = var('$h.' + k, v.sort)
        m[v.id] = h if k in ('t', 'error') else ite(deep, h, v)
    out = [o for o in obs if o.kind == 'frame' or o.path in ['satrec.' + k for k in SCRATCH]]
    for path, node in run.outs.items():
        if not path.startswith('ret') or node is UNDEF: continue
        care = And(run.guard, run.cares.get(path, TRUE))
        a, c = subst([node, care], m)
        o = Ob(SGP4, 'same result after other calls', path, node, a, And(care, c)); out.append(o)
    return out

def checked(care):
    """terms that the care condition makes at least 1"""
    out = []
    for n in postorder([care]):
        if n.op == 'flt' and n.args[1].op == 'f' and fval(n.args[1]) >= 1.0 and And(care, n) is FALSE: out.append(n.args[0])
        if n.op == 'fle' and n.args[0].op == 'f' and fval(n.args[0]) >= 1.0 and And(care, Not(n)) is FALSE: out.append(n.args[1])
    return out

def orientation(P, V, radius):
    """P and V with the sines and cosines of the outermost angles of P as sin/cos of variables, and every other
    maximal subterm as a variable -> (P', V', angle variables, {variable: subterm})"""
    def trigs(roots):
        out = {}; seen = set(); st = list(roots)
        while st:
            n = st.pop()
            if n.id in seen: continue
            seen.add(n.id)
            if n is radius: continue
            if n.op in ('sin', 'cos'): out[n.id] = n; continue
            if n.op in ('add', 'sub', 'mul', 'div', 'neg'): st.extend(n.args)
        return out
    tp = trigs(P)
    ang = {}
    m = {}
    for i, n in tp.items():
        a = ang.setdefault(n.args[0].id, var('$A%d' % len(ang)))
        m[i] = fsin(a) if n.op == 'sin' else fcos(a)
    has = {}
    R = postorder(P + V)
    for n in R: has[n.id] = n.id in m or n is not radius and any(has[a.id] for a in n.args if a.id in has)
    cut = {}
    def walk(n, seen):
        if n.id in seen or n.id in m: return
        seen.add(n.id)
        if isconst(n): return
        if not has[n.id] or n.op not in ('add', 'sub', 'mul', 'div', 'neg'):
            cut[n.id] = n; return
        for a in n.args: walk(a, seen)
    s = set()
    for n in P + V: walk(n, s)
    vs = {}
    for i, n in cut.items():
        v = var('$c%d' % len(vs), n.sort); vs[v.id] = n; m[i] = v
    r = subst(P + V, m)
    return r[:3], r[3:], list(ang.values()), vs

def norm_is_checked_radius(care, P, V, RE):
    """the length of P is RE times a value that the care condition makes at least 1"""
    last = Fail('no comparison of the radius with 1 guards the position')
    for m in checked(care):
        p, v, ang, vs = orientation(P, V, m)
        x = [w for w in vars_of(p) if w.id in vs and vs[w.id] is m]
        if not x: continue
        try: return 'cut+' + Prover({}, 20).equal(sum3(p, p), sq(RE * x[0]))
        except (Fail, TooBig) as e: last = e
    raise last if isinstance(last, Fail) else Fail('too big')

def free_of_angles(care, P, V):
    last = Fail('no orientation angles in the position')
    for m in checked(care):
        p, v, ang, vs = orientation(P, V, m)
        if not ang: continue
        b = {a.id: var('$B%d' % i) for i, a in enumerate(ang)}
        try:
            for x in (sum3(p, v), sum3(v, v)): Prover({}, 30).equal(x, subst([x], b)[0])
            return 'cut+ring'
        except TooBig: last = Fail('too big')
        except Fail as e: last = e
    raise last
def sum3(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

def geometry(cx, obs, run):
    P = [run.outs.get('ret.Ok.0.position.' + c) for c in 'xyz']; V = [run.outs.get('ret.Ok.0.velocity.' + c) for c in 'xyz']
    fb = [o for o in obs if re.match(r'ret\.#|ret\.Ok\.0\..*', o.path)]
    out = []
    care = And(run.guard, run.cares.get('ret.Ok.0.position.x', TRUE))
    for label, f in (('the position is at least one radius from the centre', lambda: norm_is_checked_radius(care, P, V, 6378.137)),
                     ('radial speed and speed do not depend on the orientation angles', lambda: free_of_angles(care, P, V))):
        o = Ob(SGP4, 'ensures', label, TRUE, TRUE, care)
        if any(x is None or x is UNDEF for x in P + V): return fb
        o.direct = f; o.fallback = fb
        out.append(o)
    return out

def run_direct(obs):
    """decide the obligations that carry their own argument; those that fail are replaced by their fallback"""
    import time
    rest = []; done = []
    for o in obs:
        f = getattr(o, 'direct', None)
        if f is None: rest.append(o); continue
        t0 = time.time()
        try: o.how = f(); o.ok = True; done.append(o)
        except (Fail, TooBig, KeyError) as e:
            o.why = e if isinstance(e, Fail) else Fail(str(e))
            for q in o.fallback:
                if q not in rest: rest.append(q)
        o.secs = time.time() - t0
    return done, rest
