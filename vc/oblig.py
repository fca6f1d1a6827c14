"""Obligations of one function: what its real body computes against its contract."""
import time, itertools
from .terms import *
from .contract import *
from .prove import *
from .mir import Unsupported

class Ob:
    def __init__(self, fn, kind, path, code, spec, care):
        self.fn = fn; self.kind = kind; self.path = path; self.code = code; self.spec = spec; self.care = care
        self.ok = None; self.how = None; self.why = None; self.secs = 0.0
    @property
    def id(self): return '%s / %s %s' % (self.fn.replace('satellite::', ''), self.kind, self.path)

def obligations(cx, name):
    """-> (list of Ob, Run)"""
    c = cx.c[name]
    p = cx.p
    fn = Fn(p, name, c.params)
    others = {k: v for k, v in cx.c.items() if k != name}
    run = Run(p, fn, others, requires=c.requires)
    obs = []
    care0 = And(run.guard, Not(c.panics))
    if c.panics is not FALSE: obs.append(Ob(name, 'panics exactly when', 'out of domain', run.guard, Not(c.panics), c.requires))
    for q in run.panics:
        cond = q.cond
        if getattr(q, 'entry', None) is not None: cond = And(q.entry, cond)
        if q.kind.startswith('precondition'): kind = 'precondition'
        else: kind = 'no panic'
        obs.append(Ob(name, kind, '%s (%s)' % (q.kind, q.where), cond, FALSE, Not(c.panics)))
    if run.guard is FALSE:
        obs.append(Ob(name, 'returns', '', FALSE, TRUE, TRUE))
        return obs, run
    for path, node in run.outs.items():
        care = And(care0, run.cares.get(path, TRUE), c.care.get(path, TRUE))
        if path in c.havoc: continue
        spec = c.outs.get(path)
        if spec is None:
            if path.split('.')[0] == 'ret':
                if path.endswith('.#') or '.#' not in c.outs: pass
                continue
            spec = run.leaves.get(path)
            if spec is None: continue
            kind = 'frame'
        else: kind = 'ensures'
        if node is UNDEF: node = UND[spec.sort]
        obs.append(Ob(name, kind, path, node, spec, care))
    for path in c.outs:
        if path not in run.outs and '.Ok.' not in path and '.Err.' not in path and '.Some.' not in path:
            obs.append(Ob(name, 'ensures', path, None, c.outs[path], care0))
    for label, f in c.ensures:
        obs.append(Ob(name, 'ensures', label, f(dict(run.leaves, **run.outs)), TRUE, care0))
    return obs, run

def discharge(obs, cx, **kw):
    """prove every obligation; -> statistics"""
    ctr = cx.c[obs[0].fn].centre if obs else {}
    if not ctr: return discharge_(obs, cx, **kw)
    m = {}
    for k, (c, s) in ctr.items():
        v = var(k, 'F'); m[v.id] = F(c) + F(s) * v
    keep = [(o, o.code, o.spec, o.care) for o in obs]
    for o, code, spec, care in keep:
        if code is not None: o.code, o.spec, o.care = subst([code, spec, care], m)
    try: return discharge_(obs, cx, centre=ctr, **kw)
    finally:
        for o, code, spec, care in keep: o.code, o.spec, o.care = code, spec, care

def discharge_(obs, cx, seconds=40, seed=1, nsamples=10, log=None, centre={}, deadline=200):      # after `deadline` seconds nothing further is attempted: what is open then is undischarged
    import random
    from . import evalx
    from .samples import sample
    from .sweep import Sweep
    todo = []
    stats = {'lemmas': 0, 'end': time.time() + deadline}
    evalx.CONTRACTS.clear(); evalx.CONTRACTS.update(cx.c)
    for o in obs:
        t0 = time.time()
        if o.code is None: o.ok = False; o.why = Fail('the code has no such output')
        elif o.code.sort != o.spec.sort: o.ok = False; o.why = Fail('sort')
        elif o.code is o.spec or restrict(o.code, o.care) is restrict(o.spec, o.care): o.ok = True; o.how = 'identity'
        else:
            try: o.how = Prover(cx.c, 1.0).equal(o.code, o.spec, o.care, quick=True); o.ok = True
            except Fail: todo.append(o)
        o.secs = time.time() - t0
    if not todo: return stats
    r = random.Random(seed)
    envs = []
    for _ in range(nsamples * 3):
        try: envs.append(sample(cx, todo[0].fn, r, True))
        except Exception as e:
            if log: log('no samples: %r' % e)
            envs = []; break
    for e in envs:
        for k, (c, w) in centre.items():
            if isinstance(e.get(k), float): e[k] = (e[k] - c) / w
    atoms = split_atoms(todo)
    stats['split'] = [show(a, 3) for a in atoms]
    rest = {id(o): o for o in todo}
    for case in itertools.product((True, False), repeat=len(atoms)):
        m = {a.id: Bc(v) for a, v in zip(atoms, case)}
        t0 = time.time()
        if atoms and impossible(atoms, case): continue
        cur = list(rest.values())
        es = envs
        if atoms and envs:
            ok = [e for e in envs if agree(atoms, case, e)]
            es = ok[:nsamples] if len(ok) >= 3 else more(cx, todo[0].fn, atoms, case, r, nsamples, [x for o in cur for x in (o.code, o.spec)]) or ok
        one_case(cur, m, cx, es[:nsamples], seconds, stats, [(a, v) for a, v in zip(atoms, case)], lambda left: refute(left, cx, seed, centre))
        if log: log('case %s %.1f s' % (case, time.time() - t0))
        for o in cur:
            if not o.ok: rest.pop(id(o))
        if not rest or stats.get('refuted'): break
    return stats

def refute(todo, cx, seed, centre, n=2000, seconds=8):
    """drop the obligations that a sampled input refutes (in high precision): no proof of them is attempted"""
    import random, math
    from . import mpeval
    from .evalx import evaluate, UNDEFV
    from .search import Finder, apart, num
    c = cx.c[todo[0].fn]
    live = [o for o in todo if o.code is not None and not any(v.k.startswith('$') for v in vars_of([o.code, o.spec, o.care]))]
    end = time.time() + seconds; r = random.Random(seed)
    try: F_ = Finder(cx, None, todo[0].fn, live, seed)
    except Exception: return todo
    for i in range(n):
        if not live or time.time() > end: break
        try:
            e0 = F_.candidate(3 * (i // 2) + 2 * (i % 2)); e = dict(e0)
            if evaluate([c.requires], e)[0] is not True: continue
            for k, (x, w) in centre.items():
                if isinstance(e.get(k), float): e[k] = (e[k] - x) / w
            vals = evaluate([t for o in live for t in (o.code, o.spec, o.care)], e)
            for j, o in enumerate(list(live)):
                x, y, k = vals[3 * j:3 * j + 3]
                if k is not True or not apart(cx, todo[0].fn, x, y, 1e-6): continue
                if num(x) and not (math.isfinite(x) and math.isfinite(y)): continue
                X, Y, K = mpeval.evaluate([o.code, o.spec, o.care], e)
                if K is not True or X is UNDEFV or Y is UNDEFV: continue
                if num(X) and not (math.isfinite(X) and math.isfinite(Y)): continue
                if not apart(cx, todo[0].fn, X, Y, 1e-7): continue
                e1 = {q: z * (1 + r.uniform(-1, 1) * 1e-10) if isinstance(z, float) else z for q, z in e.items()}      # not only at a boundary
                if centre: e1 = {q: z + r.uniform(-1, 1) * 1e-10 if isinstance(z, float) else z for q, z in e.items()}
                X, Y, K = mpeval.evaluate([o.code, o.spec, o.care], e1)
                if K is not True or not apart(cx, todo[0].fn, X, Y, 1e-7): continue
                o.ok = False; o.cex = e0
                o.why = Fail('refuted: %s instead of %s' % (show_value(X), show_value(Y)))
                live.remove(o)
        except Exception: continue
    return [o for o in todo if getattr(o, 'cex', None) is None]
def show_value(v):
    try: return '%.12g' % float(v) if not isinstance(v, (bool, int, bytes)) else repr(v)
    except Exception: return str(v)[:60]

def split_atoms(todo, limit=3):
    """conditions that decide many choices on both sides: every obligation is proved separately for each case"""
    def count(roots):
        cnt = {}
        for n in postorder(roots):
            if n.op != 'ite' or n.sort == 'B': continue
            a = n.args[0]
            if not any(x.op == 'var' and x.k.startswith('$') for x in postorder([a])): cnt[a] = cnt.get(a, 0) + 1
        return cnt
    c1, c2 = count([o.code for o in todo]), count([o.spec for o in todo])
    c = sorted((a for a in c1 if a in c2 and min(c1[a], c2[a]) >= 6), key=lambda a: (-min(c1[a], c2[a]), a.id))
    return c[:limit]

def impossible(atoms, case):
    try:
        C = Canon(limit=80); S = SMT(nonlinear=True, timeout=1500)
        return S.check(*[S.tr(C.canon(a)) if v else z3.Not(S.tr(C.canon(a))) for a, v in zip(atoms, case)]) == 'unsat'
    except TooBig: return False

def agree(atoms, case, env):
    from .evalx import evaluate
    try: return [v is True for v in evaluate(atoms, env)] == list(case)
    except Exception: return False

def more(cx, fn, atoms, case, r, k, extra=[]):
    from .samples import sample
    out = []
    for _ in range(400):
        e = sample(cx, fn, r, True)
        if agree(atoms, case, e): out.append(e)
        if len(out) >= k: break
    if len(out) < 3:                # no real input reaches this case in the samples: callees as arbitrary functions
        out = []
        for j in range(6000):
            e = {'$opaque': j}
            for v in vars_of(atoms + extra):
                e[v.k] = (r.choice([r.uniform(0.05, 0.9), r.uniform(0.05, 3.0), r.uniform(-2, 0)]) if v.sort == 'F' else r.randrange(DOM.get(v.id, 3))
                          if v.sort == 'I' else r.random() < 0.5 if v.sort == 'B' else b'')
            if agree(atoms, case, e): out.append(e)
            if len(out) >= k: break
    return out

def one_case(todo, m, cx, envs, seconds, stats, lits, refuter=None):
    from .sweep import Sweep
    t0 = time.time()
    triples = []
    for o in todo: triples += [o.spec, o.care, o.code]
    if m: triples = subst(triples, m)
    work = []
    for i, o in enumerate(todo):
        spec, care, code = triples[3 * i:3 * i + 3]
        if code is spec or restrict(code, care) is restrict(spec, care): o.ok = True; o.how = o.how or 'identity'; continue
        work.append((o, spec, care, code))
    if not work: return
    if len(work) <= 12:                               # few obligations: perhaps they need no lemmas
        t1 = time.time()
        for w in list(work):
            o, spec, care, code = w
            if time.time() - t1 > 3: break
            try: o.how = Prover({}, 0.7, [a if v else Not(a) for a, v in lits if size([a]) <= 12]).equal(code, spec, care); o.ok = True; work.remove(w)
            except (Fail, TooBig): pass
        if not work: return
    sw = Sweep(cx, envs, max(6, min(seconds, 40 - stats.get('sweep_secs', 0))))
    roots = []
    for k in (1, 2, 3): roots += [w[k] for w in work]
    new = sw.run(roots, len(work))
    stats['lemmas'] += len(sw.lemmas); stats['sweep_secs'] = stats.get('sweep_secs', 0) + time.time() - t0
    n = len(work)
    for i, (o, _, _, _) in enumerate(work):
        t0 = time.time()
        if t0 > stats['end'] and getattr(o, 'cex', None) is None: o.ok = False; o.why = Fail('not attempted: out of time'); continue
        spec, care, code = new[i], new[n + i], new[2 * n + i]
        o.swept = (code, spec, care)
        last = None; ok = False
        if getattr(o, 'cex', None) is not None: continue
        if code is spec or restrict(code, care) is restrict(spec, care): ok = True; o.how = 'sweep'
        best = stats.get('level', 1)                  # the one that proved the obligation before
        for nth, lvl in enumerate([best] + [l for l in (1, 2, 3) if l != best]):
            if ok: break
            if nth == 1 and refuter is not None and 'refuted' not in stats:        # look for a counterexample once, before the longer proofs
                left = [w[0] for w in work[i:] if getattr(w[0], 'cex', None) is None]
                stats['refuted'] = len(left) - len(refuter(left))
                if stats['refuted']:                  # decided: nothing more needs a proof
                    for w in left:
                        if getattr(w, 'cex', None) is None: w.ok = False; w.why = Fail('not attempted: another obligation is refuted')
                    return
            if stats.get('failing', 0) > 40: seconds = min(seconds, 1)        # enough time spent on what does not hold
            x, y, c = sw.cut(code, spec, care, lvl) if lvl < 3 else (code, spec, care)
            facts = [a if v else Not(a) for a, v in lits if lvl == 3 or size([a]) <= 12]
            try: o.how = Prover({} if lvl < 3 else cx.c, seconds if lvl == 3 else min(seconds, 6), facts).equal(x, y, c); ok = True; stats['level'] = lvl
            except Fail as f: last = f
            except TooBig: last = Fail('too big')
        if getattr(o, 'cex', None) is not None: continue
        o.ok = ok
        if not ok:
            o.why = last
            o.why.path = lits + list(getattr(last, 'path', None) or [])
            stats['failing'] = stats.get('failing', 0) + time.time() - t0
        o.secs += time.time() - t0

