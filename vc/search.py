"""Search for a failing input of a function whose obligation failed, and its confirmation on the real code."""
import math, random, time
from .terms import *
from . import evalx, mpeval
from .evalx import UNDEFV, EvalError
from .samples import sample
import mpmath as mp

def num(v): return isinstance(v, (float, mp.mpf)) and not isinstance(v, bool)
def differ(a, b, tol=1e-9, scale=0.0):
    """do two outputs differ beyond rounding?"""
    if a is UNDEFV or b is UNDEFV: return False
    if num(a) and num(b):
        a, b = mp.mpf(a), mp.mpf(b)
        if mp.isnan(a) or mp.isnan(b): return bool(mp.isnan(a) != mp.isnan(b))
        if mp.isinf(a) or mp.isinf(b): return a != b
        return abs(a - b) > tol * max(abs(a), abs(b), scale)
    return a != b

# a Julian date carries 2.4 million days in front of the time of day: an absolute tolerance (days), a few units in the last place
ABSTOL = {'satellite::ext::jday': 3e-9, 'satellite::ext::jday_datetime': 3e-9,
          'satellite::propogation::gstime::gstime': 1e-7, 'satellite::propogation::gstime::gstime_datetime': 1e-7}       # radians
def absapart(name, a, b):
    d = abs(mp.mpf(a) - mp.mpf(b))
    if 'gstime' in name and all(-1e-7 <= x < 2 * mp.pi + 1e-7 for x in (a, b)): d = min(d, abs(2 * mp.pi - d))
    return d > ABSTOL[name]
def apart(cx, name, a, b, tol=1e-9):
    if name in ABSTOL and num(a) and num(b) and mp.isfinite(a) and mp.isfinite(b): return absapart(name, a, b)
    if isinstance(a, list) and isinstance(b, list):       # the records, field by field
        A, B = {}, {}
        flat_spec(a, cx.p, A, ''); flat_spec(b, cx.p, B, '')
        A, B = ({norm(cx, k): x for k, x in d.items()} for d in (A, B))
        return any(B[k] is not UNDEFV and not inactive(k, B) and (k not in A or differ(A[k], B[k], max(tol, 1e-7), 1e-9)) for k in B)
    return differ(a, b, tol, 1e-12)

def flat_spec(v, p, out, path):
    """a specification value (possibly a list of packs) as printed by the harness"""
    if isinstance(v, list):
        out[path + '.len'] = len(v)
        for i, x in enumerate(v): flat_spec(x, p, out, '%s[%d]' % (path, i))
    elif isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple):
        for k, x in zip(*v): out[path + k] = x
    else: out[path] = v

def real_vs_contract(cx, h, name, env, timeout=5.0, exact=True):
    """run the real function; -> list of (what, real, expected) beyond tolerance"""
    c = cx.c[name]
    if c.requires is not TRUE and evalx.evaluate([c.requires], env)[0] is not True: return []
    pan = c.panics is not FALSE and evalx.evaluate([c.panics], env)[0] is True
    o = h.call(name, env, timeout)
    if isinstance(o, str):
        if o == 'panic' and pan: return []
        if o == 'hang': return [('the call returns', 'no return within %g s' % timeout, 'a result')]
        return [('no panic', o, 'a result')]
    if pan: return [('panics outside its domain', 'returned', 'panic')]
    bad = []
    paths = [q for q in c.outs if q in o]
    vals = evalx.evaluate([c.outs[q] for q in paths] + [c.care.get(q, TRUE) for q in paths], env)
    sus = []
    for q, v, k in zip(paths, vals, vals[len(paths):]):
        if k is True and apart(cx, name, o[q], v): sus.append((q, v))
    seqs = [q for q in c.outs if q + '.len' in o]
    for q in seqs:
        v = evalx.evaluate([c.outs[q]], env)[0]
        exp = {}; flat_spec(v, cx.p, exp, q)
        got = {k: x for k, x in o.items() if k.startswith(q + '.len') or k.startswith(q + '[')}
        km = None; kg, ke = {norm(cx, k): x for k, x in got.items()}, {norm(cx, k): x for k, x in exp.items()}
        for k in ke:
            if ke[k] is UNDEFV or inactive(k, ke): continue
            if k not in kg: bad.append((k, 'absent', str(ke[k]))); break
            if differ(kg[k], ke[k], 1e-7, 1e-9):
                if num(kg[k]) and num(ke[k]):             # the same over the reals: is it rounding?
                    if km is None:
                        w = {}; flat_spec(mpeval.evaluate([c.outs[q]], env)[0], cx.p, w, q); km = {norm(cx, a): x for a, x in w.items()}
                    if rounding(kg[k], ke[k], km.get(k)): continue
                bad.append((k, kg[k], ke[k])); break
    if sus and exact:
        # the same values over the reals: only a difference that is not rounding counts
        mv = mpeval.evaluate([c.outs[q] for q, _ in sus], env)
        pert = []
        rnd = random.Random(5)
        for _ in range(2):
            e2 = {k: (x * (1 + rnd.choice([-1, 1]) * 1e-14) if isinstance(x, float) else x) for k, x in env.items()}
            pert.append(evalx.evaluate([c.outs[q] for q, _ in sus], e2))
        for i, (q, v) in enumerate(sus):
            w = mv[i]
            if not num(w):
                if differ(o[q], w): bad.append((q, o[q], w))
                continue
            if not mp.isfinite(w) and not (isinstance(v, float) and math.isfinite(v)):
                if isinstance(o[q], float) and math.isfinite(o[q]): bad.append((q, o[q], float(w)))
                continue
            if abs(w) > mp.mpf('1e100') and not (isinstance(o[q], float) and math.isfinite(o[q])): continue      # overflow, not a difference over the reals
            if name in ABSTOL and isinstance(o[q], float) and math.isfinite(o[q]):
                if absapart(name, o[q], w): bad.append((q, o[q], float(w)))
                continue
            noise = abs(mp.mpf(v) - w) if isinstance(v, float) and math.isfinite(v) else 0
            for x in pert:
                if isinstance(x[i], float) and math.isfinite(x[i]) and abs(mp.mpf(x[i]) - w) < 1e-3 * max(abs(w), 1): noise = max(noise, abs(mp.mpf(x[i]) - w))
            if isinstance(o[q], float) and not math.isfinite(o[q]): bad.append((q, o[q], float(w))); continue
            if abs(mp.mpf(o[q]) - w) > 1e-9 * max(abs(w), mp.mpf('1e-12')) + 1000 * noise: bad.append((q, o[q], float(w)))
    elif sus:
        bad += [(q, o[q], v) for q, v in sus]
    # frame
    for q in o:
        if q.split('.')[0] in c.params and q not in c.outs and q not in c.havoc and q in env and env[q] is not UNDEFV:
            if differ(o[q], env[q], 0.0): bad.append((q + ' unchanged', o[q], env[q]))
    for label, f in c.ensures:
        e = dict(env); e.update(o)
        node = f({k: var(k, 'F') for k in list(o) + list(env)})
        if evalx.evaluate([node], e)[0] is False and mpeval.evaluate([node], e)[0] is False: bad.append((label, {k: o[k] for k in o if k.startswith('ret')}, True))
    return bad
def rounding(got, v, w):
    """is the difference of the compiled value `got` and the contract's value `v` explained by rounding, w being the exact one?"""
    if not num(w): return False
    if not all(math.isfinite(x) for x in (got, v)) or not mp.isfinite(w): return False
    return abs(mp.mpf(got) - w) <= 1e-9 * max(abs(w), mp.mpf('1e-12')) + 1000 * abs(mp.mpf(v) - w)
def inactive(k, vals):
    """a leaf of an enum variant other than the present one"""
    x = k.split('.')
    for i in range(1, len(x)):
        d = vals.get('.'.join(x[:i]) + '.#')
        if d is not None and d is not UNDEFV and x[i].isdigit() and int(x[i]) != d: return True
    return False
def norm(cx, k):
    """variants by number"""
    if not hasattr(cx, 'variantno'):
        cx.variantno = {v['name']: i for t in cx.p.types.values() if t and t.get('k') == 'adt' and t['kind'] == 'Enum' for i, v in enumerate(t['variants']) if v['fields']}
    return '.'.join(str(cx.variantno[x]) if x in cx.variantno else x for x in k.split('.'))

# ---------------------------------------------------------------- candidate inputs
def boundaries(roots, limit=400):
    """(variable, constant) pairs from comparisons of an input with a constant"""
    out = {}
    for n in postorder(roots):
        if n.op in ('flt', 'fle', 'feq', 'ilt', 'ieq') and len(n.args) == 2:
            vs = [v for v in vars_of([n]) if not v.k.startswith('$')]
            ks = [fval(a) if a.op == 'f' else a.k for a in n.args if a.op in ('f', 'i')]
            for v in vs[:4]:
                for k in ks:
                    out.setdefault(v.k, set()).add(k)
        if len(out) > limit: break
    return out

class Finder:
    def __init__(self, cx, h, name, obs, seed=1, part=None):
        self.part = part; self.first = []; self.last = None; self.before = None
        self.cx = cx; self.h = h; self.name = name; self.obs = obs; self.r = random.Random(seed)
        self.tried = 0; self.runs = 0; self.mismatch = 0
        self.fresh = [v for v in vars_of([x for o in obs for x in (o.code, o.spec, o.care) if x is not None]) if v.k.startswith('$h.')] if obs else []
        self.bounds = boundaries([o.code for o in obs if o.code is not None] + [o.spec for o in obs] + [o.care for o in obs]) if obs else boundaries(list(cx.c[name].outs.values()) + [cx.c[name].panics])
    def candidate(self, i):
        if self.first: self.wild = False; return self.first.pop()      # what the verifier found
        self.wild = False; self.before = None
        if not self.obs and self.last is not None and self.r.random() < 0.4:       # the same again, or nearly: state kept between calls
            self.before, self.last = self.last, self.neighbour(self.last)
            return self.last
        self.last = env = sample(self.cx, self.name, self.r)
        if self.bounds and i % 3 == 2:
            k = self.r.choice(sorted(self.bounds))
            if isinstance(env.get(k), float):
                b = float(self.r.choice(sorted(self.bounds[k], key=float)))
                near = [math.nextafter(b, math.inf), math.nextafter(b, -math.inf)] if b else [1e-12, -1e-12]      # no subnormal numbers
                env[k] = self.r.choice([b] + near + [b * (1 + self.r.uniform(-1e-3, 1e-3))])
            elif isinstance(env.get(k), int) and not isinstance(env.get(k), bool) and not k.endswith('#'):
                env[k] = max(0, int(self.r.choice(sorted(self.bounds[k], key=float))) + self.r.randint(-1, 1))
        self.wild = bool(self.obs) and i % 3 == 1 and self.r.random() < 0.6
        if self.wild:                                 # far from what the function usually sees
            ks = [k for k, x in env.items() if isinstance(x, float)]
            for k in self.r.sample(ks, min(len(ks), self.r.choice([1, 1, 2, 3, 6]))):
                env[k] = self.r.choice([self.r.choice([-1, 1]) * 10 ** self.r.uniform(-3, 5), -env[k], env[k] * self.r.uniform(0, 3), self.r.uniform(-4, 4), 0.0])
        return env
    def neighbour(self, env):
        e = dict(env); r = self.r
        fs = [k for k, x in env.items() if isinstance(x, float)]
        if fs and r.random() < 0.9:
            for k in r.sample(fs, min(len(fs), r.choice([1, 1, 2, len(fs)]))): e[k] = e[k] * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-14, -0.5))
        for k, x in env.items():
            if isinstance(x, bytes) and x and r.random() < 0.7:
                ds = [i for i, c in enumerate(x) if 48 <= c < 58]
                if ds: i = r.choice(ds); e[k] = x[:i] + b'%d' % r.randrange(10) + x[i + 1:]
            elif isinstance(x, dict) and r.random() < 0.8:
                f = r.choice([f for f in ('nanosecond', 'nanosecond', 'second', 'hour', 'day') if f in x] or [None])
                if f: e[k] = dict(x, **{f: r.randrange(1, 28) if f == 'day' else r.randrange(24) if f == 'hour' else r.randrange(60) if f == 'second' else r.randrange(1000000000)})
        return e
    def suspicious(self, env, tol=1e-9):
        """does the extracted code disagree with its contract here?"""
        env = dict(env)
        for v in self.fresh: env[v.k] = self.r.uniform(-1, 1) if v.sort == 'F' else self.r.randrange(4)
        for o in self.obs:
            if o.code is None: return True
            c, s, k = evalx.evaluate([o.code, o.spec, o.care], env)
            if k is not True: continue
            if apart(self.cx, self.name, c, s, tol): return True
        return False
    def find(self, seconds):
        """-> (env, differences) or None"""
        end = time.time() + seconds; i = 0
        while time.time() < end:
            env = self.candidate(i); i += 1; self.tried += 1
            try:
                if self.obs and not self.suspicious(env): continue
                self.runs += 1
                bad = real_vs_contract(self.cx, self.h, self.name, env)
                if self.wild: bad = [b for b in bad if b[0] != 'the call returns']
                if self.part is not None: bad = self.part.relevant(bad)
            except EvalError: continue
            if bad:
                return env, bad
            # the extracted term differs from the contract here, the compiled function does not
            c = self.cx.c[self.name]
            if self.obs and not self.fresh and evalx.evaluate([c.requires], env)[0] is True and self.suspicious(env, 1e-4): self.mismatch += 1
        return None
