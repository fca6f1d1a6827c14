#!/usr/bin/env python3-vt
"""Mutation test of the verifier itself: mutate the extracted MIR of one function, discharge its obligations, and
where everything is still discharged compare code and contract terms on sampled inputs. A difference there is an unsoundness.
usage: run.py MIR.json N SEED [function-suffix ...]"""
import sys, os, json, random, struct, copy, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, HERE); os.chdir(HERE)
from vc.mir import Program, Unsupported
from vc import props, evalx, workers, search
from vc.oblig import obligations, discharge
from vc.terms import *

CMP = ['Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne']
def sites(body, types):
    out = []
    B = body['body']
    import re
    named = {int(m.group(1)) for v in B['names'].values() for m in [re.match(r'Place\(_(\d+)\)$', str(v))] if m}
    f64 = lambda t: types[t].get('k') == 'float' or types[t].get('name') == 'f64'
    def operand(o, desc):
        if not isinstance(o, dict): return
        for kind in ('Copy', 'Move'):
            if kind in o and not o[kind]['projection']:
                l = o[kind]['local']; t = B['locals'][l]
                others = [j for j, u in enumerate(B['locals']) if u == t and j != l and j != 0 and j in named]
                if others: out.append(('local', desc, o[kind], others))
        if 'Constant' in o:
            i = str(o['Constant']['const_']['id']); c = B['consts'].get(i)
            if c and 'alloc' in c and not c['alloc'].get('prov') and len(c['alloc']['bytes']) in (1, 4, 8): out.append(('const', desc, o, c, B))
    def walk(x, desc):
        if isinstance(x, dict):
            if set(x) & {'Copy', 'Move', 'Constant'}: operand(x, desc); return
            for k, v in x.items():
                if k == 'BinaryOp' or k == 'CheckedBinaryOp': out.append(('op', desc, v))
                walk(v, desc)
        elif isinstance(x, list):
            for v in x: walk(v, desc)
    for bi, b in enumerate(B['blocks']):
        for si, s in enumerate(b['statements']):
            k = s['kind']
            if isinstance(k, dict) and 'Assign' in k:
                walk(k['Assign'][1], 'bb%d[%d]' % (bi, si))
                if not k['Assign'][0]['projection'] or True: out.append(('drop', 'bb%d[%d]' % (bi, si), b['statements'], si))
        t = b['terminator']['kind']
        if isinstance(t, dict):
            if 'SwitchInt' in t: out.append(('switch', 'bb%d' % bi, t['SwitchInt']['targets']))
            if 'Call' in t:
                for a in t['Call']['args']: operand(a, 'bb%d call' % bi)
                if len(t['Call']['args']) >= 2: out.append(('swapargs', 'bb%d call' % bi, t['Call']['args']))
    return out

def mutate(d, key, r, types):
    ss = sites(d['bodies'][key], types)
    kinds = sorted({s[0] for s in ss})
    for _ in range(50):
        kind = r.choice(kinds); s = r.choice([x for x in ss if x[0] == kind])
        if kind == 'op':
            v = s[2]; op = v[0]
            if op in CMP: new = r.choice([c for c in CMP if c != op])
            else:
                base = ['Add', 'Sub', 'Mul', 'Div']
                if op not in base: continue
                new = r.choice([c for c in base if c != op])
            v[0] = new; return '%s: %s -> %s' % (s[1], op, new)
        if kind == 'const':
            c = s[3]; bs = c['alloc']['bytes']
            if any(b is None for b in bs): continue
            n = len(bs); nb = None
            if n == 8 and types[c['ty']].get('name', types[c['ty']].get('k')) not in ('usize', 'i64', 'u64', 'isize') and 'int' not in str(types[c['ty']].get('k', '')).lower():
                v = struct.unpack('<d', bytes(bs))[0]; w = r.choice([v * 1.001, -v, v + 1, v * (1 + 1e-6)])
                if w == v: continue
                nb = list(struct.pack('<d', w)); what = '%r -> %r' % (v, w)
            else:
                v = int.from_bytes(bytes(bs), 'little'); w = v + r.choice([-1, 1])
                if n == 1 and v in (0, 1): w = 1 - v
                if w < 0: continue
                nb = list(w.to_bytes(n, 'little')); what = '%d -> %d' % (v, w)
            B = s[4]; new = str(max(int(i) for i in B['consts']) + 1000)
            nc = copy.deepcopy(c); nc['alloc']['bytes'] = nb; B['consts'][new] = nc
            s[2]['Constant']['const_']['id'] = int(new)
            try: s[2]['Constant']['const_']['kind']['Allocated']['bytes'] = nb
            except Exception: pass
            return '%s: const %s' % (s[1], what)
        if kind == 'local':
            o = s[2]; old = o['local']; o['local'] = r.choice(s[3]); return '%s: _%d -> _%d' % (s[1], old, o['local'])
        if kind == 'drop':
            x = s[2][s[3]]; del s[2][s[3]]; return '%s: dropped %s' % (s[1], json.dumps(x)[:80])
        if kind == 'switch':
            t = s[2]
            if not t['branches']: continue
            k = r.randrange(len(t['branches'])); t['branches'][k][1], t['otherwise'] = t['otherwise'], t['branches'][k][1]
            return '%s: switch targets swapped' % s[1]
        if kind == 'swapargs':
            a = s[2]; i, j = r.sample(range(len(a)), 2); a[i], a[j] = a[j], a[i]; return '%s: args %d,%d' % (s[1], i, j)
    return None

def job(a):
    mir, name, seed, what = a
    t0 = time.time()
    import resource; resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    try:
        p = Program(mir); cx, pr = props.context(p)
        evalx.CONTRACTS.clear(); evalx.CONTRACTS.update(cx.c)
        r = random.Random(seed)
        key = p.byname[name]
        desc = mutate(p.d, key, r, p.types)
        if desc is None: return name, seed, 'none', '', 0
        try: obs, run = obligations(cx, name)
        except (Unsupported, MemoryError, RecursionError) as e: return name, seed, 'unsupported', desc + ' | ' + str(e)[:80], time.time() - t0
        except Exception: return name, seed, 'crash', desc + ' | ' + traceback.format_exc()[-300:], time.time() - t0
        # does the mutated term differ from the contract on a sample?
        F = search.Finder(cx, None, name, obs, seed)
        diff = None; n = 0
        end = time.time() + 15
        for i in range(600):
            if time.time() > end: break
            try:
                env = F.candidate(i)
                c = cx.c[name]
                if evalx.evaluate([c.requires], env)[0] is not True: continue
                n += 1
                e = dict(env)
                for v in F.fresh: e[v.k] = r.uniform(-1, 1) if v.sort == 'F' else r.randrange(4)
                for o in obs:
                    if o.code is None: diff = o.id; break
                    x, s, k = evalx.evaluate([o.code, o.spec, o.care], e)
                    if k is True and search.differ(x, s, 1e-7, 1e-9): diff = '%s: %r vs %r' % (o.id, x, s); break
                if diff: break
            except evalx.EvalError: continue
        # discharge only what the samples show different first
        sel = [o for o in obs if diff and diff.startswith(o.id)] or obs
        st = discharge(sel, cx, seconds=8, seed=1)
        ok = all(o.ok for o in sel)
        if ok and diff: return name, seed, 'UNSOUND', desc + ' | ' + diff[:200] + ' | by ' + str({o.how for o in sel}), time.time() - t0
        if ok: return name, seed, 'survived', desc + ' (%d samples)' % n, time.time() - t0
        return name, seed, 'killed' if diff else 'killed-nosample', desc, time.time() - t0
    except Exception: return name, seed, 'crash', traceback.format_exc()[-500:], time.time() - t0

def main():
    mir, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    cx, _ = props.context(Program(mir))
    names = [k for k in cx.c if k in cx.p.byname and (not sys.argv[4:] or any(k.endswith(s) for s in sys.argv[4:]))]
    jobs = [(job, (mir, k, seed * 100000 + i, None), 120) for i in range(n) for k in names]
    tot = {}
    for k, v in workers.run(jobs):
        if isinstance(v, workers.Lost): v = (jobs[k][1][1], jobs[k][1][2], 'lost', v.why, 0)
        tot.setdefault(v[2], 0); tot[v[2]] += 1
        if v[2] not in ('killed', 'none', 'unsupported'): print(v[2], v[0].split('::')[-1], v[1], v[3][:400], '%.0fs' % v[4], flush=True)
    print(tot)
if __name__ == '__main__': main()
