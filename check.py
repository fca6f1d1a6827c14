#!/usr/bin/env python3-vt
"""check.py PROPERTY quick|thorough : discharge every obligation of the functions a property depends on,
generated from /repo's current source; replay what fails."""
import sys, os, json, time, subprocess, traceback, random, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); os.chdir(HERE)
T0 = time.time()
from vc.mir import Program, Unsupported
from vc import props, evalx
from vc.oblig import obligations, discharge
from vc.special import run_direct
from vc import workers
from vc.terms import *

def describe(o):
    d = {'id': o.id, 'ok': bool(o.ok), 'by': o.how, 'secs': round(o.secs, 2)}
    if not o.ok:
        w = o.why
        d['reason'] = str(w)
        if getattr(o, 'cex', None): d['cex'] = {k: v for k, v in o.cex.items() if not callable(v)}
        if getattr(w, 'path', None): d['case'] = ['%s%s' % ('' if v else 'not ', show(a, 4)) for a, v in w.path][:12]
        if getattr(w, 'x', None) is not None: d['code'] = show(w.x, 5)[:600]; d['contract'] = show(w.y, 5)[:600]
    return d

def prove(job):
    prop, k, mir, tier, seed = job
    part = props.parts(prop)[k]; name = part.fn
    t0 = time.time()
    out = {'fn': name, 'obligations': [], 'unsupported': None}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        cx, problems = props.context(Program(mir))
        if name not in cx.c: raise Unsupported('no contract can be stated (%s)' % problems)
        from vc import prove as P
        obs, run = obligations(cx, name)
        done, obs = run_direct(part.select(cx, obs, run))
        st = discharge(obs, cx, seconds=40 if tier == 'quick' else 90, seed=seed, deadline=200 if tier == 'quick' else 320)
        obs = done + obs
        out.update(obligations=[describe(o) for o in obs], lemmas=st.get('lemmas', 0), models=sorted(run.ex.models),
                   inlined=sorted(run.ex.inlined), callees=sorted(run.ex.used_contracts), smt_calls=P.STATS['smt_calls'],
                   smt_time=round(P.STATS['smt_time'], 2), reachable=run.guard is not FALSE,
                   loops=['%s: %d iterations' % (k[0], n) for k, n in run.ex.unrolled.items()], cut_loops=run.ex.cut)
    except (Unsupported, MemoryError, RecursionError) as e: out['unsupported'] = '%s: %s' % (type(e).__name__, e)
    except Exception: out['unsupported'] = traceback.format_exc()[-1500:]
    out['secs'] = round(time.time() - t0, 2)
    return out

def find(job):
    prop, k, mir, seed, seconds, usecode, cex = job
    part = props.parts(prop)[k]; name = part.fn
    from vc import harness, search
    out = {'fn': name, 'found': None, 'tried': 0, 'runs': 0}
    try:
        p = Program(mir)
        cx, problems = props.context(p)
        evalx.CONTRACTS.clear(); evalx.CONTRACTS.update(cx.c)
        h = harness.attach(p, cx)
        if name not in h.ok: out['error'] = 'not callable from outside: %s' % h.skipped.get(name, 'private'); return out
        obs = []
        if usecode:
            try:
                obs, run = obligations(cx, name)
                _, obs = run_direct(part.select(cx, obs, run))
                obs = [o for o in obs if usecode == '*' or o.id in usecode]
            except Exception: obs = []
        f = search.Finder(cx, h, name, obs, seed, part)
        f.first = list(cex)
        r = f.find(seconds)
        out.update(tried=f.tried, runs=f.runs, mismatch=f.mismatch)
        if r:
            env, bad = r
            out['found'] = {'after': h.encode(name, f.before) if f.before is not None else None, 'input': {k: v.decode(errors='replace') if isinstance(v, bytes) else v for k, v in env.items()}, 'line': h.encode(name, env),
                            'differences': [[str(a), str(b), str(c)] for a, b, c in bad][:20]}
        h.stop()
    except Exception: out['error'] = traceback.format_exc()[-1500:]
    return out

def lemmas(job):
    prop, mir, tier, seed = job
    out = []
    try: cx, problems = props.context(Program(mir))
    except Exception: return [{'id': 'lemmas of ' + prop, 'ok': False, 'by': None, 'secs': 0, 'reason': traceback.format_exc()[-600:]}]
    evalx.CONTRACTS.clear(); evalx.CONTRACTS.update(cx.c)
    for label, f in props.LEMMAS.get(prop, []):
        t0 = time.time(); d = {'id': 'lemma / ' + label, 'ok': False, 'by': None}
        try: d['by'] = f(cx); d['ok'] = True
        except Exception as e: d['reason'] = '%s: %s' % (type(e).__name__, e)
        d['secs'] = round(time.time() - t0, 2)
        out.append(d)
    return out

ASSUME = [
    'f64 arithmetic is treated as exact real arithmetic; constants are compared to a relative 1e-13 (rounding of constant folding)',
    'denominators are non-zero and radicands non-negative wherever the contract formula is defined',
    'the MIR printed by rustc nightly for the crate has the meaning of the MIR that stable rustc compiles',
    'sin, cos, atan2, asin, sqrt, powf, floor, % of std behave as their mathematical definitions',
]

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs('build', exist_ok=True); os.makedirs('evidence', exist_ok=True); os.makedirs('replays', exist_ok=True)
    mir = os.path.join(HERE, 'build', 'mir-%s.json' % prop)
    r = subprocess.run(['bash', os.path.join(HERE, 'dump.sh'), mir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors='replace')[-3000:]); print('cannot extract MIR from /repo'); return 2
    parts = props.parts(prop); fns = [q.fn for q in parts]; idx = {f: k for k, f in enumerate(fns)}
    limit = 330 if tier == 'quick' else 400
    res = [None] * len(parts); lem = []
    for k, v in workers.run([(prove, (prop, k, mir, tier, seed), limit) for k in range(len(parts))] + [(lemmas, (prop, mir, tier, seed), limit)]):
        lost = isinstance(v, workers.Lost)
        if k == len(parts): lem = [{'id': 'lemmas of ' + prop, 'ok': False, 'by': None, 'secs': 0, 'reason': v.why}] if lost else v
        else: res[k] = {'fn': parts[k].fn, 'obligations': [], 'unsupported': v.why, 'secs': 0, 'lost': True} if lost else v
    obs = [o for x in res for o in x['obligations']] + lem
    failed = sorted((o for o in obs if not o['ok']), key=lambda o: 'not attempted' in str(o.get('reason')))
    unsup = [x for x in res if x['unsupported']]
    vac = [x['fn'] for x in res if not x['unsupported'] and (not x['obligations'] or not x['reachable'])]
    cross = {'evaluations': 0, 'functions': 0}
    bounded = []
    viol = None
    # ------------------------------------------------- replay / cross-check
    jobs = {}; cexs = {}
    for x in res:
        bad = [o['id'] for o in x['obligations'] if not o['ok']]
        if bad: jobs[x['fn']] = bad; cexs[x['fn']] = [o.pop('cex') for o in x['obligations'] if 'cex' in o][:20]
        elif x['unsupported']: jobs[x['fn']] = '*' if x.get('lost') else None
    budget = 90 if tier == 'quick' else 240
    if jobs or tier == 'thorough':
        from vc import harness
        try:
            p = Program(mir); cx, _ = props.context(p)
            harness.build(p, [(n, c.params) for n, c in cx.c.items()]); hok = True
        except Exception as e: hok = False; herr = str(e)
        found = {}
        if hok:
            order = sorted(jobs)
            js = [(prop, idx[f], mir, seed + k, budget, jobs[f], cexs.get(f, [])) for f in order for k in range(max(1, 8 // max(1, len(order))))]
            if tier == 'thorough':
                js += [(prop, idx[f], mir, seed, 20, None, []) for f in fns if f not in jobs]
            for k, f in workers.run([(find, j, j[4] + 60) for j in js]):
                if isinstance(f, workers.Lost): f = {'fn': fns[js[k][1]], 'found': None, 'tried': 0, 'runs': 0, 'error': f.why}
                g = found.setdefault(f['fn'], f)
                if g is not f:
                    g['tried'] += f['tried']; g['runs'] += f['runs']; g['mismatch'] = g.get('mismatch', 0) + f.get('mismatch', 0)
                    if f['found'] and not g['found']: g['found'] = f['found']
                if f['found'] and jobs and f['fn'] in jobs: break
        for f in fns:
            g = found.get(f)
            if g: cross['evaluations'] += g['runs']; cross['functions'] += 1
            if g and g['found'] and not viol:
                viol = (f, g['found'])
        if not viol:
            for x in res:
                g = found.get(x['fn'])
                if jobs.get(x['fn']) and jobs[x['fn']] != '*' and g and g.get('mismatch', 0) >= 3:
                    # the extraction misreads this function: its terms are refuted by the compiled code, so they prove and refute nothing
                    x['unsupported'] = 'extracted terms disagree with the compiled function on %d inputs' % g['mismatch']
                    unsup.append(x); failed = [o for o in failed if o['id'] not in jobs[x['fn']]]
        for x in unsup:
            g = found.get(x['fn'])
            if not (g and g['found']):
                bounded.append('%s: the construct is outside the verifier (%s); compared with its contract on %d inputs instead, no difference' % (x['fn'], x['unsupported'][:300], g['runs'] if g else 0))
    wall = round(time.time() - T0, 2)
    lines = []; code = 0; nviol = 0
    known = [l.split(None, 2)[1:] for l in open('known-findings.txt') if l.startswith('finding:')] if os.path.exists('known-findings.txt') else []
    replay = os.path.join('replays', prop + '.json')
    undis = failed
    if viol or undis:
        code = 1; nviol = 1
        rec = {'property': prop, 'failed_obligations': failed, 'verifier_output': [{k: x[k] for k in ('fn', 'unsupported', 'secs')} for x in res],
               'failing_input': None}
        tail = ' no-failing-input-found'
        if viol:
            rec['failing_input'] = {'function': viol[0], **viol[1]}
            rec['reproduce'] = 'build/harness/target/debug/vpharness reads the line and prints what the real function returns'
            tail = ''
        json.dump(rec, open(replay, 'w'), indent=1, default=str)
        for o in failed[:10]: lines.append('undischarged: %s (%s)' % (o['id'], o.get('reason', '')))
        if viol: lines.append('failing input of %s: %s' % (viol[0], viol[1]['differences'][:3]))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, replay, tail))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': wall, 'violations': nviol,
          'coverage': {'obligations': len(obs), 'discharged': sum(1 for o in obs if o['ok']),
                       'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
                       'trusted_base': ['rustc nightly MIR (mirdump)', 'vc/exec.py symbolic execution of MIR', 'vc/canon.py, vc/prove.py, vc/sweep.py', 'z3 (python bindings)', 'models of: ' + ', '.join(sorted({m for x in res for m in x.get('models', [])}))],
                       'by_back_end': {k: sum(1 for o in obs if o['ok'] and o['by'] == k) for k in sorted({str(o['by']) for o in obs if o['ok']})},
                       'functions': [{'fn': x['fn'], 'obligations': len(x['obligations']), 'discharged': sum(1 for o in x['obligations'] if o['ok']), 'secs': x['secs'],
                                      'smt_calls': x.get('smt_calls'), 'smt_time': x.get('smt_time'), 'lemmas': x.get('lemmas'), 'callees_by_contract': x.get('callees'),
                                      'helpers_executed': [i for i in x.get('inlined', []) if i != x['fn']], 'loops_unrolled': x.get('loops'), 'loops_summarised': x.get('cut_loops'), 'reachable': x.get('reachable')} for x in res],
                       'solver_time_s': round(sum(x.get('smt_time') or 0 for x in res), 2),
                       'lemmas': [{k: l[k] for k in ('id', 'ok', 'by', 'secs')} for l in lem],
                       'bounded_not_proved': bounded, 'vacuous': vac,
                       'cross_check_against_compiled_code': cross,
                       'undischarged': failed[:20]},
          'assumptions': ASSUME}
    json.dump(ev, open('evidence/%s.json' % prop, 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d functions, %.1f s' % (prop, tier, len(obs), ev['coverage']['discharged'], len(fns), wall))
    for b in bounded: print('BOUNDED ' + b)
    for l in lines: print(l)
    try: os.remove(mir)
    except OSError: pass
    return code

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); sys.exit(2)
