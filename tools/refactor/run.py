#!/usr/bin/env python3
"""run.py [ID...] : apply behaviour-preserving edits (refs.py) to a scratch copy of /repo, run its tests, run a scratch copy
of these checks against it and report every check that is not quiet."""
import os, sys, subprocess, json, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from refs import REFS
import refs2, refs3
KEEP = '-k' in sys.argv
V = os.path.dirname(os.path.dirname(HERE)); TMP = os.environ.get('REFTMP', '/tmp/ref')
def sh(c, cwd=None, t=1800):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors='replace')
def run(i):
    b = REFS[i]; w = '%s/w-%s' % (TMP, i); v = '%s/v-%s' % (TMP, i)
    sh('rm -rf %s %s; mkdir -p %s; cp -a /repo %s' % (w, v, TMP, w))
    for f, old, new in b['edits']:
        s = open(w + '/' + f).read()
        if s.count(old) < 1: return i, 'BAD EDIT %s: %r' % (f, old[:60])
        open(w + '/' + f, 'w').write(s.replace(old, new))
    rc, o = sh('cargo test --offline 2>&1 | grep -E "FAILED|^error|panicked at|failed;|^ *-->" | grep -v " 0 failed" | head', w)
    if 'error' in o or 'FAILED' in o: return i, 'REFACTORING FAILS: ' + o[:400]
    sh('mkdir %s; cp -a %s/vc %s/check.py %s/dump.sh %s/mirdump %s/properties.jsonl %s/known-findings.txt %s/; mkdir %s/build; cp -a %s/build/mirdump %s/build/dump-target %s/build/; sed -i "s#/repo#%s#" %s/dump.sh %s/vc/harness.py' % ((v,) + (V,) * 6 + (v, v, V, V, v, w, v, v)))
    if KEEP: return i, 'kept in %s %s' % (w, v)
    bad = []
    for p in b['props']:
        rc, o = sh('timeout 900 python3-vt check.py %s quick' % p, v)
        if rc:
            out = [l[:300] for l in o.strip().split('\n')][-6:]
            rp = [x.split('replay=')[1].split()[0] for x in out if 'replay=' in x]
            d = ''
            if rp:
                try: d = open(os.path.join(v, rp[0])).read()[:700]
                except OSError: pass
            bad.append('%s rc=%d %s\n%s' % (p, rc, '\n'.join(out), d))
        else:
            try:
                e = json.load(open(v + '/evidence/%s.json' % p)); q = e.get('bounded') or e.get('coverage', {}).get('bounded')
                if q: bad.append('%s quiet, bounded: %s' % (p, str(q)[:300]))
            except Exception as x: bad.append(p + ' evidence ' + str(x))
    sh('rm -rf %s %s' % (w, v))
    return i, 'QUIET' if not bad else '\n'.join(bad)
if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(REFS)
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(run, ids): print('=== %s: %s' % (i, r), flush=True)
