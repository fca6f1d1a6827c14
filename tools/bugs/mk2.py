"""mk.py ID : (re)build seeded/ID from BUGS[ID], validate in a scratch copy."""
import os, sys, json, subprocess, shutil
sys.path.insert(0, '/tmp/bugs')
from bugs2 import BUGS, OLD
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the demonstrated input
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$(pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$HERE/main.rs" "$T/src/main.rs" && cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
satellite = { path = "$REPO" }
chrono = "0.4"
[workspace]
EOF
cd "$T" && export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
RUSTFLAGS="-A warnings" cargo build -q --offline || exit 3
timeout 60 "$T/target/debug/demo"
'''
GOLD = DEMO.replace('timeout 60 "$T/target/debug/demo"\n', '''timeout 60 "$T/target/debug/demo" > "$T/out.txt" || exit 1
[ -n "$GOLDEN" ] && { cp "$T/out.txt" "$GOLDEN"; exit 0; }
python3 - "$T/out.txt" "$HERE/expected.txt" <<'EOF'
import sys
a, b = [[l.split() for l in open(f)] for f in sys.argv[1:3]]
def num(x):
    try: return float(x)
    except ValueError: return None
if len(a) != len(b): print('number of results'); sys.exit(1)
for x, y in zip(a, b):
    p, q = num(x[-1]), num(y[-1])
    same = x[:-1] == y[:-1] and (p == q if None in (p, q) else abs(p - q) <= 1e-7 * max(abs(p), abs(q), 1e-9) or (p != p and q != q))
    if not same: print('got', ' '.join(x), 'want', ' '.join(y)); sys.exit(1)
EOF
''')
def sh(c, cwd=None, t=600):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors='replace')
def run(i):
    b = BUGS[i]; d = '/verif/seeded/' + i
    w = '/tmp/bugs/w-' + i
    sh('rm -rf %s; cp -a /repo %s' % (w, w))
    for f, old, new in b['edits']:
        s = open(w + '/' + f).read()
        assert s.count(old) == b.get('count', 1), (i, f, s.count(old), old)
        open(w + '/' + f, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', w)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(GOLD if b.get('golden') else DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(b['demo'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if b.get('golden'): sh('GOLDEN=%s/expected.txt bash %s/demo.sh' % (d, d), '/repo')
    rc1, o1 = sh('cargo test --offline 2>&1 | grep -E "FAILED|^error|panicked at|failed;" | grep -v " 0 failed"', w)
    rc2, o2 = sh('bash %s/demo.sh' % d, '/repo')
    rc3, o3 = sh('bash %s/demo.sh' % d, w)
    print(i, 'tests not ok:', o1.strip()[-600:] or 'none', '| demo clean', rc2, o2[-300:] if rc2 else '', '| demo patched', rc3, o3.strip()[-300:].replace('\n', ' '))
    ok = not o1.strip() and rc2 == 0 and rc3 not in (0, 3)
    print(i, 'VALID' if ok else 'INVALID')
    sh('rm -rf ' + w)
    if not ok: shutil.rmtree(d)
for i in sys.argv[1:] or [i for i in BUGS if i not in OLD]: run(i)
