"""The real functions of /repo, callable from here: a generated Rust program (path dependency on /repo)
reads leaf values of the parameters, calls the function and prints the leaves of its results. It is
used to replay counterexamples and to cross-check the terms extracted from MIR; never for proof."""
import os, re, subprocess, struct, select, shutil, signal, time
from .terms import *
from .mir import *
from .contract import Fn, is_str, is_opaque, is_vec, is_box
from .evalx import UNDEFV

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(V, 'build', 'harness')

RT = r'''
#![allow(warnings)]
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
struct R<'a> { it: std::str::Split<'a, char> }
impl<'a> R<'a> {
    fn s(&mut self) -> &'a str { self.it.next().unwrap_or("") }
    fn f(&mut self) -> f64 { f64::from_bits(u64::from_str_radix(self.s(), 16).unwrap_or(0)) }
    fn i(&mut self) -> i128 { self.s().parse::<i128>().unwrap_or(0) }
    fn st(&mut self) -> String { unhex(self.s()) }
}
fn unhex(h: &str) -> String {
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap_or_default()
}
fn hx(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
type O = Vec<String>;
fn pf(o: &mut O, p: &str, v: f64) { o.push(format!("{}=f{:016x}", p, v.to_bits())) }
fn pi(o: &mut O, p: &str, v: i128) { o.push(format!("{}=i{}", p, v)) }
fn ps(o: &mut O, p: &str, v: &str) { o.push(format!("{}=s{}", p, hx(v))) }
'''
MAIN = r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = io::stdin(); let out = io::stdout();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        let mut r = R { it: line.split('\t') };
        let f = r.s().to_string();
        let mut o: O = vec![];
        let ok = catch_unwind(AssertUnwindSafe(|| call(&f, &mut r, &mut o)));
        let mut w = out.lock();
        if ok.is_err() { writeln!(w, "PANIC").unwrap(); } else { writeln!(w, "OK\t{}", o.join("\t")).unwrap(); }
        w.flush().unwrap();
    }
}
'''

class NoHarness(Exception): pass

def rty(p, ty):
    t = p.types[ty]; k = t['k']
    if k in ('float', 'int', 'uint', 'bool', 'char'): return t['name'] if 'name' in t else {'bool': 'bool', 'char': 'char'}[k]
    if k == 'str': return 'str'
    if k == 'ref': return ('&mut ' if t['mut'] else '&') + rty(p, t['to'])
    if k == 'tuple': return '(%s)' % ''.join(rty(p, e) + ', ' for e in t['elems'])
    if k == 'array': return '[%s; %d]' % (rty(p, t['elem']), t['len'])
    if k == 'adt':
        n = t['def']
        a = [rty(p, x) for x in t['args'] if isinstance(x, int) and p.types[x]['k'] not in ('region',) and not (p.types[x].get('name', '').endswith('alloc::Global'))]
        if is_opaque(p, ty): return 'chrono::DateTime<chrono::Utc>'
        return n + ('<%s>' % ', '.join(a) if a else '')
    raise NoHarness('type %s' % t)

class Gen:
    def __init__(self, p): self.p = p; self.out = []; self.done = set()
    def rd(self, ty):
        """emit a reader; -> function name"""
        nm = 'rd_%d' % ty
        if nm in self.done: return nm
        self.done.add(nm)
        p = self.p; t = p.types[ty]; k = t['k']
        T = rty(p, ty)
        if k == 'float': b = 'r.f() as ' + T
        elif k in ('int', 'uint'): b = 'r.i() as ' + T
        elif k == 'bool': b = 'r.i() != 0'
        elif k == 'char': b = 'char::from_u32(r.i() as u32).unwrap_or(\' \')'
        elif is_str(p, ty):
            if k == 'ref': T = '&\'static str'; b = 'Box::leak(r.st().into_boxed_str())'
            else: b = 'r.st()'
        elif is_opaque(p, ty):
            b = '''{ use chrono::prelude::*; let v: Vec<i128> = (0..7).map(|_| r.i()).collect();
  chrono::DateTime::<chrono::Utc>::from_naive_utc_and_offset(chrono::NaiveDate::from_ymd_opt(v[0] as i32, v[1] as u32, v[2] as u32).unwrap().and_hms_nano_opt(v[3] as u32, v[4] as u32, v[5] as u32, v[6] as u32).unwrap(), chrono::Utc) }'''
        elif k == 'adt' and t['kind'] == 'Struct':
            fs = t['variants'][0]['fields']
            b = '{ ' + ''.join('let f%d = %s(r); ' % (i, self.rd(f[1])) for i, f in enumerate(fs))
            b += '%s { %s } }' % (t['def'], ', '.join('%s: f%d' % (f[0], i) for i, f in enumerate(fs)))
        elif k == 'tuple':
            b = '(%s)' % ''.join('%s(r), ' % self.rd(e) for e in t['elems'])
        elif k == 'adt' and t['kind'] == 'Enum':
            b = '{ let d = r.i(); '
            for i, v in enumerate(t['variants']):
                b += ''.join('let v%d_%s = %s(r); ' % (i, f[0], self.rd(f[1])) for f in v['fields'])
            b += 'match d { '
            for i, v in enumerate(t['variants']):
                pat = str(i) if i < len(t['variants']) - 1 else '_'
                c = '%s::%s' % (t['def'], v['name'])
                if v['fields']:
                    if v['fields'][0][0].isdigit(): c += '(%s)' % ', '.join('v%d_%s' % (i, f[0]) for f in v['fields'])
                    else: c += ' { %s }' % ', '.join('%s: v%d_%s' % (f[0], i, f[0]) for f in v['fields'])
                b += '%s => %s, ' % (pat, c)
            b += '} }'
        else: raise NoHarness('cannot read %s' % T)
        self.out.append('fn %s(r: &mut R) -> %s { %s }' % (nm, T, b))
        return nm
    def pr(self, ty):
        nm = 'pr_%d' % ty
        if nm in self.done: return nm
        self.done.add(nm)
        p = self.p; t = p.types[ty]; k = t['k']
        T = rty(p, ty)
        if k == 'float': b = 'pf(o, p, *v as f64);'
        elif k in ('int', 'uint', 'char'): b = 'pi(o, p, *v as i128);'
        elif k == 'bool': b = 'pi(o, p, if *v { 1 } else { 0 });'
        elif is_str(p, ty): b = 'ps(o, p, &v[..]);'
        elif is_opaque(p, ty): b = ''
        elif is_vec(p, ty):
            e = t['args'][0]
            b = 'pi(o, &format!("{}.len", p), v.len() as i128); for (i, x) in v.iter().enumerate() { %s(o, &format!("{}[{}]", p, i), x); }' % self.pr(e)
        elif is_box(p, ty): b = '%s(o, p, &**v);' % self.pr(t['args'][0])
        elif k == 'ref': b = '%s(o, p, &**v);' % self.pr(t['to'])
        elif k == 'tuple': b = ' '.join('%s(o, &format!("{}.%d", p), &v.%d);' % (self.pr(e), i, i) for i, e in enumerate(t['elems']))
        elif k == 'adt' and t['kind'] == 'Struct':
            b = ' '.join('%s(o, &format!("{}.%s", p), &v.%s);' % (self.pr(f[1]), f[0], f[0]) for f in t['variants'][0]['fields'])
        elif k == 'adt' and t['kind'] == 'Enum':
            b = 'match v { '
            for i, v in enumerate(t['variants']):
                fs = v['fields']
                pos = bool(fs) and fs[0][0].isdigit()
                pat = '%s::%s' % (t['def'], v['name'])
                if fs: pat += '(%s)' % ', '.join('x' + f[0] for f in fs) if pos else ' { %s }' % ', '.join('%s: x%s' % (f[0], f[0]) for f in fs)
                b += '%s => { pi(o, &format!("{}.#", p), %d); %s } ' % (pat, i, ' '.join('%s(o, &format!("{}.%s.%s", p), x%s);' % (self.pr(f[1]), v['name'], f[0], f[0]) for f in fs))
            b += '}'
        else: raise NoHarness('cannot print %s' % T)
        self.out.append('fn %s(o: &mut O, p: &str, v: &%s) { %s }' % (nm, T, b))
        return nm

def generate(p, fns):
    """fns: [(name, param names)] -> (source, list of functions covered, {name: reason})"""
    g = Gen(p); arms = []; ok = []; skipped = {}
    for name, pn in fns:
        try:
            fn = Fn(p, name, pn)
            if not p.roots.get(name, {}).get('pub', True): raise NoHarness('private')
            save = (list(g.out), set(g.done))
            lets, args, prs = '', [], ''
            for i, (n, t) in enumerate(zip(pn, fn.ptys)):
                ty = p.types[t]
                if ty['k'] == 'ref' and not is_str(p, t):
                    lets += 'let mut a%d = %s(r); ' % (i, g.rd(ty['to']))
                    args.append(('&mut a%d' if ty['mut'] else '&a%d') % i)
                    if ty['mut']: prs += '%s(o, "%s", &a%d); ' % (g.pr(ty['to']), n, i)
                else:
                    lets += 'let a%d = %s(r); ' % (i, g.rd(t)); args.append('a%d' % i)
            arms.append('"%s" => { %slet v = %s(%s); %s(o, "ret", &v); %s}' % (name, lets, name, ', '.join(args), g.pr(fn.rty), prs))
            ok.append(name)
        except (NoHarness, Unsupported, KeyError) as e:
            skipped[name] = str(e)
            try: g.out, g.done = save
            except UnboundLocalError: pass
    src = RT + '\n'.join(g.out) + '\nfn call(f: &str, r: &mut R, o: &mut O) { match f {\n' + '\n'.join(arms) + '\n_ => {} } }\n' + MAIN
    return src, ok, skipped

PRIVATE = {'satellite::io::columns', 'satellite::io::parse_float', 'satellite::io::parse_int', 'satellite::doppler_factor::sign'}

def build(p, fns, repo='/repo'):
    src, ok, skipped = generate(p, [f for f in fns if f[0] not in PRIVATE])
    os.makedirs(os.path.join(DIR, 'src'), exist_ok=True)
    open(os.path.join(DIR, 'Cargo.toml'), 'w').write('''[package]
name = "vpharness"
version = "0.1.0"
edition = "2018"
[dependencies]
satellite = { path = "%s" }
chrono = "0.4"
[profile.dev]
opt-level = 1
debug = false
[workspace]
''' % repo)
    open(os.path.join(DIR, 'src', 'main.rs'), 'w').write(src)
    shutil.copyfile(os.path.join(repo, 'Cargo.lock'), os.path.join(DIR, 'Cargo.lock'))
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER'): env.pop(k, None)
    td = os.path.join(DIR, 'target')
    for d in ('debug/.fingerprint', 'debug/incremental'):
        q = os.path.join(td, d)
        if os.path.isdir(q):
            for n in os.listdir(q):
                if n.startswith('satellite'): shutil.rmtree(os.path.join(q, n), ignore_errors=True)
    r = subprocess.run(['cargo', 'build', '-q', '--offline', '--target-dir', td], cwd=DIR, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode != 0: raise NoHarness('harness does not build: ' + r.stdout.decode(errors='replace')[-1500:])
    return Harness(p, os.path.join(td, 'debug', 'vpharness'), dict(fns), set(ok), skipped)

def fx(v): return '%016x' % struct.unpack('>Q', struct.pack('>d', v))[0]

class Harness:
    def __init__(self, p, exe, params, ok, skipped):
        self.p = p; self.exe = exe; self.params = params; self.ok = ok; self.skipped = skipped; self.proc = None
        self.calls = 0; self._order = {}
    def order(self, name):
        if name not in self._order:
            from .contract import build as bld
            fn = Fn(self.p, name, self.params[name]); l = []
            def leaf(path, sort, ty): l.append((path, sort)); return None
            class D:                              # build() wants nodes for enum discriminants only
                pass
            def lf(path, sort, ty):
                l.append((path, sort)); return var('$x', sort)
            for n, t in zip(fn.pnames, fn.ptys): bld(self.p, t, n, lf, lambda v: v)
            self._order[name] = l
        return self._order[name]
    def encode(self, name, env):
        out = [name]
        for path, sort in self.order(name):
            v = env.get(path)
            if sort == 'F': out.append(fx(0.0 if v is None or v is UNDEFV else float(v)))
            elif sort == 'I': out.append(str(0 if v is None or v is UNDEFV else int(v)))
            elif sort == 'B': out.append('1' if v is True else '0')
            elif sort == 'S': out.append('' if not isinstance(v, bytes) else v.hex())
            elif sort == 'X': out += [str(int((v or {}).get(k, 1))) for k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'nanosecond')]
            else: out.append('')
        return '\t'.join(out)
    def start(self):
        self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''
    def stop(self):
        if self.proc:
            try: self.proc.kill(); self.proc.wait()
            except OSError: pass
            self.proc = None
    def call_line(self, line, timeout=5.0):
        """-> dict of outputs, 'panic', 'hang' or 'crash'"""
        if self.proc is None: self.start()
        self.calls += 1
        try: self.proc.stdin.write(line.encode() + b'\n')
        except (BrokenPipeError, OSError): self.stop(); return 'crash'
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            r, _, _ = select.select([self.proc.stdout], [], [], max(0, left))
            if not r: self.stop(); return 'hang'
            d = os.read(self.proc.stdout.fileno(), 1 << 20)
            if not d: self.stop(); return 'crash'
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        l = l.decode()
        if l == 'PANIC': return 'panic'
        out = {}
        for kv in l.split('\t')[1:]:
            if '=' not in kv: continue
            k, v = kv.split('=', 1)
            out[k] = struct.unpack('>d', bytes.fromhex(v[1:]))[0] if v[0] == 'f' else int(v[1:]) if v[0] == 'i' else bytes.fromhex(v[1:])
        return out
    def call(self, name, env, timeout=5.0): return self.call_line(self.encode(name, env), timeout)

def attach(p, cx):
    """the harness built earlier in this run"""
    fns = [(n, c.params) for n, c in cx.c.items()]
    src, ok, skipped = generate(p, [f for f in fns if f[0] not in PRIVATE])
    return Harness(p, os.path.join(DIR, 'target', 'debug', 'vpharness'), dict(fns), set(ok), skipped)
