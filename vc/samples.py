"""Concrete inputs: leaf values for the parameters of a function."""
import math, random
from .evalx import evaluate, UNDEFV, EvalError
from .contracts.sgp4 import *

def elements(r, kind=None):
    """orbital elements of a plausible satellite: -> dict of sgp4init options"""
    kind = kind or r.choice(['leo', 'leo', 'low', 'meo', 'deep', 'day', 'half', 'gto', 'polar', 'retro'])
    e, n = r.uniform(1e-5, 0.02), r.uniform(0.055, 0.068)
    if kind == 'low': e, n = r.uniform(0.0, 0.03), r.uniform(0.066, 0.0715)
    if kind == 'meo': e, n = r.uniform(1e-4, 0.3), r.uniform(0.029, 0.05)
    if kind == 'deep': e, n = r.uniform(1e-4, 0.6), r.uniform(0.006, 0.02)
    if kind == 'day': e, n = r.choice([r.uniform(0, 0.01), r.uniform(0, 0.3)]), r.uniform(0.0043, 0.00445)
    if kind == 'half': e, n = r.choice([r.uniform(0.5, 0.75), r.uniform(0.62, 0.68), r.uniform(0.69, 0.73)]), r.uniform(0.0084, 0.0090)
    if kind == 'gto': e, n = r.uniform(0.6, 0.75), r.uniform(0.0095, 0.013)
    inc = r.uniform(0.01, 3.1)
    if kind == 'polar': inc = r.uniform(1.5, 1.75)
    if kind == 'retro': inc = r.uniform(2.5, 3.14159)
    if r.random() < 0.2: inc = r.uniform(0.0, 0.3)
    if r.random() < 0.08: inc = abs(r.choice([PI, PI, 0.0]) - 10 ** r.uniform(-6, -1.5))
    return dict(xecco=e, xno=n, xinclo=inc, xargpo=r.uniform(0, TWOPI), xmo=r.uniform(0, TWOPI), xnodeo=r.uniform(0, TWOPI),
                xbstar=r.choice([1, 1, 1, -1]) * 10 ** r.uniform(-6, -3), epoch=r.choice([r.uniform(8000, 28000), r.uniform(2600, 39000)]))

def leaf_default(r, path, sort, cx=None):
    k = path.split('.')[-1]
    if sort == 'F': return r.choice([r.uniform(-3, 3), r.uniform(0.01, 1)])
    if sort == 'I': return r.choice([0, 1, 2, 3])
    if sort == 'B': return r.random() < 0.5
    if sort == 'S': return b'00005'
    return None

def init_leaves(cx, r, kind=None):
    env = {}
    for p, v in cx.leafpaths(INIT, ['satrec', 'options']).items():
        env[p] = enumv(r, v) if p.endswith('.#') else (0.0 if v.sort == 'F' else 0 if v.sort == 'I' else leaf_default(r, p, v.sort))
    for k, x in elements(r, kind).items(): env['options.' + k] = x
    env['satrec.jdsatepoch'] = env['options.epoch'] + 2433281.5
    return env
def enumv(r, v):
    from .terms import DOM
    return r.randrange(DOM.get(v.id, 2))

def satrec_leaves(cx, r, kind=None):
    env = init_leaves(cx, r, kind)
    c = cx.c[INIT]
    ps = [p for p in c.outs if p.startswith('satrec.')]
    vals = evaluate([c.outs[p] for p in ps], env)
    out = {p: v for p, v in env.items() if p.startswith('satrec.')}
    for p, v in zip(ps, vals):
        out[p] = v if v is not UNDEFV else r.uniform(-1, 1)
    return out

def dspace_leaves(cx, r):
    s = satrec_leaves(cx, r, r.choice(['day', 'half', 'half', 'day', 'deep', 'gto']))
    env = {}
    for p, v in cx.leafpaths(DSPACE, ['options']).items():
        env[p] = s.get('satrec.' + p.split('.')[1], r.uniform(-1, 1))
    t = r.choice([r.uniform(-1, 1) * 10 ** r.uniform(0, 4), r.uniform(0, 720), r.choice([-720.0, 720.0, 0.0, 1440.0])])
    env.update({'options.t': t, 'options.tc': t, 'options.em': s['satrec.ecco'], 'options.argpm': s['satrec.argpo'] + r.uniform(-1, 1),
                'options.inclm': s['satrec.inclo'], 'options.mm': r.uniform(-5, 5), 'options.nodem': r.uniform(0, 6), 'options.nm': s['satrec.no']})
    if r.random() < 0.4:
        k = r.randrange(-8, 9)
        env.update({'options.atime': 720.0 * k, 'options.xli': r.uniform(0, 6), 'options.xni': s['satrec.no'] * r.uniform(0.99, 1.01)})
    return env

def dscom_leaves(cx, r):
    e = elements(r)
    return {'options.epoch': e['epoch'], 'options.ep': e['xecco'], 'options.argpp': e['xargpo'], 'options.tc': r.choice([0.0, r.uniform(-5000, 5000)]),
            'options.inclp': e['xinclo'], 'options.nodep': e['xnodeo'], 'options.np': e['xno']}
def dsinit_leaves(cx, r):
    e = elements(r, r.choice(['day', 'half', 'half', 'deep', 'gto', 'day']))
    env = {'options.epoch': e['epoch'], 'options.ep': e['xecco'], 'options.argpp': e['xargpo'], 'options.tc': 0.0,
           'options.inclp': e['xinclo'], 'options.nodep': e['xnodeo'], 'options.np': e['xno']}
    c = cx.c[DSCOM]; ps = list(c.outs); vals = dict(zip(ps, evaluate([c.outs[p] for p in ps], env)))
    out = {}
    for p, v in cx.leafpaths(DSINIT, ['options']).items():
        k = p.split('.')[1]
        out[p] = vals.get('ret.' + k, r.uniform(-1, 1))
    out.update({'options.ecco': e['xecco'], 'options.eccsq': e['xecco'] ** 2, 'options.em': e['xecco'], 'options.emsq': e['xecco'] ** 2, 'options.inclm': e['xinclo'],
                'options.argpo': e['xargpo'], 'options.mo': e['xmo'], 'options.nodeo': e['xnodeo'], 'options.no': e['xno'], 'options.nm': e['xno'],
                'options.gsto': r.uniform(0, 6.2), 't': 0.0, 'options.mdot': e['xno'], 'options.tc': r.choice([0.0, r.uniform(-100, 100)])})
    out['options.t'] = r.choice([0.0, r.uniform(-1000, 1000)])
    if r.random() < 0.1: out['options.sinim'] = 0.0
    return out

def dpper_leaves(cx, r):
    s = satrec_leaves(cx, r, r.choice(['day', 'half', 'deep', 'gto']))
    t = r.uniform(-10000, 10000)
    s['satrec.t'] = t
    inc = s['satrec.inclo'] if r.random() < 0.6 else r.uniform(0.0, 0.4)
    s.update({'options.inclo': s['satrec.inclo'], 'options.init.#': r.randrange(2), 'options.ep': s['satrec.ecco'], 'options.inclp': inc,
              'options.nodep': r.uniform(-7, 7), 'options.argpp': r.uniform(-7, 7), 'options.mp': r.uniform(-7, 7), 'options.opsmode.#': r.randrange(2)})
    for k in ('peo', 'pinco', 'plo', 'pgho', 'pho'): s['satrec.' + k] = r.choice([0.0, r.uniform(-1e-3, 1e-3)])
    return s

def tsince(r):
    return r.choice([r.uniform(-1440, 1440), r.uniform(-20000, 20000), 0.0, r.uniform(0, 100)])
def sgp4_leaves(cx, r, mixed=False):
    s = satrec_leaves(cx, r)
    s['tsince'] = tsince(r)
    if mixed and r.random() < 0.5:             # generic values, to tell subterms apart
        for p, v in s.items():
            if isinstance(v, float) and (v == 0.0 or r.random() < 0.3 and p not in ('satrec.no', 'satrec.ecco')): s[p] = r.uniform(-1, 1) * 10 ** r.uniform(-3, 0)
        s['tsince'] = r.uniform(-3, 3)
        s['satrec.method.#'] = r.randrange(2)
        s['satrec.irez'] = r.choice([0.0, 1.0, 2.0]); s['satrec.isimp'] = r.randrange(2)
    m = r.random()
    if m < 0.15: s['satrec.bstar'] *= 300.0
    elif m < 0.25: s['satrec.ecco'] = r.uniform(0.9, 1.1)
    elif m < 0.3: s['satrec.no'] = -s['satrec.no']
    elif m < 0.35: s['satrec.no'] = 0.08
    if r.random() < 0.3: s['satrec.t'] = r.uniform(-1000, 1000); s['satrec.error'] = r.randrange(7)
    return s

def chrono(r):
    lo, hi = r.choice([(1957, 2056), (2000, 2030), (1901, 2099)])
    return dict(year=r.randint(lo, hi), month=r.randint(1, 12), day=r.randint(1, 28), hour=r.randint(0, 23), minute=r.randint(0, 59),
                second=r.randint(0, 59), nanosecond=r.choice([0, r.randrange(10**9)]))

def sample(cx, name, r, mixed=False):
    if name == INIT: return init_leaves(cx, r)
    if name == SGP4: return sgp4_leaves(cx, r, mixed)
    if name == DSPACE: return dspace_leaves(cx, r)
    if name == DSCOM: return dscom_leaves(cx, r)
    if name == DSINIT: return dsinit_leaves(cx, r)
    if name == DPPER: return dpper_leaves(cx, r)
    c = cx.c[name]
    if name.startswith('satellite::io::') and name.split('::')[-1] in ('parse_satrec', 'twoline2satrec', 'parse', 'parse_multiple'): return text_sample(cx, name.split('::')[-1], r)
    if name == INITL:
        e = elements(r)
        return {'options.opsmode.#': r.randrange(2), 'options.method.#': r.randrange(2), 'options.satn': b'00005', 'options.ecco': e['xecco'],
                'options.epoch': e['epoch'], 'options.inclo': e['xinclo'], 'options.no': e['xno']}
    if name == PROP:
        s = satrec_leaves(cx, r); s['time'] = chrono(r)
        s['satrec.jdsatepoch'] = 367.0 * s['time']['year'] - 7 * (s['time']['year'] + (s['time']['month'] + 9) // 12) // 4 + 275 * s['time']['month'] // 9 + s['time']['day'] + 1721013.5 + r.uniform(-20, 20)
        return s
    env = {}
    for p, v in cx.leafpaths(name, c.params).items():
        if v.sort == 'X': env[p] = chrono(r)
        elif p.endswith('.#'): env[p] = enumv(r, v)
        else: env[p] = leaf_default(r, p, v.sort)
    return special(cx, name, env, r)

def special(cx, name, env, r):
    sh = name.split('::')[-1]
    if sh == 'days2mdhms': env.update(year=r.randint(1900, 2100), days=r.choice([r.uniform(1, 367), float(r.randint(1, 366)), r.uniform(0, 2)]))
    elif sh == 'jday': env.update(year=float(r.randint(1900, 2100)), mon=float(r.randint(1, 12)), day=float(r.randint(1, 31)), hr=float(r.randint(0, 23)),
                                  minute=float(r.randint(0, 59)), sec=r.uniform(0, 60), msec=r.choice([0.0, r.uniform(0, 1000)]))
    elif sh == 'gstime': env.update(jdut1=r.uniform(2415020, 2488070))
    elif sh in ('eci_to_geodedic', 'ecf_to_eci', 'eci_to_ecf'):
        for k in env:
            if k != 'gmst': env[k] = r.choice([r.uniform(-45000, 45000), r.uniform(-8000, 8000)])
        env['gmst'] = r.choice([r.uniform(0, TWOPI), r.uniform(-20, 20)])
    elif sh in ('geodedic_to_ecf', 'topocentric', 'ecf_to_look_angles'):
        for k in env:
            if k.endswith('longitude'): env[k] = r.uniform(-PI, PI)
            elif k.endswith('latitude'): env[k] = r.uniform(-PI / 2, PI / 2)
            elif k.endswith('height'): env[k] = r.choice([r.uniform(0, 9), r.uniform(-1, 40000)])
            elif k.startswith('satellite'): env[k] = r.uniform(-20000, 20000)
    elif sh == 'topocentric_to_look_angles' or sh == 'doppler_factor':
        for k in env: env[k] = r.uniform(-8, 8) if k.startswith('velocity') else r.uniform(-20000, 20000)
    elif sh in ('degrees_lat', 'degrees_long'): env['radians'] = r.choice([r.uniform(-4, 4), r.uniform(-1.6, 1.6), PI, -PI, PI / 2, -PI / 2])
    elif sh in ('radians_lat', 'radians_long'): env['degrees'] = r.choice([r.uniform(-200, 200), r.uniform(-95, 95), 180.0, -180.0, 90.0, -90.0])
    return env

# ---------------------------------------------------------------- element sets as text
def digits(r, n, lead=None):
    s = ''.join(r.choice('0123456789') for _ in range(n))
    return s
def tle_lines(r, kind=None):
    e = elements(r, kind)
    deg = lambda x: '%8.4f' % (math.degrees(x) % 360.0)
    def expo(x):
        if x == 0: return ' 00000-0'
        m = int(math.floor(math.log10(abs(x)))) + 1
        f = int(round(abs(x) / 10.0 ** m * 1e5))
        if f >= 100000: f //= 10; m += 1
        return '%s%05d%+d' % ('-' if x < 0 else ' ', f, max(-9, min(9, m)))
    nd = r.uniform(-0.001, 0.001)
    l1 = '1 %sU %s%s %02d%012.8f %s%s %s %s 0 %4d' % (digits(r, 5), digits(r, 5), 'A  ', r.choice([r.randrange(100), r.choice([56, 57, 0, 99])]), r.choice([r.uniform(1, 366.99), float(r.randint(1, 366)), r.uniform(58, 62)]),
        '-' if nd < 0 else ' ', ('%.8f' % abs(nd))[1:], expo(r.choice([0, 0, r.uniform(-1e-5, 1e-5)])), expo(e['xbstar']), r.randrange(10000))
    l2 = '2 %s %s %s %07d %s %s %11.8f%5d' % (l1[2:7], deg(e['xinclo']), deg(e['xnodeo']), min(9999999, int(e['xecco'] * 1e7)), deg(e['xargpo']), deg(e['xmo']),
        e['xno'] * 1440 / TWOPI, r.randrange(100000))
    return [(l[:68] + str(r.randrange(10))) for l in (l1, l2)]
EXTRA = ['é', '日', ' ', 'x', '.', '-', '+', '0', '9', 'E', '\t', '\r', '\u3000', '1', '2', 'inf', '', '\u00a0']
def damage(r, l, k=None):
    for _ in range(k if k is not None else r.choice([1, 1, 2, 3])):
        m = r.randrange(7)
        i = r.randrange(len(l) + 1) if l else 0
        if m == 0: l = l[:i]
        elif m == 1: l = l[:i] + r.choice(EXTRA) + l[i:]
        elif m == 2 and l: i = min(i, len(l) - 1); l = l[:i] + r.choice(EXTRA) + l[i + 1:]
        elif m == 3: a, b = r.choice([(2, 7), (18, 20), (20, 32), (33, 43), (44, 50), (44, 45), (50, 52), (53, 54), (54, 59), (59, 61), (8, 16), (17, 25), (26, 33), (34, 42), (43, 51), (52, 63)]); \
            l = l[:a] + r.choice([' ' * (b - a), 'x' * (b - a), '-1'.rjust(b - a), '+5'.rjust(b - a), '9' * (b - a), ('1' * (b - a - 1) + ' '), '1e999'.rjust(b - a)[:b - a], 'inf'.rjust(b - a)[:b - a], 'nan'.ljust(b - a)[:b - a], '.'.rjust(b - a)]) + l[b:]
        elif m == 4: l = ''.join(r.choice(EXTRA + list('0123456789 .')) for _ in range(r.randrange(90)))
        elif m == 5: l = l + r.choice([' ', '\r', 'abc', 'é' * 3])
        else: l = l[1:] if r.random() < 0.5 else ' ' + l
    return l.replace('\n', '')
def tle_pair(r):
    a, b = tle_lines(r)
    m = r.random()
    if m < 0.35: a = damage(r, a)
    elif m < 0.6: b = damage(r, b)
    elif m < 0.65: a = damage(r, a); b = damage(r, b)
    return a, b
def name_line(r):
    return r.choice(['ISS (ZARYA)', '0 VANGUARD 1', '0', '0é', '0 ', '0日本', 'étoile', '1 FOO', '2 BAR', ' 0 X', '0VANGUARD', '  NAME  ', '1', '0  spaced  out ', 'é'])
def tle_text(r, n):
    ls = []; had = []
    for k in range(n):
        if n > 6: a, b = r.choice(['1', '1 x', '2 y', 'X']), r.choice(['2', '2 y', 'Y']) if k < n - 1 else '2 z'
        else: a, b = tle_pair(r) if r.random() < 0.5 else tle_lines(r)
        if had and n <= 6 and r.random() < 0.2:      # the same entry again, or one of its lines
            c, d = r.choice(had); a, b = r.choice([(c, d), (c, d), (a, d), (c, b)])
        had.append((a, b))
        if r.random() < (0.5 if n <= 6 else 0.03): ls.append(name_line(r))
        if r.random() < 0.05: a, b = b, a
        ls += [a, b]
        if r.random() < 0.1: ls.append(r.choice(['', '   ', '\t', '\r', '\u3000', name_line(r)]))
        if r.random() < 0.06: ls.pop(r.randrange(len(ls)))
    sep = '\n' if r.random() < 0.8 else '\r\n'
    return sep.join(ls) + (sep if r.random() < 0.5 else '')
def text_sample(cx, sh, r):
    if sh in ('parse_satrec', 'twoline2satrec'):
        a, b = tle_pair(r)
        if r.random() < 0.03: a, b = b, a
        return {'str1': a.encode(), 'str2': b.encode()}
    if sh == 'parse': return {'string': tle_text(r, r.choice([0, 1, 1, 1, 1, 2])).encode()}
    return {'string': tle_text(r, r.choice([0, 1, 2, 3, 4]) if r.random() < 0.97 else r.randint(7, 90)).encode()}
