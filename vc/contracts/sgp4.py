"""SGP4 initialisation and propagation (WGS-84 constants), from Spacetrack Report #3 and the 2006
revision, with calls of the deep-space parts through their contracts."""
from ..spec import *
from .deep import XKE, P_
J2, J3, J4 = 0.00108262998905, -0.00000253215306, -0.00000161098761
K = J3 / J2
RE = 6378.137
INITL, SGP4, INIT, PROP = P_ + 'initl::initl', P_ + 'sgp4::sgp4', P_ + 'sgp4init::sgp4init', P_ + 'propogate_datetime'
DSCOM, DSINIT, DSPACE, DPPER = [P_ + n + '::' + n for n in ('dscom', 'dsinit', 'dspace', 'dpper')]
# deep-space scratch coefficients: recomputed by every propagation before they are used
SCRATCH = ['aycof', 'xlcof', 'con41', 'x1mth2', 'x7thm1']
ERRORS = [('Nm', 2), ('Eccentricty', 1), ('Ep', 3), ('Pl', 4), ('DecayCondition', 6)]

def semi_major(n): return fpowr(XKE / n, 2.0 / 3.0)

def initl(cx, o, opsA):
    e2 = sq(o.ecco); om = 1.0 - e2; rt = sqrt(om)
    c, s = cos(o.inclo), sin(o.inclo)
    c2 = sq(c)
    # recover the un-Kozai'd mean motion
    d = 0.75 * J2 * (3.0 * c2 - 1.0) / (rt * om)
    ak = semi_major(o.no)
    de = d / sq(ak)
    a0 = ak * (1.0 - sq(de) - de * (1.0 / 3.0 + 134.0 * sq(de) / 81.0))
    no = o.no / (1.0 + d / sq(a0))
    ao = semi_major(no)
    t = o.epoch - 7305.0
    days = floor(t + 1.0e-8)
    old = (1.7321343856509374 + 1.72027916940703639e-2 * days + (1.72027916940703639e-2 + TWOPI) * (t - days)
           + sq(t) * 5.07551419432269442e-15) % F(TWOPI)
    old = If(old < 0.0, old + TWOPI, old)
    new = cx.call(P_ + 'gstime::gstime', {'jdut1': o.epoch + 2433281.5})['ret']
    return dict(no=no, ainv=1.0 / ao, ao=ao, con41=3.0 * c2 - 1.0, con42=1.0 - 5.0 * c2, cosio=c, cosio2=c2, eccsq=e2, omeosq=om,
                posq=sq(ao * om), rp=ao * (1.0 - o.ecco), rteosq=rt, sinio=s, gsto=If(opsA, old, new))

def xlcof(si, ci):
    n = -0.25 * K * si * (3.0 + 5.0 * ci)
    return If(absf(ci + 1.0) > 1.5e-12, n / (1.0 + ci), n / 1.5e-12)

DSPACE_ELEMS = ['em', 'argpm', 'inclm', 'mm', 'nodem', 'nm']
def kepler(u, ax, ay):
    """Newton's iteration: at most 10 steps, each at most 0.95 rad, until a step is below 1e-12;
    -> sine and cosine of the last point at which the equation was evaluated"""
    def steps(E, k):
        s, c = sin(E), cos(E)
        step = (u - ay * c + ax * s - E) / (1.0 - c * ax - s * ay)
        step = If(absf(step) >= 0.95, If(step > 0.0, 0.95, -0.95), step)
        if k == 10: return s, c
        more = absf(step) >= 1.0e-12
        s2, c2 = steps(E + step, k + 1)
        return If(more, s2, s), If(more, c2, c)
    return steps(u, 1)

def sgp4(cx, s, leaves, t):
    deep = cx.isv('satrec.method', 'InitlMethod', 'D')
    simple = eq(s.isimp, 1)
    # secular gravity and drag
    xm = s.mo + s.mdot * t
    om = s.argpo + s.argpdot * t
    nodem = s.nodeo + s.nodedot * t + s.nodecf * sq(t)
    t2, t3, t4 = sq(t), sq(t) * t, sq(sq(t))
    delm = s.xmcof * (powi(1.0 + s.eta * cos(xm), 3) - s.delmo)
    shift = s.omgcof * t + delm
    mm = If(simple, xm, xm + shift)
    argpm = If(simple, om, om - shift)
    tempa = 1.0 - s.cc1 * t
    tempa = If(simple, tempa, tempa - s.d2 * t2 - s.d3 * t3 - s.d4 * t4)
    tempe = s.bstar * s.cc4 * t
    tempe = If(simple, tempe, tempe + s.bstar * s.cc5 * (sin(xm + shift) - s.sinmao))
    templ = s.t2cof * t2
    templ = If(simple, templ, templ + s.t3cof * t3 + t4 * (s.t4cof + t * s.t5cof))
    # deep-space secular and resonance effects
    act = {}
    for k in cx.c[DSPACE].params and [v.k.split('.')[1] for v in cx.leafpaths(DSPACE, ['options']).values()]:
        act['options.' + k] = leaves.get('satrec.' + k)
    act.update({'options.t': t, 'options.tc': t, 'options.em': s.ecco, 'options.argpm': argpm, 'options.inclm': s.inclo,
                'options.mm': mm, 'options.nodem': nodem, 'options.nm': s.no})
    D = cx.call(DSPACE, act)
    em, argpm, inclm, mm, nodem, nm0 = [If(deep, D['ret.' + k], v) for k, v in
                                        zip(DSPACE_ELEMS, (s.ecco, argpm, s.inclo, mm, nodem, s.no))]
    e_nm = nm0 <= 0.0
    am = semi_major(nm0) * sq(tempa)
    nm = XKE / fpowr(am, 1.5)
    em = em - tempe
    e_ecc = (em >= 1.0) | (em < -0.001)
    em = If(em < 1.0e-6, 1.0e-6, em)
    mm = mm + s.no * templ
    xlm = (mm + argpm + nodem) % F(TWOPI)
    nodem, argpm = nodem % F(TWOPI), argpm % F(TWOPI)
    mm = (xlm - argpm - nodem) % F(TWOPI)
    # lunar-solar periodics
    pa = {p: leaves[p] for p in leaves if p.startswith('satrec.')}
    pa.update({'satrec.t': t, 'options.inclo': s.inclo, 'options.init.#': cx.vidx('DpperInit', 'N'), 'options.ep': em,
               'options.inclp': inclm, 'options.nodep': nodem, 'options.argpp': argpm, 'options.mp': mm,
               'options.opsmode.#': leaves['satrec.operationmode.#'], 'satrec.error': F(0) if False else leaves['satrec.error']})
    D = cx.call(DPPER, pa)
    D = {k[4:]: v for k, v in D.items()}
    neg = D['inclp'] < 0.0
    D.update(inclp=If(neg, -D['inclp'], D['inclp']), nodep=If(neg, D['nodep'] + PI, D['nodep']), argpp=If(neg, D['argpp'] - PI, D['argpp']))
    ep, inc, node, arg, mp = [If(deep, D[k], v) for k, v in
                              zip(('ep', 'inclp', 'nodep', 'argpp', 'mp'), (em, inclm, nodem, argpm, mm))]
    e_ep = deep & ((ep < 0.0) | (ep > 1.0))
    si, ci = sin(inc), cos(inc)
    ay_c = If(deep, -0.5 * K * si, s.aycof)
    xl_c = If(deep, xlcof(si, ci), s.xlcof)
    con41 = If(deep, 3.0 * sq(ci) - 1.0, s.con41)
    x1mth2 = If(deep, 1.0 - sq(ci), s.x1mth2)
    x7thm1 = If(deep, 7.0 * sq(ci) - 1.0, s.x7thm1)
    # long-period periodics, Kepler's equation
    ax = ep * cos(arg)
    q = 1.0 / (am * (1.0 - sq(ep)))
    ay = ep * sin(arg) + q * ay_c
    xl = mp + arg + node + q * xl_c * ax
    u = (xl - node) % F(TWOPI)
    se, ce = kepler(u, ax, ay)
    ecose, esine = ax * ce + ay * se, ax * se - ay * ce
    el2 = sq(ax) + sq(ay)
    pl = am * (1.0 - el2)
    e_pl = pl < 0.0
    rl = am * (1.0 - ecose)
    rdotl, rvdotl = sqrt(am) * esine / rl, sqrt(pl) / rl
    betal = sqrt(1.0 - el2)
    f = esine / (1.0 + betal)
    sinu = am / rl * (se - ay - ax * f)
    cosu = am / rl * (ce - ax + ay * f)
    sin2u, cos2u = 2.0 * sinu * cosu, 1.0 - 2.0 * sq(sinu)
    t1 = 0.5 * J2 / pl
    t2_ = t1 / pl
    # short-period periodics
    mrt = rl * (1.0 - 1.5 * t2_ * betal * con41) + 0.5 * t1 * x1mth2 * cos2u
    su = atan2(sinu, cosu) - 0.25 * t2_ * x7thm1 * sin2u
    xnode = node + 1.5 * t2_ * ci * sin2u
    xinc = inc + 1.5 * t2_ * ci * si * cos2u
    mvt = rdotl - nm * t1 * x1mth2 * sin2u / XKE
    rvdot = rvdotl + nm * t1 * (x1mth2 * cos2u + 1.5 * con41) / XKE
    e_dec = mrt < 1.0
    # orientation
    ss, cs = sin(su), cos(su)
    sn, cn = sin(xnode), cos(xnode)
    sI, cI = sin(xinc), cos(xinc)
    U = (cn * cs - sn * cI * ss, sn * cs + cn * cI * ss, sI * ss)
    W = (-sn * cI * cs - cn * ss, cn * cI * cs - sn * ss, sI * cs)
    vk = RE * XKE / 60.0
    conds = dict(Nm=e_nm, Eccentricty=e_ecc, Ep=e_ep, Pl=e_pl, DecayCondition=e_dec)
    bad = FALSE; which = Ic(0); code = Ic(0)
    for n, c in reversed(ERRORS):
        bad = Or(conds[n], bad)
        which = If(conds[n], cx.vidx('SGP4Error', n), which)
        code = If(conds[n], Ic(c), code)
    outs = {'ret.#': If(bad, Ic(1), Ic(0)), 'ret.Err.0.#': which, 'satrec.t': t, 'satrec.error': code}
    for c, a, b in zip('xyz', U, W):
        outs['ret.Ok.0.position.' + c] = mrt * a * RE
        outs['ret.Ok.0.velocity.' + c] = (mvt * a + rvdot * b) * vk
    for k in SCRATCH: outs['satrec.' + k] = leaves['satrec.' + k]
    aux = dict(mrt=mrt, bad=bad, conds=conds, U=U, W=W, mvt=mvt, rvdot=rvdot, deep=deep)
    return outs, {'satrec.' + k: Not(deep) for k in SCRATCH}, aux

NEAR = 'isimp aycof con41 cc1 cc4 cc5 d2 d3 d4 delmo eta argpdot omgcof sinmao t t2cof t3cof t4cof t5cof x1mth2 x7thm1 mdot nodedot xlcof xmcof nodecf'.split()
DEEP = ('irez d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421 d5433 dedt del1 del2 del3 didt dmdt dnodt domdt e3 ee2 peo pgho '
        'pho pinco plo se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 gsto xfact xgh2 xgh3 xgh4 xh2 xh3 xi2 xi3 xl2 xl3 xl4 xlamo '
        'zmol zmos atime xli xni').split()
FROM_DSCOM = 'e3 ee2 peo pgho pho pinco plo se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 xgh2 xgh3 xgh4 xh2 xh3 xi2 xi3 xl2 xl3 xl4 zmol zmos'.split()
FROM_DSINIT = 'irez atime d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421 d5433 dedt didt dmdt dnodt domdt del1 del2 del3 xfact xlamo xli xni'.split()

def sgp4init(cx, o, leaves):
    """the satrec fields after initialisation, and the result of propagating it to its epoch"""
    ops = leaves['options.opsmode.#']
    I = cx.call(INITL, {'options.opsmode.#': ops, 'options.method.#': cx.vidx('InitlMethod', 'N'), 'options.satn': leaves['options.satn'],
                        'options.ecco': o.xecco, 'options.epoch': o.epoch, 'options.inclo': o.xinclo, 'options.no': o.xno})
    i = {k[4:]: v for k, v in I.items()}
    no, ao = i['no'], i['ao']
    e, b, w, inc, mo = o.xecco, o.xbstar, o.xargpo, o.xinclo, o.xmo
    c1, c2, s1 = i['cosio'], i['cosio2'], i['sinio']
    # atmospheric drag: altitude of perigee selects the density parameters
    h = (i['rp'] - 1.0) * RE
    s_km = If(h < 98.0, 20.0, If(h < 156.0, h - 78.0, 78.0))
    S = s_km / RE + 1.0
    q4 = powi((120.0 - s_km) / RE, 4)
    xi = 1.0 / (ao - S)
    eta = ao * e * xi
    et2, ee = sq(eta), e * eta
    psi = absf(1.0 - et2)
    coef = q4 * powi(xi, 4)
    coef1 = coef / fpowr(psi, 3.5)
    con41, om = i['con41'], i['omeosq']
    C2 = coef1 * no * (ao * (1.0 + 1.5 * et2 + ee * (4.0 + et2)) + 0.375 * J2 * xi / psi * con41 * (8.0 + 3.0 * et2 * (8.0 + et2)))
    C1 = b * C2
    big = e > 1.0e-4
    C3 = If(big, -2.0 * coef * xi * K * no * s1 / e, 0.0)
    x1 = 1.0 - c2
    C4 = 2.0 * no * coef1 * ao * om * (eta * (2.0 + 0.5 * et2) + e * (0.5 + 2.0 * et2) - J2 * xi / (ao * psi) * (
        -3.0 * con41 * (1.0 - 2.0 * ee + et2 * (1.5 - 0.5 * ee)) + 0.75 * x1 * (2.0 * et2 - ee * (1.0 + et2)) * cos(2.0 * w)))
    C5 = 2.0 * coef1 * ao * om * (1.0 + 2.75 * (et2 + ee) + ee * et2)
    # secular rates of the zonal harmonics
    c4 = sq(c2)
    p2 = 1.0 / i['posq']
    k1 = 1.5 * J2 * p2 * no
    k2 = 0.5 * k1 * J2 * p2
    k3 = -0.46875 * J4 * sq(p2) * no
    mdot = no + 0.5 * k1 * i['rteosq'] * con41 + 0.0625 * k2 * i['rteosq'] * (13.0 - 78.0 * c2 + 137.0 * c4)
    argpdot = -0.5 * k1 * i['con42'] + 0.0625 * k2 * (7.0 - 114.0 * c2 + 395.0 * c4) + k3 * (3.0 - 36.0 * c2 + 49.0 * c4)
    hdot = -k1 * c1
    nodedot = hdot + (0.5 * k2 * (4.0 - 19.0 * c2) + 2.0 * k3 * (3.0 - 7.0 * c2)) * c1
    f = {}
    f.update(aycof=-0.5 * K * s1, con41=con41, cc1=C1, cc4=C4, cc5=C5, delmo=powi(1.0 + eta * cos(mo), 3), eta=eta, argpdot=argpdot,
             omgcof=b * C3 * cos(w), sinmao=sin(mo), t2cof=1.5 * C1, x1mth2=x1, x7thm1=7.0 * c2 - 1.0, mdot=mdot, nodedot=nodedot,
             xlcof=xlcof(s1, c1), xmcof=If(big, -2.0 / 3.0 * coef * b / ee, 0.0), nodecf=3.5 * om * hdot * C1)
    deep = F(TWOPI) / no >= 225.0
    low = i['rp'] < 220.0 / RE + 1.0
    full = ~(deep | low)                           # higher-order drag terms: near-earth, perigee above 220 km
    d2 = 4.0 * ao * xi * sq(C1)
    g = d2 * xi * C1 / 3.0
    d3 = (17.0 * ao + S) * g
    d4 = 0.5 * g * ao * xi * (221.0 * ao + 31.0 * S) * C1
    hi = dict(d2=d2, d3=d3, d4=d4, t3cof=d2 + 2.0 * sq(C1), t4cof=0.25 * (3.0 * d3 + C1 * (12.0 * d2 + 10.0 * sq(C1))),
              t5cof=0.2 * (3.0 * d4 + 12.0 * C1 * d3 + 6.0 * sq(d2) + 15.0 * sq(C1) * (2.0 * d2 + sq(C1))))
    for k, v in hi.items(): f[k] = If(full, v, 0.0)
    # deep space
    dc = cx.call(DSCOM, {'options.epoch': o.epoch, 'options.ep': e, 'options.argpp': w, 'options.tc': F(0.0),
                         'options.inclp': inc, 'options.nodep': o.xnodeo, 'options.np': no})
    for k in FROM_DSCOM: f[k] = If(deep, dc['ret.' + k], 0.0)
    da = {}
    for k in 'cosim sinim emsq em nm s1 s2 s3 s4 s5 ss1 ss2 ss3 ss4 ss5 sz1 sz3 sz11 sz13 sz21 sz23 sz31 sz33 z1 z3 z11 z13 z21 z23 z31 z33'.split():
        da['options.' + k] = dc['ret.' + k]
    for k in FROM_DSINIT: da['options.' + k] = F(0.0)
    for k in ('t', 'tc', 'argpm', 'mm', 'nodem'): da['options.' + k] = F(0.0)
    da.update({'options.argpo': w, 'options.gsto': i['gsto'], 'options.mo': mo, 'options.mdot': mdot, 'options.no': no, 'options.nodeo': o.xnodeo,
               'options.nodedot': nodedot, 'options.xpidot': argpdot + nodedot, 'options.ecco': e, 'options.eccsq': i['eccsq'], 'options.inclm': inc})
    ds = cx.call(DSINIT, da)
    for k in FROM_DSINIT: f[k] = If(deep, ds['ret.' + k], 0.0)
    f['gsto'] = i['gsto']
    isimp = If(deep | low, Ic(1), Ic(0))
    # nothing is derived from impossible elements
    valid = (om >= 0.0) | (no >= 0.0)
    raw = dict(con41=con41, gsto=i['gsto'])
    st = {k: If(valid, v, raw.get(k, F(0.0))) for k, v in f.items()}
    st['isimp'] = If(valid, isimp, Ic(0))
    st.update(bstar=b, ecco=e, argpo=w, inclo=inc, mo=mo, no=no, nodeo=o.xnodeo)
    st['method.#'] = If(valid & deep, cx.vidx('InitlMethod', 'D'), cx.vidx('InitlMethod', 'N'))
    st['operationmode.#'] = ops
    st['init.#'] = cx.vidx('DpperInit', 'Y')
    st['t'] = F(0.0); st['error'] = Ic(0)
    # the state is completed by one propagation to the epoch
    act = {p: n for p, n in leaves.items() if p.startswith('satrec.')}
    act.update({'satrec.' + k: v for k, v in st.items()})
    act['tsince'] = F(0.0)
    R = cx.call(SGP4, act)
    outs = {'satrec.' + k: v for k, v in st.items()}
    outs.update(R)
    outs['satrec.init.#'] = If(eq(R['ret.#'], Ic(0)), cx.vidx('DpperInit', 'N'), cx.vidx('DpperInit', 'Y'))
    return outs, valid & deep

def install(cx):
    l = cx.leafpaths(INITL, ['options'])
    r = initl(cx, Rec('options', l), cx.isv('options.opsmode', 'DpperOpsMode', 'A'))
    outs = {'ret.' + k: v for k, v in r.items()}
    outs['ret.method.#'] = cx.vidx('InitlMethod', 'N')
    cx.define(INITL, ['options'], outs, centre={'options.epoch': (7305.0, 1.0)})
    l = cx.leafpaths(SGP4, ['satrec', 'tsince'])
    outs, care, cx.sgp4_aux = sgp4(cx, Rec('satrec', l), l, var('tsince'))
    cx.define(SGP4, ['satrec', 'tsince'], outs, care=care)
    code = Ic(0)
    for n, c in ERRORS: code = If(cx.isv('self', 'SGP4Error', n), Ic(c), code)
    cx.define(P_ + 'sgp4::SGP4Error::code', ['self'], {'ret': code})
    l = cx.leafpaths(INIT, ['satrec', 'options'])
    outs, deep = sgp4init(cx, Rec('options', l), l)
    cx.define(INIT, ['satrec', 'options'], outs, care={'satrec.' + k: Not(deep) for k in SCRATCH})
    # propagation to a date: the caller's record is not touched
    l = cx.leafpaths(PROP, ['satrec', 'time'])
    f = {k: i2f(mk('chrono', (l['time'],), k, 'I')) for k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'nanosecond')}
    jd = cx.call('satellite::ext::jday', dict(year=f['year'], mon=f['month'], day=f['day'], hr=f['hour'], minute=f['minute'], sec=f['second'],
                                              msec=f['nanosecond'] / 1.0e6))['ret']
    act = {p: n for p, n in l.items() if p.startswith('satrec.')}
    act['tsince'] = (jd - l['satrec.jdsatepoch']) * 1440.0
    R = cx.call(SGP4, act)
    cx.define(PROP, ['satrec', 'time'], {p: n for p, n in R.items() if p.startswith('ret')})
