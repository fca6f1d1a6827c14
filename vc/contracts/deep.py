"""Deep-space theory: lunar/solar coefficients (dscom), secular rates and resonance set-up (dsinit),
resonance integration (dspace), long-period periodics (dpper). Stated from Spacetrack Report #3 and
the 2006 revision (Hoots; Vallado, Crawford, Hujsak, Kelso)."""
from ..spec import *
P_ = 'satellite::propogation::'
XKE = 0.07436685316871385
ZNS, ZES, ZNL, ZEL = 1.19459e-5, 0.01675, 1.5835218e-4, 0.05490
RPTIM = 4.37526908801129966e-3
TWO = 'TWOPI'

def third_body(cosg, sing, cosi, sini, cosh, sinh, cc, node, orb):
    """the Z and S coefficients of one perturbing body, in the body's orientation"""
    sinim, cosim, sinw, cosw, em, emsq, nm, rt = orb
    a1 = cosg * cosh + sing * cosi * sinh
    a3 = cosg * cosi * sinh - sing * cosh
    a7 = sing * cosi * cosh - cosg * sinh
    a8 = sing * sini
    a9 = sing * sinh + cosg * cosi * cosh
    a10 = cosg * sini
    a2 = cosim * a7 + sinim * a8
    a4 = cosim * a9 + sinim * a10
    a5 = cosim * a8 - sinim * a7
    a6 = cosim * a10 - sinim * a9
    x1 = a1 * cosw + a2 * sinw
    x2 = a3 * cosw + a4 * sinw
    x3 = a2 * cosw - a1 * sinw
    x4 = a4 * cosw - a3 * sinw
    x5, x6, x7, x8 = a5 * sinw, a6 * sinw, a5 * cosw, a6 * cosw
    o = {}
    o['z31'] = 12.0 * sq(x1) - 3.0 * sq(x3)
    o['z32'] = 24.0 * x1 * x2 - 6.0 * x3 * x4
    o['z33'] = 12.0 * sq(x2) - 3.0 * sq(x4)
    # Z = 2 * (3(a.a) + z e^2) + (1 - e^2) z
    o['z1'] = 6.0 * (sq(a1) + sq(a2)) + o['z31'] * (1.0 + emsq)
    o['z2'] = 12.0 * (a1 * a3 + a2 * a4) + o['z32'] * (1.0 + emsq)
    o['z3'] = 6.0 * (sq(a3) + sq(a4)) + o['z33'] * (1.0 + emsq)
    o['z11'] = -6.0 * a1 * a5 - emsq * (24.0 * x1 * x7 + 6.0 * x3 * x5)
    o['z12'] = -6.0 * (a1 * a6 + a3 * a5) - emsq * (24.0 * (x2 * x7 + x1 * x8) + 6.0 * (x3 * x6 + x4 * x5))
    o['z13'] = -6.0 * a3 * a6 - emsq * (24.0 * x2 * x8 + 6.0 * x4 * x6)
    o['z21'] = 6.0 * a2 * a5 + emsq * (24.0 * x1 * x5 - 6.0 * x3 * x7)
    o['z22'] = 6.0 * (a4 * a5 + a2 * a6) + emsq * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8))
    o['z23'] = 6.0 * a4 * a6 + emsq * (24.0 * x2 * x6 - 6.0 * x4 * x8)
    s3 = cc / nm
    o['s3'] = s3
    o['s2'] = -0.5 * s3 / rt
    o['s4'] = s3 * rt
    o['s1'] = -15.0 * em * o['s4']
    o['s5'] = x1 * x3 + x2 * x4
    o['s6'] = x2 * x3 + x1 * x4
    o['s7'] = x2 * x4 - x1 * x3
    return o

def periodics(b, emsq, ze):
    """amplitudes of the long-period periodics of one body, from its S and Z coefficients"""
    return dict(e2=2.0 * b['s1'] * b['s6'], e3=2.0 * b['s1'] * b['s7'],
                i2=2.0 * b['s2'] * b['z12'], i3=2.0 * b['s2'] * (b['z13'] - b['z11']),
                l2=-2.0 * b['s3'] * b['z2'], l3=-2.0 * b['s3'] * (b['z3'] - b['z1']), l4=2.0 * b['s3'] * (21.0 + 9.0 * emsq) * ze,
                gh2=2.0 * b['s4'] * b['z32'], gh3=2.0 * b['s4'] * (b['z33'] - b['z31']), gh4=-18.0 * b['s4'] * ze,
                h2=-2.0 * b['s2'] * b['z22'], h3=-2.0 * b['s2'] * (b['z23'] - b['z21']))

def dscom(o):
    em, nm = o.ep, o.np
    snod, cnod = sin(o.nodep), cos(o.nodep)
    sinw, cosw = sin(o.argpp), cos(o.argpp)
    sini, cosi = sin(o.inclp), cos(o.inclp)
    emsq = sq(em)
    rt = sqrt(1.0 - emsq)
    day = o.epoch + 18261.5 + o.tc / 1440.0
    # lunar orbit orientation
    node = (4.5236020 - 9.2422029e-4 * day) % F(TWOPI)
    st, ct = sin(node), cos(node)
    zcosil = 0.91375164 - 0.03568096 * ct
    zsinil = sqrt(1.0 - sq(zcosil))
    zsinhl = 0.089683511 * st / zsinil
    zcoshl = sqrt(1.0 - sq(zsinhl))
    gam = 5.8351514 + 0.0019443680 * day
    zx = atan2(0.39785416 * st / zsinil, zcoshl * ct + 0.91744867 * zsinhl * st) + gam - node
    orb = (sini, cosi, sinw, cosw, em, emsq, nm, rt)
    c = lambda x: F(x)
    sun = third_body(c(0.1945905), c(-0.98088458), c(0.91744867), c(0.39785416), cnod, snod, c(2.9864797e-6), None, orb)
    moon = third_body(cos(zx), sin(zx), zcosil, zsinil, zcoshl * cnod + zsinhl * snod, zcoshl * snod - zsinhl * cnod, c(4.7968065e-7), None, orb)
    r = dict(snodm=snod, cnodm=cnod, sinim=sini, cosim=cosi, sinomm=sinw, cosomm=cosw, day=day, em=em, emsq=emsq, gam=gam,
             peo=c(0), pgho=c(0), pho=c(0), pinco=c(0), plo=c(0), rtemsq=rt, nm=nm,
             zmol=(4.7199672 + 0.22997150 * day - gam) % F(TWOPI), zmos=(6.2565837 + 0.017201977 * day) % F(TWOPI))
    for k, v in sun.items(): r['s' + k] = v
    for k, v in moon.items(): r[k] = v
    for k, v in periodics(sun, emsq, ZES).items(): r['s' + k] = v
    for k, v in periodics(moon, emsq, ZEL).items(): r[{'e2': 'ee2', 'e3': 'e3'}.get(k, 'x' + k)] = v
    return r

def poly(e, *cs):
    r = F(0.0); x = F(1.0)
    for c in cs: r = r + c * x; x = x * e
    return r

def dsinit(o):
    r = {}
    n, e = o.nm, o.em
    ci, si = o.cosim, o.sinim
    day = (n < 0.0052359877) & (n > 0.0034906585)              # 24 h band
    half = (n >= 8.26e-3) & (n <= 9.24e-3) & (e >= 0.5)        # 12 h band, eccentric
    irez = If(half, 2.0, If(day, 1.0, 0.0))
    polar = (o.inclm < 5.2359877e-2) | (o.inclm > PI - 5.2359877e-2)    # near-equatorial: no nodal term
    has = ~eq(si, 0.0)
    # secular rates: sum of the solar and the lunar contribution
    def rates(zn, s1, s2, s3, s4, s5, z1, z3, z11, z13, z21, z23, z31, z33):
        de = zn * s1 * s5
        di = zn * s2 * (z11 + z13)
        dl = -zn * s3 * (z1 + z3 - 14.0 - 6.0 * o.emsq)
        gh = zn * s4 * (z31 + z33 - 6.0)
        h = If(polar, 0.0, -zn * s2 * (z21 + z23))
        return de, di, dl, gh, h
    S = rates(F(ZNS), o.ss1, o.ss2, o.ss3, o.ss4, o.ss5, o.sz1, o.sz3, o.sz11, o.sz13, o.sz21, o.sz23, o.sz31, o.sz33)
    L = rates(F(ZNL), o.s1, o.s2, o.s3, o.s4, o.s5, o.z1, o.z3, o.z11, o.z13, o.z21, o.z23, o.z31, o.z33)
    dedt, didt, dmdt = S[0] + L[0], S[1] + L[1], S[2] + L[2]
    domdt = If(has, S[3] - ci * S[4] / si + L[3] - ci * L[4] / si, S[3] - ci * S[4] + L[3])
    dnodt = If(has, (S[4] + L[4]) / si, S[4])
    r.update(dedt=dedt, didt=didt, dmdt=dmdt, domdt=domdt, dnodt=dnodt, dndt=F(0.0), irez=irez)
    r.update(em=e + dedt * o.t, inclm=o.inclm + didt * o.t, argpm=o.argpm + domdt * o.t,
             nodem=o.nodem + dnodt * o.t, mm=o.mm + dmdt * o.t)
    theta = (o.gsto + o.tc * RPTIM) % F(TWOPI)
    aonv = fpowr(n / XKE, 2.0 / 3.0)
    # half-day resonance
    x, x2 = o.ecco, o.eccsq
    x3 = x * x2
    q = lambda a, b, c, d: a + b * x + c * x2 + d * x3
    lo = x <= 0.65
    g201 = -0.306 - 0.440 * (x - 0.64)
    g211 = If(lo, 3.616 - 13.2470 * x + 16.2900 * x2, q(-72.099, 331.819, -508.738, 266.724))
    g310 = If(lo, q(-19.302, 117.3900, -228.4190, 156.5910), q(-346.844, 1582.851, -2415.925, 1246.113))
    g322 = If(lo, q(-18.9068, 109.7927, -214.6334, 146.5816), q(-342.585, 1554.908, -2366.899, 1215.972))
    g410 = If(lo, q(-41.122, 242.6940, -471.0940, 313.9530), q(-1052.797, 4758.686, -7193.992, 3651.957))
    g422 = If(lo, q(-146.407, 841.8800, -1629.014, 1083.4350), q(-3581.690, 16178.110, -24462.770, 12422.520))
    g520 = If(lo, q(-532.114, 3017.977, -5740.032, 3708.2760),
              If(x > 0.715, q(-5149.66, 29936.92, -54087.36, 31324.56), 1464.74 - 4664.75 * x + 3763.64 * x2))
    below = x < 0.7
    g533 = If(below, q(-919.22770, 4988.6100, -9064.7700, 5542.21), q(-37995.780, 161616.52, -229838.20, 109377.94))
    g521 = If(below, q(-822.71072, 4568.6173, -8491.4146, 5337.524), q(-51752.104, 218913.95, -309468.16, 146349.42))
    g532 = If(below, q(-853.66600, 4690.2500, -8624.7700, 5341.4), q(-40023.880, 170470.89, -242699.48, 115605.82))
    c2, s2 = sq(ci), sq(si)
    f220 = 0.75 * sq1(ci)
    f220 = 0.75 * (1.0 + 2.0 * ci + c2)
    f221 = 1.5 * s2
    f321 = 1.875 * si * (1.0 - 2.0 * ci - 3.0 * c2)
    f322 = -1.875 * si * (1.0 + 2.0 * ci - 3.0 * c2)
    f441 = 35.0 * s2 * f220
    f442 = 39.3750 * s2 * s2
    f522 = 9.84375 * si * (s2 * (1.0 - 2.0 * ci - 5.0 * c2) + 0.33333333 * (-2.0 + 4.0 * ci + 6.0 * c2))
    f523 = si * (4.92187512 * s2 * (-2.0 - 4.0 * ci + 10.0 * c2) + 6.56250012 * (1.0 + 2.0 * ci - 3.0 * c2))
    f542 = 29.53125 * si * (2.0 - 8.0 * ci + c2 * (-12.0 + 8.0 * ci + 10.0 * c2))
    f543 = 29.53125 * si * (-2.0 - 8.0 * ci + c2 * (12.0 + 8.0 * ci - 10.0 * c2))
    k2 = 3.0 * sq(n) * sq(aonv)
    k3 = k2 * aonv; k4 = k3 * aonv; k5 = k4 * aonv
    R22, R32, R44, R52, R54 = 1.7891679e-6, 3.7393792e-7, 7.3636953e-9, 1.1428639e-7, 2.1765803e-9
    d = dict(d2201=k2 * R22 * f220 * g201, d2211=k2 * R22 * f221 * g211, d3210=k3 * R32 * f321 * g310, d3222=k3 * R32 * f322 * g322,
             d4410=2.0 * k4 * R44 * f441 * g410, d4422=2.0 * k4 * R44 * f442 * g422, d5220=k5 * R52 * f522 * g520, d5232=k5 * R52 * f523 * g532,
             d5421=2.0 * k5 * R54 * f542 * g521, d5433=2.0 * k5 * R54 * f543 * g533)
    for k, v in d.items(): r[k] = If(half, v, getattr(o, k))
    lam2 = (o.mo + 2.0 * o.nodeo - 2.0 * theta) % F(TWOPI)
    xf2 = o.mdot + dmdt + 2.0 * (o.nodedot + dnodt - RPTIM) - o.no
    # one-day (synchronous) resonance
    m2 = o.emsq
    g200 = 1.0 + m2 * (-2.5 + 0.8125 * m2)
    g310s = 1.0 + 2.0 * m2
    g300 = 1.0 + m2 * (-6.0 + 6.60937 * m2)
    f220s = 0.75 * (1.0 + ci) * (1.0 + ci)
    f311 = 0.9375 * sq(si) * (1.0 + 3.0 * ci) - 0.75 * (1.0 + ci)
    f330 = 1.875 * (1.0 + ci) * (1.0 + ci) * (1.0 + ci)
    Q22, Q31, Q33 = 1.7891679e-6, 2.1460748e-6, 2.2123015e-7
    sync = day & ~half
    r['del1'] = If(sync, k3 * f311 * g310s * Q31, o.del1)
    r['del2'] = If(sync, 2.0 * k2 * f220s * g200 * Q22, o.del2)
    r['del3'] = If(sync, 3.0 * k3 * f330 * g300 * Q33, o.del3)
    lam1 = (o.mo + o.nodeo + o.argpo - theta) % F(TWOPI)
    xf1 = o.mdot + o.xpidot + dmdt + domdt + dnodt - RPTIM - o.no
    res = half | day
    r['xlamo'] = If(half, lam2, If(day, lam1, o.xlamo))
    r['xfact'] = If(half, xf2, If(day, xf1, o.xfact))
    r['xli'] = If(res, r['xlamo'], o.xli)
    r['xni'] = If(res, o.no, o.xni)
    r['atime'] = If(res, 0.0, o.atime)
    r['nm'] = If(res, o.no, o.nm)
    return r
def sq1(c): return (1.0 + c) * (1.0 + c)

FASX = [(1.0, 0.13130908), (2.0, 2.8843198), (3.0, 0.37448087)]
# (coefficient, multiple of omega, multiple of lambda, phase)
HALF = [('d2201', 2, 1, 5.7686396), ('d2211', 0, 1, 5.7686396), ('d3210', 1, 1, 0.95240898), ('d3222', -1, 1, 0.95240898),
        ('d4410', 2, 2, 1.8014998), ('d4422', 0, 2, 1.8014998), ('d5220', 1, 1, 1.0508330), ('d5232', -1, 1, 1.0508330),
        ('d5421', 1, 2, 4.4108898), ('d5433', -1, 2, 4.4108898)]
def resonance(o, lam, n, atime):
    """(n-dot, lambda-dot, n-double-dot) of the resonant motion"""
    ldot = n + o.xfact
    d1 = d2 = F(0.0)
    for k, (m, ph) in zip((o.del1, o.del2, o.del3), FASX):
        a = m * (lam - ph)
        d1 = d1 + k * sin(a); d2 = d2 + m * k * cos(a)
    h1 = h2 = F(0.0)
    w = o.argpo + o.argpdot * atime
    for k, j, m, ph in HALF:
        a = float(j) * w + float(m) * lam - ph
        h1 = h1 + getattr(o, k) * sin(a); h2 = h2 + float(m) * getattr(o, k) * cos(a)
    half = eq(o.irez, 2.0)
    return If(half, h1, d1), ldot, If(half, h2, d2) * ldot

def dspace(o):
    r = {}
    theta = (o.gsto + o.tc * RPTIM) % F(TWOPI)
    em, inc = o.em + o.dedt * o.t, o.inclm + o.didt * o.t
    arg, node, mm = o.argpm + o.domdt * o.t, o.nodem + o.dnodt * o.t, o.mm + o.dmdt * o.t
    res = ~eq(o.irez, 0.0)
    restart = eq(o.atime, 0.0) | (o.t * o.atime <= 0.0) | (absf(o.t) < absf(o.atime))
    at0, n0, l0 = If(restart, 0.0, o.atime), If(restart, o.no, o.xni), If(restart, o.xlamo, o.xli)
    step = If(o.t > 0.0, 720.0, -720.0)
    lam, n, at = var('$slam'), var('$sn'), var('$sat')
    nd, ld, ndd = resonance(o, lam, n, at)
    mus = mu_nodes([lam, n, at], {lam.id: l0, n.id: n0, at.id: at0}, absf(o.t - at) >= 720.0,
                   {lam.id: lam + ld * step + nd * 259200.0, n.id: n + nd * step + ndd * 259200.0, at.id: at + step}, [lam, n, at])
    L, N, A = mus[lam.id], mus[n.id], mus[at.id]
    nd, ld, ndd = resonance(o, L, N, A)
    ft = o.t - A
    nm = N + nd * ft + ndd * ft * ft * 0.5
    xl = L + ld * ft + nd * ft * ft * 0.5
    m1 = xl - node - arg + theta
    m2 = xl - 2.0 * node + 2.0 * theta
    r.update(em=em, inclm=inc, argpm=arg, nodem=node, mm=If(res, If(eq(o.irez, 1.0), m1, m2), mm),
             nm=If(res, nm, o.nm), dndt=If(res, nm - o.no, 0.0),
             atime=If(res, A, o.atime), xli=If(res, L, o.xli), xni=If(res, N, o.xni))
    return r, (o, restart, step)

def dpper(cx, s, o, init, opsA):
    """s: satrec leaves, o: options"""
    def body(zm0, zn, ze, e2, e3, i2, i3, l2, l3, l4, g2, g3, g4, h2, h3):
        zm = zm0 + zn * s.t
        zf = zm + 2.0 * ze * sin(zm)
        sz = sin(zf)
        f2 = 0.5 * sz * sz - 0.25
        f3 = -0.5 * sz * cos(zf)
        return (e2 * f2 + e3 * f3, i2 * f2 + i3 * f3, l2 * f2 + l3 * f3 + l4 * sz, g2 * f2 + g3 * f3 + g4 * sz, h2 * f2 + h3 * f3)
    S = body(s.zmos, ZNS, ZES, s.se2, s.se3, s.si2, s.si3, s.sl2, s.sl3, s.sl4, s.sgh2, s.sgh3, s.sgh4, s.sh2, s.sh3)
    M = body(s.zmol, ZNL, ZEL, s.ee2, s.e3, s.xi2, s.xi3, s.xl2, s.xl3, s.xl4, s.xgh2, s.xgh3, s.xgh4, s.xh2, s.xh3)
    pe, pinc, pl, pgh, ph = [a + b - c for a, b, c in zip(S, M, (s.peo, s.pinco, s.plo, s.pgho, s.pho))]
    ep, inc = o.ep + pe, o.inclp + pinc
    si, ci = sin(inc), cos(inc)
    big = inc >= 0.2
    # direct application
    node1 = o.nodep + ph / si
    arg1 = o.argpp + pgh - ci * ph / si
    # Lyddane modification
    so, co = sin(o.nodep), cos(o.nodep)
    al = si * so + ph * co + pinc * ci * so
    be = si * co - ph * so + pinc * ci * co
    w = lambda x: If(opsA & (x < 0.0), x + TWOPI, x)
    xn = w(o.nodep % F(TWOPI))
    xls = o.mp + o.argpp + ci * xn + pl + pgh - pinc * xn * si
    nd = w(atan2(al, be))
    nd = If(absf(xn - nd) > PI, If(nd < xn, nd + TWOPI, nd - TWOPI), nd)
    mp = o.mp + pl
    arg2 = xls - mp - ci * nd
    keep = init                       # at initialisation the elements pass through
    return dict(ep=If(keep, o.ep, ep), inclp=If(keep, o.inclp, inc), nodep=If(keep, o.nodep, If(big, node1, nd)),
                argpp=If(keep, o.argpp, If(big, arg1, arg2)), mp=If(keep, o.mp, mp))

def install(cx):
    for f, spec in (('dscom', dscom), ('dsinit', dsinit)):
        nm = P_ + f + '::' + f
        l = cx.leafpaths(nm, ['options'])
        cx.define(nm, ['options'], {'ret.' + k: v for k, v in spec(Rec('options', l)).items()})
    nm = P_ + 'dspace::dspace'
    l = cx.leafpaths(nm, ['options'])
    r, info = dspace(Rec('options', l))
    cx.define(nm, ['options'], {'ret.' + k: v for k, v in r.items()})
    nm = P_ + 'dpper::dpper'
    l = cx.leafpaths(nm, ['satrec', 'options'])
    cx.define(nm, ['satrec', 'options'], {'ret.' + k: v for k, v in dpper(
        cx, Rec('satrec', l), Rec('options', l), cx.isv('options.init', 'DpperInit', 'Y'), cx.isv('options.opsmode', 'DpperOpsMode', 'A')).items()})
