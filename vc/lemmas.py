"""Consequences of the contracts: the statements of the properties that the defining equations do not show at once.
Each is about the contract alone (that the code meets the contract is what the obligations of the functions show)."""
import math, datetime
from fractions import Fraction
from .spec import *
from .prove import Prover, Fail
from .canon import TooBig
from .special import norm_is_checked_radius, free_of_angles, sum3
from .contracts.frames import A, B, TR
from .contracts.time import EXT, GST
from . import evalx

PR = 'satellite::propogation::'
LEMMAS = {}          # property -> list of (label, function(cx) -> back end, or raises)
def lemma(prop, label):
    def deco(f): LEMMAS.setdefault(prop, []).append((label, f)); return f
    return deco

def inst(cx, fn, **act):
    """the outputs of a contract at given terms (leaf paths with '__' for '.')"""
    o = cx.c[fn].outs
    m = {var(k.replace('__', '.'), v.sort).id: v for k, v in act.items()}
    ks = list(o)
    return dict(zip(ks, subst([o[k] for k in ks], m)))
def equal(cx, x, y, care=TRUE, secs=30): return Prover(cx.c, secs).equal(x, y, care)
def holds(cx, p, care=TRUE, secs=30): return Prover(cx.c, secs).equal(p, TRUE, care)
def every(*how): return '+'.join(sorted(set(how)))

# ---------------------------------------------------------------- calendar
@lemma('C01', 'the Julian date of every Gregorian midnight 1900-03-01 .. 2100-02-28 is its day number; consecutive days differ by one')
def _(cx):
    t = cx.c[EXT + 'jday'].outs['ret']
    d = datetime.date(1900, 3, 1); end = datetime.date(2100, 2, 28); n = 0
    env = dict(hr=0.0, minute=0.0, sec=0.0, msec=0.0)
    while d <= end:
        env.update(year=float(d.year), mon=float(d.month), day=float(d.day))
        v = evalx.evaluate([t], env)[0]
        if v != d.toordinal() + 1721424.5: raise Fail('%s: %r' % (d, v))
        d += datetime.timedelta(1); n += 1
    return 'enumeration of %d days' % n
@lemma('C01', 'the time of day adds its fraction of a day')
def _(cx):
    j = cx.c[EXT + 'jday'].outs['ret']
    h, m, s, ms = formals('hr', 'minute', 'sec', 'msec')
    z = inst(cx, EXT + 'jday', hr=F(0.0), minute=F(0.0), sec=F(0.0), msec=F(0.0))['ret']
    return equal(cx, j - z, h / 24.0 + m / 1440.0 + s / 86400.0 + ms / 86400000.0)
@lemma('C02', 'the month and day of every day of the years 1901 .. 2099')
def _(cx):
    o = cx.c[EXT + 'days2mdhms'].outs
    ts = [o['ret.month'], o['ret.day'], o['ret.hour'], o['ret.minute'], o['ret.second']]; n = 0; seen = {}
    for y in range(1901, 2100):
        d = datetime.date(y, 1, 1)
        while d.year == y:
            k = (d - datetime.date(y, 1, 1)).days + 1
            v = tuple(evalx.evaluate(ts, dict(year=y, days=float(k))))
            if v != (d.month, d.day, 0.0, 0.0, 0.0): raise Fail('%s: %r' % (d, v))
            d += datetime.timedelta(1); n += 1
    return 'enumeration of %d days' % n
@lemma('C02', 'hour, minute and second make up the fraction of the day, and hour < 24, minute < 60, second < 60')
def _(cx):
    o = cx.c[EXT + 'days2mdhms'].outs
    d = var('days'); doy = i2f(f2i(floor(d), 'uint', 64))
    h, m, s = o['ret.hour'], o['ret.minute'], o['ret.second']
    a = equal(cx, doy + h / 24.0 + m / 1440.0 + s / 86400.0, d)
    care = And(d >= 0.0, d < 400.0, eq(doy, floor(d)))
    b = [holds(cx, And(x >= 0.0, x < hi), care) for x, hi in ((h, 24.0), (m, 60.0), (s, 60.0))]
    return every(a, *b)
# ---------------------------------------------------------------- sidereal time
@lemma('C03', 'the angle lies in [0, 2 pi)')
def _(cx):
    t = cx.c[GST + 'gstime'].outs['ret']
    return holds(cx, And(t >= 0.0, t < F(TWOPI)))
@lemma('C03', 'the angle is the GMST polynomial up to whole turns')
def _(cx):
    T_ = (var('jdut1') - 2451545.0) / 36525.0
    sec = 67310.54841 + (876600.0 * 3600.0 + 8640184.812866) * T_ + 0.093104 * T_ * T_ - 6.2e-6 * T_ * T_ * T_
    return holds(cx, isint((cx.c[GST + 'gstime'].outs['ret'] - sec * F(math.pi / 43200.0)) / F(TWOPI)))
@lemma('C14', 'the sidereal angle at the epoch lies in [0, 2 pi)')
def _(cx):
    t = cx.c[PR + 'initl::initl'].outs['ret.gsto']
    return holds(cx, And(t >= 0.0, t < F(TWOPI)))
# ---------------------------------------------------------------- angles
@lemma('C04', 'the conversions are inverse to each other and map the limits to each other')
def _(cx):
    x = var('x')
    r = lambda v: inst(cx, TR + 'radians_to_degrees', radians=v)['ret']
    d = lambda v: inst(cx, TR + 'degrees_to_radians', degrees=v)['ret']
    return every(equal(cx, r(d(x)), x), equal(cx, d(r(x)), x), equal(cx, r(F(PI)), F(180.0)), equal(cx, d(F(90.0)), F(PI / 2)))
# ---------------------------------------------------------------- ellipsoid
@lemma('C05', 'at height zero the point satisfies the equation of the ellipsoid')
def _(cx):
    p = inst(cx, TR + 'geodedic_to_ecf', geodetic__height=F(0.0))
    return equal(cx, sq(p['ret.x'] / A) + sq(p['ret.y'] / A) + sq(p['ret.z'] / B), F(1.0))
@lemma('C05', 'height is measured along the unit normal of the ellipsoid')
def _(cx):
    p0 = inst(cx, TR + 'geodedic_to_ecf', geodetic__height=F(0.0)); p = cx.c[TR + 'geodedic_to_ecf'].outs
    h, lat, lon = var('geodetic.height'), var('geodetic.latitude'), var('geodetic.longitude')
    n = [cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)]
    k = ['ret.x', 'ret.y', 'ret.z']
    how = [equal(cx, p[i] - p0[i], h * c) for i, c in zip(k, n)] + [equal(cx, sum3(n, n), F(1.0))]
    g = [p0[i] / (s * s) for i, s in zip(k, (A, A, B))]          # half the gradient of the equation
    how += [equal(cx, g[i] * n[j], g[j] * n[i]) for i, j in ((0, 1), (0, 2), (1, 2))]
    return every(*how)
# ---------------------------------------------------------------- rotations
@lemma('C07', 'the two rotations are inverse to each other and keep the length and the polar component')
def _(cx):
    x, y, z, g = formals('x', 'y', 'z', 'gmst'); k = ['ret.x', 'ret.y', 'ret.z']
    to = lambda a: [inst(cx, TR + 'eci_to_ecf', eci__x=a[0], eci__y=a[1], eci__z=a[2])[i] for i in k]
    fr = lambda a: [inst(cx, TR + 'ecf_to_eci', ecf__x=a[0], ecf__y=a[1], ecf__z=a[2])[i] for i in k]
    v = [x, y, z]
    how = [equal(cx, p, q) for p, q in zip(fr(to(v)), v)] + [equal(cx, p, q) for p, q in zip(to(fr(v)), v)]
    how += [equal(cx, sum3(f(v), f(v)), sum3(v, v)) for f in (to, fr)] + [equal(cx, f(v)[2], z) for f in (to, fr)]
    return every(*how)
# ---------------------------------------------------------------- look angles
@lemma('C08', 'south, east and zenith are an orthonormal frame whose zenith is the ellipsoid normal')
def _(cx):
    o = cx.c[TR + 'topocentric'].outs; k = ['ret.top_s', 'ret.top_e', 'ret.top_z']
    lat, lon = var('observer.latitude'), var('observer.longitude')
    S = [var('satellite.' + c) for c in 'xyz']
    at = lambda i, v: subst([o[i]], {s.id: w for s, w in zip(S, v)})[0]
    O = [cx.call(TR + 'geodedic_to_ecf', {'geodetic.' + n: var('observer.' + n) for n in ('longitude', 'latitude', 'height')})['ret.' + c] for c in 'xyz']
    e = lambda j: [O[i] + (1.0 if i == j else 0.0) for i in range(3)]
    M = [[at(i, e(j)) for j in range(3)] for i in k]           # images of the unit vectors at the observer
    how = [equal(cx, sum3(M[a], M[b]), F(1.0 if a == b else 0.0)) for a in range(3) for b in range(a, 3)]
    how += [equal(cx, p, q) for p, q in zip(M[2], [cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)])]
    how += [equal(cx, M[1][2], F(0.0))]                        # east is horizontal to the pole
    return every(*how)
@lemma('C08', 'the azimuth lies in [0, 2 pi], the elevation in [-pi/2, pi/2], the range is not negative')
def _(cx):
    o = cx.c[TR + 'topocentric_to_look_angles'].outs
    az, el, r = o['ret.azimuth'], o['ret.elevation'], o['ret.range']
    return every(holds(cx, And(az >= 0.0, az <= F(TWOPI))), holds(cx, And(el >= -PI / 2, el <= PI / 2)), holds(cx, r >= 0.0))
@lemma('C08', 'the range is the distance between observer and satellite')
def _(cx):
    o = cx.c[TR + 'ecf_to_look_angles'].outs
    O = [cx.call(TR + 'geodedic_to_ecf', {'geodetic.' + n: var('observer.' + n) for n in ('longitude', 'latitude', 'height')})['ret.' + c] for c in 'xyz']
    d = [var('satellite.' + c) - p for c, p in zip('xyz', O)]
    return equal(cx, sq(o['ret.range']), sum3(d, d))
# ---------------------------------------------------------------- doppler
@lemma('C09', 'the factor is at least one, and one at rest')
def _(cx):
    f = 'satellite::doppler_factor::doppler_factor'
    t = cx.c[f].outs['ret']
    z = inst(cx, f, velocity__x=F(0.0), velocity__y=F(0.0), velocity__z=F(0.0))['ret']
    return every(holds(cx, t >= 1.0), equal(cx, z, F(1.0)))
# ---------------------------------------------------------------- lists
@lemma('C13', 'every non-blank line belongs to exactly one entry')
def _(cx):
    i, n, step = cx.multi_step
    care = And(i >= Ic(0), i < n)
    return every(holds(cx, And(step >= Ic(1), step <= Ic(3)), care), holds(cx, i + step <= n, care))
# ---------------------------------------------------------------- deep space
@lemma('C18', 'nothing is applied during initialisation')
def _(cx):
    o = cx.c[PR + 'dpper::dpper'].outs
    care = cx.isv('options.init', 'DpperInit', 'Y')
    return every(*[equal(cx, o['ret.' + k], var('options.' + k), care) for k in ('ep', 'inclp', 'nodep', 'argpp', 'mp')])
# ---------------------------------------------------------------- errors
@lemma('C21', 'the returned error, its code and the code stored in the record agree, and success stores 0')
def _(cx):
    o = cx.c[PR + 'sgp4::sgp4'].outs
    c = inst(cx, PR + 'sgp4::SGP4Error::code')['ret']
    w = [v for v in vars_of([c])]
    code = subst([c], {w[0].id: o['ret.Err.0.#']})[0]
    return every(equal(cx, o['satrec.error'], ite(eq(o['ret.#'], Ic(0)), Ic(0), code)),
                 holds(cx, Or(eq(o['ret.#'], Ic(0)), eq(o['ret.#'], Ic(1)))))
# ---------------------------------------------------------------- dates
@lemma('C22', 'a later date-time of the same day is propagated by that many minutes more, to the nanosecond')
def _(cx):
    j = lambda **k: inst(cx, EXT + 'jday', **k)['ret']
    h, m, s, ns = formals('h2', 'm2', 's2', 'ns2')
    a = j() ; b = j(hr=h, minute=m, sec=s, msec=ns / 1.0e6)
    d = (b - a) * 1440.0
    want = (h - var('hr')) * 60.0 + (m - var('minute')) + (s - var('sec')) / 60.0 + (ns / 1.0e6 - var('msec')) / 60000.0
    return equal(cx, d, want)
# ---------------------------------------------------------------- geometry
@lemma('C24', 'the contract of sgp4 keeps the position outside one radius, on an orthonormal pair')
def _(cx):
    o = cx.c[PR + 'sgp4::sgp4'].outs
    P = [o['ret.Ok.0.position.' + c] for c in 'xyz']; V = [o['ret.Ok.0.velocity.' + c] for c in 'xyz']
    care = eq(o['ret.#'], Ic(0))
    return norm_is_checked_radius(care, P, V, 6378.137) + ', ' + free_of_angles(care, P, V)
