"""Vectors, angles, reference frames, look angles, doppler."""
from ..spec import *

TR = 'satellite::transforms::'
A, B = 6378.137, 6356.7523142
FL = (A - B) / A
E2 = 2 * FL - FL * FL

def install(cx):
    v = lambda n, s='F': var(n, s)
    V3 = lambda n: [var('%s.%s' % (n, c)) for c in 'xyz']
    def ret3(x, y, z): return {'ret.x': x, 'ret.y': y, 'ret.z': z}
    # --- vectors
    a, b = V3('self'), V3('by')
    cx.define('satellite::Vec3::add', ['self', 'by'], ret3(*[p + q for p, q in zip(a, b)]))
    cx.define('satellite::Vec3::subtract', ['self', 'by'], ret3(*[p - q for p, q in zip(a, b)]))
    t = V3('to')
    cx.define('satellite::Vec3::range', ['self', 'to'], {'ret': sqrt(sq(a[0] - t[0]) + sq(a[1] - t[1]) + sq(a[2] - t[2]))})
    # --- angle units
    R2D, D2R = 180.0 / PI, PI / 180.0
    cx.define(TR + 'radians_to_degrees', ['radians'], {'ret': v('radians') * R2D})
    cx.define(TR + 'degrees_to_radians', ['degrees'], {'ret': v('degrees') * D2R})
    for f, arg, lim, k in (('degrees_lat', 'radians', PI / 2, R2D), ('degrees_long', 'radians', PI, R2D),
                           ('radians_lat', 'degrees', 90.0, D2R), ('radians_long', 'degrees', 180.0, D2R)):
        x = v(arg)
        cx.define(TR + f, [arg], {'ret': x * k}, panics=(x < -lim) | (x > lim))
    # --- rotations about the polar axis by the sidereal angle
    x, y, z = V3('ecf'); g = v('gmst')
    cx.define(TR + 'ecf_to_eci', ['ecf', 'gmst'], ret3(cos(g) * x - sin(g) * y, sin(g) * x + cos(g) * y, z))
    x, y, z = V3('eci')
    cx.define(TR + 'eci_to_ecf', ['eci', 'gmst'], ret3(cos(g) * x + sin(g) * y, cos(g) * y - sin(g) * x, z))
    # --- WGS-84 ellipsoid
    lon, lat, h = v('geodetic.longitude'), v('geodetic.latitude'), v('geodetic.height')
    N = A / sqrt(1.0 - E2 * sq(sin(lat)))
    cx.define(TR + 'geodedic_to_ecf', ['geodetic'],
              ret3((N + h) * cos(lat) * cos(lon), (N + h) * cos(lat) * sin(lon), (N * (1.0 - E2) + h) * sin(lat)))
    # --- inverse: latitude by 20 steps of the fixed-point iteration from the geocentric latitude
    R = sqrt(sq(x) + sq(y))
    ph = atan2(z, R)
    for _ in range(20):
        Nc = A / sqrt(1.0 - E2 * sq(sin(ph)))
        ph = atan2(z + Nc * E2 * sin(ph), R)
    lonr = var('ret.longitude')
    base = atan2(y, x) - g
    cx.define(TR + 'eci_to_geodedic', ['eci', 'gmst'], {'ret.latitude': ph, 'ret.height': R / cos(ph) - Nc},
              havoc={'ret.longitude': 1},
              ensures=[('longitude within [-pi, pi]', lambda o: (o['ret.longitude'] >= -PI) & (o['ret.longitude'] <= PI)),
                       ('longitude is atan2(y, x) - gmst up to whole turns', lambda o: isint((o['ret.longitude'] - base) / TWOPI))])
    # --- topocentric (south, east, zenith) and look angles
    olon, olat = v('observer.longitude'), v('observer.latitude')
    oh = v('observer.height')
    S = V3('satellite')
    O = cx.call(TR + 'geodedic_to_ecf', {'geodetic.longitude': olon, 'geodetic.latitude': olat, 'geodetic.height': oh})
    dx, dy, dz = [p - O['ret.' + c] for p, c in zip(S, 'xyz')]
    e = cos(olon) * dy - sin(olon) * dx
    r = cos(olon) * dx + sin(olon) * dy
    cx.define(TR + 'topocentric', ['observer', 'satellite'],
              {'ret.top_s': sin(olat) * r - cos(olat) * dz, 'ret.top_e': e, 'ret.top_z': cos(olat) * r + sin(olat) * dz})
    s, e, zz = v('tc.top_s'), v('tc.top_e'), v('tc.top_z')
    rng = sqrt(sq(s) + sq(e) + sq(zz))
    cx.define(TR + 'topocentric_to_look_angles', ['tc'],
              {'ret.azimuth': atan2(-e, s) + PI, 'ret.elevation': asin(zz / rng), 'ret.range': rng})
    act = {'observer.longitude': olon, 'observer.latitude': olat, 'observer.height': oh}
    act.update({'satellite.' + c: n for c, n in zip('xyz', S)})
    T_ = cx.call(TR + 'topocentric', act)
    L = cx.call(TR + 'topocentric_to_look_angles', {'tc.' + k: T_['ret.' + k] for k in ('top_s', 'top_e', 'top_z')})
    cx.define(TR + 'ecf_to_look_angles', ['observer', 'satellite'], L)
    # --- doppler: relative speed is the change of range over one second
    l, p, w = V3('location'), V3('position'), V3('velocity')
    def dist(q): return cx.call('satellite::Vec3::range', dict([('self.' + c, n) for c, n in zip('xyz', q)] + [('to.' + c, n) for c, n in zip('xyz', l)]))['ret']
    nxt = [i + j for i, j in zip(p, w)]
    cx.define('satellite::doppler_factor::doppler_factor', ['location', 'position', 'velocity'],
              {'ret': 1.0 + absf(dist(nxt) - dist(p)) / 299792.458})
