"""Calendar, Julian date, sidereal time."""
from ..spec import *

EXT = 'satellite::ext::'
GST = 'satellite::propogation::gstime::'

def days2mdhms(year, days):
    """day-of-year -> month, day, hour, minute, second by the Julian (every fourth year) leap rule"""
    doy = f2i(floor(days), 'uint', 64)
    leap = eq(year % Ic(4), 0)
    def table(feb):
        L = [31, feb, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        before = [sum(L[:m]) for m in range(12)]
        month, first = Ic(1), Ic(0)
        for m in range(1, 12):                 # month m+1 starts after day before[m]
            month = If(doy > before[m], Ic(m + 1), month)
            first = If(doy > before[m], Ic(before[m]), first)
        return month, first
    m29, f29 = table(29); m28, f28 = table(28)
    month, first = If(leap, m29, m28), If(leap, f29, f28)
    day = doy - first
    h = (days - i2f(doy)) * 24.0
    m = (h - floor(h)) * 60.0
    s = (m - floor(m)) * 60.0
    return dict(month=i2f(month), day=i2f(day), hour=floor(h), minute=floor(m), second=s)

def jday(y, mon, d, h, mi, s, ms):
    return 367.0 * y - floor(7.0 * (y + floor((mon + 9.0) / 12.0)) / 4.0) + floor(275.0 * mon / 9.0) + d + 1721013.5 \
        + (h + (mi + s / 60.0 + ms / 60000.0) / 60.0) / 24.0

def gstime(jd):
    T = (jd - 2451545.0) / 36525.0
    sec = 67310.54841 + (876600.0 * 3600.0 + 8640184.812866) * T + 0.093104 * T * T - 6.2e-6 * T * T * T
    r = (sec * (math.pi / 180.0) / 240.0) % F(TWOPI)
    return If(r < 0.0, r + TWOPI, r)

CHRONO = [('year', None), ('month', None), ('day', None), ('hour', None), ('minute', None), ('second', None), ('nanosecond', None)]
def chrono_leaf(t, field): return mk('chrono', (t,), field, 'I')

def install(cx):
    p = ['year', 'days']
    l = cx.leafpaths(EXT + 'days2mdhms', p)
    o = days2mdhms(l['year'], l['days'])
    cx.define(EXT + 'days2mdhms', p, {'ret.' + k: v for k, v in o.items()})
    p = ['year', 'mon', 'day', 'hr', 'minute', 'sec', 'msec']
    cx.define(EXT + 'jday', p, {'ret': jday(*formals(*p))})
    # from the fields of a DateTime<Utc>
    t = var('time', 'X')
    f = {k: i2f(chrono_leaf(t, k)) for k, _ in CHRONO}
    act = dict(zip(p, [f['year'], f['month'], f['day'], f['hour'], f['minute'], f['second'], f['nanosecond'] / 1.0e6]))
    jd = cx.call(EXT + 'jday', act)['ret']
    cx.define(EXT + 'jday_datetime', ['time'], {'ret': jd})
    cx.define(GST + 'gstime', ['jdut1'], {'ret': gstime(var('jdut1'))}, centre={'jdut1': (2451545.0, 36525.0)})
    j = cx.call(EXT + 'jday_datetime', {'time': var('datetime', 'X')})['ret']
    cx.define(GST + 'gstime_datetime', ['datetime'], {'ret': cx.call(GST + 'gstime', {'jdut1': j})['ret']})
