"""Two-line element sets: the fixed columns of the two element lines, single and multiple entries."""
from ..spec import *
from ..stdmodel import pack
from ..exec import mu_nodes, Exec, State
from ..values import *
from .sgp4 import INIT
from .time import EXT

IO = 'satellite::io::'
ZERO, SATREC, T2S, PARSE, MULTI = IO + 'Satrec::zero', IO + 'parse_satrec', IO + 'twoline2satrec', IO + 'parse', IO + 'parse_multiple'
REV_DAY = 1440.0 / TWOPI                 # revolutions per day -> radians per minute
DEG = PI / 180.0
TUMIN = 13.446851082044981               # minutes per canonical time unit (WGS-84)

def record(cx, pre):
    """leaf paths of a Satrec and their sorts"""
    out = {}
    def leaf(path, sort, ty):
        n = leaf_var(cx.p, path, sort, ty); out[path] = n; return n
    build(cx.p, cx.byshort['Satrec'], pre, leaf, lambda v: v)
    return out

def blank(cx, pre):
    """a record with nothing in it"""
    out = {}
    for p, v in record(cx, pre).items():
        if p.endswith('name.Some.0'): continue
        out[p] = {'F': F(0.0), 'I': Ic(0), 'S': Sc(b''), 'B': FALSE}[v.sort]
    out[pre + '.init.#'] = cx.vidx('DpperInit', 'Y')
    out[pre + '.operationmode.#'] = cx.vidx('DpperOpsMode', 'I')
    out[pre + '.method.#'] = cx.vidx('InitlMethod', 'N')
    return out

def cols(line, lo, hi): return ite(get_ok(line, Ic(lo), Ic(hi)), sslice(line, Ic(lo), Ic(hi)), Sc(b''))

class Steps:
    """a sequence of steps each of which may fail with its own error; the first failure is the result"""
    def __init__(self, cx): self.cx = cx; self.l = []
    def check(self, ok, variant, *payload): self.l.append((ok, variant, payload))
    def number(self, line, name, lo, hi):
        t = strim(cols(line, lo, hi)); v = parse_val(t, 'f64')
        self.check(And(parse_ok(t, 'f64'), finite(v)), 'FloatParseError', Sc(name.encode()), Ic(lo), Ic(hi), cols(line, lo, hi))
        return v
    def integer(self, line, name, lo, hi):
        t = strim(cols(line, lo, hi))
        self.check(parse_ok(t, 'i64'), 'IntParseError', Sc(name.encode()), Ic(lo), Ic(hi), cols(line, lo, hi))
        return parse_val(t, 'i64')
    def built(self, text, name):
        t = strim(text)
        self.check(parse_ok(t, 'f64'), 'CompoundError', Sc(name.encode()), text)
        return parse_val(t, 'f64')
    def result(self):
        o = {}; care = {}
        bad = Ic(0); which = Ic(0)
        for ok, v, p in reversed(self.l):
            bad = ite(ok, bad, Ic(1)); which = ite(ok, which, self.cx.vidx('SatrecParseError', v))
        o['ret.#'] = bad; o['ret.Err.0.#'] = which
        for v in {v for _, v, _ in self.l}:
            n = max(len(p) for _, w, p in self.l if w == v)
            for j in range(n):
                r = None
                for ok, w, p in reversed(self.l):
                    if w == v: r = p[j] if r is None else ite(ok, r, p[j])
                o['ret.Err.0.%s.%d' % (v, j)] = r
        return o

def parse_satrec(cx, a, b):
    s = Steps(cx)
    r = blank(cx, 'ret.Ok.0')
    S = lambda k, v: r.__setitem__('ret.Ok.0.' + k, v)
    s.check(get_ok(a, Ic(2), Ic(7)), 'CompoundError', Sc(b'satnum'), a)
    S('satnum', strim(sslice(a, Ic(2), Ic(7))))
    yr = s.integer(a, 'epochyr', 18, 20)
    dy = s.number(a, 'epochdays', 20, 32)
    S('epochyr', yr); S('epochdays', dy)
    S('ndot', s.number(a, 'ndot', 33, 43) / (REV_DAY * 1440.0))
    # an assumed decimal point before the digits, and an exponent
    s.integer(a, 'nndot frac', 44, 50)
    S('nddot', s.built(sconcat([cols(a, 44, 45), Sc(b'.'), strim(cols(a, 45, 50)), Sc(b'E'), cols(a, 50, 52)]), 'nndot') / (REV_DAY * 1440.0 * 1440.0))
    s.integer(a, 'bstar frac', 54, 59)
    S('bstar', s.built(sconcat([cols(a, 53, 54), Sc(b'.'), strim(cols(a, 54, 59)), Sc(b'E'), cols(a, 59, 61)]), 'bstr'))
    S('inclo', s.number(b, 'inclo', 8, 16) * DEG)
    S('nodeo', s.number(b, 'nodeo', 17, 25) * DEG)
    e = s.built(sconcat([Sc(b'.'), strim(cols(b, 26, 33))]), 'ecco')
    S('ecco', e)
    S('argpo', s.number(b, 'argpo', 34, 42) * DEG)
    S('mo', s.number(b, 'mo', 43, 51) * DEG)
    no = s.number(b, 'no', 52, 63) / REV_DAY
    S('no', no)
    ax = fpowr(no * TUMIN, -2.0 / 3.0)
    S('a', ax); S('alta', ax * (1.0 + e) - 1.0); S('altp', ax * (1.0 - e) - 1.0)
    year = If(yr < 57, yr + 2000, yr + 1900)
    d = cx.call(EXT + 'days2mdhms', dict(year=wrap(year, 'uint', 64), days=dy))
    S('jdsatepoch', cx.call(EXT + 'jday', dict(year=i2f(year), mon=d['ret.month'], day=d['ret.day'], hr=d['ret.hour'],
                                               minute=d['ret.minute'], sec=d['ret.second'], msec=F(0.0)))['ret'])
    r.update(s.result())
    return r

OPTS = dict(xbstar='bstar', xecco='ecco', xargpo='argpo', xinclo='inclo', xmo='mo', xno='no', xnodeo='nodeo', satn='satnum')
def twoline2satrec(cx, P):
    """decode, then initialise"""
    ok = eq(P['ret.#'], Ic(0))
    f = {p[len('ret.Ok.0.'):]: v for p, v in P.items() if p.startswith('ret.Ok.0.')}
    act = {'satrec.' + k: v for k, v in f.items()}
    act.update({'options.' + k: f[v] for k, v in OPTS.items()})
    act['options.epoch'] = f['jdsatepoch'] - 2433281.5
    act['options.opsmode.#'] = cx.vidx('DpperOpsMode', 'I')
    R = cx.call(INIT, act)
    o = {'ret.#': If(ok, R['ret.#'], Ic(1)), 'ret.Err.0.#': If(ok, cx.vidx('SatrecParseError', 'Sgp4InitError'), P['ret.Err.0.#']),
         'ret.Err.0.Sgp4InitError.0.#': R['ret.Err.0.#']}
    for p, v in P.items():
        if p.startswith('ret.Err.0.') and p != 'ret.Err.0.#': o[p] = v
    for k, v in f.items(): o['ret.Ok.0.' + k] = R.get('satrec.' + k, v)
    return o

def lines_of(text):
    """the lines of a text that are not blank"""
    q = mk('splitq', (text, Sc(b'\n')), None, 'Q')
    x = var('$elem', 'S')
    return mk('filterq', (q, mk('lam', (x, Not(sempty(strim(x)))), None, 'X')), None, 'Q')
def line(q, i): return mk('nth', (q, i), None, 'S')
def count(q): return mk('qlen', (q,), None, 'I')
def title(l):
    return ite(eq(sbyte(l, Ic(0)), Ic(48)), strim(ite(get_ok(l, Ic(2), None), sslice(l, Ic(2), None), Sc(b''))), strim(l))

def parse(cx, text):
    q = lines_of(text); n = count(q)
    three, two = eq(n, 3), eq(n, 2)
    A3 = cx.call(T2S, {'str1': line(q, Ic(1)), 'str2': line(q, Ic(2))})
    A2 = cx.call(T2S, {'str1': line(q, Ic(0)), 'str2': line(q, Ic(1))})
    numbered = lambda i, j: And(eq(sbyte(line(q, Ic(i)), Ic(0)), Ic(49)), eq(sbyte(line(q, Ic(j)), Ic(0)), Ic(50)))
    good = Or(And(three, numbered(1, 2)), And(two, numbered(0, 1)))
    o = {}
    for p in A3: o[p] = ite(three, A3[p], A2[p])
    o['ret.#'] = If(good, o['ret.#'], Ic(1))
    o['ret.Err.0.#'] = If(Or(three, two), If(good, o['ret.Err.0.#'], cx.vidx('SatrecParseError', 'InvalidTLELineCheckFailed')),
                          cx.vidx('SatrecParseError', 'InvalidTLEBadLineCount'))
    o['ret.Ok.0.name.#'] = If(three, Ic(1), Ic(0))
    o['ret.Ok.0.name.Some.0'] = title(line(q, Ic(0)))
    return o

def parse_multiple(cx, text):
    """entry by entry: a title and two lines (3 lines), or two lines; the rest is reported line by line"""
    q = lines_of(text); n = count(q)
    i, R, E = var('$i', 'I'), var('$recs', 'Q'), var('$errs', 'Q')
    ex, st = Exec(cx.p, {}), State(TRUE, {})
    ety = cx.byshort['SatrecParseError']
    def entry(k, titled):
        v, _ = cx.c[T2S].apply(ex, st, [line(q, i + k), line(q, i + k + 1)], None)
        rec, err = v.vs[0][0], v.vs[1][0]
        if titled:
            ty = cx.p.types[rec.ty]['variants'][0]['fields']
            j = [f[0] for f in ty].index('name')
            vals = list(rec.vals); vals[j] = Enum(Ic(1), {0: (), 1: (title(line(q, i)),)}, ty[j][1])
            rec = Agg(vals, rec.ty)
        return eq(v.discr, Ic(0)), rec, err
    def failed(err): return Enum(cx.vidx('SatrecParseError', 'SatrecMultiError'), {6: (i, ex.new_alloc(st, err))}, ety)
    push = lambda s, v: mk('push', (s, pack(ex, st, v)), None, 'Q')
    starts = lambda k, c: eq(sbyte(line(q, i + k), Ic(0)), Ic(ord(c)))
    pair = i + 1 < n
    bare = And(pair, starts(0, '1'), starts(1, '2'))
    titled = And(Not(bare), i + 2 < n)
    ok3, rec3, err3 = entry(1, True); ok2, rec2, err2 = entry(0, False)
    short = Enum(cx.vidx('SatrecParseError', 'InvalidTLEBadLineCount'), {5: ()}, ety)
    step = If(titled, Ic(3), If(pair, Ic(2), Ic(1)))
    cx.multi_step = i, n, step
    upd = {i.id: i + step,
           R.id: If(titled, If(ok3, push(R, rec3), R), If(And(pair, ok2), push(R, rec2), R)),
           E.id: If(titled, If(ok3, E, push(E, failed(err3))), If(pair, If(ok2, E, push(E, failed(err2))), push(E, failed(short))))}
    init = {i.id: Ic(0), R.id: mk('emptyq', (), None, 'Q'), E.id: mk('emptyq', (), None, 'Q')}
    m = mu_nodes([i, R, E], init, i < n, upd, [R, E])
    return {'ret.0': m[R.id], 'ret.1': m[E.id]}

def install(cx):
    zb = blank(cx, 'ret')
    cx.define(ZERO, [], zb)
    cx.define(SATREC, ['str1', 'str2'], parse_satrec(cx, var('str1', 'S'), var('str2', 'S')))
    P = cx.call(SATREC, {'str1': var('str1', 'S'), 'str2': var('str2', 'S')})
    # a decoding error is never an initialisation error (parse_satrec), so its code is specified after decoding only
    cx.define(T2S, ['str1', 'str2'], twoline2satrec(cx, P), care={'ret.Err.0.Sgp4InitError.0.#': eq(P['ret.#'], Ic(0))})
    cx.define(PARSE, ['string'], parse(cx, var('string', 'S')))
    cx.define(MULTI, ['string'], parse_multiple(cx, var('string', 'S')))
