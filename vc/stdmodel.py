"""Models of the library functions the crate uses (and close relatives). Each one is an assumed
contract on a dependency; the names that were used are listed in the evidence."""
import re
from .terms import *
from .mir import *
from .values import *

class Ret:
    def __init__(self, v, st): self.v = v; self.st = st

def short(name):
    return re.sub(r'\{closure@[^}]*\}', '{closure}', name)

# ---------------------------------------------------------------- sequences
def nth(q, i):
    if q.op == 'bytes': return sbyte(q.args[0], i)
    return mk('nth', (q, i), None, elem_sort(q))
def qlen(q):
    if q.op == 'emptyq': return Ic(0)
    if q.op == 'bytes': return slen(q.args[0])
    if q.op == 'push': return iadd(qlen(q.args[0]), Ic(1))
    n = mk('qlen', (q,), None, 'I')
    BOUNDS[n.id] = (0, (1 << 59))
    return n
def empty_seq(t=None): return mk('emptyq', (), None, 'Q')
def length(ex, st, x):
    if isinstance(x, (Ref, RefIte)): x = ex.read_ref(st, x)
    if isinstance(x, Agg): return Ic(len(x.vals))
    if isinstance(x, Node) and x.sort == 'Q': return qlen(x)
    if isinstance(x, Node) and x.sort == 'S': return slen_(x)
    raise Unsupported('length of %r' % (x,))
def slen_(s):
    n = slen(s)
    if n.op != 'i': BOUNDS.setdefault(n.id, (0, (1 << 63) - 1))
    return n

def some(ex, dty, *v): return Enum(Ic(1), {1: tuple(v), 0: ()}, dty)
def option(c, v, dty=None):
    """Some(v) if c else None"""
    return Enum(ite(c, Ic(1), Ic(0)), {0: (), 1: (v,)}, dty)
def result(c, ok, err, dty=None):
    return Enum(ite(c, Ic(0), Ic(1)), {0: (ok,), 1: (err,)}, dty)

def deref(ex, st, v, kinds=None):
    n = 0
    while isinstance(v, (Ref, RefIte)) or (isinstance(v, Model) and v.kind == 'valref'):
        v = v.data[0] if isinstance(v, Model) else ex.read_ref(st, v)
        n += 1
        if n > 6: raise Unsupported('deref chain')
    return v

# ---------------------------------------------------------------- packing values into one node
def leaves_of(ex, st, v, pre=''):
    """flat list (path, node) of a value, following references"""
    if v is UNDEF: return [(pre, mk('undef', (), None, 'X'))]
    if isinstance(v, Node): return [(pre, v)]
    if isinstance(v, (Ref, RefIte)): return leaves_of(ex, st, ex.read_ref(st, v), pre)
    if isinstance(v, Agg):
        t = ex.p.types.get(v.ty) if v.ty is not None else None
        names = None
        if t and t['k'] == 'adt': names = [f[0] for f in t['variants'][0]['fields']]
        out = []
        for i, x in enumerate(v.vals): out += leaves_of(ex, st, x, pre + '.' + (names[i] if names else str(i)))
        return out
    if isinstance(v, Enum):
        out = [(pre + '.#', v.discr)]
        for k in sorted(v.vs):
            c = ieq(v.discr, Ic(k))
            if c is FALSE: continue
            for i, x in enumerate(v.vs[k]):
                for p, n in leaves_of(ex, st, x, '%s.%d.%d' % (pre, k, i)):
                    out.append((p, restrict(n, c)))
        return out
    if isinstance(v, Model) and v.kind in ('valref', 'box'): return leaves_of(ex, st, v.data[0], pre)
    raise Unsupported('cannot flatten %r' % (v,))
def pack(ex, st, v):
    if isinstance(v, Node): return v
    # choices of whole enum values are kept as choices of packs
    l = leaves_of(ex, st, v)
    d = l[0][1] if l and l[0][0] == '.#' else None
    if d is not None and d.op != 'i' and isinstance(v, Enum):
        r = None
        for k in sorted(v.vs, reverse=True):
            c = ieq(d, Ic(k))
            if c is FALSE: continue
            w = pack(ex, st, Enum(Ic(k), {k: tuple(_restrictv(x, c) for x in v.vs[k])}, v.ty))
            r = w if r is None else ite(c, w, r)
        return r
    return mk('pack', [n for _, n in l], tuple(p for p, _ in l), 'X')
def _restrictv(x, c):
    from .exec import vmap
    return vmap(x, lambda n: restrict(n, c))

# ---------------------------------------------------------------- registry
EXACT = {}
PATT = []
def model(*pats):
    def deco(f):
        for p in pats:
            if p.startswith('~'): PATT.append((re.compile(p[1:] + '$'), f))
            else: EXACT[p] = f
        return f
    return deco
_cache = {}
def lookup(inst):
    n = inst['name']
    if n in _cache: return _cache[n]
    f = EXACT.get(n)
    if f is None and inst.get('intrinsic'): f = EXACT.get('intrinsic:' + inst['intrinsic'])
    if f is None:
        for p, g in PATT:
            if p.match(n): f = g; break
    _cache[n] = f
    return f

# ---------------------------------------------------------------- f64
def _f1(op): return lambda ex, st, a, dty, inst: fop(op, a[0])
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'abs', 'exp', 'ln', 'cbrt'):
    for _m in ('std', 'core'):
        EXACT['%s::f64::<impl f64>::%s' % (_m, _n)] = _f1(_n)
def _reg(names, f):
    for n in names:
        for m in ('std', 'core'): EXACT['%s::f64::<impl f64>::%s' % (m, n)] = f
_reg(['atan2'], lambda ex, st, a, d, i: fatan2(a[0], a[1]))
_reg(['powf'], lambda ex, st, a, d, i: fpow(a[0], a[1]))
_reg(['powi'], lambda ex, st, a, d, i: fpowi(a[0], a[1]))
_reg(['hypot'], lambda ex, st, a, d, i: fsqrt(fadd(fmul(a[0], a[0]), fmul(a[1], a[1]))))
_reg(['sin_cos'], lambda ex, st, a, d, i: Agg((fsin(a[0]), fcos(a[0]))))
_reg(['to_radians'], lambda ex, st, a, d, i: fmul(a[0], F(0.017453292519943295)))
_reg(['to_degrees'], lambda ex, st, a, d, i: fmul(a[0], F(57.29577951308232)))
_reg(['recip'], lambda ex, st, a, d, i: fdiv(F(1.0), a[0]))
_reg(['mul_add'], lambda ex, st, a, d, i: fadd(fmul(a[0], a[1]), a[2]))
_reg(['is_finite'], lambda ex, st, a, d, i: finite(a[0]))
_reg(['is_nan'], lambda ex, st, a, d, i: isnan(a[0]))
_reg(['is_infinite'], lambda ex, st, a, d, i: And(Not(finite(a[0])), Not(isnan(a[0]))))
_reg(['max'], lambda ex, st, a, d, i: ite(flt(a[0], a[1]), a[1], a[0]))
_reg(['min'], lambda ex, st, a, d, i: ite(flt(a[1], a[0]), a[1], a[0]))
_reg(['copysign'], lambda ex, st, a, d, i: fop('copysign', a[0], a[1]))
_reg(['signum'], lambda ex, st, a, d, i: fop('copysign', F(1.0), a[0]))
_reg(['is_sign_negative'], lambda ex, st, a, d, i: mk('signbit', (a[0],), None, 'B'))
_reg(['is_sign_positive'], lambda ex, st, a, d, i: Not(mk('signbit', (a[0],), None, 'B')))
_reg(['fract'], lambda ex, st, a, d, i: fsub(a[0], fop('trunc', a[0])))
def _clamp(ex, st, a, d, i): 
    x = ite(flt(a[0], a[1]), a[1], a[0])
    return ite(flt(a[2], x), a[2], x)
_reg(['clamp'], _clamp)
def _rem_euclid(ex, st, a, d, i):
    r = frem(a[0], a[1])
    return ite(flt(r, F(0.0)), fadd(r, fabs(a[1])), r)
_reg(['rem_euclid'], _rem_euclid)

# operator traits on f64 / references to f64
_OPS = {'Add': (fadd, iadd), 'Sub': (fsub, isub), 'Mul': (fmul, imul), 'Div': (fdiv, None), 'Rem': (frem, None)}
@model(r'~std::ops::arith::<impl std::ops::(Add|Sub|Mul|Div|Rem)<&?f64> for &?f64>::\w+', r"~<&?f64 as std::ops::(Add|Sub|Mul|Div|Rem)(<&?f64>)?>::\w+")
def _farith(ex, st, a, dty, inst):
    m = re.search(r'(Add|Sub|Mul|Div|Rem)', inst['name']).group(1)
    return _OPS[m][0](deref(ex, st, a[0]), deref(ex, st, a[1]))
@model(r'~std::ops::arith::<impl std::ops::Neg for &?f64>::neg')
def _fnegm(ex, st, a, dty, inst): return fneg(deref(ex, st, a[0]))
@model(r'~std::ops::arith::<impl std::ops::(Add|Sub|Mul|Div|Rem)Assign<&?f64> for f64>::\w+')
def _fassign(ex, st, a, dty, inst):
    m = re.search(r'(Add|Sub|Mul|Div|Rem)Assign', inst['name']).group(1)
    ex.write_ref(st, a[0], _OPS[m][0](deref(ex, st, a[0]), deref(ex, st, a[1])))
    return UNIT

# ---------------------------------------------------------------- integers
@model('~core::num::<impl (\\w+)>::(wrapping_add|wrapping_sub|wrapping_mul|saturating_sub|saturating_add|abs|pow|rem_euclid|min|max|unsigned_abs|checked_add|checked_sub)',
       '~std::cmp::(Ord|impls::<impl std::cmp::Ord for \\w+>)::(min|max)')
def _int(ex, st, a, dty, inst):
    m = re.match(r'core::num::<impl ([iu])(\w+)>::(\w+)', inst['name'])
    if not m: return NotImplemented
    kind = 'int' if m.group(1) == 'i' else 'uint'
    bits = 64 if m.group(2) == 'size' else int(m.group(2))
    op = m.group(3); lo, hi = INT_RANGE[(kind, bits)]
    if op == 'wrapping_add': return wrap(iadd(*a), kind, bits)
    if op == 'wrapping_sub': return wrap(isub(*a), kind, bits)
    if op == 'wrapping_mul': return wrap(imul(*a), kind, bits)
    if op in ('saturating_sub', 'saturating_add'):
        r = (isub if op[-3:] == 'sub' else iadd)(*a)
        return ite(ilt(r, Ic(lo)), Ic(lo), ite(ilt(Ic(hi), r), Ic(hi), r))
    if op in ('checked_sub', 'checked_add'):
        r = (isub if op[-3:] == 'sub' else iadd)(*a)
        return option(And(ile(Ic(lo), r), ile(r, Ic(hi))), r, dty)
    if op == 'abs':
        return ite(ilt(a[0], Ic(0)), imul(Ic(-1), a[0]), a[0])
    if op == 'rem_euclid' and a[1].op == 'i' and a[1].k > 0: return mk('imod', (a[0], a[1]), None, 'I') if a[0].op != 'i' else Ic(a[0].k % a[1].k)
    return NotImplemented
@model('~<(i|u)(8|16|32|64|size) as std::cmp::Ord>::(min|max)', '~std::cmp::impls::<impl std::cmp::Ord for \\w+>::(min|max)')
def _iminmax(ex, st, a, dty, inst):
    return ite(ilt(a[0], a[1]), a[0], a[1]) if inst['name'].endswith('min') else ite(ilt(a[0], a[1]), a[1], a[0])
@model('~std::cmp::impls::<impl std::cmp::Partial(Eq|Ord) for .*>::(eq|ne|lt|le|gt|ge)')
def _cmp(ex, st, a, dty, inst):
    x, y = deref(ex, st, a[0]), deref(ex, st, a[1])
    op = inst['name'].rsplit('::', 1)[1]
    if not (isinstance(x, Node) and isinstance(y, Node)):
        return NotImplemented
    if x.sort == 'S':
        if op == 'eq': return seq_(x, y)
        if op == 'ne': return Not(seq_(x, y))
        return NotImplemented
    if x.sort == 'B': return Iff(x, y) if op == 'eq' else Not(Iff(x, y)) if op == 'ne' else NotImplemented
    L, E, Q = (flt, fle, feq) if x.sort == 'F' else (ilt, ile, ieq)
    return {'eq': lambda: Q(x, y), 'ne': lambda: Not(Q(x, y)), 'lt': lambda: L(x, y), 'le': lambda: E(x, y),
            'gt': lambda: L(y, x), 'ge': lambda: E(y, x)}[op]()
@model('~std::clone::impls::<impl std::clone::Clone for .*>::clone')
def _clone(ex, st, a, dty, inst): return ex.read_ref(st, a[0]) if isinstance(a[0], (Ref, RefIte)) else deref(ex, st, a[0])
@model('<std::string::String as std::clone::Clone>::clone', '<std::string::String as std::convert::From<&str>>::from',
       '<str as std::string::ToString>::to_string', '<std::string::String as std::string::ToString>::to_string',
       '~<(std::string::String|str) as std::string::SpecToString>::spec_to_string', '~alloc::str::<impl .*>::(to_owned|to_string|into_string)',
       '~std::str::<impl .*>::(to_owned|to_string|into_string)',
       '<std::string::String as std::ops::Deref>::deref', '~std::string::String::(as_str|into_boxed_str)', '<std::string::String as std::convert::AsRef<str>>::as_ref',
       '<&str as std::convert::Into<std::string::String>>::into', '<str as std::borrow::ToOwned>::to_owned',
       '~<&?&?(str|std::string::String) as .*ToString>::to_string', '<std::string::String as std::borrow::Borrow<str>>::borrow')
def _str_id(ex, st, a, dty, inst):
    v = deref(ex, st, a[0])
    if not isinstance(v, Node) or v.sort != 'S': raise Unsupported('string conversion of %r' % (v,))
    return v
@model('<std::option::Option<std::string::String> as std::clone::Clone>::clone', '~<std::option::Option<.*> as std::clone::Clone>::clone')
def _optclone(ex, st, a, dty, inst): return deref(ex, st, a[0])
@model('std::string::String::new', '~<std::string::String as std::default::Default>::default', 'std::string::String::with_capacity')
def _snew(ex, st, a, dty, inst): return Sc(b'')
@model('std::string::String::push_str')
def _push_str(ex, st, a, dty, inst):
    ex.write_ref(st, a[0], sconcat([deref(ex, st, a[0]), deref(ex, st, a[1])])); return UNIT
@model('std::string::String::push')
def _spush(ex, st, a, dty, inst):
    if a[1].op != 'i': return NotImplemented
    ex.write_ref(st, a[0], sconcat([deref(ex, st, a[0]), Sc(chr(a[1].k))])); return UNIT
@model('~<std::string::String as std::ops::Add<&str>>::add')
def _sadd(ex, st, a, dty, inst): return sconcat([deref(ex, st, a[0]), deref(ex, st, a[1])])
@model('~<\\[.*\\]>::(concat|join)::<.*>', '~alloc::slice::<impl \\[.*\\]>::(concat|join)::<.*>', '~std::slice::<impl \\[.*\\]>::(concat|join)::<.*>')
def _sjoin(ex, st, a, dty, inst):
    v = deref(ex, st, a[0])
    if not isinstance(v, Agg): return NotImplemented
    parts = [deref(ex, st, x) for x in v.vals]
    if not all(isinstance(x, Node) and x.sort == 'S' for x in parts): return NotImplemented
    if '::join' in inst['name']:
        sep = deref(ex, st, a[1]); out = []
        for i, x in enumerate(parts): out += ([sep] if i else []) + [x]
        parts = out
    return sconcat(parts)
@model('~std::hint::must_use::<.*>', '~std::convert::identity::<.*>', '~<.* as std::convert::From<.*>>::from', '~<.* as std::convert::Into<.*>>::into')
def _id(ex, st, a, dty, inst):
    n = inst['name']
    m = re.match(r'<(.*) as std::convert::From<(.*)>>::from$', n)
    if m:
        if m.group(1) == m.group(2): return a[0]
        if m.group(1) == 'f64' and re.match(r'[iu](8|16|32)$', m.group(2)): return i2f(a[0])
        if re.match(r'[iu]\d+$', m.group(1)) and re.match(r'[iu]\d+$', m.group(2)): return a[0]
        return NotImplemented
    m = re.match(r'<(.*) as std::convert::Into<(.*)>>::into$', n)
    if m:
        if m.group(1) == m.group(2): return a[0]
        if m.group(2) == 'f64' and re.match(r'[iu](8|16|32)$', m.group(1)): return i2f(a[0])
        return NotImplemented
    return a[0]
@model('~std::convert::num::<impl std::convert::From<(\\w+)> for f64>::from')
def _num_from(ex, st, a, dty, inst): return i2f(a[0])

# ---------------------------------------------------------------- str
@model('core::str::<impl str>::trim')
def _trim(ex, st, a, dty, inst): return strim(a[0])
@model('core::str::<impl str>::len', 'std::string::String::len')
def _len(ex, st, a, dty, inst): return slen_(deref(ex, st, a[0]))
@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def _isempty(ex, st, a, dty, inst): return sempty(deref(ex, st, a[0]))
@model('core::str::<impl str>::is_char_boundary')
def _icb(ex, st, a, dty, inst): return get_ok(a[0], a[1], None)
def _range(ex, st, v, ty_name):
    v = deref(ex, st, v)
    n = ty_name
    if 'RangeFull' in n: return Ic(0), None
    if 'RangeFrom' in n: return v.vals[0], None
    if 'RangeToInclusive' in n: return Ic(0), iadd(v.vals[0], Ic(1))
    if 'RangeTo' in n: return Ic(0), v.vals[0]
    if 'RangeInclusive' in n: return v.vals[0], iadd(v.vals[1], Ic(1))
    return v.vals[0], v.vals[1]
@model('~core::str::<impl str>::get::<.*>')
def _get(ex, st, a, dty, inst):
    lo, hi = _range(ex, st, a[1], inst['name'])
    return option(get_ok(a[0], lo, hi), sslice(a[0], lo, hi), dty)
@model('~core::str::traits::<impl std::ops::Index<.*> for str>::index', '~<str as std::ops::Index<.*>>::index', '~<std::string::String as std::ops::Index<.*>>::index',
       '~<std::string::String as std::ops::Index<std::ops::.*>>::index')
def _sindex(ex, st, a, dty, inst):
    from .exec import Panic
    s = deref(ex, st, a[0])
    lo, hi = _range(ex, st, a[1], inst['name'])
    ok = get_ok(s, lo, hi)
    bad = And(st.guard, Not(ok))
    if bad is not FALSE:
        ex.panics.append(Panic(bad, 'str slice out of range or not on a character boundary', ex.stack[-1]))
        st.guard = And(st.guard, ok)
    return sslice(s, lo, hi)
@model('~core::str::<impl str>::parse::<.*>', '~<(f64|i\\d+|u\\d+|isize|usize) as std::str::FromStr>::from_str')
def _parse(ex, st, a, dty, inst):
    m = re.search(r'parse::<(\w+)>$', inst['name']) or re.match(r'<(\w+) as', inst['name'])
    ty = m.group(1)
    if ty not in ('f64', 'i64', 'i32', 'u32', 'u64', 'usize', 'u8', 'u16', 'i16', 'i8'): return NotImplemented
    err = mk('parseerr', (a[0],), ty, 'X')
    return result(parse_ok(a[0], ty), parse_val(a[0], ty), err, dty)
def _pat(ex, st, p):
    p = deref(ex, st, p)
    if isinstance(p, Node) and p.sort == 'S' and p.op == 's': return p
    if isinstance(p, Node) and p.sort == 'I' and p.op == 'i': return Sc(chr(p.k))
    return None
def starts_with(s, p):
    if len(p.k) == 1 and p.k[0] < 128:
        return ieq(sbyte(s, Ic(0)), Ic(p.k[0]))
    if s.op == 's': return Bc(s.k.startswith(p.k))
    return mk('starts', (s, p), None, 'B')
@model('~core::str::<impl str>::starts_with::<.*>')
def _starts(ex, st, a, dty, inst):
    p = _pat(ex, st, a[1])
    if p is None: return NotImplemented
    return starts_with(a[0], p)
@model('~core::str::<impl str>::strip_prefix::<.*>')
def _strip(ex, st, a, dty, inst):
    p = _pat(ex, st, a[1])
    if p is None: return NotImplemented
    return option(starts_with(a[0], p), sslice(a[0], Ic(len(p.k)), None), dty)
@model('core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes', 'core::str::<impl str>::bytes')
def _bytes(ex, st, a, dty, inst):
    q = mk('bytes', (deref(ex, st, a[0]),), None, 'Q')
    return Model('qiter', q, Ic(0)) if inst['name'].endswith('::bytes') else q
@model('~core::str::<impl str>::split::<.*>')
def _split(ex, st, a, dty, inst):
    p = _pat(ex, st, a[1])
    if p is None: return NotImplemented
    return Model('qiter', mk('splitq', (a[0], p), None, 'Q'), Ic(0))
@model('core::str::<impl str>::lines')
def _lines(ex, st, a, dty, inst):
    return Model('qiter', mk('linesq', (a[0],), None, 'Q'), Ic(0))
@model('core::str::<impl str>::chars')
def _chars(ex, st, a, dty, inst):
    return Model('chars', a[0])

# ---------------------------------------------------------------- formatting
@model('~core::fmt::rt::Argument::<.*>::new_display::<.*>')
def _disp(ex, st, a, dty, inst):
    v = deref(ex, st, a[0])
    if not isinstance(v, Node): return NotImplemented
    if v.sort == 'S': return Model('fmtarg', v)
    return Model('fmtarg', mk('disp', (v,), re.search(r'new_display::<(.*)>', inst['name']).group(1), 'S'))
@model('~core::fmt::rt::Argument::<.*>::new_debug::<.*>')
def _dbg(ex, st, a, dty, inst):
    v = deref(ex, st, a[0])
    if not isinstance(v, Node): return NotImplemented
    return Model('fmtarg', mk('disp', (v,), 'debug', 'S'))
@model('~std::fmt::Arguments::<.*>::new::<\\d+, \\d+>')
def _fargs(ex, st, a, dty, inst):
    t = deref(ex, st, a[0]); args = deref(ex, st, a[1])
    bs = [x.k for x in t.vals]
    parts = []; i = 0; n = 0
    while i < len(bs):
        b = bs[i]
        if b == 0: break
        if b == 192:
            x = args.vals[n]; n += 1; i += 1
            if not (isinstance(x, Model) and x.kind == 'fmtarg'): raise Unsupported('format argument')
            parts.append(x.data[0])
        elif b < 128: parts.append(Sc(bytes(bs[i + 1:i + 1 + b]))); i += 1 + b
        else: raise Unsupported('format specification')
    return Model('fmt', *parts)
@model('~std::fmt::Arguments::<.*>::(from_str|new_const|from_str_nonconst)(::<.*>)?')
def _fconst(ex, st, a, dty, inst):
    v = deref(ex, st, a[0])
    if isinstance(v, Node) and v.sort == 'S': return Model('fmt', v)
    return NotImplemented
@model('std::fmt::format', 'alloc::fmt::format')
def _format(ex, st, a, dty, inst):
    if not (isinstance(a[0], Model) and a[0].kind == 'fmt'): return NotImplemented
    return sconcat(a[0].data)

# ---------------------------------------------------------------- Vec and iterators
@model('~std::vec::Vec::<.*>::(new|with_capacity)')
def _vnew(ex, st, a, dty, inst): return empty_seq()
@model('~std::vec::Vec::<.*>::push')
def _vpush(ex, st, a, dty, inst):
    q = deref(ex, st, a[0])
    if not (isinstance(q, Node) and q.sort == 'Q'): return NotImplemented
    ex.write_ref(st, a[0], mk('push', (q, pack(ex, st, a[1])), None, 'Q'))
    return UNIT
@model('~std::vec::Vec::<.*>::len', '~core::slice::<impl \\[.*\\]>::len')
def _vlen(ex, st, a, dty, inst): return length(ex, st, a[0])
@model('~std::vec::Vec::<.*>::is_empty', '~core::slice::<impl \\[.*\\]>::is_empty')
def _vempty(ex, st, a, dty, inst): return ieq(length(ex, st, a[0]), Ic(0))
@model('~<std::vec::Vec<.*> as std::ops::Deref>::deref', '~std::vec::Vec::<.*>::as_slice')
def _vderef(ex, st, a, dty, inst): return a[0] if isinstance(ex.read_ref(st, a[0]), Agg) else deref(ex, st, a[0])
@model('~<std::vec::Vec<.*> as std::ops::Index<usize>>::index', '~core::slice::index::<impl std::ops::Index<usize> for \\[.*\\]>::index')
def _vindex(ex, st, a, dty, inst):
    from .exec import Panic
    q = deref(ex, st, a[0])
    if not (isinstance(q, Node) and q.sort == 'Q'): return NotImplemented
    bad = And(st.guard, Not(And(ile(Ic(0), a[1]), ilt(a[1], qlen(q)))))
    if bad is not FALSE: ex.panics.append(Panic(bad, 'index out of bounds', ex.stack[-1]))
    e = nth(q, a[1])
    return Model('valref', e)
@model('~core::slice::<impl \\[.*\\]>::(get|first|last)(::<usize>)?', '~std::vec::Vec::<.*>::(get|first|last)(::<usize>)?')
def _qget(ex, st, a, dty, inst):
    q = deref(ex, st, a[0])
    if not (isinstance(q, Node) and q.sort == 'Q'): return NotImplemented
    op = re.search(r'::(get|first|last)(::<usize>)?$', inst['name']).group(1)
    i = Ic(0) if op == 'first' else isub(qlen(q), Ic(1)) if op == 'last' else a[1]
    return option(And(ile(Ic(0), i), ilt(i, qlen(q))), Model('valref', nth(q, i)), dty)
@model('~<.* as std::iter::IntoIterator>::into_iter')
def _into_iter(ex, st, a, dty, inst):
    v = a[0]
    if isinstance(v, Model): return v
    if isinstance(v, Agg):
        t = ex.p.types.get(v.ty) if v.ty is not None else None
        if t is not None and t['k'] == 'adt': return v          # Range and friends
        return Model('arr', Ic(0), *v.vals)
    if isinstance(v, Node) and v.sort == 'Q': return Model('qiter', v, Ic(0))
    if isinstance(v, (Ref, RefIte)):
        w = ex.read_ref(st, v)
        if isinstance(w, Agg): return Model('arr', Ic(0), *[ex.ref_step(v, ('i', Ic(i))) for i in range(len(w.vals))])
        if isinstance(w, Node) and w.sort == 'Q': return Model('qiterref', w, Ic(0))
        if isinstance(w, Model): return v
    return NotImplemented
@model('~core::slice::<impl \\[.*\\]>::iter', '~core::array::<impl .*>::iter')
def _iter(ex, st, a, dty, inst):
    w = ex.read_ref(st, a[0]) if isinstance(a[0], (Ref, RefIte)) else a[0]
    if isinstance(w, Agg): return Model('arr', Ic(0), *[ex.ref_step(a[0], ('i', Ic(i))) for i in range(len(w.vals))])
    if isinstance(w, Node) and w.sort == 'Q': return Model('qiterref', w, Ic(0))
    return NotImplemented
@model('~<.* as std::iter::Iterator>::filter::<.*>')
def _filter(ex, st, a, dty, inst): return Model('filter', a[0], a[1])
@model('~<.* as std::iter::Iterator>::map::<.*>')
def _map(ex, st, a, dty, inst): return Model('map', a[0], a[1])
@model('~<.* as std::iter::Iterator>::enumerate')
def _enum(ex, st, a, dty, inst): return Model('enum', a[0], Ic(0))
@model('~<.* as std::iter::Iterator>::rev')
def _rev(ex, st, a, dty, inst): return Model('rev', a[0])
@model('~<.* as std::iter::Iterator>::zip::<.*>')
def _zip(ex, st, a, dty, inst):
    b = a[1] if isinstance(a[1], Model) or isinstance(a[1], Agg) and a[1].ty is not None and ex.p.types[a[1].ty]['k'] == 'adt' else _into_iter(ex, st, [a[1]], None, inst)
    if b is NotImplemented: return b
    return Model('zip', a[0], b)
@model('~<.* as std::iter::Iterator>::(cloned|copied)(::<.*>)?')
def _copied(ex, st, a, dty, inst): return Model('copied', a[0])

def it_next(ex, st, it):
    """-> (has: Node B, value, new iterator); may run closures (effects on st are kept)"""
    if isinstance(it, Agg):            # Range / RangeInclusive
        t = ex.p.types[it.ty]
        if t['def'].endswith('::Range'):
            lo, hi = it.vals
            c = ilt(lo, hi)
            return c, lo, Agg((ite(c, iadd(lo, Ic(1)), lo), hi), it.ty)
        if t['def'].endswith('RangeInclusive'):
            lo, hi, exh = it.vals
            c = And(Not(exh), ile(lo, hi)); more = ilt(lo, hi)
            return c, lo, Agg((ite(And(c, more), iadd(lo, Ic(1)), lo), hi, ite(c, Not(more), exh)), it.ty)
        if t['def'].endswith('RangeFrom'):
            return TRUE, it.vals[0], Agg((iadd(it.vals[0], Ic(1)),), it.ty)
        raise Unsupported('iterator ' + t['def'])
    k = it.kind
    if k == 'arr':
        i = it.data[0]; n = len(it.data) - 1
        if i.op != 'i': raise Unsupported('array iterator position')
        if i.k < n: return TRUE, it.data[1 + i.k], Model('arr', Ic(i.k + 1), *it.data[1:])
        return FALSE, UNDEF, it
    if k in ('qiter', 'qiterref'):
        q, i = it.data
        c = ilt(i, qlen(q)); e = nth(q, i)
        if k == 'qiterref': e = Model('valref', e)
        return c, e, Model(k, q, ite(c, iadd(i, Ic(1)), i))
    if k == 'map':
        c, v, n = it_next(ex, st, it.data[0])
        if c is FALSE: return c, UNDEF, Model('map', n, it.data[1])
        r = ex.call_value(st, it.data[1], [v])
        if r is None: raise Unsupported('diverging closure')
        st.guard, st.mem = r[1].guard, r[1].mem
        return c, r[0], Model('map', n, it.data[1])
    if k == 'enum':
        c, v, n = it_next(ex, st, it.data[0])
        return c, Agg((it.data[1], v)), Model('enum', n, ite(c, iadd(it.data[1], Ic(1)), it.data[1]))
    if k == 'zip':
        c, v, n = it_next(ex, st, it.data[0]); c2, v2, n2 = it_next(ex, st, it.data[1])
        return And(c, c2), Agg((v, v2)), Model('zip', n, n2)
    if k == 'copied':
        c, v, n = it_next(ex, st, it.data[0])
        return c, (deref(ex, st, v) if c is not FALSE else UNDEF), Model('copied', n)
    if k == 'rev':
        b = it.data[0]
        if isinstance(b, Agg):
            t = ex.p.types[b.ty]
            if t['def'].endswith('::Range'):
                lo, hi = b.vals; c = ilt(lo, hi); h = isub(hi, Ic(1))
                return c, h, Model('rev', Agg((lo, ite(c, h, hi)), b.ty))
            if t['def'].endswith('RangeInclusive'):
                lo, hi, exh = b.vals; c = And(Not(exh), ile(lo, hi)); more = ilt(lo, hi)
                return c, hi, Model('rev', Agg((lo, ite(And(c, more), isub(hi, Ic(1)), hi), ite(c, Not(more), exh)), b.ty))
        elif b.kind == 'arr' and b.data[0].op == 'i':
            vs = b.data[1 + b.data[0].k:]
            return it_next(ex, st, Model('arr', Ic(0), *reversed(vs)))
    raise Unsupported('iterator ' + k)
@model('~<.* as std::iter::Iterator>::next', '~std::iter::range::<impl std::iter::Iterator for .*>::next', '~core::iter::range::<impl std::iter::Iterator for .*>::next',
       '~std::iter::.*::<impl std::iter::Iterator for .*>::next', '~std::ops::range::<impl std::iter::Iterator for .*>::next')
def _next(ex, st, a, dty, inst):
    it = ex.read_ref(st, a[0])
    while isinstance(it, (Ref, RefIte)): a = [it]; it = ex.read_ref(st, it)
    if not isinstance(it, (Model, Agg)): return NotImplemented
    c, v, n = it_next(ex, st, it)
    ex.write_ref(st, a[0], n)
    if c is FALSE: return Ret(Enum(Ic(0), {0: ()}, dty), st)
    return Ret(option(c, v, dty), st)
def drain(ex, st, it):
    out = []
    for _ in range(65):
        c, v, it = it_next(ex, st, it)
        if c is FALSE: return out
        if c is not TRUE: raise Unsupported('iterator of unknown length')
        out.append(v)
    raise Unsupported('long iterator')
@model('~<.* as std::iter::Iterator>::(sum|product)::<f64>')
def _sum(ex, st, a, dty, inst):
    vs = [deref(ex, st, v) for v in drain(ex, st, a[0])]
    s = '::sum::' in inst['name']
    r = F(0.0) if s else F(1.0)      # std starts from -0.0, which only matters for the sign of an all-zero sum
    for v in vs: r = (fadd if s else fmul)(r, v)
    return Ret(r, st)
@model('~<.* as std::iter::Iterator>::(sum|product)::<[iu]\\w+>')
def _isum(ex, st, a, dty, inst):
    vs = [deref(ex, st, v) for v in drain(ex, st, a[0])]
    s = '::sum::' in inst['name']
    r = Ic(0) if s else Ic(1)
    for v in vs: r = (iadd if s else imul)(r, v)
    return Ret(r, st)
@model('~<.* as std::iter::Iterator>::fold::<.*>')
def _fold(ex, st, a, dty, inst):
    acc = a[1]
    for v in drain(ex, st, a[0]):
        r = ex.call_value(st, a[2], [acc, v])
        if r is None: raise Unsupported('diverging closure')
        acc = r[0]; st.guard, st.mem = r[1].guard, r[1].mem
    return Ret(acc, st)
@model('~<.* as std::iter::Iterator>::collect::<.*>')
def _collect(ex, st, a, dty, inst):
    it = a[0]
    if isinstance(it, Model) and it.kind in ('qiter', 'qiterref'):
        q, i = it.data
        if i.op == 'i' and i.k == 0: return q
        return NotImplemented
    if isinstance(it, Model) and it.kind == 'filter':
        inner = it.data[0]
        if isinstance(inner, Model) and inner.kind in ('qiter', 'qiterref') and inner.data[1].op == 'i' and inner.data[1].k == 0:
            q = inner.data[0]
            x = var('$elem', elem_sort(q) if q.op != 'linesq' else 'S')
            arg = Model('valref', x)
            if inner.kind == 'qiterref': arg = Model('valref', arg)
            r = ex.call_value(st.fork(), it.data[1], [arg])
            if r is None: raise Unsupported('filter predicate')
            return mk('filterq', (q, mk('lam', (x, r[0]), None, 'X')), None, 'Q')
        return NotImplemented
    if isinstance(it, Model) and it.kind in ('arr', 'map', 'copied'):
        vs = drain(ex, st, it)
        q = empty_seq()
        return NotImplemented if q is None else Agg(vs)
    return NotImplemented
def elem_sort(q):
    if q.op in ('splitq', 'linesq'): return 'S'
    if q.op == 'bytes': return 'I'
    if q.op == 'filterq': return elem_sort(q.args[0])
    return 'X'

# ---------------------------------------------------------------- misc
@model('~std::boxed::Box::<.*>::new')
def _box(ex, st, a, dty, inst): return ex.new_alloc(st, a[0])
@model('intrinsic:discriminant_value', '~std::intrinsics::discriminant_value::<.*>')
def _discr(ex, st, a, dty, inst):
    v = deref(ex, st, a[0])
    if not isinstance(v, Enum): return NotImplemented
    return v.discr if v.ty is None else ex.discriminant(v, v.ty)
@model('~std::mem::drop::<.*>', '~std::mem::forget::<.*>')
def _drop(ex, st, a, dty, inst): return UNIT
@model('~std::mem::(replace|swap|take)::<.*>')
def _memx(ex, st, a, dty, inst):
    op = re.search(r'mem::(\w+)', inst['name']).group(1)
    if op == 'replace':
        v = ex.read_ref(st, a[0]); ex.write_ref(st, a[0], a[1]); return v
    if op == 'swap':
        x, y = ex.read_ref(st, a[0]), ex.read_ref(st, a[1])
        ex.write_ref(st, a[0], y); ex.write_ref(st, a[1], x); return UNIT
    return NotImplemented
CHRONO = {'year': ('int', 32), 'month': ('uint', 32), 'day': ('uint', 32), 'hour': ('uint', 32), 'minute': ('uint', 32),
          'second': ('uint', 32), 'nanosecond': ('uint', 32), 'ordinal': ('uint', 32)}
CHRONO_RANGE = {'year': (-262144, 262143), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
                'nanosecond': (0, 1999999999), 'ordinal': (1, 366)}
@model('~<.*DateTime<.*Utc> as .*(Datelike|Timelike)>::\\w+', '~.*DateTime::<.*Utc>::timestamp\\w*', '~<.*Naive(DateTime|Date|Time) as .*(Datelike|Timelike)>::\\w+')
def _chrono(ex, st, a, dty, inst):
    op = inst['name'].rsplit('::', 1)[1]
    v = deref(ex, st, a[0])
    if op not in CHRONO or not isinstance(v, Node): return NotImplemented
    n = mk('chrono', (v,), op, 'I')
    BOUNDS[n.id] = CHRONO_RANGE[op]
    return n
@model('~.*DateTime::<.*Utc>::(date|time|naive_utc|naive_local|date_naive)', )
def _chrono_id(ex, st, a, dty, inst): return deref(ex, st, a[0])
@model('~<.*DateTime<.*Utc> as std::clone::Clone>::clone')
def _chrono_clone(ex, st, a, dty, inst): return deref(ex, st, a[0])
