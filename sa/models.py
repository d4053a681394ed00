"""Transfer functions for std, cosmwasm-std, cw-storage-plus and cw-utils APIs."""
import re
from terms import *
import terms

class AnalysisError(Exception): pass

RESP = 'cosmwasm_std::results::response::Response'
SUBMSG = 'cosmwasm_std::results::submessages::SubMsg'
REPLYON = 'cosmwasm_std::results::submessages::ReplyOn'
EVENT = 'cosmwasm_std::results::events::Event'
COIN = 'cosmwasm_std::coin::Coin'

def adt_name(p):
    if p == 'core::option::Option': return 'Option'
    if p == 'core::result::Result': return 'Result'
    if p == 'core::ops::control_flow::ControlFlow': return 'ControlFlow'
    return p

def norm(p):
    """path without generic arguments"""
    out = ''; d = 0; i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            j = i + 2; d = 0
            while True:
                if p[j] == '<': d += 1
                elif p[j] == '>' and p[j-1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
            continue
        out += p[i]; i += 1
    return out

TABLE = {}
def M(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d

class Call:
    """one external call being modelled"""
    __slots__ = ('E', 'c', 'a', 't', 'st', 'ctx', 'b', 'name')
    def __init__(self, E, c, a, t, st, ctx, b, name):
        self.E, self.c, self.a, self.t, self.st, self.ctx, self.b, self.name = E, c, a, t, st, ctx, b, name
    def v(self, i): return self.E.val(self.st, self.a[i])
    def d(self, i): return self.E.deep(self.st, self.a[i])
    def ty(self, i):
        if self.t and self.t.get('at') and i < len(self.t['at']): return self.t['at'][i]
        return ''
    def rt(self): return self.t.get('rt', '') if self.t else ''
    def targ(self, i): return self.c['args'][i] if i < len(self.c['args']) else ''
    def apply(self, g, args, st=None): return self.E.apply(g, args, st or self.st, self.ctx, (self.b, len(args)))
    def set(self, i, val): self.E.assign(self.st, self.E.nrm(self.st, self.a[i]), val)
    def fork(self, c, ft, ff): return fork(self.E, self.st, c, ft, ff)

def fork(E, st, c, ft, ff):
    c = restrict(cond(c), st.pc)
    if c is TRUE: return ft(st)
    if c is FALSE: return ff(st)
    s1 = st.copy(); s1.pc = and_(st.pc, c)
    s2 = st.copy(); s2.pc = and_(st.pc, not_(c))
    r1 = ft(s1) if s1.pc is not FALSE else None
    r2 = ff(s2) if s2.pc is not FALSE else None
    if r1 is None: s1.pc = FALSE
    if r2 is None: s2.pc = FALSE
    m = E.merge([s1, s2])
    if m is None:
        st.pc = FALSE
        return None
    st.store, st.cont, st.pc = m.store, m.cont, m.pc
    if r1 is None: return restrict(r2, m.pc)
    if r2 is None: return restrict(r1, m.pc)
    sep = restrict(s1.pc, m.pc)
    return restrict(ite(sep, restrict(r1, s1.pc), restrict(r2, s2.pc)), m.pc)

def require(E, st, c, what):
    """execution continues only if c (otherwise the call traps)"""
    c = restrict(cond(c), st.pc)
    if c is TRUE: return True
    E.effect('panic', None, None, None, st, pc=and_(st.pc, not_(c)), extra=what)
    st.pc = and_(st.pc, c)
    return st.pc is not FALSE

def external(E, c, args, t, st, ctx, b):
    E.curcall = (c, ctx, b)
    if c.get('trait'): name = norm(c['path'])
    else: name = norm(c['path'])
    f = TABLE.get(name)
    k = Call(E, c, args, t, st, ctx, b, name)
    if f is None:
        short = name.rsplit('::', 1)[-1]
        for rx, g in RX:
            if rx.match(name): f = g; break
    if f is not None:
        r = f(k)
        if r is not NotImplemented: return r
    return E.unknown_call(name + ('|' + c.get('self', '') if c.get('trait') else ''), args, st, t)

RX = []
def R(rx):
    def d(f):
        RX.append((re.compile(rx), f))
        return f
    return d

def resolve_trait(E, c, args, st):
    """unresolved trait call in generic code: look at the value's own type"""
    tr = c['trait']; m = c['path'].rsplit('::', 1)[-1]
    slf = c.get('self') or ''
    fid = E.impl(tr, slf, m)
    if fid: return fid
    if args:
        v = E.val(st, args[0])
        if v.op == 'agg' and v.a[0] in E.adts:
            if tr == 'core::convert::Into' and len(c['args']) > 1:
                return E.impl('core::convert::From<%s>' % v.a[0], c['args'][1], 'from')
            return E.impl(tr, v.a[0], m)
    return None

def is_derived(E, f, fid): return True

def derived(E, f, fid, args, st, t):
    tr = f.get('impltrait') or ''
    m = fid.rsplit('::', 1)[-1]
    if 'core::clone::Clone' in tr: return E.val(st, args[0])
    if 'core::cmp::PartialEq' in tr:
        e = eq(E.deep(st, args[0]), E.deep(st, args[1]))
        return restrict(e if m == 'eq' else not_(e), st.pc)
    if 'core::fmt::Debug' in tr: return Ok(UNIT)
    return NotImplemented

# ---------------------------------------------------------------- primitive operations

RANGE = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'u128': (0, 2**128-1), 'usize': (0, 2**64-1),
         'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1), 'isize': (-2**63, 2**63-1)}

def cast(E, st, r, v):
    ck = r['ck']
    if ck == 'IntToInt':
        f, t = r.get('from', ''), r['ty']
        if f in RANGE and t in RANGE:
            fl, fh = RANGE[f]; tl, th = RANGE[t]
            if fl >= tl and fh <= th: return v
            if v.op == 'num' and tl <= nval(v) <= th: return v
            b = terms.bounds(v) if v.op != 'ite' else None
            if b and tl <= b[0] and b[1] <= th: return v
        if f == 'bool': return ite(cond(v), ONE, ZERO)
        if v.op == 'discr': return discr_num(E, v)
        E.effect('cast', f, t, v, st)
        return mk('cast', f, t, v)
    if ck in ('FloatToInt', 'IntToFloat', 'FloatToFloat'): E.effect('cast', r.get('from', 'float'), r['ty'], v, st)
    return v

def discr_num(E, v):
    """the number of an enum variant"""
    a = E.adts.get(v.a[1])
    if not a or a['kind'] != 'enum' or len(a['variants']) > 8: return v
    vs = a['variants']
    r = num(int(vs[-1]['discr']))
    for x in reversed(vs[:-1]): r = ite(isvar(v.a[0], x['name']), num(int(x['discr'])), r)
    return r

def tdiv(a, b):
    """quotient rounded towards zero"""
    if isnum(a) and isnum(b) and nval(b):
        q = abs(nval(a)) // abs(nval(b))
        return num(q if (nval(a) < 0) == (nval(b) < 0) else -q)
    if b is ONE: return a
    return mk('idiv', a, b)
def trem(a, b):
    if isnum(a) and isnum(b) and nval(b): return sub(a, mul(b, tdiv(a, b)))
    if b is ONE: return ZERO
    return mk('irem', a, b)

def binop(E, st, op, a, b, ty=None):
    from engine import unsigned_ty
    a, b = E.val(st, a), E.val(st, b)
    ty = ty or ''
    uns = unsigned_ty(ty)
    if uns:
        for x in (a, b):
            if x.op not in ('num', 'lin', 'ite'): UNS.add(x.id)
    if op == 'Eq': r = eq_any(E, a, b)
    elif op == 'Ne': r = not_(eq_any(E, a, b))
    elif op == 'Lt': r = lt(a, b, uns)
    elif op == 'Le': r = le(a, b, uns)
    elif op == 'Gt': r = lt(b, a, uns)
    elif op == 'Ge': r = le(b, a, uns)
    elif op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
        f = {'A': add, 'S': sub, 'M': mul}[op[0]]
        v = f(a, b)
        if op[0] == 'S' and uns: o = lt(a, b, True)
        elif v.op != 'num' and ty in RANGE and v.op in ('lin', 'in') and (terms.bounds(v) or (0, 10**80))[1] <= RANGE[ty][1] and terms.bounds(v)[0] >= RANGE[ty][0]: o = FALSE
        elif v.op == 'num' and ty in RANGE: o = boolean(not (RANGE[ty][0] <= nval(v) <= RANGE[ty][1]))
        elif ty in ('u64', 'usize') and op[0] == 'A' and v.op == 'lin' and all(t.op == 'pos' and c == 1 for t, c in v.a[0]) and len(v.a[0]) == 1: o = FALSE     # no list is that long
        else: o = mk('bopq', 'overflow', ty, v)
        return tup(v, o)
    elif op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
        return mk('wrap', op[:3], a, b)
    elif op == 'Div':
        return tdiv(a, b)
    elif op == 'Rem': return trem(a, b)
    elif op == 'BitAnd': return and_(cond(a), cond(b)) if ty == 'bool' else mk('bitop', op, a, b)
    elif op == 'BitOr': return or_(cond(a), cond(b)) if ty == 'bool' else mk('bitop', op, a, b)
    elif op == 'BitXor': return ite(cond(a), not_(cond(b)), cond(b)) if ty == 'bool' else mk('bitop', op, a, b)
    else: return mk('bitop', op, a, b)
    return restrict(r, st.pc)

def eq_any(E, a, b):
    if a.op == 'discr' and b.op == 'discr': return eq(a.a[0], b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'discr' and y.op == 'num':
            v = E.variant_of(x.a[1], int(nval(y)))
            if v: return isvar(x.a[0], v)
    return eq(a, b)

def index(E, st, v, i):
    v = E.nrm(st, v)
    if v.op == 'ref': v = E.val(st, v)
    if i.op == 'num':
        es = explode(v) if islist(v) else [v]
        n = int(nval(i))
        if all(x.op == 'vec' for x in es[:n + 1]) and n < len(es): return es[n].a[0]
    if v.op == 'ite' and v.a[1].op in ('vec', 'cat') and v.a[2].op in ('vec', 'cat'):
        return ite(v.a[0], index(E, st, v.a[1], i), index(E, st, v.a[2], i))
    if i.op == 'pos' and LV_BASE.get(i.a[0]) is mk('iter', v): return elem_of(i.a[0])
    return mk('at', v, i)

_llen = {}
def llen(v):
    r = _llen.get(v.id)
    if r is None: r = _llen[v.id] = llen1(v)
    return r
def llen1(v):
    if v.op == 'vec': return num(len(v.a))
    if v.op == 'cat':
        r = ZERO
        for p in v.a: r = add(r, llen(p))
        return r
    if v.op == 'ite': return ite(v.a[0], llen(v.a[1]), llen(v.a[2]))
    if v.op == 'lmap': return llen(v.a[0])
    t = mk('len', v); INT.add(t.id)
    return t

def ext_const(E, c):
    p = c.get('itempath') or c.get('repr') or ''
    n = norm(p)
    if n in ('cosmwasm_std::math::decimal256::Decimal256::MIN', 'cosmwasm_std::math::uint128::Uint128::MIN', 'cosmwasm_std::math::uint256::Uint256::MIN'): return ZERO
    if c['ty'] == '()': return UNIT
    return mk('const', n, c['ty'])

# ---------------------------------------------------------------- identity-like

@M('core::clone::Clone::clone', 'core::ops::deref::Deref::deref', 'core::borrow::Borrow::borrow', 'core::convert::AsRef::as_ref',
   'alloc::borrow::ToOwned::to_owned', 'core::hint::must_use', 'core::hint::black_box', 'cosmwasm_std::addresses::Addr::as_str', 'cosmwasm_std::addresses::Addr::into_string',
   'cosmwasm_std::addresses::Addr::unchecked', 'alloc::string::String::as_str', 'alloc::string::String::into_boxed_str',
   'cosmwasm_std::math::uint128::Uint128::u128', 'cosmwasm_std::math::uint128::Uint128::new', 'cosmwasm_std::math::uint256::Uint256::from_uint128',
   'cosmwasm_std::math::uint256::Uint256::from_u128', 'cosmwasm_std::math::decimal256::Decimal256::new_', 'alloc::vec::Vec::as_slice',
   'core::iter::traits::iterator::Iterator::by_ref_', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec', 'cosmwasm_std::math::uint64::Uint64::u64',
   'cosmwasm_std::math::uint64::Uint64::new', 'alloc::string::String::from_utf8_', 'core::str::<impl str>::to_owned', 'alloc::boxed::Box::new',
   'alloc::str::<impl str>::to_owned', 'alloc::str::<impl str>::into_string', 'alloc::rc::Rc::new', 'core::convert::identity', 'alloc::boxed::Box::pin')
def ident(k):
    if k.name == 'core::clone::Clone::clone':
        return k.v(0)
    return k.v(0)

@M('core::ops::deref::DerefMut::deref_mut', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut', 'alloc::vec::Vec::as_mut_slice',
   'core::iter::traits::iterator::Iterator::by_ref')
def ident_ref(k): return k.a[0]

@M('cosmwasm_std::deps::DepsMut::as_ref', 'cosmwasm_std::deps::DepsMut::branch', 'cosmwasm_std::deps::OwnedDeps::as_ref', 'cosmwasm_std::deps::OwnedDeps::as_mut')
def deps_ref(k): return k.v(0)

@M('core::mem::drop', 'core::mem::forget')
def unit(k): return UNIT

@M('core::mem::take')
def memtake(k):
    v = k.v(0); k.set(0, default_of(k.E, k.targ(0), k)); return v
@M('core::mem::replace')
def memreplace(k):
    v = k.v(0); k.set(0, k.a[1]); return v
@M('core::mem::swap')
def memswap(k):
    x, y = k.v(0), k.v(1); k.set(0, y); k.set(1, x); return UNIT

# ---------------------------------------------------------------- panics

@R(r'^core::panicking::|^std::panicking::|^core::option::unwrap_failed|^core::option::expect_failed|^core::result::unwrap_failed|^std::rt::|^core::slice::index::')
def panics(k):
    if 'default_msg' in k.name and k.t.get('rt') != '!': return mk('str', 'msg')
    k.E.effect('panic', None, None, None, k.st, extra=k.name)
    return None

# ---------------------------------------------------------------- conversions

def is_numty(t):
    t = t.lstrip('&')
    return t in RANGE or t.startswith('cosmwasm_std::math::') or t.startswith('impl Into<')
STRTY = ('str', 'alloc::string::String', 'cosmwasm_std::addresses::Addr', '&str')

def convert(E, st, src, dst, v, k):
    """From/Into conversion of value v from type src to type dst"""
    if src == dst: return v
    fid = E.impl('core::convert::From<%s>' % src, dst, 'from')
    if fid: return E.call_local(fid, [v], st, k.ctx, (k.b, 'cv')) if not E.fns[fid].get('implauto') or True else v
    fid = E.impl('core::convert::Into<%s>' % dst, src, 'into')
    if fid: return E.call_local(fid, [v], st, k.ctx, (k.b, 'cv'))
    x = E.val(st, v)
    if x.op == 'agg' and x.a[0] in E.adts and x.a[0] != src:
        fid = E.impl('core::convert::From<%s>' % x.a[0], dst, 'from')
        if fid: return E.call_local(fid, [v], st, k.ctx, (k.b, 'cv'))
    if src == 'bool' and dst in RANGE: return ite(cond(x), ONE, ZERO)
    if dst in RANGE and src in RANGE: return x
    if is_numty(src) and (is_numty(dst)): return x
    if src in STRTY and (dst in STRTY): return x
    if dst.startswith('cosmwasm_std::results::cosmos_msg::CosmosMsg'): return x
    if dst.startswith('core::option::Option<'): return Some(v)
    if src.startswith('impl ') or dst.startswith('impl ') or not src or not dst: return v
    if re.match(r'^[A-Z]\w*$', src) or re.match(r'^[A-Z]\w*$', dst): return v     # type parameters
    if dst.startswith('alloc::vec::Vec<') or dst.startswith('alloc::boxed::Box<'): return x
    if dst == 'cosmwasm_std::math::uint256::Uint256' or dst == 'cosmwasm_std::math::decimal256::Decimal256': return x
    if src == '!' : return mk('bottom')
    return mk('conv', dst, E.deep(st, v))

@M('core::convert::Into::into')
def into(k): return convert(k.E, k.st, k.targ(0), k.targ(1), k.a[0], k)
@M('core::convert::From::from')
def from_(k): return convert(k.E, k.st, k.targ(1), k.targ(0), k.a[0], k)

@M('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def try_from(k):
    dst, src = (k.targ(0), k.targ(1)) if k.name.endswith('try_from') else (k.targ(1), k.targ(0))
    v = k.v(0)
    if src in RANGE and dst in RANGE:
        fl, fh = RANGE[src]; tl, th = RANGE[dst]
        if fl >= tl and fh <= th: return Ok(v)
    if v.op == 'num' and dst in RANGE: return Ok(v) if RANGE[dst][0] <= nval(v) <= RANGE[dst][1] else Err(mk('err', 'convert'))
    return ite(mk('fits', dst, v), Ok(v), Err(mk('err', 'convert')))

@M('core::str::traits::FromStr::from_str', 'core::str::<impl str>::parse')
def from_str(k):
    v = unstr(k.v(0)); ty = k.targ(0)
    if v.op == 'str':
        try: return Ok(num(Fraction(v.a[0]))) if is_numty(ty) else Ok(v)
        except Exception: return Err(mk('err', 'parse'))
    return ite(mk('bopq', 'parse', ty, v), Ok(v), Err(mk('err', 'parse')))

def to_string(E, st, ty, v, k):
    ty = ty.lstrip('&')
    x = E.val(st, v)
    if ty in ('str', 'alloc::string::String', 'cosmwasm_std::addresses::Addr', 'char'): return x
    fid = E.impl('core::fmt::Display', ty, 'fmt')
    if fid is None and x.op == 'agg': fid = E.impl('core::fmt::Display', x.a[0], 'fmt')
    if fid and ty != 'error::ContractError':
        f = E.alloc(st, mk('str', ''), 'fmt')
        r = E.call_local(fid, [x, f], st, k.ctx, (k.b, 'disp'))
        return E.val(st, f)
    return tostr(x)

@M('alloc::string::ToString::to_string')
def ts(k): return to_string(k.E, k.st, k.targ(0), k.a[0], k)

# ---------------------------------------------------------------- formatting

@M('core::fmt::rt::Argument::new_display')
def nd(k): return mk('disp', to_string(k.E, k.st, k.targ(0), k.a[0], k))
@R(r'^core::fmt::rt::Argument::new_')
def ndbg(k): return mk('dbg', k.name.rsplit('_', 1)[-1], k.d(0))

def strcat(a, b):
    pa = list(a.a) if a.op == 'scat' else [a]
    pb = list(b.a) if b.op == 'scat' else [b]
    out = []
    for x in pa + pb:
        if x.op == 'str' and not x.a[0]: continue
        if x.op == 'str' and out and out[-1].op == 'str': out[-1] = mk('str', out[-1].a[0] + x.a[0])
        else: out.append(x)
    if not out: return mk('str', '')
    return out[0] if len(out) == 1 else mk('scat', *out)

@M('core::fmt::Arguments::new')
def fmt_args(k):
    tpl, args = k.v(0), k.v(1)
    es = [k.E.val(k.st, x) for x in args.a] if args.op == 'vec' else None
    if tpl.op == 'bytes' and es is not None:
        try:
            raw = tpl.a[0].encode('latin-1', 'backslashreplace').decode('unicode_escape').encode('latin-1')
            i = 0; n = 0; r = mk('str', ''); ok = True
            while i < len(raw):
                b = raw[i]; i += 1
                if b == 0: break
                if b < 0x80: r = strcat(r, mk('str', raw[i:i + b].decode('utf-8', 'replace'))); i += b
                elif b == 0xc0:
                    e = es[n]; n += 1
                    r = strcat(r, e.a[0] if e.op == 'disp' else e)
                else: ok = False; break
            if ok: return mk('fmtargs', r)
        except Exception: pass
    return mk('fmtargs', mk('fmt', tpl, k.E.deep(k.st, args)))
@R(r'^core::fmt::Arguments::(from_str|new_const|from_str_nonconst)$')
def fmt_const(k):
    v = k.d(0)
    if v.op == 'vec' and len(v.a) == 1: v = v.a[0]
    return mk('fmtargs', v)
@M('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def fmt_format(k):
    v = k.v(0)
    return v.a[0] if v.op == 'fmtargs' else mk('fmt', v)
@M('core::fmt::Formatter::write_fmt', 'core::fmt::Write::write_fmt')
def write_fmt(k):
    v = k.v(1)
    k.set(0, strcat(k.v(0), v.a[0] if v.op == 'fmtargs' else mk('fmt', v)))
    return Ok(UNIT)
@M('core::fmt::Formatter::write_str', 'core::fmt::Write::write_str', 'core::fmt::Formatter::pad')
def write_str(k):
    k.set(0, strcat(k.v(0), k.v(1))); return Ok(UNIT)
@M('core::fmt::Display::fmt')
def disp_fmt(k):
    k.set(1, strcat(k.v(1), to_string(k.E, k.st, k.targ(0), k.a[0], k))); return Ok(UNIT)
@M('alloc::string::String::push_str', 'core::ops::arith::AddAssign::add_assign_str')
def push_str(k): k.set(0, strcat(k.v(0), k.v(1))); return UNIT
@M('alloc::string::String::new')
def str_new(k): return mk('str', '')
@R(r'^(alloc::string::String::|core::str::<impl str>::)(is_empty|len)$')
def str_len(k):
    v = k.v(0)
    n = num(len(v.a[0].encode())) if v.op == 'str' else mk('len', v)
    return n if k.name.endswith('len') else eq(n, ZERO)

# ---------------------------------------------------------------- defaults

def default_of(E, ty, k):
    ty = ty.strip()
    if ty in RANGE or ty.startswith('cosmwasm_std::math::'): return ZERO
    if ty == 'bool': return FALSE
    if ty in ('alloc::string::String', '&str', 'str'): return mk('str', '')
    if ty.startswith('core::option::Option<'): return NONE
    if ty.startswith(('alloc::vec::Vec<', 'alloc::collections::btree::map::BTreeMap<', 'alloc::collections::vec_deque::VecDeque<')): return EMPTY
    if ty == '()': return UNIT
    if ty.startswith(RESP): return new_response()
    if ty.startswith('(') and ty.endswith(')'):
        return tup(*[default_of(E, x, k) for x in split_ty(ty[1:-1])])
    fid = E.impl('core::default::Default', ty, 'default')
    if fid: return E.call_local(fid, [], k.st, k.ctx, (k.b, 'def'))
    return mk('default', ty)

def split_ty(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def ty_args(ty):
    i = ty.find('<')
    return split_ty(ty[i + 1:-1]) if i >= 0 else []

@M('core::default::Default::default')
def dflt(k): return default_of(k.E, k.targ(0), k)

# ---------------------------------------------------------------- Option / Result / ?

def okname(k):
    return 'Some' if '::option::' in k.name else 'Ok'

@M('core::ops::try_trait::Try::branch')
def branch(k):
    v = k.v(0); ty = k.targ(0)
    good = 'Some' if ty.startswith('core::option') else 'Ok'
    if v.op == 'agg' and v.a[1] in ('Some', 'None'): good = 'Some'
    bad = NONE if good == 'Some' else Err(pl(v, 'Err', '0'))
    return ite(isvar(v, good), agg('ControlFlow', 'Continue', ['0'], [pl(v, good, '0')]), agg('ControlFlow', 'Break', ['0'], [bad]))

@M('core::ops::try_trait::FromResidual::from_residual')
def from_residual(k):
    v = k.v(0)
    src, dst = k.ty(0), k.targ(0)
    if v.op == 'agg' and v.a[1] == 'None' or src.startswith('core::option'): 
        return NONE
    e = pl(v, 'Err', '0')
    sa, da = ty_args(src), ty_args(dst)
    if len(sa) == 2 and len(da) == 2 and sa[1] != da[1]: e = convert(k.E, k.st, sa[1], da[1], e, k)
    return Err(e)

@M('core::ops::try_trait::Try::from_output')
def from_output(k):
    return Some(k.a[0]) if k.targ(0).startswith('core::option') else Ok(k.a[0])

@M('core::option::Option::is_some', 'core::result::Result::is_ok')
def is_some(k): return isvar(k.v(0), okname(k))
@M('core::option::Option::is_none', 'core::result::Result::is_err')
def is_none(k): return not_(isvar(k.v(0), okname(k)))
@M('core::option::Option::unwrap', 'core::result::Result::unwrap', 'core::option::Option::expect', 'core::result::Result::expect')
def unwrap(k):
    v = k.v(0); n = okname(k)
    if not require(k.E, k.st, isvar(v, n), 'unwrap'): return None
    return restrict(pl(v, n, '0'), k.st.pc)
@M('core::result::Result::unwrap_err', 'core::result::Result::expect_err')
def unwrap_err(k):
    v = k.v(0)
    if not require(k.E, k.st, not_(isvar(v, 'Ok')), 'unwrap_err'): return None
    return restrict(pl(v, 'Err', '0'), k.st.pc)
@M('core::option::Option::unwrap_or', 'core::result::Result::unwrap_or')
def unwrap_or(k):
    v = k.v(0); n = okname(k)
    return ite(isvar(v, n), pl(v, n, '0'), k.E.nrm(k.st, k.a[1]))
@M('core::option::Option::unwrap_or_default', 'core::result::Result::unwrap_or_default')
def unwrap_or_default(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: pl(v, n, '0'), lambda s: default_of(k.E, k.targ(0), sub_call(k, s)))
def sub_call(k, s): return Call(k.E, k.c, k.a, k.t, s, k.ctx, k.b, k.name)
@M('core::option::Option::unwrap_or_else', 'core::result::Result::unwrap_or_else')
def unwrap_or_else(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: pl(v, n, '0'), lambda s: k.apply(k.a[1], [] if n == 'Some' else [pl(v, 'Err', '0')], s))
def wrap(n, x):
    if x is None: return None
    return Some(x) if n == 'Some' else Ok(x)
def bad(n, v): return NONE if n == 'Some' else Err(pl(v, 'Err', '0'))
@M('core::option::Option::map', 'core::result::Result::map')
def omap(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: wrap(n, k.apply(k.a[1], [pl(v, n, '0')], s)), lambda s: bad(n, v))
@M('core::option::Option::map_or', 'core::result::Result::map_or')
def omap_or(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: k.apply(k.a[2], [pl(v, n, '0')], s), lambda s: k.E.nrm(s, k.a[1]))
@M('core::option::Option::map_or_else', 'core::result::Result::map_or_else')
def omap_or_else(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: k.apply(k.a[2], [pl(v, n, '0')], s), lambda s: k.apply(k.a[1], [] if n == 'Some' else [pl(v, 'Err', '0')], s))
@M('core::option::Option::and_then', 'core::result::Result::and_then')
def and_then(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: k.apply(k.a[1], [pl(v, n, '0')], s), lambda s: bad(n, v))
@M('core::option::Option::or_else', 'core::result::Result::or_else')
def or_else(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: wrap(n, pl(v, n, '0')), lambda s: k.apply(k.a[1], [] if n == 'Some' else [pl(v, 'Err', '0')], s))
@M('core::option::Option::or', 'core::result::Result::or')
def oor(k):
    v = k.v(0); n = okname(k)
    return ite(isvar(v, n), wrap(n, pl(v, n, '0')), k.v(1))
@M('core::option::Option::and', 'core::result::Result::and')
def oand(k):
    v = k.v(0); n = okname(k)
    return ite(isvar(v, n), k.v(1), bad(n, v))
@M('core::option::Option::is_some_and', 'core::result::Result::is_ok_and')
def is_some_and(k):
    v = k.v(0); n = okname(k)
    return k.fork(isvar(v, n), lambda s: k.apply(k.a[1], [pl(v, n, '0')], s), lambda s: FALSE)
@M('core::option::Option::is_none_or')
def is_none_or(k):
    v = k.v(0)
    return k.fork(isvar(v, 'Some'), lambda s: k.apply(k.a[1], [pl(v, 'Some', '0')], s), lambda s: TRUE)
@M('core::result::Result::is_err_and')
def is_err_and(k):
    v = k.v(0)
    return k.fork(isvar(v, 'Ok'), lambda s: FALSE, lambda s: k.apply(k.a[1], [pl(v, 'Err', '0')], s))
@M('core::option::Option::xor')
def oxor(k):
    v, w = k.v(0), k.v(1)
    return ite(isvar(v, 'Some'), ite(isvar(w, 'Some'), NONE, v), w)
@M('core::option::Option::inspect', 'core::result::Result::inspect', 'core::result::Result::inspect_err')
def oinspect(k):
    v = k.v(0); n = okname(k); e = k.name.endswith('_err')
    def look(s):
        r = k.apply(k.a[1], [pl(v, 'Err' if e else n, '0')], s)
        return None if r is None else v
    return k.fork(isvar(v, n), (lambda s: v) if e else look, look if e else lambda s: v)
@M('core::option::Option::get_or_insert', 'core::option::Option::get_or_insert_with')
def oget_or_insert(k):
    v = k.v(0); r = k.E.nrm(k.st, k.a[0])
    if r.op != 'ref': return NotImplemented
    def no(s):
        x = k.a[1] if k.name.endswith('insert') else k.apply(k.a[1], [], s)
        if x is None: return None
        k.E.assign(s, r, Some(k.E.nrm(s, x)))
        return mk('ref', r.a[0], r.a[1] + ('Some#0',))
    return k.fork(isvar(v, 'Some'), lambda s: mk('ref', r.a[0], r.a[1] + ('Some#0',)), no)
@M('core::option::Option::filter')
def ofilter(k):
    v = k.v(0)
    return k.fork(isvar(v, 'Some'), lambda s: ite(cond(k.apply(k.a[1], [pl(v, 'Some', '0')], s)), v, NONE), lambda s: NONE)
@M('core::option::Option::ok_or')
def ok_or(k):
    v = k.v(0)
    return ite(isvar(v, 'Some'), Ok(pl(v, 'Some', '0')), Err(k.E.nrm(k.st, k.a[1])))
@M('core::option::Option::ok_or_else')
def ok_or_else(k):
    v = k.v(0)
    def no(s):
        e = k.apply(k.a[1], [], s)
        return None if e is None else Err(e)
    return k.fork(isvar(v, 'Some'), lambda s: Ok(pl(v, 'Some', '0')), no)
@M('core::result::Result::ok')
def rok(k):
    v = k.v(0)
    return ite(isvar(v, 'Ok'), Some(pl(v, 'Ok', '0')), NONE)
@M('core::result::Result::err')
def rerr(k):
    v = k.v(0)
    return ite(isvar(v, 'Ok'), NONE, Some(pl(v, 'Err', '0')))
@M('core::result::Result::map_err')
def map_err(k):
    v = k.v(0)
    def no(s):
        e = k.apply(k.a[1], [pl(v, 'Err', '0')], s)
        return None if e is None else Err(e)
    return k.fork(isvar(v, 'Ok'), lambda s: Ok(pl(v, 'Ok', '0')), no)
@R(r'^core::(option::Option|result::Result)::(as_ref|cloned|copied|as_deref|iter_|into_iter_)$')
def oref(k): return k.v(0)
@R(r'^core::option::Option::(as_mut|as_deref_mut)$|^core::result::Result::as_mut$')
def omut(k):
    v = k.v(0); n = okname(k)
    r = k.E.nrm(k.st, k.a[0])
    if r.op == 'ref': x = mk('ref', r.a[0], r.a[1] + (n + '#0',))
    else: x = pl(v, n, '0')
    return ite(isvar(v, n), wrap(n, x), bad(n, v))
@M('core::option::Option::take')
def otake(k):
    v = k.v(0); k.set(0, NONE); return v
@M('core::option::Option::replace')
def oreplace(k):
    v = k.v(0); k.set(0, Some(k.a[1])); return v
@M('core::option::Option::insert')
def oinsert(k):
    k.set(0, Some(k.a[1])); r = k.E.nrm(k.st, k.a[0])
    return mk('ref', r.a[0], r.a[1] + ('Some#0',)) if r.op == 'ref' else k.a[1]
@M('core::option::Option::flatten', 'core::result::Result::flatten')
def oflatten(k):
    v = k.v(0); n = okname(k)
    return ite(isvar(v, n), pl(v, n, '0'), bad(n, v))
@M('core::option::Option::transpose')
def otranspose(k):
    v = k.v(0); r = pl(v, 'Some', '0')
    return ite(isvar(v, 'Some'), ite(isvar(r, 'Ok'), Ok(Some(pl(r, 'Ok', '0'))), Err(pl(r, 'Err', '0'))), Ok(NONE))
@M('core::result::Result::transpose')
def rtranspose(k):
    v = k.v(0); r = pl(v, 'Ok', '0')
    return ite(isvar(v, 'Ok'), ite(isvar(r, 'Some'), Some(Ok(pl(r, 'Some', '0'))), NONE), Some(Err(pl(v, 'Err', '0'))))
@M('core::option::Option::zip')
def ozip(k):
    v, w = k.v(0), k.v(1)
    return ite(and_(isvar(v, 'Some'), isvar(w, 'Some')), Some(tup(pl(v, 'Some', '0'), pl(w, 'Some', '0'))), NONE)

@R(r'^core::bool::<impl bool>::(then|then_some)$')
def bthen(k):
    c = cond(k.v(0))
    if k.name.endswith('then_some'): return ite(c, Some(k.a[1]), NONE)
    return k.fork(c, lambda s: wrap('Some', k.apply(k.a[1], [], s)), lambda s: NONE)

# ---------------------------------------------------------------- comparison

@M('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def peq(k):
    e = eq(k.d(0), k.d(1))
    return restrict(e if k.name.endswith('eq') else not_(e), k.st.pc)

def uns_of(k):
    from engine import unsigned_ty
    return any(unsigned_ty(x) for x in (k.targ(0), k.ty(0), k.targ(1)) if x)

@M('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def pord(k):
    a, b = k.d(0), k.d(1); u = uns_of(k); o = k.name[-2:]
    r = {'lt': lambda: lt(a, b, u), 'le': lambda: le(a, b, u), 'gt': lambda: lt(b, a, u), 'ge': lambda: le(b, a, u)}[o]()
    return restrict(r, k.st.pc)
@M('core::cmp::Ord::min', 'core::cmp::min')
def cmin(k): return num_sel(k, mk_min)
@M('core::cmp::Ord::max', 'core::cmp::max')
def cmax(k): return num_sel(k, mk_max)
def ordered(k, a, b, unsigned):
    """a < b as far as the path condition decides it, also from comparisons that differ by a constant"""
    c = restrict(lt(a, b, unsigned), k.st.pc)
    if c.op == 'bool' or not numeric(a) or not numeric(b): return c
    from lib import order_fact, atoms_of
    x = terms.root(c)
    if x.op != 'lt': return c
    d = sub(x.a[1], x.a[0])
    for y in atoms_of(k.st.pc):
        if y.op != 'lt' or not numeric(y.a[0]): continue
        e = sub(y.a[1], y.a[0])
        if not isnum(sub(d, e)) and not isnum(add(d, e)): continue
        v = True if implies(k.st.pc, y) else False if implies(k.st.pc, not_(y)) else None
        if v is None: continue
        r = order_fact(x, e, v)
        if r.op == 'bool': return restrict(c, x if r is TRUE else not_(x))
    return c
def num_sel(k, f):
    a, b = k.v(0), k.v(1)
    u = uns_of(k)
    if u and f is mk_max and ZERO in (a, b): return b if a is ZERO else a
    c = ordered(k, a, b, u)
    if c is TRUE: return a if f is mk_min else b
    if c is FALSE: return b if f is mk_min else a
    return f(a, b)
@M('core::cmp::max_by', 'core::cmp::min_by', 'core::cmp::max_by_key', 'core::cmp::min_by_key')
def cmp_by(k):
    a, b, f = k.v(0), k.v(1), k.a[2]
    if k.name.endswith('_key'):
        x, y = k.apply(f, [a]), k.apply(f, [b])
        if x is None or y is None: return None
        c = lt(y, x)
    else:
        o = k.apply(f, [a, b])
        if o is None: return None
        c = isvar(o, 'Greater')
    c = restrict(c, k.st.pc)
    if 'max_by' in k.name: return ite(c, a, b)
    return ite(c, b, a)
@M('core::cmp::Ord::clamp')
def clamp(k):
    x, lo, hi = k.v(0), k.v(1), k.v(2)
    u = uns_of(k)
    if not (u and lo is ZERO):
        c = ordered(k, x, lo, u)
        x = lo if c is TRUE else x if c is FALSE else mk_max(x, lo)
    c = ordered(k, x, hi, u)
    return x if c is TRUE else hi if c is FALSE else mk_min(x, hi)
ORD = 'core::cmp::Ordering'
@M('core::cmp::Ord::cmp')
def cmp_(k):
    a, b = k.d(0), k.d(1); u = uns_of(k)
    return ite(lt(a, b, u), agg(ORD, 'Less', [], []), ite(eq(a, b), agg(ORD, 'Equal', [], []), agg(ORD, 'Greater', [], [])))
@M('core::cmp::PartialOrd::partial_cmp')
def pcmp(k): return Some(cmp_(k))
@R(r'^core::cmp::Ordering::(is_lt|is_gt|is_le|is_ge|is_eq|is_ne|reverse)$')
def ordq(k):
    v = k.v(0); m = k.name.rsplit('_', 1)[-1]
    L, Q, G = isvar(v, 'Less'), isvar(v, 'Equal'), isvar(v, 'Greater')
    if m.endswith('reverse'):
        less, equal, greater = [agg(ORD, n, [], []) for n in ('Less', 'Equal', 'Greater')]
        return ite(L, greater, ite(Q, equal, less))
    return {'lt': L, 'gt': G, 'le': not_(G), 'ge': not_(L), 'eq': Q, 'ne': not_(Q)}.get(m, NotImplemented)
@R(r'^core::cmp::Ordering::then$')
def ordthen(k): return ite(isvar(k.v(0), 'Equal'), k.v(1), k.v(0))
@R(r'^core::cmp::Ordering::then_with$')
def ordthenw(k):
    v = k.v(0)
    return k.fork(isvar(v, 'Equal'), lambda s: k.apply(k.a[1], [], s), lambda s: v)
@R(r'^core::ops::range::Range(Inclusive)?::(contains|new)$')
def rng(k):
    if k.name.endswith('new'): return agg('core::ops::range::RangeInclusive', 'RangeInclusive', ['start', 'end'], [k.v(0), k.v(1)])
    r = k.v(0); x = k.v(1)
    lo, hi = k.E.val(k.st, fld(r, 'start')), k.E.val(k.st, fld(r, 'end'))
    return and_(le(lo, x), le(x, hi) if 'Inclusive' in k.name else lt(x, hi))

# ---------------------------------------------------------------- numbers

NUMT = r'^cosmwasm_std::math::(?:\w+)::(Uint64|Uint128|Uint256|Uint512|Decimal|Decimal256)::'
def N(rx): return R(NUMT + '(?:' + rx + ')$')

@N('zero')
def nzero(k): return ZERO
@N('one')
def none_(k): return ONE
@N('percent')
def npercent(k): return scale(k.v(0), Fraction(1, 100))
@N('permille')
def npermille(k): return scale(k.v(0), Fraction(1, 1000))
@N('bps')
def nbps(k): return scale(k.v(0), Fraction(1, 10000))
@N('is_zero')
def iszero(k): return restrict(eq(k.v(0), ZERO), k.st.pc)
@N('from_ratio|checked_from_ratio')
def from_ratio(k):
    a, b = k.v(0), k.v(1)
    for x in (a, b):
        if x.op not in ('num', 'lin'): INT.add(x.id)
    r = a if b is ONE else mk('ratio', a, b) if not (isnum(a) and isnum(b)) else num(nval(a) / nval(b))
    if k.name.endswith('checked_from_ratio'): return Ok(r) if b is ONE else ite(and_(not_(eq(b, ZERO)), mk('fits', 'dec', r)), Ok(r), Err(mk('err', 'ratio')))
    if b is not ONE and not require(k.E, k.st, not_(eq(b, ZERO)), 'division by zero'): return None
    return r
@N('from_atomics|new|raw')
def nfrom(k):
    if k.name.endswith('from_atomics'): return NotImplemented
    if 'Decimal' in k.name: return scale(k.v(0), Fraction(1, 10**18))
    return k.v(0)
@N('checked_add')
def chadd(k): 
    r = add(k.v(0), k.v(1))
    return Ok(r) if k.v(0) is ZERO or k.v(1) is ZERO else ite(restrict(mk('fits', 'num', r), k.st.pc), Ok(r), Err(mk('err', 'overflow')))
@N('checked_sub')
def chsub(k):
    a, b = k.v(0), k.v(1)
    return ite(restrict(lt(a, b, True), k.st.pc), Err(mk('err', 'overflow')), Ok(sub(a, b)))
@N('checked_mul')
def chmul(k):
    r = mul(k.v(0), k.v(1))
    if 'Decimal' in k.name and r.op == 'mul' and not (isint(k.v(0)) or isint(k.v(1))): r = mk('dmul', *sorted((k.v(0), k.v(1)), key=lambda t: t.id))
    return ite(mk('fits', 'num', r), Ok(r), Err(mk('err', 'overflow')))
@N('checked_div')
def chdiv(k):
    a, b = k.v(0), k.v(1)
    r = div(a, b)
    if 'Uint' in k.name: r = floor(r)
    return ite(or_(eq(b, ZERO), not_(mk('fits', 'num', r))), Err(mk('err', 'div')), Ok(r))
@N('checked_pow')
def chpow(k):
    r = mk('pow', k.v(0), k.v(1)); INT.add(r.id)
    return ite(mk('fits', 'num', r), Ok(r), Err(mk('err', 'overflow')))
@N('saturating_sub')
def satsub_(k):
    a, b = k.v(0), k.v(1)
    c = ordered(k, a, b, True)
    return ZERO if c is TRUE else sub(a, b) if c is FALSE else satsub(a, b)
@N('saturating_add|saturating_mul|wrapping_add|wrapping_sub|wrapping_mul|wrapping_pow|saturating_pow')
def lossy(k): return mk('lossy', k.name.rsplit('::', 1)[-1], k.v(0), k.v(1))
@N('abs_diff')
def absdiff(k):
    a, b = k.v(0), k.v(1)
    return ite(lt(a, b), sub(b, a), sub(a, b))
@N('to_uint_floor|floor')
def nfloor(k): return floor(k.v(0))
@N('to_uint_ceil|ceil')
def nceil(k): return ceil(k.v(0))
@N('atomics')
def natom(k): return scale(k.v(0), 10**18) if 'Decimal' in k.name else k.v(0)
@N('mul_floor|checked_mul_floor')
def mulfloor(k): 
    r = floor(mul(k.v(0), k.v(1)))
    return r if k.name.endswith('::mul_floor') else ite(mk('fits', 'num', r), Ok(r), Err(mk('err', 'overflow')))
@N('mul_ceil|checked_mul_ceil')
def mulceil(k):
    r = ceil(mul(k.v(0), k.v(1)))
    return r if k.name.endswith('::mul_ceil') else ite(mk('fits', 'num', r), Ok(r), Err(mk('err', 'overflow')))
@N('max_value|MAX')
def nmax(k): return mk('const', k.name, '')
@N('u128|u64|to_le_bytes_|into_')
def nident(k): return k.v(0)
@N('from_uint128|from_u128|from_uint256')
def nident2(k): return k.v(0)
@M('cosmwasm_std::math::fraction::Fraction::inv')
def finv(k):
    x = k.v(0)
    return ite(eq(x, ZERO), NONE, Some(div(ONE, x)))
@R(NUMT + 'inv$')
def finv2(k): return finv(k)

def arith(k, f, what):
    a, b = k.v(0), k.v(1)
    T0 = k.targ(0).lstrip('&')
    dec = 'Decimal' in T0; un = T0 in RANGE and T0[0] == 'u' or T0.startswith('cosmwasm_std::math::')
    if what == 'sub':
        if un and not require(k.E, k.st, not_(lt(a, b, True)), 'underflow'): return None
        return sub(a, b)
    if what == 'add':
        r = add(a, b)
        if a is ZERO or b is ZERO: return r
    elif what == 'mul':
        r = mul(a, b)
        if dec and 'Decimal' in k.targ(1) and r.op == 'mul' and not (isint(a) or isint(b)): r = mk('dmul', *sorted((a, b), key=lambda t: t.id))
    elif what == 'div':
        if not require(k.E, k.st, not_(eq(b, ZERO)), 'division by zero'): return None
        r = div(a, b)
        if not dec: r = floor(r)
        return r
    elif what == 'rem': return trem(a, b)
    if not require(k.E, k.st, mk('fits', 'num', r), 'overflow'): return None
    return r
for _n, _w in (('Add::add', 'add'), ('Sub::sub', 'sub'), ('Mul::mul', 'mul'), ('Div::div', 'div'), ('Rem::rem', 'rem')):
    def _f(k, w=_w):
        if w == 'add' and k.targ(0).lstrip('&') == 'alloc::string::String': return strcat(k.v(0), k.v(1))
        return arith(k, None, w)
    TABLE['core::ops::arith::' + _n] = _f
for _n, _w in (('AddAssign::add_assign', 'add'), ('SubAssign::sub_assign', 'sub'), ('MulAssign::mul_assign', 'mul'), ('DivAssign::div_assign', 'div')):
    def _g(k, w=_w):
        if w == 'add' and k.targ(0) == 'alloc::string::String':
            k.set(0, strcat(k.v(0), k.v(1))); return UNIT
        r = arith(k, None, w)
        if r is None: return None
        k.set(0, r)
        return UNIT
    TABLE['core::ops::arith::' + _n] = _g
@M('core::ops::arith::Neg::neg')
def neg(k): return scale(k.v(0), -1)
@M('core::ops::bit::Not::not')
def bnot(k): return not_(cond(k.v(0)))

@R(r'^core::num::<impl \w+>::(\w+)$')
def primnum(k):
    m = k.name.rsplit('::', 1)[-1]
    ty = re.search(r'<impl (\w+)>', k.name).group(1)
    a = k.v(0); b = k.v(1) if len(k.a) > 1 else None
    uns = ty[0] == 'u'
    if m in ('abs', 'unsigned_abs'):
        if uns: return a
        if isnum(a): return num(abs(nval(a)))
        r = mk('abs', a)
        if isint(a): INT.add(r.id)
        return r
    if m == 'checked_add': r = add(a, b); return ite(mk('fits', ty, r), Some(r), NONE)
    if m == 'checked_sub':
        r = sub(a, b)
        return ite(lt(a, b, True), NONE, Some(r)) if uns else ite(mk('fits', ty, r), Some(r), NONE)
    if m == 'checked_mul': r = mul(a, b); return ite(mk('fits', ty, r), Some(r), NONE)
    if m == 'checked_div': return ite(eq(b, ZERO), NONE, Some(tdiv(a, b)))
    if m == 'checked_rem': return ite(eq(b, ZERO), NONE, Some(trem(a, b)))
    if m == 'checked_neg' and not uns: r = scale(a, -1); return ite(mk('fits', ty, r), Some(r), NONE)
    if m in ('div_euclid', 'rem_euclid') and isnum(b) and nval(b) > 0:
        # the quotient of a negative number that leaves a remainder is rounded away from zero
        q = tdiv(a, b); r = trem(a, b)
        if not uns:
            c = lt(r, ZERO)
            q, r = ite(c, sub(q, ONE), q), ite(c, add(r, b), r)
        return q if m == 'div_euclid' else r
    if m == 'saturating_sub' and uns: return satsub_(k)
    if m == 'signum': return mk('signum', a)
    if m in ('is_positive',): return lt(ZERO, a)
    if m in ('is_negative',): return lt(a, ZERO)
    if m.startswith(('wrapping_', 'saturating_', 'overflowing_')): return mk('lossy', m, *[k.v(i) for i in range(len(k.a))])
    if m == 'pow': r = mk('pow', a, b); INT.add(r.id); return r
    return NotImplemented

# ---------------------------------------------------------------- storage

def content(k, ns):
    c = k.st.cont.get(ns)
    if c is None: c = s_init(ns)
    return restrict(c, k.st.pc)

def s_read(k, ns, key):
    e, v = s_get2(content(k, ns), ns, key)
    return restrict(e, k.st.pc), restrict(v, k.st.pc)

def s_get2(c, ns, key):
    e, v = s_get(c, ns, key)
    return e, v

def store_of(k, i):
    v = k.v(i)
    if v.op in ('item', 'map', 'ixmap'): return v.a[0]
    return None

def put(k, ns, key, val, what='save'):
    c = content(k, ns)
    pe = s_read(k, ns, key)
    if what == 'save':
        k.E.effect('save', ns, key, val, k.st, prev=pe)
        k.st.cont[ns] = mk('W', c, key, val)
    else:
        k.E.effect('remove', ns, key, None, k.st, prev=pe)
        k.st.cont[ns] = mk('R', c, key)

CS = r'^cw_storage_plus::(?:\w+::)*(Item|Map|SnapshotMap|SnapshotItem|Deque|IndexedMap|MultiIndex|UniqueIndex|Prefix|Bound|PrefixBound)::'
@M('cw_storage_plus::item::Item::new')
def item_new(k): return mk('item', k.v(0).a[0] if k.v(0).op == 'str' else show(k.v(0)))
@M('cw_storage_plus::map::Map::new')
def map_new(k): return mk('map', k.v(0).a[0] if k.v(0).op == 'str' else show(k.v(0)))
@M('cw_storage_plus::indexed_map::IndexedMap::new')
def imap_new(k):
    v = k.v(0)
    return mk('ixmap', v.a[0] if v.op == 'str' else show(v), k.d(1))
@M('cw_storage_plus::indexes::multi::MultiIndex::new')
def midx_new(k): return mk('midx', k.v(1).a[0], k.v(2).a[0], k.v(0))

def smeth(k):
    m = k.name.rsplit('::', 1)[-1]
    isitem = '::Item::' in k.name
    slf = k.v(0)
    if slf.op in ('ite',) and slf.a[1].op in ('map', 'item', 'ixmap', 'prefix', 'midx'):
        # different stores on different branches
        def one(x):
            def f(s):
                k2 = Call(k.E, k.c, [x] + list(k.a[1:]), k.t, s, k.ctx, k.b, k.name)
                return smeth(k2)
            return f
        return k.fork(slf.a[0], one(slf.a[1]), one(slf.a[2]))
    if slf.op not in ('map', 'item', 'ixmap'): return NotImplemented
    ns = slf.a[0]
    if m == 'prefix' or m == 'sub_prefix': return mk('prefix', slf, k.d(1))
    if m == 'no_prefix': return mk('prefix', slf, UNIT)
    if m in ('range', 'keys', 'prefix_range', 'range_raw', 'keys_raw'): return ranges(k, slf, UNIT, 1, m)
    if m == 'is_empty': return mk('bopq', 'empty', content(k, ns))
    if m == 'key':
        return mk('path', slf, k.d(1))
    i = 1
    key = UNIT
    if isitem:
        vi = 2
    else:
        key = k.d(2); vi = 3
    if m == 'load':
        e, v = s_read(k, ns, key)
        k.E.effect('load', ns, key, v, k.st, extra=m)
        return ite(e, Ok(v), Err(mk('err', 'notfound')))
    if m == 'may_load':
        e, v = s_read(k, ns, key)
        k.E.effect('load', ns, key, v, k.st, extra=m)
        return Ok(ite(e, Some(v), NONE))
    if m in ('has', 'exists'):
        e, v = s_read(k, ns, key)
        return e
    if m == 'save':
        put(k, ns, key, k.d(vi)); return Ok(UNIT)
    if m == 'remove':
        put(k, ns, key, None, 'remove')
        return Ok(UNIT) if '::IndexedMap::' in k.name else UNIT
    if m == 'update':
        e, v = s_read(k, ns, key)
        if isitem:
            k.E.effect('load', ns, key, v, k.st, extra=m)
            def doit(s):
                r = k.apply(k.a[vi], [v], s)
                return upd(s, r)
        def upd(s, r):
            if r is None: return None
            k2 = sub_call(k, s)
            def ok(s2):
                k3 = sub_call(k, s2)
                put(k3, ns, key, k.E.deep(s2, pl(r, 'Ok', '0'))); return Ok(pl(r, 'Ok', '0'))
            return fork(k.E, s, isvar(r, 'Ok'), ok, lambda s2: Err(pl(r, 'Err', '0')))
        if isitem: return k.fork(e, doit, lambda s: Err(mk('err', 'notfound')))
        r = k.apply(k.a[vi], [ite(e, Some(v), NONE)], k.st)
        return upd(k.st, r)
    if m == 'replace':
        nv = k.d(3)
        def w(s): put(sub_call(k, s), ns, key, pl(nv, 'Some', '0')); return Ok(UNIT)
        def d(s): put(sub_call(k, s), ns, key, None, 'remove'); return Ok(UNIT)
        return k.fork(isvar(nv, 'Some'), w, d)
    return NotImplemented
RX.append((re.compile(r'^cw_storage_plus::(?:\w+::)*(Item|Map|IndexedMap)::\w+$'), smeth))

@R(r'^cw_storage_plus::(?:\w+::)*Bound::(inclusive|exclusive|inclusive_int|exclusive_int)$')
def bound(k):
    return agg('Bound', 'Inclusive' if 'inclusive' in k.name else 'Exclusive', ['0'], [k.d(0)])
@R(r'^cw_storage_plus::(?:\w+::)*(MultiIndex|UniqueIndex)::(prefix|sub_prefix|no_prefix|range|keys)$')
def midx(k):
    m = k.name.rsplit('::', 1)[-1]
    if m in ('prefix', 'sub_prefix'): return mk('prefix', k.v(0), k.d(1))
    if m == 'no_prefix': return mk('prefix', k.v(0), UNIT)
    return ranges(k, k.v(0), UNIT, 1, m)
@R(r'^cw_storage_plus::(?:\w+::)*Prefix::(range|keys|range_raw|keys_raw|is_empty)$')
def prefix_range(k):
    v = k.v(0)
    if v.op == 'ite':
        return ranges(k, v, None, 1, k.name.rsplit('::', 1)[-1])
    if v.op != 'prefix': return NotImplemented
    return ranges(k, v.a[0], v.a[1], 1, k.name.rsplit('::', 1)[-1])

def ranges(k, src, prefix, i, m):
    if src.op == 'ite':
        return ite(src.a[0], ranges(k, src.a[1], prefix, i, m), ranges(k, src.a[2], prefix, i, m))
    if src.op == 'prefix': src, prefix = src.a
    ns = src.a[0]
    c = content(k, ns)
    R_ = mk('range', c, src, prefix, k.d(i + 1), k.d(i + 2), k.d(i + 3))
    k.E.effect('range', ns, prefix, R_, k.st, extra=m)
    e = mk('elem', R_)
    el = range_elem(R_, e)
    return mk('iter', lmap(R_, Ok(fld(el, '0') if m.startswith('keys') else el)))

def range_elem(R_, e):
    """(key, value) pair of a storage range at generic position e"""
    c, src, prefix = R_.a[0], R_.a[1], R_.a[2]
    if src.op == 'midx' or prefix is UNIT: full = e
    else: full = tup(prefix, e)
    return tup(e, mk('val', c, src.a[0], full))

def ltake(L, n):
    """first n elements"""
    if n.op == 'ite': return ite(n.a[0], ltake(L, n.a[1]), ltake(L, n.a[2]))
    if L.op == 'ite': return ite(L.a[0], ltake(L.a[1], n), ltake(L.a[2], n))
    if n.op == 'min': return ltake(ltake(L, n.a[0]), n.a[1])
    if n is llen(L) or isnum(n) and nval(n) >= 2**32 - 1: return L       # no storage holds that many
    if isnum(n) and L.op == 'ltake' and isnum(L.a[1]): return ltake(L.a[0], num(min(nval(n), nval(L.a[1]))))
    if L.op == 'vec' and isnum(n): return vec(*L.a[:int(nval(n))])
    return mk('ltake', L, n)

def lmap(L, x):
    if x.op == 'elem' and x.a[0] is L: return L
    if L.op == 'ltake': return ltake(lmap(L.a[0], subst(x, {mk('elem', L): lelem(L.a[0])})), L.a[1])
    if L.op == 'lmap': return lmap(L.a[0], subst(x, {mk('elem', L): L.a[1]}))
    if L.op == 'vec': return vec(*[subst(x, {mk('elem', L): y}) for y in L.a])
    return mk('lmap', L, x)
def lbase(L):
    """the list whose elements L is computed from"""
    while L.op in ('lmap', 'ltake'): L = L.a[0]
    if L.op == 'ite':
        a, b = lbase(L.a[1]), lbase(L.a[2])
        if a is b: return a
    return L
def lelem(L):
    if L.op == 'ite' and lbase(L) is not L: return ite(L.a[0], lelem(L.a[1]), lelem(L.a[2]))
    if L.op == 'lmap': return L.a[1]
    if L.op == 'ltake': return lelem(L.a[0])
    return mk('elem', L)

# ---------------------------------------------------------------- vectors and slices

VS = r'^(alloc::vec::Vec|core::slice::<impl \[T\]>|alloc::slice::<impl \[T\]>|alloc::collections::vec_deque::VecDeque)::'
def V(rx): return R(VS + '(?:' + rx + ')$')
@V('new|with_capacity')
def vnew(k): return EMPTY
@M('alloc::boxed::Box::new_uninit', 'alloc::boxed::Box::new_uninit_slice')
def new_uninit(k): return k.E.alloc(k.st, agg('MaybeUninit', '', [], []), 'box')
@M('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::boxed::Box::assume_init')
def into_vec(k):
    v = k.v(0)
    while v.op in ('agg', 'with') and ('value' in v.a[2] if v.op == 'agg' else any(n == 'value' for n, _ in v.a[1])): v = fld(v, 'value')
    return v
@V('push|push_back')
def vpush(k):
    k.set(0, cat(k.v(0), vec(k.E.nrm(k.st, k.a[1])))); return UNIT
@V('append')
def vappend(k):
    k.set(0, cat(k.v(0), k.v(1))); k.set(1, EMPTY); return UNIT
@V('extend_from_slice')
def vext(k): k.set(0, cat(k.v(0), k.v(1))); return UNIT
@M('core::iter::traits::collect::Extend::extend')
def extend(k):
    L = to_list(k, k.a[1])
    if L is None: return NotImplemented
    k.set(0, cat(k.v(0), L)); return UNIT
@M('core::array::<impl [T; N]>::map')
def amap(k):
    v = k.v(0)
    if v.op != 'vec': return NotImplemented
    out = []
    for e in v.a:
        x = k.apply(k.a[1], [e])
        if x is None: return None
        out.append(x)
    return vec(*out)
@M('core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::each_ref')
def aslice(k): return k.v(0)
# an ordered map filled with the elements a walk over a storage range passes: their keys differ, so nothing is replaced
BT = 'alloc::collections::btree::map::BTreeMap::'
@M(BT + 'new')
def bt_new(k): return EMPTY
@M(BT + 'insert')
def bt_insert(k):
    v, key = k.v(0), k.v(1)
    if not (islist(v) or v.op == 'lv' and k.ty(0).startswith('&mut ')) or key.op != 'nx' or terms.walked(key.a[0]) is None: return NotImplemented
    k.set(0, cat(v, vec(tup(key, k.v(2)))))
    return NONE
@M('core::any::type_name', 'core::any::type_name_of_val')
def type_name(k): return mk('str', k.targ(0))
@V('len')
def vlen(k): return llen(k.v(0))
@V('is_empty')
def vempty(k): return restrict(eq(llen(k.v(0)), ZERO), k.st.pc)
@V('clear')
def vclear(k): k.set(0, EMPTY); return UNIT
@V('first|get|last')
def vfirst(k):
    v = k.v(0); m = k.name.rsplit('::', 1)[-1]
    n = llen(v)
    if m == 'last': i = sub(n, ONE)
    else: i = ZERO if m == 'first' else k.v(1)
    c = lt(i, n, True) if m == 'get' else not_(eq(n, ZERO))
    c = restrict(c, k.st.pc)
    if c is FALSE: return NONE
    return ite(c, Some(index(k.E, k.st, v, i)), NONE)
@V('split_first|split_last')
def vsplit(k):
    v = k.v(0)
    if v.op != 'vec': return NotImplemented
    if not v.a: return NONE
    x, y = (v.a[0], v.a[1:]) if k.name.endswith('first') else (v.a[-1], v.a[:-1])
    return Some(tup(x, vec(*y)))
@V('contains')
def vcontains(k):
    v = k.v(0); x = k.d(1)
    if not finite(v): return mk('bopq', 'contains', v, x)
    def go(v):
        if v.op == 'ite': return ite(v.a[0], go(v.a[1]), go(v.a[2]))
        r = FALSE
        for e in v.a: r = or_(r, go(e) if v.op == 'cat' else eq(k.E.deep(k.st, e), x))
        return r
    return restrict(go(v), k.st.pc)
@V('iter|into_iter')
def viter(k): return mk('iter', k.v(0))

def places(k, i=0):
    """list of references to the elements of a known list, or None"""
    r = k.E.nrm(k.st, k.a[i])
    if r.op != 'ref': return None
    while True:                                   # a reference to a reference
        w = k.E.rd(k.st, (r.a[0], r.a[1]))
        if w.op != 'ref': break
        r = w
    def go(w):
        c = list_cases(w)
        if c:
            x, y = go(c[1]), go(c[2])
            return None if x is None or y is None else ite(c[0], x, y)
        if w.op == 'cat': w = unexplode(explode(w))
        return vec(*[mk('ref', r.a[0], r.a[1] + ('[%d]' % j,)) for j in range(len(w.a))]) if w.op == 'vec' else None
    return go(w)
def list_cases(w):
    """(condition, list, list) when the list depends on a condition, else None"""
    if w.op == 'ite': return w.a
    es = parts(w) if w.op == 'cat' else ()
    for n, x in enumerate(es):
        if x.op == 'ite':
            def put(y):
                r = EMPTY
                for z in es[:n] + (y,) + es[n + 1:]: r = cat(r, z)
                return r
            return x.a[0], put(x.a[1]), put(x.a[2])
    return None
@V('iter_mut')
def vitermut(k):
    ps = places(k)
    return NotImplemented if ps is None else mk('iter', ps)
def leafmap(t, f):
    c = list_cases(t)
    return ite(c[0], leafmap(c[1], f), leafmap(c[2], f)) if c else f(unexplode(explode(t)))
@V('get_mut|first_mut|last_mut')
def vgetmut(k):
    ps = places(k); m = k.name.rsplit('::', 1)[-1]
    if ps is None: return NotImplemented
    i = k.v(1) if m == 'get_mut' else None
    if i is not None and not isnum(i): return NotImplemented
    def f(ps):
        j = int(nval(i)) if i is not None else 0 if m == 'first_mut' else len(ps.a) - 1
        return Some(ps.a[j]) if 0 <= j < len(ps.a) else NONE
    return leafmap(ps, f)
@M('core::ops::index::IndexMut::index_mut')
def idxmut(k):
    ps, i = places(k), k.v(1)
    if ps is None or not isnum(i): return NotImplemented
    j = int(nval(i))
    if not require(k.E, k.st, leafmap(ps, lambda p: boolean(j < len(p.a))), 'index out of bounds'): return None
    return k.E.nrm(k.st, leafmap(ps, lambda p: p.a[j] if j < len(p.a) else BOTTOM))
@V('drain')
def vdrain(k):
    if not k.ty(1).endswith('RangeFull'): return NotImplemented
    v = k.v(0); k.set(0, EMPTY); return mk('iter', v)
def edit(k, f):
    """apply f: elements -> (result, elements) to a known list"""
    w = k.v(0)
    def go(v):
        c = list_cases(v)
        if c:
            x, y = go(c[1]), go(c[2])
            return None if x is None or y is None else (ite(c[0], x[0], y[0]), ite(c[0], x[1], y[1]))
        if v.op == 'cat': v = unexplode(explode(v))
        if v.op != 'vec': return None
        x = f(list(v.a))
        return None if x is None else (x[0], vec(*x[1]))
    r = go(w)
    if r is None: return NotImplemented
    k.set(0, r[1])
    return r[0]
@V('pop|pop_back|pop_front')
def vpop(k):
    front = k.name.endswith('pop_front')
    if k.v(0).op in ('vec', 'ite', 'cat'): k.E.definite = True
    return edit(k, lambda es: (NONE, es) if not es else (Some(es[0]), es[1:]) if front else (Some(es[-1]), es[:-1]))
@V('retain')
def vretain(k):
    v = k.v(0)
    if not finite(v): return NotImplemented
    L = mapped(k, mk('ifilter', mk('iter', v), k.E.nrm(k.st, k.a[1])), v)
    if L is None: return None
    k.set(0, L)
    return UNIT
@V('reverse')
def vreverse(k): return edit(k, lambda es: (UNIT, es[::-1]))
@V('reserve|reserve_exact|shrink_to_fit|shrink_to')
def vcapacity(k): return UNIT
@V('truncate|insert|remove|swap_remove|swap|split_off')
def vedit(k):
    i = k.v(1); m = k.name.rsplit('::', 1)[-1]
    if m == 'truncate' and not finite(k.v(0)) and not occurs_ref(k.v(0)):
        k.set(0, ltake(k.v(0), i)); return UNIT
    if not isnum(i): return NotImplemented
    i = int(nval(i))
    x = k.E.nrm(k.st, k.a[2]) if m == 'insert' else None
    j = k.v(2) if m == 'swap' else None
    if j is not None:
        if not isnum(j): return NotImplemented
        j = int(nval(j))
    def f(es):
        if m == 'truncate': return UNIT, es[:i]
        if i > len(es) or m not in ('insert', 'split_off') and i == len(es) or j is not None and j >= len(es): return None
        if m == 'insert': return UNIT, es[:i] + [x] + es[i:]
        if m == 'split_off': return vec(*es[i:]), es[:i]
        if m == 'remove': return es[i], es[:i] + es[i + 1:]
        if m == 'swap_remove':
            r = es[i]; es[i] = es[-1]; return r, es[:-1]
        es[i], es[j] = es[j], es[i]
        return UNIT, es
    return edit(k, f)
@V('concat')
def vconcat(k):
    v = k.v(0)
    if v.op != 'vec': return NotImplemented
    r = EMPTY
    for e in v.a: r = cat(r, k.E.val(k.st, e))
    return r
@M('core::ops::index::Index::index')
def idx(k):
    v, i = k.v(0), k.v(1)
    if (islist(v) or v.op in ('lv', 'fld', 'in')) and numeric(i):
        if not require(k.E, k.st, lt(i, llen(v), True), 'index out of bounds'): return None
    return index(k.E, k.st, v, i)

# ---------------------------------------------------------------- iterators

IT = 'core::iter::traits::iterator::Iterator::'
ITOPS = ('iter',) + ITADAPT

def as_iter(k, v, st=None):
    v = k.E.val(st or k.st, v)
    if v.op in ITOPS: return v
    if v.op == 'lv' and v in LV_BASE or v.op == 'adv': return v
    if v.op == 'agg' and v.a[0].startswith('core::ops::range::Range'):
        lo, hi = k.E.val(k.st, fld(v, 'start')), k.E.val(k.st, fld(v, 'end'))
        if v.a[0].endswith('Inclusive'): hi = add(hi, ONE)
        if isnum(lo) and isnum(hi) and nval(hi) - nval(lo) <= 64:
            return mk('iter', vec(*[num(lo.a[0] + j) for j in range(int(max(0, nval(hi) - nval(lo))))]))
        if lo is ZERO and hi.op == 'len': return mk('ipos', mk('iter', hi.a[0]))
        return mk('iter', mk('upto', lo, hi))
    if v.op == 'agg' and v.a[0] == 'Option': return mk('iter', vec(*v.a[3]))
    if v.op == 'ite' and v.a[1].op in ITOPS and v.a[2].op in ITOPS: return v
    if optional(v): return mk('iter', ite(isvar(v, 'Some'), vec(pl(v, 'Some', '0')), EMPTY))
    return mk('iter', v)

def optional(v):
    """an option decided by a condition"""
    if v.op == 'ite': return optional(v.a[1]) or optional(v.a[2])
    return v.op == 'agg' and v.a[0] == 'Option'

@M('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(k):
    if re.match(r'^&mut (alloc::vec::Vec|std::vec::Vec|Vec|\[)', k.ty(0)):
        ps = places(k)
        if ps is not None: return mk('iter', ps)
    return as_iter(k, k.v(0))
@M('core::option::Option::into_iter', 'core::option::Option::iter')
def opt_iter(k):
    v = k.v(0)
    return mk('iter', ite(isvar(v, 'Some'), vec(pl(v, 'Some', '0')), EMPTY))

@M('core::iter::sources::once::once')
def once(k): return mk('iter', vec(k.E.nrm(k.st, k.a[0])))
@M('core::iter::sources::empty::empty')
def iempty(k): return mk('iter', EMPTY)
for _n, _o in (('map', 'imap'), ('filter', 'ifilter'), ('filter_map', 'ifmap'), ('take', 'itake'), ('skip', 'iskip'), ('zip', 'izip'), ('chain', 'ichain')):
    def _h(k, o=_o):
        x = k.E.nrm(k.st, k.a[1])
        if o in ('izip', 'ichain'): x = as_iter(k, x)
        elif o in ('itake', 'iskip'): x = k.v(1)
        if o == 'itake':
            L = purelist(k, k.a[0], loads=False)
            if L is not None and L.op in ('lmap', 'ltake', 'range'): return mk('iter', ltake(L, x))
        return mk(o, as_iter(k, k.a[0]), x)
    TABLE[IT + _n] = _h
@M(IT + 'inspect', IT + 'take_while', IT + 'map_while')
def closured(k): return mk({'inspect': 'iseen', 'take_while': 'iwhile', 'map_while': 'imwhile'}[k.name.rsplit('::', 1)[-1]], as_iter(k, k.a[0]), k.E.nrm(k.st, k.a[1]))
def seen(k, it, x, s):
    """what inspect, take_while and map_while yield for x, as an option; None if it diverges"""
    r = k.apply(it.a[1], [x], s)
    if r is None: return None
    if it.op == 'iseen': return Some(x)
    r = k.E.nrm(s, r)
    return r if it.op == 'imwhile' else ite(cond(r), Some(x), NONE)
@M(IT + 'flatten')
def iflatten(k): return mk('iflat', as_iter(k, k.a[0]))
@M(IT + 'flat_map')
def iflatmap(k): return mk('iflat', mk('imap', as_iter(k, k.a[0]), k.E.nrm(k.st, k.a[1])))
@M(IT + 'enumerate')
def ienum(k): return mk('ienum', as_iter(k, k.a[0]), ZERO)
@M(IT + 'cloned', IT + 'copied', IT + 'fuse', IT + 'peekable')
def icloned(k): return as_iter(k, k.a[0])
@M(IT + 'rev', 'core::iter::traits::double_ended::DoubleEndedIterator::rev')
def irev(k):
    v = as_iter(k, k.a[0])
    if v.op == 'iter' and v.a[0].op == 'vec': return mk('iter', vec(*reversed(v.a[0].a)))
    return mk('irev', v)

def nx_either(k, c, x, y, st):
    def go(z):
        def f(s):
            o, i2 = nx(k, z, s)
            return None if o is None else tup(o, i2)
        return f
    r = fork(k.E, st, c, go(x), go(y))
    return (None, x) if r is None else (fld(r, '0'), fld(r, '1'))

def nx(k, it, st):
    """(option term, advanced iterator); st may be refined"""
    E = k.E
    it = E.nrm(st, it)
    if it.op == 'ite':
        # iterators from different branches: advance as one opaque iterator
        return nx_either(k, it.a[0], it.a[1], it.a[2], st)
    if it.op == 'iter':
        L = E.nrm(st, it.a[0])
        if L.op == 'vec':
            E.definite = True
            if not L.a: return NONE, it
            return Some(L.a[0]), mk('iter', vec(*L.a[1:]))
        if L.op == 'cat' and L.a[0].op == 'vec':
            h = L.a[0]
            return Some(h.a[0]), mk('iter', unexplode([vec(*h.a[1:])] + list(L.a[1:])))
        if L.op == 'cat' and L.a[0].op == 'ite' and finite(L) and len(L.a) <= 6:
            def spread(x): return ite(x.a[0], spread(x.a[1]), spread(x.a[2])) if x.op == 'ite' else unexplode([x] + list(L.a[1:]))
            return nx(k, mk('iter', spread(L.a[0])), st)
        if L.op == 'ite':
            memo = {}
            def go(L):                     # case by case, without running anything
                r = memo.get(L.id)
                if r is None:
                    if L.op == 'ite':
                        a, ia = go(L.a[1]); b, ib = go(L.a[2])
                        r = ite(L.a[0], a, b), ite(L.a[0], ia, ib)
                    else: r = nx(k, mk('iter', L), st)
                    memo[L.id] = r
                return r
            o, i2 = go(L)
            return restrict(o, st.pc), restrict(i2, st.pc)
        if L.op == 'lmap':
            base = mk('iter', L.a[0])
            o, i2 = nx(k, base, st)
            h = isvar(o, 'Some')
            return ite(h, Some(subst(L.a[1], {mk('elem', L.a[0]): pl(o, 'Some', '0')})), NONE), mk('adv', it)
        return ite(mk('hasnext', it), Some(mk('nx', it)), NONE), mk('adv', it)
    if it.op == 'imap':
        o, i2 = nx(k, it.a[0], st)
        r = fork(E, st, isvar(o, 'Some'), lambda s: wrap('Some', k.apply(it.a[1], [pl(o, 'Some', '0')], s)), lambda s: NONE)
        return r, mk('imap', i2, it.a[1])
    if it.op in WHILES:
        o, i2 = nx(k, it.a[0], st)
        r = fork(E, st, isvar(o, 'Some'), lambda s: seen(k, it, pl(o, 'Some', '0'), s), lambda s: NONE)
        return r, mk(it.op, i2, it.a[1])
    if it.op == 'ienum':
        o, i2 = nx(k, it.a[0], st)
        return ite(isvar(o, 'Some'), Some(tup(it.a[1], pl(o, 'Some', '0'))), NONE), mk('ienum', i2, add(it.a[1], ONE))
    if it.op == 'izip':
        o, i2 = nx(k, it.a[0], st); p, j2 = nx(k, it.a[1], st)
        return ite(and_(isvar(o, 'Some'), isvar(p, 'Some')), Some(tup(pl(o, 'Some', '0'), pl(p, 'Some', '0'))), NONE), mk('izip', i2, j2)
    if it.op == 'itake':
        n = it.a[1]
        if n is ZERO: return NONE, it
        o, i2 = nx(k, it.a[0], st)
        if isnum(n): return o, mk('itake', i2, sub(n, ONE))
    if it.op == 'ipos':
        o, i2 = nx(k, it.a[0], st)
        return ite(isvar(o, 'Some'), Some(pos(it.a[0])), NONE), mk('ipos', i2)
    if it.op in FILTERS:
        o, i2 = nx(k, it.a[0], st)
        rest = mk(it.op, i2, *it.a[1:])
        some = restrict(isvar(o, 'Some'), st.pc)
        if some is FALSE: return NONE, rest
        if some is TRUE and E.definite:
            got = filtered(k, it, pl(o, 'Some', '0'), st)
            if got is None: return None, rest
            hit = isvar(got, 'Some')
            if hit is TRUE: return got, rest
            s2 = st.copy()
            o2, r2 = nx(k, rest, s2)
            if hit is FALSE: return o2, r2
            return ite(hit, got, o2), ite(hit, rest, r2)
        # the elements passed over lead to another round of the enclosing loop
        if E.miss is None: raise AnalysisError('a filtering iterator is advanced outside the head of a loop in ' + (E.fn.id if E.fn else '?'))
        s1 = st.copy(); s1.pc = and_(st.pc, some)
        s0 = st.copy(); s0.pc = and_(st.pc, not_(some))
        got = filtered(k, it, pl(o, 'Some', '0'), s1)
        if got is None: s1.pc = FALSE; hit = FALSE
        else: hit = restrict(isvar(got, 'Some'), s1.pc)
        sm = s1.copy(); sm.pc = and_(s1.pc, not_(hit))
        s1.pc = and_(s1.pc, hit)
        if sm.pc is not FALSE: E.miss.append(sm)
        m = E.merge([s1, s0])
        if m is None: st.pc = FALSE; return None, rest
        st.store, st.cont, st.pc = m.store, m.cont, m.pc
        return restrict(ite(restrict(some, m.pc), got, NONE), m.pc), rest
    return ite(mk('hasnext', it), Some(elem_of(it)), NONE), mk('adv', it)

FILTERS = ('ifilter', 'ifmap', 'iflat')
WHILES = ('iseen', 'iwhile', 'imwhile')
def finite(L):
    """a list of known length in every case"""
    if L.op == 'vec': return True
    return L.op in ('ite', 'cat') and all(finite(x) for x in (L.a[1:] if L.op == 'ite' else L.a))
def family(x):
    while x.op == 'ite': x = x.a[1]
    return x.a[0] if x.op == 'agg' else None
def derefs(k, s, x):
    if x.op == 'ite': return ite(x.a[0], derefs(k, s, x.a[1]), derefs(k, s, x.a[2]))
    return k.E.val(s, x) if x.op == 'ref' else x
def occurs_ref(v): return any(x.op == 'ref' for x in subterms(v))
def filtered(k, it, x, s):
    """what a filtering adaptor yields for x, as an option"""
    if it.op == 'iflat':
        x = derefs(k, s, x)
        n = {'Option': 'Some', 'Result': 'Ok'}.get(family(x))
        if n is None: raise AnalysisError('flattening of nested lists')
        return ite(isvar(x, n), Some(pl(x, n, '0')), NONE)
    r = k.apply(it.a[1], [x], s)
    if r is None: return None
    if it.op == 'ifmap': return k.E.nrm(s, r)
    c = cond(k.E.nrm(s, r))
    return ite(c, Some(x), NONE)

def elem_of(it):
    """generic current element of an opaque iterator, in terms of the list it walks"""
    b = it
    while b is not None and b.op in ('adv', 'lv'): b = b.a[0] if b.op == 'adv' else LV_BASE.get(b)
    x = mk('nx', it)
    if b is None or b.op != 'iter': return x
    L = b.a[0]
    base = lbase(L)
    return subst(lelem(L), {mk('elem', base): x})

def acc_step(v, n):
    """how one iteration extends accumulator v: ('item', x) | ('opt', option) | ('sum', x) | None"""
    if islist(n):
        ps = parts(n)
        if ps[0] is v and len(ps) == 2 and ps[1].op == 'vec' and len(ps[1].a) == 1 and not occurs(v, ps[1]): return ('item', ps[1].a[0])
        if ps[0] is v and len(ps) == 2 and ps[1].op == 'ite':
            o = optlist(ps[1])
            if o is not None and not occurs(v, o): return ('opt', o)
        return None
    if n.op == 'ite':
        def go(t):
            if t is v: return NONE
            if t.op == 'ite':
                a, b = go(t.a[1]), go(t.a[2])
                return None if a is None or b is None else ite(t.a[0], a, b)
            r = acc_step(v, t)
            return Some(r[1]) if r and r[0] == 'item' else None
        o = go(n)
        if o is not None and not occurs(v, o): return ('opt', o)
        return None
    if n.op == 'lin':
        d, c = lin_parts(n)
        if d.get(v) == 1:
            x = sub(n, v)
            if not occurs(v, x): return ('sum', x)
    return None
def optlist(t):
    if t.op == 'ite':
        a, b = optlist(t.a[1]), optlist(t.a[2])
        return None if a is None or b is None else ite(t.a[0], a, b)
    if t.op == 'vec' and not t.a: return NONE
    if t.op == 'vec' and len(t.a) == 1: return Some(t.a[0])
    return None
def lmapx(L, base, x):
    """map over L where x is written in terms of elem(base)"""
    if L.op == 'ltake': return ltake(lmapx(L.a[0], base, x), L.a[1])
    if L.op == 'ite' and L is not base: return ite(L.a[0], lmapx(L.a[1], base, x), lmapx(L.a[2], base, x))
    return lmap(base, x)
def lfmapx(L, base, o):
    if canvar(o, 'Some') is True: return lmapx(L, base, pl(o, 'Some', '0'))
    if L.op == 'ite' and L is not base: return ite(L.a[0], lfmapx(L.a[1], base, o), lfmapx(L.a[2], base, o))
    if L.op == 'ltake': return mk('lfmap', L, o)
    return lfmap(base, o)
def lfmap(base, o):
    if canvar(o, 'Some') is True: return lmap(base, pl(o, 'Some', '0'))
    return mk('lfmap', base, o)

@M(IT + 'next')
def inext(k):
    r = k.E.nrm(k.st, k.a[0])
    it = k.v(0)
    flt = it
    while flt.op in ('imap',) + WHILES + FILTERS: flt = flt.a[0]
    ok = not any(x.op in FILTERS for x in subterms(flt) if x.op in ITADAPT)
    if not ok or k.E.nextmiss is None: k.E.miss = None
    else: k.E.miss = k.E.nextmiss
    o, i2 = nx(k, it, k.st)
    for s in k.E.miss or (): k.E.assign(s, r, i2)
    k.E.miss = None
    k.E.assign(k.st, r, i2)
    if o is None: return None
    return restrict(o, k.st.pc)

@M('core::iter::adapters::peekable::Peekable::peek')
def peek(k):
    o, i2 = nx(k, k.v(0), k.st.copy())
    return None if o is None else restrict(o, k.st.pc)

def to_list(k, v):
    """list term denoted by an iterator, consuming it; None if that never returns"""
    L = purelist(k, v)
    if L is not None: return L
    E = k.E
    acc = E.alloc(k.st, EMPTY, 'acc')
    def step(s, y):
        E.assign(s, acc, cat(E.val(s, acc), vec(E.nrm(s, y))))
        return FALSE
    if not consume(k, as_iter(k, v), step): return None
    return E.val(k.st, acc)

def purelist(k, v, loads=True):
    """list term denoted by an iterator whose closures only compute; None otherwise"""
    E = k.E
    s2 = k.st.copy(); mark = len(E.effects); ls = set(E.loops)
    L = rawlist(sub_call(k, s2), v)
    if L is not None and pure(E, k.st, s2, mark) and (loads or len(E.effects) == mark): return L
    del E.effects[mark:]
    for l in [l for l in E.loops if l not in ls]: del E.loops[l]
    return None

def rawlist(k, v):
    it = as_iter(k, v)
    E = k.E
    if it.op == 'ite':
        a, b = rawlist(k, it.a[1]), rawlist(k, it.a[2])
        return None if a is None or b is None else ite(it.a[0], a, b)
    if it.op == 'iter': return E.nrm(k.st, it.a[0])
    if it.op not in ITOPS: return None
    L = rawlist(k, it.a[0])
    if L is None: return None
    if it.op == 'ichain':
        R_ = rawlist(k, it.a[1])
        return None if R_ is None else cat(L, R_)
    if it.op == 'itake':
        if L.op == 'vec' and isnum(it.a[1]): return vec(*L.a[:int(nval(it.a[1]))])
        return ltake(L, it.a[1])
    if it.op in ('imap',) + FILTERS:
        return mapped(k, it, L)
    if it.op == 'ienum' and L.op == 'vec': return vec(*[tup(num(i), x) for i, x in enumerate(L.a)])
    if it.op == 'izip':
        R_ = rawlist(k, it.a[1])
        if R_ is not None and L.op == 'vec' and R_.op == 'vec': return vec(*[tup(x, y) for x, y in zip(L.a, R_.a)])
    if it.op == 'irev' and L.op == 'vec': return vec(*reversed(L.a))
    return None

def mapped(k, it, L):
    E = k.E; op = it.op
    L = E.nrm(k.st, L)
    if L.op == 'ite':
        a, b = mapped(k, it, L.a[1]), mapped(k, it, L.a[2])
        return None if a is None or b is None else ite(L.a[0], a, b)
    if L.op == 'cat' or L.op == 'vec':
        out = EMPTY
        for p in explode(L):
            if p.op == 'vec':
                if op == 'imap':
                    x = k.apply(it.a[1], [p.a[0]])
                    if x is None: return None
                    out = cat(out, vec(x))
                else:
                    x = filtered(k, it, p.a[0], k.st)
                    if x is None: return None
                    out = cat(out, ite(isvar(x, 'Some'), vec(pl(x, 'Some', '0')), EMPTY))
            else:
                m = mapped(k, it, p)
                if m is None: return None
                out = cat(out, m)
        return out
    if L.op == 'ltake':
        m = mapped(k, it, L.a[0])
        if m is None: return None
        return ltake(m, L.a[1]) if op == 'imap' or m.op == 'lmap' and op != 'ifilter' else mk('lfilter', L, mk('fn?', show(it.a[1]) if len(it.a) > 1 else ''))
    base = L
    while base.op == 'lmap': base = base.a[0]
    e = lelem(L)
    s2 = k.st.copy(); mark = len(E.effects)
    x = E.apply(it.a[1], [e], s2, k.ctx, (k.b, 'map')) if op == 'imap' else filtered(k, it, e, s2)
    if x is None or not pure(E, k.st, s2, mark): return None
    return lmapx(L, base, x) if op == 'imap' else lfmapx(L, base, x)

def pure(E, s, s2, mark):
    if any(e.kind not in ('load',) for e in E.effects[mark:]): return False
    if any(s2.cont.get(n) is not c for n, c in s.cont.items()) or any(n not in s.cont for n in s2.cont): return False
    if s2.pc is not s.pc: return False
    return all(s2.store.get(r) is v for r, v in s.store.items())

def consume(k, it, step):
    """drive an iterator: step(state, item) -> early-exit condition (state updated), None if it diverges"""
    E, st = k.E, k.st
    it = E.nrm(st, it)
    if it.op in ('itake', 'iskip', 'irev'):
        L = purelist(k, it, loads=False)
        if L is not None: it = mk('iter', L)
    if it.op == 'imap':
        def each(s, x):
            y = k.apply(it.a[1], [x], s)
            return None if y is None else step(s, E.nrm(s, y))
        return consume(k, it.a[0], each)
    if it.op in FILTERS:
        def each(s, x):
            y = filtered(k, it, x, s)
            if y is None: return None
            return fork(E, s, isvar(y, 'Some'), lambda s1: step(s1, E.nrm(s1, pl(y, 'Some', '0'))), lambda s1: FALSE)
        return consume(k, it.a[0], each)
    if it.op in WHILES:
        def each(s, x):
            y = seen(k, it, x, s)
            if y is None: return None
            return fork(E, s, isvar(y, 'Some'), lambda s1: step(s1, E.nrm(s1, pl(y, 'Some', '0'))), lambda s1: TRUE)
        return consume(k, it.a[0], each)
    if it.op == 'ienum':
        n_ = E.alloc(st, it.a[1], 'cnt')
        def each(s, x):
            c = E.val(s, n_)
            E.assign(s, n_, add(c, ONE))
            return step(s, tup(c, x))
        return consume(k, it.a[0], each)
    if it.op == 'izip':
        o_ = E.alloc(st, it.a[1], 'zip')
        def each(s, x):
            o, i2 = nx(k, E.val(s, o_), s)
            if o is None: return None
            E.assign(s, o_, i2)
            return fork(E, s, isvar(o, 'Some'), lambda s1: step(s1, tup(x, E.nrm(s1, pl(o, 'Some', '0')))), lambda s1: TRUE)
        return consume(k, it.a[0], each)
    if it.op == 'ichain':
        f_ = E.alloc(st, FALSE, 'stop')
        def each(s, x):
            r = step(s, x)
            if r is not None: E.assign(s, f_, cond(r))
            return r
        if not consume(k, it.a[0], each): return False
        fork(E, st, cond(E.val(st, f_)), lambda s: UNIT, lambda s: UNIT if consume(sub_call(k, s), it.a[1], step) else None)
        return st.pc is not FALSE
    if it.op == 'iskip':
        n_ = E.alloc(st, ZERO, 'cnt')
        def each(s, x):
            c = E.val(s, n_)
            def passed(s1):
                E.assign(s1, n_, add(c, ONE)); return FALSE
            return fork(E, s, lt(c, it.a[1]), passed, lambda s1: step(s1, x))
        return consume(k, it.a[0], each)
    if it.op == 'itake':
        n_ = E.alloc(st, ZERO, 'cnt')
        def each(s, x):
            r = step(s, x)
            if r is None: return None
            c = add(E.val(s, n_), ONE)
            E.assign(s, n_, c)
            return or_(cond(r), eq(c, it.a[1]))
        fork(E, st, eq(it.a[1], ZERO), lambda s: UNIT, lambda s: UNIT if consume(sub_call(k, s), it.a[0], each) else None)
        return st.pc is not FALSE
    itl = E.alloc(st, it, 'iter')
    n = len([1 for r in st.store if r[0] == 'H' and 'iter' in r])
    lid = 'L%d' % E.ctx(k.ctx, k.name, ('consume', str(k.b), n), E.ukey())
    def body(s):
        cur = E.val(s, itl)
        o, i2 = nx(k, cur, s)
        E.assign(s, itl, i2)
        c = restrict(isvar(o, 'Some'), s.pc)
        out = []
        s0 = s.copy(); s0.pc = and_(s.pc, not_(c))
        if s0.pc is not FALSE: out.append(('done', s0))
        s1 = s.copy(); s1.pc = and_(s.pc, c)
        if s1.pc is FALSE: return out
        stop = step(s1, restrict(pl(o, 'Some', '0'), s1.pc))
        if stop is None or s1.pc is FALSE: return out
        stop = restrict(stop, s1.pc)
        s2 = s1.copy(); s2.pc = and_(s1.pc, stop)
        if s2.pc is not FALSE: out.append(('brk', s2))
        s1.pc = and_(s1.pc, not_(stop))
        if s1.pc is not FALSE: out.append(('back', s1))
        return out
    # a concrete list is walked element by element
    exits = []; cur = st.copy(); done = False
    saved_def = E.definite
    for _ in range(24):
        E.definite = False
        saved = E.unroll if hasattr(E, 'unroll') else ()
        E.unroll = saved + ((k.ctx, str(k.b), _),)
        mark = len(E.effects)
        try: ex = body(cur.copy())
        finally: E.unroll = saved
        backs = [s2 for t, s2 in ex if t == 'back']
        if backs and not E.definite:
            del E.effects[mark:]
            break
        exits += [(t, s2) for t, s2 in ex if t != 'back']
        m = E.merge(backs)
        if m is None: done = True; break
        cur = m
    E.definite = saved_def
    if not done:
        exits += E.fix(cur, body, lid, lambda rt: '%s_%s' % (rt[0], rt[-2] if len(rt) > 2 else ''), k.name, E.span)
    m = E.merge([s for t, s in exits])
    if m is None:
        st.pc = FALSE
        return False
    st.store, st.cont, st.pc = m.store, m.cont, m.pc
    return True

@M(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def collect(k):
    rt = k.targ(1) if k.name.endswith('collect') else k.targ(0)
    if not rt.startswith('core::result::Result') and not rt.startswith('core::option::Option'): return to_list(k, k.a[0])
    n = 'Ok' if 'result' in rt else 'Some'
    L = purelist(k, k.a[0])
    if L is not None and L.op == 'vec':
        good = TRUE; out = []
        for x in L.a:
            good = and_(good, isvar(x, n)); out.append(pl(x, n, '0'))
        err = mk('err', 'collect')
        return ite(good, wrap(n, vec(*out)), NONE if n == 'Some' else Err(err))
    if L is not None and L.op in ('lmap', 'ltake'):
        e = lelem(L)
        if canvar(e, n) is True: return wrap(n, strip_list(L, n))
    # general case: stop at the first failure
    E = k.E
    acc = E.alloc(k.st, EMPTY, 'acc'); res = E.alloc(k.st, wrap(n, UNIT), 'res')
    def step(s, x):
        x = E.nrm(s, x)
        g = isvar(x, n)
        E.assign(s, acc, ite(g, cat(E.val(s, acc), vec(pl(x, n, '0'))), E.val(s, acc)))
        E.assign(s, res, ite(g, wrap(n, UNIT), bad(n, x)))
        return not_(g)
    if not consume(k, mk('iter', L) if L is not None else as_iter(k, k.a[0]), step): return None
    r = E.val(k.st, res)
    return ite(isvar(r, n), wrap(n, E.val(k.st, acc)), bad(n, r))

def strip_list(L, n):
    if L.op == 'ltake': return ltake(strip_list(L.a[0], n), L.a[1])
    return lmap(L.a[0], pl(L.a[1], n, '0'))

@M(IT + 'count')
def count(k):
    L = to_list(k, k.a[0])
    return None if L is None else llen(L)
@M(IT + 'any', IT + 'all', IT + 'find', IT + 'position', IT + 'find_map')
def iany(k):
    mth = k.name.rsplit('::', 1)[-1]
    E = k.E
    res = E.alloc(k.st, {'any': FALSE, 'all': TRUE}.get(mth, NONE), 'res')
    cnt = E.alloc(k.st, ZERO, 'cnt')
    def step(s, x):
        c = k.apply(k.a[1], [x], s)
        if c is None: return None
        c = E.nrm(s, c)
        old = E.val(s, res)
        if mth == 'any': stop, v = cond(c), TRUE
        elif mth == 'all': stop, v = not_(cond(c)), FALSE
        elif mth == 'find': stop, v = cond(c), Some(x)
        elif mth == 'find_map': stop, v = isvar(c, 'Some'), c
        else: stop, v = cond(c), Some(E.val(s, cnt))
        E.assign(s, res, ite(stop, v, old))
        E.assign(s, cnt, add(E.val(s, cnt), ONE))
        return stop
    if not consume(k, as_iter(k, k.a[0]), step): return None
    return E.val(k.st, res)
@M(IT + 'for_each', IT + 'try_for_each')
def ifor(k):
    E = k.E
    tr = k.name.endswith('try_for_each')
    res = E.alloc(k.st, Ok(UNIT), 'res')
    def step(s, x):
        r = k.apply(k.a[1], [x], s)
        if r is None: return None
        if not tr: return FALSE
        E.assign(s, res, E.nrm(s, r))
        return not_(isvar(E.nrm(s, r), 'Ok'))
    if not consume(k, as_iter(k, k.a[0]), step): return None
    return E.val(k.st, res) if tr else UNIT
@M(IT + 'fold', IT + 'try_fold')
def ifold(k):
    E = k.E
    tr = k.name.endswith('try_fold')
    acc = E.alloc(k.st, E.nrm(k.st, k.a[1]), 'acc')
    res = E.alloc(k.st, NONE, 'res')
    good = 'Some' if tr and k.rt().startswith('core::option') else 'Ok'
    def step(s, x):
        old = E.rd(s, (acc.a[0], ()))
        r = k.apply(k.a[2], [old, x], s)
        if r is None: return None
        r = E.nrm(s, r)
        if not tr:
            E.assign(s, acc, r); return FALSE
        g = isvar(r, good)
        E.assign(s, res, ite(g, NONE, Some(bad(good, r))))
        E.assign(s, acc, ite(g, pl(r, good, '0'), old))
        return not_(g)
    if not consume(k, as_iter(k, k.a[0]), step): return None
    a = E.rd(k.st, (acc.a[0], ()))
    if not tr: return a
    r = E.val(k.st, res)
    return ite(isvar(r, 'Some'), pl(r, 'Some', '0'), wrap(good, a))
@M(IT + 'partition', IT + 'unzip')
def ipartition(k):
    E = k.E
    un = k.name.endswith('unzip')
    if 'Vec' not in k.rt(): return NotImplemented
    l, r = E.alloc(k.st, EMPTY, 'left'), E.alloc(k.st, EMPTY, 'right')
    def step(s, x):
        x = E.nrm(s, x)
        if un:
            E.assign(s, l, cat(E.val(s, l), vec(fld(x, '0')))); E.assign(s, r, cat(E.val(s, r), vec(fld(x, '1'))))
            return FALSE
        c = k.apply(k.a[1], [x], s)
        if c is None: return None
        c = cond(E.nrm(s, c))
        a, b = E.val(s, l), E.val(s, r)
        E.assign(s, l, ite(c, cat(a, vec(x)), a)); E.assign(s, r, ite(c, b, cat(b, vec(x))))
        return FALSE
    if not consume(k, as_iter(k, k.a[0]), step): return None
    return tup(E.val(k.st, l), E.val(k.st, r))
@M(IT + 'nth')
def inth(k):
    n = k.v(1)
    if not isnum(n) or nval(n) > 4: return NotImplemented
    o = None
    for _ in range(int(nval(n)) + 1):
        o = inext(k)
        if o is None: return None
        o = k.E.nrm(k.st, o)
        if _ < int(nval(n)) and restrict(isvar(o, 'Some'), k.st.pc) not in (TRUE, FALSE): return NotImplemented
        if restrict(isvar(o, 'Some'), k.st.pc) is FALSE: return NONE
    return o
@M(IT + 'reduce')
def ireduce(k):
    E = k.E
    res = E.alloc(k.st, NONE, 'res')
    def step(s, x):
        old = E.val(s, res)
        def both(s1):
            r = k.apply(k.a[1], [pl(old, 'Some', '0'), x], s1)
            return None if r is None else Some(E.nrm(s1, r))
        r = fork(E, s, isvar(old, 'Some'), both, lambda s1: Some(x))
        if r is None: return None
        E.assign(s, res, r)
        return FALSE
    if not consume(k, as_iter(k, k.a[0]), step): return None
    return E.val(k.st, res)
@M(IT + 'max', IT + 'min')
def imax(k):
    E = k.E
    f = mk_max if k.name.endswith('max') else mk_min
    res = E.alloc(k.st, NONE, 'res')
    def step(s, x):
        old = E.val(s, res)
        x = E.val(s, x)
        E.assign(s, res, ite(isvar(old, 'Some'), Some(f(pl(old, 'Some', '0'), x)), Some(x)))
        return FALSE
    if not re.match(r'^core::option::Option<&*(u\d+|i\d+|usize|cosmwasm_std::math::\S+)>$', k.rt()): return NotImplemented
    if not consume(k, as_iter(k, k.a[0]), step): return None
    return E.val(k.st, res)
@M(IT + 'last')
def ilast(k):
    L = to_list(k, k.a[0])
    if L is None: return None
    if L.op != 'vec': return NotImplemented
    return Some(L.a[-1]) if L.a else NONE
@M(IT + 'sum')
def isum(k):
    L = to_list(k, k.a[0])
    return lsum(k.E.deep(k.st, L)) if L is not None else None

# ---------------------------------------------------------------- cosmwasm responses

def new_response(): return agg(RESP, 'Response', ['messages', 'attributes', 'events', 'data'], [EMPTY, EMPTY, EMPTY, NONE])
@R(r'^cosmwasm_std::results::response::Response::new$')
def resp_new(k): return new_response()
def attr_list(k, v):
    L = to_list(k, v)
    if L is None: L = mk('alist', k.E.deep(k.st, v))
    L = k.E.deep(k.st, L)
    def one(x):
        if x.op == 'agg' and x.a[0] != 'tuple' and 'key' in x.a[2]: return tup(fld(x, 'key'), fld(x, 'value'))
        return x
    if L.op == 'vec': return vec(*[one(x) for x in L.a])
    return L
def grow(field, f):
    def g(k):
        r = k.v(0)
        return with_(r, field, cat(fld(r, field), f(k)))
    return g
P = 'cosmwasm_std::results::response::Response::'
TABLE[P + 'add_attribute'] = grow('attributes', lambda k: vec(tup(k.d(1), k.d(2))))
TABLE[P + 'add_attributes'] = grow('attributes', lambda k: attr_list(k, k.a[1]))
TABLE[P + 'add_event'] = grow('events', lambda k: vec(k.d(1)))
TABLE[P + 'add_events'] = grow('events', lambda k: deep_list(k, 1))
TABLE[P + 'add_submessage'] = grow('messages', lambda k: vec(k.d(1)))
TABLE[P + 'add_submessages'] = grow('messages', lambda k: deep_list(k, 1))
TABLE[P + 'add_message'] = grow('messages', lambda k: vec(submsg(k, 0, 'Never', num(0), k.targ(1))))
def deep_list(k, i):
    L = to_list(k, k.a[i])
    return k.E.deep(k.st, L) if L is not None else mk('alist', k.d(i))
@M(P + 'set_data')
def set_data(k): return with_(k.v(0), 'data', Some(k.d(1)))
Q = 'cosmwasm_std::results::events::Event::'
@M(Q + 'new')
def ev_new(k): return agg(EVENT, 'Event', ['ty', 'attributes'], [k.d(0), EMPTY])
TABLE[Q + 'add_attribute'] = grow('attributes', lambda k: vec(tup(k.d(1), k.d(2))))
TABLE[Q + 'add_attributes'] = grow('attributes', lambda k: attr_list(k, k.a[1]))
@R(r'^cosmwasm_std::results::events::(attr|Attribute::new)$')
def attr(k): return tup(k.d(0), k.d(1))

def submsg(k, mi, reply, idt, msgty):
    m = k.a[mi] if mi else k.a[1]
    x = convert(k.E, k.st, msgty, 'cosmwasm_std::results::cosmos_msg::CosmosMsg', k.E.val(k.st, m), k) if msgty else k.d(mi)
    return agg(SUBMSG, 'SubMsg', ['id', 'msg', 'gas_limit', 'reply_on'], [idt, k.E.deep(k.st, x), NONE, agg(REPLYON, reply, [], [])])
for _m, _r in (('reply_on_error', 'Error'), ('reply_on_success', 'Success'), ('reply_always', 'Always'), ('reply_never', 'Never'), ('new', 'Never')):
    def _s(k, r=_r, m=_m):
        src = k.targ(1) if len(k.c['args']) > 1 else k.ty(0)
        x = convert(k.E, k.st, src, 'cosmwasm_std::results::cosmos_msg::CosmosMsg', k.E.val(k.st, k.a[0]), k)
        if x is None: return None
        idt = k.v(1) if len(k.a) > 1 else num(0)
        return agg(SUBMSG, 'SubMsg', ['id', 'msg', 'gas_limit', 'reply_on'], [idt, k.E.deep(k.st, x), NONE, agg(REPLYON, r, [], [])])
    TABLE['cosmwasm_std::results::submessages::SubMsg::' + _m] = _s
TABLE['cosmwasm_std::results::submessages::SubMsg::with_gas_limit'] = lambda k: with_(k.v(0), 'gas_limit', Some(k.v(1)))

@R(r'^cosmwasm_std::results::submessages::SubMsgResult::(is_ok|is_err|unwrap_err|unwrap|into_result)$')
def smr(k):
    v = k.v(0); m = k.name.rsplit('::', 1)[-1]
    ok = isvar(v, 'Ok')
    if m == 'is_ok': return ok
    if m == 'is_err': return not_(ok)
    if m == 'into_result': return ite(ok, Ok(pl(v, 'Ok', '0')), Err(pl(v, 'Err', '0')))
    c = ok if m == 'unwrap' else not_(ok)
    if not require(k.E, k.st, c, m): return None
    return pl(v, 'Ok' if m == 'unwrap' else 'Err', '0')

@R(r'^cosmwasm_std::coin::coin$|^cosmwasm_std::coin::Coin::new$')
def coin(k): return agg(COIN, 'Coin', ['denom', 'amount'], [k.v(1), k.v(0)])
@R(r'^cosmwasm_std::coin::coins$')
def coins(k): return vec(agg(COIN, 'Coin', ['denom', 'amount'], [k.v(1), k.v(0)]))

@R(r'^cosmwasm_std::(import_helpers_|serde::|encoding::)?(\w+::)*to_json_(binary|vec|string)$')
def to_json(k):
    r = mk('json', k.d(0))
    k.E.effect('json', k.targ(0), UNIT, r, k.st)
    return Ok(r)

# ---------------------------------------------------------------- cosmwasm environment

@M('cosmwasm_std::traits::Api::addr_validate')
def addr_validate(k):
    s = k.v(1)
    c = mk('bopq', 'valid_addr', s)
    k.E.effect('validate', 'addr', s, None, k.st)
    return ite(restrict(c, k.st.pc), Ok(s), Err(mk('err', 'addr')))
@R(r'^cosmwasm_std::traits::QuerierWrapper::\w+$')
def query(k):
    r = mk('call', k.name.rsplit('::', 1)[-1], tuple(k.d(i) for i in range(1, len(k.a))), ())
    k.E.effect('query', r.a[0], tup(*r.a[1]) if r.a[1] else UNIT, r, k.st)
    return r
@M('cw2::set_contract_version')
def set_version(k):
    ns = 'contract_info'
    put(k, ns, UNIT, tup(k.v(1), k.v(2)))
    return Ok(UNIT)
@R(r'^cw_utils::payment::(must_pay|nonpayable|may_pay|one_coin)$')
def pay(k):
    m = k.name.rsplit('::', 1)[-1]
    funds = k.E.deep(k.st, fld(k.v(0), 'funds'))
    if m == 'nonpayable': return ite(eq(llen(funds), ZERO), Ok(UNIT), Err(mk('err', 'payment')))
    if m == 'one_coin': return ite(eq(llen(funds), ONE), Ok(index(k.E, k.st, funds, ZERO)), Err(mk('err', 'payment')))
    d = k.v(1)
    amt = mk('paid', funds, d); INT.add(amt.id)
    one = mk('bopq', 'single', funds, d)
    bad = Err(mk('err', 'payment'))
    if m == 'may_pay':
        empty = eq(llen(funds), ZERO)
        return ite(empty, Ok(ZERO), ite(one, Ok(amt), bad))
    return ite(and_(one, not_(eq(amt, ZERO))), Ok(amt), bad)

# raw storage access (not used by the contract; kept visible to the rules)
@R(r'^cosmwasm_std::traits::Storage::(get|set|remove|range\w*|set_raw)$')
def rawstore(k):
    m = k.name.rsplit('::', 1)[-1]
    k.E.effect('rawstore', m, k.d(1) if len(k.a) > 1 else UNIT, None, k.st)
    return UNIT if m in ('set', 'remove') else mk('call', 'storage_' + m, tuple(k.d(i) for i in range(1, len(k.a))), ())

# ---------------------------------------------------------------- points in time, as nanoseconds

NANOS = {'nanos': 1, 'seconds': 10**9, 'minutes': 60 * 10**9, 'hours': 3600 * 10**9, 'days': 86400 * 10**9}
@R(r'^cosmwasm_std::timestamp::Timestamp::(plus|minus|from)_(nanos|seconds|minutes|hours|days)$')
def ts_arith(k):
    how, unit = k.name.rsplit('::', 1)[-1].split('_')
    if how == 'from':
        n = scale(k.v(0), NANOS[unit])
        return n if unit == 'nanos' or require(k.E, k.st, mk('fits', 'u64', n), 'overflow') else None
    r = add(k.v(0), scale(k.v(1), NANOS[unit]), 1 if how == 'plus' else -1)
    if how == 'minus': return r if require(k.E, k.st, not_(lt(r, ZERO)), 'overflow') else None
    return r if require(k.E, k.st, mk('fits', 'u64', r), 'overflow') else None
@R(r'^cosmwasm_std::timestamp::Timestamp::(nanos|seconds|subsec_nanos)$')
def ts_read(k):
    m = k.name.rsplit('::', 1)[-1]
    t = k.v(0)
    s = tdiv(t, num(10**9))
    return t if m == 'nanos' else s if m == 'seconds' else sub(t, scale(s, 10**9))
