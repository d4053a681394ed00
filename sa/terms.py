"""Hash-consed value terms: the abstract domain of the analysis.

A term denotes the value of an expression as a function of the inputs of the analysed entry point
(message fields, sender, funds, the state of storage when the call started) -- a gated value-flow
graph. Control joins produce `ite` nodes guarded by the branch condition, so two programs that
compute the same value along differently written control flow usually have the same term.
"""
from fractions import Fraction

class T:
    __slots__ = ('op', 'a', 'id', '__weakref__')
    def __repr__(self):
        return show(self)

_table = {}
def mk(op, *a):
    k = (op,) + a
    t = _table.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.a = a; t.id = len(_table)
        _table[k] = t
    return t

TRUE = mk('bool', True)
FALSE = mk('bool', False)
BOTTOM = mk('bottom')
UNIT = mk('agg', 'tuple', '', (), ())

def num(x): return mk('num', Fraction(x))
def st(s): return mk('str', s)
def boolean(b): return TRUE if b else FALSE
ZERO = num(0)
ONE = num(1)
INT = set()       # ids of terms known to be integers
SMALL = set()     # ids of terms known to be between 0 and a million

def isnum(t): return t.op == 'num'
def nval(t): return t.a[0]

# ---------------------------------------------------------------- aggregates

CANON = {'None': ('Some', False), 'Err': ('Ok', False), 'Break': ('Continue', False), 'Ask': ('Bid', False), 'Internal': ('Leaf', False),
         'Down': ('Up', False)}

def agg(adt, variant, names, vals): return mk('agg', adt, variant, tuple(names), tuple(vals))
def tup(*v): return agg('tuple', '', [str(i) for i in range(len(v))], v)
def Some(x): return agg('Option', 'Some', ['0'], [x])
NONE = agg('Option', 'None', [], [])
def Ok(x): return agg('Result', 'Ok', ['0'], [x])
def Err(x): return agg('Result', 'Err', ['0'], [x])
def vec(*e): return mk('vec', *e)
EMPTY = vec()

# storage self-keying invariants (checked at every write by the rules): ns -> {field: key component}
SELF_KEYED = {'orders': {'tick_id': '0', 'order_id': '1'}, 'nodes': {'tick_id': '0', 'key': '1'}}

# adaptors over an iterator (their first argument)
ITADAPT = ('imap', 'ifilter', 'ifmap', 'iflat', 'itake', 'ienum', 'ipos', 'izip', 'ichain', 'irev', 'iskip', 'iseen', 'iwhile', 'imwhile')

_fld = {}; _canvar = {}; _isvar = {}; _pl = {}
def fld(t, name):
    op = t.op
    if op == 'agg':
        ns = t.a[2]
        for i, n in enumerate(ns):
            if n == name: return t.a[3][i]
        return mk('fld', t, name)
    if op == 'with':
        for n, v in t.a[1]:
            if n == name: return v
        return fld(t.a[0], name)
    if op == 'ite':
        k = (t.id, name)
        r = _fld.get(k)
        if r is None: r = _fld[k] = ite(t.a[0], fld(t.a[1], name), fld(t.a[2], name))
        return r
    if op == 'val':
        sk = SELF_KEYED.get(t.a[1])
        if sk and name in sk: return fld(t.a[2], sk[name])
    if op == 'ixmap' and name == 'idx': return t.a[1]
    if op in ITADAPT and name[0] == '@': return t.a[int(name[1:])]
    if op == 'ref': return t
    return mk('fld', t, name)

def with_(t, name, v):
    op = t.op
    if op == 'agg':
        if name in t.a[2]:
            i = t.a[2].index(name)
            vs = list(t.a[3]); vs[i] = v
            return agg(t.a[0], t.a[1], t.a[2], vs)
        return agg(t.a[0], t.a[1], t.a[2] + (name,), t.a[3] + (v,))
    if op in ITADAPT and name[0] == '@':
        a = list(t.a); a[int(name[1:])] = v
        return mk(op, *a)
    if op == 'with':
        base, ov = t.a
    else:
        base, ov = t, ()
    d = dict(ov); d[name] = v
    if fld(base, name) is v: del d[name]
    if not d: return base
    return mk('with', base, tuple(sorted(d.items(), key=lambda kv: kv[0])))

def canvar(t, v):
    """True/False if t is definitely / definitely not of variant v, else None"""
    if t.op == 'agg': return t.a[1] == v
    if t.op == 'ite':
        k = (t.id, v)
        if k in _canvar: return _canvar[k]
        a = canvar(t.a[1], v); b = canvar(t.a[2], v)
        r = _canvar[k] = a if a == b else None
        return r
    if t.op == 'with': return canvar(t.a[0], v)
    return None

def isvar(t, v):
    c = canvar(t, v)
    if c is not None: return boolean(c)
    if t.op == 'ite':
        k = (t.id, v)
        r = _isvar.get(k)
        if r is None: r = _isvar[k] = ite(t.a[0], isvar(t.a[1], v), isvar(t.a[2], v))
        return r
    if t.op == 'with': return isvar(t.a[0], v)
    if v in CANON: return not_(mk('isvar', t, CANON[v][0]))
    return mk('isvar', t, v)

def pl(t, variant, name):
    op = t.op
    if op == 'agg':
        if t.a[1] == variant: return fld(t, name)
        return BOTTOM
    if op == 'ite':
        if canvar(t.a[1], variant) is False: return pl(t.a[2], variant, name)
        if canvar(t.a[2], variant) is False: return pl(t.a[1], variant, name)
        k = (t.id, variant, name)
        r = _pl.get(k)
        if r is None: r = _pl[k] = ite(t.a[0], pl(t.a[1], variant, name), pl(t.a[2], variant, name))
        return r
    if op == 'with':
        for n, v in t.a[1]:
            if n == variant + '#' + name: return v
        return pl(t.a[0], variant, name)
    return mk('pl', t, variant, name)

# ---------------------------------------------------------------- booleans

ATOMOPS = {'isvar', 'eq', 'lt', 'ex', 'hasnext', 'fits', 'bopq'}
ATOMS = set()     # other terms that have been used as branch conditions

def root(t):
    if t.op == 'ite': return t.a[0]
    if t.op in ATOMOPS or t.id in ATOMS: return t
    return None

def cof(t, v):
    if t.op == 'ite' and t.a[0] is v: return t.a[1], t.a[2]
    if t is v: return TRUE, FALSE
    return t, t

def cond(t):
    """register t as usable as a branch condition"""
    if t.op not in ('bool', 'ite') and t.op not in ATOMOPS: ATOMS.add(t.id)
    return t

def not_(c): return ite(c, FALSE, TRUE)
def and_(a, b): return ite(a, b, FALSE)
def or_(a, b): return ite(a, TRUE, b)

_ite = {}
def ite(c, a, b):
    """multi-terminal decision diagram if-then-else, atoms ordered by creation"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is BOTTOM: return b
    if b is BOTTOM: return a
    if a is TRUE and b is FALSE: return cond(c)
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None: return r
    cond(c)
    v = root(c)
    for x in (a, b):
        rx = root(x)
        if rx is not None and rx.id < v.id: v = rx
    c1, c0 = cof(c, v); a1, a0 = cof(a, v); b1, b0 = cof(b, v)
    r = node(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _ite[k] = r
    return r

_support = {}
def support(t):
    """ids of the atoms deciding t (through data constructors, not into numeric terms or atoms)"""
    r = _support.get(t.id)
    if r is not None: return r
    op = t.op
    if op == 'ite': r = support(t.a[1]) | support(t.a[2]) | {t.a[0].id}
    elif op in ATOMOPS or t.id in ATOMS: r = frozenset((t.id,))
    elif op in CONSTRUCTORS:
        r = frozenset()
        for x in children(t): r = r | support(x)
    else: return frozenset()
    _support[t.id] = r
    return r

CONSTRUCTORS = ('agg', 'with', 'vec', 'cat', 'W', 'R')

_rest = {}
def restrict(f, c):
    """simplify f given that c holds (generalised cofactor; f unchanged where c says nothing)"""
    if c is TRUE or c is FALSE or not (support(f) & support(c)): return f
    k = (f.id, c.id)
    r = _rest.get(k)
    if r is not None: return r
    rf = root(f)
    if rf is None:
        r = rebuild(f, lambda x: restrict(x, c))
    else:
        rc = root(c)
        if rc is not None and rc.id < rf.id and rc.id not in support(f):
            h, l = cof(c, rc)
            r = restrict(f, or_(h, l))
        else:
            v = rf if rc is None or rf.id <= rc.id else rc
            f1, f0 = cof(f, v); h, l = cof(c, v)
            if h is FALSE: r = restrict(f0, l)
            elif l is FALSE: r = restrict(f1, h)
            else: r = ite(v, restrict(f1, h), restrict(f0, l))
    _rest[k] = r
    return r

def implies(c, d):
    return c is FALSE or restrict(d, c) is TRUE

def islist(t): return t.op in ('vec', 'cat')
def parts(t): return t.a if t.op == 'cat' else (t,)

def cat(a, b):
    ps = []
    for x in (a, b):
        for p in parts(x):
            if p.op == 'vec' and not p.a: continue
            if p.op == 'vec' and ps and ps[-1].op == 'vec':
                ps[-1] = vec(*(ps[-1].a + p.a))
            else: ps.append(p)
    if not ps: return EMPTY
    return ps[0] if len(ps) == 1 else mk('cat', *ps)

def explode(t):
    """list term -> flat list of one-element vecs / opaque parts"""
    out = []
    for p in parts(t):
        if p.op == 'vec': out += [vec(e) for e in p.a]
        else: out.append(p)
    return out

def unexplode(ps):
    r = EMPTY
    for p in ps: r = cat(r, p)
    return r

def node(c, a, b):
    """decision node on atom c"""
    if a is b: return a
    if a is BOTTOM: return b
    if b is BOTTOM: return a
    if a is TRUE and b is FALSE: return c
    if c.op == 'lt':
        D = sub(c.a[1], c.a[0])          # c holds iff D > 0
        Ds = [D]
        if isint(D): Ds.append(sub(D, ONE))
        if numeric(a) and numeric(b):
            if sub(b, a) in Ds: return mk_min(a, b)
            if sub(a, b) in Ds: return mk_max(a, b)
            # if D > 0 then D else 0, if D > 0 then 0 else -D
            if b is ZERO and a in Ds: return pos_part(a)
            if a is ZERO and scale(b, -1) in Ds: return pos_part(b)
    if c.op == 'eq' and a.op == 'num':
        x, k = c.a
        if k.op != 'num': x, k = k, x
        if k.op == 'num' and x.op != 'num' and b.op not in ('agg', 'num', 'with', 'vec', 'cat', 'ite') and occurs(x, b):
            if subst(b, {x: k}) is a: return b
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2] and a.a[2]:
        return agg(a.a[0], a.a[1], a.a[2], [ite(c, x, y) for x, y in zip(a.a[3], b.a[3])])
    if a.op == 'W' and b.op == 'W' and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        return mk('W', a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == 'with' or b.op == 'with':
        ba = a.a[0] if a.op == 'with' else a
        bb = b.a[0] if b.op == 'with' else b
        if ba is bb:
            names = set(n for n, _ in (a.a[1] if a.op == 'with' else ())) | set(n for n, _ in (b.a[1] if b.op == 'with' else ()))
            if not any('#' in n for n in names):
                r = ba
                for n in sorted(names): r = with_(r, n, ite(c, fld(a, n), fld(b, n)))
                return r
    if islist(a) and islist(b):
        ea, eb = explode(a), explode(b)
        k = 0
        while k < len(ea) and k < len(eb) and ea[k] is eb[k]: k += 1
        if k:
            return cat(unexplode(ea[:k]), ite(c, unexplode(ea[k:]), unexplode(eb[k:])))
    return mk('ite', c, a, b)

# ---------------------------------------------------------------- numbers

def lin_parts(t):
    if t.op == 'num': return {}, t.a[0]
    if t.op == 'lin': return dict(t.a[0]), t.a[1]
    return {t: Fraction(1)}, Fraction(0)

def mk_lin(d, c):
    d = {t: k for t, k in d.items() if k}
    if not d: return num(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    return mk('lin', tuple(sorted(d.items(), key=lambda x: x[0].id)), Fraction(c))

def bounds(t):
    """(least, greatest) value of a sum of small quantities, None when unknown"""
    m, c = lin_parts(t)
    if any(x.id not in SMALL for x in m): return None
    return c + sum(min(k, 0) * 10**6 for k in m.values()), c + sum(max(k, 0) * 10**6 for k in m.values())

def add(a, b, k=1):
    if a.op == 'bottom' or b.op == 'bottom': return BOTTOM
    da, ca = lin_parts(a); db, cb = lin_parts(b)
    for t, x in db.items(): da[t] = da.get(t, 0) + k * x
    return mk_lin(da, ca + k * cb)

def sub(a, b): return add(a, b, -1)
def scale(a, k):
    d, c = lin_parts(a)
    return mk_lin({t: x * k for t, x in d.items()}, c * k)

def mul(a, b):
    if isnum(a): return scale(b, nval(a))
    if isnum(b): return scale(a, nval(b))
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('mul', x, y)

def div(a, b):
    if a is ZERO: return ZERO
    if isnum(b) and nval(b) != 0: return scale(a, 1 / nval(b))
    return mk('div', a, b)

def numeric(t): return t.op not in ('agg', 'with', 'vec', 'cat', 'bool', 'str', 'W', 'R', 'S', 'ite', 'ref', 'bottom') and t.op not in ATOMOPS

def sides(d):
    """(negative part, positive part) of a linear term, both as sums with positive coefficients"""
    m, c = lin_parts(d)
    neg = mk_lin({t: -k for t, k in m.items() if k < 0}, -c if c < 0 else Fraction(0))
    pos = mk_lin({t: k for t, k in m.items() if k > 0}, c if c > 0 else Fraction(0))
    return neg, pos

def lead(d):
    m, c = lin_parts(d)
    if not m: return c
    return m[min(m, key=lambda t: t.id)]

def pos_part(d): return mk_max(ZERO, d)

def wider(a, b):
    """-1 when a is evidently at most b, 1 when at least, from the sizes of small quantities"""
    if not SMALL or a.op not in ('num', 'lin', 'in') or b.op not in ('num', 'lin', 'in'): return 0
    r = bounds(sub(a, b))
    return 0 if not r else -1 if r[1] <= 0 else 1 if r[0] >= 0 else 0

def mk_min(a, b):
    if a is b: return a
    if isnum(a) and isnum(b): return num(min(nval(a), nval(b)))
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if isnum(d): return a if nval(d) < 0 else b
    g = wider(a, b)
    if g: return a if g < 0 else b
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('min', x, y)

def mk_max(a, b):
    if a is b: return a
    if isnum(a) and isnum(b): return num(max(nval(a), nval(b)))
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if isnum(d): return b if nval(d) < 0 else a
    g = wider(a, b)
    if g: return b if g < 0 else a
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('max', x, y)

def satsub(a, b): return mk_max(ZERO, sub(a, b))

# stored quantities that are whole numbers in every reachable state (inductive; checked by the rules)
INT_FIELDS = {'total_amount_of_liquidity', 'cumulative_total_value', 'effective_total_amount_swapped', 'cumulative_realized_cancels',
              'last_tick_sync_etas', 'etas', 'quantity', 'placed_quantity', 'order_id', 'tick_id', 'next_bid_tick', 'next_ask_tick', 'current_tick'}

def isint(t):
    seen, w = {t.id}, [t]
    while w:
        x = w.pop()
        op = x.op
        if x.id in INT or op == 'fld' and x.a[1] in INT_FIELDS or op == 'floor' or op == 'ceil': continue
        if op == 'num':
            if nval(x).denominator != 1: return False
            continue
        if op == 'lin':
            if x.a[1].denominator != 1: return False
            for y, k in x.a[0]:
                if k.denominator != 1: return False
            ys = [y for y, k in x.a[0]]
        elif op in ('min', 'max', 'satsub', 'mul'): ys = x.a[:2]
        elif op == 'ite': ys = x.a[1:]
        else: return False
        for y in ys:
            if y.id not in seen: seen.add(y.id); w.append(y)
    return True

def rounding(t, f, name):
    if isint(t): return t
    if t.op == 'num': return num(f(nval(t)))
    if t.op in ('min', 'max'): return (mk_min if t.op == 'min' else mk_max)(rounding(t.a[0], f, name), rounding(t.a[1], f, name))
    if t.op == 'ite': return ite(t.a[0], rounding(t.a[1], f, name), rounding(t.a[2], f, name))
    if t.op == 'lin':
        whole, rest = {}, {}
        for x, k in t.a[0]: (whole if k.denominator == 1 and isint(x) else rest)[x] = k
        c = Fraction(t.a[1].__floor__())
        if whole or c:
            return add(mk_lin(whole, c), rounding(mk_lin(rest, t.a[1] - c), f, name))
    return mk(name, t)

def floor(t): return rounding(t, lambda x: x.__floor__(), 'floor')
def ceil(t): return rounding(t, lambda x: x.__ceil__(), 'ceil')

UNSIGNED = ('cosmwasm_std::math::', 'u64', 'u128', 'u32', 'u16', 'u8', 'usize')

UNS = set()      # terms that occur as operands of an unsigned type
def unsigned_leaf(t):
    return t.id in UNS or t.op in ('len', 'pos', 'paid')
def sign(d):
    """1 / -1 when d is positive / negative whatever its unsigned terms hold, 0 when unknown"""
    if d.op != 'lin': return 0
    ts, c = lin_parts(d)
    if not c or not all(unsigned_leaf(t) for t in ts): return 0
    if c > 0 and all(k > 0 for k in ts.values()): return 1
    if c < 0 and all(k < 0 for k in ts.values()): return -1
    return 0

def lt(a, b, unsigned=False):
    if a is b: return FALSE
    if isnum(a) and isnum(b): return boolean(nval(a) < nval(b))
    if unsigned:
        if a is ZERO: return not_(eq(b, ZERO))
        if b is ZERO: return FALSE
        if isnum(b) and a.op == 'lin' and a.a[1] >= nval(b) and all(c > 0 for x, c in a.a[0]): return FALSE
        if b is ONE and isint(a): return eq(a, ZERO)
    d = sub(a, b)
    if isnum(d): return boolean(nval(d) < 0)
    if SMALL:
        r = bounds(d)
        if r and (r[1] < 0 or r[0] >= 0): return boolean(r[1] < 0)
    if a.op == 'ite' and isnum(b) and isnum(a.a[1]) and isnum(a.a[2]): return ite(a.a[0], lt(a.a[1], b), lt(a.a[2], b))
    if b.op == 'ite' and isnum(a) and isnum(b.a[1]) and isnum(b.a[2]): return ite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
    if not numeric(a) or not numeric(b): return mk('lt', a, b)
    # bounds: min(x, y) is at most x and y, max(x, y) at least
    for t, k in (d.a[0] if d.op == 'lin' else ()):
        if t.op in ('min', 'max'):
            for y in t.a:
                e = add(d, sub(y, t), k)
                if isnum(e):
                    if (k > 0) == (t.op == 'min'):
                        if nval(e) < 0: return TRUE
                    elif nval(e) >= 0: return FALSE
    r = poslt(d)
    if r is not None: return r
    if sign(d): return boolean(sign(d) < 0)
    # whole numbers: d > 0 and its complement 1 - d > 0 share one atom
    d = scale(d, -1)
    if isint(d) and lead(d) < 0:
        n, p = sides(sub(ONE, d))
        return not_(mk('lt', n, p))
    n, p = sides(d)
    return mk('lt', n, p)

def pos(it):
    """how many elements an iterator has yielded"""
    if it.op == 'iter': return ZERO
    if it.op == 'adv': return add(pos(it.a[0]), ONE)
    if it.op == 'ite': return ite(it.a[0], pos(it.a[1]), pos(it.a[2]))
    t = mk('pos', it); INT.add(t.id)
    return t
def poslen(d):
    """(iterator, sign, k) when d is sign * (position in a list - its length) + k"""
    if d.op != 'lin' or len(d.a[0]) != 2: return None
    ts = dict(d.a[0])
    p = [x for x in ts if x.op == 'pos']; l = [x for x in ts if x.op == 'len']
    if len(p) != 1 or len(l) != 1 or ts[p[0]] != -ts[l[0]] or abs(ts[p[0]]) != 1: return None
    b = LV_BASE.get(p[0].a[0])
    if b is None or b.op != 'iter' or mk('len', b.a[0]) is not l[0]: return None
    return p[0].a[0], ts[p[0]], lin_parts(d)[1]
def poslt(d):
    r = poslen(d)
    if r is None: return None
    it, s, k = r
    h = mk('hasnext', it)
    if s > 0: return h if k == 0 else TRUE if k < 0 else None       # pos - len + k < 0
    return not_(h) if k == -1 else FALSE if k >= 0 else None         # len - pos + k < 0

def le(a, b, unsigned=False): return not_(lt(b, a, unsigned))

def clamped(t, x):
    """when a bound on x, or a clamp of x into constants, is x itself"""
    if t.op not in ('min', 'max'): return None
    if x in t.a:
        y = t.a[0] if t.a[1] is x else t.a[1]
        return le(x, y) if t.op == 'min' else le(y, x)
    for c, i in (t.a, t.a[::-1]):
        if isnum(c) and i.op == ('max' if t.op == 'min' else 'min') and x in i.a:
            d = i.a[0] if i.a[1] is x else i.a[1]
            if isnum(d):
                lo, hi = (d, c) if t.op == 'min' else (c, d)
                if nval(lo) <= nval(hi): return and_(le(lo, x), le(x, hi))
    return None

EQ_MEMO, EQ_DEPTH = {}, [0]
def eq(a, b):
    if a is b: return TRUE
    if a.op != 'ite' and b.op != 'ite': return eq_(a, b)
    # shared branches are compared once per comparison
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = EQ_MEMO.get(k)
    if r is not None: return r
    EQ_DEPTH[0] += 1
    try: r = EQ_MEMO[k] = eq_(a, b)
    finally:
        EQ_DEPTH[0] -= 1
        if not EQ_DEPTH[0]: EQ_MEMO.clear()
    return r
def eq_(a, b):
    if a.op in ('num', 'str', 'bool') and b.op in ('num', 'str', 'bool'): return boolean(a is b)
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    if a.op == 'agg' and b.op == 'agg':
        if a.a[1] != b.a[1]: return FALSE
        if a.a[2] == b.a[2]:
            r = TRUE
            for x, y in zip(a.a[3], b.a[3]): r = and_(r, eq(x, y))
            return r
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (y.op in ('agg', 'num', 'str') or x.a[1].op in ('agg', 'str') or x.a[2].op in ('agg', 'str')):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    for x, y in ((a, b), (b, a)):
        r = clamped(x, y)
        if r is not None: return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'agg' and x.a[1] and x.a[0] != 'tuple':
            r = isvar(y, x.a[1])
            for n, v in zip(x.a[2], x.a[3]): r = and_(r, eq(pl(y, x.a[1], n), v))
            return r
        if x.op == 'agg' and x.a[0] == 'tuple':
            r = TRUE
            for n, v in zip(x.a[2], x.a[3]): r = and_(r, eq(fld(y, n), v))
            return r
    if a.op in ('num', 'lin') or b.op in ('num', 'lin'):
        d = sub(a, b)
        if isnum(d): return boolean(nval(d) == 0)
        if sign(d): return FALSE
        r = poslen(d)
        if r is not None and r[2] == 0: return not_(mk('hasnext', r[0]))
        if numeric(a) and numeric(b): a, b = sides(d)
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('eq', x, y)

def distinct(a, b): return eq(a, b) is FALSE

def tostr(t):
    if t.op == 'ite': return ite(t.a[0], tostr(t.a[1]), tostr(t.a[2]))
    if t.op == 'str': return t
    if t.op == 'bool': return st('true' if t.a[0] else 'false')
    return mk('tostr', t)

def unstr(t):
    return t.a[0] if t.op == 'tostr' else t

# ---------------------------------------------------------------- storage contents
# content terms: S(ns) initial | W(prev,key,val) | R(prev,key) | H(prev,...) havoc | ite | loopvar

def s_init(ns): return mk('S', ns)

GET_MEMO, GET_DEPTH = {}, [0]
def s_get(content, ns, key):
    """(exists-condition, value) of `key` in `content`"""
    if content.op not in ('W', 'R', 'ite'): return s_get_(content, ns, key)
    k = (content.id, ns, key.id)
    r = GET_MEMO.get(k)
    if r is not None: return r
    GET_DEPTH[0] += 1
    try: r = GET_MEMO[k] = s_get_(content, ns, key)
    finally:
        GET_DEPTH[0] -= 1
        if not GET_DEPTH[0]: GET_MEMO.clear()
    return r
def s_get_(content, ns, key):
    op = content.op
    if op == 'W':
        prev, k, v = content.a
        if k is key: return TRUE, v
        e = eq(k, key)
        if e is TRUE: return TRUE, v
        pe, pv = s_get(prev, ns, key)
        if e is FALSE: return pe, pv
        return ite(e, TRUE, pe), ite(e, v, pv)
    if op == 'R':
        prev, k = content.a
        e = eq(k, key)
        if e is TRUE: return FALSE, BOTTOM
        pe, pv = s_get(prev, ns, key)
        if e is FALSE: return pe, pv
        return ite(e, FALSE, pe), ite(e, BOTTOM, pv)
    if op == 'ite':
        ae, av = s_get(content.a[1], ns, key)
        be, bv = s_get(content.a[2], ns, key)
        return ite(content.a[0], ae, be), ite(content.a[0], av, bv)
    if key.op in ('elem', 'nx') and range_base(key, content): return TRUE, mk('val', content, ns, key)
    return mk('ex', content, ns, key), mk('val', content, ns, key)

def walked(x):
    """the storage range an iterator walks"""
    while x is not None and x.op in ('iter', 'adv', 'lmap', 'ltake', 'lv'): x = LV_BASE.get(x) if x.op == 'lv' else x.a[0]
    return x if x is not None and x.op == 'range' else None
def range_base(key, content):
    """key enumerates the very contents it is looked up in"""
    x = walked(key.a[0])
    return x is not None and x.a[0] is content

LV_BASE = {}      # loop variable holding an iterator -> the iterator it started from

# ---------------------------------------------------------------- traversal

def children(t):
    out = []
    for x in t.a:
        if isinstance(x, T): out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T): out.append(y)
                elif isinstance(y, tuple):
                    out += [z for z in y if isinstance(z, T)]
    return out

def subterms(t):
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen: continue
        seen.add(x.id)
        yield x
        stack += children(x)

def occurs(x, t):
    return any(y is x for y in subterms(t))

def lsum(L):
    """sum of a list of numbers"""
    if L.op in ('vec', 'cat'):
        r = ZERO
        for x in L.a: r = add(r, x if L.op == 'vec' else lsum(x))
        return r
    if L.op == 'ite': return ite(L.a[0], lsum(L.a[1]), lsum(L.a[2]))
    return mk('lsum', L)

def rebuild(t, f):
    """apply f to the children of t and rebuild through the smart constructors"""
    op, a = t.op, t.a
    if op == 'agg': return agg(a[0], a[1], a[2], [f(x) for x in a[3]])
    if op == 'with':
        r = f(a[0])
        for n, v in a[1]:
            r = with_(r, n, f(v))
        return r
    if op == 'ite': return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'fld': return fld(f(a[0]), a[1])
    if op == 'pl': return pl(f(a[0]), a[1], a[2])
    if op == 'isvar': return isvar(f(a[0]), a[1])
    if op == 'not': return not_(f(a[0]))
    if op == 'eq': return eq(f(a[0]), f(a[1]))
    if op == 'lt': return lt(f(a[0]), f(a[1]))
    if op == 'lin':
        r = num(a[1])
        for x, k in a[0]: r = add(r, scale(f(x), k))
        return r
    if op == 'mul': return mul(f(a[0]), f(a[1]))
    if op == 'div': return div(f(a[0]), f(a[1]))
    if op == 'min': return mk_min(f(a[0]), f(a[1]))
    if op == 'max': return mk_max(f(a[0]), f(a[1]))
    if op == 'satsub': return satsub(f(a[0]), f(a[1]))
    if op == 'floor': return floor(f(a[0]))
    if op == 'ceil': return ceil(f(a[0]))
    if op == 'tostr': return tostr(f(a[0]))
    if op == 'lsum': return lsum(f(a[0]))
    if op == 'cat':
        r = EMPTY
        for x in a: r = cat(r, f(x))
        return r
    if op in ('val', 'ex'):
        c, k = f(a[0]), f(a[2])
        e, v = s_get(c, a[1], k)
        return v if op == 'val' else e
    def m(x):
        if isinstance(x, T): return f(x)
        if isinstance(x, tuple): return tuple(m(y) for y in x)
        return x
    return mk(op, *[m(x) for x in a])

def subst(t, m, memo=None):
    if memo is None: memo = {}
    def go(x):
        if x in m: return m[x]
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go) if x.a and children(x) else x
            memo[x.id] = r
        return r
    return go(t)

# ---------------------------------------------------------------- printing

def show(t, d=6):
    if not isinstance(t, T): return str(t)
    op, a = t.op, t.a
    if d < 0: return '..'
    s = lambda x: show(x, d - 1)
    if op == 'num': return str(a[0])
    if op == 'str': return repr(a[0])
    if op == 'bool': return str(a[0])
    if op == 'in': return a[0]
    if op == 'agg':
        n = a[0].split('::')[-1]
        if n == 'tuple': return '(' + ', '.join(s(x) for x in a[3]) + ')'
        h = a[1] if n in ('Option', 'Result') else n + ('::' + a[1] if a[1] and a[1] != n else '')
        return h + '{' + ', '.join(('' if k == '0' else k + ': ') + s(v) for k, v in zip(a[2], a[3])) + '}'
    if op == 'with': return s(a[0]) + '[' + ', '.join(k + ':=' + s(v) for k, v in a[1]) + ']'
    if op == 'fld': return s(a[0]) + '.' + a[1]
    if op == 'pl': return s(a[0]) + '!' + a[1] + ('' if a[2] == '0' else '.' + a[2])
    if op == 'isvar': return s(a[0]) + ' is ' + a[1]
    if op == 'not': return '!(' + s(a[0]) + ')'
    if op == 'eq': return '(' + s(a[0]) + ' == ' + s(a[1]) + ')'
    if op == 'lt': return '(' + s(a[0]) + ' < ' + s(a[1]) + ')'
    if op == 'ite': return '(if ' + s(a[0]) + ' then ' + s(a[1]) + ' else ' + s(a[2]) + ')'
    if op == 'lin':
        o = ' + '.join((s(x) if k == 1 else '%s*%s' % (k, s(x))) for x, k in a[0])
        return '(' + o + (' + %s' % a[1] if a[1] else '') + ')'
    if op == 'S': return a[0]
    if op == 'W': return '%s{%s:=%s}' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'R': return '%s{-%s}' % (s(a[0]), s(a[1]))
    if op == 'val': return '%s[%s]' % (s(a[0]), s(a[2]))
    if op == 'ex': return 'has(%s,%s)' % (s(a[0]), s(a[2]))
    if op == 'call': return a[0].split('::')[-1] + '(' + ', '.join(show(x, min(d - 1, 2)) for x in a[1]) + ')'
    if op == 'H': return show(a[0], 0 if a[0].op != 'S' else 1) + '~' + a[1].a[0].split('::')[-1]
    if op == 'sync': return 'synced(' + s(a[0].a[1][0]) + ')'
    if op == 'ref': return '&' + str(a[0]) + ''.join('.' + str(x) for x in a[1])
    def m(x):
        if isinstance(x, T): return s(x)
        if isinstance(x, tuple): return '(' + ', '.join(m(y) for y in x) + ')'
        return str(x)
    return op + '(' + ', '.join(m(x) for x in a) + ')'
