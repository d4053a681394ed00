"""Rule library: symbolic worlds, case analysis over value-flow terms, checks and reports."""
import threading, re
from fractions import Fraction
from terms import *
import terms, models
from engine import Engine, St, AnalysisError, INT_TY
from entry import INP, ENV, INFO, Run

MIN_TICK, MAX_TICK = num(-108000000), num(182402823)
DIR = 'types::order::OrderDirection'
BID, ASK = agg(DIR, 'Bid', [], []), agg(DIR, 'Ask', [], [])
SENDER = fld(INFO, 'sender')
CONTRACT = fld(fld(ENV, 'contract'), 'address')
UNITKEY = UNIT
PREFIX_SUM = 'sumtree::tree::get_prefix_sum'
TICK_TO_PRICE = 'tick_math::tick_to_price'
SYNC = 'tick::sync_tick'
INSERT = 'sumtree::node::TreeNode::insert'
OPAQUE = (PREFIX_SUM, TICK_TO_PRICE, INSERT)

def dirname(d): return 'bid' if d is BID else 'ask'
def opp(d): return ASK if d is BID else BID

# ------------------------------------------------------------------ symbolic values

def _num_ty(ty): return ty in INT_TY

def sym(E, ty, name):
    """symbolic value of a type: aggregates for the contract's own structs, inputs otherwise"""
    a = E.adts.get(ty)
    if a and len(a['variants']) == 1 and not ty.startswith(('cosmwasm_std', 'core', 'alloc')):
        v = a['variants'][0]
        return agg(ty, v['name'], [f['name'] for f in v['fields']], [sym(E, f['ty'], name + '.' + f['name']) for f in v['fields']])
    t = INP(name)
    if _num_ty(ty) or name.rsplit('.', 1)[-1] in terms.INT_FIELDS: INT.add(t.id)
    return t

def adt_of(E, suffix):
    c = [a for a in E.adts if a == suffix or a.endswith('::' + suffix) and '__' not in a]
    if len(c) != 1: raise AnalysisError('type %s not found (%d candidates)' % (suffix, len(c)))
    return c[0]

def msg(E, path):
    """message value from a nested path such as 'ExecuteMsg::Auth::AuthExecuteMsg::SetActive'"""
    ps = path.split('::')
    def go(i):
        adt = adt_of(E, 'msg::' + ps[i]); var = ps[i + 1]
        for v in E.adts[adt]['variants']:
            if v['name'] == var:
                if i + 2 < len(ps): return agg(adt, var, ['0'], [go(i + 2)])
                return agg(adt, var, [f['name'] for f in v['fields']], [sym(E, f['ty'], f['name'] if not f['name'].isdigit() else 'arg' + f['name']) for f in v['fields']])
        raise AnalysisError('message %s::%s not found' % (adt, var))
    return go(0)

def variants(E, adt):
    return [v['name'] for v in E.adts[adt_of(E, adt)]['variants']]

class World:
    """initial storage: explicit entries on top of arbitrary contents"""
    def __init__(self, E):
        self.E = E; self.cont = {}
    def put(self, ns, key, val):
        c = self.cont.get(ns) or s_init(ns)
        self.cont[ns] = mk('W', c, key, val); return self
    def absent(self, ns, key=UNIT):
        c = self.cont.get(ns) or s_init(ns)
        self.cont[ns] = mk('R', c, key); return self
    def active(self, v=TRUE): return self.put('is_active', UNIT, v)
    def orderbook(self):
        self.ob = sym(self.E, adt_of(self.E, 'types::orderbook::Orderbook'), 'book')
        return self.put('orderbook', UNIT, self.ob)
    def tick(self, t, name='tick'):
        self.ts = sym(self.E, adt_of(self.E, 'types::tick::TickState'), name)
        return self.put('tick_state', t, self.ts)
    def order(self, t, i, d, bounty):
        o = sym(self.E, adt_of(self.E, 'types::order::LimitOrder'), 'order')
        o = with_(with_(o, 'tick_id', t), 'order_id', i)
        o = with_(o, 'order_direction', d)
        o = with_(o, 'claim_bounty', Some(INP('order.bounty')) if bounty else NONE)
        self.o = o
        return self.put('orders', tup(t, i), o)
    def item(self, ns, name=None, integer=False):
        t = INP(name or ns)
        if integer: INT.add(t.id)
        self.put(ns, UNIT, t); return t

def deps(): return agg('cosmwasm_std::deps::DepsMut', 'DepsMut', ['storage', 'api', 'querier'], [INP('storage'), INP('api'), INP('querier')])
def qdeps(): return agg('cosmwasm_std::deps::Deps', 'Deps', ['storage', 'api', 'querier'], [INP('storage'), INP('api'), INP('querier')])

def run(E, path, args, name, world=None, pre=TRUE):
    fid = E.bypath.get(path)
    if fid is None: raise AnalysisError('function %s not found' % path)
    E.effects = []; E.loops = {}
    E.fn = E.cfg(fid); E.span = ''
    cont0 = dict(world.cont) if world else {}
    st = St({}, dict(cont0), pre)
    E.cur = ('entry', 0, ())
    r = E.run(E.cfg(fid), E.ctx(0, fid, name), args, st)
    if E.unknown: raise AnalysisError('calls without a model reached from %s: %s' % (name, ', '.join(sorted(E.unknown))))
    R = Run(E, name, r, st, E.effects, E.loops)
    R.cont0 = cont0
    R.world = world
    return R

def execute(E, m, name, world=None, pre=TRUE): return run(E, 'contract::execute', [deps(), ENV, INFO, m], name, world, pre)
def sudo(E, m, name, world=None, pre=TRUE): return run(E, 'contract::sudo' if 'contract::sudo' in E.bypath else 'sudo::sudo', [deps(), ENV, m], name, world, pre)
def query(E, m, name, world=None, pre=TRUE): return run(E, 'contract::query', [qdeps(), ENV, m], name, world, pre)

# ------------------------------------------------------------------ assumptions

def arith_atom(a): return a.op == 'fits' or a.op == 'bopq' and a.a[0] == 'overflow'

def atoms_of(t):
    return [x for i in sorted(support(t)) for x in (byid(i),) if x is not None]

_ids = {}
def byid(i):
    t = _ids.get(i)
    if t is None:
        for x in terms._table.values(): _ids[x.id] = x
        t = _ids.get(i)
    return t

def conj(*cs):
    r = TRUE
    for c in cs: r = and_(r, c)
    return r
def disj(*cs):
    r = FALSE
    for c in cs: r = or_(r, c)
    return r

def in_range(c):
    """c under the assumption that every checked arithmetic operation is in range"""
    r = c
    while True:
        n = TRUE
        for a in atoms_of(r):
            if a.op == 'fits': n = and_(n, a)
            elif arith_atom(a): n = and_(n, not_(a))
        if n is TRUE: return r
        r2 = restrict(r, n)
        if r2 is r: return r
        r = r2

_as = {}
def assume(t, a, v):
    """t with atom a fixed to v everywhere (also inside numeric terms), plus direct consequences"""
    key = (a.id, v)
    memo = _as.setdefault(key, {})
    sub_ = {}; facts = []
    if v and a.op == 'eq':
        x, y = a.a
        # replace the later / opaque one by the other
        if x.op in ('num', 'str'): sub_[y] = x
        elif y.op in ('num', 'str'): sub_[x] = y
        elif y.op not in ('lin',) and not occurs(y, x): sub_[y] = x
        elif x.op not in ('lin',) and not occurs(x, y): sub_[x] = y
    rules = {a: boolean(v)}
    if a.op == 'lt':
        D = sub(a.a[1], a.a[0])
        if v:
            o = lt(a.a[1], a.a[0])
            if o.op == 'lt': rules[o] = FALSE
            e = eq(a.a[0], a.a[1])
            if e.op == 'eq': rules[e] = FALSE
        # D > 0 known true / false: order-dependent operators resolve
        facts.append((D, v))
    rules.update(sub_)
    # whether an amount is whole decides how it is rounded
    if a.op in ('eq', 'lt'):
        for z, r in (a.a[0], a.a[1]), (a.a[1], a.a[0]):
            if r.op not in ('floor', 'ceil') or r.a[0] is not z: continue
            if a.op == 'lt' and (r.op == 'floor') != (r is a.a[0]): continue
            if v == (a.op == 'eq'): rules[floor(z)] = rules[ceil(z)] = z
            else: rules[ceil(z)] = add(floor(z), ONE)
    rules = {k: w for k, w in rules.items() if k is not w}
    def go(x):
        r = rules.get(x)
        if r is not None: return r
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go) if x.a and children(x) else x
            for D, v in facts: r = resolve(r, D, v)
            if r.op in ('lt', 'eq'):
                for D, v in facts: r = order_fact(r, D, v)
            memo[x.id] = r
        return r
    return go(t)

def resolve(x, D, v):
    """min / max / saturating difference under D > 0 (v) or D <= 0 (not v)"""
    if x.op not in ('min', 'max', 'satsub'): return x
    a, b = x.a
    d = sub(b, a)
    for s, lo, hi in ((d, a, b), (scale(d, -1), b, a)):
        # s = hi - lo;  lo <= hi known when s > 0, or when -s <= 0
        if (v and (s is D or isint(D) and s is sub(D, ONE))) or (not v and (scale(s, -1) is D or isint(D) and scale(s, -1) is sub(D, ONE))):
            if x.op == 'min': return lo
            if x.op == 'max': return hi
            return sub(a, b) if hi is a else ZERO
    return x

def order_fact(x, D, v):
    """comparison atom x under D > 0 (v) or D <= 0 (not v)"""
    if x.op not in ('lt', 'eq') or not numeric(x.a[0]) or not numeric(x.a[1]): return x
    X = sub(x.a[1], x.a[0])
    low = 1 if isint(D) else 0           # D > 0 means D >= 1 for whole numbers
    k = sub(X, D)
    if isnum(k):
        k = nval(k)                      # X = D + k
        if x.op == 'lt':
            if v and k >= 0: return TRUE
            if not v and k <= 0: return FALSE
            if v and low and k > -1: return TRUE
        else:
            if v and k >= 0: return FALSE
            if not v and k < 0: return FALSE
        return x
    k = add(X, D)
    if isnum(k):
        k = nval(k)                      # X = k - D
        if x.op == 'lt':
            if v and (k <= low if low else k <= 0): return FALSE
            if not v and k > 0: return TRUE
        else:
            if v and (k < 1 if low else k <= 0): return FALSE
            if not v and k > 0: return FALSE
    return x

AMOUNTS = ('quantity', 'etas', 'placed_quantity', 'effective_total_amount_swapped', 'cumulative_realized_cancels', 'total_amount_of_liquidity')

def amount_leaf(t):
    """a stored amount, or a price: numbers of an unsigned type"""
    return t.op == 'fld' and t.a[0] in AMOUNTS + ('amount',) or t.op == 'fld' and t.a[-1] in AMOUNTS or t.op == 'pl' and 'tick_to_price' in show(t, 2)

def contradictory(lits):
    """the numeric literals leave no value for some linear form (interval minus excluded points)"""
    box = {}
    for a, v in lits:
        if a.op not in ('lt', 'eq') or not numeric(a.a[0]) or not numeric(a.a[1]): continue
        m, c = terms.lin_parts(sub(a.a[1], a.a[0]))
        if not m: continue
        L = m[min(m, key=lambda t: t.id)]
        x = terms.mk_lin({t: k / L for t, k in m.items()}, Fraction(0)); z = -c / L         # L * (x - z) > 0, <= 0, = 0 or != 0
        b = box.setdefault(x.id, [x, None, None, set()])                                  # lower / upper: (value, strict)
        def low(k):
            if b[1] is None or k > b[1]: b[1] = k
        def up(k):
            if b[2] is None or k < b[2]: b[2] = k
        if a.op == 'eq':
            if v: low((z, 0)); up((z, 1))
            else: b[3].add(z)
        elif v: (low((z, 1)) if L > 0 else up((z, 0)))
        else: (up((z, 1)) if L > 0 else low((z, 0)))
    def bounded(t):
        """the literals bound the linear form t below by 0"""
        m, c = terms.lin_parts(t)
        if not m: return c >= 0
        L = m[min(m, key=lambda t: t.id)]
        b = box.get(terms.mk_lin({t: k / L for t, k in m.items()}, Fraction(0)).id)
        if b is None: return False
        z = -c / L
        return b[1] is not None and b[1][0] >= z if L > 0 else b[2] is not None and b[2][0] <= z
    def natural(t, n=0):
        if n > 12: return False
        if isnum(t): return nval(t) >= 0
        if terms.unsigned_leaf(t) or amount_leaf(t): return True
        if t.op in ('floor', 'ceil'): return natural(t.a[0], n + 1)
        if t.op in ('mul', 'div', 'dmul', 'min'): return all(natural(y, n + 1) for y in t.a)
        if t.op == 'max': return any(natural(y, n + 1) for y in t.a)
        if t.op == 'lin' and bounded(t): return True
        if t.op == 'lin':
            m, c = terms.lin_parts(t)
            return c >= 0 and all(k > 0 and natural(y, n + 1) for y, k in m.items())
        return False
    for b in box.values():
        if (b[1] is None or b[1][0] < 0) and b[2] is not None and b[2][0] <= 0 and natural(b[0]): b[1] = (Fraction(0), 0)
    for x, lo, hi, holes in box.values():
        # lower bound (k, 1): x > k, (k, 0): x >= k;  upper bound (k, 0): x < k, (k, 1): x <= k
        if lo is None or hi is None: continue
        if isint(x):
            l = lo[0].__floor__() + 1 if lo[1] else lo[0].__ceil__()
            h = hi[0].__floor__() if hi[1] else hi[0].__ceil__() - 1
            while l <= h and l in holes: l += 1
            while l <= h and h in holes: h -= 1
            if l > h: return True
        else:
            if lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or not hi[1] or lo[0] in holes): return True
    return False

def consistent(lits):
    """the literals do not contradict one another, numerically or by substituting one into another"""
    if contradictory(lits): return False
    for i, (a, v) in enumerate(lits):
        x = a
        for j, (b, w) in enumerate(lits):
            if j != i and x.op != 'bool': x = assume(x, b, w)
        if x.op == 'bool' and x.a[0] != v: return False
    return True

def search(x, lits):
    """literals extending `lits` under which the condition x holds, or None"""
    res = []
    n = [0]
    def go(x, lits):
        if res or x is FALSE: return
        n[0] += 1
        if n[0] > 20000: raise AnalysisError('too many cases in an acceptance condition')
        if x is TRUE:
            if consistent(lits): res.append(lits or [(TRUE, True)])
            return
        r = terms.root(x)
        for v in (True, False):
            y = restrict(x, r if v else not_(r))
            if y is FALSE: continue
            go(settle(y, lits + [(r, v)]), lits + [(r, v)])
            if res: return
    go(x, list(lits))
    return res[0] if res else None

def known(pc):
    """the atoms the path condition decides"""
    return [(a, True) if implies(pc, a) else (a, False) for a in atoms_of(pc) if implies(pc, a) or implies(pc, not_(a))]

def feasible(pc, lits):
    """the path condition and the case's literals can hold together"""
    return search(settle(pc, lits), lits) is not None

def inner_atom(t):
    """an atom that some decision inside t depends on"""
    best = None
    for x in subterms(t):
        if x.op == 'ite':
            a = x.a[0]
            if best is None or a.id < best.id: best = a
    return best

def leaves(t, pc, limit=4000):
    """enumerate the decision-free cases of t: (t, pc, literals)"""
    out = []
    n = [0]
    def go(t, pc, lits):
        n[0] += 1
        if n[0] > limit * 4: raise AnalysisError('too many cases')
        a = inner_atom(t)
        if a is None:
            # positive equalities established by the path condition
            for x in atoms_of(pc):
                if x.op == 'eq' and implies(pc, x):
                    t2 = assume(t, x, True)
                    if t2 is not t:
                        go(t2, assume(pc, x, True), lits + [(x, True)]); return
            if not contradictory(lits): out.append((t, pc, lits))
            return
        for v in (True, False):
            p = and_(pc, a if v else not_(a))
            if p is FALSE: continue
            l2 = lits + [(a, v)]
            p = settle(p, l2)
            if p is FALSE: continue
            go(settle(t, l2), p, l2)
    go(restrict(t, pc), pc, [])
    return out

def same(a, b, pc):
    """a and b denote the same value whenever pc holds; None or the counterexample case"""
    if a is b: return None
    a, b = restrict(a, pc), restrict(b, pc)
    if a is b: return None
    for t, p, lits in leaves(tup(a, b), pc):
        x, y = t.a[3]
        if x is y: continue
        x, y = settle(t, known(p)).a[3]
        if x is y or not feasible(p, lits): continue
        if is_boolterm(x) and is_boolterm(y):
            d = and_(p, not_(eqb(x, y)))
            if d is FALSE: continue
        elif same_split(x, y, p, lits, 3): continue
        return (x, y, lits)
    return None

def same_split(x, y, p, lits, depth):
    """the values agree whichever of two amounts compared inside them is the smaller one"""
    t = tup(x, y)
    size = lambda z: sum(1 for _ in terms.subterms(z))
    m = [z for z in terms.subterms(t) if z.op in ('min', 'max', 'satsub')]
    if not m or len(m) > 6: return False
    m = min(m, key=lambda z: (size(z), z.id))
    c = lt(m.a[0], m.a[1])
    for q, l in ((and_(p, c), (c, True)), (and_(p, not_(c)), (c, False))):
        if q is FALSE or not feasible(q, lits + [l]): continue
        u, v = settle(t, known(q)).a[3]
        if u is v: continue
        if depth == 0 or size(tup(u, v)) > 4 * size(t) or u is x and v is y: return False
        if not same_split(u, v, q, lits + [l], depth - 1): return False
    return True

def is_boolterm(t): return t.op == 'bool' or t.op in terms.ATOMOPS or t.id in terms.ATOMS and t.op not in ('agg',)
def eqb(x, y): return ite(x, y, not_(y))

def cases_of(lits):
    return ', '.join(('' if v else 'not ') + show(a, 3) for a, v in lits[:6]) or 'always'

# ------------------------------------------------------------------ messages

def guarded(lst, pc):
    """list term -> [(guard, element)] in order; None when it has a symbolic part"""
    out = []
    def go(t, p):
        t = restrict(t, p)
        if t.op == 'vec':
            for e in t.a: out.append((p, e))
        elif t.op == 'cat':
            for q in t.a: go(q, p)
        elif t.op == 'ite':
            go(t.a[1], and_(p, t.a[0])); go(t.a[2], and_(p, not_(t.a[0])))
        else: out.append((p, mk('sublist', t)))
    go(lst, pc)
    return [(p, e) for p, e in out if p is not FALSE]

def elements(t):
    out = []
    for e in explode(t) if islist(t) else [t]:
        if e.op == 'sublist' and e.a[0].op == 'agg' and e.a[0].a[1] in ('None', 'Some'): out += list(e.a[0].a[3])
        else: out.append(e)
    return out

def same_list(got, want, pc, ordered=False):
    """lists equal as multisets (or sequences) in every case; None or counterexample"""
    for t, p, lits in leaves(tup(got, want), pc):
        ge, we = [elements(x) for x in t.a[3]]
        g, w = [vec(*x) for x in (ge, we)]
        ids = [[x.id for x in l] for l in (ge, we)]
        if not ordered: ids = [sorted(l) for l in ids]
        if ids[0] == ids[1]: continue
        x, y = settle(tup(g, w), known(p)).a[3]
        if x is not y and feasible(p, lits): return (g, w, lits)
    return None

# ------------------------------------------------------------------ findings

class Ctx:
    """collects obligations and findings of one property"""
    def __init__(self, pid):
        self.pid = pid; self.obl = []; self.viol = []; self.seen = set(); self.fns = set(); self.entries = []
        self.notes = []
    def use(self, R):
        self.entries.append(R.name)
        for e in R.effects:
            if e.fn: self.fns.add(e.fn)
        return R
    def ob(self, rule, where): self.obl.append((rule, where))
    def bad(self, rule, construct, detail, span=''):
        key = '%s|%s' % (rule, construct)
        if key in self.seen: return
        self.seen.add(key)
        self.viol.append({'key': key, 'rule': rule, 'construct': construct, 'detail': detail, 'span': span or ''})
    def check(self, cond, rule, construct, detail='', span=''):
        self.ob(rule, construct)
        if not cond: self.bad(rule, construct, detail() if callable(detail) else detail, span)
        return cond
    def eq(self, R, got, want, rule, construct, pc=None, span=''):
        """the two terms agree on every accepted call of R"""
        self.ob(rule, construct)
        pc = R.ok if pc is None else pc
        if pc is FALSE: return True
        if got is None: got = mk('missing')
        d = same(got, want, pc)
        if d is None: return True
        x, y, lits = d
        self.bad(rule, construct, 'is %s, must be %s  (when %s)' % (clip(show(x, 7)), clip(show(y, 7)), clip(cases_of(lits), 300)), span)
        return False

def clip(s, n=420): return s if len(s) <= n else s[:n] + '…'

def ok_of(R):
    """condition under which the call is accepted (in-range arithmetic only)"""
    if not hasattr(R, '_ok'): R._ok = in_range(R.ok)
    return R._ok

# ------------------------------------------------------------------ storage

def content(R, ns, pc=None):
    c = R.st.cont.get(ns)
    if c is None: return R.cont0.get(ns) or s_init(ns)
    return restrict(c, R.ok if pc is None else pc)

def initial(R, ns): return R.cont0.get(ns) or s_init(ns)

def final(R, ns, key, pc=None):
    """(exists, value) after the call"""
    pc = R.ok if pc is None else pc
    e, v = s_get(content(R, ns, pc), ns, key)
    return restrict(e, pc), restrict(v, pc)

def writes(R, ns, pc=None):
    """[(guard, key)] written/removed on accepted calls, [] if untouched; ('?', term) for havoc"""
    pc = R.ok if pc is None else pc
    base = initial(R, ns)
    out = []
    seen = {}
    def go(t, p):
        if t is base or p is FALSE: return
        k = (t.id, p.id)
        if k in seen: return
        seen[k] = 1
        if t.op in ('W', 'R'):
            out.append((p, restrict(t.a[1], p))); go(t.a[0], p)
        elif t.op == 'ite':
            go(restrict(t.a[1], p), and_(p, t.a[0])); go(restrict(t.a[2], p), and_(p, not_(t.a[0])))
        else:
            out.append((p, mk('bulk', t)))
    go(content(R, ns, pc), pc)
    return out

def touched(R, pc=None):
    return sorted(ns for ns in R.st.cont if writes(R, ns, pc))

def span_of(R, ns, kinds=('save', 'remove')):
    es = [e for e in R.effects if e.kind in kinds and e.ns == ns]
    return '; '.join(sorted({'%s (%s)' % (short(e.fn), e.span) for e in es})[:4]) or R.name

def short(fid):
    return re.sub(r'^.*?sumtree_orderbook\W*::', '', fid or '?')

def unchanged(C, R, ns, rule, pc=None):
    """namespace ns is the same after every accepted call"""
    C.ob(rule, '%s/%s' % (R.name, ns))
    ws = writes(R, ns, pc)
    base = initial(R, ns)
    for p, k in ws:
        if k.op == 'bulk':
            C.bad(rule, '%s/%s' % (R.name, ns), 'contents are modified at %s' % span_of(R, ns), span_of(R, ns)); return False
        e, v = final(R, ns, k, p)
        e0, v0 = s_get(base, ns, k)
        d = same(e, e0, p) or same(v, v0, and_(p, e0))
        if d:
            C.bad(rule, '%s/%s' % (R.name, ns), 'entry %s is changed to %s' % (clip(show(k, 4)), clip(show(d[0], 5))), span_of(R, ns)); return False
    return True

def only_keys(C, R, ns, keys, rule, pc=None):
    """every written key of ns is one of `keys`"""
    C.ob(rule, '%s/%s keys' % (R.name, ns))
    base = initial(R, ns)
    for p, k in writes(R, ns, pc):
        if k.op != 'bulk':
            good = False
            for want in keys:
                if same(k, want, p) is None: good = True; break
            if good: continue
            # written back unchanged?
            e, v = final(R, ns, k, p); e0, v0 = s_get(base, ns, k)
            if same(e, e0, p) is None and same(v, v0, and_(p, e0)) is None: continue
        C.bad(rule, '%s/%s keys' % (R.name, ns), 'entry %s is written' % clip(show(k, 5)), span_of(R, ns)); return False
    return True

def calls(R, path, pc=None):
    pc = R.ok if pc is None else pc
    return [e for e in R.effects if e.kind == 'call' and e.ns == path and and_(e.pc, pc) is not FALSE]

def attr(okval, key, pc):
    """value of a response attribute: list of (guard, value)"""
    return [(p, fld(e, '1')) for p, e in guarded(fld(okval, 'attributes'), pc) if e.op == 'agg' and fld(e, '0') is st(key)]

# ------------------------------------------------------------------ acceptance

def settle(x, lits):
    """x under all literals (facts introduced by substitution are revisited)"""
    for _ in range(4):
        y = x
        for a, v in reversed(lits):
            if y.op == 'bool': return y
            y = assume(restrict(y, a if v else not_(a)), a, v)
        if y is x: break
        x = y
    return x

def differ(a, b, pre=TRUE):
    """a feasible case in which the two conditions disagree, or None"""
    return search(and_(pre, ite(a, not_(b), b)), [])

def accepts(C, R, want, rule, construct, pre=TRUE, span=''):
    """R is accepted exactly when `want` holds"""
    C.ob(rule, construct)
    d = differ(ok_of(R), want, pre)
    if d is None: return True
    x = ok_of(R)
    x = settle(x, d)
    C.bad(rule, construct, 'call is %s although it must be %s  (when %s)' % ((('accepted', 'rejected') if x is TRUE else ('rejected', 'accepted') if x is FALSE else ('decided differently', 'as stated')) + (clip(cases_of(d), 500),)), span)
    return False

def requires(C, R, want, rule, construct, span='', pc=None):
    """every accepted call satisfies `want`"""
    C.ob(rule, construct)
    ok = ok_of(R) if pc is None else pc
    d = differ(and_(ok, not_(want)), FALSE)
    if d is None: return True
    C.bad(rule, construct, 'call is accepted although %s does not hold  (when %s)' % (clip(show(want, 6), 200), clip(cases_of(d), 300)), span)
    return False

def rejects(C, R, rule, construct, span=''):
    C.ob(rule, construct)
    if ok_of(R) is FALSE: return True
    d = differ(ok_of(R), FALSE)
    if d is None: return True
    C.bad(rule, construct, 'call is accepted  (when %s)' % clip(cases_of(d), 300), span)
    return False

def has_single(funds, denom): return mk('bopq', 'single', funds, denom)
def paid(funds, denom):
    t = mk('paid', funds, denom); INT.add(t.id); return t

# ------------------------------------------------------------------ payments

def amount_of(t):
    """numeric value of a coin amount (string or integer)"""
    if t.op == 'ite': return ite(t.a[0], amount_of(t.a[1]), amount_of(t.a[2]))
    return t.a[0] if t.op == 'tostr' else t

def payment(sub):
    """normal form of one response submessage: (kind, from, to, denom, amount) """
    m = fld(sub, 'msg')
    while m.op == 'agg' and m.a[1] in ('Bank', 'Stargate', 'Any') and len(m.a[3]) == 1 and m.a[3][0].op == 'agg': m = m.a[3][0]
    if m.op == 'agg':
        names = m.a[2]
        if 'to_address' in names and 'amount' in names:
            coins = fld(m, 'amount')
            frm = fld(m, 'from_address') if 'from_address' in names else CONTRACT
            if coins.op == 'vec' and len(coins.a) == 1:
                c = coins.a[0]
                return tup(st('pay'), frm, fld(m, 'to_address'), fld(c, 'denom'), amount_of(fld(c, 'amount')))
    return tup(st('message'), m)

def pay(to, denom, amount): return tup(st('pay'), CONTRACT, to, denom, amount)

def payments(lst, pc, f=payment):
    """list term of normalised payments"""
    r = EMPTY
    for p, e in guarded(lst, pc):
        r = cat(r, ite(p, vec(f(e)) if e.op != 'sublist' else vec(e), EMPTY))
    return r

def when(c, *es): return ite(c, vec(*es), EMPTY)

def same_payments(C, R, want, rule, construct, pc=None):
    C.ob(rule, construct)
    pc = R.ok if pc is None else pc
    if pc is FALSE: return True
    got = payments(fld(R.okval, 'messages'), pc)
    d = same_list(got, want, pc)
    if d is None: return True
    C.bad(rule, construct, 'pays %s, must pay %s  (when %s)' % (clip(show(d[0], 7)), clip(show(d[1], 7)), clip(cases_of(d[2]), 300)))
    return False

def attrs_are(C, R, attrs, want, rule, construct, pc=None):
    """attribute list carries each wanted (key, value) exactly once"""
    pc = R.ok if pc is None else pc
    for k, v in want:
        C.ob(rule, '%s: %s' % (construct, k))
        vs = [(p, fld(e, '1')) for p, e in guarded(attrs, pc) if e.op == 'agg' and fld(e, '0') is st(k)]
        if not vs:
            C.bad(rule, '%s: %s' % (construct, k), 'attribute is not reported'); continue
        tot = FALSE
        for p, x in vs:
            d = same(unstr_deep(x), unstr_deep(v), p)
            if d or and_(tot, p) is not FALSE:
                C.bad(rule, '%s: %s' % (construct, k), 'reports %s, must report %s' % (clip(show(d[0] if d else x, 6)), clip(show(v, 6)))); break
            tot = or_(tot, p)
        else:
            if not implies(pc, tot): C.bad(rule, '%s: %s' % (construct, k), 'attribute is missing in some case')

def unstr_deep(t):
    if t.op == 'ite' and t.a[1] is st('true') and t.a[2] is st('false'): return t.a[0]
    if t.op == 'ite' and t.a[1] is st('false') and t.a[2] is st('true'): return not_(t.a[0])
    if t.op == 'ite': return ite(t.a[0], unstr_deep(t.a[1]), unstr_deep(t.a[2]))
    return t.a[0] if t.op == 'tostr' else t
