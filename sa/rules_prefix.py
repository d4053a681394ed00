"""Looking up how much has been cancelled up to a queue position."""
from rules_tree import *

NODETREE = 'sumtree::node::TreeNode'

# All quantities are written as sums of non-negative symbols, so that ordinary linear normal forms decide most
# comparisons: lo, hi = lo + length, next.lo = hi + gap, value = length (record) or length - slack (subtree).
# A lookup position is lo + t; what was realised before is split by how it cuts the left child.

def nonneg(t):
    m, c = lin_parts(t)
    return c >= 0 and all(k >= 0 for k in m.values())

class PZone(Zone):
    """order constraints between sums of non-negative symbols: a sum is at least each of its parts"""
    def copy(self): z = PZone(); z.e = {k: dict(v) for k, v in self.e.items()}; return z
    def closure(self):
        e0 = {k: dict(v) for k, v in self.e.items()}
        vs = set(self.e) | {y for d in self.e.values() for y in d}
        vs |= {ZERO}
        for x in list(vs):
            if not nonneg(x): continue
            for y in vs:
                if x is not y and nonneg(sub(x, y)): self.le(y, x)
        r = Zone.closure(self)
        self.e = e0
        return r
    def take(self, a, v):
        # literals are in the normal form  sum < sum  already
        return Zone.take(self, a, v)

def simp(t):
    """max(0, x), x < y, x = y decided where the sign is evident from non-negative symbols"""
    memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        r = rebuild(x, go) if x.a and children(x) else x
        if r.op in ('min', 'max') and len(r.a) == 2:
            d = sub(r.a[0], r.a[1])
            if nonneg(d): r = r.a[0] if r.op == 'max' else r.a[1]
            elif nonneg(scale(d, -1)): r = r.a[1] if r.op == 'max' else r.a[0]
        elif r.op == 'lt' and nonneg(sub(r.a[0], r.a[1])): r = FALSE
        memo[x.id] = r
        return r
    return go(t)

class Case:
    """one node with its children and a lookup: everything the step may depend on"""
    def __init__(self, name, n, base, target, prev, facts=(), root=False):
        self.name, self.n, self.base, self.target, self.prev, self.facts, self.root = name, n, base, target, prev, facts, root

def sized(k, kind, lo, length, value):
    n = N(k, kind if kind == 'leaf' else 'sub', weight=1 if kind == 'leaf' else tall(k))
    n.lo, n.hi, n.value = lo, add(lo, length), value
    return n

def sizes():
    """children of a node: [(name, left, right, left value parametrised by what was realised before)]"""
    for l in (None, 'leaf', 'sub'):
        for r in (None, 'leaf', 'sub'):
            if r and not l: continue
            yield l, r

def cuts(l, r, root):
    """how the amount realised before relates to the left child: before it, inside it, beyond it"""
    if not (l and r): return ['any']
    return ['inside', 'beyond'] if root else ['before', 'inside', 'beyond']

def cases_(root):
    lo, t, B, e, d, u = INP('n.lo'), INP('t'), INP('base'), INP('e'), INP('d'), INP('u')
    out = []
    base0 = ZERO if root else B
    lf = sized(10, 'leaf', lo, INP('v'), INP('v'))
    out.append(('record', lf, base0, e, None))
    out.append(('empty', inner(10, None, None), base0, e, None))
    for l, r in sizes():
        if not l: continue
        for cut in cuts(l, r, root):
            base, prev = base0, e
            v = INP('l.v')
            if cut == 'before': base, prev = add(B, e), B
            elif cut == 'inside': base, v, prev = base0, add(d, u), add(base0, d)
            elif cut == 'beyond': base, prev = base0, add(add(base0, v), e)
            L = sized(20, l, lo, v if l == 'leaf' else add(v, INP('l.slack')), v)
            R = None
            if r:
                rv = INP('r.v')
                R = sized(30, r, add(L.hi, INP('gap')), rv if r == 'leaf' else add(rv, INP('r.slack')), rv)
            n = inner(10, L, R)
            out.append(('%s|%s, %s realised before' % (l, r or 'none', cut), n, base, prev, cut))
    for name, n, base, prev, cut in out:
        if root:
            # below, or at and above the start
            below = INP('t.below')
            if n.kind == 'leaf' or n.left:
                yield Case(name + ', position before the first record', n, base, below, prev, [(lt(below, n.lo), True)], True)
            else: yield Case(name, n, base, t, prev, [(lt(t, INP('max')), True)], True)
        if n.kind == 'leaf' or n.left: yield Case(name, n, base, add(n.lo, t), prev, [], root)

def count(n, base, T, prev, cont, depth=0):
    """specified result of a lookup below n: everything up to base is counted already"""
    cs = add(base, n.value)
    if n.kind == 'leaf': return ite(lt(T, n.lo), base, cs)
    if n.kind == 'sub': return cont(n, base, T, prev)
    if not n.left: return base
    if not n.right: return ite(lt(T, n.left.lo), base, below(n.left, base, T, prev, cont))
    u = satsub(n.left.value, satsub(prev, base))
    T2 = simp(add(T, u))
    right = below(n.right, add(base, n.left.value), T2, prev, cont)
    left = below(n.left, base, T, prev, cont)
    return ite(lt(T, n.left.lo), base, ite(lt(T2, n.right.lo), left, right))

def below(n, base, T, prev, cont):
    return ite(lt(T, n.hi), count(n, base, T, prev, cont), add(base, n.value))

def further(n, base, T, prev): return mk('walk', num(n.key), add(base, n.value), T, prev)

# ------------------------------------------------------------------ the walk in the code

def walker(A):
    """(engine, function id, parameter roles) of the function that walks recursively, None when there is none"""
    def go():
        E0 = Engine(A.dump, opaque=tuple(x for x in OPAQUE if x != PREFIX_SUM))
        rec = [f for f in E0.reach(E0.bypath[PREFIX_SUM]) if f in E0.recursive]
        if len(rec) != 1: return None
        path = E0.fns[rec[0]]['path']
        if path == PREFIX_SUM:
            return None
        E = Engine(A.dump, opaque=tuple(x for x in OPAQUE if x != PREFIX_SUM) + (path,))
        seen = []
        def rec_(E_, fid, vals, st):
            seen.append(tuple(vals))
            return mk('call', path, tuple(v for v in vals if v.op != 'in' or v.a[0] != 'storage'), ())
        E.summaries[path] = rec_
        n = inner(10, subtree(20, 2), subtree(30, 2)); n.value = INP('root.value')
        w = World(E); recs = plant(E, w, n, BID, None)
        T, P = INP('role.target'), INP('role.prev')
        try: method(E, PREFIX_SUM, 'prefix sum', w, {}, [STORAGE, recs[10], T, P])
        except AnalysisError: return None
        roles = []
        want = {INP('storage').id: 'storage', recs[10].id: 'node', INP('root.value').id: 'sum', T.id: 'target', P.id: 'prev'}
        for a in zip(*seen):
            r = {want.get(x.id) for x in a}
            if len(r) != 1 or None in r: return None
            roles += r
        if sorted(roles) != ['node', 'prev', 'storage', 'sum', 'target']: return None
        return E0, rec[0], path, roles
    return A.get(('prefix walker',), go)

def normal(n, cs, T, prev):
    """what a further lookup yields, as far as it does not depend on what is below n"""
    opaque = mk('walk', num(n.key), cs, T, prev)
    if n.kind == 'leaf':
        return simp(ite(lt(T, n.lo), opaque, cs))
    return simp(ite(lt(T, n.hi), opaque, cs))

def walk_run(A, c, d):
    E, fid, path, roles = walker(A)
    w = World(E)
    recs = plant(E, w, c.n, d, None if c.root else 5)
    vals = {'storage': STORAGE, 'node': '&node', 'sum': add(c.base, c.n.value), 'target': c.target, 'prev': c.prev}
    fn = E.cfg(fid)
    args = [vals[r] if r != 'node' or fn.locals[i + 1].startswith('&') else recs[10] for i, r in enumerate(roles)]
    R = method(E, path, 'walk[%s%s]' % (c.name, ', root' if c.root else ''), w, {'node': recs[10]}, args)
    R.recs = recs
    byk = {x.key: x for x in (c.n, c.n.left, c.n.right) if x}
    m, oks = {}, TRUE
    for e in R.effects:
        if e.kind != 'call' or e.ns != path: continue
        r = e.val
    calls_ = [x for x in subterms_all([R.ret] + [e.pc for e in R.effects]) if x.op == 'call' and x.a[0] == path]
    return R, calls_, byk, roles, path

def subterms_all(ts):
    seen, w, out = set(), list(ts), []
    while w:
        x = w.pop()
        if x is None or x.id in seen: continue
        seen.add(x.id); out.append(x)
        w += list(children(x)) if x.a else []
    return out

def result(R, calls_, byk, roles, path):
    """returned sum with further lookups made explicit; further lookups are assumed to succeed"""
    pos = {r: i for i, r in enumerate([x for x in roles if x != 'storage'])}
    ret = simp(R.ret)
    for _ in range(8):
        cs = [x for x in subterms_all([ret]) if x.op == 'call' and x.a[0] == path]
        if not cs: break
        m = {}
        for x in cs:
            a = [v for v in x.a[1] if not (v.op == 'in' and v.a[0] == 'storage')]
            nd = a[pos['node']]
            k = fld(nd, 'key')
            if k.op != 'num' or int(nval(k)) not in byk or nd is not R.recs[int(nval(k))]: raise Broken('the walk continues at ' + clip(show(nd, 4), 200))
            m[x] = Ok(normal(byk[int(nval(k))], simp(a[pos['sum']]), simp(a[pos['target']]), simp(a[pos['prev']])))
        ret = simp(subst(ret, m))
    return ret

@prop('T04')
def prefix(A, C):
    if walker(A) is None: return bounded(A, C)
    for root in (True, False):
        for c in cases_(root):
            R, cs, byk, roles, path = walk_run(A, c, BID if root else ASK)
            C.use(R)
            step(C, c, R, lambda: result(R, cs, byk, roles, path), lambda: simp(count_(c, further)))
    reads_only(A, C)

def count_(c, cont):
    if c.root: return ite(lt(c.target, c.n.lo), ZERO, below(c.n, c.base, c.target, c.prev, cont))
    return below(c.n, c.base, c.target, c.prev, cont)

def step(C, c, R, got, want):
    z = PZone()
    for a, v in c.facts: z.take(a, v) if a.op == 'lt' else None
    for n in (c.n, c.n.left, c.n.right):
        if n and n.kind == 'leaf': z.lt(n.lo, n.hi).lt(ZERO, n.value)
    w = R.name
    try: g = got()
    except Broken as x:
        C.bad('a lookup goes on below the node it is at', w, str(x)); return
    f = TRUE
    for a, v in c.facts: f = and_(f, a if v else not_(a))
    pc = fitting(simp(R.pc))
    bad = in_range(and_(pc, not_(isvar(g, 'Ok'))))
    r = []
    for t, p, lits in leaves(ite(and_(bad, f), ONE, ZERO), TRUE):
        zz = z.copy()
        if simp(t) is ONE and all(literal(zz, a, v) for a, v in lits) and zz.feasible(): r.append(lits); break
    C.check(not r, 'a lookup never fails', w, lambda: 'fails when ' + cases_of(r[0]))
    wt = want()
    g = in_range(pl(g, 'Ok', '0')) if g.op == 'ite' or g.op == 'agg' else g
    n = 0
    for t, p, lits in leaves(tup(g, wt), and_(in_range(pc), f)):
        zz = z.copy()
        if any(not v if a.op == 'fits' else arith_atom(a) and v for a, v in lits): continue
        if not all(literal(zz, a, v) for a, v in lits) or not zz.feasible() or not feasible_cases(simp(p), zz): continue
        n += 1
        x, y = simp(t.a[3][0]), simp(t.a[3][1])
        C.ob('a lookup counts exactly the records the queue has reached', w)
        if x is y: continue
        C.bad('a lookup counts exactly the records the queue has reached', w, 'yields %s, must be %s when %s' % (clip(show(x, 6), 160), clip(show(y, 6), 160), clip(cases_of(lits), 300)))
    C.check(n > 0, 'a lookup never fails', w, 'no case')

def literal(z, a, v):
    """adds a literal after simplification; False when it is evidently impossible"""
    a = simp(a)
    if a.op == 'bool': return (a is TRUE) == v
    if a.op == 'ite' and a.a[1] is FALSE and a.a[2] is TRUE: a, v = a.a[0], not v
    z.take(a, v)
    return True

def reads_only(A, C):
    E = A.E
    for f in sorted(E.reach(E.bypath[PREFIX_SUM])): C.fns.add(f)
    R = C.use(whole(A))
    for e in R.effects:
        if e.kind in ('save', 'remove'): C.bad('a lookup changes nothing', R.name, '%s of %s' % (e.kind, e.ns), e.span)
    C.ob('a lookup changes nothing', R.name)

def whole(A):
    def go():
        E = Engine(A.dump, opaque=tuple(x for x in OPAQUE if x != PREFIX_SUM))
        n = inner(10, subtree(20, 2), subtree(30, 2))
        w = World(E); recs = plant(E, w, n, BID, None)
        return method(E, PREFIX_SUM, 'prefix sum', w, {}, [STORAGE, recs[10], INP('target'), INP('prev')])
    return A.get(('prefix whole',), go)

# ------------------------------------------------------------------ other forms of the walk: whole small trees

def whole_trees():
    """complete trees of records up to height 4"""
    c = itertools.count(20)
    pos = [INP('w.lo')]
    def rec():
        k = next(c)
        v = INP('w%d.v' % k)
        n = sized(k, 'leaf', pos[0], v, v)
        pos[0] = add(n.hi, INP('w%d.gap' % k))
        return n
    def reset(): pos[0] = INP('w.lo')
    def node(f, g):
        k = next(c); l = f(); r = g() if g else None
        return inner(k, l, r)
    two = lambda: node(rec, rec)
    for name, mkt in (('one', lambda: node(rec, None)), ('two', two), ('three', lambda: node(two, rec)), ('three right', lambda: node(rec, two)),
                      ('four', lambda: node(two, two)), ('left heavy', lambda: node(lambda: node(two, rec), two))):
        reset(); n = mkt(); n.key = 10
        yield name, n

def bounded(A, C):
    """the walk is not a plain recursive function: decide complete trees of up to five records instead"""
    for name, n in whole_trees():
        E = Engine(A.dump, opaque=tuple(x for x in OPAQUE if x != PREFIX_SUM))
        E.unfold = 5; E.unrolled = E.reach(E.bypath[PREFIX_SUM])
        w = World(E); recs = plant(E, w, n, BID, None)
        for how, T in (('before', INP('t.below')), ('after', add(n.lo, INP('t')))):
            c = Case(name, n, ZERO, T, INP('e'), [(lt(T, n.lo), True)] if how == 'before' else [], True)
            R = C.use(method(E, PREFIX_SUM, 'lookup[%s records, position %s the first]' % (name, how), w, {}, [STORAGE, recs[10], T, c.prev]))
            step(C, c, R, lambda: simp(R.ret), lambda: simp(count_(c, None)))
    reads_only(A, C)
