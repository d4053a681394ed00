"""The cancellation trees: insertion, rotation, sums, prefix sums."""
from session import *
import itertools

T = 'sumtree::node::TreeNode::'
REBALANCE, TREE_ROOT = T + 'rebalance', 'sumtree::tree::get_or_init_root_node'
SELF, PARENT, L, R_, NEW, COUNTER = num(10), num(5), num(20), num(30), num(40), 100
NODETYPE = 'sumtree::node::NodeType'

# ------------------------------------------------------------------ symbolic trees

class N:
    """a node of a symbolic tree: leaf, opaque subtree (height known or symbolic, contents not) or expanded node"""
    def __init__(self, key, kind, left=None, right=None, weight=1):
        self.key, self.kind, self.left, self.right = key, kind, left, right
        self.weight = num(weight) if isinstance(weight, int) else weight
        self.below = None
        n = 't%d.' % key
        if kind == 'leaf':
            self.lo, self.hi = INP(n + 'lo'), INP(n + 'hi'); self.value = sub(self.hi, self.lo)
        elif kind == 'sub': self.lo, self.hi, self.value = INP(n + 'lo'), INP(n + 'hi'), INP(n + 'value')
        else:
            kids = [x for x in (left, right) if x]
            self.lo = kids[0].lo if kids else INP('max'); self.hi = kids[-1].hi if kids else ZERO
            self.value = ZERO
            for x in kids: self.value = add(self.value, x.value)
            self.weight = add(ONE, highest([x.weight for x in kids]))

def height(name):
    """any height below a million"""
    h = INP(name)
    for s in (UNS, INT, SMALL): s.add(h.id)
    return h
DEEP = height('height')
def tall(k): return add(height('height%d' % k), num(2))

def highest(hs):
    r = ZERO
    for h in hs: r = mk_max(r, h)
    return r

def leaf(k): return N(k, 'leaf')
def subtree(k, w):
    if not isinstance(w, int): return N(k, 'sub', weight=w)
    return leaf(k) if w == 1 else N(k, 'sub', weight=w)
def inner(k, l, r): return N(k, 'node', l, r)

def opt(k): return NONE if k is None else Some(num(k))

class Stale: pass

def record(E, n, d, parent, stale=False):
    """stored value of a node; with stale sums when they are about to be recomputed"""
    a = sym(E, adt_of(E, 'sumtree::node::TreeNode'), 'n')
    nt = adt_of(E, NODETYPE)
    if n.kind == 'leaf': t = agg(nt, 'Leaf', ['value', 'etas'], [n.value, n.lo])
    else:
        s = 'old%d.' % n.key if stale else None
        t = agg(nt, 'Internal', ['accumulator', 'range', 'weight'],
                [INP(s + 'sum') if s else n.value, tup(INP(s + 'lo'), INP(s + 'hi')) if s else tup(n.lo, n.hi), INP(s + 'weight') if s else n.weight])
    kid = lambda x, side: opt(x.key) if x else (Some(num(n.key * 10 + side)) if n.kind == 'sub' else NONE)
    vals = {'key': num(n.key), 'tick_id': TICK, 'direction': d, 'left': kid(n.left, 1) if n.kind != 'leaf' else NONE,
            'right': kid(n.right, 2) if n.kind != 'leaf' else NONE, 'parent': opt(parent), 'node_type': t}
    for f in a.a[2]:
        if f not in vals: raise AnalysisError('unknown tree node field ' + f)
        a = with_(a, f, vals[f])
    return a

def plant(E, w, n, d, parent, stale=(), out=None):
    """puts a whole symbolic tree into the initial storage"""
    out = {} if out is None else out
    rec = record(E, n, d, parent, n.key in stale)
    w.put('nodes', tup(TICK, num(n.key)), rec); out[n.key] = rec
    if n.kind == 'sub' and n.below is not None:    # what is right below, for code that looks ahead
        for i in (1, 2):
            w.put('nodes', tup(TICK, num(n.key * 10 + i)), record(E, N(n.key * 10 + i, 'sub', weight=n.below), d, n.key))
    for x in (n.left, n.right):
        if x: plant(E, w, x, d, n.key, stale, out)
    return out

def frontier(n):
    """leaves and opaque subtrees from left to right"""
    if n.kind != 'node': return [n]
    return [y for x in (n.left, n.right) if x for y in frontier(x)]

def engine(A):
    def go():
        E = Engine(A.dump, opaque=OPAQUE + (REBALANCE,))
        for p in (REBALANCE, INSERT): E.summaries[p] = note
        return E
    return A.get(('tree engine',), go)
def free(A):
    def go():
        E = Engine(A.dump, opaque=OPAQUE)
        return E
    return A.get(('free engine',), go)

def note(E, fid, vals, st):
    """a recorded call that is judged on its own; its storage effect is left out"""
    path = E.fns[fid]['path']
    vals = [v for v in vals if not (v.op == 'in' and v.a[0] == 'storage')]
    r = mk('call', path, tuple(vals), ())
    E.effect('call', path, tup(*vals), r, st, extra=fid)
    return r

def method(E, path, name, world, slots, args):
    """runs a function whose arguments may be references to caller-owned values (slots)"""
    fid = E.bypath.get(path)
    if fid is None: raise AnalysisError('function %s not found' % path)
    E.effects = []; E.loops = {}
    E.fn = E.cfg(fid); E.span = ''
    cont0 = dict(world.cont)
    st_ = St({}, dict(cont0), TRUE)
    for k, v in slots.items(): st_.store[('T', k)] = v
    E.cur = ('entry', 0, ())
    a = [mk('ref', ('T', x[1:]), ()) if isinstance(x, str) else x for x in args]
    r = E.run(E.cfg(fid), E.ctx(0, fid, name), a, st_)
    if E.unknown: raise AnalysisError('calls without a model reached from %s: %s' % (name, ', '.join(sorted(E.unknown))))
    R = Run(E, name, r, st_, E.effects, E.loops)
    R.cont0, R.world = cont0, world
    R.out = {k: st_.store.get(('T', k)) for k in slots}
    return R

STORAGE = INP('storage')

# ------------------------------------------------------------------ zones

class Zone:
    """order constraints between atomic quantities (strict and non-strict), closed under transitivity"""
    def __init__(self): self.e = {}
    def copy(self): z = Zone(); z.e = {k: dict(v) for k, v in self.e.items()}; return z
    def le(self, x, y, strict=False):
        d = self.e.setdefault(x, {}); d[y] = d.get(y, False) or strict
        return self
    def lt(self, x, y): return self.le(x, y, True)
    def closure(self):
        vs = set(self.e) | {y for d in self.e.values() for y in d}
        r = {(x, y): s for x, d in self.e.items() for y, s in d.items()}
        ns = sorted((x for x in vs if isnum(x)), key=nval)
        for x, y in zip(ns, ns[1:]): r[(x, y)] = True
        for k in vs:
            for i in vs:
                if (i, k) not in r: continue
                for j in vs:
                    if (k, j) not in r: continue
                    s = r[(i, k)] or r[(k, j)]
                    if (i, j) not in r or (s and not r[(i, j)]): r[(i, j)] = s
        return r
    def feasible(self):
        r = self.closure()
        return not any(r.get((x, x)) for x in {a for a, b in r})
    def knows_le(self, x, y):
        if x is y: return True
        z = self.copy(); z.lt(y, x)
        return not z.feasible()
    def take(self, a, v):
        """adds a literal when it is an order constraint between two quantities"""
        if a.op == 'lt':
            x, y = a.a
            if v: self.lt(x, y)
            else: self.le(y, x)
        elif a.op == 'eq' and v: self.le(a.a[0], a.a[1]).le(a.a[1], a.a[0])
        return self

def node_zone(z, n):
    """a well-formed tree: non-empty intervals, left before right"""
    if n.kind in ('leaf', 'sub'): z.lt(n.lo, n.hi)
    for x in (n.left, n.right):
        if x: node_zone(z, x)
    if n.left and n.right: z.le(n.left.hi, n.right.lo)
    return z

# ------------------------------------------------------------------ reading a final tree

class Broken(Exception): pass

def concrete(t, what):
    """key a pointer field holds (None for no pointer)"""
    if t is NONE: return None
    if t.op == 'agg' and t.a[1] == 'Some' and t.a[3][0].op == 'num': return int(nval(t.a[3][0]))
    raise Broken('%s is %s' % (what, clip(show(t, 4), 120)))

class View:
    """nodes of the final storage in one case"""
    def __init__(self, R, keys, lits, pc):
        self.n = {}
        for k in keys:
            e, v = final(R, 'nodes', tup(TICK, num(k)), pc)
            e, v = settle(restrict(e, pc), lits), settle(restrict(v, pc), lits)
            if e is TRUE: self.n[k] = v

def walk(V, key, parent, opaque, d, out, checks):
    """in-order frontier of the final tree below key; local consistency conditions go to checks"""
    v = V.n.get(key)
    if v is None: raise Broken('node %d is linked but not stored' % key)
    if fld(v, 'key') is not num(key): raise Broken('node %d is stored under another key' % key)
    if fld(v, 'tick_id') is not TICK or fld(v, 'direction') is not d: raise Broken('node %d belongs to another tick or side' % key)
    p = concrete(fld(v, 'parent'), 'parent of node %d' % key)
    if p != parent: raise Broken('parent of node %d is %s, must be %s' % (key, p, parent))
    if key in opaque:
        out.append(key); return
    l, r = concrete(fld(v, 'left'), 'left of node %d' % key), concrete(fld(v, 'right'), 'right of node %d' % key)
    if isvar(fld(v, 'node_type'), 'Internal') is not TRUE: raise Broken('node %d is not internal' % key)
    for x in (l, r):
        if x is not None: walk(V, x, key, opaque, d, out, checks)
    checks.append((key, l, r))

def stats(v):
    """(value, min, max, weight) of a stored node"""
    t = fld(v, 'node_type')
    if isvar(t, 'Leaf') is TRUE:
        e, x = pl(t, 'Leaf', 'etas'), pl(t, 'Leaf', 'value')
        return x, e, add(e, x), ONE
    r = pl(t, 'Internal', 'range')
    return pl(t, 'Internal', 'accumulator'), fld(r, '0'), fld(r, '1'), pl(t, 'Internal', 'weight')

def summed(C, V, checks, rule, where, z, skip=()):
    """every internal node carries sum, range and height of its children"""
    for key, l, r in checks:
        if key in skip: continue
        C.ob(rule, '%s: node %d' % (where, key))
        kids = [stats(V.n[x]) for x in (l, r) if x is not None]
        got = stats(V.n[key])
        tot = ZERO
        for k in kids: tot = add(tot, k[0])
        w = add(ONE, highest([k[3] for k in kids]))
        if not kids: continue
        for name, g, wants in (('sum', got[0], [tot]), ('lower end', got[1], lows(kids, z)), ('upper end', got[2], highs(kids, z)), ('height', got[3], [w])):
            if not any(g is x for x in wants):
                C.bad(rule, '%s: node %d' % (where, key), '%s is %s, must be %s' % (name, clip(show(g, 5), 160), clip(show(wants[0], 5), 160)))

def lows(kids, z):
    if len(kids) == 1: return [kids[0][1]]
    a, b = kids[0][1], kids[1][1]
    return [mk_min(a, b), ite(lt(a, b), a, b), ite(lt(b, a), b, a)] + ([a] if known(z, a, b) else []) + ([b] if known(z, b, a) else [])
def highs(kids, z):
    if len(kids) == 1: return [kids[0][2]]
    a, b = kids[0][2], kids[1][2]
    return [mk_max(a, b), ite(lt(a, b), b, a), ite(lt(b, a), a, b)] + ([b] if known(z, a, b) else []) + ([a] if known(z, b, a) else [])
def known(z, a, b): return z.knows_le(a, b)

def cases(pc, z, values=()):
    """[(condition, literals)] the decision-free cases of the values that a well-formed tree can be in"""
    out = []
    for t, p, lits in leaves(tup(*values), pc):
        zz = z.copy()
        for a, v in lits: zz.take(a, v)
        # conditions left in p do not influence the values; they may still be impossible
        if not zz.feasible() or not feasible_cases(p, zz): continue
        out.append((p, lits))
    return out

def fitting(c):
    """c and every checked arithmetic operation it depends on being in range"""
    while True:
        n = TRUE
        for a in atoms_of(c):
            if a.op == 'fits': n = and_(n, a)
            elif arith_atom(a): n = and_(n, not_(a))
        c2 = and_(c, n)
        if c2 is c: return c
        c = c2

def feasible_cases(c, z):
    """cases of a condition that the order constraints allow: list of literal lists (at most one is returned)"""
    res = []
    def go(c, lits, zz):
        if res or c is FALSE: return
        if c is TRUE:
            res.append(lits); return
        a = terms.root(c)
        for v in (True, False):
            z2 = zz.copy().take(a, v)
            if not z2.feasible(): continue
            go(settle(restrict(c, a if v else not_(a)), lits + [(a, v)]), lits + [(a, v)], z2)
    go(c, [], z)
    return res

# ------------------------------------------------------------------ rebalancing and rotation

def shapes():
    """(name, node) for every balance situation an insertion can create: children of height up to 4, off by at most two"""
    def kid(k, w, lean):
        """child of height w: leaf, opaque, or expanded with its children's heights (and the inner pivot expanded too)"""
        if w == 0: return None
        if w == 1: return leaf(k)
        if lean is None: return subtree(k, w)
        l, r = lean
        def grand(g, h, pivot):
            if h == 1 or not pivot: return subtree(g, h)
            return None
        a, b = subtree(k + 1, l), subtree(k + 2, r)
        return inner(k, a, b)
    out = []
    for l in range(0, 5):
        for r in range(0, 5):
            if l == r == 0 or l == 0 and r > 1: continue
            if abs(l - r) <= 1: out.append(('heights %d and %d' % (l, r), inner(10, subtree(20, l) if l else None, subtree(30, r) if r else None), 'balanced'))
    for h in range(1, 4):                       # right child two higher
        for a, b in ((h, h + 1), (h + 1, h + 1)):
            out.append(('right too high (%d; %d,%d)' % (h, a, b), inner(10, subtree(20, h), inner(30, subtree(31, a), subtree(32, b))), 'right'))
            out.append(('left too high (%d; %d,%d)' % (h, b, a), inner(10, inner(20, subtree(21, b), subtree(22, a)), subtree(30, h)), 'left'))
        for x, y in ((h, h), (h - 1, h), (h, h - 1)):
            if h > 1 and 0 in (x, y): continue
            px = lambda k: inner(k, subtree(k * 10 + 1, x), subtree(k * 10 + 2, y)) if x and y else None
            if px(1) is None: continue
            out.append(('right too high, inner (%d; %d+%d,%d)' % (h, x, y, h), inner(10, subtree(20, h), inner(30, px(31), subtree(32, h))), 'right inner'))
            out.append(('left too high, inner (%d; %d,%d+%d)' % (h, h, x, y), inner(10, inner(20, subtree(21, h), px(22)), subtree(30, h)), 'left inner'))
    # the same on subtrees of any height
    def at(k, w):
        n = subtree(k, add(DEEP, num(w + 1)))
        n.below = add(DEEP, num(w))
        return n
    for l, r in ((1, 1), (1, 2), (2, 1)): out.append(('any heights h+%d and h+%d' % (l, r), inner(10, at(20, l), at(30, r)), 'balanced'))
    for a, b in ((1, 2), (2, 2)):
        out.append(('right too high by two (any height; %d,%d)' % (a, b), inner(10, at(20, 1), inner(30, at(31, a), at(32, b))), 'right'))
        out.append(('left too high by two (any height; %d,%d)' % (b, a), inner(10, inner(20, at(21, b), at(22, a)), at(30, 1)), 'left'))
    for x, y in ((1, 1), (0, 1), (1, 0)):
        px = lambda k: inner(k, at(k * 10 + 1, x), at(k * 10 + 2, y))
        out.append(('right too high, inner (any height; %d+%d)' % (x, y), inner(10, at(20, 1), inner(30, px(31), at(32, 1))), 'right inner'))
        out.append(('left too high, inner (any height; %d+%d)' % (x, y), inner(10, inner(20, at(21, 1), px(22)), at(30, 1)), 'left inner'))
    return out

def rebalanced(A, n, name, d, side):
    """rebalance of n as root (side None) or as a child of node 5"""
    def go():
        E = free(A)
        w = World(E)
        recs = plant(E, w, n, d, None if side is None else 5, stale=(10,))
        if side is not None:
            p = with_(record(E, inner(5, None, None), d, 1), 'left', opt(10 if side == 'left' else 9))
            p = with_(p, 'right', opt(10 if side == 'right' else 9))
            p = with_(p, 'node_type', INP('parent.sums'))
            w.put('nodes', tup(TICK, PARENT), p); recs[5] = p
        w.put('tree', tup(TICK, st(dirname(d))), num(10 if side is None else 1))
        stale = with_(with_(recs[10], 'left', INP('memory.left')), 'right', INP('memory.right'))
        stale = with_(with_(stale, 'parent', INP('memory.parent')), 'node_type', INP('memory.sums'))
        R = method(E, REBALANCE, 'rebalance[%s,%s%s]' % (name, dirname(d), '' if side is None else ',%s child' % side), w, {'self': stale}, ['&self', STORAGE])
        R.recs = recs
        return R
    return A.get(('rebalance', name, dirname(d), side), go)

def keys_of(n): return [n.key] + [k for x in (n.left, n.right) if x for k in keys_of(x)]

def all_rebalanced(A):
    for name, n, kind in shapes():
        for d, side in ((BID, None), (ASK, None), (BID, 'left'), (ASK, 'right')):
            yield name, n, kind, d, side, rebalanced(A, n, name, d, side)

def rebalance_rules(A, C, what):
    for name, n, kind, d, side, R in all_rebalanced(A):
        C.use(R)
        z = node_zone(Zone(), n)
        front = [x.key for x in frontier(n)]
        keys = keys_of(n) + [5]
        found = False
        ok = fitting(R.ok)
        failing = in_range(and_(R.pc, not_(isvar(R.ret, 'Ok'))))
        if 'links' in what:
            C.check(not feasible_cases(failing, z), 'restoring the balance never fails', R.name, lambda: 'fails when ' + cases_of(feasible_cases(failing, z)[0]))
        for p, lits in cases(ok, z, [fld_ for k in keys for fld_ in final(R, 'nodes', tup(TICK, num(k)), ok)]):
            zz = z.copy()
            for a, v in lits: zz.take(a, v)
            found = True
            V = View(R, keys, lits, p)
            try:
                root = 10
                if side is not None:
                    pv = V.n.get(5)
                    if pv is None: raise Broken('the parent is not stored')
                    root = concrete(fld(pv, side), 'child of the parent')
                    other = 'right' if side == 'left' else 'left'
                    if 'links' in what:
                        C.check(fld(pv, other) is opt(9) and fld(pv, 'parent') is opt(1) and fld(pv, 'key') is PARENT, "the parent's other links stay", R.name, clip(show(pv, 4)))
                        e, tr = final(R, 'tree', tup(TICK, st(dirname(d))), p)
                        C.check(tr is num(1), 'the root pointer stays while the root does', R.name, show(tr, 4))
                else:
                    e, tr = final(R, 'tree', tup(TICK, st(dirname(d))), p)
                    tr = settle(tr, lits)
                    if tr.op != 'num': raise Broken('root pointer is ' + clip(show(tr, 4), 120))
                    root = int(nval(tr))
                out, checks = [], []
                walk(V, root, None if side is None else 5, set(front), d, out, checks)
                if 'links' in what:
                    C.check(out == front, 'rebalancing keeps every record, in order', R.name, 'order %s, must be %s' % (out, front))
                    for k in front:
                        C.ob('rebalancing only moves records', '%s: node %d' % (R.name, k))
                        a, b = with_(V.n[k], 'parent', NONE), with_(R.recs[k], 'parent', NONE)
                        if a is not b: C.bad('rebalancing only moves records', '%s: node %d' % (R.name, k), 'changed to ' + clip(show(a, 5), 200))
                    C.check(settle(restrict(R.out['self'], p), lits) is V.n[10], 'the node in hand equals the stored one', R.name, lambda: 'in hand %s, stored %s' % (clip(show(settle(restrict(R.out['self'], p), lits), 6), 300), clip(show(V.n[10], 6), 300)))
                if 'sums' in what:
                    summed(C, V, checks, 'every node carries the sum, range and height of what is below it', R.name, zz)
                if 'balance' in what:
                    for key, l, r in checks:
                        hs = [stats(V.n[x])[3] if x is not None else ZERO for x in (l, r)]
                        C.ob('no branch is more than one level deeper than its sibling', '%s: node %d' % (R.name, key))
                        gap = sub(*hs)
                        if not isnum(gap) or abs(nval(gap)) > 1:
                            C.bad('no branch is more than one level deeper than its sibling', '%s: node %d' % (R.name, key), 'heights %s and %s' % (show(hs[0]), show(hs[1])))
                    if kind == 'balanced': C.check([k for k, l, r in checks] == [10], 'a balanced node is not rotated', R.name)
            except Broken as x:
                if 'links' in what: C.bad('the tree stays linked', R.name, str(x))
            if 'links' in what:
                ok = {tup(TICK, num(k)).id for k in keys}
                for k, g in touched_keys(R, 'nodes', p): C.check(k.id in ok, 'rebalancing touches only the nodes around', R.name, show(k, 4))
                for e in R.effects:
                    if e.kind in ('save', 'remove') and e.ns not in ('nodes', 'tree') and and_(e.pc, p) is not FALSE: C.bad('rebalancing touches only the tree', R.name, e.ns, e.span)
                    if e.kind == 'remove' and and_(e.pc, p) is not FALSE: C.bad('rebalancing keeps every record, in order', R.name, 'removes a node', e.span)
        if 'links' in what: C.check(found, 'restoring the balance never fails', R.name, 'no accepted case')

def touched_keys(R, ns, pc):
    return [(e.key, e.pc) for e in R.effects if e.kind in ('save', 'remove') and e.ns == ns and and_(e.pc, pc) is not FALSE]

@prop('T03')
def sums(A, C): rebalance_rules(A, C, ('sums',))

@prop('T02')
def rotation(A, C): rebalance_rules(A, C, ('links',))

@prop('T05')
def balance(A, C): rebalance_rules(A, C, ('balance',))

# ------------------------------------------------------------------ insertion

def kinds(k): return [None, leaf(k), subtree(k, 2), subtree(k, tall(k))]

def called(n): return 'none' if not n else n.kind + ('' if isnum(n.weight) else ' of any height')

def inserted(A, l, r, d, parent):
    def go():
        E = engine(A)
        n = inner(10, l, r)
        new = leaf(40)
        w = World(E)
        if l or r: recs = plant(E, w, n, d, parent)
        else:
            recs = {10: record(E, n, d, parent)}
            w.absent('nodes', tup(TICK, SELF))
        recs[40] = record(E, new, d, None)
        w.absent('nodes', tup(TICK, num(40))).absent('nodes', tup(TICK, num(COUNTER + 1)))
        w.put('node_id', TICK, num(COUNTER))
        w.put('tree', tup(TICK, st(dirname(d))), num(10 if parent is None else 1))
        name = 'insert[%s,%s,%s%s]' % (called(l), called(r), dirname(d), '' if parent is None else ',inside')
        R = method(E, INSERT, name, w, {'self': recs[10], 'new': recs[40]}, ['&self', STORAGE, '&new'])
        R.recs, R.tree, R.new = recs, n, new
        return R
    return A.get(('insert', called(l), called(r), dirname(d), parent), go)

def placements(n, new):
    """ways the new interval can lie relative to the existing ones: [(description, zone)]"""
    base = node_zone(Zone(), n).lt(new.lo, new.hi)
    out = [('', base)]
    for x in frontier(n):
        if x.key == 10: continue
        nxt = []
        for s, z in out:
            nxt.append((s + ' before %d' % x.key, z.copy().le(new.hi, x.lo)))
            nxt.append((s + ' after %d' % x.key, z.copy().le(x.hi, new.lo)))
            if x.kind == 'sub': nxt.append((s + ' inside %d' % x.key, z.copy().lt(x.lo, new.lo).lt(new.hi, x.hi)))
        out = [(s, z) for s, z in nxt if z.feasible()]
    return out

@prop('T01')
def insertion(A, C):
    for l, r in itertools.product(kinds(20), kinds(30)):
        if r and not l: continue                 # never arises: nodes fill left first, nothing is removed
        for d, parent in ((BID, None), (ASK, 5)):
            R = C.use(inserted(A, l, r, d, parent))
            n, new = R.tree, R.new
            front = [x for x in frontier(n) if x.key != 10]
            byk = {x.key: x for x in front}; byk[40] = new
            ok = fitting(R.ok)
            failing = in_range(and_(R.pc, not_(isvar(R.ret, 'Ok'))))
            recs_ = [x for x in R.effects if x.kind == 'call' and x.ns in (INSERT, REBALANCE)]
            oks = TRUE                            # the callee's own failure is passed on
            for e in recs_: oks = and_(oks, or_(not_(e.pc), isvar(e.val, 'Ok')))
            for how, z in placements(n, new):
                w = R.name + how
                f = feasible_cases(and_(failing, in_range(oks)), z)
                C.check(not f, 'every cancellation finds its place', w, lambda: 'fails when ' + cases_of(f[0]))
                vals_ = [x for k in list(byk) + [10, COUNTER + 1] for x in final(R, 'nodes', tup(TICK, num(k)), ok)]
                vals_ += [ite(e.pc, num(i), num(-1)) for i, e in enumerate(recs_)]
                vals_ += [ite(e.pc, fld(x, 'key'), num(-1)) for e in recs_ if e.key is not None for x in (e.key.a[3][:1] if e.key.op == 'agg' and e.key.a[0] == 'tuple' else [e.key])]
                got = cases(ok, z, vals_)
                C.check(bool(got), 'every cancellation finds its place', w, 'no accepted case')
                for p, lits in got:
                    zz = z.copy()
                    for a, v in lits: zz.take(a, v)
                    try: one_insert(C, R, n, new, front, d, parent, p, lits, zz, w)
                    except Broken as x: C.bad('the new record is linked in order', w, str(x))

def one_insert(C, R, n, new, front, d, parent, p, lits, z, w):
    live = [e for e in R.effects if settle(restrict(e.pc, p), lits) is not FALSE and and_(e.pc, p) is not FALSE]
    down = [e for e in live if e.kind == 'call' and e.ns == INSERT]
    reb = [e for e in live if e.kind == 'call' and e.ns == REBALANCE]
    V = View(R, [x.key for x in front] + [10, 40, COUNTER + 1], lits, p)
    opaque = {x.key for x in front} | {40}
    out, checks = [], []
    walk(V, 10, parent, opaque, d, out, checks)
    if down:
        if len(down) != 1: raise Broken('%d insertions below' % len(down))
        c, nn = down[0].key.a[3][0], down[0].key.a[3][1]
        c = settle(restrict(c, p), lits)
        k = int(nval(fld(c, 'key')))
        C.check(k in [x.key for x in front if x.kind == 'sub'] and c is R.recs[k], 'the record goes on into a stored subtree', w, clip(show(c, 4)))
        same_ = with_(settle(restrict(nn, p), lits), 'parent', NONE) is with_(R.recs[40], 'parent', NONE)
        C.check(same_, 'the record itself is passed on unchanged', w, clip(show(nn, 5)))
        C.check(out == [x.key for x in front], 'existing records keep their order', w, str(out))
        C.check(40 not in V.n, 'the record is linked once', w)
        i = out.index(k)
        before, after = out[:i], out[i + 1:]
    else:
        if 40 not in out: raise Broken('the new record is not linked')
        C.check([k for k in out if k != 40] == [x.key for x in front], 'existing records keep their order', w, str(out))
        i = out.index(40)
        before, after = out[:i], out[i + 1:]
        C.check(with_(V.n[40], 'parent', NONE) is with_(R.recs[40], 'parent', NONE), 'the record is stored as cancelled', w, clip(show(V.n[40], 5)))
        C.check(settle(restrict(R.out['new'], p), lits) is V.n[40], 'the record in hand equals the stored one', w)
    by = {x.key: x for x in front}
    for k in before: C.check(z.knows_le(by[k].hi, new.lo), 'records to the left lie before the new one', w, 'node %d is left of the new record' % k)
    for k in after: C.check(z.knows_le(new.hi, by[k].lo), 'records to the right lie after the new one', w, 'node %d is right of the new record' % k)
    for x in front:
        C.check(with_(V.n[x.key], 'parent', NONE) is with_(R.recs[x.key], 'parent', NONE), 'other records are only moved', '%s: node %d' % (w, x.key))
    # nodes made on the way are complete; the node itself is brought up to date by the rebalancing that follows
    summed(C, V, checks, 'a node made for the new record carries sum, range and height', w, z, skip=(10,))
    C.check(len(reb) == 1 and fld(settle(restrict(reb[0].key.a[3][0] if reb[0].key.a[0] == 'tuple' else reb[0].key, p), lits), 'key') is SELF,
            'the node is brought up to date after the insertion below it', w, '%d updates' % len(reb))
    if reb:
        late = [e for e in live if e.kind in ('save', 'remove') and e.seq > reb[0].seq]
        C.check(not late and all(e.seq < reb[0].seq for e in down), 'the node is brought up to date last', w, lambda: 'later write at ' + late[0].span if late else '')
    made = [k for k, l_, r_ in checks if k != 10]
    e, c = final(R, 'node_id', TICK, p)
    C.check(settle(c, lits) is num(COUNTER + len(made)) and set(made) <= {COUNTER + 1}, 'new nodes take fresh numbers', w, show(c, 4))
    okk = {tup(TICK, num(k)).id for k in opaque | {10, COUNTER + 1}}
    for e in live:
        if e.kind in ('save', 'remove') and (e.ns not in ('nodes', 'node_id') or e.ns == 'nodes' and settle(restrict(e.key, p), lits).id not in okk or e.kind == 'remove'):
            C.bad('an insertion touches only its path', w, '%s %s[%s]' % (e.kind, e.ns, show(e.key, 4)), e.span)

# ------------------------------------------------------------------ roots and node numbers

@prop('T06')
def roots(A, C):
    E = free(A)
    for d in (BID, ASK):
        key = tup(TICK, st(dirname(d)))
        other = tup(TICK, st(dirname(opp(d))))
        # an existing tree
        n = inner(10, leaf(20), leaf(30))
        w = World(E); recs = plant(E, w, n, d, None); w.put('tree', key, SELF).put('node_id', TICK, num(COUNTER))
        R = C.use(method(E, TREE_ROOT, 'root[existing,%s]' % dirname(d), w, {}, [STORAGE, TICK, d]))
        R._ok = in_range(R.ok)
        accepts(C, R, TRUE, 'an existing tree is found', R.name)
        C.eq(R, R.okval, recs[10], 'an existing tree is returned by its stored root', R.name)
        for ns in ('tree', 'nodes', 'node_id'): unchanged(C, R, ns, 'looking up a tree changes nothing')
        # none yet
        w = World(E).absent('tree', key); w.put('node_id', TICK, num(COUNTER))
        R = C.use(method(E, TREE_ROOT, 'root[none yet,%s]' % dirname(d), w, {}, [STORAGE, TICK, d]))
        R._ok = in_range(R.ok)
        accepts(C, R, TRUE, 'a tree is started when there is none', R.name)
        t = fld(R.okval, 'node_type')
        C.eq(R, isvar(t, 'Internal'), TRUE, 'a new root has no records', R.name)
        C.eq(R, pl(t, 'Internal', 'accumulator'), ZERO, 'a new root has no records', R.name + ': sum')
        for f, v in (('key', num(COUNTER + 1)), ('tick_id', TICK), ('direction', d), ('left', NONE), ('right', NONE), ('parent', NONE)):
            C.eq(R, fld(R.okval, f), v, 'a new root is empty and belongs to its tick and side', R.name + ': ' + f)
        e, v = final(R, 'tree', key)
        C.eq(R, ite(e, v, mk('missing')), num(COUNTER + 1), 'the root pointer names the new root', R.name, span=span_of(R, 'tree'))
        only_keys(C, R, 'tree', [key], 'only the own root pointer is set')
        e, v = final(R, 'node_id', TICK)
        C.eq(R, v, num(COUNTER + 1), 'node numbers are never reused', R.name, span=span_of(R, 'node_id'))
        unchanged(C, R, 'nodes', 'starting a tree stores no records')
    c = INP('node.counter'); INT.add(c.id)
    w = World(E).put('node_id', TICK, c)
    R = C.use(method(E, 'sumtree::node::generate_node_id', 'node number', w, {}, [STORAGE, TICK]))
    C.eq(R, R.okval, add(c, ONE), 'node numbers are never reused', R.name)
    C.eq(R, final(R, 'node_id', TICK)[1], add(c, ONE), 'node numbers are never reused', R.name + ': stored')
    w = World(E).absent('node_id', TICK)
    R = C.use(method(E, 'sumtree::node::generate_node_id', 'first node number', w, {}, [STORAGE, TICK]))
    C.eq(R, R.okval, ONE, 'node numbers are never reused', R.name)
    C.eq(R, final(R, 'node_id', TICK)[1], ONE, 'node numbers are never reused', R.name + ': stored')
