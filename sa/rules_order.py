"""Cancellation and claims."""
from session import *

DIRS = (BID, ASK)
INSERT = 'sumtree::node::TreeNode::insert'
NO_FUNDS = eq(mk('len', fld(INFO, 'funds')), ZERO)

def synced(R, d=None, f=ETAS):
    """the tick's value after the sync performed by the call"""
    return fld(mk('sync', R.sync[0].val, dirname(d or R.dir)), f)

def one_sync(C, R, rule):
    """the sync the call performs, on the order's tick with the tick's own swapped amounts"""
    ss = R.sync
    if not C.check(len(ss) == 1, rule, R.name, 'the call synchronises the tick %d times' % len(ss)): return False
    k = ss[0].key
    w = R.w
    want = [TICK, fld(vals(w.ts, BID), ETAS), fld(vals(w.ts, ASK), ETAS)]
    got = [fld(k, str(i)) for i in range(3)]
    ok = True
    for g, x, n in zip(got, want, ('tick', 'bid target', 'ask target')):
        ok &= C.eq(R, g, x, rule, '%s: %s' % (R.name, n), pc=ss[0].pc, span=ss[0].span)
    return ok

def internal(R, t, extra=()):
    """t given that the internal tree operations succeed"""
    while True:
        n = TRUE
        for a in atoms_of(t):
            if a.op == 'isvar' and a.a[0].op == 'call' and a.a[0].a[0] != SYNC: n = and_(n, a)
        if n is TRUE: return t
        t2 = restrict(t, n)
        if t2 is t: return t
        t = t2

def cancels(A): return [cancel(A, d, bounty=b) for d in DIRS for b in (True, False)]

@prop('N01')
def cancel_when(A, C):
    rule = 'a cancel is accepted exactly when the owner cancels an order of which nothing is filled'
    for R in cancels(A):
        C.use(R)
        if not one_sync(C, R, 'the tick is synchronised before deciding'): continue
        o = R.o; v = vals(R.w.ts, R.dir)
        good = conj(le(fld(o, 'quantity'), fld(v, TAL)), le(fld(o, 'quantity'), R.w.liq))
        R._ok = internal(R, in_range(R.ok))
        want = conj(NO_FUNDS, eq(SENDER, fld(o, 'owner')), isvar(R.sync[0].val, 'Ok'), le(synced(R), fld(o, 'etas')))
        accepts(C, R, want, rule, R.name, pre=good)
    for d in DIRS:
        E = A.ES
        m = msg(E, 'ExecuteMsg::CancelLimit')
        w = book(World(E).active(), False).tick(TICK).absent('orders', tup(TICK, OID))
        rejects(C, C.use(execute(E, m, 'CancelLimit[no such order]', w)), 'an order that does not exist cannot be cancelled', 'CancelLimit[no such order]')
        w = book(World(E).active(), False).absent('tick_state', TICK).order(TICK, OID, d, True)
        rejects(C, C.use(execute(E, m, 'CancelLimit[no tick]', w)), 'an order on an unknown tick cannot be cancelled', 'CancelLimit[no tick]')

@prop('N02')
def refund(A, C):
    for R in cancels(A):
        C.use(R)
        o = R.o
        same_payments(C, R, vec(pay(fld(o, 'owner'), R.denom, fld(o, 'quantity'))), 'a cancel pays the owner exactly the remaining quantity of the deposited token', R.name)
        e, _ = final(R, 'orders', tup(TICK, OID))
        C.eq(R, e, FALSE, 'a cancelled order no longer exists', R.name, span=span_of(R, 'orders'))
        only_keys(C, R, 'orders', [tup(TICK, OID)], 'a cancel touches no other order')

@prop('N03')
def cancelled_leaf(A, C):
    for R in cancels(A):
        C.use(R)
        o = R.o
        ins = calls(R, INSERT)
        if not C.check(len(ins) == 1, 'the cancelled amount is entered into the tree once', R.name, '%d insertions into the cancellation tree' % len(ins)): continue
        e = ins[0]
        # arguments: root node (by reference), new leaf
        args = [fld(e.key, n) for n in e.key.a[2]]
        nodes = [a for a in args if is_node(a, R.ok)]
        if not C.check(len(nodes) == 2, 'tree insertion takes the root and the new node', R.name, 'arguments not recognised'): continue
        root, leaf = nodes
        base = restrict(leaf, R.ok)
        C.eq(R, fld(leaf, 'tick_id'), TICK, "the cancelled amount goes to the order's tick", R.name + ': leaf.tick_id', span=e.span)
        C.eq(R, fld(leaf, 'direction'), R.dir, "the cancelled amount goes to the order's side", R.name + ': leaf.direction', span=e.span)
        nt = fld(leaf, 'node_type')
        C.eq(R, isvar(nt, 'Leaf'), TRUE, 'the cancelled amount is a leaf', R.name, span=e.span)
        C.eq(R, pl(nt, 'Leaf', 'value'), fld(o, 'quantity'), 'the leaf carries exactly the cancelled quantity', R.name + ': leaf.value', span=e.span)
        C.eq(R, pl(nt, 'Leaf', 'etas'), fld(o, 'etas'), "the leaf sits at the order's queue position", R.name + ': leaf.etas', span=e.span)
        for f in ('left', 'right', 'parent'):
            C.eq(R, fld(leaf, f), NONE, 'the leaf starts unlinked', R.name + ': leaf.' + f, span=e.span)
        # the root is the stored root of the same side (or a fresh one installed as such)
        C.eq(R, fld(root, 'tick_id'), TICK, "the root belongs to the order's tick", R.name + ': root.tick_id', span=e.span)
        pre = dict(zip(sorted(R.E.namespaces_of(e.extra)), e.val.a[2]))
        if not C.check('tree' in pre and 'node_id' in pre, 'the tree insertion reaches the stored tree', R.name, str(sorted(pre))): continue
        key = tup(TICK, st(dirname(R.dir)))
        # at the insertion: root.key is the stored root key
        te, tv = s_get(pre['tree'], 'tree', key)
        C.eq(R, te, TRUE, 'the tree of that side has a stored root', R.name, span=e.span)
        C.eq(R, tv, fld(root, 'key'), "the root is the stored root of the order's side", R.name + ': tree', span=e.span)
        # node ids: fresh and persisted
        ne, nv = s_get(pre['node_id'], 'node_id', TICK)
        C.eq(R, nv, fld(leaf, 'key'), 'the node counter ends at the new node id', R.name + ': node_id', span=e.span)
        C.check(fresh_id(R, fld(leaf, 'key'), nv), 'the new node id is the counter plus one', R.name + ': leaf.key', lambda: show(fld(leaf, 'key'), 6), e.span)
        # the updated root is persisted
        ws = [x for x in R.effects if x.kind == 'save' and x.ns == 'nodes']
        out = mk('out', e.val, args.index(root))
        found = False
        for x in ws:
            if and_(x.pc, R.ok) is not FALSE and implies(R.ok, x.pc) and restrict(x.val, R.ok) is out: found = True
        C.check(found, 'the updated root is stored back', R.name, 'no save of the root after the insertion', e.span)

def is_node(t, pc):
    t = restrict(t, pc)
    if t.op == 'ite': return is_node(t.a[1], pc) and is_node(t.a[2], pc)
    if t.op == 'agg': return t.a[0].endswith('TreeNode')
    if t.op == 'with': return is_node(t.a[0], pc)
    return t.op == 'val' and t.a[1] == 'nodes' or t.op == 'out'

def fresh_id(R, key, counter):
    """key is (a counter value) + 1 on every path"""
    for t, p, lits in leaves(key, R.ok):
        m, c = lin_parts(t)
        if c < 1 or len(m) > 1 or any(k != 1 or x.op != 'val' or x.a[1] != 'node_id' for x, k in m.items()): return False
    return True

# --------------------------------------------------------------------------- claims

def claims(A, full=True):
    return [claim(A, d, b, f) for d in DIRS for b in (True, False) for f in (True, False)]

def claim_spec(R):
    """(filled, gross payout, bounty, fee) a claim must use"""
    o = R.o
    S = synced(R)
    F = mk_min(fld(o, 'quantity'), sub(S, fld(o, 'etas')))
    P = pl(price_call(R), 'Ok', '0')
    raw = floor(div(F, P)) if R.dir is BID else floor(mul(F, P))
    nz = not_(eq(raw, ZERO))
    b = fld(o, 'claim_bounty')
    bounty = ZERO if b is NONE else floor(mul(raw, pl(b, 'Some', '0')))
    fee = ZERO if R.w.fee is None else floor(mul(raw, R.w.fee))
    return F, raw, bounty, fee

def price_call(R): return mk('call', TICK_TO_PRICE, (TICK,), ())

def sane(R):
    """fees fit into the payout (bounty at most 1 %, maker fee at most 5 %)"""
    F, raw, bounty, fee = claim_spec(R)
    P = pl(price_call(R), 'Ok', '0')
    # (prices of supported ticks are positive: M02; stored orders have a positive remainder: P02, K01)
    return conj(not_(eq(P, ZERO)), not_(eq(fld(R.o, 'quantity'), ZERO)), le(bounty, raw), le(add(bounty, fee), raw), or_(eq(raw, ZERO), not_(eq(raw, bounty))))

@prop('K01')
def claim_fill(A, C):
    for R in claims(A):
        C.use(R)
        if not one_sync(C, R, 'the tick is synchronised before claiming'): continue
        o = R.o
        S = synced(R)
        F, raw, bounty, fee = claim_spec(R)
        P = price_call(R)
        R._ok = in_range(R.ok)
        pre = sane(R)
        want = conj(NO_FUNDS, isvar(R.sync[0].val, 'Ok'), lt(fld(o, 'etas'), S), isvar(P, 'Ok'))
        accepts(C, R, want, 'a claim is accepted exactly when part of the order is filled and unclaimed', R.name, pre=pre)
        k = tup(TICK, OID)
        e, v = final(R, 'orders', k)
        rest = sub(fld(o, 'quantity'), F)
        C.eq(R, e, not_(eq(rest, ZERO)), 'an order is removed exactly when it is fully claimed', R.name, span=span_of(R, 'orders'))
        pc = and_(R.ok, e)
        C.eq(R, fld(v, 'quantity'), rest, 'the remaining quantity drops by exactly the filled amount', R.name + ': quantity', pc=pc, span=span_of(R, 'orders'))
        C.eq(R, fld(v, 'etas'), add(fld(o, 'etas'), F), "the order's queue position advances by exactly the claimed amount", R.name + ': etas', pc=pc, span=span_of(R, 'orders'))
        only_keys(C, R, 'orders', [k], 'a claim touches no other order')
    for d in DIRS:
        E = A.ES
        m = msg(E, 'ExecuteMsg::ClaimLimit')
        w = book(World(E).active(), False).tick(TICK).absent('orders', tup(TICK, OID))
        rejects(C, C.use(execute(E, m, 'ClaimLimit[no such order]', w)), 'an order that does not exist cannot be claimed', 'ClaimLimit[no such order]')
        w = book(World(E).active(), False).absent('tick_state', TICK).order(TICK, OID, d, True)
        rejects(C, C.use(execute(E, m, 'ClaimLimit[no tick]', w)), 'an order on an unknown tick cannot be claimed', 'ClaimLimit[no tick]')

def claim_payments(R, label=lambda p, kind: p):
    """payments a claim makes, by case"""
    o = R.o
    F, raw, bounty, fee = claim_spec(R)
    nz = lambda x: not_(eq(x, ZERO))
    owner = sub(sub(raw, bounty), fee)
    return cat(cat(when(nz(owner), label(pay(fld(o, 'owner'), R.other, owner), 'claim')),
                   when(nz(bounty), label(pay(SENDER, R.other, bounty), 'bounty')) if bounty is not ZERO else EMPTY),
               when(nz(fee), label(pay(R.w.rcpt, R.other, fee), 'fee')) if fee is not ZERO else EMPTY)

@prop('K02')
def claim_split(A, C):
    for R in claims(A):
        C.use(R)
        if not one_sync(C, R, 'the tick is synchronised before claiming'): continue
        pc = and_(R.ok, sane(R))
        same_payments(C, R, claim_payments(R), 'the claimed value is split between owner, claimer bounty and maker fee as configured', R.name, pc=pc)
    for d in DIRS:
        R = C.use(claim(A, d, True, True, False))
        F, raw, bounty, fee = claim_spec(R)
        R._ok = in_range(R.ok)
        accepts(C, R, FALSE, 'a claim that owes a maker fee is refused while no fee recipient is set', R.name, pre=conj(sane(R), not_(eq(fee, ZERO))))

@prop('K03')
def claim_conserves(A, C):
    for R in claims(A):
        C.use(R)
        if len(R.sync) != 1: C.check(False, 'tick sync', R.name); continue
        F, raw, bounty, fee = claim_spec(R)
        P = pl(price_call(R), 'Ok', '0')
        rule = 'the payouts of a claim never add up to more than the value of the filled amount rounded down'
        C.ob(rule, R.name)
        lst = payments(fld(R.okval, 'messages'), R.ok)
        for t, p, lits in leaves(tup(lst, raw), and_(R.ok, sane(R))):
            l, r = t.a[3]
            tot = ZERO; okd = True
            for q in explode(l) if islist(l) else [l]:
                x = q.a[0]
                if x.op == 'agg' and fld(x, '0') is st('pay') and fld(x, '3') is R.other and fld(x, '1') is CONTRACT: tot = add(tot, fld(x, '4'))
                else: okd = False
            d = reduce_lin(sub(tot, r), [sub(a.a[0], a.a[1]) for a, v in lits if v and a.op == 'eq' and numeric(a.a[0]) and numeric(a.a[1])])
            if not okd or not (d is ZERO or tot is ZERO):
                C.bad(rule, R.name, 'pays %s in total for a claim worth %s (when %s)' % (clip(show(tot, 6)), clip(show(r, 6)), clip(cases_of(lits), 200))); break

def reduce_lin(d, zeros):
    """d modulo terms known to be zero"""
    size = lambda t: 0 if t is ZERO else len(t.a[0]) + (t.a[1] != 0) if t.op == 'lin' else 1
    ch = True
    while ch:
        ch = False
        for z in zeros:
            for k in (1, -1):
                e = add(d, z, k)
                if size(e) < size(d): d = e; ch = True
    return d

@prop('K04')
def batch_claims(A, C):
    R = C.use(batch(A))
    n = mk('len', fld(R.m, 'orders'))
    L = batch_loop(C, R)
    if L is None: return
    info, it, msgs, evs, x, S1 = L
    requires(C, R, NO_FUNDS, 'a batch carries no funds', R.name)
    requires(C, R, le(n, num(100)), 'a batch holds at most 100 orders', R.name)
    accepts(C, R, and_(NO_FUNDS, le(n, num(100))), 'a batch without funds that is short enough is carried out', R.name)
    rule = 'each order of a batch is claimed exactly as an individual claim would be'
    ok = S1.ok
    pc = info['back_pc']
    def cmp(var, want, what, pc=pc):
        C.ob(rule, what)
        got = info['vars'][var][1] if var in info['vars'] else None
        if got is None: C.bad(rule, what, 'no such loop state'); return
        d = same(got, want, pc)
        if d: C.bad(rule, what, 'one step gives %s, a single claim gives %s (when %s)' % (clip(show(d[0], 6)), clip(show(d[1], 6)), clip(cases_of(d[2]), 300)), info['span'])
    cmp(msgs, cat(msgs, ite(ok, restrict(fld(S1.okval, 'messages'), ok), EMPTY)), 'payouts')
    cmp(evs, cat(evs, ite(ok, restrict(fld(S1.okval, 'events'), ok), EMPTY)), 'events')
    for v, (i, n_) in info['vars'].items():
        if v.a[3].startswith("('NS'"):
            ns = v.a[1]
            cmp(v, S1.st.cont.get(ns, v), 'effect on ' + ns, pc=and_(pc, ok))
    for ns in S1.st.cont:
        if not any(v.a[3].startswith("('NS'") and v.a[1] == ns for v in info['vars']):
            C.check(writes(S1, ns) == [], rule, 'effect on ' + ns, 'a single claim changes it, the batch does not')
    # the response carries the accumulated payouts and events
    for n_, v in (('messages', msgs), ('events', evs)):
        if v.a[0] != 'fused': C.eq(R, fld(R.okval, n_), v, 'the response carries every payout' if n_ == 'messages' else 'the response carries every event', R.name)

@prop('K05')
def batch_failures(A, C):
    R = C.use(batch(A))
    L = batch_loop(C, R)
    if L is None: return
    info, it, msgs, evs, x, S1 = L
    rule = 'an order of a batch whose claim fails keeps its state and pays nothing'
    bad = and_(info['back_pc'], not_(S1.ok))
    for v, (i, n_) in info['vars'].items():
        what = None
        if v is msgs: what = 'payouts'
        elif v is evs: what = 'events'
        elif v.a[3].startswith("('NS'") and v.a[1] == 'orders': what = 'orders'
        if what:
            C.ob(rule, what)
            d = same(n_, v, bad)
            if d: C.bad(rule, what, 'after a failed claim it becomes %s (when %s)' % (clip(show(d[0], 6)), clip(cases_of(d[2]), 300)), info['span'])
        if v.a[3].startswith("('NS'") and v.a[1] == 'tick_state':
            t = fld(x, '0')
            e0, t0 = s_get(v, 'tick_state', t); e1, t1 = s_get(n_, 'tick_state', t)
            for d in DIRS:
                for f in (TAL, CTT):
                    C.ob(rule, 'tick %s %s' % (dirname(d), f))
                    df = same(fld(vals(t1, d), f), fld(vals(t0, d), f), and_(bad, e0))
                    if df: C.bad(rule, 'tick %s %s' % (dirname(d), f), 'changes to %s' % clip(show(df[0], 5)), info['span'])
        elif v.a[3].startswith("('NS'") and v.a[1] not in ('orders', 'nodes', 'tree', 'node_id'):
            C.bad(rule, v.a[1], 'a batch changes %s' % v.a[1], info['span'])

def batch_loop(C, R):
    rule = 'a batch processes every listed order once'
    orders = fld(R.m, 'orders')
    c = [(l, i) for l, i in R.loops.items() if any(a is mk('iter', orders) for a, b in i['vars'].values())]
    if not C.check(len(c) == 1, rule, R.name, 'the loop over the listed orders was not found'): return None
    info = c[0][1]
    it = next(v for v, (a, b) in info['vars'].items() if a is mk('iter', orders))
    C.check(info['vars'][it][1] is mk('adv', it), rule, R.name, 'orders are not visited one by one', info['span'])
    # no exit before the list is exhausted
    for t, p in info['exits']:
        C.check(implies(in_range(and_(p, R.pc)), not_(mk('hasnext', it))) or and_(in_range(and_(p, R.ok)), mk('hasnext', it)) is FALSE, rule, R.name, 'the loop can stop before the list ends', info['span'])
    msgs = fld(R.okval, 'messages'); evs = fld(R.okval, 'events')
    info = dict(info, vars=dict(info['vars']))
    if msgs not in info['vars']: msgs = fused(C, R, rule, info, it, msgs)
    if evs not in info['vars']: evs = fused(C, R, rule, info, it, evs)
    if not C.check(msgs in info['vars'] and evs in info['vars'] and info['vars'][msgs][0] is EMPTY and info['vars'][evs][0] is EMPTY, rule, R.name, 'the response does not carry what the loop accumulates', info['span']): return None
    x = mk('nx', it)
    return info, it, msgs, evs, x, single(R, info, x)

def fused(C, R, rule, info, it, acc):
    """accumulator of a later loop over what the claiming loop collected: one round of both loops as one"""
    def step_of(src):
        if src not in info['vars'] or info['vars'][src][0] is not EMPTY: return None
        y = models.acc_step(src, restrict(info['vars'][src][1], info['back_pc']))
        return None if y is None or y[0] == 'sum' else Some(y[1]) if y[0] == 'item' else y[1]
    if acc.op in ('lmap', 'lfmap'):
        o = step_of(acc.a[0])
        if o is None: return acc
        f = Some(acc.a[1]) if acc.op == 'lmap' else acc.a[1]
        f = subst(f, {mk('elem', acc.a[0]): pl(o, 'Some', '0')})
        v = mk('lv', 'fused', str(acc.id), (), '')
        x = ite(isvar(o, 'Some'), f, NONE)
        info['vars'][v] = (EMPTY, ite(isvar(x, 'Some'), cat(v, vec(pl(x, 'Some', '0'))), v))
        return v
    for l, j in R.loops.items():
        if acc not in j['vars']: continue
        i0, n2 = j['vars'][acc]
        z = next((v for v, (a, b) in j['vars'].items() if a.op == 'iter' and a.a[0] in info['vars'] and b is mk('adv', v)), None)
        if z is None or i0 is not EMPTY: return acc
        o = step_of(j['vars'][z][0].a[0])
        if o is None: return acc
        body = subst(restrict(n2, j['back_pc']), {mk('nx', z): pl(o, 'Some', '0')})
        if any(v is not acc and occurs(v, body) for v in j['vars']): return acc
        if any(e.kind in ('save', 'remove', 'rawstore') and l in e.loops for e in R.effects): return acc
        for t, p in j['exits']:
            C.check(and_(in_range(and_(p, R.ok)), mk('hasnext', z)) is FALSE, rule, R.name, 'the payouts of some orders are left out', j['span'])
        info['vars'][acc] = (i0, ite(isvar(o, 'Some'), body, acc))
    return acc

def single(R, info, x):
    """ClaimLimit of element x in the state at the loop head"""
    if hasattr(R, '_single'): return R._single
    E = R.E
    w = World(E); w.cont = dict(R.cont0)
    for v in info['vars']:
        if v.a[3].startswith("('NS'"): w.cont[v.a[1]] = v
    m = msg(E, 'ExecuteMsg::ClaimLimit')
    m = with_(with_(m, 'tick_id', fld(x, '0')), 'order_id', fld(x, '1'))
    saved = E.effects, E.loops
    S = execute(E, m, 'ClaimLimit[element]', w, pre=TRUE)
    # the batch itself has already established the absence of funds
    f = NO_FUNDS
    S.ok = restrict(S.ok, f); S.okval = restrict(S.okval, f)
    for ns in S.st.cont: S.st.cont[ns] = restrict(S.st.cont[ns], f)
    R._single = S
    return S
