"""Market orders (sudo swaps) and the swap quote."""
from session import *

DIRS = (BID, ASK)
KINDS = ('SwapExactAmountIn', 'SwapToTick')

def swaps(A): return [swap(A, d, k) for d in DIRS for k in KINDS]

class Loop: pass

def tick_range(t):
    """the storage range term underlying an iterator"""
    while t.op in ('iter', 'lmap', 'ltake', 'lfilter', 'lskip', 'iseen', 'iwhile', 'imwhile', 'imap'):
        t = t.a[0]
    return t if t.op == 'range' and t.a[1].op == 'map' and t.a[1].a[0] == 'tick_state' else None

def fills(C, R, rule='the swap walks the ticks of the opposite side'):
    """the fill loop of a market order, with its state variables identified by how they start and what they feed"""
    if hasattr(R, '_fills'): return R._fills
    R._fills = None
    cand = [(l, i, v, tick_range(a)) for l, i in R.loops.items() for v, (a, b) in i['vars'].items() if tick_range(a) is not None]
    if not C.check(len(cand) == 1, rule, R.name, '%d loops over the stored ticks' % len(cand)): return None
    L = Loop()
    L.id, L.info, L.it, L.range = cand[0]
    info = L.info
    L.x = mk('nx', L.it)
    L.back = in_range(and_(info['back_pc'], TRUE))
    L.more = mk('hasnext', L.it)
    vs = {v: (a, restrict(b, info['back_pc']) if b is not None else None) for v, (a, b) in info['vars'].items()}
    L.vars = vs
    if not C.check(vs[L.it][1] is mk('adv', L.it), rule, R.name, 'ticks are not visited one by one', info['span']): return None
    # remaining input: starts at the amount in
    L.start = {v: a for v, (a, b) in vs.items()}
    L.next = {v: b for v, (a, b) in vs.items() if b is not None}
    # remaining input: starts at the amount in; or what has been spent so far is tracked, from nothing
    q = [v for v in vs if vs[v][0] is R.amount] or [sub(R.amount, v) for v in vs if vs[v][0] is ZERO and v is not R.output and vs[v][1] is not None]
    if len(q) > 1: q = [t for t in q if counts_down(R, L, t)]
    if not C.check(len(q) == 1, rule, R.name, '%d candidates for the remaining input' % len(q), info['span']): return None
    L.Q = q[0]; L.Qn = subst(L.Q, L.next)
    # output: what is paid out / quoted
    L.T = R.output if R.output in vs else None
    if L.T is None:
        # under every accepted exit the output is one loop variable
        ls = {t.id: t for t, p, l in leaves(R.output, R.ok)}
        ls = [t for t in ls.values() if t in vs]
        if len(ls) == 1: L.T = ls[0]
    if L.T is None:
        t = restrict(R.output, R.ok)
        if same(subst(t, L.start), ZERO, TRUE) is None: L.T = t
    if not C.check(L.T is not None and subst(L.T, L.start) is ZERO, rule, R.name, 'the amount out is not the total of the fills: %s' % clip(show(R.output, 5)), info['span']): return None
    L.Tn = subst(L.T, L.next)
    # the tick as the loop sees it
    ns = [v for v in vs if v.a[3].startswith("('NS'") and v.a[1] == 'tick_state']
    L.ns = ns[0] if ns else None
    L.cont = L.ns if ns else initial(R, 'tick_state')
    e, L.old = s_get(L.cont, 'tick_state', L.x)
    L.P = mk('call', TICK_TO_PRICE, (L.x,), ())
    L.p = pl(L.P, 'Ok', '0')
    L.side = opp(R.dir)
    L.tal = fld(vals(L.old, L.side), TAL)
    INT.add(L.Q.id)
    L.value = floor(div(L.Q, L.p)) if R.dir is BID else floor(mul(L.Q, L.p))
    L.fill = mk_min(L.tal, L.value)
    L.cost = ceil(mul(L.fill, L.p)) if R.dir is BID else ceil(div(L.fill, L.p))
    L.skip = eq(L.tal, ZERO)
    L.span = info['span']
    # every range element is a stored tick
    L.hyp = conj(e, isvar(L.P, 'Ok'), not_(eq(L.p, ZERO)))
    L.pc = and_(L.back, L.hyp)
    R._fills = L
    return L

def counts_down(R, L, t):
    """t only changes in steps where a tick is traded on"""
    n = subst(t, L.next)
    return any(x.op in ('ceil', 'floor') for x in terms.subterms(n)) and not any(x.op in ('ceil', 'floor') for x in terms.subterms(t))

def prep(R):
    """what the call pays out"""
    if hasattr(R, 'output'): return R
    R.output = mk('none')
    if R.okval is None: return R
    if R.entry_kind == 'swap':
        for p, e in guarded(payments(fld(R.okval, 'messages'), R.ok), R.ok):
            if e.op == 'agg' and fld(e, '0') is st('pay') and implies(R.ok, p):
                R.output = fld(e, '4'); break
    return R

def runs(A):
    out = []
    for R in swaps(A):
        R.entry_kind = 'swap'; out.append(prep(R))
    return out

def quotes(A): return [quote(A, d, k) for d in DIRS for k in ('CalcOutAmountGivenIn', 'CalcOutAmtGivenIn')]

def quote(A, d, kind):
    def go():
        E = A.E
        w = book(World(E))
        m = msg(E, 'QueryMsg::' + kind)
        tin, tout = (QUOTE, BASE) if d is BID else (BASE, QUOTE)
        coin = agg('cosmwasm_std::coin::Coin', 'Coin', ['denom', 'amount'], [tin, INP('token_in.amount')])
        INT.add(fld(coin, 'amount').id)
        m = with_(with_(m, 'token_in', coin), 'token_out_denom', tout)
        R = query(E, m, '%s[%s]' % (kind, dirname(d)), w)
        R.dir, R.w, R.m, R.tin, R.tout = d, w, m, tin, tout
        R.amount = fld(coin, 'amount')
        R.bound = MAX_TICK if d is BID else MIN_TICK
        R.entry_kind = 'quote'
        R.output = mk('none')
        if R.okval is not None:
            r = R.okval
            if r.op == 'json': r = r.a[0]
            R.coin = fld(r, 'token_out')
            R.output = amount_of(fld(R.coin, 'amount'))
        return R
    return A.get(('quote', dirname(d), kind), go)

def step(C, R, L, got, want, rule, what):
    C.ob(rule, '%s: %s' % (R.name, what))
    d = same(got, want, L.pc)
    if d: C.bad(rule, '%s: %s' % (R.name, what), 'one step gives %s, must give %s (when %s)' % (clip(show(d[0], 7)), clip(show(d[1], 7)), clip(cases_of(d[2]), 300)), L.span)

def fill_rules(C, R, L):
    rule = 'every fill trades at the price of its tick, rounded in favour of the book'
    step(C, R, L, L.Tn, ite(L.skip, L.T, add(L.T, L.fill)), rule, 'amount out')
    step(C, R, L, L.Qn, ite(L.skip, L.Q, sub(L.Q, L.cost)), rule, 'remaining input')
    C.ob(rule, R.name + ': never free')
    d = differ(and_(L.pc, and_(not_(L.skip), eq(L.cost, ZERO))), FALSE)
    if d: C.bad(rule, R.name + ': never free', 'a fill can be free (when %s)' % clip(cases_of(d), 300), L.span)

def worthless(R, q, p): return eq(floor(div(q, p)) if R.dir is BID else floor(mul(q, p)), ZERO)

@prop('S02')
def rounding(A, C):
    for R in runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        fill_rules(C, R, L)

def walk_rules(C, R, L):
    """which ticks are visited, in which order, and when the walk stops"""
    rule = 'ticks are taken best price first, between the best tick and the bound'
    names = L.range.a
    want = order_range(R)
    C.ob(rule, R.name + ': range')
    got = L.range
    bounds = [same(g, w, R.ok) for g, w in zip(got.a[3:5], want[:2])] if len(got.a) >= 6 else [True]
    if any(bounds) or got.a[2] is not UNIT:
        C.bad(rule, R.name + ': range', 'walks %s, must walk from %s to %s' % (clip(show(got, 6)), show(want[0], 4), show(want[1], 4)), L.span)
    C.ob(rule, R.name + ': order')
    if same(got.a[5], agg(got.a[5].a[0] if got.a[5].op == 'agg' else '?', want[2], [], []), R.ok):
        C.bad(rule, R.name + ': order', 'walks in order %s, must be %s' % (show(got.a[5], 3), want[2]), L.span)
    C.ob(rule, R.name + ': content')
    if got.a[0] is not (R.cont0.get('tick_state') or s_init('tick_state')):
        C.bad(rule, R.name + ': content', 'does not walk the stored ticks', L.span)
    # it is the plain range: nothing skipped or dropped
    C.ob(rule, R.name + ': complete')
    t = L.vars[L.it][0]
    while t.op in ('iter', 'lmap'): t = t.a[0]
    if t is not got: C.bad(rule, R.name + ': complete', 'not every tick in the range is visited', L.span)
    # leaving the loop
    C.ob(rule, R.name + ': stop')
    for t, p in L.info['exits']:
        q = in_range(conj(p, R.pc, L.hyp, L.more))
        okexit = in_range(conj(p, L.hyp, L.more, R.ok))
        if okexit is FALSE: continue
        d = differ(and_(okexit, not_(or_(and_(not_(L.skip), worthless(R, L.Q, L.p)), eq(L.Q, ZERO)))), FALSE)
        if d:
            C.bad(rule, R.name + ': stop', 'the walk can stop at a tick that still has something to trade (when %s)' % clip(cases_of(d), 300), L.span)

def order_range(R):
    incl = lambda t: Some(agg('Bound', 'Inclusive', ['0'], [t]))
    ob = R.w.ob
    if R.dir is BID: return incl(fld(ob, 'next_ask_tick')), incl(R.bound), 'Ascending'
    return incl(R.bound), incl(fld(ob, 'next_bid_tick')), 'Descending'

@prop('S04')
def walk(A, C):
    for R in runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        walk_rules(C, R, L)

def final_Q(C, R, L):
    """remaining input after the walk: nothing when it was worth nothing at the next tick"""
    return ite(L.more, ZERO, L.Q)

def swap_payments(C, R, L, label=lambda p, kind: p):
    sender = fld(R.m, 'sender')
    q = final_Q(C, R, L)
    return cat(vec(label(pay(sender, R.tout, L.T), 'swap')), when(not_(eq(q, ZERO)), label(pay(sender, R.tin, q), 'refund')))

@prop('S03')
def refund(A, C):
    rule = 'unspent input goes back to the sender'
    for R in runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        pc = in_range(and_(R.ok, imp(L.more, L.hyp)))
        same_payments(C, R, swap_payments(C, R, L), 'a swap pays the sender exactly the amount out and the unspent input', R.name, pc=pc)

def imp(a, b): return or_(not_(a), b)

@prop('S01')
def min_out(A, C):
    for R in runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        requires(C, R, le(fld(R.m, 'token_out_min_amount'), L.T), 'a swap that yields less than the requested minimum is rejected', R.name)
        data = fld(R.okval, 'data')
        C.eq(R, isvar(data, 'Some'), TRUE, 'the response reports the amount out', R.name)
        d = pl(data, 'Some', '0')
        ls = [t for t, p, l in leaves(d, R.ok)]
        for t in ls:
            C.check(t.op == 'json' and t.a[0].op == 'agg' and t.a[0].a[2] == ('token_out_amount',) and t.a[0].a[3][0] is L.T,
                    'the response reports the amount actually paid', R.name, lambda: clip(show(t, 5)))
        ls = guarded(payments(fld(R.okval, 'messages'), R.ok), R.ok)
        C.check(ls and same(ls[0][1], pay(fld(R.m, 'sender'), R.tout, L.T), ls[0][0]) is None, 'the amount out is paid by the contract to the swapper', R.name, lambda: clip(show(ls[0][1], 5)) if ls else 'no payment')

@prop('S05')
def complete(A, C):
    for R in runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        swap_accept(C, R, L, conj(bopq_valid(R), le(L.T, R.w.liq), le(fld(R.m, 'token_out_min_amount'), L.T)))

def bopq_valid(R): return mk('bopq', 'valid_addr', fld(R.m, 'sender'))

def last_price(C, R, L):
    """(price of the last tick traded on (1 before any), what is known of it), from the loop variable that
    holds that price or tick, possibly only once there is one"""
    for v, (a, b) in L.vars.items():
        if b is None: continue
        P = subst(L.P, {L.x: v})
        if a is ONE and same(b, ite(L.skip, v, L.p), L.pc) is None: return v, not_(eq(v, ZERO))
        if a is ZERO and same(b, ite(L.skip, v, L.x), L.pc) is None:
            lp = pl(P, 'Ok', '0')
            return lp, and_(isvar(P, 'Ok'), not_(eq(lp, ZERO)))
        if a is NONE:
            x, h = pl(v, 'Some', '0'), isvar(v, 'Some')
            if same(b, ite(L.skip, v, Some(L.p)), L.pc) is None: return ite(h, x, ONE), imp(h, not_(eq(x, ZERO)))
            if same(b, ite(L.skip, v, Some(L.x)), L.pc) is None:
                P = subst(L.P, {L.x: x}); lp = pl(P, 'Ok', '0')
                return ite(h, lp, ONE), imp(h, and_(isvar(P, 'Ok'), not_(eq(lp, ZERO))))
    return None, None

def swap_accept(C, R, L, extra):
    rule = 'a swap is accepted exactly when its input can be used up within its bound'
    ob = R.w.ob
    best = fld(ob, 'next_ask_tick' if R.dir is BID else 'next_bid_tick')
    b = R.bound
    conds = conj(eq(fld(R.m, 'swap_fee'), ZERO), not_(eq(R.amount, ZERO)), not_(lt(b, MIN_TICK)), not_(lt(MAX_TICK, b)),
                 not_(lt(b, best)) if R.dir is BID else not_(lt(best, b)), extra)
    lp, lph = last_price(C, R, L)
    if not C.check(lp is not None, rule, R.name, 'the price of the last tick traded on is not tracked', L.span): return
    full = MAX_TICK if R.dir is BID else MIN_TICK
    partial = not_(eq(b, full)) if not (b is full) else FALSE
    if R.dir is BID: partial = lt(b, full) if b is not full else FALSE
    else: partial = lt(full, b) if b is not full else FALSE
    used = or_(worthless(R, L.Q, lp), partial)
    stop = conj(not_(L.skip), worthless(R, L.Q, L.p))
    want = and_(conds, ite(L.more, stop, used))
    ok = ok_of(R)
    # second pass over the recorded ticks, if any, has run to its end
    for l, i in R.loops.items():
        if l == L.id: continue
        for v, (a, n) in i['vars'].items():
            if n is mk('adv', v): ok = restrict(ok, not_(mk('hasnext', v)))
    C.ob(rule, R.name)
    pre = conj(imp(L.more, L.hyp), lph)
    # with nothing left to trade the walk may already stop at an empty tick, or go on
    idle = conj(L.more, L.skip, eq(L.Q, ZERO))
    d = differ(ok, want, and_(pre, not_(idle))) or differ(or_(ok, L.back), TRUE, conj(pre, idle, conds))
    if d:
        x = settle(ok, d)
        C.bad(rule, R.name, 'call is %s although it must be %s  (when %s)' % ((('accepted', 'rejected') if x is TRUE else ('rejected', 'accepted') if x is FALSE else ('decided differently', 'as stated')) + (clip(cases_of(d), 600),)), L.span)

@prop('S06')
def pair(A, C):
    E = A.E
    for kind in KINDS:
        w = book(World(E).active())
        m = msg(E, 'SudoMsg::' + kind)
        coin = sym(E, 'cosmwasm_std::coin::Coin', 'token_in') 
        coin = agg('cosmwasm_std::coin::Coin', 'Coin', ['denom', 'amount'], [INP('token_in.denom'), INP('token_in.amount')])
        INT.add(fld(coin, 'amount').id)
        m = with_(m, 'token_in', coin)
        R = C.use(sudo(E, m, kind + '[any pair]', w))
        i, o = fld(coin, 'denom'), fld(m, 'token_out_denom')
        want = or_(and_(eq(i, QUOTE), eq(o, BASE)), and_(eq(i, BASE), eq(o, QUOTE)))
        requires(C, R, want, 'only the two denoms of the book can be swapped, one for the other', R.name)
        requires(C, R, eq(fld(m, 'swap_fee'), ZERO), 'the swap fee must be zero', R.name)
        w2 = World(E).active().absent('orderbook')
        rejects(C, C.use(sudo(E, m, kind + '[no book]', w2)), 'no swap before the book exists', kind)
        w3 = book(World(E).active(FALSE))
        rejects(C, C.use(sudo(E, m, kind + '[paused]', w3)), 'no swap while paused', kind)
    m = msg(E, 'SudoMsg::SwapExactAmountOut')
    R = C.use(sudo(E, m, 'SwapExactAmountOut', book(World(E).active())))
    rejects(C, R, 'exact-amount-out swaps are not supported', R.name)
    for d in DIRS:
        for k in KINDS:
            R = C.use(swap(A, d, k))
            C.check(ok_of(R) is not FALSE, 'swaps work in both directions', R.name, 'never accepted')
    # quotes obey the same restrictions
    for kind in ('CalcOutAmountGivenIn', 'CalcOutAmtGivenIn'):
        m = msg(E, 'QueryMsg::' + kind)
        coin = agg('cosmwasm_std::coin::Coin', 'Coin', ['denom', 'amount'], [INP('token_in.denom'), INP('token_in.amount')])
        m = with_(m, 'token_in', coin)
        R = C.use(query(E, m, kind + '[any pair]', book(World(E))))
        i, o = fld(coin, 'denom'), fld(m, 'token_out_denom')
        want = or_(and_(eq(i, QUOTE), eq(o, BASE)), and_(eq(i, BASE), eq(o, QUOTE)))
        requires(C, R, want, 'only the two denoms of the book can be quoted', R.name)
        requires(C, R, eq(fld(m, 'swap_fee'), ZERO), 'the swap fee must be zero', R.name)

def recorded(C, R, L):
    """[(guard, key, new tick)] that one step of the walk makes the swap store, or None"""
    rule = 'what is traded on a tick is recorded on that tick'
    out = []
    if L.ns is not None:
        n = L.vars[L.ns][1]
        def go(t, p):
            t = restrict(t, p)
            if t is L.ns or p is FALSE: return
            if t.op == 'W': out.append((p, t.a[1], t.a[2])); go(t.a[0], p)
            elif t.op == 'ite': go(t.a[1], and_(p, t.a[0])); go(t.a[2], and_(p, not_(t.a[0])))
            else: out.append((p, mk('bulk', t), t))
        go(n, L.pc)
        final_ = content(R, 'tick_state')
        if not C.check(same(final_, L.ns, R.ok) is None, rule, R.name, 'the stored ticks are changed after the walk', L.span): return None
        return out
    # deferred: a list of updates written afterwards
    fin = content(R, 'tick_state')
    l2 = [(l, i) for l, i in R.loops.items() if fin in i['vars']]
    if not C.check(len(l2) == 1, rule, R.name, 'the recorded ticks are not written: %s' % clip(show(fin, 4)), L.span): return None
    i2 = l2[0][1]
    a, n = i2['vars'][fin]
    src = [(v, x) for v, x in i2['vars'].items() if x[1] is mk('adv', v)]
    okk = len(src) == 1 and a is initial(R, 'tick_state')
    if not C.check(okk, rule, R.name, 'the recorded ticks are not written one by one', i2['span']): return None
    it2, (u, _) = src[0]
    while u.op in ('iter', 'irev'): u = u.a[0]        # in either order, the ticks differ
    if not C.check(u in L.vars and L.vars[u][0] is EMPTY, rule, R.name, 'the ticks written are not those traded on: %s' % clip(show(u, 4)), i2['span']): return None
    nx = mk('nx', it2)
    n = restrict(n, i2['back_pc'])
    # which parts of the list element are key and value
    if not C.check(n.op == 'W' and n.a[0] is fin, rule, R.name, 'an update is not written as recorded: %s' % clip(show(n, 5)), i2['span']): return None
    for t, p in i2['exits']:
        if in_range(conj(p, R.ok, mk('hasnext', it2))) is not FALSE:
            C.check(False, rule, R.name, 'writing can stop before every tick is written', i2['span']); return None
    un = L.vars[u][1]
    for p, e in list_growth(un, u, L.pc):
        if e is None: C.bad(rule, R.name, 'the list of traded ticks is rewritten: %s' % clip(show(un, 5)), L.span); return None
        m = {nx: e}
        out.append((p, subst(n.a[1], m), subst(n.a[2], m)))
    return out

def list_growth(t, base, pc):
    """[(guard, appended element)]; element None when the list is not just extended"""
    t = restrict(t, pc)
    if t is base or pc is FALSE: return []
    if t.op == 'ite': return list_growth(t.a[1], base, and_(pc, t.a[0])) + list_growth(t.a[2], base, and_(pc, not_(t.a[0])))
    if t.op == 'cat' and t.a[0] is base:
        out = []
        for q in t.a[1:]:
            if q.op != 'vec': return [(pc, None)]
            out += [(pc, e) for e in q.a]
        return out
    return [(pc, None)]

@prop('S07')
def ledger(A, C):
    for R in runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        rule = 'what is traded on a tick is recorded on that tick'
        ws = recorded(C, R, L)
        if ws is None: continue
        # exactly one record per traded tick
        tot = FALSE
        for p, k, v in ws:
            C.ob(rule, R.name + ': tick')
            if same(k, L.x, p): C.bad(rule, R.name + ': tick', 'records tick %s while trading on %s' % (clip(show(k, 5)), show(L.x, 3)), L.span)
            if and_(tot, p) is not FALSE: C.bad(rule, R.name + ': tick', 'a tick is recorded twice', L.span)
            tot = or_(tot, p)
            want = L.old
            v0 = vals(L.old, L.side)
            for d in DIRS:
                for f in (TAL, CTT, ETAS, CRC, LAST):
                    w = fld(vals(L.old, d), f)
                    if d is L.side and f == TAL: w = ite(L.skip, w, sub(w, L.fill))
                    if d is L.side and f == ETAS: w = ite(L.skip, w, add(w, L.fill))
                    C.ob(rule, '%s: %s %s' % (R.name, dirname(d), f))
                    df = same(fld(vals(v, d), f), w, and_(p, L.pc))
                    if df: C.bad(rule, '%s: %s %s' % (R.name, dirname(d), f), 'becomes %s, must become %s (when %s)' % (clip(show(df[0], 6)), clip(show(df[1], 6)), clip(cases_of(df[2]), 250)), L.span)
        C.ob(rule, R.name + ': every traded tick')
        if not implies(and_(L.pc, not_(L.skip)), tot):
            C.bad(rule, R.name + ': every traded tick', 'a tick can be traded on without being recorded', L.span)
        # totals
        k = st(dirname(L.side))
        e, v = final(R, 'direction_liquidity', k)
        C.eq(R, v, sub(R.w.liq, L.T), 'the total liquidity of the side drops by exactly the amount out', R.name, span=span_of(R, 'direction_liquidity'))
        only_keys(C, R, 'direction_liquidity', [k], 'the total liquidity of the other side is unchanged')
        for ns in touched(R):
            C.check(ns in ('tick_state', 'direction_liquidity', 'orderbook'), 'a swap changes nothing else', R.name + '/' + ns, 'changed', span_of(R, ns))
