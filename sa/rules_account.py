"""Book-keeping: tick counters, totals, pointers, order records."""
from session import *
from rules_order import cancels, claims, batch_loop, synced, one_sync, NO_FUNDS
import rules_swap
from rules_swap import fills, recorded, runs as swap_runs

DIRS = (BID, ASK)
FIELDS = (TAL, CTT, ETAS, CRC, LAST)
IMMUTABLE = ('tick_id', 'order_id', 'order_direction', 'owner', 'claim_bounty', 'placed_quantity', 'placed_at')

def nonneg(t):
    """t >= 0 by construction (stored amounts are unsigned)"""
    return lt(t, ZERO) is FALSE

def below(t, pc):
    """a feasible case in which t < 0, or None"""
    if t.op == 'min': return below(t.a[0], pc) or below(t.a[1], pc)
    if t.op == 'max': return below(t.a[0], pc) and below(t.a[1], pc)
    return differ(and_(pc, lt(t, ZERO)), FALSE)

def tick_after(R): return final(R, 'tick_state', TICK)

# ------------------------------------------------------------------------------- sync
def sync_run(A, tree):
    def go():
        E = A.E
        w = World(E).tick(TICK)
        w.roots = {}
        if tree:
            for d in DIRS:
                k = INP('root.' + dirname(d)); INT.add(k.id)
                w.put('tree', tup(TICK, st(dirname(d))), k)
            # two different roots
            for d in DIRS:
                k = INP('root.' + dirname(d))
                n = sym_node(E, TICK, k, d, 'rootnode.' + dirname(d))
                w.roots[d] = n
            c = s_init('nodes')
            a, b = INP('root.bid'), INP('root.ask')
            c = mk('W', mk('W', c, tup(TICK, a), w.roots[BID]), tup(TICK, b), w.roots[ASK])
            w.cont['nodes'] = c
            pre = not_(eq(a, b))
        else:
            for d in DIRS: w.absent('tree', tup(TICK, st(dirname(d))))
            pre = TRUE
        T = {BID: INP('target.bid'), ASK: INP('target.ask')}
        for t in T.values(): INT.add(t.id)
        fid = E.bypath[SYNC]
        n = E.fns[fid]['body']['args']
        R = run(E, SYNC, [INP('storage'), TICK, T[BID], T[ASK]], 'sync_tick[%s]' % ('existing records' if tree else 'no records yet'), w, pre)
        R.w, R.T, R.pre = w, T, pre
        return R
    return A.get(('sync', tree), go)

@prop('A03')
def sync(A, C):
    for tree in (True, False):
        R = C.use(sync_run(A, tree))
        w = R.w
        pc = in_range(R.ok)
        cs = calls(R, PREFIX_SUM, R.pc)
        v0 = {d: vals(w.ts, d) for d in DIRS}
        upto = {d: eq(fld(v0[d], LAST), R.T[d]) for d in DIRS}
        new = {}
        okc = True
        for d in DIRS:
            mine = [(g, e) for e in cs for g in (in_range(of_side(e, d)),) if and_(not_(upto[d]), g) is not FALSE]
            once = mine and same(disj(*[g for g, e in mine]), TRUE, and_(pc, not_(upto[d]))) is None and \
                all(differ(conj(pc, g, h), FALSE) is None for i, (g, e) in enumerate(mine) for h, f in mine[:i])
            if not C.check(once, 'a side that is behind looks up its cancelled amount once', '%s: %s' % (R.name, dirname(d)), '%d look-ups' % len(mine)): okc = False; continue
            for g, e in mine:
                args = [fld(e.key, str(i)) for i in range(3)]
                if tree: C.eq(R, args[0], w.roots[d], "the look-up uses the side's own record", '%s: %s' % (R.name, dirname(d)), pc=g, span=e.span)
                else: C.eq(R, fld(args[0], 'tick_id'), TICK, "the look-up uses the tick's own record", '%s: %s' % (R.name, dirname(d)), pc=g, span=e.span)
                C.eq(R, args[1], R.T[d], 'the look-up goes up to the amount swapped', '%s: %s' % (R.name, dirname(d)), pc=g, span=e.span)
                C.eq(R, args[2], fld(v0[d], CRC), 'the look-up starts from the amount already realised', '%s: %s' % (R.name, dirname(d)), pc=g, span=e.span)
            n = mine[-1][1].val
            for g, e in mine[:-1]: n = ite(g, e.val, n)
            new[d] = n
        if not okc: continue
        want = TRUE
        for d in DIRS:
            n = pl(new[d], 'Ok', '0')
            crc, etas = fld(v0[d], CRC), fld(v0[d], ETAS)
            good = conj(isvar(new[d], 'Ok'), le(crc, n), le(sub(add(etas, n), crc), fld(v0[d], CTT)))
            want = and_(want, or_(upto[d], good))
        R._ok = in_range(R.ok)
        hints = conj(*[le(fld(v0[d], ETAS), fld(v0[d], CTT)) for d in DIRS])
        accepts(C, R, want, 'a sync fails exactly when realised cancels shrink or the queue position would pass everything placed', R.name, pre=R.pre)
        e, t = tick_after(R)
        C.eq(R, e, TRUE, 'the tick still exists', R.name)
        for d in DIRS:
            n = pl(new[d], 'Ok', '0')
            crc, etas = fld(v0[d], CRC), fld(v0[d], ETAS)
            W_ = {TAL: fld(v0[d], TAL), CTT: fld(v0[d], CTT), ETAS: ite(upto[d], etas, sub(add(etas, n), crc)), CRC: ite(upto[d], crc, n), LAST: R.T[d]}
            for f in FIELDS:
                C.eq(R, fld(vals(t, d), f), W_[f], 'a sync advances the queue position by the newly realised cancels and nothing else', '%s: %s %s' % (R.name, dirname(d), f), pc=pc, span=span_of(R, 'tick_state'))
        only_keys(C, R, 'tick_state', [TICK], 'a sync changes only its own tick')
        for ns in touched(R):
            C.check(ns in ('tick_state', 'tree', 'nodes', 'node_id'), 'a sync changes nothing else', R.name + '/' + ns, 'changed', span_of(R, ns))
        if tree:
            for ns in ('tree', 'nodes', 'node_id'): unchanged(C, R, ns, 'a sync leaves existing cancellation records alone')
        else:
            only_keys(C, R, 'tree', [tup(TICK, st(dirname(d))) for d in DIRS], 'a sync creates at most the records of its own tick')
            unchanged(C, R, 'nodes', 'a sync stores no nodes')
            ea, va = final(R, 'tree', tup(TICK, st('ask'))); eb, vb = final(R, 'tree', tup(TICK, st('bid')))
            both = and_(ea, eb)
            C.ob('the two sides of a tick have different record roots', R.name)
            if differ(and_(and_(pc, both), eq(va, vb)), FALSE): C.bad('the two sides of a tick have different record roots', R.name, 'both sides share one root', span_of(R, 'tree'))
    E = A.E
    w = World(E).absent('tick_state', TICK)
    R = run(E, SYNC, [INP('storage'), TICK, INP('a'), INP('b')], 'sync_tick[no tick]', w)
    rejects(C, C.use(R), 'a tick that does not exist cannot be synced', R.name)

def of_side(e, d):
    """when the look-up is made for side d: its root carries that direction"""
    x = fld(fld(e.key, '0'), 'direction')
    return and_(e.pc, isvar(x, d.a[1]))

# ------------------------------------------------------------------------------- totals
@prop('A01')
def totals(A, C):
    rule = 'the total liquidity of a side moves exactly with the liquidity of its ticks'
    for R in A.place_all():
        C.use(R)
        e, t = tick_after(R)
        for d in DIRS:
            want = add(fld(vals(R.tick0, d), TAL), R.q) if d is R.dir else fld(vals(R.tick0, d), TAL)
            C.eq(R, fld(vals(t, d), TAL), want, rule, '%s: tick %s' % (R.name, dirname(d)), span=span_of(R, 'tick_state'))
        k = st(dirname(R.dir))
        e, v = final(R, 'direction_liquidity', k)
        C.eq(R, e, TRUE, rule, R.name + ': stored')
        C.eq(R, v, add(R.w.liq, R.q), rule, R.name + ': total', span=span_of(R, 'direction_liquidity'))
        only_keys(C, R, 'direction_liquidity', [k], rule)
    for R in cancels(A):
        C.use(R)
        e, t = tick_after(R)
        q = fld(R.o, 'quantity')
        for d in DIRS:
            v0 = fld(vals(R.w.ts, d), TAL)
            C.eq(R, fld(vals(t, d), TAL), sub(v0, q) if d is R.dir else v0, rule, '%s: tick %s' % (R.name, dirname(d)), span=span_of(R, 'tick_state'))
        k = st(dirname(R.dir))
        e, v = final(R, 'direction_liquidity', k)
        C.eq(R, v, sub(R.w.liq, q), rule, R.name + ': total', span=span_of(R, 'direction_liquidity'))
        only_keys(C, R, 'direction_liquidity', [k], rule)
        only_keys(C, R, 'tick_state', [TICK], rule)
    for R in claims(A):
        C.use(R)
        e, t = tick_after(R)
        for d in DIRS: C.eq(R, fld(vals(t, d), TAL), fld(vals(R.w.ts, d), TAL), rule, '%s: tick %s' % (R.name, dirname(d)), span=span_of(R, 'tick_state'))
        unchanged(C, R, 'direction_liquidity', rule)
        only_keys(C, R, 'tick_state', [TICK], rule)
    for R in swap_runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        ws = recorded(C, R, L)
        if ws is None: continue
        for p, k, v in ws:
            for d in DIRS:
                C.ob(rule, '%s: tick %s' % (R.name, dirname(d)))
                moved = sub(fld(vals(L.old, d), TAL), fld(vals(v, d), TAL))
                want = sub(L.Tn, L.T) if d is L.side else ZERO
                df = same(moved, want, and_(p, L.pc))
                if df: C.bad(rule, '%s: tick %s' % (R.name, dirname(d)), 'a fill takes %s from the tick but adds %s to the amount out' % (clip(show(df[0], 6)), clip(show(df[1], 6))), L.span)
        e, v = final(R, 'direction_liquidity', st(dirname(L.side)))
        C.eq(R, v, sub(R.w.liq, L.T), rule, R.name + ': total', span=span_of(R, 'direction_liquidity'))
        only_keys(C, R, 'direction_liquidity', [st(dirname(L.side))], rule)
    for R in A.everything():
        if R.kind not in ('PlaceLimit', 'CancelLimit', 'ClaimLimit', 'SwapExactAmountIn', 'SwapToTick'):
            C.use(R)
            unchanged(C, R, 'direction_liquidity', 'other operations leave the liquidity totals alone')
            if R.kind != 'BatchClaim': unchanged(C, R, 'tick_state', 'other operations leave the ticks alone')

# ------------------------------------------------------------------------------- counters
@prop('A02')
def counters(A, C):
    rule = 'the queue counters of a tick move only forward and only for their own reason'
    for R in A.place_all():
        C.use(R)
        e, t = tick_after(R)
        for d in DIRS:
            for f in (CTT, ETAS, CRC, LAST):
                v0 = fld(vals(R.tick0, d), f)
                C.eq(R, fld(vals(t, d), f), add(v0, R.q) if (d is R.dir and f == CTT) else v0, rule, '%s: %s %s' % (R.name, dirname(d), f), span=span_of(R, 'tick_state'))
    for R in cancels(A) + claims(A):
        C.use(R)
        if not one_sync(C, R, 'the tick is brought up to date first'): continue
        e, t = tick_after(R)
        for d in DIRS:
            for f in (CTT, ETAS, CRC, LAST):
                v0 = fld(vals(R.w.ts, d), f)
                C.eq(R, fld(vals(t, d), f), v0 if f == CTT else synced(R, d, f), rule, '%s: %s %s' % (R.name, dirname(d), f), span=span_of(R, 'tick_state'))
    for R in swap_runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        ws = recorded(C, R, L)
        if ws is None: continue
        for p, k, v in ws:
            for d in DIRS:
                for f in (CTT, ETAS, CRC, LAST):
                    C.ob(rule, '%s: %s %s' % (R.name, dirname(d), f))
                    g, o = fld(vals(v, d), f), fld(vals(L.old, d), f)
                    want = add(o, sub(fld(vals(L.old, d), TAL), fld(vals(v, d), TAL))) if (d is L.side and f == ETAS) else o
                    df = same(g, want, and_(p, L.pc))
                    if df: C.bad(rule, '%s: %s %s' % (R.name, dirname(d), f), 'becomes %s, must become %s' % (clip(show(df[0], 6)), clip(show(df[1], 6))), L.span)
        # a fill never takes more than there is
        C.ob(rule, R.name + ': bounded')
        d = differ(and_(L.pc, and_(not_(L.skip), lt(L.tal, sub(L.Tn, L.T)))), FALSE)
        if d: C.bad(rule, R.name + ': bounded', 'a fill can exceed the liquidity of the tick (when %s)' % clip(cases_of(d), 300), L.span)
    # sync: guarded
    for tree in (True, False):
        R = C.use(sync_run(A, tree))
        e, t = tick_after(R)
        pc = in_range(R.ok)
        for d in DIRS:
            v, v0 = vals(t, d), vals(R.w.ts, d)
            behind = not_(eq(fld(v0, LAST), R.T[d]))
            for f in (ETAS, CRC):
                C.ob(rule, '%s: %s %s' % (R.name, dirname(d), f))
                x = differ(and_(pc, lt(restrict(fld(v, f), pc), fld(v0, f))), FALSE)
                if x: C.bad(rule, '%s: %s %s' % (R.name, dirname(d), f), 'can decrease (when %s)' % clip(cases_of(x), 300), span_of(R, 'tick_state'))
            C.ob(rule, '%s: %s within placed' % (R.name, dirname(d)))
            x = differ(conj(pc, behind, lt(restrict(fld(v, CTT), pc), restrict(fld(v, ETAS), pc))), FALSE)
            if x: C.bad(rule, '%s: %s within placed' % (R.name, dirname(d)), 'the queue position can pass everything ever placed (when %s)' % clip(cases_of(x), 300), span_of(R, 'tick_state'))

# ------------------------------------------------------------------------------- order records
@prop('A05')
def orders_immutable(A, C):
    rule = 'an order never changes what was placed; only its remaining quantity and position move'
    for R in claims(A):
        C.use(R)
        e, v = final(R, 'orders', tup(TICK, OID))
        pc = and_(R.ok, e)
        for f in IMMUTABLE: C.eq(R, fld(v, f), fld(R.o, f), rule, '%s: %s' % (R.name, f), pc=pc, span=span_of(R, 'orders'))
        C.ob(rule, R.name + ': quantity')
        q = restrict(fld(v, 'quantity'), pc)
        for t, p, l in leaves(q, in_range(pc)):
            x = below(sub(fld(R.o, 'quantity'), t), conj(p, le(ZERO, fld(R.o, 'quantity')), *[a if b else not_(a) for a, b in l]))
            if x: C.bad(rule, R.name + ': quantity', 'the remaining quantity can grow (when %s)' % clip(cases_of(x), 300), span_of(R, 'orders')); break
        only_keys(C, R, 'orders', [tup(TICK, OID)], rule)
    R = C.use(batch(A))
    L = batch_loop(C, R)
    if L is not None:
        info, it, msgs, evs, x, S1 = L
        key = tup(fld(x, '0'), fld(x, '1'))
        for v, (i, n) in info['vars'].items():
            if v.a[3].startswith("('NS'") and v.a[1] == 'orders':
                pc = info['back_pc']
                e0, v0 = s_get(v, 'orders', key); e1, v1 = s_get(n, 'orders', key)
                C.ob(rule, 'BatchClaim: creation')
                if differ(and_(in_range(pc), and_(e1, not_(e0))), FALSE): C.bad(rule, 'BatchClaim: creation', 'a batch claim creates an order', info['span'])
                for f in IMMUTABLE:
                    C.ob(rule, 'BatchClaim: ' + f)
                    d = same(fld(v1, f), fld(v0, f), conj(pc, e0, e1))
                    if d: C.bad(rule, 'BatchClaim: ' + f, 'becomes %s' % clip(show(d[0], 5)), info['span'])
                C.ob(rule, 'BatchClaim: other orders')
                t = restrict(n, pc)
                for g, k in written_keys(t, v, pc):
                    if k is None or same(k, key, g): C.bad(rule, 'BatchClaim: other orders', 'an order that is not listed is written: %s' % (clip(show(k, 4)) if k else clip(show(t, 4))), info['span'])
    for R in A.place_all():
        C.use(R)
        only_keys(C, R, 'orders', [tup(TICK, R.w.n)], 'placing touches only the new order')
    for R in cancels(A):
        C.use(R)
        only_keys(C, R, 'orders', [tup(TICK, OID)], 'cancelling touches only the cancelled order')
        e, _ = final(R, 'orders', tup(TICK, OID))
        C.eq(R, e, FALSE, 'a cancelled order is removed, not rewritten', R.name)
    for R in A.everything():
        if R.kind not in ('PlaceLimit', 'CancelLimit', 'ClaimLimit', 'BatchClaim'):
            C.use(R)
            unchanged(C, R, 'orders', 'no other operation touches orders')

def written_keys(t, base, pc):
    if t is base or pc is FALSE: return []
    if t.op in ('W', 'R'): return [(pc, restrict(t.a[1], pc))] + written_keys(t.a[0], base, pc)
    if t.op == 'ite': return written_keys(t.a[1], base, and_(pc, t.a[0])) + written_keys(t.a[2], base, and_(pc, not_(t.a[0])))
    return [(pc, None)]

# ------------------------------------------------------------------------------- pointers
BOOK = ('quote_denom', 'base_denom', 'current_tick', 'next_bid_tick', 'next_ask_tick')

@prop('A06')
def pointers(A, C):
    for R in A.place_all():
        C.use(R)
        ob = R.w.ob
        e, v = final(R, 'orderbook', UNIT)
        want = {f: fld(ob, f) for f in BOOK}
        if R.dir is BID: want['next_bid_tick'] = mk_max(fld(ob, 'next_bid_tick'), TICK)
        else: want['next_ask_tick'] = mk_min(fld(ob, 'next_ask_tick'), TICK)
        C.eq(R, e, TRUE, 'the book stays stored', R.name)
        for f in BOOK: C.eq(R, fld(v, f), want[f], 'placing an order moves only the best-price pointer of its side, to the better of the two ticks', '%s: %s' % (R.name, f), span=span_of(R, 'orderbook'))
    for R in swap_runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        ob = R.w.ob
        e, v = final(R, 'orderbook', UNIT)
        C.eq(R, e, TRUE, 'the book stays stored', R.name)
        ptr = 'next_bid_tick' if L.side is BID else 'next_ask_tick'
        rule = 'a swap moves only the best-price pointer of the side it takes from, to the last tick traded on'
        for f in BOOK:
            if f != ptr: C.eq(R, fld(v, f), fld(ob, f), rule, '%s: %s' % (R.name, f), span=span_of(R, 'orderbook'))
        p = restrict(fld(v, ptr), R.ok)
        pv = p if p in L.vars else None
        if pv is None:
            ls = {t.id: t for t, q, l in leaves(p, R.ok)}.values()
            ls = [t for t in ls if t in L.vars]
            if len(ls) == 1: pv = ls[0]
        if pv is None or L.vars[pv][0] is not fld(ob, ptr): pv = p           # an expression over what the walk tracks
        if not C.check(same(subst(pv, L.start), fld(ob, ptr), R.ok) is None, rule, '%s: %s' % (R.name, ptr), 'ends at %s' % clip(show(p, 5)), span_of(R, 'orderbook')): continue
        rules_swap.step(C, R, L, subst(pv, L.next), ite(L.skip, pv, L.x), rule, ptr)
        C.eq(R, p, pv, rule, '%s: %s stored' % (R.name, ptr), pc=and_(R.ok, rules_swap.imp(L.more, L.hyp)))
    for R in A.everything():
        if R.kind not in ('PlaceLimit', 'SwapExactAmountIn', 'SwapToTick', 'instantiate'):
            C.use(R)
            unchanged(C, R, 'orderbook', 'no other operation changes the book record')

# ------------------------------------------------------------------------------- isolation
@prop('A07')
def isolation(A, C):
    rule = 'an operation on one side leaves the other side alone'
    for R in A.place_all():
        C.use(R)
        e, t = tick_after(R)
        d = opp(R.dir)
        for f in FIELDS: C.eq(R, fld(vals(t, d), f), fld(vals(R.tick0, d), f), rule, '%s: %s' % (R.name, f), span=span_of(R, 'tick_state'))
        only_keys(C, R, 'direction_liquidity', [st(dirname(R.dir))], rule)
        for ns in ('tree', 'nodes', 'node_id'): unchanged(C, R, ns, 'placing leaves cancellation records alone')
    for R in cancels(A):
        C.use(R)
        if len(R.sync) != 1: C.check(False, 'one sync', R.name, ''); continue
        e, t = tick_after(R)
        d = opp(R.dir)
        for f in FIELDS:
            want = fld(vals(R.w.ts, d), f) if f in (TAL, CTT) else synced(R, d, f)
            C.eq(R, fld(vals(t, d), f), want, rule, '%s: %s' % (R.name, f), span=span_of(R, 'tick_state'))
        only_keys(C, R, 'direction_liquidity', [st(dirname(R.dir))], rule)
        # cancellation records: only the order's side
        for e in R.effects:
            if e.kind == 'save' and e.ns == 'tree' and and_(e.pc, R.ok) is not FALSE:
                C.ob(rule, R.name + ': tree')
                if same(e.key, tup(TICK, st(dirname(R.dir))), and_(e.pc, R.ok)): C.bad(rule, R.name + ': tree', 'installs a root for %s' % show(e.key, 4), e.span)
    for R in swap_runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        ws = recorded(C, R, L)
        if ws is None: continue
        for p, k, v in ws:
            for f in FIELDS:
                C.ob(rule, '%s: %s' % (R.name, f))
                df = same(fld(vals(v, R.dir), f), fld(vals(L.old, R.dir), f), and_(p, L.pc))
                if df: C.bad(rule, '%s: %s' % (R.name, f), 'the side of the taker changes to %s' % clip(show(df[0], 5)), L.span)
        only_keys(C, R, 'direction_liquidity', [st(dirname(L.side))], rule)
        for ns in ('tree', 'nodes', 'node_id', 'orders', 'order_id'): unchanged(C, R, ns, 'a swap leaves orders and cancellation records alone')

# ------------------------------------------------------------------------------- whole numbers
@prop('A08')
def whole(A, C):
    rule = 'every stored amount is a whole number of tokens'
    def num_check(R, t, where, pc, span):
        C.ob(rule, where)
        for x, p, l in leaves(t, pc):
            if not isint(x): C.bad(rule, where, '%s may be fractional' % clip(show(x, 6)), span); break
    for R in A.place_all() + cancels(A) + claims(A):
        C.use(R)
        e, t = tick_after(R)
        if writes(R, 'tick_state'):
            for d in DIRS:
                for f in FIELDS: num_check(R, fld(vals(t, d), f), '%s: tick %s %s' % (R.name, dirname(d), f), R.ok, span_of(R, 'tick_state'))
        key = tup(TICK, R.w.n) if hasattr(R.w, 'n') else tup(TICK, OID)
        e, o = final(R, 'orders', key)
        if e is not FALSE:
            pc = and_(R.ok, e)
            for f in ('quantity', 'placed_quantity', 'etas'): num_check(R, fld(o, f), '%s: order %s' % (R.name, f), pc, span_of(R, 'orders'))
        e, v = final(R, 'direction_liquidity', st(dirname(R.dir)))
        if writes(R, 'direction_liquidity'): num_check(R, v, R.name + ': total liquidity', R.ok, span_of(R, 'direction_liquidity'))
    for R in cancels(A):
        for e in calls(R, 'sumtree::node::TreeNode::insert'):
            for n in e.key.a[2]:
                x = restrict(fld(e.key, n), R.ok)
                if x.op == 'agg' and x.a[0].endswith('TreeNode'):
                    nt = fld(x, 'node_type')
                    if isvar(nt, 'Leaf') is TRUE:
                        for f in ('value', 'etas'): num_check(R, pl(nt, 'Leaf', f), '%s: cancellation %s' % (R.name, f), R.ok, e.span)
    for R in swap_runs(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        ws = recorded(C, R, L)
        if ws is None: continue
        for p, k, v in ws:
            for d in DIRS:
                for f in FIELDS: num_check(R, fld(vals(v, d), f), '%s: tick %s %s' % (R.name, dirname(d), f), and_(p, L.pc), L.span)
        num_check(R, sub(L.Tn, L.T), R.name + ': amount out', L.pc, L.span)
    # cancelled amounts are only added, subtracted and compared on their way through the records
    E = A.E
    bad = re.compile(r'::(checked_)?(mul|div|pow|sqrt|inv|multiply_ratio|from_ratio|percent|permille|bps|from_atomics)\w*$|ops::(Mul|Div|Rem)')
    for f in sorted(E.reach(E.bypath[PREFIX_SUM]) | E.reach(E.bypath['sumtree::node::TreeNode::insert'])):
        fn = E.fns.get(f)
        if not fn or not fn.get('body'): continue
        C.ob('cancelled amounts are never multiplied or divided inside the cancellation records', short(f))
        for b in fn['body']['blocks']:
            if b and b['t']['k'] == 'call' and b['t']['f']['k'] == 'const':
                c = b['t']['f']['c'].get('fn') or {}
                p = c.get('rpath') or c.get('path') or ''
                if bad.search(p) and 'Decimal256' in (p + str(c.get('args'))):
                    C.bad('cancelled amounts are never multiplied or divided inside the cancellation records', short(f), 'calls ' + p, b.get('s') or '')
