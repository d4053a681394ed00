"""The whole book: every token that leaves is covered."""
from session import *
import rules_order, rules_swap, rules_place
from rules_order import claims, cancels
from rules_swap import runs as swap_runs

TRADING = ('ExecuteMsg::PlaceLimit', 'ExecuteMsg::CancelLimit', 'ExecuteMsg::ClaimLimit', 'ExecuteMsg::BatchClaim', 'SudoMsg::SwapExactAmountIn', 'SudoMsg::SwapToTick')

@prop('B01')
def sources(A, C):
    """only cancels, claims and swaps send anything"""
    for R in A.everything():
        C.use(R)
        if R.path in TRADING[1:]: continue
        C.ob('only cancels, claims and swaps pay out', R.name)
        if R.okval is None or in_range(R.ok) is FALSE: continue
        if guarded(fld(R.okval, 'messages'), R.ok): C.bad('only cancels, claims and swaps pay out', R.name, 'sends ' + clip(show(fld(R.okval, 'messages'), 5)))

def delta(R, d):
    """change of the recorded liquidity of a side"""
    k = st(dirname(d))
    e0, v0 = s_get(initial(R, 'direction_liquidity'), 'direction_liquidity', k)
    e, v = final(R, 'direction_liquidity', k)
    return sub(ite(e, v, ZERO), ite(e0, v0, ZERO))

@prop('B01')
def deposits(A, C):
    """tokens held for a side equal its recorded liquidity: deposits, refunds and swap payouts move both alike"""
    for R in A.place_all():
        C.use(R)
        C.eq(R, delta(R, R.dir), R.q, 'a deposit raises the recorded liquidity by what was paid in', R.name)
    for R in cancels(A):
        C.use(R)
        C.eq(R, delta(R, R.dir), scale(fld(R.o, 'quantity'), -1), 'a refund lowers the recorded liquidity by what is paid out', R.name, pc=in_range(R.ok))

@prop('H01')
def intervals(A, C):
    """the part of the queue an order occupies ends where it always ended, and new orders come after everybody"""
    rule = 'the end of the queue interval of an order never moves'
    for R in claims(A):
        C.use(R)
        k = tup(TICK, OID)
        e, v = final(R, 'orders', k)
        pc = in_range(and_(R.ok, e))
        end = lambda o: add(fld(o, 'etas'), fld(o, 'quantity'))
        C.eq(R, end(v), end(R.o), rule, R.name, pc=pc, span=span_of(R, 'orders'))
        if C.check(len(R.sync) == 1, rule, R.name, 'the tick is not synchronised once'):
            C.ob('nothing beyond the front of the queue is paid', R.name)
            d = differ(and_(pc, lt(rules_order.synced(R), fld(v, 'etas'))), FALSE)
            if d: C.bad('nothing beyond the front of the queue is paid', R.name, 'the order advances past the front (when %s)' % clip(cases_of(d), 300), span_of(R, 'orders'))
    for R in A.place_all():
        C.use(R)
        v0 = vals(R.tick0, R.dir)
        k, (e, o) = rules_place.placed(R)
        e, t = final(R, 'tick_state', TICK)
        C.eq(R, add(fld(o, 'etas'), fld(o, 'quantity')), fld(vals(t, R.dir), CTT), 'the newest order ends where the queue ends', R.name, span=span_of(R, 'orders'))
        C.eq(R, fld(vals(t, opp(R.dir)), CTT), fld(vals(R.tick0, opp(R.dir)), CTT), 'the queue of the other side does not move', R.name, span=span_of(R, 'tick_state'))
