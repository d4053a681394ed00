"""Order placement."""
from session import *

W = 'order::place_limit'

@prop('P01')
def payment(A, C):
    for R in A.place_all():
        C.use(R)
        funds = fld(INFO, 'funds')
        requires(C, R, has_single(funds, R.denom), 'a placement is paid with exactly one coin, of the denom the order side spends', R.name)
        requires(C, R, eq(paid(funds, R.denom), R.q), 'the amount sent equals the order quantity', R.name)
        C.eq(R, fld(R.okval, 'messages'), EMPTY, 'placing an order moves no tokens out of the contract', R.name)

@prop('P02')
def accepted(A, C):
    for R in A.place_all():
        C.use(R)
        funds = fld(INFO, 'funds')
        want = conj(not_(lt(TICK, MIN_TICK)), not_(lt(MAX_TICK, TICK)), not_(eq(R.q, ZERO)),
                    has_single(funds, R.denom), eq(paid(funds, R.denom), R.q))
        b = fld(R.m, 'claim_bounty')
        if b is not NONE: want = and_(want, not_(lt(num(Fraction(1, 100)), pl(b, 'Some', '0'))))
        accepts(C, R, want, 'an order is accepted exactly when tick, quantity, bounty and payment are valid', R.name)
    for d in (BID, ASK):
        E = A.E
        w = World(E).active().absent('orderbook')
        R = C.use(execute(E, with_(msg(E, 'ExecuteMsg::PlaceLimit'), 'order_direction', d), 'PlaceLimit[%s,no book]' % dirname(d), w))
        rejects(C, R, 'no order is accepted before the book exists', R.name)

def placed(R):
    k = tup(TICK, R.w.n)
    return k, final(R, 'orders', k)

@prop('P03')
def recorded(A, C):
    for R in A.place_all():
        C.use(R)
        k, (e, o) = placed(R)
        C.eq(R, e, TRUE, 'an accepted order is stored under (tick, its id)', R.name)
        want = {'tick_id': TICK, 'order_id': R.w.n, 'order_direction': R.dir, 'owner': SENDER, 'quantity': R.q,
                'placed_quantity': R.q, 'claim_bounty': fld(R.m, 'claim_bounty'), 'placed_at': fld(fld(ENV, 'block'), 'time')}
        for f, v in want.items():
            C.eq(R, fld(o, f), v, 'the stored order carries the requested %s' % f, '%s: LimitOrder.%s' % (R.name, f), span=span_of(R, 'orders'))
        only_keys(C, R, 'orders', [k], 'placing an order writes no other order')

@prop('P04')
def queue(A, C):
    for R in A.place_all():
        C.use(R)
        k, (e, o) = placed(R)
        v0 = vals(R.tick0, R.dir)
        C.eq(R, fld(o, 'etas'), fld(v0, CTT), "a new order starts at the side's cumulative placed value before it", R.name + ': LimitOrder.etas', span=span_of(R, 'orders'))
        e, t = final(R, 'tick_state', TICK)
        C.eq(R, e, TRUE, 'the tick is stored', R.name)
        v = vals(t, R.dir)
        C.eq(R, fld(v, CTT), add(fld(v0, CTT), R.q), 'the cumulative placed value grows by exactly the order quantity', R.name + ': ' + CTT, span=span_of(R, 'tick_state'))
        only_keys(C, R, 'tick_state', [TICK], 'only the order\'s own tick changes')

@prop('P05')
def fresh(A, C):
    for R in A.place_all():
        C.use(R)
        e, n = final(R, 'order_id', UNIT)
        C.eq(R, e, TRUE, 'the order counter is stored', R.name)
        C.eq(R, n, add(R.w.n, ONE), 'the order counter advances by one past the id just used', R.name + ': order_id', span=span_of(R, 'order_id'))
        k, (e, o) = placed(R)
        C.eq(R, fld(o, 'order_id'), R.w.n, 'the order id is the counter value before the call', R.name)
        for r in (R.ok,):
            ids = attr(R.okval, 'order_id', R.ok)
            C.check(len(ids) == 1 and same(ids[0][1], tostr(R.w.n), R.ok) is None, 'the reported order id is the stored one', R.name)
    # nobody else moves the counter
    for R in A.everything():
        if R.kind != 'PlaceLimit':
            C.use(R)
            unchanged(C, R, 'order_id', 'only placing an order moves the order counter')
