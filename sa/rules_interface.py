"""Queries, responses, instantiation, migration and the stored/wire format."""
import os, json
from session import *
from rules_auth import has, val, valid
from rules_swap import quotes, fills, fill_rules, walk_rules, swap_accept, prep, swaps
import rules_order, rules_swap

Q = 'QueryMsg::'
NOW = lambda t: t

def q(A, name):
    for R in A.queries():
        if R.path == Q + name: return R
    raise AnalysisError('query %s not found' % name)

def body(R):
    """what the query serialises"""
    t = R.okval if R.okval is not None else mk('none')
    def go(t):
        if t.op == 'ite': return ite(t.a[0], go(t.a[1]), go(t.a[2]))
        return t.a[0] if t.op == 'json' else mk('raw', t)
    return go(t)

def rec(R, suffix, **kw):
    a = adt_of(R.E, suffix)
    v = R.E.adts[a]['variants'][0]
    names = [f['name'] for f in v['fields']]
    if set(names) != set(kw): raise AnalysisError('fields of %s: %s' % (suffix, names))
    return agg(a, v['name'], names, [kw[n] for n in names])

def answers(C, R, want, rule, what=None):
    return C.eq(R, unstr_all(body(R)), unstr_all(want), rule, what or R.name)

def unstr_all(t):
    """amounts and prices are compared by value, whether or not they went through a string"""
    memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = x.a[0] if x.op == 'tostr' else x
            if r is not x: r = go(r)
            elif children(x): r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)

def parsed(c):
    """c given that the textual number conversions succeed"""
    while True:
        n = TRUE
        for a in atoms_of(c):
            if a.op == 'bopq' and a.a[0] == 'parse': n = and_(n, a)
        if n is TRUE: return c
        c2 = restrict(c, n)
        if c2 is c: return c
        c = c2

def always(C, R, rule='this query is answered in every state'): return accepts(C, R, TRUE, rule, R.name)
def stored(C, R): return accepts(C, R, has('orderbook'), 'this query is answered whenever the book exists', R.name)

@prop('Q01')
def read_only(A, C):
    for R in A.queries() + quotes(A):
        C.use(R)
        for ns in set(touched(R, TRUE)) | {e.ns for e in R.effects if e.kind in ('save', 'remove', 'put')}:
            C.bad('a query changes nothing', '%s/%s' % (R.name, ns), 'written at %s' % span_of(R, ns), span_of(R, ns))
        C.ob('a query changes nothing', R.name)
        if getattr(R, 'path', '').endswith('IsActive'): continue
        C.ob('queries do not depend on the activity switch', R.name)
        for t in (in_range(R.ok), R.okval or UNIT):
            for x in subterms(t):
                if x.op in ('val', 'ex', 'has') and 'is_active' in x.a: C.bad('queries do not depend on the activity switch', R.name, 'reads it: %s' % clip(show(t, 6), 200)); break
        C.ob('a query is a function of the stored state and its arguments', R.name)
        for t in (in_range(R.ok), R.okval or UNIT):
            for x in subterms(t):
                if x is ENV or x.op == 'in' and x.a[0].startswith(('env', 'info')): C.bad('a query is a function of the stored state and its arguments', R.name, 'depends on %s' % show(x)); break

@prop('Q02')
def quoted(A, C):
    for R in quotes(A):
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        fill_rules(C, R, L)
        walk_rules(C, R, L)
        swap_accept(C, R, L, TRUE)
        C.eq(R, fld(R.coin, 'denom'), R.tout, 'the quote is in the requested token', R.name)
        C.check(R.output is L.T, 'the quote is the total of the fills', R.name, lambda: clip(show(R.output, 5)))
        C.check(same(R.output, L.T, R.ok) is None, 'the quote is the total of the fills', R.name)
    # only the pair of the book is quoted
    for k in ('CalcOutAmountGivenIn', 'CalcOutAmtGivenIn'):
        R = C.use(q(A, k))
        a, b = fld(fld(R.m, 'token_in'), 'denom'), fld(R.m, 'token_out_denom')
        requires(C, R, is_pair(R, a, b), 'only the pair of the book is quoted', R.name)

def is_pair(R, a, b):
    ob = val('orderbook')
    x, y = fld(ob, 'quote_denom'), fld(ob, 'base_denom')
    return or_(and_(eq(a, x), eq(b, y)), and_(eq(a, y), eq(b, x)))

@prop('Q03')
def declared(A, C):
    rule = 'a query answers with the type it declares'
    E = A.E
    decl = {}
    for fid, f in A.dump['fns'].items():
        p = f['path']
        if not p.endswith('::response_schemas_impl'): continue
        adt = p.split(' as ')[0].lstrip('<').rsplit('::', 1)[-1]
        name = None
        for b in f['body']['blocks'] or ():
            if b is None: continue
            for s in b['st']:
                for c in consts(s):
                    if c.get('ty') == '&str' and 'str' in c: name = c['str']
            t = b['t']
            if t['k'] == 'call':
                for c in consts(t['a']):
                    if c.get('ty') == '&str' and 'str' in c: name = c['str']
                fn = t['f'].get('c', {}).get('fn', {})
                if fn.get('path', '').endswith('::into_root_schema_for') and name:
                    decl[(adt, name)] = fn['args'][0]; name = None
    if not C.check(decl, rule, 'declared response types', 'no declared response types found'): return
    seen = set()
    for R in A.queries():
        C.use(R)
        parts = R.path.split('::')
        key = (parts[0], snake(parts[1]))
        if not C.check(key in decl, rule, R.name, 'no declared response type'): continue
        seen.add(key)
        tys = sorted({e.ns for e in R.effects if e.kind == 'json' and and_(e.pc, R.ok) is not FALSE})
        if R.ok is FALSE: C.ob(rule, R.name); continue
        for ty in tys: C.check(plain(ty) == plain(decl[key]), rule, R.name, 'declares %s, answers %s' % (decl[key], ty))
        C.check(len(tys) >= 1, rule, R.name, 'no serialised answer found')
    for k in decl:
        if k[0] == 'QueryMsg': C.check(k in seen, 'every declared query is answered', '%s::%s' % k, 'not dispatched')

def plain(ty):
    ty = re.sub(r'\b(?:\w+::)+(\w+)', r'\1', ty)
    return ty.replace('&', '').replace(' ', '')
def snake(s): return re.sub(r'(?<!^)(?=[A-Z])', '_', s).lower()
def consts(x):
    if isinstance(x, dict):
        if x.get('k') == 'const' and 'c' in x: yield x['c']
        for v in x.values(): yield from consts(v)
    elif isinstance(x, list):
        for v in x: yield from consts(v)

# ------------------------------------------------------------------------------- listings
def range_src(R, ns, n=0):
    """the storage ranges read by the query"""
    return [e for e in R.effects if e.kind == 'range' and e.ns == ns]

def bounds(m):
    def b(n):
        t = fld(m, n)
        return ite(isvar(t, 'Some'), Some(agg('Bound', 'Inclusive', ['0'], [pl(t, 'Some', '0')])), NONE)
    return b('start_from'), b('end_at')

def a_range(R, src, prefix, lo, hi, ns):
    o = next((x for e in range_src(R, ns) for x in [e.val.a[5]] if x.op == 'agg'), None)
    adt = o.a[0] if o is not None else 'cosmwasm_std::iterator::Order'
    return mk('range', initial(R, ns), src, prefix, lo, hi, agg(adt, 'Ascending', [], []))

def index_of(R, C, e, key_of, rule, what):
    """the index term reads entries by `key_of(order)`"""
    src = e.val.a[1]
    o = sym(R.E, adt_of(R.E, 'types::order::LimitOrder'), 'entry')
    C.ob(rule, what)
    if src.op != 'midx':
        C.bad(rule, what, 'not read through an index: %s' % clip(show(src, 4))); return False
    x = index_key(R.E, src, o)
    if x is None or x is not key_of(o):
        C.bad(rule, what, 'entries are indexed by %s' % (clip(show(x, 4)) if x is not None else '?')); return False
    return True

def index_key(E, src, o):
    s = St({}, {}, TRUE)
    E.cur = ('entry', 0, ())
    fid = next(iter(E.bypath.values()))
    ctx = E.ctx(0, E.bypath['contract::query'], 'index')
    E.fn = E.cfg(E.bypath['contract::query']); E.span = ''
    x = E.apply(src.a[2], [mk('pk'), o], s, ctx, (0, 'index'))
    return E.deep(s, x) if x is not None else None

@prop('Q04')
def listings(A, C):
    rule = 'a listing is the requested window of the stored entries, in order'
    R = C.use(q(A, 'AllTicks')); always(C, R)
    m = R.m
    es = range_src(R, 'tick_state')
    if C.check(es, rule, R.name, 'the stored ticks are not listed'):
        lo, hi = bounds(m)
        rg = a_range(R, es[0].val.a[1], UNIT, lo, hi, 'tick_state')
        C.check(es[0].val.a[1].op == 'map', rule, R.name + ': source', 'not the map of ticks')
        el = mk('elem', rg)
        L = models.lmap(rg, rec(R, 'msg::TickIdAndState', tick_id=el, tick_state=mk('val', initial(R, 'tick_state'), 'tick_state', el)))
        lim = fld(m, 'limit')
        want = ite(isvar(lim, 'Some'), models.ltake(L, pl(lim, 'Some', '0')), L)
        answers(C, R, rec(R, 'msg::TicksResponse', ticks=want), rule)
    R = C.use(q(A, 'OrdersByTick')); always(C, R)
    m = R.m
    es = range_src(R, 'orders')
    if C.check(es, rule, R.name, 'the stored orders are not listed'):
        src = es[0].val.a[1]
        for e in es: C.check(e.val.a[1] is src and src.op == 'ixmap', rule, R.name + ': source', 'not the map of orders')
        lo, hi = bounds(m)
        t = fld(m, 'tick_id')
        rg = a_range(R, src, t, lo, hi, 'orders')
        el = mk('elem', rg)
        L = models.lmap(rg, mk('val', initial(R, 'orders'), 'orders', tup(t, el)))
        lim = fld(m, 'limit')
        want = ite(isvar(lim, 'Some'), models.ltake(L, pl(lim, 'Some', '0')), L)
        answers(C, R, rec(R, 'msg::OrdersResponse', orders=want, count=mk('len', rg)), rule)
    R = C.use(q(A, 'OrdersByOwner')); always(C, R)
    m = R.m
    es = range_src(R, 'orders')
    if C.check(es, rule, R.name, 'the stored orders are not listed'):
        src = es[0].val.a[1]
        for e in es: index_of(R, C, e, lambda o: fld(o, 'owner'), 'the owner index groups orders by their owner', R.name)
        lo, hi = bounds(m)
        who = fld(m, 'owner')
        rg = a_range(R, src, who, lo, hi, 'orders')
        el = mk('elem', rg)
        L = models.lmap(rg, mk('val', initial(R, 'orders'), 'orders', el))
        lim = fld(m, 'limit')
        want = models.ltake(L, ite(isvar(lim, 'Some'), pl(lim, 'Some', '0'), num(100)))
        answers(C, R, rec(R, 'msg::OrdersResponse', orders=want, count=mk('len', a_range(R, src, who, NONE, NONE, 'orders'))), rule)

@prop('Q05')
def spot(A, C):
    E = A.ES
    rule = 'the spot price is the price of the best offer on the opposite side'
    R = C.use(q(A, 'SpotPrice'))
    qd, bd = fld(R.m, 'quote_asset_denom'), fld(R.m, 'base_asset_denom')
    requires(C, R, and_(not_(eq(qd, bd)), and_(has('orderbook'), is_pair(R, qd, bd))), 'a spot price exists only for the pair of the book', R.name)
    for d in (ASK, BID):
        m = msg(E, 'QueryMsg::SpotPrice')
        a, b = (BASE, QUOTE) if d is ASK else (QUOTE, BASE)
        m = with_(with_(m, 'base_asset_denom', a), 'quote_asset_denom', b)
        w = book(World(E))
        R = C.use(query(E, m, 'SpotPrice[%s]' % dirname(d), w))
        R._ok = parsed(in_range(R.ok))
        P = mk('call', TICK_TO_PRICE, (fld(w.ob, 'next_bid_tick' if d is ASK else 'next_ask_tick'),), ())
        p = pl(P, 'Ok', '0')
        answers(C, R, rec(R, 'msg::SpotPriceResponse', spot_price=p if d is ASK else div(ONE, p)), rule)
        accepts(C, R, isvar(P, 'Ok'), 'the pair of the book has a spot price', R.name, pre=not_(eq(p, ZERO)))

@prop('Q06')
def book_queries(A, C):
    rule = 'the answer is what is stored'
    ob = val('orderbook')
    R = C.use(q(A, 'GetTotalPoolLiquidity')); stored(C, R)
    def coin_(d, denom):
        l = s_get(s_init('direction_liquidity'), 'direction_liquidity', st(dirname(d)))
        return agg('cosmwasm_std::coin::Coin', 'Coin', ['denom', 'amount'], [denom, floor(ite(l[0], l[1], ZERO))])
    answers(C, R, rec(R, 'msg::GetTotalPoolLiquidityResponse', total_pool_liquidity=vec(coin_(ASK, fld(ob, 'base_denom')), coin_(BID, fld(ob, 'quote_denom')))), 'the pool holds the liquidity of both sides, each in its own token')
    R = C.use(q(A, 'OrderbookState')); stored(C, R); answers(C, R, ob, rule)
    R = C.use(q(A, 'Denoms')); stored(C, R)
    answers(C, R, rec(R, 'msg::DenomsResponse', quote_denom=fld(ob, 'quote_denom'), base_denom=fld(ob, 'base_denom')), rule)
    R = C.use(q(A, 'TicksById'))
    ids = fld(R.m, 'tick_ids')
    el = mk('elem', ids)
    ts = s_get(s_init('tick_state'), 'tick_state', el)
    answers(C, R, rec(R, 'msg::TicksResponse', ticks=models.lmap(ids, rec(R, 'msg::TickIdAndState', tick_id=el, tick_state=ts[1]))), 'the requested ticks are answered in the requested order')
    all_ticks_exist(C, R, ids)

def all_ticks_exist(C, R, ids, extra=TRUE):
    """accepted exactly when every listed tick is stored"""
    rule = 'the query is refused exactly when a requested tick does not exist'
    C.ob(rule, R.name)
    ls = [(l, i, v) for l, i in R.loops.items() for v, (a, b) in i['vars'].items() if list_under(a) is ids]
    ex = s_get(s_init('tick_state'), 'tick_state', mk('elem', ids))[0]
    ok = ok_of(R)
    if ls:
        if len(ls) != 1: C.bad(rule, R.name, '%d loops over the requested ticks' % len(ls)); return
        l, i, v = ls[0]
        x = mk('nx', v)
        e = s_get(s_init('tick_state'), 'tick_state', x)[0]
        ok = in_range(ok)
        d = differ(ok, not_(mk('hasnext', v)))
        if d: C.bad(rule, R.name, 'the answer can stop early (when %s)' % clip(cases_of(d), 200), i['span']); return
        back = in_range(restrict(i['back_pc'], mk('hasnext', v)))
        d = differ(internal_ok(back), e)
        if d: C.bad(rule, R.name, 'a tick is passed over or refused wrongly (when %s)' % clip(cases_of(d), 200), i['span'])
    else:
        # expressed over the whole list: the condition is a conjunction over its elements
        q_ = mk('all', ids, ex)
        d = differ(internal_ok(ok), ok)
        for a in atoms_of(ok):
            C.notes.append('condition over the list: %s' % clip(show(a, 6), 200))
        if ok is TRUE: C.bad(rule, R.name, 'accepted whatever ticks are requested')

def list_under(t):
    while t.op in ('iter', 'lmap') and t.op != 'lmap': t = t.a[0]
    return t

def internal_ok(t):
    while True:
        n = TRUE
        for a in atoms_of(t):
            if a.op == 'isvar' and a.a[0].op == 'call' and a.a[0].a[0] == PREFIX_SUM: n = and_(n, a)
        if n is TRUE: return t
        t2 = restrict(t, n)
        if t2 is t: return t
        t = t2

@prop('Q07')
def settings(A, C):
    rule = 'the answer is what is stored'
    for name, ns in (('Admin', 'admin'), ('AdminOffer', 'admin_offer'), ('Moderator', 'moderator'), ('ModeratorOffer', 'moderator_offer')):
        R = C.use(q(A, 'Auth::AuthQueryMsg::' + name)); always(C, R)
        answers(C, R, ite(has(ns), Some(val(ns)), NONE), rule)
    R = C.use(q(A, 'GetMakerFee')); always(C, R)
    answers(C, R, ite(has('maker_fee'), val('maker_fee'), ZERO), rule)
    R = C.use(q(A, 'IsActive')); always(C, R)
    answers(C, R, ite(has('is_active'), val('is_active'), TRUE), rule)
    R = C.use(q(A, 'GetSwapFee')); always(C, R)
    answers(C, R, rec(R, 'msg::GetSwapFeeResponse', swap_fee=ZERO), 'swaps carry no fee')
    rejects(C, C.use(q(A, 'CalcInAmtGivenOut')), 'input for a given output is not supported', 'CalcInAmtGivenOut')

@prop('Q08')
def unrealized(A, C):
    rule = 'unrealised cancels are what the cancellation record holds beyond the realised amount'
    R = C.use(q(A, 'GetUnrealizedCancels'))
    ids = fld(R.m, 'tick_ids')
    el = mk('elem', ids)
    ts = s_get(s_init('tick_state'), 'tick_state', el)[1]
    def side(d):
        v = vals(ts, d)
        k = s_get(s_init('tree'), 'tree', tup(el, st(dirname(d))))
        n = s_get(s_init('nodes'), 'nodes', tup(el, k[1]))
        s = pl(mk('call', PREFIX_SUM, (n[1], fld(v, ETAS), fld(v, CRC)), prefix_reads(R)), 'Ok', '0')
        return ite(k[0], ite(n[0], satsub(s, fld(v, CRC)), ZERO), ZERO)
    want = rec(R, 'msg::TickUnrealizedCancels', tick_id=el, unrealized_cancels=rec(R, 'msg::UnrealizedCancels', ask_unrealized_cancels=side(ASK), bid_unrealized_cancels=side(BID)))
    answers(C, R, rec(R, 'msg::GetUnrealizedCancelsResponse', ticks=models.lmap(ids, want)), rule)
    all_ticks_exist(C, R, ids)

def prefix_reads(R):
    c = next((x for x in subterms(R.okval) if x.op == 'call' and x.a[0] == PREFIX_SUM), None)
    return c.a[2] if c is not None else ()

# ------------------------------------------------------------------------------- responses
def report(C, R, attrs, want, rule, construct, pc=None):
    """exactly the wanted attributes, in any order"""
    pc = R.ok if pc is None else pc
    attrs_are(C, R, attrs, want, rule, construct, pc)
    known = {k for k, v in want}
    for p, e in guarded(attrs, pc):
        k = fld(e, '0') if e.op == 'agg' else e
        C.check(k.op == 'str' and k.a[0] in known, 'no other attribute is reported', construct, 'reports %s' % clip(show(e, 5)))

def bare(C, R, data=True, pc=None):
    """no event and no data besides the attributes"""
    pc = R.ok if pc is None else pc
    rule = 'nothing but the documented response is returned'
    C.check(not guarded(fld(R.okval, 'events'), pc), rule, R.name + ': events', 'an event is emitted')
    if data: C.eq(R, fld(R.okval, 'data'), NONE, rule, R.name + ': data', pc=pc)

def denoms(R): return [('order_denom', R.denom), ('output_denom', R.other)]

@prop('E01')
def reported(A, C):
    rule = 'the response reports what happened'
    for d in (BID, ASK):
        for b in (True, False):
            R = C.use(A.place(d, b))
            w = R.w
            report(C, R, fld(R.okval, 'attributes'), [('method', st('placeLimit')), ('owner', SENDER), ('tick_id', TICK), ('order_id', w.n), ('order_direction', st(dirname(d))), ('quantity', R.q)] + denoms(R), rule, R.name)
            bare(C, R)
        R = C.use(cancel(A, d))
        o = R.o
        report(C, R, fld(R.okval, 'attributes'), [('method', st('cancelLimit')), ('owner', fld(o, 'owner')), ('tick_id', TICK), ('order_id', OID), ('quantity', fld(o, 'quantity')), ('order_direction', st(dirname(d))), ('initial_quantity', fld(o, 'placed_quantity'))] + denoms(R), rule, R.name, pc=and_(R.ok, eq(SENDER, fld(o, 'owner'))))
        bare(C, R)
        for b in (True, False):
            for f in (True, False):
                R = C.use(claim(A, d, b, f))
                if not C.check(len(R.sync) == 1, rule, R.name, 'the tick is not synchronised once'): continue
                o = R.o
                F, raw, bounty, fee = rules_order.claim_spec(R)
                pc = in_range(and_(R.ok, rules_order.sane(R)))
                rest = sub(fld(o, 'quantity'), F)
                report(C, R, fld(R.okval, 'attributes'), [('method', st('claimLimit'))], rule, R.name, pc)
                C.eq(R, fld(R.okval, 'data'), NONE, 'nothing but the documented response is returned', R.name + ': data', pc=pc)
                evs = guarded(fld(R.okval, 'events'), pc)
                if not C.check(len(evs) == 1 and implies(pc, evs[0][0]), rule, R.name + ': event', 'a claim emits %d events' % len(evs)): continue
                ev = evs[0][1]
                C.eq(R, fld(ev, 'ty'), st('limitClaimed'), rule, R.name + ': event type', pc=pc)
                net = sub(sub(raw, bounty), fee)
                report(C, R, fld(ev, 'attributes'), [('sender', SENDER), ('tick_id', TICK), ('order_id', OID), ('quantity_remaining', rest), ('owner', fld(o, 'owner')), ('order_direction', st(dirname(d))),
                       ('amount_claimed', net), ('placed_quantity', fld(o, 'placed_quantity')), ('fully_claimed', eq(rest, ZERO))] + denoms(R), rule, R.name + ': event', pc)
    R = C.use(batch(A))
    report(C, R, fld(R.okval, 'attributes'), [('method', st('batchClaimLimit')), ('sender', SENDER)], rule, R.name)
    for R in swaps(A):
        R.entry_kind = 'swap'; prep(R)
        C.use(R)
        L = fills(C, R)
        if L is None: continue
        kind = R.name.split('[')[0]
        want = [('method', st('swapExactAmountIn')), ('sender', fld(R.m, 'sender')), ('token_in', fld(R.m, 'token_in')), ('token_out_denom', R.tout), ('output_quantity', L.T)]
        want.append(('token_out_min_amount', fld(R.m, 'token_out_min_amount')))
        report(C, R, fld(R.okval, 'attributes'), want, rule, R.name)
        bare(C, R, data=False)

# ------------------------------------------------------------------------------- life cycle
GOV = 'osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp'
SUBDAO = 'osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl'
FEES = 'osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6'

@prop('I01')
def instantiated(A, C):
    R = C.use(instantiate(A))
    m = R.m
    qd, bd = fld(m, 'quote_denom'), fld(m, 'base_denom')
    def supply(dn):
        r = mk('call', 'query_supply', (dn,), ())
        return and_(isvar(r, 'Ok'), not_(eq(fld(pl(r, 'Ok', '0'), 'amount'), ZERO)))
    accepts(C, R, conj(valid(st(GOV)), valid(st(SUBDAO)), valid(st(FEES)), not_(eq(qd, bd)), supply(qd), supply(bd)), 'a book is created exactly for two different tokens that both exist', R.name)
    rule = 'a new book starts empty, with the documented roles and fees'
    want = {'admin': st(GOV), 'moderator': st(SUBDAO), 'maker_fee': ZERO, 'maker_fee_recipient': st(FEES)}
    for ns, v in want.items():
        e, x = final(R, ns, UNIT)
        C.eq(R, e, TRUE, rule, ns); C.eq(R, x, v, rule, ns, span=span_of(R, ns))
    e, x = final(R, 'orderbook', UNIT)
    C.eq(R, e, TRUE, rule, 'orderbook')
    for f, v in (('quote_denom', qd), ('base_denom', bd), ('current_tick', ZERO), ('next_bid_tick', MIN_TICK), ('next_ask_tick', MAX_TICK)):
        C.eq(R, fld(x, f), v, rule, 'orderbook.' + f, span=span_of(R, 'orderbook'))
    e, x = final(R, 'contract_info', UNIT)
    C.eq(R, e, TRUE, 'the contract records its name and version', 'contract_info')
    for ns in touched(R):
        C.check(ns in want or ns in ('orderbook', 'contract_info'), rule, ns, 'written at %s' % span_of(R, ns))
    report(C, R, fld(R.okval, 'attributes'), [('method', st('instantiate')), ('quote_denom', qd), ('base_denom', bd)], 'the response reports what happened', R.name)

@prop('I02')
def migrated(A, C):
    R = C.use(migrate(A))
    accepts(C, R, TRUE, 'a migration to this code is accepted', R.name)
    for ns in sorted(set(R.st.cont) | set(STORES)): unchanged(C, R, ns, 'a migration leaves the stored state as it is')
    C.check(not guarded(fld(R.okval, 'messages'), R.ok), 'a migration sends nothing', R.name)

# ------------------------------------------------------------------------------- formats
WIRE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wire.json')
STORES = {
    'order_id': 'Item<u64>', 'orderbook': 'Item<Orderbook>', 'tick_state': 'Map<i64,TickState>', 'direction_liquidity': 'Map<str,Decimal256>',
    'is_active': 'Item<bool>', 'maker_fee': 'Item<Decimal256>', 'maker_fee_recipient': 'Item<Addr>', 'admin': 'Item<Addr>', 'admin_offer': 'Item<Addr>',
    'moderator': 'Item<Addr>', 'moderator_offer': 'Item<Addr>', 'nodes': 'Map<(i64,u64),TreeNode>', 'node_id': 'Map<i64,u64>', 'tree': 'Map<(i64,str),u64>',
    'orders': 'IndexedMap<(i64,u64),LimitOrder,OrderIndexes>',
}

def store_ty(ty):
    ty = plain(re.sub(r"'\w+,? ?", '', ty))
    return ty

def stores(A):
    """{namespace: (declared type, constant)} of every declared store"""
    E = A.E
    out = {}
    for fid, f in A.dump['fns'].items():
        ty = f.get('ty') or ''
        if f['kind'] == 'Fn' and f.get('body') and not f['body'].get('args'): ty = f['body']['locals'][0]['ty'] if isinstance(f['body']['locals'][0], dict) else f['body']['locals'][0]
        if not re.match(r'cw_storage_plus::(\w+::)*(Item|Map|IndexedMap)<', ty or ''): continue
        s = St({}, {}, TRUE)
        E.effects = []; E.loops = {}; E.fn = E.cfg(fid); E.span = ''; E.cur = ('entry', 0, ())
        t = E.run(E.cfg(fid), E.ctx(0, fid, fid), [], s)
        if t is None: continue
        t = E.deep(s, t)
        if t.op in ('item', 'map', 'ixmap'): out.setdefault(t.a[0], []).append((store_ty(ty), short(fid), t))
        else: out.setdefault('?' + show(t, 3), []).append((store_ty(ty), short(fid), t))
    return out

@prop('I03')
def storage_layout(A, C):
    rule = 'stored data stays where earlier versions wrote it'
    found = stores(A)
    for ns, ty in STORES.items():
        if not C.check(ns in found, rule, ns, 'no store with this namespace'): continue
        for t, where, _ in found[ns]: C.check(t == ty, rule, '%s (%s)' % (ns, where), 'has type %s, stored data has type %s' % (t, ty))
        C.check(len(found[ns]) == 1, 'no two stores share a namespace', ns, 'declared as %s' % ', '.join(w for _, w, _ in found[ns]))
    names = list(found)
    for a in names:
        for b in names:
            if a < b and (a == b): pass
    # the secondary indexes
    t = next((x for _, _, x in found.get('orders', [])), None)
    if C.check(t is not None, rule, 'order indexes', 'orders not found'):
        idx = {}
        for i in subterms(t):
            if i.op == 'midx': idx[i.a[1]] = i
        o = sym(A.E, adt_of(A.E, 'types::order::LimitOrder'), 'entry')
        want = {'orders_owner': fld(o, 'owner'), 'orders_tick_and_owner': tup(fld(o, 'tick_id'), fld(o, 'owner'))}
        for n, k in want.items():
            if not C.check(n in idx, rule, 'index ' + n, 'no such index'): continue
            x = index_key(A.E, idx[n], o)
            C.check(x is k, 'orders are indexed by owner and by tick and owner', 'index ' + n, lambda: 'indexes %s' % (show(x, 4) if x is not None else '?'))
            C.check(idx[n].a[0] == 'orders', 'the index refers to the orders', 'index ' + n)
        # every index is maintained by the map
        fid = next((f for f, x in A.dump['fns'].items() if x['path'].endswith('IndexList<types::order::LimitOrder>>::get_indexes')), None)
    # keys of the per-side entries
    for R in [A.place(d, True) for d in (BID, ASK)]:
        C.use(R)
        only_keys(C, R, 'direction_liquidity', [st(dirname(R.dir))], rule)
        only_keys(C, R, 'orders', [tup(TICK, R.w.n)], rule)
    for d in (BID, ASK):
        R = C.use(cancel(A, d))
        only_keys(C, R, 'direction_liquidity', [st(dirname(d))], rule)
    used = {e.ns for R in A.everything(True) for e in R.effects if e.kind in ('load', 'save', 'remove', 'range')}
    for ns in sorted(x for x in used if isinstance(x, str)):
        C.check(ns in STORES or ns == 'contract_info', 'only the declared stores are used', ns, 'unknown store')
    raw = [e for R in A.everything(True) for e in R.effects if e.kind == 'rawstore']
    C.check(not raw, 'storage is reached only through the declared stores', 'raw access', lambda: '%s in %s' % (raw[0].ns, raw[0].fn))

def wire(A):
    """{type: {'de': visitor field-name sets, 'ser': names written, 'types': field types}} of every (de)serialised type of the crate"""
    out = {}
    for fid, f in A.dump['fns'].items():
        p = f['path']
        m = re.search(r'<impl serde::de::Deserialize<\'de> for ([\w:]+)>::deserialize', p)
        if m and p.endswith('::visit_str'):
            ns = sorted(str_consts(f))
            out.setdefault(m.group(1).rsplit('::', 1)[-1], {'de': [], 'ser': [], 'ty': []})['de'].append(ns)
        m = re.search(r'<impl serde::ser::Serialize for ([\w:]+)>::serialize$', p)
        if m:
            ns = sorted({s for s in ser_consts(f)})
            t = m.group(1).rsplit('::', 1)[-1]
            out.setdefault(t, {'de': [], 'ser': [], 'ty': []})['ser'] += [x for x in ns if x != t]
    for t, w in out.items():
        adts = [a for a in A.E.adts if a.rsplit('::', 1)[-1] == t and not a.startswith(('cosmwasm', 'core', 'alloc', 'std'))]
        if len(adts) == 1:
            for v in A.E.adts[adts[0]]['variants']: w['ty'].append(sorted(plain(x['ty']) for x in v['fields']))
        w['de'].sort(); w['ser'].sort(); w['ty'].sort()
    return out

def str_consts(f):
    s = set()
    for b in f['body']['blocks'] or ():
        if b is None: continue
        for c in consts(b):
            if 'str' in c and c.get('ty', '').endswith('str'): s.add(c['str'])
    return s

def ser_consts(f):
    for b in f['body']['blocks'] or ():
        if b is None or b['t']['k'] != 'call': continue
        fn = b['t']['f'].get('c', {}).get('fn', {}).get('path', '')
        if 'serialize_' not in fn: continue
        cs = [c['str'] for c in consts(b) if 'str' in c and c.get('ty', '').endswith('str')]
        for c in cs: yield c

MESSAGES = ('InstantiateMsg', 'MigrateMsg', 'ExecuteMsg', 'AuthExecuteMsg', 'QueryMsg', 'AuthQueryMsg', 'SudoMsg')
STORED = ('LimitOrder', 'Orderbook', 'TickState', 'TickValues', 'TreeNode', 'NodeType', 'OrderDirection')

@prop('I04')
def wire_format(A, C):
    frozen = json.load(open(WIRE))
    now = wire(A)
    for t, w in sorted(frozen.items()):
        kind = 'stored' if t in STORED else 'message' if t in MESSAGES else 'response'
        rule = {'stored': 'records written by earlier versions stay readable', 'message': 'messages of existing clients are understood', 'response': 'clients find the documented fields'}[kind]
        if not C.check(t in now, rule, t, 'type is no longer (de)serialised'): continue
        n = now[t]
        for k, what in (('de', 'names read'), ('ser', 'names written'), ('ty', 'field types')):
            if kind == 'stored': good = n[k] == w[k]
            elif k == 'ser': good = kind == 'message' or set(w[k]) <= set(n[k])
            elif kind == 'message':
                # existing variants keep their exact fields; new variants may be added
                top = max(w['de'], key=len) if k == 'de' and len(w['ty']) > 1 else None
                rest = [x for x in w[k] if x is not top]
                good = subset(rest, n[k]) and (top is None or any(set(top) <= set(y) for y in n[k]))
            else: good = all(any(subset(x, y) for y in n[k]) for x in w[k])
            C.check(good, rule, '%s: %s' % (t, what), 'are %s, were %s' % (diffs(n[k], w[k])))

def diffs(a, b):
    x = [i for i in a if i not in b]; y = [i for i in b if i not in a]
    return clip(str(x), 200), clip(str(y), 200)
def subset(x, y):
    y = list(y)
    for i in x:
        if i not in y: return False
        y.remove(i)
    return True

@prop('I05')
def deterministic(A, C):
    rule = 'results depend only on the stored state, the message and the tokens sent'
    blk = fld(ENV, 'block')
    for R in A.everything(True) + [A.place(d) for d in (BID, ASK)] + [claim(A, d) for d in (BID, ASK)] + [cancel(A, d) for d in (BID, ASK)] + swaps(A) + quotes(A):
        C.use(R)
        C.ob(rule, R.name)
        memo = {}
        def clock(t):
            """t mentions the clock other than as an order's placing time"""
            r = memo.get(t.id)
            if r is None:
                if t is ENV or t.op == 'fld' and t.a[0] is ENV and t.a[1] != 'contract': r = True
                elif t.op == 'fld' and t.a[0] is ENV: r = False
                elif t.op == 'agg': r = any(clock(x) for n, x in zip(t.a[2], t.a[3]) if n != 'placed_at')
                elif t.op == 'with': r = clock(t.a[0]) or any(clock(v) for n, v in t.a[1] if n != 'placed_at')
                elif t.op in ('call', 'loop', 'lv') and False: r = False
                else: r = any(clock(x) for x in children(t)) if t.a else False
                memo[t.id] = r
            return r
        ok = in_range(R.ok)
        if any(clock(a) for a in atoms_of(ok)): C.bad(rule, R.name, 'acceptance depends on the block or transaction environment')
        if R.okval is not None and clock(R.okval): C.bad(rule, R.name, 'the response depends on the block or transaction environment')
        for ns, c in R.st.cont.items():
            if clock(restrict(c, R.ok)): C.bad(rule, '%s/%s' % (R.name, ns), 'stored data depends on the block or transaction environment', span_of(R, ns))
        for l, i in R.loops.items():
            for v, (a, b) in i['vars'].items():
                if b is not None and clock(b): C.bad(rule, R.name, 'a loop depends on the block or transaction environment', i['span'])
    # no source of non-determinism in any function the entry points can reach
    rule = 'no function reachable from an entry point is a source of non-determinism'
    E = A.E
    seen = set()
    for e in ('contract::execute', 'contract::query', 'contract::instantiate', 'contract::migrate', 'contract::reply', 'sudo::sudo', 'contract::sudo'):
        if e in E.bypath: seen |= set(E.reach(E.bypath[e]))
    for fid in sorted(seen):
        f = A.dump['fns'].get(fid)
        if not f or not f.get('body'): continue
        C.ob(rule, short(fid))
        for l in f['body']['locals']:
            ty = l['ty'] if isinstance(l, dict) else l
            if re.search(r'\bf(32|64)\b', ty): C.bad(rule, short(fid), 'computes with floating point', f.get('span', '')); break
            if re.search(r'\b(HashMap|HashSet|RandomState|Instant|SystemTime|ThreadRng|AtomicU\w+|AtomicI\w+|RefCell|OnceCell|OnceLock|Mutex|LazyLock)\b', ty): C.bad(rule, short(fid), 'uses %s' % ty, f.get('span', '')); break
        for b in f['body']['blocks'] or ():
            if b is None: continue
            for s in b['st']:
                if s.get('k') == 'a' and 'thread_local' in json.dumps(s): C.bad(rule, short(fid), 'uses a thread local', s.get('s', ''))
            t = b['t']
            if t['k'] == 'call':
                p = t['f'].get('c', {}).get('fn', {}).get('path', '')
                if re.match(r'(std::(time|env|fs|net|thread|process|io)|rand|getrandom|chrono)::', p): C.bad(rule, short(fid), 'calls ' + p, b.get('s', ''))

# ------------------------------------------------------------------------------- what the chain is given
WASM = ('--cfg', 'target_arch="wasm32"', '-Aexplicit_builtin_cfgs_in_flags')
EXPORTS = {'instantiate': ('contract::instantiate',), 'execute': ('contract::execute',), 'query': ('contract::query',), 'migrate': ('contract::migrate',),
           'reply': ('contract::reply',), 'sudo': ('sudo::sudo', 'contract::sudo')}
EXPORT = re.compile(r'^( *)mod __wasm_export_(\w+) \{\s*#\[no_mangle\]\s*(?:pub )?extern "C" fn (\w+)\(([^)]*)\)\s*->\s*u32\s*\{\s*(?:::)?cosmwasm_std::do_(\w+)\(\s*&super::(\w+)([^)]*)\)\s*\}\s*\}\n', re.M)

def strip_generated(src):
    """expanded source without the exported wrappers and the schema listing, which exist for one target only by design"""
    src = EXPORT.sub('', src)
    return re.sub(r'^( *)#\[automatically_derived\]\n\1impl (?:::)?cosmwasm_schema::QueryResponses for .*?^\1\}\n', '', src, flags=re.M | re.S)

def enclosing(src, pos, indent):
    """path of the modules around a position of pretty-printed source"""
    out = []
    for l in reversed(src[:pos].splitlines()):
        m = re.match(r'^( *)(?:pub(?:\([^)]*\))? )?mod (\w+) \{', l)
        if m and len(m.group(1)) < indent:
            out.append(m.group(2)); indent = len(m.group(1))
            if not indent: break
    return '::'.join(reversed(out))

@prop('I06')
def exported(A, C):
    import dump, difflib
    here, chain = dump.expand(), dump.expand(WASM)
    rule = 'the chain can call every entry point, and gets the function of that name'
    found = {}
    for m in EXPORT.finditer(chain):
        found.setdefault(m.group(3), []).append((m.group(5), (enclosing(chain, m.start(), len(m.group(1))) + '::' + m.group(6)).lstrip(':'), m.group(4), m.group(7)))
    for n, want in EXPORTS.items():
        g = found.get(n, [])
        if not C.check(len(g) == 1, rule, n, 'exported %d times' % len(g)): continue
        do, target, params, args = g[0]
        C.check(do == n, rule, n, 'runs do_%s' % do)
        C.check(target in want, rule, n, 'runs ' + target)
        names = [x.split(':')[0].strip() for x in params.split(',') if x.strip()]
        C.check([x.strip() for x in args.split(',') if x.strip()] == names, rule, n, 'passes %s' % args)
        C.check(any(w in A.E.bypath for w in want), rule, n, 'function not found')
    for n in found: C.check(n in EXPORTS, 'nothing else can be called', n, 'additional export')
    rule = 'the code built for the chain is the code built everywhere else'
    a, b = strip_generated(here).splitlines(), strip_generated(chain).splitlines()
    fns = {}
    for src, lines in (('here', a), ('chain', b)):
        cur = '?'
        for l in lines:
            m = re.match(r'^ {0,12}(?:#\[[^\]]*\] )?(?:pub(?:\([^)]*\))? )?(?:const )?fn (\w+)', l)
            if m: cur = m.group(1)
            fns.setdefault((src, cur), []).append(l)
    names = sorted({f for _, f in fns})
    C.check(len(names) > 100, rule, 'expanded source', '%d functions' % len(names))
    for f in names:
        x, y = fns.get(('here', f), []), fns.get(('chain', f), [])
        C.ob(rule, f)
        if x != y:
            d = [l for l in difflib.unified_diff(x, y, 'everywhere', 'chain', lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
            C.bad(rule, f, 'differs: ' + clip(' / '.join(d[:6]), 400))
