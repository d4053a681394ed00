"""Analysed entry points, shared by the rules (each run is memoised)."""
from lib import *
import lib

REG = {}
def prop(pid):
    def d(f):
        REG.setdefault(pid, []).append(f); return f
    return d

TICK, OID = INP('tick_id'), INP('order_id')
INT.add(TICK.id); INT.add(OID.id)

class Session:
    def __init__(self, dump):
        self.dump = dump
        self.E = Engine(dump, opaque=OPAQUE)
        self.ES = Engine(dump, opaque=OPAQUE + (SYNC,))
        self.ES.summaries[SYNC] = sync_summary
        self.memo = {}
        for p in OPAQUE + (SYNC,):
            if p not in self.E.bypath: raise AnalysisError('anchor function %s not found' % p)

    def get(self, key, f):
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = f()
        return r

    # --------------------------------------------------------------- place
    def place(self, d, bounty=True, tick=True, counter=True, liq=True, active=True):
        def go():
            E = self.E
            w = World(E).orderbook()
            if active is None: w.absent('is_active')
            elif active is not ANY: w.active(boolean(active))
            if tick: w.tick(TICK)
            else: w.absent('tick_state', TICK)
            w.n = ZERO
            if counter: w.n = w.item('order_id', 'counter', True)
            else: w.absent('order_id')
            w.liq = ZERO
            if liq:
                w.liq = INP('liq'); INT.add(w.liq.id); w.put('direction_liquidity', st(dirname(d)), w.liq)
            else: w.absent('direction_liquidity', st(dirname(d)))
            m = msg(E, 'ExecuteMsg::PlaceLimit')
            m = with_(m, 'order_direction', d)
            m = with_(m, 'claim_bounty', Some(INP('bounty')) if bounty else NONE)
            w.m = m
            R = execute(E, m, 'PlaceLimit[%s%s%s%s%s]' % (dirname(d), ',bounty' if bounty else '', '' if tick else ',new tick', '' if counter else ',first order', '' if liq else ',no liquidity'), w)
            R.dir = d; R.m = m; R.w = w
            R.denom = fld(w.ob, 'quote_denom' if d is BID else 'base_denom')
            R.other = fld(w.ob, 'base_denom' if d is BID else 'quote_denom')
            R.q = fld(m, 'quantity')
            zero = zero_tick(E)
            R.tick0 = w.ts if tick else zero
            return R
        return self.get(('place', dirname(d), bounty, tick, counter, liq, active), go)

    def place_all(self):
        out = [self.place(d, b) for d in (BID, ASK) for b in (True, False)]
        out += [self.place(d, True, tick=False) for d in (BID, ASK)]
        out += [self.place(d, True, counter=False) for d in (BID, ASK)]
        out += [self.place(d, True, liq=False) for d in (BID, ASK)]
        return out

def sync_summary(E, fid, vals, st):
    """effect of a tick sync: the tick's effective amount swapped, realised cancels and sync marker
    take new values, the (lazily created) tree roots may change; nothing else.  Established by A03."""
    nss = sorted(E.namespaces_of(fid))
    reads = tuple(st.cont.get(n) or s_init(n) for n in nss)
    vals = [v for v in vals if not (v.op == 'in' and v.a[0] == 'storage')]
    r = mk('call', SYNC, tuple(vals), reads)
    E.effect('call', SYNC, tup(*vals), r, st, extra=fid)
    t = vals[0]
    c = restrict(st.cont.get('tick_state') or s_init('tick_state'), st.pc)
    e, v = s_get(c, 'tick_state', t)
    for d in (BID, ASK):
        x = vals_of(v, d)
        for f in (ETAS, CRC, LAST): x = with_(x, f, fld(mk('sync', r, dirname(d)), f))
        v = with_(v, 'bid_values' if d is BID else 'ask_values', x)
    st.cont['tick_state'] = mk('W', c, t, v)
    for n in nss:
        if n != 'tick_state': st.cont[n] = mk('H', st.cont.get(n) or s_init(n), r)
    return ite(and_(e, isvar(r, 'Ok')), Ok(UNIT), Err(mk('err', 'sync')))
def vals_of(ts, d): return fld(ts, 'bid_values' if d is BID else 'ask_values')

class _Any: pass
ANY = _Any()

def zero_tick(E):
    a = adt_of(E, 'types::tick::TickState')
    t = sym(E, a, 'z')
    def z(t): return agg(t.a[0], t.a[1], t.a[2], [z(x) if x.op == 'agg' else ZERO for x in t.a[3]])
    return z(t)

def vals(ts, d): return fld(ts, 'bid_values' if d is BID else 'ask_values')
def set_vals(ts, d, v): return with_(ts, 'bid_values' if d is BID else 'ask_values', v)
TAL, CTT, ETAS, CRC, LAST = 'total_amount_of_liquidity', 'cumulative_total_value', 'effective_total_amount_swapped', 'cumulative_realized_cancels', 'last_tick_sync_etas'

def sym_node(E, t, k, d, name, leaf=None):
    n = sym(E, adt_of(E, 'sumtree::node::TreeNode'), name)
    n = with_(with_(n, 'tick_id', t), 'key', k)
    if d is not None: n = with_(n, 'direction', d)
    return n

class _Cancel: pass
def cancel(A, d, root=True, bounty=True):
    """CancelLimit of an existing order"""
    def go():
        E = A.ES
        w = World(E).orderbook().active().tick(TICK).order(TICK, OID, d, bounty)
        w.liq = INP('liq'); INT.add(w.liq.id); w.put('direction_liquidity', st(dirname(d)), w.liq)
        m = msg(E, 'ExecuteMsg::CancelLimit')
        R = execute(E, m, 'CancelLimit[%s%s]' % (dirname(d), '' if bounty else ',no bounty'), w)
        finish(A, R, w, d)
        return R
    return A.get(('cancel', dirname(d), root, bounty), go)

def finish(A, R, w, d):
    R.dir = d; R.w = w; R.o = w.o
    R.denom = fld(w.ob, 'quote_denom' if d is BID else 'base_denom')
    R.other = fld(w.ob, 'base_denom' if d is BID else 'quote_denom')
    R.sync = calls(R, SYNC, R.pc)

def claim(A, d, bounty=True, fee=True, recipient=True):
    """ClaimLimit of an existing order"""
    def go():
        E = A.ES
        w = World(E).orderbook().active().tick(TICK).order(TICK, OID, d, bounty)
        w.fee = None
        if fee: w.fee = w.item('maker_fee', 'fee')
        else: w.absent('maker_fee')
        if recipient: w.rcpt = w.item('maker_fee_recipient', 'rcpt')
        else: w.absent('maker_fee_recipient')
        m = msg(E, 'ExecuteMsg::ClaimLimit')
        R = execute(E, m, 'ClaimLimit[%s%s%s%s]' % (dirname(d), ',bounty' if bounty else '', ',fee' if fee else '', '' if recipient else ',no recipient'), w)
        finish(A, R, w, d)
        return R
    return A.get(('claim', dirname(d), bounty, fee, recipient), go)

QUOTE, BASE = st('«quote»'), st('«base»')

def book(w, concrete=True):
    """existing order book with two different denoms"""
    w.orderbook()
    if concrete:
        w.ob = with_(with_(w.ob, 'quote_denom', QUOTE), 'base_denom', BASE)
        w.put('orderbook', UNIT, w.ob)
    return w

def swap(A, d, kind='SwapExactAmountIn', liq=True, target=None):
    """sudo swap of a market order of direction d (Bid: quote in, base out)"""
    def go():
        E = A.E
        w = book(World(E).active())
        w.liq = ZERO
        if liq: w.liq = INP('liq'); INT.add(w.liq.id); w.put('direction_liquidity', st(dirname(opp(d))), w.liq)
        else: w.absent('direction_liquidity', st(dirname(opp(d))))
        m = msg(E, 'SudoMsg::' + kind)
        tin, tout = (QUOTE, BASE) if d is BID else (BASE, QUOTE)
        coin = agg('cosmwasm_std::coin::Coin', 'Coin', ['denom', 'amount'], [tin, INP('token_in.amount')])
        INT.add(fld(coin, 'amount').id)
        m = with_(with_(m, 'token_in', coin), 'token_out_denom', tout)
        if target is not None: m = with_(m, 'target_tick', target)
        R = sudo(E, m, '%s[%s]' % (kind, dirname(d)), w)
        R.dir, R.w, R.m = d, w, m
        R.tin, R.tout = tin, tout
        R.amount = fld(coin, 'amount')
        R.bound = fld(m, 'target_tick') if kind == 'SwapToTick' else (MAX_TICK if d is BID else MIN_TICK)
        return R
    return A.get(('swap', kind, dirname(d), liq, target), go)

def batch(A):
    """BatchClaim of an arbitrary list of orders"""
    def go():
        E = A.ES
        w = book(World(E).active())
        w.fee = w.item('maker_fee', 'fee'); w.rcpt = w.item('maker_fee_recipient', 'rcpt')
        m = msg(E, 'ExecuteMsg::BatchClaim')
        R = execute(E, m, 'BatchClaim', w)
        R.w, R.m = w, m
        return R
    return A.get(('batch',), go)

# --------------------------------------------------------------------------- every entry point
def all_messages(E):
    """[(entry, variant path, message term)] of every message the contract understands"""
    out = []
    for adt, entry in (('ExecuteMsg', 'execute'), ('SudoMsg', 'sudo'), ('QueryMsg', 'query')):
        a = adt_of(E, 'msg::' + adt)
        for v in E.adts[a]['variants']:
            inner = [f['ty'] for f in v['fields']]
            if len(inner) == 1 and v['fields'][0]['name'] == '0' and inner[0] in E.adts and len(E.adts[inner[0]]['variants']) > 1:
                sub_ = inner[0].rsplit('::', 1)[-1]
                for x in E.adts[inner[0]]['variants']:
                    p = '%s::%s::%s::%s' % (adt, v['name'], sub_, x['name'])
                    out.append((entry, p, msg(E, p)))
            else:
                p = '%s::%s' % (adt, v['name'])
                out.append((entry, p, msg(E, p)))
    return out

def generic(A, entry, path, m, world=None, tag='', E=None):
    """the call in an arbitrary storage state (or the given one)"""
    E = E or A.ES
    def go():
        w = world(E) if world else None
        name = path.rsplit('::', 1)[-1] + tag
        if entry == 'execute': R = execute(E, m, name, w)
        elif entry == 'sudo': R = sudo(E, m, name, w)
        else: R = query(E, m, name, w)
        R.entry, R.kind, R.path, R.m, R.w = entry, path.rsplit('::', 1)[-1], path, m, w
        return R
    return A.get(('generic', entry, path, m, tag, E is A.E), go)

def instantiate(A):
    def go():
        E = A.ES
        m = sym(E, adt_of(E, 'msg::InstantiateMsg'), 'msg')
        R = run(E, 'contract::instantiate', [deps(), ENV, INFO, m], 'instantiate')
        R.entry = R.kind = R.path = 'instantiate'; R.m = m
        return R
    return A.get(('instantiate',), go)

def migrate(A):
    def go():
        E = A.ES
        R = run(E, 'contract::migrate', [deps(), ENV, INP('migrate_msg')], 'migrate')
        R.entry = R.kind = R.path = 'migrate'; R.m = INP('migrate_msg')
        return R
    return A.get(('migrate',), go)

def reply(A):
    def go():
        E = A.ES
        R = run(E, 'contract::reply', [deps(), ENV, INP('reply')], 'reply')
        R.entry = R.kind = R.path = 'reply'; R.m = INP('reply')
        return R
    return A.get(('reply',), go)

def everything(A, queries=False):
    out = [generic(A, e, p, m) for e, p, m in all_messages(A.E) if queries or e != 'query']
    return out + [instantiate(A), migrate(A), reply(A)]
Session.everything = everything
Session.queries = lambda A: [generic(A, e, p, m) for e, p, m in all_messages(A.E) if e == 'query']
