"""Refusals name their cause; administrative responses report what was set."""
from session import *
from rules_auth import AUTH, by_path, arg, valid, is_role, OPEN, FEE_CAP, SENDER_OK
from rules_interface import report, q
from rules_swap import swaps
from models import llen
import rules_order, rules_swap

FUNDS = fld(INFO, 'funds')
NOFUNDS = eq(llen(FUNDS), ZERO)

def reasons(C, R, causes, base=TRUE):
    """when exactly one cause [(condition, {variants}, {field: value})] of refusal holds, it is the one named"""
    rule = 'a refusal names its cause'
    err = pl(R.ret, 'Err', '0')
    for i, (c, variants, fields) in enumerate(causes):
        what = '%s: %s' % (R.name, '/'.join(sorted(variants)))
        pc = in_range(conj(base, c, *[not_(x[0]) for j, x in enumerate(causes) if j != i]))
        C.ob(rule, what)
        if pc is FALSE: C.bad(rule, what, 'the cause cannot occur'); continue
        okpart = and_(pc, in_range(R.ok))
        if differ(okpart, FALSE): continue                # accepted: another property's business
        seen = 0
        for t, p, lits in leaves(err, pc):
            if in_range(p) is FALSE or any(arith_atom(a) and b != (a.op == 'fits') for a, b in lits): continue
            if not feasible(p, lits): continue
            seen += 1
            if t.op != 'agg' or t.a[1] not in variants:
                C.bad(rule, what, 'reports %s (when %s)' % (clip(show(t, 4)), clip(cases_of(lits), 300))); break
            bad = [(f, v) for f, v in fields.items() if same(unstr_deep(fld(t, f)), v, p)]
            if bad:
                C.bad(rule, what, 'names %s, must name %s' % (clip(show(fld(t, bad[0][0]), 4)), clip(show(bad[0][1], 4)))); break
        else:
            C.check(seen > 0, rule, what, 'no refusal is produced')
    return

@prop('R01')
def named(A, C):
    # placing
    for d in (BID, ASK):
        R = C.use(A.place(d, True))
        single = has_single(FUNDS, R.denom)
        reasons(C, R, [
            (or_(lt(TICK, MIN_TICK), lt(MAX_TICK, TICK)), {'InvalidTickId'}, {'tick_id': TICK}),
            (lt(num(Fraction(1, 100)), INP('bounty')), {'InvalidClaimBounty'}, {}),
            (not_(single), {'PaymentError'}, {}),
            (and_(single, conj(not_(eq(paid(FUNDS, R.denom), ZERO)), not_(eq(paid(FUNDS, R.denom), R.q)))), {'InsufficientFunds'}, {'sent': paid(FUNDS, R.denom), 'required': R.q})],
            base=and_(not_(eq(R.q, ZERO)), or_(not_(single), not_(eq(paid(FUNDS, R.denom), ZERO)))))
        # an order for nothing is refused as such or because nothing can be paid for it
        reasons(C, R, [(eq(R.q, ZERO), {'InvalidQuantity', 'PaymentError', 'InsufficientFunds'}, {})], base=conj(le(MIN_TICK, TICK), le(TICK, MAX_TICK), le(INP('bounty'), num(Fraction(1, 100)))))
        # cancelling
        R = C.use(cancel(A, d))
        if C.check(len(R.sync) == 1, 'a refusal names its cause', R.name, 'the tick is not synchronised once'):
            E_ = rules_order.synced(R)
            reasons(C, R, [
                (not_(NOFUNDS), {'PaymentError'}, {}),
                (not_(eq(SENDER, fld(R.o, 'owner'))), {'Unauthorized'}, {}),
                (lt(fld(R.o, 'etas'), E_), {'CancelFilledOrder'}, {})], base=isvar(R.sync[0].val, 'Ok'))
        # claiming
        R = C.use(claim(A, d))
        if C.check(len(R.sync) == 1, 'a refusal names its cause', R.name, 'the tick is not synchronised once'):
            E_ = rules_order.synced(R)
            reasons(C, R, [
                (not_(NOFUNDS), {'PaymentError'}, {}),
                (not_(lt(fld(R.o, 'etas'), E_)), {'ZeroClaim'}, {})], base=isvar(R.sync[0].val, 'Ok'))
    E = A.ES
    for kind, n in (('CancelLimit', None), ('ClaimLimit', None)):
        w = World(E).orderbook().active().tick(TICK).absent('orders', tup(TICK, OID))
        R = C.use(execute(E, msg(E, 'ExecuteMsg::' + kind), kind + '[no such order]', w))
        reasons(C, R, [(TRUE, {'OrderNotFound'}, {'tick_id': TICK, 'order_id': OID})], base=NOFUNDS)
    R = C.use(by_path(A, 'ExecuteMsg::BatchClaim'))
    reasons(C, R, [(lt(num(100), llen(fld(R.m, 'orders'))), {'BatchClaimLimitExceeded'}, {'max_batch_claim': num(100)}), (not_(NOFUNDS), {'PaymentError'}, {})], base=OPEN)
    # swapping
    for R in swaps(A):
        C.use(R)
        best = fld(R.w.ob, 'next_ask_tick' if R.dir is BID else 'next_bid_tick')
        b = R.bound
        causes = [(not_(eq(fld(R.m, 'swap_fee'), ZERO)), {'InvalidSwap'}, {}), (eq(R.amount, ZERO), {'InvalidSwap'}, {})]
        if 'ToTick' in R.name:
            off = disj(lt(b, MIN_TICK), lt(MAX_TICK, b), lt(b, best) if R.dir is BID else lt(best, b))
            causes.append((off, {'InvalidTickId'}, {'tick_id': b}))
        base = and_(valid(fld(R.m, 'sender')), TRUE if 'ToTick' in R.name else not_(lt(MAX_TICK, best)) if R.dir is BID else not_(lt(best, MIN_TICK)))
        reasons(C, R, causes, base=base)
    # roles
    for op, bad in (('TransferAdmin', lambda R: None), ('CancelAdminTransfer', lambda R: None), ('RenounceAdminship', lambda R: None), ('OfferModerator', lambda R: None),
                    ('SetMakerFee', lambda R: (not_(le(arg(R), FEE_CAP)), {'InvalidMakerFee'}, {})), ('SetMakerFeeRecipient', lambda R: (not_(valid(arg(R))), {'InvalidMakerFeeRecipient'}, {}))):
        R = C.use(by_path(A, AUTH + op))
        base = valid(arg(R)) if op in ('TransferAdmin', 'OfferModerator') else TRUE
        reasons(C, R, [(not_(is_role('admin')), {'Unauthorized'}, {})] + ([bad(R)] if bad(R) else []), base=and_(base, SENDER_OK))
    for op, off in (('ClaimAdmin', 'admin_offer'), ('RejectAdminTransfer', 'admin_offer'), ('ClaimModerator', 'moderator_offer'), ('RejectModeratorOffer', 'moderator_offer')):
        R = C.use(by_path(A, AUTH + op))
        reasons(C, R, [(not_(is_role(off)), {'Unauthorized'}, {})], base=SENDER_OK)
    R = C.use(by_path(A, AUTH + 'SetActive'))
    reasons(C, R, [(not_(or_(is_role('admin'), is_role('moderator'))), {'Unauthorized'}, {})])
    off = lambda E: World(E).active(FALSE)
    for entry, path, m in all_messages(A.E):
        if entry == 'query' or path.startswith(AUTH): continue
        R = C.use(generic(A, entry, path, m, off, '[paused]'))
        reasons(C, R, [(TRUE, {'Inactive'}, {})])
    R = C.use(reply(A))
    reasons(C, R, [(not_(isvar(fld(INP('reply'), 'result'), 'Ok')), {'ReplyError'}, {'id': fld(INP('reply'), 'id')})])

REPLY_IDS = {'refund': 1, 'claim': 2, 'bounty': 3, 'fee': 4, 'swap': 5}

@prop('R01')
def payment_ids(A, C):
    """the id a failed payment is reported under, which its error carries"""
    rule = 'a failed payment names its kind'
    label = lambda p, kind: tup(p, num(REPLY_IDS[kind]))
    named = lambda s: tup(payment(s), fld(s, 'id'))
    def ids(R, plain, labelled, pc):
        C.use(R); C.ob(rule, R.name)
        ms = fld(R.okval, 'messages')
        if same_list(payments(ms, pc), plain, pc) is not None: return       # wrong payments: another property's business
        d = same_list(payments(ms, pc, named), labelled, pc)
        if d is not None: C.bad(rule, R.name, 'reports %s, must report %s' % (clip(show(d[0], 7)), clip(show(d[1], 7))))
    for R in rules_order.cancels(A):
        p = pay(fld(R.o, 'owner'), R.denom, fld(R.o, 'quantity'))
        ids(R, vec(p), vec(label(p, 'refund')), R.ok)
    for R in rules_order.claims(A):
        if len(R.sync) != 1: continue
        pc = and_(R.ok, rules_order.sane(R))
        ids(R, rules_order.claim_payments(R), rules_order.claim_payments(R, label), pc)
    for R in rules_swap.runs(A):
        L = rules_swap.fills(C, R)
        if L is None: continue
        ids(R, rules_swap.swap_payments(C, R, L), rules_swap.swap_payments(C, R, L, label), in_range(and_(R.ok, rules_swap.imp(L.more, L.hyp))))

ADMIN_REPORTS = {
    AUTH + 'TransferAdmin': ('transfer_admin', 'new_admin'), AUTH + 'CancelAdminTransfer': ('cancel_transfer_admin', None), AUTH + 'RejectAdminTransfer': ('reject_admin_transfer', None),
    AUTH + 'ClaimAdmin': ('claim_admin', None), AUTH + 'RenounceAdminship': ('renounce_adminship', None), AUTH + 'OfferModerator': ('offer_moderator', 'new_moderator'),
    AUTH + 'RejectModeratorOffer': ('reject_moderator_offer', None), AUTH + 'ClaimModerator': ('claim_moderator', None), AUTH + 'SetActive': ('set_active', 'active'),
    AUTH + 'SetMakerFee': ('set_maker_fee', 'maker_fee'), AUTH + 'SetMakerFeeRecipient': ('set_maker_fee_recipient', 'maker_fee_recipient'),
    'SudoMsg::TransferAdmin': ('sudo_transfer_admin', 'new_admin'), 'SudoMsg::RemoveAdmin': ('sudo_remove_admin', None), 'SudoMsg::SetActive': ('set_active', 'active'),
}

@prop('E02')
def administrative(A, C):
    rule = 'the response of an administrative message reports what was set'
    for path, (method, field) in ADMIN_REPORTS.items():
        R = C.use(by_path(A, path))
        want = [('method', st(method))] + ([(field, arg(R))] if field else [])
        report(C, R, fld(R.okval, 'attributes'), want, rule, path)
        C.check(not guarded(fld(R.okval, 'events'), R.ok), 'an administrative message emits no event', path)
        C.eq(R, fld(R.okval, 'data'), NONE, 'an administrative message returns no data', path)
    R = C.use(instantiate(A))
    report(C, R, fld(R.okval, 'attributes'), [('method', st('instantiate')), ('quote_denom', fld(R.m, 'quote_denom')), ('base_denom', fld(R.m, 'base_denom'))], rule, 'instantiate')
