"""Roles, the pause switch, fees and who may change configuration."""
from session import *

def has(ns, k=UNIT): return s_get(s_init(ns), ns, k)[0]
def val(ns, k=UNIT): return s_get(s_init(ns), ns, k)[1]
def valid(t): return mk('bopq', 'valid_addr', t)
def is_role(ns): return and_(has(ns), eq(SENDER, val(ns)))
OPEN = or_(not_(has('is_active')), val('is_active'))
FEE_CAP = num(Fraction(5, 100))
SENDER_OK = valid(SENDER)        # the chain only delivers messages from valid addresses
ROLE_CELLS = ('admin', 'admin_offer', 'moderator', 'moderator_offer')
CONFIG_CELLS = ROLE_CELLS + ('is_active', 'maker_fee', 'maker_fee_recipient')
AUTH = 'ExecuteMsg::Auth::AuthExecuteMsg::'

def by_path(A, path):
    for R in A.everything():
        if R.path == path: return R
    raise AnalysisError('message %s not found' % path)
def arg(R, i=0):
    m = R.m
    while m.op == 'agg' and m.a[1] == 'Auth': m = m.a[3][0]
    return m.a[3][i]

def cell(C, R, ns, want, rule):
    """final value of a single cell: a term, None for absent, or 'same'"""
    e, v = final(R, ns, UNIT)
    span = span_of(R, ns)
    if want == 'same': return unchanged(C, R, ns, rule)
    if want is None: return C.eq(R, e, FALSE, rule, '%s: %s' % (R.name, ns), span=span)
    return C.eq(R, e, TRUE, rule, '%s: %s' % (R.name, ns), span=span) and C.eq(R, v, want, rule, '%s: %s' % (R.name, ns), span=span)

ADMIN_OPS = ('TransferAdmin', 'CancelAdminTransfer', 'RenounceAdminship', 'OfferModerator', 'SetMakerFee', 'SetMakerFeeRecipient')

@prop('U01')
def admin_only(A, C):
    rule = 'only the admin can do this'
    adm = is_role('admin')
    extra = {'TransferAdmin': lambda R: valid(arg(R)), 'OfferModerator': lambda R: valid(arg(R)),
             'SetMakerFee': lambda R: le(arg(R), FEE_CAP), 'SetMakerFeeRecipient': lambda R: valid(arg(R))}
    for op in ADMIN_OPS:
        R = C.use(by_path(A, AUTH + op))
        requires(C, R, adm, rule, R.name)
        want = and_(adm, extra[op](R)) if op in extra else adm
        accepts(C, R, want, 'the admin can do this with valid arguments', R.name, pre=SENDER_OK)

@prop('U02')
def pause(A, C):
    R = C.use(by_path(A, AUTH + 'SetActive'))
    accepts(C, R, or_(is_role('admin'), is_role('moderator')), 'exactly the admin and the moderator can switch the contract on and off', R.name, pre=SENDER_OK)
    cell(C, R, 'is_active', arg(R), 'the switch takes the requested position')
    R = C.use(by_path(A, 'SudoMsg::SetActive'))
    accepts(C, R, OPEN, 'governance can switch an active contract off', R.name)
    cell(C, R, 'is_active', arg(R), 'the switch takes the requested position')

@prop('U03')
def handover(A, C):
    rule = 'a role changes hands only when the offered address claims it'
    for role, claim_, reject in (('admin', 'ClaimAdmin', 'RejectAdminTransfer'), ('moderator', 'ClaimModerator', 'RejectModeratorOffer')):
        off = role + '_offer'
        R = C.use(by_path(A, AUTH + claim_))
        accepts(C, R, is_role(off), rule, R.name, pre=SENDER_OK)
        cell(C, R, role, SENDER, 'claiming an offer hands the role to the claimant')
        cell(C, R, off, None, 'a claimed offer is used up')
        R = C.use(by_path(A, AUTH + reject))
        accepts(C, R, is_role(off), 'exactly the offered address can turn the offer down', R.name, pre=SENDER_OK)
        cell(C, R, off, None, 'a rejected offer is gone')
    for op, off in (('TransferAdmin', 'admin_offer'), ('OfferModerator', 'moderator_offer')):
        R = C.use(by_path(A, AUTH + op))
        cell(C, R, off, arg(R), 'an offer is recorded for the offered address')
        for ns in ('admin', 'moderator'): cell(C, R, ns, 'same', 'offering a role does not hand it over')
    R = C.use(by_path(A, AUTH + 'CancelAdminTransfer'))
    cell(C, R, 'admin_offer', None, 'a cancelled offer is gone')
    cell(C, R, 'admin', 'same', 'cancelling an offer keeps the admin')
    R = C.use(by_path(A, AUTH + 'RenounceAdminship'))
    cell(C, R, 'admin', None, 'renouncing leaves no admin')
    R = C.use(by_path(A, 'SudoMsg::TransferAdmin'))
    accepts(C, R, and_(OPEN, valid(arg(R))), 'governance can appoint an admin', R.name)
    cell(C, R, 'admin', arg(R), 'governance appoints the named admin')
    R = C.use(by_path(A, 'SudoMsg::RemoveAdmin'))
    accepts(C, R, OPEN, 'governance can remove the admin', R.name)
    cell(C, R, 'admin', None, 'governance removes the admin')
    for R in A.everything():
        for ns in ROLE_CELLS:
            if R.path not in WRITERS[ns]: unchanged(C, R, ns, 'nothing but a handover changes a role or an offer')

@prop('U04')
def stale_offers(A, C):
    rule = 'an admin offer does not outlive the admin who made it'
    for R in A.everything():
        if not writes(R, 'admin') or R.entry == 'instantiate': continue
        C.use(R)
        e, v = final(R, 'admin', UNIT)
        keeps = conj(e, has('admin'), eq(v, val('admin')))
        pc = and_(ok_of(R), not_(restrict(keeps, ok_of(R))))
        oe, _ = final(R, 'admin_offer', UNIT)
        C.eq(R, oe, FALSE, rule, R.name, pc=pc, span=span_of(R, 'admin'))

WRITERS = {
    'admin': {AUTH + 'ClaimAdmin', AUTH + 'RenounceAdminship', 'SudoMsg::TransferAdmin', 'SudoMsg::RemoveAdmin', 'instantiate'},
    'admin_offer': {AUTH + 'TransferAdmin', AUTH + 'CancelAdminTransfer', AUTH + 'RejectAdminTransfer', AUTH + 'ClaimAdmin', AUTH + 'RenounceAdminship', 'SudoMsg::TransferAdmin', 'SudoMsg::RemoveAdmin'},
    'moderator': {AUTH + 'ClaimModerator', 'instantiate'},
    'moderator_offer': {AUTH + 'OfferModerator', AUTH + 'ClaimModerator', AUTH + 'RejectModeratorOffer'},
    'is_active': {AUTH + 'SetActive', 'SudoMsg::SetActive'},
    'maker_fee': {AUTH + 'SetMakerFee', 'instantiate'},
    'maker_fee_recipient': {AUTH + 'SetMakerFeeRecipient', 'instantiate'},
    'contract_info': {'instantiate'},
}

@prop('U05')
def writers(A, C):
    R = C.use(by_path(A, AUTH + 'SetMakerFeeRecipient'))
    cell(C, R, 'maker_fee_recipient', arg(R), 'the named address becomes the recipient of the fees')
    rule = 'configuration changes only through its own message'
    for R in A.everything():
        C.use(R)
        for ns, who in WRITERS.items():
            if R.path not in who: unchanged(C, R, ns, rule)
        if R.path.startswith(AUTH) or R.path in ('SudoMsg::TransferAdmin', 'SudoMsg::RemoveAdmin', 'SudoMsg::SetActive', 'migrate', 'reply', 'instantiate'):
            if R.okval is not None and ok_of(R) is not FALSE:
                C.ob('an administrative message moves no tokens', R.name)
                if guarded(fld(R.okval, 'messages'), R.ok): C.bad('an administrative message moves no tokens', R.name, 'sends %s' % clip(show(fld(R.okval, 'messages'), 5)))
        if R.path.startswith(AUTH) or R.path in ('SudoMsg::TransferAdmin', 'SudoMsg::RemoveAdmin', 'SudoMsg::SetActive'):
            for ns in touched(R):
                C.check(ns in CONFIG_CELLS, 'an administrative message leaves the book alone', '%s/%s' % (R.name, ns), 'changed', span_of(R, ns))

@prop('U06')
def gate(A, C):
    E = A.ES
    off = lambda E: World(E).active(FALSE)
    for entry, path, m in all_messages(A.E):
        if entry == 'query': continue
        R = C.use(generic(A, entry, path, m, off, '[paused]'))
        if path.startswith(AUTH):
            R1 = generic(A, entry, path, m)
            C.ob('roles can act while the contract is paused', R.name)
            if differ(in_range(R.ok), in_range(restrict(R1.ok, and_(has('is_active'), not_(val('is_active')))))):
                C.bad('roles can act while the contract is paused', R.name, 'decided differently while paused')
        else:
            rejects(C, R, 'nothing but role messages is accepted while the contract is paused', R.name)
    # an unset switch means active
    for entry, path, m in all_messages(A.E):
        if entry == 'query': continue
        R = C.use(generic(A, entry, path, m))
        C.ob('a contract whose switch was never set is active', path)
        on, unset = restrict(in_range(R.ok), and_(has('is_active'), val('is_active'))), restrict(in_range(R.ok), not_(has('is_active')))
        d = differ(on, unset)
        if d: C.bad('a contract whose switch was never set is active', path, 'accepted or rejected differently (when %s)' % clip(cases_of(d), 300))

@prop('U07')
def fee_cap(A, C):
    cap = FEE_CAP
    R = C.use(by_path(A, AUTH + 'SetMakerFee'))
    requires(C, R, le(arg(R), cap), 'the maker fee never exceeds five percent', R.name)
    cell(C, R, 'maker_fee', arg(R), 'the maker fee takes the requested value')
    for S in A.everything():
        if S is R: continue
        C.use(S)
        for p, k in writes(S, 'maker_fee'):
            e, v = final(S, 'maker_fee', UNIT, p)
            C.ob('the maker fee never exceeds five percent', S.name)
            d = differ(conj(p, in_range(S.ok), e, lt(cap, v)), FALSE)
            if d: C.bad('the maker fee never exceeds five percent', S.name, 'stores %s' % clip(show(v, 5)), span_of(S, 'maker_fee'))

@prop('U08')
def validated(A, C):
    rule = 'an address is checked before it gets a role or the fees'
    for R in A.everything():
        for ns in ROLE_CELLS + ('maker_fee_recipient',):
            for p, k in writes(R, ns):
                C.use(R)
                e, v = final(R, ns, UNIT, p)
                for t, q, lits in leaves(v, conj(p, R.ok, e)):
                    if t.op == 'val' and t.a[1] in CONFIG_CELLS: continue     # already stored, hence already checked
                    C.ob(rule, '%s: %s' % (R.name, ns))
                    ok = or_(valid(t), boolean(t is SENDER))
                    full = conj(q, in_range(R.ok), *[a if b else not_(a) for a, b in lits])
                    d = differ(and_(full, not_(ok)), FALSE)
                    if d: C.bad(rule, '%s: %s' % (R.name, ns), '%s is stored without validation' % clip(show(t, 4)), span_of(R, ns))
