"""Failure handling: replies to submessages, and arithmetic that must not wrap or truncate."""
from session import *
from rules_order import claims, cancels
from rules_swap import runs as swap_runs
from pieces import *
import rules_account
import os

REPLY, RESULT = 'cosmwasm_std::results::submessages::Reply', 'cosmwasm_std::results::submessages::SubMsgResult'

def subs(*roots):
    """every submessage value occurring in the terms"""
    w, seen, out = [t for t in roots if t is not None], set(), []
    while w:
        x = w.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'agg' and 'reply_on' in x.a[2]: out.append(x)
        w += list(subterms(x))
    return sorted(out, key=lambda t: t.id)

def sent(R):
    """submessages of an accepted call, loop steps included"""
    if R.okval is None: return []
    roots = [fld(R.okval, 'messages')]
    for L in R.loops.values():
        for v in L['vars'].values() if isinstance(L['vars'], dict) else L['vars']:
            roots += terms_in(v)
    return subs(*roots)

def terms_in(v):
    if hasattr(v, 'op'): return [v]
    if isinstance(v, (tuple, list)): return [t for x in v for t in terms_in(x)]
    if isinstance(v, dict): return [t for x in v.values() for t in terms_in(x)]
    return []

def reply_run(A, ident, good):
    def go():
        E = A.ES
        m = sym(E, REPLY, 'reply') if REPLY in E.adts else INP('reply')
        if m.op != 'agg':
            fs = [f['name'] for f in E.adts[REPLY]['variants'][0]['fields']]
            m = agg(REPLY, 'Reply', fs, [INP('reply.' + f) for f in fs])
        m = with_(m, 'id', ident)
        m = with_(m, 'result', agg(RESULT, 'Ok' if good else 'Err', ['0'], [INP('reply.response' if good else 'reply.error')]))
        return run(E, 'contract::reply', [deps(), ENV, m], 'reply[id %s,%s]' % (show(ident), 'success' if good else 'failure'))
    return A.get(('reply', ident.id, good), go)

@prop('F01')
def replies(A, C):
    seen = {}
    n = 0
    for R in A.everything() + [batch(A)] + claims(A) + cancels(A) + swap_runs(A):
        if R.okval is None: continue
        C.use(R)
        for s in sent(R):
            i, on = fld(s, 'id'), fld(s, 'reply_on')
            w = '%s: submessage %s' % (R.name, show(i))
            n += 1
            if 'gas_limit' in s.a[2]:
                C.ob('a payment has no gas limit of its own', w)
                g = fld(s, 'gas_limit')
                if not all(t.op == 'agg' and t.a[1] == 'None' for t, p, l in leaves(g, R.ok)):
                    C.bad('a payment has no gas limit of its own', w, 'gas limit is ' + show(g, 4))
            C.ob('the mode in which a submessage reports back is fixed', w)
            if not all(t.op == 'agg' for t, p, l in leaves(on, R.ok)):
                C.bad('the mode in which a submessage reports back is fixed', w, 'reply mode is ' + show(on, 4)); continue
            for t, p, l in leaves(tup(i, on), R.ok):
                i1, on1 = t.a[3]
                for kind in modes(on1): seen.setdefault((i1, kind), (R, w))
    C.check(n >= 8, 'payments of the trading operations are found', 'entry points', '%d submessages' % n)
    for (i, kind), (R0, w) in sorted(seen.items(), key=lambda kv: (kv[0][0].id, kv[0][1])):
        if kind == 'failure':
            R = C.use(reply_run(A, i, False))
            rejects(C, R, 'a failed payment aborts the operation that made it', w)
        else:
            R = C.use(reply_run(A, i, True))
            accepts(C, R, TRUE, 'a payment that went through is confirmed', w)
            quiet(C, R, w)
    for R in (reply(A),):
        C.use(R)
        if R.okval is not None: quiet(C, R, 'reply')

def modes(on):
    return {'Error': ['failure'], 'Success': ['success'], 'Always': ['failure', 'success'], 'Never': []}[on.a[1]]

def quiet(C, R, w):
    C.ob('hearing back about a payment changes nothing', w)
    for ns in sorted({e.ns for e in R.effects if e.kind in ('save', 'remove')}):
        unchanged(C, R, ns, 'hearing back about a payment changes nothing')
    for e in R.effects:
        if e.kind == 'call' and and_(e.pc, R.ok) is not FALSE: C.bad('hearing back about a payment changes nothing', w, 'calls ' + e.ns, e.span)
    if R.okval is not None: C.eq(R, fld(R.okval, 'messages'), EMPTY, 'hearing back about a payment sends nothing', w)

# ------------------------------------------------------------------ arithmetic
WRAP = re.compile(r'(^|::)(wrapping|overflowing|unchecked)_\w+$|::saturating_(add|mul|pow|shl)\w*$|num::\{?impl.*\}?::(wrapping|overflowing)')
WIDE = ('u128', 'i128')
ENTRIES = ('contract::execute', 'contract::query', 'contract::instantiate', 'contract::migrate', 'contract::reply', 'contract::sudo', 'sudo::sudo')
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 32, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 32}

@prop('F02')
def arithmetic(A, C):
    E = A.E
    fns = set()
    for e in ENTRIES:
        if e in E.bypath: fns |= E.reach(E.bypath[e])
    C.check(len(fns) > 60, 'the entry points reach the trading code', 'call graph', '%d functions' % len(fns))
    for f in sorted(fns):
        fn = E.fns.get(f)
        if not fn or not fn.get('body'): continue
        w = short(f)
        C.fns.add(f)
        C.ob('amounts are never wrapped, clamped or truncated', w)
        for b in fn['body']['blocks']:
            if b is None: continue
            for s in b['st']:
                r = s.get('r') or {}
                if r.get('k') == 'cast':
                    a, t = r.get('from', ''), r.get('ty', '')
                    if r['ck'] == 'IntToInt' and a in WIDE and BITS.get(t, 0) < 128: C.bad('amounts are never wrapped, clamped or truncated', w, 'cast from %s to %s' % (a, t), s.get('s', ''))
                    if r['ck'] == 'IntToInt' and a in WIDE and t in WIDE and a != t: C.bad('amounts are never wrapped, clamped or truncated', w, 'cast from %s to %s' % (a, t), s.get('s', ''))
                    if r['ck'] in ('FloatToInt', 'IntToFloat', 'FloatToFloat'): C.bad('no floating point is used', w, 'cast from %s to %s' % (a, t), s.get('s', ''))
                if r.get('k') == 'bin' and r.get('op') in ('Add', 'Sub', 'Mul', 'Shl') and str(r.get('ty')) in BITS:
                    C.bad('integer arithmetic is overflow checked', w, '%s on %s' % (r['op'], r['ty']), s.get('s', ''))
            t = b['t']
            if t['k'] == 'call' and t['f']['k'] == 'const':
                c = t['f']['c'].get('fn') or {}
                p = c.get('rpath') or c.get('path') or ''
                if not c.get('local') and WRAP.search(p): C.bad('amounts are never wrapped, clamped or truncated', w, 'calls ' + p, b.get('s') or '')
    prof = release_profile()
    C.check(prof.get('overflow-checks') is True or prof.get('overflow-checks') is None and prof.get('debug-assertions') is True,
            'release builds keep overflow checks', 'Cargo.toml [profile.release]', str(prof))
    # narrowing of ids, ticks and exponents: every value that is cast must fit
    runs = A.everything(queries=True) + claims(A) + cancels(A) + [price(A)]
    for R in runs:
        for e in R.effects:
            if e.kind != 'cast' or and_(e.pc, R.pc) is FALSE: continue
            w = '%s: %s as %s (%s)' % (short(e.fn), e.ns, e.key, R.name)
            C.ob('ids, ticks and exponents keep their value when converted', w)
            v = e.val
            if names_in(v) & {'weight', 'limit', 'len'} or v.op == 'len': continue      # heights and page sizes, not amounts
            if hasattr(R, 't'):
                d = truncated(R.t, e)
                if d is None: continue
            else: d = '%s may be outside %s' % (clip(show(v, 5), 200), e.key)
            C.bad('ids, ticks and exponents keep their value when converted', w, d, e.span)

    # an accepted call never replaces a result that was out of range
    for R in A.everything(queries=True) + claims(A) + cancels(A) + swap_runs(A):
        if R.okval is None or R.ok is FALSE: continue
        C.use(R)
        rule = 'a result out of range is an error, never replaced'
        C.ob(rule, R.name)
        roots = [('result', R.okval, R.ok)] + [('stored ' + e.ns, t, and_(R.ok, e.pc)) for e in R.effects if e.kind == 'save' for t in (e.key, e.val) if hasattr(t, 'op')]
        for what, t, pc in roots:
            a = replaced(t, pc) if pc is not FALSE else None
            if a is not None: C.bad(rule, '%s: %s' % (R.name, what), 'depends on whether %s is in range' % clip(show(a, 5), 200)); break

def replaced(root, ok):
    """an arithmetic range condition that still decides part of the value once the call is accepted"""
    seen = set()
    w = [(root, ok)]
    while w:
        x, pc = w.pop()
        if (x.id, pc.id) in seen: continue
        seen.add((x.id, pc.id))
        if x.op == 'ite':
            for a in atoms_of(x.a[0]):
                if not arith_atom(a): continue
                both = and_(restrict(pc, a), restrict(pc, not_(a)))         # accepted in range and out of range alike
                if both is FALSE: continue
                if restrict(restrict(x, a), both) is not restrict(restrict(x, not_(a)), both): return a
            w += [(t, p) for t, p in ((x.a[1], and_(pc, x.a[0])), (x.a[2], and_(pc, not_(x.a[0])))) if p is not FALSE]
        elif x.op != 'H': w += [(t, pc) for t in children(x)]        # contents before an opaque step are read through it
    return None

def release_profile():
    import tomllib, dump
    with open(os.path.join(dump.REPO, 'Cargo.toml'), 'rb') as f: return tomllib.load(f).get('profile', {}).get('release', {})

def truncated(var, e):
    """None when the converted value provably fits, over all values of the variable reaching the conversion"""
    P = Pieces(var)
    tl, th = models.RANGE[e.key]
    def val(t):
        if not P.truth(e.pc): return None
        lo, hi = P.ends(P.lin(t))
        if lo < tl or hi > th: raise Inexact('%s ranges from %s to %s' % (clip(show(t, 5), 200), lo, hi))
        return True
    try: P.split(e.val, *models.RANGE['i64'], val)
    except (Inexact, Unclear) as x: return str(x)
    return None

def price(A):
    def go():
        t = INP('price.tick'); INT.add(t.id)
        E = Engine(A.dump)
        R = run(E, TICK_TO_PRICE, [t], 'tick_to_price'); R.t = t
        return R
    return A.get(('price',), go)

def names_in(t):
    out = set(); w = [t]; seen = set()
    while w:
        x = w.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'fld': out.add(x.a[1])
        if x.op == 'pl': out.add(x.a[2])
        if x.op == 'in': out.add(str(x.a[0]).rsplit('.', 1)[-1])
        w += list(subterms(x))
    return out

# ------------------------------------------------------------------ aborts
def positive_prices(c):
    """c given that tick prices are positive (M02)"""
    for a in atoms_of(c):
        if a.op == 'eq' and ZERO in a.a:
            x = a.a[0] if a.a[1] is ZERO else a.a[1]
            if x.op == 'pl' and x.a[0].op == 'call' and x.a[0].a[0] == TICK_TO_PRICE: c = restrict(c, not_(a))
    return c

UNSUPPORTED = ('SwapExactAmountOut', 'CalcInAmtGivenOut')       # answered by unimplemented!(), documented as such

@prop('F03')
def aborts(A, C):
    rule = 'a message is answered or refused, never aborted'
    runs = A.everything(queries=True) + A.place_all() + cancels(A) + claims(A) + swap_runs(A) + [batch(A)] + [rules_account.sync_run(A, t) for t in (True, False)]
    for R in runs:
        if R.name in UNSUPPORTED: continue
        C.use(R)
        C.ob(rule, R.name)
        for e in R.effects:
            if e.kind != 'panic' or str(e.extra).lower().startswith(('overflow', 'underflow')): continue       # out of range: F02
            w = '%s: %s' % (R.name, short(e.fn))
            C.ob(rule, w)
            pc = positive_prices(in_range(and_(e.pc, TRUE)))
            d = differ(pc, FALSE) if pc is not FALSE else None
            if d: C.bad(rule, w, '%s can fail when %s' % (e.extra, clip(cases_of(d), 300)), e.span)
    R = C.use(price(A))
    P = Pieces(R.t)
    for e in R.effects:
        if e.kind != 'panic': continue
        w = 'tick_to_price: %s' % short(e.fn)
        C.ob(rule, w)
        def go(t):
            if P.truth(t): raise Inexact('%s fails for ticks %d to %d' % (e.extra, P.lo, P.hi))
            return True
        try: P.split(e.pc, *models.RANGE['i64'], go)
        except (Inexact, Unclear) as x: C.bad(rule, w, str(x), e.span)


# ------------------------------------------------------------------ steps that fail
SWALLOW = 'a step that failed is not passed over'

def whole(A):
    """every message, query and internal operation with the steps it is made of"""
    import rules_tree as T
    out = [R for R in A.everything(queries=True) if not R.path.endswith('BatchClaim')]
    out += claims(A) + cancels(A) + swap_runs(A)
    out += [rules_account.sync_run(A, t) for t in (True, False)]
    for l, r in T.itertools.product(T.kinds(20), T.kinds(30)):
        if r and not l: continue
        for d, parent in ((T.BID, None), (T.ASK, 5)): out.append(T.inserted(A, l, r, d, parent))
    return out

@prop('F04')
def steps_that_fail(A, C):
    seen, done = set(), set()
    for R in whole(A):
        if id(R) in done: continue
        done.add(id(R))
        C.use(R)
        E = R.E
        for x in R.effects:
            if x.kind != 'call' or x.extra not in E.fns: continue
            fn = E.fns[x.extra]
            if not str(fn['body']['locals'][0]).startswith('core::result::Result'): continue
            w = '%s: %s%s' % (R.name, short(x.extra), '' if not x.loops else ' in a loop')
            C.ob(SWALLOW, w)
            seen.add(short(x.extra))
            d = differ(in_range(and_(and_(x.pc, R.ok), not_(isvar(x.val, 'Ok')))), FALSE)
            if d is not None: C.bad(SWALLOW, w, 'accepted although %s failed, when %s' % (short(x.extra), cases_of(d)), x.span)
    C.check(len(seen) >= 3, 'the steps of the operations are found', 'entry points', ', '.join(sorted(seen)))
