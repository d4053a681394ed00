"""Prices and conversions."""
from session import *
from rules_fail import price
from pieces import *

LO, HI = -108000000, 182402823
STEP = 9000000
I64 = models.RANGE['i64']

def spec_pieces():
    """the documented tick price: one decade per 9 000 000 ticks, linear inside a decade, price 1 at tick 0"""
    out = []
    for k in range(-12, 0):
        lo, hi = k * STEP, (k + 1) * STEP - 1
        # from 10^k at the lower end to 10^(k+1) at the upper end
        s = (Fraction(10) ** (k + 1) - Fraction(10) ** k) / STEP
        out.append((max(lo, LO), hi, s, Fraction(10) ** k - s * lo))
    k = 0
    while k * STEP <= HI:
        lo, hi = k * STEP, min((k + 1) * STEP - 1, HI)
        s = (Fraction(10) ** (k + 1) - Fraction(10) ** k) / STEP
        out.append((lo, hi, s, Fraction(10) ** k - s * lo))
        k += 1
    return out

def shape(A, C):
    """pieces of the price function over all 64-bit ticks: [(lo, hi, None | (slope, intercept))]"""
    R = price(A)
    C.use(R)
    P = Pieces(R.t)
    try: ps = P.split(R.ret, I64[0], I64[1], lambda t: P.value(t) if P.truth(R.st.pc) else ('panic',))
    except (Inexact, Unclear) as e:
        C.bad('the price of every tick is determined', 'tick_to_price', str(e)); return None
    return [(l, h, v[1] if v[0] == 'Ok' else None) for l, h, v in ps]

@prop('M02')
def tick_price(A, C):
    C.fns.add(A.E.bypath[TICK_TO_PRICE])
    ps = shape(A, C)
    if ps is None: return
    C.check(ps[0][0] == I64[0] and ps[-1][1] == I64[1] and all(a[1] + 1 == b[0] for a, b in zip(ps, ps[1:])), 'every tick is covered', 'tick_to_price')
    for l, h, v in ps:
        w = 'tick_to_price on ticks %d to %d' % (l, h)
        inside = l >= LO and h <= HI
        outside = h < LO or l > HI
        C.check(inside or outside, 'the supported tick range is exactly [%d, %d]' % (LO, HI), w, 'a case straddles the limits')
        if outside: C.check(v is None, 'ticks outside the supported range have no price', w, 'returns a price')
        elif v is None: C.bad('every supported tick has a price', w, 'is rejected')
    good = [(l, h, v) for l, h, v in ps if v is not None and l >= LO and h <= HI]
    for l, h, v in good:
        w = 'tick_to_price on ticks %d to %d' % (l, h)
        C.check(v[0] * l + v[1] > 0, 'prices are positive', w, 'price %s at tick %d' % (v[0] * l + v[1], l))
        C.check(l == h or v[0] > 0, 'a higher tick has a strictly higher price', w, 'slope %s' % v[0])
        for x in (l, h):
            a = (v[0] * x + v[1]) * DEC
            C.check(a.denominator == 1, 'every price is exactly representable', w, 'price at %d' % x)
    for (l, h, v), (l2, h2, v2) in zip(good, good[1:]):
        if h + 1 == l2:
            C.check(v2[0] * l2 + v2[1] > v[0] * h + v[1], 'a higher tick has a strictly higher price', 'tick_to_price between ticks %d and %d' % (h, l2), '%s then %s' % (v[0] * h + v[1], v2[0] * l2 + v2[1]))
    for lo, hi, m, c in spec_pieces():
        C.ob('the price follows the documented geometric tick spacing', 'ticks %d to %d' % (lo, hi))
        for l, h, v in good:
            a, b = max(l, lo), min(h, hi)
            if a > b: continue
            for x in {a, b}:
                if v[0] * x + v[1] != m * x + c:
                    C.bad('the price follows the documented geometric tick spacing', 'ticks %d to %d' % (lo, hi), 'tick %d: price %s, must be %s' % (x, v[0] * x + v[1], m * x + c)); break

@prop('M01')
def conversion(A, C):
    """amount_to_value: bids divide by the price, asks multiply, rounded as asked"""
    E = A.E
    RD = adt_of(E, 'tick_math::RoundingDirection')
    for d in (BID, ASK):
        for r in ('Up', 'Down'):
            a, P = INP('conv.amount'), INP('conv.price')
            INT.add(a.id)
            R = C.use(run(E, 'tick_math::amount_to_value', [d, a, P, agg(RD, r, [], [])], 'amount_to_value[%s,%s]' % (dirname(d), r)))
            exact = div(a, P) if d is BID else mul(a, P)
            want = (floor if r == 'Down' else ceil)(exact)
            pre = not_(eq(P, ZERO))
            C.eq(R, R.okval, ite(eq(a, ZERO), ZERO, want), 'an amount converts at the price, rounded in the stated direction', R.name, pc=and_(R.ok, pre))
            R._ok = in_range(R.ok)
            accepts(C, R, TRUE, 'every amount converts at every price', R.name, pre=pre)
    # nobody else turns amounts into prices' worth of the other token by other means: all price products in the
    # trading entry points come out of this conversion (decided per entry by K02, S01, S02, Q05)
