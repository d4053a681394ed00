"""Piecewise abstract evaluation of value terms over one integer variable.

The domain of the variable is partitioned into intervals, adaptively, until on every interval each
branch condition, truncating division, absolute value and exponent of the term is constant; there the
term is a linear function of the variable with exact rational coefficients. Nothing is sampled: the
intervals cover the whole domain and the linear form holds on all of each interval.
"""
from fractions import Fraction
from terms import *
import models

DEC = 10**18
LIMIT = Fraction(2**256 - 1, DEC)

class Split(Exception):
    def __init__(self, x): self.x = x       # first point of the upper part
class Inexact(Exception): pass
class Unclear(Exception): pass

class Pieces:
    def __init__(self, var, maxpieces=4000):
        self.var, self.maxpieces = var, maxpieces

    def split(self, t, lo, hi, f=None):
        """[(lo, hi, value)] covering [lo, hi]"""
        out, w = [], [(lo, hi)]
        while w:
            l, h = w.pop()
            self.lo, self.hi, self.memo = l, h, {}
            try: out.append((l, h, (f or self.value)(t)))
            except Split as s:
                if not (l < s.x <= h): raise Unclear('no progress at %d' % s.x)
                w.append((s.x, h)); w.append((l, s.x - 1))
            if len(out) + len(w) > self.maxpieces: raise Unclear('too many pieces')
        return out

    # linear forms (slope, intercept)
    def at(self, f, x): return f[0] * x + f[1]
    def ends(self, f):
        a, b = self.at(f, self.lo), self.at(f, self.hi)
        return (a, b) if a <= b else (b, a)
    def cross(self, p):
        """first x in (lo, hi] where predicate p differs from its value at lo (p monotone)"""
        l, h = self.lo, self.hi
        a = p(l)
        while h - l > 1:
            m = (l + h) // 2
            if p(m) == a: l = m
            else: h = m
        raise Split(h)
    def const(self, f):
        if self.lo == self.hi: return self.at(f, self.lo)
        return f[1] if f[0] == 0 else None

    def value(self, t):
        r = self.memo.get(t.id)
        if r is None: r = self.memo[t.id] = self.value_(t)
        return r

    def value_(self, t):
        op = t.op
        if t.op == 'bool': return t
        if op == 'ite': return self.value(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if op == 'agg':
            if t.a[1] == 'Err': return ('Err',)
            if t.a[1] in ('Ok', 'Some') and len(t.a[3]) == 1: return (t.a[1], self.value(t.a[3][0]))
            return ('agg', t)
        if op in ATOMOPS: return boolean(self.truth(t))
        return self.lin(t)

    def lin(self, t):
        r = self.memo.get(('l', t.id))
        if r is None: r = self.memo[('l', t.id)] = self.lin_(t)
        return r

    def lin_(self, t):
        op = t.op
        if t is self.var: return (Fraction(1), Fraction(0))
        if op == 'num': return (Fraction(0), t.a[0])
        if op == 'ite': return self.lin(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if op == 'lin':
            m, c = Fraction(0), t.a[1]
            for x, k in t.a[0]:
                f = self.lin(x); m += k * f[0]; c += k * f[1]
            return (m, c)
        if op in ('idiv', 'irem'):
            a, b = self.lin(t.a[0]), self.const(self.lin(t.a[1]))
            if b is None or b == 0: raise Unclear(show(t, 3))
            def q(x):
                v = self.at(a, x); r = abs(v) // abs(b)
                return r if (v < 0) == (b < 0) or r == 0 else -r
            k = q(self.lo)
            if q(self.hi) != k: self.cross(lambda x: q(x) == k)
            return (Fraction(0), Fraction(k)) if op == 'idiv' else (a[0], a[1] - b * k)
        if op == 'ediv' or op == 'erem':
            a, b = self.lin(t.a[0]), self.const(self.lin(t.a[1]))
            if b is None or b <= 0: raise Unclear(show(t, 3))
            def q(x): return self.at(a, x) // b
            k = q(self.lo)
            if q(self.hi) != k: self.cross(lambda x: q(x) == k)
            return (Fraction(0), Fraction(k)) if op == 'ediv' else (a[0], a[1] - b * k)
        if op == 'abs':
            a = self.lin(t.a[0]); lo, hi = self.ends(a)
            if lo >= 0: return a
            if hi <= 0: return (-a[0], -a[1])
            self.cross(lambda x: self.at(a, x) > 0)
        if op == 'signum':
            a = self.lin(t.a[0]); lo, hi = self.ends(a)
            if lo > 0: return (Fraction(0), Fraction(1))
            if hi < 0: return (Fraction(0), Fraction(-1))
            if lo == hi == 0: return (Fraction(0), Fraction(0))
            if lo == 0 or hi == 0: self.cross(lambda x: self.at(a, x) == 0)
            self.cross(lambda x: self.at(a, x) > 0)
        if op in ('min', 'max'):
            a, b = self.lin(t.a[0]), self.lin(t.a[1])
            d = (a[0] - b[0], a[1] - b[1]); lo, hi = self.ends(d)
            if lo >= 0: return b if op == 'min' else a
            if hi <= 0: return a if op == 'min' else b
            self.cross(lambda x: self.at(d, x) > 0)
        if op == 'cast':
            a = self.lin(t.a[2]); lo, hi = self.ends(a)
            tl, th = models.RANGE[t.a[1]]
            if lo >= tl and hi <= th: return a
            raise Inexact('%s does not fit %s (values %s to %s)' % (show(t.a[2], 4), t.a[1], lo, hi))
        if op == 'pow':
            a, b = self.const(self.lin(t.a[0])), self.const(self.lin(t.a[1]))
            if b is None:
                f = self.lin(t.a[1]); k = self.at(f, self.lo); self.cross(lambda x: self.at(f, x) == k)
            if a is None or b.denominator != 1 or b < 0 or b > 400: raise Unclear(show(t, 4))
            return (Fraction(0), a ** int(b))
        if op in ('ratio', 'div'):
            a, b = self.lin(t.a[0]), self.const(self.lin(t.a[1]))
            if not b: raise Unclear(show(t, 4))
            return self.decimal((a[0] / b, a[1] / b), t)
        if op in ('mul', 'dmul'):
            a, b = self.lin(t.a[0]), self.lin(t.a[1])
            if self.const(a) is None: a, b = b, a
            k = self.const(a)
            if k is None: raise Unclear(show(t, 4))
            return self.decimal((k * b[0], k * b[1]), t)
        if op in ('floor', 'ceil'):
            a = self.lin(t.a[0])
            if a[0].denominator == 1 and a[1].denominator == 1: return a
            k = self.const(a)
            if k is not None: return (Fraction(0), Fraction(k.__floor__() if op == 'floor' else k.__ceil__()))
            r = (lambda x: self.at(a, x).__floor__()) if op == 'floor' else (lambda x: self.at(a, x).__ceil__())
            v = r(self.lo)
            if r(self.hi) != v: self.cross(lambda x: r(x) == v)
            return (Fraction(0), Fraction(v))
        raise Unclear(show(t, 4))

    def decimal(self, f, t):
        """value held with 18 decimals: exact, or rounded down when constant"""
        k = self.const(f)
        if k is not None: return (Fraction(0), Fraction((k * DEC).__floor__(), DEC))
        if (f[0] * DEC).denominator == 1 and (f[1] * DEC).denominator == 1: return f
        raise Inexact('%s has more than 18 decimals' % show(t, 3))

    def truth(self, c):
        r = self.memo.get(('b', c.id))
        if r is None: r = self.memo[('b', c.id)] = self.truth_(c)
        return r

    def truth_(self, c):
        op = c.op
        if c is TRUE: return True
        if c is FALSE: return False
        if op == 'ite': return self.truth(c.a[1] if self.truth(c.a[0]) else c.a[2])
        if op == 'lt':
            a, b = self.lin(c.a[0]), self.lin(c.a[1])
            d = (b[0] - a[0], b[1] - a[1]); lo, hi = self.ends(d)
            if lo > 0: return True
            if hi <= 0: return False
            self.cross(lambda x: self.at(d, x) > 0)
        if op == 'eq':
            if c.a[0].op == 'agg' or c.a[1].op == 'agg': raise Unclear(show(c, 3))
            a, b = self.lin(c.a[0]), self.lin(c.a[1])
            d = (b[0] - a[0], b[1] - a[1])
            if d[0] == 0: return d[1] == 0
            x0 = -d[1] / d[0]
            if x0.denominator != 1 or not (self.lo <= x0 <= self.hi): return False
            if self.lo == self.hi: return True
            raise Split(int(x0) if x0 > self.lo else int(x0) + 1)
        if op == 'fits':
            a = self.lin(c.a[1]); lo, hi = self.ends(a)
            tl, th = models.RANGE.get(c.a[0], (-LIMIT, LIMIT))
            if lo >= tl and hi <= th: return True
            if hi < tl or lo > th: return False
            self.cross(lambda x: tl <= self.at(a, x) <= th)
        if op == 'bopq' and c.a[0] == 'overflow':
            a = self.lin(c.a[2]); lo, hi = self.ends(a)
            tl, th = models.RANGE[c.a[1]]
            if lo >= tl and hi <= th: return False
            if hi < tl or lo > th: return True
            self.cross(lambda x: tl <= self.at(a, x) <= th)
        if op == 'isvar':
            v = self.value(c.a[0])
            return v[0] == c.a[1]
        raise Unclear(show(c, 4))
