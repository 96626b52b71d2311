"""Taylor models: abstract domain for the accuracy of closed forms and tables.

An abstract value is a polynomial in h (|h| <= r, x = x0 + h) plus a remainder bound, so every concretisation of the
expression over the whole cell is enclosed.  Analytic functions are composed with their Taylor polynomial and a Cauchy
bound of the rest.  Coefficients are held at 50 digits; their rounding is covered by EPS."""
from fractions import Fraction
import math
import mpmath
from mpmath import mp, mpf

mp.dps = 50
EPS = mpf(10) ** -42
ORDER = 14


class NoEnclosure(Exception):
    pass


class TM(object):
    __slots__ = ('c', 'e', 'r')

    def __init__(self, c, e, r):
        self.c = c
        self.e = e
        self.r = r

    def range(self):
        """(lo, hi)"""
        m = self.c[0]
        if len(self.c) > 1 and self.c[1]:
            # monotone over the cell: the ends are exact
            s, p = mpf(0), self.r
            for i, k in enumerate(self.c[2:]):
                s += abs(k) * (i + 2) * p
                p *= self.r
            if s < abs(self.c[1]):
                a = mpmath.polyval(self.c[::-1], -self.r)
                b = mpmath.polyval(self.c[::-1], self.r)
                w = self.e + EPS * (1 + abs(m))
                return min(a, b) - w, max(a, b) + w
        s = mpf(0)
        p = self.r
        for k in self.c[1:]:
            s += abs(k) * p
            p *= self.r
        s += self.e + EPS * (1 + abs(m))
        return m - s, m + s

    def bound(self):
        lo, hi = self.range()
        return max(abs(lo), abs(hi))

    def dev(self):
        """bound of |value - c0|"""
        s = mpf(0)
        p = self.r
        for k in self.c[1:]:
            s += abs(k) * p
            p *= self.r
        return s + self.e


def const(v, r):
    return TM([mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpf(v)], mpf(0), r)


def var(x0, r):
    return TM([mpf(x0), mpf(1)], mpf(0), mpf(r))


def add(a, b):
    n = max(len(a.c), len(b.c))
    c = [(a.c[i] if i < len(a.c) else 0) + (b.c[i] if i < len(b.c) else 0) for i in range(n)]
    return TM(c, a.e + b.e, a.r)


def scale(a, k):
    return TM([x * k for x in a.c], a.e * abs(k), a.r)


def neg(a):
    return scale(a, mpf(-1))


def pbound(c, r):
    s, p = mpf(0), mpf(1)
    for k in c:
        s += abs(k) * p
        p *= r
    return s


def mul(a, b):
    n = len(a.c) + len(b.c) - 1
    c = [mpf(0)] * n
    for i, x in enumerate(a.c):
        if x:
            for j, y in enumerate(b.c):
                c[i + j] += x * y
    e = mpf(0)
    if n > ORDER:
        p = a.r ** ORDER
        for k in c[ORDER:]:
            e += abs(k) * p
            p *= a.r
        c = c[:ORDER]
    if a.e or b.e:
        e += a.e * pbound(b.c, a.r) + b.e * pbound(a.c, a.r) + a.e * b.e
    return TM(c, e, a.r)


def compose(a, coefs, rest):
    """sum coefs[k] (a - a0)^k with |rest| bounding the tail; coefs are the Taylor coefficients of the outer function at a.c[0]"""
    d = TM([mpf(0)] + list(a.c[1:]), a.e, a.r)
    v = TM([coefs[-1]], mpf(0), a.r)
    for k in reversed(coefs[:-1]):
        v = mul(v, d)
        v = TM([v.c[0] + k] + v.c[1:], v.e, v.r)
    v.e += rest
    return v


def tail(M, q):
    """sum_{k >= ORDER} M q^k"""
    if q >= mpf('0.9'):
        raise NoEnclosure('cell too wide')
    return M * q ** ORDER / (1 - q)


def exp(a):
    if a.c[0] + a.dev() > 2000:
        raise NoEnclosure('exponential too large')
    e0 = mpmath.exp(a.c[0])
    cs, k = [], e0
    for i in range(ORDER):
        cs.append(k)
        k = k / (i + 1)
    d = a.dev()
    # Lagrange remainder
    return compose(a, cs, e0 * mpmath.exp(d) * d ** ORDER / mpmath.factorial(ORDER))


def powr(a, p):
    """a^p for rational p: integer powers by multiplication, others (and reciprocals) for a bounded away from zero"""
    p = Fraction(p)
    if p.denominator == 1 and p >= 0:
        v = const(1, a.r)
        b, n = a, int(p)
        while n:
            if n & 1:
                v = mul(v, b)
            b = mul(b, b) if n > 1 else b
            n >>= 1
        return v
    a0, d = a.c[0], a.dev()
    if abs(a0) <= d * mpf('1.05') or (a0 < 0 and p.denominator != 1):
        raise NoEnclosure('reciprocal or root across zero')
    s = 1
    if a0 < 0:
        a, a0 = neg(a), -a0
        s = -1 if p.numerator % 2 else 1
    pf = mpf(p.numerator) / p.denominator
    k = a0 ** pf
    cs = []
    for i in range(ORDER):
        cs.append(k)
        k = k * (pf - i) / (i + 1) / a0
    # on the disc |w| <= R < a0: |a0+w|^p <= (a0 -+ R)^p
    best = None
    for f in ('0.3', '0.5', '0.65', '0.8', '0.9'):
        R = a0 * mpf(f)
        q = d / R
        if q < mpf('0.95'):
            M = max((a0 - R) ** pf, (a0 + R) ** pf)
            b = M * q ** ORDER / (1 - q)
            if best is None or b < best:
                best = b
    if best is None:
        raise NoEnclosure('cell too wide')
    v = compose(a, cs, best)
    return scale(v, mpf(s))


def log(a):
    a0, d = a.c[0], a.dev()
    if a0 <= d * mpf('1.05'):
        raise NoEnclosure('logarithm across zero')
    cs = [mpmath.log(a0)]
    k = 1 / a0
    for i in range(1, ORDER):
        cs.append(k / i if i % 2 else -k / i)
        k /= a0
    q = d / a0
    if q > mpf('0.9'):
        raise NoEnclosure('cell too wide')
    return compose(a, cs, q ** ORDER / ORDER / (1 - q))


def erfcx_true(x):
    return mpmath.erfc(x) * mpmath.exp(x * x)


def erfcx(a):
    x0, d = a.c[0], a.dev()
    if abs(x0) > 200:
        raise NoEnclosure('erfcx argument')
    # y' = 2 x y - 2/sqrt(pi)
    prec = mp.dps
    mp.dps = 90
    try:
        c = [erfcx_true(x0)]
        for n in range(ORDER - 1):
            v = 2 * (x0 * c[n] + (c[n - 1] if n else 0))
            if n == 0:
                v -= 2 / mpmath.sqrt(mpmath.pi)
            c.append(v / (n + 1))
    finally:
        mp.dps = prec
    c = [+k for k in c]
    best = None
    for m in (2, 3, 5, 8, 12, 20, 40):
        R = d * m
        M = erfcx_true(x0 - R) if x0 - R > -60 else None       # |erfcx(z)| <= erfcx(Re z)
        if M is None:
            continue
        q = mpf(1) / m
        v = M * q ** ORDER / (1 - q)
        if best is None or v < best:
            best = v
    if best is None:
        raise NoEnclosure('erfcx remainder')
    return compose(a, c, best)


def bessel_scaled(nu, a):
    """exp(-x) I_nu(x)"""
    x0, d = a.c[0], a.dev()
    # derivatives of exp(-x) I_nu from I_k' = (I_{k-1}+I_{k+1})/2: c_n = exp(-x0) * sum over binomials; by the series of I itself
    prec = mp.dps
    mp.dps = 80
    try:
        K = ORDER + 1
        I = [mpmath.besseli(k, x0) * mpmath.exp(-x0) for k in range(nu + K + 1)]
        get = lambda k: I[abs(k)]
        # n-th derivative of I_nu: 2^-n sum C(n,j) I_{nu-n+2j}
        der = [sum(math.comb(n, j) * get(nu - n + 2 * j) for j in range(n + 1)) / mpf(2) ** n for n in range(ORDER)]
        c = []
        for n in range(ORDER):
            c.append(sum(math.comb(n, j) * der[j] * (-1) ** (n - j) for j in range(n + 1)) / mpmath.factorial(n))
    finally:
        mp.dps = prec
    c = [+k for k in c]
    best = None
    for m in (2, 3, 5, 8, 12, 20):
        R = d * m
        s = x0 - R
        # |exp(-z) I_nu(z)| <= exp(-Re z) I_0(|Re z|): at most 1 for Re z >= 0, exp(2|s|) for Re z = s < 0
        M = mpf(1) if s >= 0 else mpmath.exp(2 * abs(s))
        q = mpf(1) / m
        v = M * q ** ORDER / (1 - q)
        if best is None or v < best:
            best = v
    return compose(a, c, best)
