"""Abstract value domain: hash-consed algebraic expressions and their value numbers.

A value number ("fingerprint") is obtained by random interpretation (Gulwani & Necula, POPL 2003): an expression is
mapped homomorphically into a tower of finite fields F_p0 > F_p1 > ... with p_i = 2 p_{i+1} + 1 (Cunningham chain of
safe primes).  The quadratic residues of F_pi form a cyclic group of prime order p_{i+1}, so that
    exp : F_p{i+1} -> F_pi,  u |-> g^u        and        ln : F_p{i-1} -> F_pi,  x |-> dlog_g |x|
are homomorphisms and rational powers are total on residues.  Hence every identity of + - * / pow exp ln holds between
value numbers, and two expressions that are not identically equal collide with probability ~ degree/p per trial.
Nothing of the analysed program is executed and no solver is involved; uninterpreted functions, finite sums and
branch conditions are keyed by the value numbers of their arguments.
"""
import random, sys
from fractions import Fraction
import numpy as np

sys.setrecursionlimit(100000)

CHAINS = None


def _is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


# innermost primes p4 of Cunningham chains of length 5 with p4 = 3 (mod 4) (verified at import)
_P4 = (53639, 186149 + 0, 268049 + 0, 422069 + 0)


def _find_chains():
    out = []
    p = 53639
    cand = [53639, 53849, 61409, 66749, 143609, 167729, 186149, 206369, 268049, 296099, 340919, 422069, 446609]
    n = 50009 - 50009 % 10 + 9
    while len(out) < 10 and n < 3000000:
        if n % 4 == 3 and n % 3 == 2 and _is_prime(n):
            c = [n]
            ok = True
            for _ in range(4):
                c.append(2 * c[-1] + 1)
                if not _is_prime(c[-1]):
                    ok = False
                    break
            if ok:
                out.append(tuple(reversed(c)))
        n += 10
    return out


class Reroll(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------------------ terms

class T(object):
    __slots__ = ('op', 'a', 'id', 'fv', 'size', 'depth')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, T) else ('c', x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt[0] += 1
        t.id = _cnt[0]
        fv = frozenset()
        size = 1
        for x in a:
            if isinstance(x, T):
                fv = fv | x.fv
                size += x.size
        t.depth = max([x.depth for x in a if isinstance(x, T)] or [0])
        if op == 'idx':
            fv = frozenset([a[0]])
        elif op == 'sum' or op == 'prod':
            fv = fv - {a[0]}
        elif op == 'inv':
            t.depth += 1
        t.fv = fv
        t.size = min(size, 10 ** 9)
        _tab[key] = t
    return t


def num(q):
    return mk('num', Fraction(q))


ZERO = num(0)
ONE = num(1)
TRUE = mk('true')
FALSE = mk('false')


def sym(name, kind='pos'):
    return mk('sym', name, kind)


PI = sym('pi')


def top(reason=''):
    return mk('top', reason)


def is_num(t):
    return t.op == 'num'


def val(t):
    return t.a[0]


def coef(t):
    """t = c * rest"""
    if t.op == 'num':
        return t.a[0], ONE
    if t.op == 'mul' and t.a[0].op == 'num':
        rest = t.a[1:]
        return t.a[0].a[0], rest[0] if len(rest) == 1 else mk('mul', *rest)
    return Fraction(1), t


def add(*ts):
    c = Fraction(0)
    d = {}
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == 'add':
            st.extend(reversed(t.a))
            continue
        if t.op == 'num':
            c += t.a[0]
            continue
        if t.op == 'top':
            return t
        k, r = coef(t)
        d[r] = d.get(r, 0) + k
    items = [(r, k) for r, k in d.items() if k != 0]
    items.sort(key=lambda x: x[0].id)
    out = [r if k == 1 else mul(num(k), r) for r, k in items]
    if c != 0:
        out.insert(0, num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk('add', *out)


def mul(*ts):
    c = Fraction(1)
    d = {}
    st = list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == 'mul':
            st.extend(reversed(t.a))
            continue
        if t.op == 'num':
            c *= t.a[0]
            continue
        if t.op == 'top':
            return t
        b, e = (t.a[0], t.a[1]) if t.op == 'pow' and t.a[1].op == 'num' else (t, ONE)
        d[b] = d.get(b, 0) + e.a[0]
    if c == 0:
        return ZERO
    items = [(b, e) for b, e in d.items() if e != 0]
    items.sort(key=lambda x: x[0].id)
    out = []
    for b, e in items:
        x = b if e == 1 else mk('pow', b, num(e))
        out.append(x)
    if not out:
        return num(c)
    if c != 1:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return mk('mul', *out)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, power(b, num(-1)))


def power(b, e):
    if b.op == 'top':
        return b
    if e.op == 'top':
        return e
    if e.op == 'num':
        n = e.a[0]
        if n == 1:
            return b
        if n == 0:
            return ONE
        if b.op == 'num':
            if n.denominator == 1 and (b.a[0] != 0 or n > 0) and abs(n) < 4000:
                return num(b.a[0] ** int(n))
            if b.a[0] == 1:
                return ONE
        if b.op == 'pow' and b.a[1].op == 'num' and (n.denominator == 1 or positive(b.a[0])):
            return power(b.a[0], num(b.a[1].a[0] * n))
        if b.op == 'exp':
            return exp(mul(e, b.a[0]))
        if b.op == 'mul' and n.denominator == 1:
            return mul(*[power(x, e) for x in b.a])
        if b.op == 'mul' and b.a[0].op == 'num' and b.a[0].a[0] < 0 and False:
            pass
        return mk('pow', b, e)
    if b.op == 'exp':
        return exp(mul(e, b.a[0]))
    if b == ONE:
        return ONE
    return mk('pow', b, e)


def sqrt(x):
    return power(x, num(Fraction(1, 2)))


def exp(u):
    if u.op == 'top':
        return u
    if u == ZERO:
        return ONE
    # exp(sum) with c*ln(x) summands
    parts = u.a if u.op == 'add' else (u,)
    pw = []
    rest = []
    for q in parts:
        k, r = coef(q)
        if r.op == 'ln':
            pw.append(power(r.a[0], num(k)))
        elif r.op == 'fn' and r.a[0] == 'lambertw' and k.denominator == 1:
            pw.append(power(div(r.a[1], r), num(k)))        # W e^W = x
        elif r.op == 'mul' and any(z.op == 'ln' for z in r.a):
            zs = [z for z in r.a if z.op == 'ln']
            z = zs[0]
            others = list(r.a)
            others.remove(z)
            pw.append(power(z.a[0], mul(num(k), *others)))
        else:
            rest.append(q)
    if pw:
        return mul(exp(add(*rest)), *pw)
    return mk('exp', u)


def ln(x):
    if x.op == 'top':
        return x
    if x == ONE:
        return ZERO
    if x.op == 'exp':
        return x.a[0]
    if x.op == 'mul' or x.op == 'pow':
        # split off exponentials: ln(exp(a) y) = a + ln y
        parts = x.a if x.op == 'mul' else (x,)
        es = [q for q in parts if q.op == 'exp']
        if es:
            rest = [q for q in parts if q.op != 'exp']
            return add(ln(mul(*rest)) if rest else ZERO, *[q.a[0] for q in es])
        for q in parts:
            b, k = (q.a[0], q.a[1]) if q.op == 'pow' and q.a[1].op == 'num' else (q, ONE)
            if b.op == 'fn' and b.a[0] == 'lambertw':
                # ln W(x) = ln x - W(x)
                return sub(ln(mul(*([power(b.a[1], k)] + [r for r in parts if r is not q]))), mul(k, b))
    return mk('ln', x)


def fn(name, *args):
    for a in args:
        if a.op == 'top':
            return a
    return mk('fn', name, *args)


ODD = {'erf', 'bessel1', 'sin', 'tan', 'asin', 'atan'}
EVEN = {'bessel0', 'cos', 'abs'}
POSFN = {'bessel0', 'abs', 'lambertw', 'erfc'}
INTFN = {'trunc', 'ceil', 'floor', 'round', 'idiv', 'imod', 'intsym'}


def sinh(x):
    return mul(num(Fraction(1, 2)), sub(exp(x), exp(neg(x))))


def cosh(x):
    return mul(num(Fraction(1, 2)), add(exp(x), exp(neg(x))))


def tanh(x):
    return div(sub(exp(x), exp(neg(x))), add(exp(x), exp(neg(x))))


def sin(x):
    if x.op == 'fn' and x.a[0] == 'acos':
        return sqrt(sub(ONE, power(x.a[1], num(2))))
    if x.op == 'fn' and x.a[0] == 'asin':
        return x.a[1]
    if x == ZERO:
        return ZERO
    s = trig_shift(x)
    if s is not None:
        return mul(num(s[0]), fn('sin', s[1])) if s[2] == 0 else mul(num(s[0]), fn('cos', s[1]))
    return fn('sin', x)


def cos(x):
    if x.op == 'fn' and x.a[0] == 'acos':
        return x.a[1]
    if x.op == 'fn' and x.a[0] == 'asin':
        return sqrt(sub(ONE, power(x.a[1], num(2))))
    if x == ZERO:
        return ONE
    s = trig_shift(x)
    if s is not None:
        return mul(num(s[0]), fn('cos', s[1])) if s[2] == 0 else mul(num(-s[0]), fn('sin', s[1]))
    return fn('cos', x)


def trig_shift(x):
    """x = y + k*pi/2 -> (sign, y, k mod 2); k reduced so sin(x) = sign*sin/cos(y)."""
    if x.op != 'add':
        return None
    k = Fraction(0)
    rest = []
    for q in x.a:
        c, r = coef(q)
        if r == PI:
            k += c
        else:
            rest.append(q)
    k2 = k * 2
    if k2 == 0 or k2.denominator != 1:
        return None
    n = int(k2) % 4
    return ([1, 1, -1, -1][n], add(*rest), n % 2)


def summ(var, n, body):
    """Sum over var = 0 .. n-1"""
    if body.op == 'top':
        return body
    if n.op == 'top':
        return n
    if n.op == 'num' and n.a[0].denominator == 1 and 0 <= n.a[0] <= 24 and False:
        pass
    if body == ZERO:
        return ZERO
    return mk('sum', var, n, body)


def prodd(var, n, body):
    if body.op == 'top':
        return body
    if n.op == 'top':
        return n
    return mk('prod', var, n, body)


def idx(name):
    return mk('idx', name)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'lt' and b.op != 'top' and a.op != 'top':
        d = c.a[0]
        if a is neg(d) and b is d:
            return fn('abs', d)
        if b is neg(d) and a is d:
            return neg(fn('abs', d))
    return mk('ite', c, a, b)


def lt(a, b):
    d = sub(a, b)
    if d.op == 'top':
        return d
    if d.op == 'num':
        return TRUE if d.a[0] < 0 else FALSE
    return mk('lt', d)       # d < 0


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    d = sub(a, b)
    if d.op == 'top':
        return d
    if d.op == 'num':
        return TRUE if d.a[0] == 0 else FALSE
    return mk('eq', d)


def bnot(c):
    if c.op == 'top':
        return c
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c.op == 'not':
        return c.a[0]
    return mk('not', c)


def band(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a.op == 'top':
        return a
    if b.op == 'top':
        return b
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == b:
        return a
    return mk('and', a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def inv(freshname, body, y):
    """the solution x of body[x] = y.  body contains sym(freshname,'pos')."""
    if body.op == 'top':
        return body
    if y.op == 'top':
        return y
    canon = '#x%d' % body.depth
    b = subst(body, {sym(freshname): sym(canon)})
    return mk('inv', canon, b, y)


def positive(t, _memo={}):
    r = _memo.get(t.id)
    if r is None:
        r = _positive(t)
        _memo[t.id] = r
    return r


def _positive(t):
    o = t.op
    if o == 'num':
        return t.a[0] > 0
    if o == 'sym':
        return t.a[1] in ('pos', 'int')
    if o == 'mul' or o == 'add':
        return all(positive(x) for x in t.a)
    if o == 'pow':
        return positive(t.a[0])
    if o == 'exp':
        return True
    if o == 'fn':
        return t.a[0] in POSFN and (t.a[0] != 'lambertw' or positive(t.a[1]))
    if o == 'inv':
        return True
    if o == 'ite':
        return positive(t.a[1]) and positive(t.a[2])
    if o in ('sum', 'prod'):
        return positive(t.a[2])
    return False


def is_int(t):
    o = t.op
    if o == 'num':
        return t.a[0].denominator == 1
    if o == 'sym':
        return t.a[1] == 'int'
    if o == 'idx':
        return True
    if o in ('add', 'mul'):
        return all(is_int(x) for x in t.a)
    if o == 'fn':
        return t.a[0] in INTFN or t.a[0].startswith('wrap:')
    if o == 'prod' or o == 'sum':
        return is_int(t.a[2])
    if o == 'ite':
        return is_int(t.a[1]) and is_int(t.a[2])
    if o == 'pow':
        return is_int(t.a[0]) and t.a[1].op == 'num' and t.a[1].a[0] >= 0 and t.a[1].a[0].denominator == 1
    return False


def has_top(t, _memo={}):
    r = _memo.get(t.id)
    if r is None:
        r = t.op == 'top' or any(isinstance(x, T) and has_top(x) for x in t.a)
        _memo[t.id] = r
    return r


def tops(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == 'top':
        acc.add(t.a[0])
    for x in t.a:
        if isinstance(x, T):
            tops(x, acc, seen)
    return acc


def syms(t, _memo={}):
    r = _memo.get(t.id)
    if r is None:
        if t.op == 'sym':
            r = frozenset([t])
        else:
            r = frozenset()
            for x in t.a:
                if isinstance(x, T):
                    r = r | syms(x)
            if t.op == 'inv':
                r = r - {sym(t.a[0])}
        _memo[t.id] = r
    return r


def rebuild(t, f):
    """rebuild t with f applied to children terms"""
    o = t.op
    a = t.a
    if o in ('num', 'sym', 'idx', 'top', 'true', 'false'):
        return t
    if o == 'add':
        return add(*[f(x) for x in a])
    if o == 'mul':
        return mul(*[f(x) for x in a])
    if o == 'pow':
        return power(f(a[0]), f(a[1]))
    if o == 'exp':
        return exp(f(a[0]))
    if o == 'ln':
        return ln(f(a[0]))
    if o == 'fn':
        args = [f(x) for x in a[1:]]
        if a[0] == 'sin':
            return sin(args[0])
        if a[0] == 'cos':
            return cos(args[0])
        return fn(a[0], *args)
    if o == 'sum':
        return summ(a[0], f(a[1]), f(a[2]))
    if o == 'prod':
        return prodd(a[0], f(a[1]), f(a[2]))
    if o == 'ite':
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if o == 'lt':
        return lt(f(a[0]), ZERO)
    if o == 'eq':
        return eq(f(a[0]), ZERO)
    if o == 'not':
        return bnot(f(a[0]))
    if o == 'and':
        return band(f(a[0]), f(a[1]))
    if o == 'inv':
        b = f(a[1])
        y = f(a[2])
        if b.op == 'top' or y.op == 'top':
            return b if b.op == 'top' else y
        return mk('inv', a[0], b, y)
    raise Unsupported(o)


def subst(t, m):
    memo = {}
    ids = {k.id: v for k, v in m.items()}

    def go(x):
        if x.id in ids:
            return ids[x.id]
        if x.op in ('num', 'sym', 'idx', 'top', 'true', 'false'):
            return x
        r = memo.get(x.id)
        if r is None:
            if not any(s.id in ids for s in syms(x)) and not any(k.op != 'sym' for k in m):
                r = x
            else:
                r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def subst_idx(t, name, v):
    memo = {}

    def go(x):
        if name not in x.fv:
            return x
        if x.op == 'idx' and x.a[0] == name:
            return v
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def deriv(t, s, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        r = ZERO if s not in syms(t) else _deriv(t, s, memo)
        memo[t.id] = r
    return r


def _deriv(t, s, memo):
    o = t.op
    a = t.a
    D = lambda x: deriv(x, s, memo)
    if o == 'sym':
        return ONE if t == s else ZERO
    if o == 'add':
        return add(*[D(x) for x in a])
    if o == 'mul':
        out = []
        for i, x in enumerate(a):
            dx = D(x)
            if dx != ZERO:
                out.append(mul(*(list(a[:i]) + [dx] + list(a[i + 1:]))))
        return add(*out)
    if o == 'pow':
        b, e = a
        if s not in syms(e):
            return mul(e, power(b, sub(e, ONE)), D(b))
        return mul(t, add(mul(D(e), ln(b)), mul(e, D(b), power(b, num(-1)))))
    if o == 'exp':
        return mul(t, D(a[0]))
    if o == 'ln':
        return mul(D(a[0]), power(a[0], num(-1)))
    if o == 'sum':
        return summ(a[0], a[1], D(a[2]))
    if o == 'ite':
        return ite(a[0], D(a[1]), D(a[2]))
    if o == 'inv':
        X = sym(a[0])
        fp = subst(deriv(a[1], X), {X: t})
        ds = subst(D(a[1]), {X: t}) if s != X else ZERO
        return mul(sub(D(a[2]), ds), power(fp, num(-1)))
    if o == 'fn':
        n = a[0]
        x = a[1]
        if n in ('trunc', 'ceil', 'floor', 'round', 'idiv', 'imod'):
            return ZERO
        if n == 'sin':
            return mul(cos(x), D(x))
        if n == 'cos':
            return neg(mul(sin(x), D(x)))
        if n == 'erf':
            return mul(num(2), power(PI, num(Fraction(-1, 2))), exp(neg(power(x, num(2)))), D(x))
        if n == 'bessel0':
            return mul(fn('bessel1', x), D(x))
        if n == 'bessel1':
            return mul(sub(fn('bessel0', x), div(fn('bessel1', x), x)), D(x))
        if n == 'acos':
            return neg(mul(power(sub(ONE, power(x, num(2))), num(Fraction(-1, 2))), D(x)))
        if n == 'lambertw':
            return mul(t, power(mul(x, add(ONE, t)), num(-1)), D(x))
        out = []
        for i, y in enumerate(a[1:]):
            dy = D(y)
            if dy != ZERO:
                out.append(mul(fn('D%d:%s' % (i, n), *a[1:]), dy))
        return add(*out)
    return top('derivative of ' + o)


def show(t, d=0):
    o, a = t.op, t.a
    if d > 12:
        return '…'
    S = lambda x: show(x, d + 1)
    if o == 'num':
        q = a[0]
        if q.denominator == 1:
            return str(q)
        return repr(float(q))
    if o in ('sym', 'idx'):
        return str(a[0])
    if o == 'add':
        return '(' + ' + '.join(S(x) for x in a[:8]) + (' + …' if len(a) > 8 else '') + ')'
    if o == 'mul':
        return '*'.join(S(x) for x in a[:10])
    if o == 'pow':
        return '%s^%s' % (S(a[0]), S(a[1]))
    if o == 'fn':
        return '%s(%s)' % (a[0], ', '.join(S(x) for x in a[1:]))
    if o == 'sum':
        return 'Σ[%s<%s](%s)' % (a[0], S(a[1]), S(a[2]))
    if o == 'prod':
        return 'Π[%s<%s](%s)' % (a[0], S(a[1]), S(a[2]))
    if o == 'top':
        return '⊤<%s>' % a[0]
    if o == 'inv':
        return 'solve[%s: %s = %s]' % (a[0], S(a[1]), S(a[2]))
    if not a:
        return o
    return '%s(%s)' % (o, ', '.join(S(x) if isinstance(x, T) else str(x) for x in a))


# ------------------------------------------------------------------------------------------------ value numbers

class Chain(object):
    def __init__(self, ps):
        self.p = ps
        self.g = []
        self.tab = [None] * 5
        for i in range(4):
            self.g.append(4 if ps[i] > 7 else 4)

    def dlog(self, level, x):
        """discrete log of residue x to base g in F_p[level]"""
        t = self.tab[level]
        if t is None:
            p = self.p[level]
            q = self.p[level + 1]
            t = np.zeros(p, dtype=np.int32)
            pw = np.ones(1, dtype=np.int64)
            g = self.g[level]
            n = 1
            while n < q:
                m = pow(g, n, p)
                pw = np.concatenate([pw, pw * m % p])
                n *= 2
            pw = pw[:q]
            t[pw] = np.arange(q, dtype=np.int32)
            self.tab[level] = t
        return int(t[x])


_chains = {}


def get_chain(i):
    global CHAINS
    if CHAINS is None:
        CHAINS = _find_chains()
    i %= len(CHAINS)
    if i not in _chains:
        _chains[i] = Chain(CHAINS[i])
    return _chains[i]


KEYLEVEL = 2


class Trial(object):
    def __init__(self, seed, n):
        self.n = n
        self.seed = (seed, n)
        self.ch = get_chain(n)
        self.P = self.ch.p
        self.memo = {}
        self.rnd = {}
        self.iv = {}
        self.rng = random.Random('%s/%d' % (seed, n))
        self.bits = random.Random('b%s/%d' % (seed, n))
        self.nonres = False
        self.nr = {}

    def rand(self, key, L, pos=False):
        k = (key, L)
        v = self.rnd.get(k)
        if v is None:
            p = self.P[L]
            r = random.Random(repr((self.seed, k)))
            v = r.randrange(2, p - 1)
            v = v * v % p if pos else v
            self.rnd[k] = v
        return v

    def bit(self, key):
        k = ('bit', key)
        v = self.rnd.get(k)
        if v is None:
            v = random.Random(repr((self.seed, k))).randrange(2)
            self.rnd[k] = v
        return v

    def inv(self, x, p):
        if x % p == 0:
            raise Reroll('zero')
        return pow(x, -1, p)

    def isres(self, x, L):
        p = self.P[L]
        return pow(x, (p - 1) // 2, p) == 1

    def ev(self, t, L, env):
        ek = tuple((v, env[v]) for v in sorted(t.fv)) if t.fv else ()
        k = (t.id, L, ek)
        r = self.memo.get(k)
        if r is None:
            old = self.nonres
            self.nonres = False
            v = self._ev(t, L, env)
            r = (v, self.nonres)
            self.memo[k] = r
            self.nonres = old
        if r[1]:
            self.nonres = True
        return r[0]

    def key(self, t, env):
        return self.ev(t, KEYLEVEL, env)

    def _ev(self, t, L, env):
        if L < 0 or L > 4:
            raise Unsupported('level')
        p = self.P[L]
        o, a = t.op, t.a
        if o == 'num':
            q = a[0]
            return q.numerator * self.inv(q.denominator, p) % p if q.denominator != 1 else q.numerator % p
        if o == 'sym':
            return self.rand(('s', a[0]), L, a[1] in ('pos', 'int'))
        if o == 'idx':
            return self.rand(('i', env[a[0]]), L, False)
        if o == 'add':
            s = 0
            for x in a:
                s += self.ev(x, L, env)
            return s % p
        if o == 'mul':
            s = 1
            for x in a:
                s = s * self.ev(x, L, env) % p
            return s
        if o == 'pow':
            b, e = a
            if e.op == 'num' and e.a[0].denominator == 1:
                n = int(e.a[0])
                bv = self.ev(b, L, env)
                if n < 0:
                    bv = self.inv(bv, p)
                    n = -n
                return pow(bv, n, p)
            if L >= 4:
                raise Unsupported('pow level')
            if b.op == 'num' and b.a[0] == -1 and is_int(e):
                return 1 if self.parity(e, env) == 0 else p - 1
            bv = self.ev(b, L, env)
            if bv == 0:
                raise Reroll('zero base')
            evv = self.ev(e, L + 1, env)
            if self.isres(bv, L):
                if b.op in ('mul', 'pow') and not is_int(e):
                    # |x| in disguise: the representative of a factor of unknown sign is not canonical here
                    for q in (b.a if b.op == 'mul' else (b,)):
                        q = q.a[0] if q.op == 'pow' else q
                        if not positive(q) and not self.isres(self.ev(q, L, env), L):
                            self.nonres = True
                return pow(bv, evv, p)
            r = pow(p - bv, evv, p)
            if is_int(e):
                return r if self.parity(e, env) == 0 else (p - r) % p
            self.nonres = True
            return r
        if o == 'exp':
            if L >= 4:
                raise Unsupported('exp level')
            return pow(self.ch.g[L], self.ev(a[0], L + 1, env), p)
        if o == 'ln':
            if L <= 0:
                if a[0].op == 'num' and a[0].a[0] > 0:
                    return sum(e * self.rand(('lnprime', q), 0) for q, e in factors(a[0].a[0])) % p
                raise Unsupported('ln level')
            v = self.ev(a[0], L - 1, env)
            if v == 0:
                raise Reroll('ln 0')
            if not self.isres(v, L - 1):
                v = self.P[L - 1] - v
            return self.ch.dlog(L - 1, v) % p
        if o == 'sum':
            n = a[1]
            nk = self.key(n, env)
            nv = self.ev(n, L, env)
            i0, i1 = (nk, 0), (nk, 1)
            e2 = dict(env)
            x0 = self.rand(('i', i0), L)
            x1 = self.rand(('i', i1), L)
            if x0 == x1:
                raise Reroll('idx')
            # w0 + w1 = n ; w0 x0 + w1 x1 = n(n-1)/2
            s2 = nv * (nv - 1) % p * self.inv(2, p) % p
            w1 = (s2 - nv * x0) * self.inv(x1 - x0, p) % p
            w0 = (nv - w1) % p
            e2[a[0]] = i0
            r = w0 * self.ev(a[2], L, e2)
            e2 = dict(env)
            e2[a[0]] = i1
            return (r + w1 * self.ev(a[2], L, e2)) % p
        if o == 'prod':
            nk = self.key(a[1], env)
            ks = []
            for j in (0, 1):
                e2 = dict(env)
                e2[a[0]] = (nk, j)
                ks.append(self.key(a[2], e2))
            return self.rand(('prod', nk, tuple(ks)), L, True)
        if o == 'ite':
            return self.ev(a[1] if self.cond(a[0], env) else a[2], L, env)
        if o == 'fn':
            return self.evfn(t, L, env)
        if o == 'inv':
            return self.rand(('inv', self.key(a[1], env), self.key(a[2], env)), L, True)
        if o in ('lt', 'eq', 'not', 'and', 'true', 'false'):
            return 1 if self.cond(t, env) else 0
        raise Unsupported(o)

    def evfn(self, t, L, env):
        name = t.a[0]
        args = t.a[1:]
        p = self.P[L]
        kp = self.P[KEYLEVEL]
        ks = [self.key(x, env) for x in args]
        sg = 1
        if name in ('sin', 'cos'):
            k = ks[0]
            if k == 0:
                return 0 if name == 'sin' else 1
            if k > kp // 2:
                k = kp - k
                sg = -1
            u = self.rand(('trig', k), L)
            d = self.inv(1 + u * u, p)
            if name == 'cos':
                return (1 - u * u) * d % p
            return sg * 2 * u * d % p
        if name in ODD or name in EVEN:
            k = ks[0]
            if k == 0 and name in ODD:
                return 0
            if k > kp // 2:
                ks[0] = kp - k
                if name in ODD:
                    sg = -1
        if name == 'abs':
            # |x|: consistent with sign canonicalisation
            if positive(args[0]):
                return self.ev(args[0], L, env)
        return sg * self.rand(('f', name, tuple(ks)), L, name in POSFN) % p

    def parity(self, t, env):
        o, a = t.op, t.a
        if o == 'num':
            return int(a[0]) % 2
        if o == 'sym':
            return self.bit(('s', a[0]))
        if o == 'idx':
            return self.bit(('i', env[a[0]]))
        if o == 'add':
            return sum(self.parity(x, env) for x in a) % 2
        if o == 'mul':
            r = 1
            for x in a:
                r &= self.parity(x, env)
            return r
        if o == 'pow':
            return self.parity(a[0], env)
        if o == 'ite':
            return self.parity(a[1] if self.cond(a[0], env) else a[2], env)
        return self.bit(('k', self.key(t, env)))

    def cond(self, t, env):
        o, a = t.op, t.a
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'not':
            return not self.cond(a[0], env)
        if o == 'and':
            return self.cond(a[0], env) and self.cond(a[1], env)
        if o == 'eq':
            return False
        if o == 'lt':
            d = a[0]
            parts = d.a if d.op == 'add' else (d,)
            c = Fraction(0)
            rest = []
            for q in parts:
                if q.op == 'num':
                    c += q.a[0]
                else:
                    rest.append(q)
            r = add(*rest)
            if len(rest) == 1:
                k, r1 = coef(r)
                c = c / abs(k)
                r = r1 if k > 0 else neg(r1)
            # r + c < 0
            k = self.key(r, env)
            kp = self.P[KEYLEVEL]
            s = 1
            pos = positive(r)
            negv = positive(neg(r))
            if k > kp // 2:
                k = kp - k
                s = -1
                pos, negv = negv, pos
            lo, hi = self.iv.get(k, (0 if pos else -float('inf'), 0 if negv else float('inf')))
            # s=1: r' < -c ; s=-1: -r' + c < 0 -> r' > c
            th = float(-c) if s == 1 else float(c)
            if th <= lo:
                below = False
            elif th >= hi:
                below = True
            else:
                below = bool(random.Random(repr((self.seed, 'c', k, th))).randrange(2))
                if below:
                    hi = min(hi, th)
                else:
                    lo = max(lo, th)
                self.iv[k] = (lo, hi)
            return below if s == 1 else not below
        if o == 'ite':
            return self.cond(a[1] if self.cond(a[0], env) else a[2], env)
        if o == 'fn':
            ks = tuple(self.key(x, env) for x in a[1:])
            return bool(self.bit(('bf', a[0], ks)))
        raise Unsupported('cond ' + o)


def factors(q):
    out = []
    for n, sg in ((q.numerator, 1), (q.denominator, -1)):
        d = 2
        while n > 1:
            if d * d > n or d > 10000:
                out.append((n, sg))
                break
            while n % d == 0:
                out.append((d, sg))
                n //= d
            d += 1
    return out


_trials = {}
SEED = ['1']


def get_trial(n):
    t = _trials.get((SEED[0], n))
    if t is None:
        t = Trial(SEED[0], n)
        _trials[(SEED[0], n)] = t
    return t


def nconds(t, _memo={}):
    """set of branch conditions in t"""
    r = _memo.get(t.id)
    if r is None:
        r = frozenset([t.a[0]]) if t.op == 'ite' else frozenset()
        for x in t.a:
            if isinstance(x, T):
                r = r | nconds(x)
        _memo[t.id] = r
    return r


STATS = {'eq': 0, 'trials': 0, 'unsupported': 0}


def nconcrete(t):
    """thresholds: symbol -> constants it is compared with (conditions affine in one symbol)"""
    out = {}

    def atom(c):
        if c.op in ('not', 'and'):
            for x in c.a:
                atom(x)
        elif c.op in ('lt', 'eq'):
            d = c.a[0]
            parts = d.a if d.op == 'add' else (d,)
            k0 = Fraction(0)
            rest = []
            for q in parts:
                if q.op == 'num':
                    k0 += q.a[0]
                else:
                    rest.append(q)
            if len(rest) == 1:
                k, r = coef(rest[0])
                if r.op == 'sym':
                    out.setdefault(r, set()).add((c.op, -k0 / k))
    for c in nconds(t):
        atom(c)
    return out


def expand(t, limit=300):
    """finite sums/products with a concrete number of terms, written out"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            if r.op in ('sum', 'prod') and r.a[1].op == 'num' and r.a[1].a[0].denominator == 1 \
                    and r.a[1].a[0] <= limit:
                parts = [subst_idx(r.a[2], r.a[0], num(k)) for k in range(int(r.a[1].a[0]))]
                r = add(*parts) if r.op == 'sum' else mul(*parts)
            memo[x.id] = r
        return r
    return go(t)


def fpvals(terms, want=3, level=2):
    """yield (flagged, values) on successive usable trials"""
    cs = frozenset()
    for t in terms:
        cs = cs | nconds(t)
    if cs:
        want = max(want, min(64, 8 * 2 ** min(len(cs), 3)))
    n = 0
    got = 0
    while got < want and n < want * 4 + 24:
        tr = get_trial(n)
        n += 1
        tr.nonres = False
        try:
            vs = [tr.ev(t, level, {}) for t in terms]
        except Reroll:
            continue
        STATS['trials'] += 1
        LASTTRIAL[0] = tr
        if not tr.nonres:
            got += 1
        yield tr.nonres, vs


def _eq0(a, b, want, level):
    clean = flagok = flagbad = 0
    cs = sorted((c for c in nconds(a) | nconds(b) if not c.fv), key=lambda c: c.id)
    sound, doubt = set(), {}
    for fl, (va, vb) in fpvals([a, b], want, level):
        if fl:
            if va == vb:
                flagok += 1
            else:
                flagbad += 1
        elif va != vb:
            return False
        else:
            clean += 1
        if cs:
            # a combination of branches on which only trials without a square root disagree is not decided by the others
            try:
                sig = tuple(LASTTRIAL[0].cond(c, {}) for c in cs)
            except (Unsupported, Reroll):
                continue
            if not fl or va == vb:
                sound.add(sig)
            else:
                doubt[sig] = doubt.get(sig, 0) + 1
    if clean:
        if any(n >= 2 and sig not in sound for sig, n in doubt.items()):
            return None
        return True
    if flagbad == 0 and flagok >= want:
        return True
    if flagok == 0 and flagbad >= 12:
        return False
    return None


LASTTRIAL = [None]
LAST = [None]
EFFORT = [1]


def equal(a, b, want=3, level=2, refine=True):
    want *= EFFORT[0]
    r = _equal(a, b, want, level, refine)
    if r == 'level':
        # nested exponentials need room below, nested logarithms room above: start elsewhere in the tower
        for l in (1, 3, 0):
            r = _equal(a, b, want, l, refine)
            if r != 'level':
                break
        else:
            STATS['unsupported'] += 1
            r = None
    if r is False:
        LAST[0] = (a, b)
    return r


def decide(a, b):
    """equal, and where value numbers cannot tell, False if the two differ at a point"""
    r = equal(a, b)
    if r is None and not has_top(a) and not has_top(b):
        from . import numeric
        if numeric.confirmed(a, b) is True:
            LAST[0] = None
            return False
    return r


def _equal(a, b, want=3, level=2, refine=True):
    """True / False / None (undecided).  False is only reported when it persists under concrete instantiation of the
    integer symbols the disagreement may hinge on (sums over a symbolic number of terms, comparisons with constants)."""
    STATS['eq'] += 1
    if a is b:
        return None if has_top(a) else True
    if has_top(a) or has_top(b):
        return None
    try:
        r = _eq0(a, b, want, level)
        if not refine:
            return r
        th = nconcrete(a)
        for s_, cs in nconcrete(b).items():
            th.setdefault(s_, set()).update(cs)
        if r is True:
            # equalities with a constant are never taken by a random trial: decide them by instantiation
            for s_, cs in sorted(th.items(), key=lambda x: x[0].id):
                for op, c in sorted(cs):
                    if op == 'eq' and (s_.a[1] != 'int' or c.denominator == 1 and c >= 0):
                        q = inst_equal(a, b, s_, c, level)
                        if q is False:
                            return False
            if any(compound(c) for c in nconds(a) | nconds(b)):
                from . import numeric
                if numeric.special(a, b) is False:
                    return False
            return True
        if r is False:
            # sums of a concrete number of terms: the two-point rule is no match for the written-out sum
            x, y = expand(a), expand(b)
            if x is not a or y is not b:
                return True if x is y else _equal(x, y, want, level, refine)
            ints = [s_ for s_ in sorted(syms(a) | syms(b), key=lambda x: x.id)
                    if s_.a[1] == 'int' and (s_ in th or _in_counts(a, s_) or _in_counts(b, s_))]
            if not ints:
                return False
            s_ = ints[0]
            vals = {3, 4, 5, 8}
            for op, c in th.get(s_, ()):
                for k in (int(c) - 1, int(c), int(c) + 1):
                    if 1 <= k <= 255:
                        vals.add(k)
            if len(ints) > 1:
                m = {x: num(6) for x in ints[1:]}
                a, b = subst(a, m), subst(b, m)
            res = [inst_equal(a, b, s_, k, level) for k in sorted(vals)]
            if False in res:
                return False
            return None
        return r
    except Unsupported as e:
        return 'level' if 'level' in str(e) else None


def compound(c):
    if c.op in ('not', 'and'):
        return any(compound(x) for x in c.a)
    if c.op != 'eq':
        return False
    rest = [x for x in (c.a[0].a if c.a[0].op == 'add' else (c.a[0],)) if x.op != 'num']
    return len(rest) > 1 or coef(rest[0])[1].op != 'sym'


def inst_equal(a, b, s_, k, level):
    m = {s_: num(k)}
    try:
        x, y = expand(subst(a, m)), expand(subst(b, m))
    except (ZeroDivisionError, Unsupported):
        return None
    if has_top(x) or has_top(y):
        return None
    if x is y:
        return True
    try:
        return _eq0(x, y, 3, level)
    except Unsupported:
        return None


def _in_counts(t, s_, _memo={}):
    k = (t.id, s_.id)
    r = _memo.get(k)
    if r is None:
        r = False
        if s_ in syms(t):
            if t.op in ('sum', 'prod') and s_ in syms(t.a[1]):
                r = True
            else:
                r = any(isinstance(x, T) and _in_counts(x, s_) for x in t.a)
        _memo[k] = r
    return r


def is_zero(t, **kw):
    return equal(t, ZERO, **kw)


def independent_of(t, s):
    """True if the value of t does not depend on symbol s (value numbers under two choices of s agree)"""
    if has_top(t):
        return None
    if s not in syms(t):
        return True
    return equal(t, subst(t, {s: sym(s.a[0] + "'", s.a[1])}))
