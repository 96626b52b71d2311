"""Interval analysis of integer-valued terms, refined by path conditions."""
from fractions import Fraction
from . import terms as t

INF = float('inf')
TYPES = {'u8': (0, 255), 'u16': (0, 2 ** 16 - 1), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1), 'u128': (0, 2 ** 128 - 1),
         'usize': (0, 2 ** 64 - 1), 'i8': (-128, 127), 'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
         'i64': (-2 ** 63, 2 ** 63 - 1), 'i128': (-2 ** 127, 2 ** 127 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1)}


class Infeasible(Exception):
    pass


class Ranges(object):
    def __init__(self, syms, idxn, pc=()):
        self.syms = dict(syms)          # integer symbol -> (lo, hi)
        self.idxn = idxn
        self.facts = []                 # d < 0, as (terms d, strict)
        self.ne = set()
        self.eqs = {}
        self.at = {}                    # index variable -> (lo, hi) under the path conditions
        for c in pc:
            self.assume(c, True)
        for _ in range(3):
            self.refine()

    def assume(self, c, pos):
        if c.op == 'not':
            return self.assume(c.a[0], not pos)
        if c.op == 'and':
            if pos:
                self.assume(c.a[0], True)
                self.assume(c.a[1], True)
            return
        if c == t.FALSE and pos or c == t.TRUE and not pos:
            raise Infeasible()
        if c.op == 'lt':
            if pos:
                self.facts.append((c.a[0], True))
            else:
                self.facts.append((t.neg(c.a[0]), False))
        if c.op == 'eq':
            if pos:
                self.facts.append((c.a[0], False))
                self.facts.append((t.neg(c.a[0]), False))
            else:
                self.ne.add(c.a[0])

    def refine(self):
        """facts linear in one integer symbol or index: a*s + b < 0"""
        self.indices()
        for d, strict in self.facts:
            ss = [s for s in t.syms(d)]
            if len(ss) != 1 or d.fv or ss[0] not in self.syms:
                continue
            s = ss[0]
            b = t.subst(d, {s: t.ZERO}) if not self.bad(d, s) else None
            if b is None or b.op != 'num':
                continue
            a = t.sub(t.subst(d, {s: t.ONE}), b)
            if a.op != 'num' or t.add(t.mul(a, s), b) is not d and t.sub(t.add(t.mul(a, s), b), d) != t.ZERO:
                continue
            a, b = a.a[0], b.a[0]
            lo, hi = self.syms[s]
            x = -b / a
            f = x.numerator // x.denominator
            if a > 0:
                h = f - 1 if strict and f == x else f
                hi = min(hi, h)
            else:
                l = f if f == x else f + 1
                if strict and f == x:
                    l = f + 1
                lo = max(lo, l)
            self.syms[s] = (lo, hi)
        for d in self.ne:
            for s in t.syms(d):
                if s in self.syms:
                    lo, hi = self.syms[s]
                    for v in (lo, hi):
                        if t.sub(s, t.num(v)) in (d, t.neg(d)):
                            self.syms[s] = (lo + 1, hi) if v == lo else (lo, hi - 1)
                            lo, hi = self.syms[s]
        for s, (lo, hi) in self.syms.items():
            if lo > hi:
                raise Infeasible()

    def indices(self):
        for d, strict in self.facts:
            if len(d.fv) != 1 or t.syms(d):
                continue
            v = next(iter(d.fv))
            b = t.subst_idx(d, v, t.ZERO)
            a = t.sub(t.subst_idx(d, v, t.ONE), b)
            if a.op != 'num' or b.op != 'num' or not a.a[0] or t.sub(t.add(t.mul(a, t.idx(v)), b), d) != t.ZERO:
                continue
            a, b = a.a[0], b.a[0]
            lo, hi = self.at.get(v, (0, INF))
            x = -b / a
            f = x.numerator // x.denominator
            if a > 0:
                hi = min(hi, f - 1 if strict and f == x else f)
            else:
                lo = max(lo, f + 1 if strict or f != x else f)
            self.at[v] = (lo, hi)
        for d in self.ne:
            if len(d.fv) == 1:
                v = next(iter(d.fv))
                lo, hi = self.at.get(v, (0, INF))
                if t.sub(t.idx(v), t.num(lo)) in (d, t.neg(d)):
                    lo += 1
                elif hi != INF and t.sub(t.idx(v), t.num(hi)) in (d, t.neg(d)):
                    hi -= 1
                self.at[v] = (lo, hi)
        if any(lo > hi for lo, hi in self.at.values()):
            raise Infeasible()

    def bad(self, d, s):
        try:
            t.subst(d, {s: t.ZERO})
            return False
        except ZeroDivisionError:
            return True

    def of(self, x, env=None, depth=0):
        """(lo, hi) of a term"""
        if depth > 60:
            return (-INF, INF)
        env = env or {}
        o = x.op
        r = lambda y: self.of(y, env, depth + 1)
        if o == 'num':
            return (x.a[0], x.a[0])
        if o == 'sym':
            if x in self.syms:
                return self.syms[x]
            return (0, INF) if x.a[1] in ('pos', 'int') else (-INF, INF)
        if o == 'idx':
            n = env.get(x.a[0], self.idxn.get(x.a[0]))
            if n is None:
                return self.at.get(x.a[0], (0, INF)) if x.a[0] not in env else (0, INF)
            lo, hi = r(n)
            if hi < 1:
                raise Infeasible()
            if x.a[0] not in env and x.a[0] in self.at:
                a, b = self.at[x.a[0]]
                if a > hi - 1:
                    raise Infeasible()
                return (a, min(b, hi - 1))
            return (0, hi - 1)
        if o == 'add':
            lo = hi = 0
            for y in x.a:
                a, b = r(y)
                lo, hi = lo + a, hi + b
            # i + (1 - n)-like sums: the largest index of its own range
            return self.bounded(x, lo, hi, env, depth)
        if o == 'mul':
            lo, hi = 1, 1
            for y in x.a:
                a, b = r(y)
                c = [p(u, v) for p in (prod,) for u in (lo, hi) for v in (a, b)]
                lo, hi = min(c), max(c)
            return (lo, hi)
        if o == 'pow' and x.a[1].op == 'num' and x.a[1].a[0] == 2:
            a, b = r(x.a[0])
            c = [prod(a, a), prod(b, b)]
            return (0 if a <= 0 <= b else min(c), max(c))
        if o == 'pow' and t.is_int(x.a[0]) and t.is_int(x.a[1]):
            a, b = r(x.a[0])
            c, d = r(x.a[1])
            if a >= 0 and c >= 0:
                return (0, ipow(b, d))
        if o == 'ite':
            try:
                A = self.with_fact(x.a[0], True).of(x.a[1], env, depth + 1)
            except Infeasible:
                A = None
            try:
                B = self.with_fact(x.a[0], False).of(x.a[2], env, depth + 1)
            except Infeasible:
                B = None
            if A is None or B is None:
                if A is None and B is None:
                    raise Infeasible()
                return A or B
            return (min(A[0], B[0]), max(A[1], B[1]))
        if o in ('prod', 'sum'):
            n = r(x.a[1])
            e = self.of(x.a[2], {**env, x.a[0]: x.a[1]}, depth + 1)
            if n[1] < 1:
                return (1, 1) if o == 'prod' else (0, 0)
            if o == 'sum':
                return (min(0, prod(n[1], e[0])), max(0, prod(n[1], e[1])))
            if e[0] >= 0 and n[1] <= 400 and e[1] <= 10 ** 6:
                hi = 1
                # product of an affine factor: bound each factor separately
                for k in range(int(n[1])):
                    f = self.of(t.subst_idx(x.a[2], x.a[0], t.num(k)), env, depth + 1)
                    hi *= max(1, int(f[1]))
                return (0, hi)
            return (0, INF) if e[0] >= 0 else (-INF, INF)
        if o == 'fn':
            n = x.a[0]
            if n in ('ceil', 'floor', 'trunc', 'round'):
                a, b = r(x.a[1])
                return (a if abs(a) == INF else Fraction(a).__floor__(), b if abs(b) == INF else Fraction(b).__ceil__())
            if n == 'abs':
                a, b = r(x.a[1])
                return (max(0, a, -b), max(abs(a), abs(b)))
            if n == 'idiv':
                a, b = r(x.a[1])
                c, d = r(x.a[2])
                if a >= 0 and c >= 1:
                    return (0, b)
            if n == 'imod':
                c, d = r(x.a[2])
                if c >= 1:
                    return (0, d - 1) if d != INF else (0, INF)
            if n in ('rngU', 'tanh', 'erf', 'sin', 'cos'):
                return (0, 1) if n == 'rngU' else (-1, 1)
        if o in ('exp', 'cosh'):
            return (0, INF)
        return (0, INF) if t.positive(x) else (-INF, INF)

    def bounded(self, x, lo, hi, env, depth):
        """tighten a sum containing an index variable and minus (part of) its own bound: n - 1 - i >= 0"""
        for y in x.a:
            k, z = t.coef(y)
            if z.op == 'idx':
                n = env.get(z.a[0], self.idxn.get(z.a[0]))
                if n is None:
                    continue
                # i in [0, n-1]
                for v, which in ((t.ZERO, 'lo'), (t.sub(n, t.ONE), 'hi')):
                    pass
                a = self.of_lin(t.subst_idx(x, z.a[0], t.ZERO), env, depth)
                b = self.of_lin(t.subst_idx(x, z.a[0], t.sub(n, t.ONE)), env, depth)
                lo = max(lo, min(a[0], b[0]))
                hi = min(hi, max(a[1], b[1]))
        return (lo, hi)

    def of_lin(self, x, env, depth):
        return self.of(x, env, depth + 1)

    def with_fact(self, c, pos):
        r = Ranges.__new__(Ranges)
        r.syms = dict(self.syms)
        r.idxn = self.idxn
        r.facts = list(self.facts)
        r.ne = set(self.ne)
        r.eqs = {}
        r.at = dict(self.at)
        r.assume(c, pos)
        r.refine()
        return r


def prod(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def ipow(b, e):
    if b == INF or e == INF or e > 10 ** 4:
        return INF
    return int(b) ** int(e)
