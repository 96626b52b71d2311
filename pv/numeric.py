"""Interval-free numerical evaluation of abstract terms at high precision.  Used only as a filter: a disagreement of value
numbers whose two expressions agree numerically at every sampled point is an incompleteness of the value-number theory
(an algebraic identity it does not know), not a violation, and is reported as undecided."""
import random, time
import mpmath
from mpmath import mp, mpf
from . import terms as t

mp.dps = 40


class NoValue(Exception):
    pass


class Eval(object):
    def __init__(self, env, seen=None):
        self.env = env
        self.seen = set() if seen is None else seen
        self.memo = {}

    def ev(self, x, ienv=()):
        k = (x.id, tuple(sorted((v, ienv[v]) for v in x.fv))) if x.fv else x.id
        r = self.memo.get(k)
        if r is None:
            r = self._ev(x, ienv)
            if isinstance(r, mpmath.mpc):
                raise NoValue('complex')
            if not isinstance(r, bool) and not mpmath.isfinite(r):
                raise NoValue('infinite')
            self.memo[k] = r
        return r

    def _ev(self, x, e):
        o, a = x.op, x.a
        if o == 'num':
            return mpf(a[0].numerator) / a[0].denominator
        if o == 'sym':
            v = self.env.get(a[0])
            if v is None:
                raise NoValue('symbol ' + a[0])
            return v
        if o == 'idx':
            return mpf(e[a[0]])
        if o == 'add':
            return mpmath.fsum(self.ev(y, e) for y in a)
        if o == 'mul':
            r = mpf(1)
            for y in a:
                r *= self.ev(y, e)
            return r
        if o == 'pow':
            b, n = self.ev(a[0], e), self.ev(a[1], e)
            if b == 0 and n < 0:
                raise NoValue('division by zero')
            if b < 0 and n != int(n):
                raise NoValue('root of a negative number')
            if n == int(n) and abs(n) < 10000:
                return b ** int(n)
            return mpmath.power(b, n)
        if o == 'exp':
            v = self.ev(a[0], e)
            if v > 1e6:
                raise NoValue('overflow')
            return mpmath.exp(v)
        if o == 'ln':
            v = self.ev(a[0], e)
            if v <= 0:
                raise NoValue('log of a non-positive number')
            return mpmath.log(v)
        if o in ('sum', 'prod'):
            n = self.ev(a[1], e)
            if a[0] not in a[2].fv and n == int(n) and n >= 0:
                v = self.ev(a[2], e)
                return n * v if o == 'sum' else v ** int(n)
            if n != int(n) or n > 5000 or (n > 300 and x.fv):
                raise NoValue('count')
            r = mpf(0 if o == 'sum' else 1)
            for i in range(int(n)):
                e2 = dict(e)
                e2[a[0]] = i
                v = self.ev(a[2], e2)
                r = r + v if o == 'sum' else r * v
            return r
        if o == 'ite':
            c = self.ev(a[0], e)
            self.seen.add((a[0].id, bool(c)))
            return self.ev(a[1] if c else a[2], e)
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'not':
            return not self.ev(a[0], e)
        if o == 'and':
            return self.ev(a[0], e) and self.ev(a[1], e)
        if o == 'lt':
            return bool(self.ev(a[0], e) < 0)
        if o == 'eq':
            return bool(self.ev(a[0], e) == 0)
        if o == 'inv':
            return self.solve(x, e)
        if o == 'fn':
            return self.fn(a[0], [self.ev(y, e) for y in a[1:]])
        raise NoValue(o)

    def solve(self, x, e):
        X = x.a[0]
        y = self.ev(x.a[2], e)
        old = self.env.get(X)
        saved = self.memo

        def f(v):
            self.env[X] = v
            self.memo = {}
            return self.ev(x.a[1], e) - y
        try:
            # bracketed on the positive axis, where the inverted functions are monotonic
            # in ascending order, closely below one, where functions of a relative extension diverge
            ladders = [[mpf(10) ** (mpf(k) / den) for k in range(-6 * den, 0)] + sorted(1 - mpf(10) ** (-mpf(k) / 8) for k in range(4, 80))
                       + [mpf(10) ** (mpf(k) / den) for k in range(0, 6 * den + 1)] for den in (4, 24)]
            for pts in ladders:
                last = None
                for p in pts:
                    try:
                        v = f(p)
                    except NoValue:
                        last = None
                        continue
                    if v == 0:
                        return p
                    if last is not None and (last[1] < 0) != (v < 0):
                        root = mpmath.findroot(f, (last[0], p), solver='anderson', tol=1e-60, maxsteps=200, verify=False)
                        if abs(f(root)) <= mpf(10) ** -12 * (abs(last[1]) + abs(v) + abs(y)):
                            return root
                    last = (p, v)
            raise NoValue('no bracket')
        finally:
            self.memo = saved
            if old is None:
                self.env.pop(X, None)
            else:
                self.env[X] = old

    def fn(self, n, v):
        x = v[0] if v else None
        if n == 'sin':
            return mpmath.sin(x)
        if n == 'cos':
            return mpmath.cos(x)
        if n == 'erf':
            return mpmath.erf(x)
        if n == 'abs':
            return abs(x)
        if n == 'bessel0':
            return mpmath.besseli(0, x)
        if n == 'bessel1':
            return mpmath.besseli(1, x)
        if n == 'lambertw':
            if x < -mpmath.exp(-1):
                raise NoValue('W outside its domain')
            return mpmath.lambertw(x).real
        if n == 'acos' and abs(x) <= 1:
            return mpmath.acos(x)
        if n == 'asin' and abs(x) <= 1:
            return mpmath.asin(x)
        if n == 'atan':
            return mpmath.atan(x)
        if n == 'ceil':
            return mpmath.ceil(x)
        if n == 'floor':
            return mpmath.floor(x)
        if n == 'trunc':
            return mpmath.floor(x) if x >= 0 else mpmath.ceil(x)
        if n == 'f32':
            import struct
            return mpf(struct.unpack('f', struct.pack('f', float(x)))[0])
        if n == 'imod' and v[1]:
            return v[0] - v[1] * (mpmath.floor(v[0] / v[1]) if v[0] / v[1] >= 0 else mpmath.ceil(v[0] / v[1]))
        if n == 'idiv':
            return mpmath.floor(v[0] / v[1]) if v[1] else mpf(0)
        if n.startswith('wrap:'):
            from .ranges import TYPES
            lo, hi = TYPES[n[5:]]
            return (x - lo) % (hi - lo + 1) + lo
        if n in ('F', 'G') or n.startswith('grid_') or n.startswith('call:'):
            # an arbitrary function, the same wherever it occurs
            k = sum(ord(c) for c in n) % 7
            return mpmath.fsum(mpmath.cos(mpf('13.7') * (q + 1) * y + k + mpf('0.7')) + (mpf('0.21') + q) * y for q, y in enumerate(v))
        raise NoValue('function ' + n)


def sample(syms, rng, scale, ints=(3, 4, 5, 6, 8, 11)):
    env = {}
    for s in syms:
        n, k = s.a[0], s.a[1]
        if k == 'int':
            v = mpf(rng.choice(ints))
        elif n == 'pi':
            env[n] = mp.pi + 0
            continue
        elif n == 'kB' or n == 'hP':
            v = mpf(rng.uniform(0.5, 2))
        elif n == 'nondimensional_end_to_end_length_per_link':
            v = mpf(rng.uniform(0.05, 0.95))
        elif n.startswith('nondimensional_link_'):
            v = mpf(rng.uniform(20, 200))
        else:
            v = mpf(rng.uniform(0.2, 2.5)) * scale
        if k == 'real' and rng.random() < 0.5:
            v = -v
        env[n] = v
    return env


def compare(a, b, tries=24, want=5):
    """'differ' at a point, 'agree' at every evaluated point, or None when no point can be evaluated"""
    syms = sorted((s for s in t.syms(a) | t.syms(b) if s.op == 'sym'), key=lambda s: s.a[0])
    n = 0
    rng = random.Random('num')
    for i in range(tries):
        E = Eval(sample(syms, rng, (1, 0.1, 4)[i % 3]))
        try:
            x, y = E.ev(a), E.ev(b)
        except (NoValue, ZeroDivisionError, ValueError, OverflowError, RecursionError, mpmath.libmp.libhyper.NoConvergence):
            continue
        n += 1
        m = max(abs(x), abs(y))
        if abs(x - y) > mpf(10) ** -15 * (m + mpf(10) ** -10):
            return 'differ'
        if n >= want:
            break
    return 'agree' if n else None


def subterms(*xs):
    seen, st = set(), list(xs)
    while st:
        y = st.pop()
        if y.id not in seen:
            seen.add(y.id)
            yield y
            st.extend(z for z in y.a if isinstance(z, t.T))


def atoms(x):
    """the comparisons inside the conditions of an expression, by id"""
    out, seen = {}, set()

    def go(y, cond):
        if (y.id, cond) in seen:
            return
        seen.add((y.id, cond))
        if cond and y.op in ('lt', 'eq'):
            out[y.id] = y
        for i, z in enumerate(y.a):
            if isinstance(z, t.T):
                go(z, (y.op == 'ite' and i == 0) or (cond and y.op in ('not', 'and', 'or')))
    go(x, False)
    return out


LADDER = [mpf(10) ** (mpf(k) / 4) for k in range(-32, 33)]
INTS = [mpf(k) for k in list(range(1, 256)) + [500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]]


def constants(x):
    """the whole numbers in an expression, signs dropped"""
    return sorted({abs(mpf(int(y.a[0]))) for y in subterms(x) if y.op == 'num' and y.a[0].denominator == 1})


def forced(atom, outcome, draw, rng, most=18, edges=False):
    """points at which a comparison has the given outcome: from draw() with one variable moved over many magnitudes,
    and just beyond the value at which the outcome changes"""
    def holds(env):
        try:
            return bool(Eval(dict(env)).ev(atom))
        except (NoValue, ZeroDivisionError, ValueError, OverflowError):
            return None
    for rep in range(2):
        for s in sorted((s for s in t.syms(atom) if s.op == 'sym' and s.a[0] != 'pi'), key=lambda s: s.a[0]):
            base = draw()
            q = s.a[0]

            def at(x):
                return {**base, q: x}
            vals = INTS + [z + k for z in constants(atom) if z > 255 for k in (-1, 0, 1, 2)] if s.a[1] == 'int' else ([-x for x in LADDER[::-1]] if s.a[1] == 'real' else []) + LADDER
            if q == 'nondimensional_end_to_end_length_per_link' or q == 'end_to_end_length_per_link':
                vals = sorted(set(vals + [mpf(k) / 20 for k in range(1, 20)] + [1 - mpf(10) ** -k for k in range(2, 9)]))
            got = [holds(at(x)) for x in vals]
            out, edge = [], []
            for i in range(len(vals)):
                if got[i] is outcome:
                    out.append(vals[i])
                if i and s.a[1] != 'int' and got[i] is not None and got[i - 1] is not None and got[i] != got[i - 1]:
                    a, b = vals[i - 1], vals[i]
                    for _ in range(60):
                        m = (a + b) / 2
                        if holds(at(m)) == got[i - 1]:
                            a = m
                        else:
                            b = m
                    side, sign = (a, -1) if got[i - 1] is outcome else (b, 1)
                    edge += [x for x in (side + sign * abs(side) * d for d in (mpf('1e-4'), mpf('5e-4'), mpf('5e-3'), mpf('5e-2'))) if holds(at(x)) is outcome]
            if atom.op == 'eq' and outcome and not out and s.a[1] != 'int':
                # roots of the compared expression
                d = []
                for x in vals:
                    try:
                        d.append((x, Eval(at(x)).ev(atom.a[0])))
                    except (NoValue, ZeroDivisionError, ValueError, OverflowError):
                        d.append((x, None))
                for (a, u), (b, w) in zip(d, d[1:]):
                    if u is not None and w is not None and u * w < 0:
                        for z in (mpmath.findroot(lambda x: Eval(at(x)).ev(atom.a[0]), (a, b), solver='anderson', tol=1e-60, verify=False),):
                            for z2 in (z, mpf(float(z)), mpmath.nint(z * 10 ** 6) / 10 ** 6):
                                if holds(at(z2)) is True:
                                    out.append(z2)
            if len(out) > most:
                # next to the threshold and spread over the rest
                near = [x for x in out if edge and abs(x - edge[0]) < abs(edge[0])] or out
                out = near[:4] + near[-4:] + rng.sample(out, most - 8)
            for x in edge + ([] if edges else out):
                yield at(x)


def confirmed(a, b, tries=30, want=8):
    """False if the two expressions agree at every evaluated point and the points took every comparison both ways;
    True if they differ at a point; None if that cannot be told"""
    if SPENT[0] > 300:
        return None
    start = time.time()
    try:
        return _confirmed(a, b, tries, want)
    finally:
        SPENT[0] += time.time() - start


SPENT = [0]


def _confirmed(a, b, tries, want):
    try:
        if t.has_top(a) or t.has_top(b):
            return None
        syms = sorted((s for s in t.syms(a) | t.syms(b) if s.op == 'sym'), key=lambda s: s.a[0])
        at = dict(atoms(a))
        at.update(atoms(b))
        at = {i: y for i, y in at.items() if not y.fv}
        need = {(c, v) for c in at for v in (True, False)}
        seen, both = set(), set()
        n = 0
        ints = (3, 4, 5, 6, 8, 11)
        if any(x.op == 'fn' and x.a[0].startswith('wrap:') for x in subterms(a, b)):
            ints += (127, 128, 129, 200, 254, 255)
            tries, want = 60, 24
        rng = random.Random('confirm')
        t0 = time.time()

        def point(env, tol):
            E = Eval(env)
            try:
                x, y = E.ev(a), E.ev(b)
            except (NoValue, ZeroDivisionError, ValueError, OverflowError):
                return None
            now = set()
            for c, y2 in at.items():
                try:
                    now.add((c, bool(E.ev(y2))))
                except (NoValue, ZeroDivisionError, ValueError, OverflowError):
                    pass
            seen.update(now)
            if len(at) <= 8:
                both.update((p, q) for p in now for q in now if p[0] < q[0])
            return not abs(x - y) > mpf(10) ** -tol * (max(abs(x), abs(y)) + mpf(10) ** -10)
        for i in range(tries):
            if time.time() - t0 > 20:
                return None
            r = point(sample(syms, rng, (1, 0.1, 4)[i % 3], ints), 15)
            if r is False:
                return True
            n += r is True
            if n >= want and need <= seen:
                break
        # the outcomes not met so far, one variable at a time over many magnitudes
        for c, v in sorted(need - seen, key=str):
            if (c, v) in seen and n > want:
                continue
            k = 0
            for env in forced(at[c], v, lambda: sample(syms, rng, 1), rng):
                if time.time() - t0 > 30 or k > 12:
                    break
                r = point(env, 15 if at[c].op == 'eq' else 9)
                if r is False:
                    return True
                if r:
                    n += 1
                    k += 1
        # two conditions at once
        pairs = [(p, q) for p in need for q in need if p[0] < q[0]] if 2 <= len(at) <= 8 else []
        for p, q in sorted(pairs, key=str):
            if (p, q) in both or time.time() - t0 > 40:
                continue
            (c, v), (c2, v2) = p, q
            k = tried = 0
            for env in forced(at[c], v, lambda: sample(syms, rng, 1), rng, 6):
                tried += 1
                if tried > 6 or k > 4 or time.time() - t0 > 40:
                    break
                for env2 in forced(at[c2], v2, lambda: env, rng, 6):
                    if time.time() - t0 > 40 or k > 4:
                        break
                    try:
                        if bool(Eval(dict(env2)).ev(at[c])) is not v:
                            continue
                    except (NoValue, ZeroDivisionError, ValueError, OverflowError):
                        continue
                    k += 1
                    if point(env2, 9) is False:
                        return True
        return False if n >= want and need <= seen else None
    except Exception:
        return None


def special(a, b, skip=()):
    """False when the expressions differ at a point where a compound equality among their conditions (one that random
    trials never satisfy, and that is not between a symbol and a constant) holds"""
    try:
        at = dict(atoms(a))
        at.update(atoms(b))
        rng = random.Random('special')
        t0 = time.time()
        for y in at.values():
            if y.op != 'eq' or y.fv or y.id in skip:
                continue
            ss = sorted((s for s in t.syms(a) | t.syms(b) | t.syms(y) if s.op == 'sym'), key=lambda s: s.a[0])
            n = 0
            for env in forced(y, True, lambda: sample(ss, rng, 1), rng):
                if time.time() - t0 > 30 or n >= 8:
                    break
                try:
                    u, v = Eval(dict(env)).ev(a), Eval(dict(env)).ev(b)
                except (NoValue, ZeroDivisionError, ValueError, OverflowError):
                    continue
                n += 1
                if abs(u - v) > mpf(10) ** -9 * (max(abs(u), abs(v)) + mpf(10) ** -10):
                    return False
    except Exception:
        pass
    return True
