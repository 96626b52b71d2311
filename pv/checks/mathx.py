"""G01-G03: quadrature, root finding, special functions."""
from fractions import Fraction
import mpmath
from mpmath import mpf
from .. import terms as t, tm, core, numeric
from ..interp import Interp, Give, Dead, FnItem, Comp, Ref, FLOATS
from ..terms import num, T

MATH = 'crate::math::'
x_ = t.sym('x', 'real')


def attempt(f):
    try:
        return f()
    except Give as g:
        return t.top(str(g))
    except Dead:
        return t.top('diverges')
    except RecursionError:
        return t.top('recursion')


# ---------------------------------------------------------------------------------------------- G01 quadrature

def g01(ctx, rep):
    F = FnItem('opaque:f')
    hooks = {'opaque:f': lambda I, a: t.fn('F', *[I.scalar(x) for x in a])}
    a, b, c, d, da = (t.sym(n, 'real') for n in ('x_min', 'x_max', 'y_min', 'y_max', 'weight'))
    n, n2 = t.sym('num_points', 'int'), t.sym('num_points_y', 'int')

    def mid(lo, hi, n, i):
        return t.add(lo, t.mul(t.add(t.idx(i), num(Fraction(1, 2))), t.div(t.sub(hi, lo), n)))

    def grid(name, n):
        return Comp([('g' + name, n)], t.fn('grid_' + name, t.idx('g' + name)))

    def gv(name, i):
        return t.fn('grid_' + name, t.idx(i))
    cell = lambda lo, hi, n: t.div(t.sub(hi, lo), n)
    cases = {
        'integrate_1d': ([F, a, b, n], t.mul(t.summ('i', n, t.fn('F', mid(a, b, n, 'i'))), cell(a, b, n))),
        'integrate_1d_grid': ([F, grid('x', n), da], t.mul(t.summ('i', n, t.fn('F', gv('x', 'i'))), da)),
        'integrate_2d': ([F, a, b, c, d, n], t.mul(t.summ('i', n, t.summ('j', n, t.fn('F', mid(a, b, n, 'i'), mid(c, d, n, 'j')))), cell(a, b, n), cell(c, d, n))),
        'integrate_2d_symmetric': ([F, a, b, n], t.mul(t.summ('i', n, t.summ('j', n, t.fn('F', mid(a, b, n, 'i'), mid(a, b, n, 'j')))), t.power(cell(a, b, n), num(2)))),
        'integrate_2d_grid': ([F, grid('x', n), grid('y', n2), da], t.mul(t.summ('i', n, t.summ('j', n2, t.fn('F', gv('x', 'i'), gv('y', 'j')))), da)),
        'integrate_2d_symmetric_grid': ([F, grid('x', n), da], t.mul(t.summ('i', n, t.summ('j', n, t.fn('F', gv('x', 'i'), gv('x', 'j')))), da)),
    }
    for name, (args, ref) in cases.items():
        p = MATH + name
        if p not in ctx.bodies:
            rep.bad('missing:' + name, 'the quadrature rule %s no longer exists' % name)
            continue
        rep.analysed.add(p)
        I = Interp(ctx.prog, summaries=False, hooks=hooks)
        v = attempt(lambda: I.scalar(I.run(p, args)))
        rep.put('midpoint:' + name, None if v.op == 'top' else t.equal(v, ref),
                '%s is the composite midpoint sum of the integrand' % name,
                '%s: %s is not the composite midpoint sum: %s' % (ctx.where(p), name, t.show(v)[:200]))
        if v.op == 'top':
            rep.und('midpoint:' + name, 'outside the domain: ' + str(v.a))
        # the number of points: what a constant integrand gives
        I = Interp(ctx.prog, summaries=False, hooks={'opaque:f': lambda I, a: num(1)})
        w = attempt(lambda: I.scalar(I.run(p, args)))
        area = {'integrate_1d': t.sub(b, a), 'integrate_1d_grid': t.mul(n, da), 'integrate_2d': t.mul(t.sub(b, a), t.sub(d, c)),
                'integrate_2d_symmetric': t.power(t.sub(b, a), num(2)), 'integrate_2d_grid': t.mul(n, n2, da), 'integrate_2d_symmetric_grid': t.mul(n, n, da)}[name]
        rep.put('points:' + name, None if w.op == 'top' else t.decide(w, area), '%s of a constant is the constant times the volume, for every number of points' % name,
                '%s: %s of the integrand 1 is %s, not the volume: some of the points are left out or repeated' % (ctx.where(p), name, t.show(w)[:160]))
        # exact instances for small counts: the index range and every abscissa
        for k in sorted({1, 2, 3, 4, 5, 8, 9} | {c + d for c in core.int_literals(ctx, [p]) for d in (-1, 0, 1) if c <= (64 if '1d' in name else 12)}):
            m = {n: num(k), n2: num(k + 1)}
            args2 = [num(k) if q is n else Comp([(q.dims[0][0], t.subst(q.dims[0][1], m))], q.elem) if isinstance(q, Comp) else q for q in args]
            I = Interp(ctx.prog, summaries=False, hooks=hooks)
            w = attempt(lambda: I.scalar(I.run(p, args2)))
            rep.put('instance:%s:%d' % (name, k), None if w.op == 'top' else t.equal(t.expand(w), t.expand(t.subst(ref, m))),
                    '%s with %d points' % (name, k), '%s: %s with %d points per axis is not the midpoint sum' % (ctx.where(p), name, k))
    # every quadrature call of the library passes its own limits in order and enough points
    rep.floor('quadrature rules', sum(1 for c in cases if MATH + c in ctx.bodies), 6)
    return rep.finish('abstract interpretation of each quadrature routine on a symbolic integrand, symbolic limits and a symbolic number of points; '
                      'the value equals the composite midpoint sum, all weights and abscissae included')


# ---------------------------------------------------------------------------------------------- G02 root finding

class Unroll(Interp):
    """loops whose condition stays symbolic are followed for as many rounds as their counter allows; divisors are recorded"""
    divs = ()

    def binop(self, op, a, b, ty):
        if op == '/' and ty not in ('u8', 'u32', 'usize', 'i32', 'u128', 'i64', 'u64'):
            self.divs.append((self.deref(a), self.deref(b), tuple(self.pc)))
        return super(Unroll, self).binop(op, a, b, ty)

    def num_method(self, n, p, v, args, e):
        if n in ('powi', 'powf', 'recip'):
            k = self.deref(args[0]) if args else num(-1)
            if isinstance(k, T) and k.op == 'num' and k.a[0] < 0:
                self.divs.append((t.ONE, v, tuple(self.pc)))
        return super(Unroll, self).num_method(n, p, v, args, e)

    def while_loop(self, e, env, fr):
        if e['k'] == 'While':
            L = {'id': e['id'], 'breaks': [], 'conts': [], 'base': len(self.pc)}
            self.loops.append(L)

            def rounds(k):
                c = self.cond(e['c'], env, fr)
                if c == t.FALSE:
                    return
                if k > 44:
                    raise Give('the loop does not end within its iteration limit')

                def go():
                    if self.iteration(L, lambda _x: self.ev(e['b'], env, fr), None):
                        raise Dead()
                    rounds(k + 1)
                if c == t.TRUE:
                    go()
                else:
                    self.branch(c, go, lambda: None)
                return
            try:
                dead = False
                try:
                    rounds(0)
                except Dead:
                    dead = True
                self.end_loop(L, dead)
            finally:
                self.loops.pop()
            return ()
        L = {'id': e['id'], 'breaks': [], 'conts': [], 'base': len(self.pc)}
        self.loops.append(L)
        try:
            for k in range(14):
                if self.iteration(L, lambda _x: self.block(e['b'], env, fr), None):
                    return self.end_loop(L, True)
            raise Give('unbounded loop')
        finally:
            self.loops.pop()


def g02(ctx, rep):
    y, x0 = t.sym('y', 'real'), t.sym('x0', 'real')

    def fhook(I, a):
        return t.fn('F', I.scalar(a[0]))

    def ghook(I, a):
        return t.fn('G', I.scalar(a[0]))
    hooks = {'opaque:f': fhook, 'opaque:fp': ghook}
    for name in ('inverse_newton_raphson', 'inverse_newton_raphson_powered'):
        p = MATH + name
        # the powers tried include the sizes the source mentions
        powers = (None,) if name == 'inverse_newton_raphson' or p not in ctx.bodies else (1, 2, 3, -2, 7, -5) + tuple(
            sorted({s * (c + d) for c in core.int_literals(ctx, [p]) for d in (0, 1) for s in (1, -1)} - {7, -5})[:40])
        if p not in ctx.bodies:
            rep.bad('missing:' + name, 'the root finder %s no longer exists' % name)
            continue
        rep.analysed.add(p)
        sizes = sorted({c + d for c in core.int_literals(ctx, [p]) for d in (0, 1, 2)} | {5})
        for pw in powers:
            tag = name + ('' if pw is None else ':power%d' % pw)
            step = lambda z: t.add(z, t.div(t.sub(y, t.fn('F', z)), t.mul(t.fn('G', z), num(pw or 1))))
            res = lambda z: t.fn('abs', t.div(t.sub(y, t.fn('F', z)), y))
            for K, tol in [(0, 3), (1, 3), (2, 3), (2, 0.4), (2, 14), (3, 3)] + ([(K, 0) for K in sizes if K <= 40] if pw in (None, 2) else []):
                word = '' if tol == 3 else ' and a tolerance of %s' % (tol if tol < 1 else '1e-%d' % tol)
                word = ' and a tolerance never met' if tol == 0 else word
                tol = num(-1) if tol == 0 else num(Fraction(2, 5)) if tol < 1 else num(Fraction(1, 10 ** tol))
                I = Unroll(ctx.prog, summaries=False, hooks=hooks)
                I.divs = []
                args = [y, FnItem('opaque:f'), FnItem('opaque:fp'), x0, tol, num(K)] + ([num(pw)] if pw is not None else [])
                v = attempt(lambda: I.scalar(I.run(p, args)))
                ref = x0
                xs = [x0]
                for k in range(K):
                    xs.append(step(xs[-1]))
                ref = xs[K]
                for k in range(K - 1, 0, -1):
                    ref = ref if word.endswith('met') else t.ite(t.lt(tol, res(xs[k - 1])), ref, xs[k])
                r = None if v.op == 'top' else t.equal(v, ref)
                rep.put('iterates:%s:%d%s' % (tag, K, word), r, 'with at most %d iterations the result is the Newton iterate at which the relative residual first meets the tolerance' % K,
                        '%s: with max_iters = %d%s, %s does not return the last Newton iterate, or stops on another condition: %s' % (ctx.where(p), K, word, name, t.show(v)[:220]))
                if v.op == 'top':
                    rep.und('iterates:%s:%d' % (tag, K), 'outside the domain: %s' % (v.a,))
                if K == 1:
                    # at a start that already solves the equation the step must be defined and leave it unchanged
                    Y0 = t.fn('F', x0)
                    at = lambda q: t.subst(q, {y: Y0})
                    zero = [b for a, b, pc in I.divs if isinstance(b, T) and at(b) == t.ZERO]
                    if v.op == 'top':
                        rep.und('fixed:' + tag, 'outside the domain')
                    elif zero:
                        rep.bad('fixed:' + tag, '%s: %s divides by %s, which is zero when an iterate solves f(x) = y exactly: the result is not a number' % (ctx.where(p), name, t.show(zero[0])[:120]))
                    else:
                        rep.put('fixed:' + tag, t.equal(at(v), x0), 'a root is a fixed point of the iteration', '%s: an exact root is not a fixed point of %s' % (ctx.where(p), name))
    rep.floor('root finders', sum(1 for n in ('inverse_newton_raphson', 'inverse_newton_raphson_powered') if MATH + n in ctx.bodies), 2)
    # the inverse Langevin function
    p = MATH + 'inverse_langevin'
    rep.analysed.add(p)
    if p not in ctx.bodies:
        rep.bad('missing:inverse_langevin', 'inverse_langevin no longer exists')
    else:
        g02_langevin(ctx, rep, p)
    return rep.finish('the iteration is unrolled symbolically for every iteration limit up to 3 with uninterpreted f and f\', and its value equals the Newton iterate; '
                      'divisors are shown nonzero at an exact root; inverse_langevin solves Langevin(x) = y on every branch',
                      explanation='Unrolled abstract interpretation with uninterpreted functions: iterates, residual test, iteration limit and returned value are compared with the definition of Newton\'s method')


def cells_of(v, s, cuts):
    """branches of a piecewise value by interval of s: [(lo, hi, term)]"""
    out = []
    pts = sorted(set(cuts))
    for lo, hi in zip(pts, pts[1:]):
        m = (lo + hi) / 2
        out.append((lo, hi, pick(v, s, m)))
    return out


def pick(v, s, m):
    """follow the conditions of v at s = m (rational)"""
    def dec(c):
        if c in (t.TRUE, t.FALSE):
            return c == t.TRUE
        if c.op == 'not':
            return not dec(c.a[0])
        if c.op == 'and':
            return dec(c.a[0]) and dec(c.a[1])
        if c.op in ('lt', 'eq'):
            d = ev(t.subst(c.a[0], {s: num(m)}))
            return d < 0 if c.op == 'lt' else d == 0
        raise tm.NoEnclosure('condition ' + c.op)

    def ev(q):
        if q.op == 'num':
            return q.a[0]
        if q.op == 'fn' and q.a[0] == 'abs':
            return abs(ev(q.a[1]))
        if q.op == 'add':
            return sum(ev(z) for z in q.a)
        if q.op == 'mul':
            r = Fraction(1)
            for z in q.a:
                r *= ev(z)
            return r
        if q.op == 'pow' and q.a[1].op == 'num' and q.a[1].a[0].denominator == 1:
            return Fraction(ev(q.a[0])) ** int(q.a[1].a[0])
        if q.op == 'ite':
            return ev(q.a[1] if dec(q.a[0]) else q.a[2])
        raise tm.NoEnclosure('value ' + q.op)

    def walk(q, memo):
        r = memo.get(q.id)
        if r is None:
            if q.op == 'ite':
                r = walk(q.a[1] if dec(q.a[0]) else q.a[2], memo)
            elif q.op == 'fn' and q.a[0] == 'abs' and t.syms(q) == {s}:
                r = walk(q.a[1], memo) if ev(t.subst(q.a[1], {s: num(m)})) >= 0 else t.neg(walk(q.a[1], memo))
            else:
                r = t.rebuild(q, lambda z: walk(z, memo) if isinstance(z, T) else z) if any(isinstance(z, T) for z in q.a) else q
            memo[q.id] = r
        return r
    return walk(v, {})


def thresholds(v, s):
    """constants c of comparisons of s (or |s|) against c anywhere in v"""
    out = set()
    seen = set()
    st = [v]
    while st:
        q = st.pop()
        if q.id in seen:
            continue
        seen.add(q.id)
        if q.op in ('lt', 'eq'):
            d = q.a[0]
            for cand in (s, t.fn('abs', s)):
                r = t.sub(d, cand)
                if r.op == 'num':
                    out |= {-r.a[0]} if cand is s else {-r.a[0], r.a[0]}
                r = t.add(d, cand)
                if r.op == 'num':
                    out |= {r.a[0]} if cand is s else {-r.a[0], r.a[0]}
        for z in q.a:
            if isinstance(z, T):
                st.append(z)
    return out


def g02_langevin(ctx, rep, p):
    y = t.sym('y', 'real')
    I = Interp(ctx.prog, hooks={})
    b = ctx.bodies[p]
    v = attempt(lambda: I.scalar(I.call_body(b, [y], {})))
    if v.op == 'top':
        rep.und('langevin', 'outside the domain: %s' % (v.a,))
        return
    th = sorted(thresholds(v, y) | {Fraction(-1), Fraction(0), Fraction(1)})
    th = [z for z in th if -1 <= z <= 1]
    for lo, hi in zip(th, th[1:]):
        m = (lo + hi) / 2
        try:
            w = pick(v, y, m)
        except tm.NoEnclosure as e:
            rep.und('langevin:[%s,%s]' % (float(lo), float(hi)), str(e))
            continue
        key = 'langevin:%s' % ('negative' if hi <= 0 else 'positive') + (':small' if max(abs(lo), abs(hi)) < Fraction(1, 100) else '')
        where = ctx.where(p)
        invs = [q for q in subterms(w) if q.op == 'inv']
        if invs:
            x = t.sym('#u')
            lang = t.sub(t.power(t.tanh(x), num(-1)), t.power(x, num(-1)))
            ref = t.inv('#u', lang, y) if hi > 0 else t.neg(t.inv('#u', lang, t.neg(y)))
            rep.put(key, t.equal(w, ref), 'solves Langevin(x) = y', '%s: inverse_langevin does not solve Langevin(x) = y for y in (%s, %s): %s' % (where, float(lo), float(hi), t.show(w)[:160]))
        else:
            # an explicit formula: within 5e-6 of the series 3y + 9/5 y^3 + 297/175 y^5 (next term 1539/875 y^7)
            far = explicit(w, y, lo, hi)
            if far:
                rep.bad(key, '%s: for y in (%s, %s) inverse_langevin returns %s: at y = %s that is %s, where the solution of Langevin(x) = y is %s' % (
                    (where, float(lo), float(hi), t.show(w)[:80]) + far))
                continue
            try:
                Y = tm.var(mpf(m.numerator) / m.denominator, mpf((hi - lo).numerator) / (hi - lo).denominator / 2)
                val = tmeval(t.div(w, y), {y: Y})
                y2 = tm.mul(Y, Y)
                ref = tm.add(tm.const(3, Y.r), tm.mul(y2, tm.add(tm.const(Fraction(9, 5), Y.r), tm.mul(y2, tm.const(Fraction(297, 175), Y.r)))))
                err = tm.add(val, tm.neg(ref)).bound() / 3
                big = mpf(max(abs(lo), abs(hi)).numerator) / max(abs(lo), abs(hi)).denominator
                err += 2 * big ** 6 / (1 - big) if big < 1 else mpmath.inf
            except (tm.NoEnclosure, ZeroDivisionError) as e:
                rep.und(key, str(e) or 'no enclosure of the explicit form')
                continue
            if err <= mpf('5e-6'):
                rep.ok(key, 'relative error of the explicit form at most %s' % mpmath.nstr(err, 3))
            else:
                rep.und(key, 'the enclosure of the explicit form is too wide (%s)' % mpmath.nstr(err, 3))
    for k, s in enumerate(I.inv_sites):
        r = t.equal(s['fp'], t.deriv(s['f'], s['x']))
        rep.put('langevin:derivative:%d' % k, r, 'the derivative passed to the iteration is that of the Langevin function',
                '%s: the derivative passed to the Newton iteration in inverse_langevin is not that of the function' % ctx.where(p))


def explicit(w, y, lo, hi):
    """a point of (lo, hi) where an explicit form is not the solution of Langevin(x) = y"""
    for k in range(1, 16):
        p = mpf(lo.numerator) / lo.denominator + mpf((hi - lo).numerator) / (hi - lo).denominator * k / 16
        if not p:
            continue
        try:
            got = numeric.Eval({y.a[0]: p}).ev(w)
            true = mpmath.sign(p) * mpmath.findroot(lambda x: mpmath.coth(x) - 1 / x - abs(p), (abs(p), 1 / (1 - abs(p))), solver='anderson', verify=False)
        except (numeric.NoValue, ZeroDivisionError, ValueError, OverflowError):
            continue
        if abs(got - true) > mpf('5e-6') * abs(true):
            return mpmath.nstr(p, 8), mpmath.nstr(got, 8), mpmath.nstr(true, 8)
    return None


def subterms(q):
    seen = set()
    st = [q]
    while st:
        z = st.pop()
        if z.id in seen:
            continue
        seen.add(z.id)
        yield z
        for w in z.a:
            if isinstance(w, T):
                st.append(w)


# ---------------------------------------------------------------------------------------------- Taylor-model evaluation of terms

class Split(Exception):
    def __init__(self, g):
        self.g = g          # a term whose root separates the branches


OVER = mpf(10) ** -30


def tmeval(q, env, memo=None):
    """Taylor model of a term; conditions are decided over the whole cell or raise Split"""
    memo = {} if memo is None else memo
    r = memo.get(q.id)
    if r is not None:
        return r
    r = _tmeval(q, env, memo)
    memo[q.id] = r
    return r


def _tmeval(q, env, memo):
    any_r = next(iter(env.values())).r
    if q in env:
        return env[q]
    if q.op == 'num':
        return tm.const(q.a[0], any_r)
    if q is t.PI:
        return tm.const(mpmath.pi, any_r)
    if q.op == 'add':
        v = tmeval(q.a[0], env, memo)
        for z in q.a[1:]:
            v = tm.add(v, tmeval(z, env, memo))
        return v
    if q.op == 'mul':
        v = tmeval(q.a[0], env, memo)
        for z in q.a[1:]:
            v = tm.mul(v, tmeval(z, env, memo))
        return v
    if q.op == 'pow' and q.a[1].op == 'num':
        return tm.powr(tmeval(q.a[0], env, memo), q.a[1].a[0])
    if q.op == 'exp':
        return tm.exp(tmeval(q.a[0], env, memo))
    if q.op == 'ln':
        return tm.log(tmeval(q.a[0], env, memo))
    if q.op == 'ite':
        return tmeval(q.a[1] if decide(q.a[0], env, memo) else q.a[2], env, memo)
    if q.op == 'fn':
        f = q.a[0]
        if f in ('trunc', 'floor'):
            lo, hi = tmeval(q.a[1], env, memo).range()
            a, b = mpmath.floor(lo + OVER), mpmath.ceil(hi - OVER) - 1
            if f == 'trunc' and lo < -OVER:
                raise tm.NoEnclosure('trunc of a negative number')
            if a < b:
                raise Split(t.sub(q.a[1], num(int(b) if b == a + 1 else int(mpmath.floor((a + b + 1) / 2)))))
            return tm.const(max(a, 0) if a > b else a, any_r)
        if f == 'abs':
            v = tmeval(q.a[1], env, memo)
            lo, hi = v.range()
            if lo >= -OVER:
                return v
            if hi <= OVER:
                return tm.neg(v)
            raise Split(q.a[1])
        if f == 'erfcx':
            return tm.erfcx(tmeval(q.a[1], env, memo))
        if f == 'erf':
            a = tmeval(q.a[1], env, memo)
            return tm.add(tm.const(1, any_r), tm.neg(tm.mul(tm.erfcx(a), tm.exp(tm.neg(tm.mul(a, a))))))
    raise tm.NoEnclosure('term ' + q.op + (' ' + q.a[0] if q.op == 'fn' else ''))


def decide(c, env, memo):
    if c in (t.TRUE, t.FALSE):
        return c == t.TRUE
    if c.op == 'not':
        return not decide(c.a[0], env, memo)
    if c.op == 'and':
        return decide(c.a[0], env, memo) and decide(c.a[1], env, memo)
    if c.op == 'lt':
        lo, hi = tmeval(c.a[0], env, memo).range()
        m = max(abs(lo), abs(hi), 1)
        if hi <= OVER * m:
            return True
        if lo >= -OVER * m:
            return False
        raise Split(c.a[0])
    if c.op == 'eq':
        lo, hi = tmeval(c.a[0], env, memo).range()
        if lo > OVER or hi < -OVER:
            return False
        if hi - lo < OVER:
            return True
        raise Split(c.a[0])
    raise tm.NoEnclosure('condition ' + c.op)


def pteval(q, env):
    if q in env:
        return env[q]
    if q.op == 'num':
        return mpf(q.a[0].numerator) / q.a[0].denominator
    if q.op == 'add':
        return sum(pteval(z, env) for z in q.a)
    if q.op == 'mul':
        r = mpf(1)
        for z in q.a:
            r *= pteval(z, env)
        return r
    if q.op == 'pow' and q.a[1].op == 'num':
        e = q.a[1].a[0]
        return pteval(q.a[0], env) ** (int(e) if e.denominator == 1 else mpf(e.numerator) / e.denominator)
    if q.op == 'exp':
        return mpmath.exp(pteval(q.a[0], env))
    if q.op == 'fn' and q.a[0] == 'abs':
        return abs(pteval(q.a[1], env))
    if q is t.PI:
        return +mpmath.pi
    if q.op == 'ln':
        z = pteval(q.a[0], env)
        if z > 0:
            return mpmath.log(z)
        raise tm.NoEnclosure('logarithm of a number that is not positive')
    if q.op == 'ite' and q.a[0].op in ('lt', 'not'):
        c, pos = q.a[0], True
        while c.op == 'not':
            c, pos = c.a[0], not pos
        if c.op == 'lt':
            return pteval(q.a[1] if (pteval(c.a[0], env) < 0) == pos else q.a[2], env)
    raise tm.NoEnclosure('point value of ' + q.op)


class Cells(object):
    """adaptive cover of an interval on which  |value - reference| <= tol * |reference| (or absolutely)"""

    def __init__(self, v, s, ref, tol, atol=mpf(0), ieee=None):
        self.v, self.s, self.ref, self.tol, self.atol = v, s, ref, mpf(tol), mpf(atol)
        self.n = 0
        self.worst = mpf(0)
        self.fail = []
        self.und = []

    def cell(self, lo, hi):
        x = tm.var((lo + hi) / 2, (hi - lo) / 2)
        val = tmeval(self.v, {self.s: x})
        ref = self.ref(x)
        d = tm.add(val, tm.neg(ref)).bound()
        a, b = ref.range()
        low = mpf(0) if a <= 0 <= b else min(abs(a), abs(b))
        return d, low

    def run(self, lo, hi, depth=0):
        if self.n > 6000 or len(self.fail) > 4:
            return
        if hi - lo <= mpf(10) ** -25 * max(1, abs(lo), abs(hi)):
            return                        # a point or less: its closure is covered by the neighbours
        why = None
        cut = None
        try:
            d, low = self.cell(lo, hi)
            if d <= self.tol * low or d <= self.atol:
                self.n += 1
                if low > 0:
                    self.worst = max(self.worst, min(d / low, self.tol))
                return
        except Split as sp:
            cut = self.root(sp.g, lo, hi)
        except tm.NoEnclosure as e:
            why = str(e)
        if depth > 26:
            self.n += 1
            m = (lo + hi) / 2
            try:
                d, low = self.cell(m - mpf(10) ** -20 * max(abs(m), 1), m + mpf(10) ** -20 * max(abs(m), 1))
                if d > self.tol * low and d > self.atol:
                    self.fail.append((lo, hi, d / low if low else d))
                else:
                    self.und.append((lo, hi, 'no enclosure'))
            except (Split, tm.NoEnclosure) as e:
                self.und.append((lo, hi, str(e)))
            return
        if why is None and cut is None and depth >= 3:
            # definitely wrong at a point?
            m = (lo + hi) / 2
            w = min((hi - lo) / 64, mpf(10) ** -12)
            try:
                d, low = self.cell(m - w, m + w)
                x = tm.var(m, w)
                diff = tm.add(tmeval(self.v, {self.s: x}), tm.neg(self.ref(x)))
                a, b = diff.range()
                least = mpf(0) if a <= 0 <= b else min(abs(a), abs(b))
                r1, r2 = self.ref(x).range()
                if least > self.tol * max(abs(r1), abs(r2)) and least > self.atol:
                    self.n += 1
                    self.fail.append((m, m, least / max(abs(r1), abs(r2))))
                    return
            except (Split, tm.NoEnclosure):
                pass
        m = cut if cut is not None and lo < cut < hi else (lo + hi) / 2
        self.run(lo, m, depth + 1 if cut is None else depth)
        self.run(m, hi, depth + 1 if cut is None else depth)

    def root(self, g, lo, hi):
        at = lambda z: pteval(g, {self.s: z})
        try:
            w = (hi - lo) * mpf(10) ** -9
            a, b = lo + w, hi - w
            fa, fb = at(a), at(b)
            if fa == 0 or fb == 0 or (fa < 0) == (fb < 0):
                return None
            for _ in range(140):
                # secant step, safeguarded by bisection
                m = a - fa * (b - a) / (fb - fa) if _ % 3 else (a + b) / 2
                if not a < m < b:
                    m = (a + b) / 2
                fm = at(m)
                if fm == 0 or abs(b - a) < mpf(10) ** -46 * max(1, abs(a)):
                    return m
                if (fm < 0) == (fa < 0):
                    a, fa = m, fm
                else:
                    b, fb = m, fm
            return (a + b) / 2
        except (Split, tm.NoEnclosure):
            return None


# ---------------------------------------------------------------------------------------------- floating-point range of intermediate results

RAW = {'+': 'r+', '-': 'r-', '*': 'r*', '/': 'r/'}


class RawInterp(Interp):
    """keeps the order of floating-point operations instead of simplifying"""

    def isfloat(self, *xs):
        return True

    def binop(self, op, a, b, ty):
        a, b = self.deref(a), self.deref(b)
        if op in RAW and isinstance(a, T) and isinstance(b, T) and ty not in ('u8', 'u32', 'usize', 'i32', 'u128', 'i64', 'u64', 'u16'):
            return t.fn(RAW[op], a, b)
        return super(RawInterp, self).binop(op, a, b, ty)

    def x_Un(self, e, env, fr):
        v = super(RawInterp, self).x_Un(e, env, fr)
        if e['op'] == '-' and isinstance(v, T) and v.op != 'num':
            return t.fn('rneg', self.deref(self.ev(e['a'], env, fr)))
        return v

    def num_method(self, n, p, v, args, e):
        if n in ('exp', 'ln', 'sqrt', 'abs'):
            return t.fn('r' + n, v)
        if n in ('powi',):
            return t.fn('rpow', v, self.deref(args[0]))
        return super(RawInterp, self).num_method(n, p, v, args, e)


FMAX = mpf(2) ** 1024 * (1 - mpf(2) ** -53)
INF = mpf('inf')


def ieee(q, env, memo):
    """interval of the double-precision value, overflow to infinity included; None when it may not be a number"""
    k = q.id
    if k in memo:
        return memo[k]
    memo[k] = r = _ieee(q, env, memo)
    return r


def rnd(lo, hi):
    f = lambda z: INF if z > FMAX else -INF if z < -FMAX else z
    s = mpf(10) ** -14
    lo, hi = lo - abs(lo) * s if abs(lo) < INF else lo, hi + abs(hi) * s if abs(hi) < INF else hi
    # a value within rounding of the largest double may or may not overflow
    a = f(lo) if lo < -FMAX or lo > FMAX * (1 + 2 * s) else lo
    b = f(hi)
    return (min(a, FMAX) if lo <= FMAX * (1 + 2 * s) else INF, b)


def _ieee(q, env, memo):
    if q in env:
        return env[q]
    if q.op == 'num':
        z = mpf(q.a[0].numerator) / q.a[0].denominator
        return (z, z)
    if q.op == 'ite':
        return ieee(q.a[1] if idecide(q.a[0], env, memo) else q.a[2], env, memo)
    if q.op == 'fn':
        f = q.a[0]
        if f == 'erfcx_':
            return env['erfcx'](ieee(q.a[1], env, memo))
        xs = [ieee(z, env, memo) for z in q.a[1:]]
        if any(z is None for z in xs):
            return None
        if f == 'r+' or f == 'r-':
            a, b = xs
            if f == 'r-':
                b = (-b[1], -b[0])
            if (a[1] == INF and b[0] == -INF) or (a[0] == -INF and b[1] == INF):
                return None
            return rnd(a[0] + b[0], a[1] + b[1])
        if f == 'rneg':
            return (-xs[0][1], -xs[0][0])
        if f == 'r*':
            a, b = xs
            if any((abs(u) == INF and v[0] <= 0 <= v[1]) for u, v in ((a[0], b), (a[1], b), (b[0], a), (b[1], a))):
                return None
            c = [u * v for u in a for v in b]
            return rnd(min(c), max(c))
        if f == 'r/':
            a, b = xs
            if b[0] <= 0 <= b[1]:
                return None
            if max(abs(a[0]), abs(a[1])) == INF and max(abs(b[0]), abs(b[1])) == INF:
                return None
            c = [mpf(0) if abs(v) == INF else u / v for u in a for v in b]
            return rnd(min(c), max(c))
        if f == 'rexp':
            lo, hi = xs[0]
            g = lambda z: INF if z > 710 else mpf(0) if z < -800 else mpmath.exp(z)
            return rnd(g(lo), g(hi))
        if f == 'rpow' and q.a[2].op == 'num' and q.a[2].a[0].denominator == 1 and q.a[2].a[0] > 0:
            n = int(q.a[2].a[0])
            lo, hi = xs[0]
            c = [lo ** n, hi ** n] + ([mpf(0)] if lo < 0 < hi else [])
            return rnd(min(c), max(c))
        if f == 'rpow' and q.a[2].op == 'num':
            e = mpf(q.a[2].a[0].numerator) / q.a[2].a[0].denominator
            lo, hi = xs[0]
            if e == 0:
                return (mpf(1), mpf(1))
            if lo > 0 or (q.a[2].a[0].denominator == 1 and hi < 0):
                c = [(mpf(0) if e < 0 else INF) if abs(z) == INF else z ** (int(e) if e == int(e) else e) for z in (lo, hi)]
                return rnd(min(c), max(c))
        if f == 'rabs':
            lo, hi = xs[0]
            return (mpf(0) if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
        if f == 'rsqrt' and xs[0][0] >= 0:
            return rnd(mpmath.sqrt(xs[0][0]), mpmath.sqrt(xs[0][1]))
        if f == 'rln' and xs[0][0] > 0:
            return rnd(mpmath.log(xs[0][0]), mpmath.log(xs[0][1]))
        if f == 'abs':
            lo, hi = xs[0]
            return (mpf(0) if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
    if q.op == 'add':
        v = (mpf(0), mpf(0))
        for z in q.a:
            b = ieee(z, env, memo)
            if b is None:
                return None
            v = (v[0] + b[0], v[1] + b[1])
        return v
    if q.op == 'mul':
        v = (mpf(1), mpf(1))
        for z in q.a:
            b = ieee(z, env, memo)
            if b is None:
                return None
            c = [u * w for u in v for w in b]
            v = (min(c), max(c))
        return v
    raise tm.NoEnclosure('floating-point value of ' + q.op + (' ' + q.a[0] if q.op == 'fn' else ''))


def idecide(c, env, memo):
    if c in (t.TRUE, t.FALSE):
        return c == t.TRUE
    if c.op == 'not':
        return not idecide(c.a[0], env, memo)
    if c.op == 'and':
        return idecide(c.a[0], env, memo) and idecide(c.a[1], env, memo)
    if c.op in ('lt',):
        r = ieee(c.a[0], env, memo)
        if r is None:
            raise tm.NoEnclosure('condition on a NaN')
        lo, hi = r
        if hi <= 0:
            return True
        if lo >= 0:
            return False
        raise Split(c.a[0])
    raise tm.NoEnclosure('condition ' + c.op)


def saturation(ctx, rep, name, true_range, lo, hi):
    """double-precision range of erf/erfc over cells, infinities included, against the enclosure of the true value"""
    p = MATH + name
    I = RawInterp(ctx.prog, summaries=False, hooks={MATH + 'erfcx': lambda I, a: t.fn('erfcx_', I.scalar(a[0]))})
    v = attempt(lambda: I.scalar(I.run(p, [x_])))
    key = 'range:' + name
    if v.op == 'top':
        rep.und(key, 'outside the domain: %s' % (v.a,))
        return

    def ecx(a):
        if a is None:
            return None
        f = lambda z: FMAX if z < mpf('-26.64') else mpf(0) if z > mpf(10) ** 150 else tm.erfcx_true(z) if z < 1000 else 1 / z
        # saturates at the largest double or infinity below -26.64
        return (f(a[1]) * (1 - mpf(10) ** -9), INF if a[0] < mpf('-26.6') else f(a[0]) * (1 + mpf(10) ** -9))
    n, bad, und = 0, None, None
    st = [(mpf(lo), mpf(hi), 0)]
    while st and n < 60000:
        a, b, depth = st.pop()
        n += 1
        env = {x_: (a, b), 'erfcx': ecx}
        wide = False
        try:
            r = ieee(v, env, {})
            tl, th = true_range(a, b)
            if r is not None and tl - mpf('1e-2') <= r[0] and r[1] <= th + mpf('1e-2'):
                continue
            wide = True
            if depth > 22 or (r is not None and (r[0] > th + mpf('3e-2') or r[1] < tl - mpf('3e-2'))):
                if r is None:
                    bad = bad or (a, b, 'not a number (an intermediate overflows)')
                elif r[0] > th + mpf('3e-2') or r[1] < tl - mpf('3e-2'):
                    bad = bad or (a, b, 'in [%s, %s] instead of [%s, %s] (an intermediate overflows)' % tuple(mpmath.nstr(z, 4) for z in (r[0], r[1], tl, th)))
                else:
                    und = und or (a, b, 'no tight enclosure')
                continue
        except Split:
            if depth > 40:
                continue
        except tm.NoEnclosure as e:
            und = und or (a, b, str(e))
            continue
        m = (a + b) / 2
        st += [(a, m, depth + 1), (m, b, depth + 1)]
    rep.extra['range_cells'] = rep.extra.get('range_cells', 0) + n
    if bad:
        rep.bad(key, '%s: %s(x) for x in [%s, %s] is %s' % (ctx.where(p), name, mpmath.nstr(bad[0], 6), mpmath.nstr(bad[1], 6), bad[2]))
    elif und:
        rep.und(key, '%s: %s' % (name, und[2]))
    else:
        rep.ok(key, 'finite and within the range of the true function on [%s, %s] in double precision, overflow of intermediates included (%d cells)' % (lo, hi, n))


def large(ctx, rep, name, nu, true, ends):
    """double-precision value at large arguments, where the result is finite but its factors may overflow"""
    p = MATH + name
    I = RawInterp(ctx.prog, summaries=False)
    v = attempt(lambda: I.scalar(I.run(p, [num(nu), x_])))
    key = 'overflow:%s%d' % (name, nu)
    if v.op == 'top':
        rep.und(key, 'outside the domain: %s' % (v.a,))
        return
    n = 0
    for lo, hi, width in ((mpf(a), mpf(b), c) for a, b, c in ends):
        x = mpf(lo)
        while x < hi:
            a, b = x, min(x + width, hi)
            x = b
            for neg in (False, True):
                n += 1
                env = {x_: (-b, -a) if neg else (a, b)}
                sg = -1 if neg and nu % 2 else 1
                try:
                    r = ieee(v, env, {})
                except (tm.NoEnclosure, Split) as e:
                    rep.und(key, '%s: %s' % (name, e))
                    return
                tl, th = sorted((sg * true(a), sg * true(b)))
                if r is None or abs(r[0]) == INF or abs(r[1]) == INF and abs(th) < FMAX * mpf('0.99') and abs(tl) < FMAX * mpf('0.99'):
                    rep.bad(key, '%s: %s(%d, x) overflows for x in [%s, %s], where its value is finite' % (ctx.where(p), name, nu, mpmath.nstr(env[x_][0], 6), mpmath.nstr(env[x_][1], 6)))
                    return
                w = mpf('1e-3') * max(abs(tl), abs(th))
                if r[0] > th + w or r[1] < tl - w:
                    rep.bad(key, '%s: %s(%d, x) for x in [%s, %s] is wrong in double precision' % (ctx.where(p), name, nu, mpmath.nstr(env[x_][0], 6), mpmath.nstr(env[x_][1], 6)))
                    return
    rep.ok(key, 'finite and right to 1e-3 in double precision up to x = %s, overflow of intermediates included (%d cells)' % (ends[-1][1], n))


# ---------------------------------------------------------------------------------------------- G03 special functions

def inline(ctx, name, arg):
    I = Interp(ctx.prog, summaries=False)
    return attempt(lambda: I.scalar(I.run(MATH + name, [arg])))


def times(v, f):
    """v * f with the factor moved into the branches, where it simplifies"""
    memo = {}

    def go(q):
        if q.op == 'ite':
            r = memo.get(q.id)
            if r is None:
                r = memo[q.id] = t.ite(q.a[0], go(q.a[1]), go(q.a[2]))
            return r
        return t.mul(q, f)
    return go(v)


def erfc_ref(x):
    if x.c[0] < 0:
        return tm.add(tm.const(2, x.r), tm.neg(erfc_ref(tm.neg(x))))
    return tm.mul(tm.erfcx(x), tm.exp(tm.neg(tm.mul(x, x))))


def erf_ref(x):
    return tm.add(tm.const(1, x.r), tm.neg(erfc_ref(x)))


def far_ref(x):
    """x erfcx(x) for x >= 50: enveloped by its asymptotic series"""
    s = tm.powr(x, -2)
    cs, k = [], mpf(1)
    for i in range(7):
        cs.append(k)
        k = -k * (2 * i + 1) / 2
    w = tm.const(cs[-1], x.r)
    for c in reversed(cs[:-1]):
        w = tm.add(tm.mul(w, s), tm.const(c, x.r))
    w.e += abs(k) * (1 / x.range()[0]) ** 14
    return tm.scale(w, 1 / mpmath.sqrt(mpmath.pi))


def jobs(ctx):
    """(key, function, value, reference, intervals, tolerance, absolute tolerance, text)"""
    have = lambda n: MATH + n in ctx.bodies
    lin = lambda lo, hi, n: [(mpf(lo) + (mpf(hi) - lo) * i / n, mpf(lo) + (mpf(hi) - lo) * (i + 1) / n) for i in range(n)]
    if have('erfcx'):
        v = inline(ctx, 'erfcx', x_)
        yield 'erfcx:near', 'erfcx', v, tm.erfcx, lin(0, 10, 20), '1e-13', 0, 'erfcx'
        yield 'erfcx:positive', 'erfcx', v, tm.erfcx, lin(10, 50, 40), '1e-13', 0, 'erfcx'
        w = times(v, t.exp(t.neg(t.power(x_, num(2)))))
        yield 'erfcx:negative', 'erfcx', w, erfc_ref, lin(-26.5, 0, 53), '1e-13', 0, 'erfcx'
        pts = [mpf(50)]
        while pts[-1] < mpf(10) ** 30:
            pts.append(pts[-1] * mpf('1.2') if pts[-1] < 10 ** 4 else pts[-1] * mpf('1.8'))
        yield 'erfcx:far', 'erfcx', times(v, x_), far_ref, list(zip(pts, pts[1:])), '1e-13', 0, 'erfcx beyond 50'
    for name in ('erfc', 'erf'):
        if have(name):
            v = inline(ctx, name, x_)
            ref = erfc_ref if name == 'erfc' else erf_ref
            for part, a, b in (('negative', -7, -3), ('middle-', -3, 0), ('middle', 0, 3), ('positive', 3, 7)):
                yield '%s:%s' % (name, part), name, v, ref, lin(a, b, 8 * (b - a)), '1e-13', '1e-14', name
            yield name + ':outer', name, v, ref, [(mpf(a), mpf(b)) for a, b in ((-20, -13), (-13, -10), (-10, -7), (7, 10), (10, 13), (13, 20))], '1e-13', '1e-14', name
    if have('bessel_i'):
        for nu in (0, 1):
            I = Interp(ctx.prog, summaries=False)
            v = attempt(lambda: I.scalar(I.run(MATH + 'bessel_i', [num(nu), x_])))
            for part, lo, hi in (('near', 0, 8), ('middle', 8, 60), ('outer', 60, 500), ('far', 500, 700)):
                pts = [mpf(lo)]
                while pts[-1] < hi:
                    pts.append(min(mpf(hi), pts[-1] + max(mpf('0.5'), pts[-1] / 8)))
                cells = list(zip(pts, pts[1:]))
                pos = lambda x, nu=nu: tm.bessel_scaled(nu, x)
                neg = lambda x, nu=nu: tm.scale(tm.bessel_scaled(nu, tm.neg(x)), mpf((-1) ** nu))
                yield 'bessel%d:%s' % (nu, part), 'bessel_i', times(v, t.exp(t.neg(x_))), pos, cells, '2e-13', '1e-16', 'bessel_i(%d, x)' % nu
                yield 'bessel%d:negative:%s' % (nu, part), 'bessel_i', times(v, t.exp(x_)), neg, [(-b, -a) for a, b in cells], '2e-13', '1e-16', 'bessel_i(%d, x)' % nu


_JOBS = []


def work(i):
    key, name, v, ref, cells, tol, atol, what = _JOBS[i]
    if v.op == 'top':
        return key, name, 'und', 'outside the domain: %s' % (v.a,), 0
    C = Cells(v, x_, ref, tol, atol=atol)
    for a, b in cells:
        C.run(a, b)
    if C.fail:
        lo, hi, e = C.fail[0]
        return key, name, 'bad', '%s is wrong at %s: relative error %s' % (what, mpmath.nstr((lo + hi) / 2, 8), mpmath.nstr(e, 3)), C.n
    if C.und:
        return key, name, 'und', '%s: %d cells without enclosure, first (%s, %s): %s' % (what, len(C.und), mpmath.nstr(C.und[0][0], 6), mpmath.nstr(C.und[0][1], 6), C.und[0][2]), C.n
    if not C.n:
        return key, name, 'und', 'no cells', 0
    return key, name, 'ok', '%s: relative error at most %s over %d cells' % (what, mpmath.nstr(max(C.worst, mpf(10) ** -17), 3), C.n), C.n


def g03(ctx, rep):
    import multiprocessing
    need = ('erf', 'erfc', 'erfcx', 'bessel_i', 'lambert_w')
    for n in need:
        if MATH + n not in ctx.bodies:
            rep.bad('missing:' + n, 'the special function %s no longer exists' % n)
        else:
            rep.analysed.add(MATH + n)
    _JOBS[:] = list(jobs(ctx))
    with multiprocessing.get_context('fork').Pool(min(8, multiprocessing.cpu_count())) as pool:
        for key, name, st, text, n in pool.imap_unordered(work, range(len(_JOBS)), chunksize=1):
            rep.extra['cells'] = rep.extra.get('cells', 0) + n
            if st == 'ok':
                rep.ok(key, text)
            elif st == 'bad':
                rep.bad(key, '%s: %s' % (ctx.where(MATH + name), text))
            else:
                rep.und(key, text)
    for name in ('erfc', 'erf'):
        if MATH + name in ctx.bodies:
            tr = (lambda a, b: (mpmath.erfc(b), mpmath.erfc(a))) if name == 'erfc' else (lambda a, b: (mpmath.erf(a), mpmath.erf(b)))
            saturation(ctx, rep, name, tr, -1000, 1000)
    if MATH + 'bessel_i' in ctx.bodies:
        for nu in (0, 1):
            large(ctx, rep, 'bessel_i', nu, lambda x, nu=nu: mpmath.besseli(nu, x), [('300', '700', mpf('2.5')), ('700', '713.9', mpf('0.05'))])
    if MATH + 'lambert_w' in ctx.bodies:
        lambert(ctx, rep)
    rep.floor('special functions', sum(1 for n in need if MATH + n in ctx.bodies), 5)
    return rep.finish('Taylor-model abstract interpretation of the closed forms and tables read from the source, against enclosures of the true functions; '
                      'double-precision interval evaluation for overflow of intermediates; transfer function of the Lambert W iteration')


class Step(Interp):
    """the transfer function of a loop body: loop-carried scalars are replaced by symbols at the loop entry"""
    found = None
    counts = None

    def run_loop(self, it, body, lid):
        s0 = dict(self.store)
        base = len(self.pc)
        item = it.items[0] if it.items else None
        if it.items is None:
            item = t.idx('i')
        self.loops.append({'id': lid, 'breaks': [], 'conts': [], 'base': base})
        try:
            self.iteration(self.loops[-1], body, item)
        finally:
            self.loops.pop()
        changed = [c for c in s0 if self.store.get(c) is not s0[c] and isinstance(s0[c], T) and self.store.get(c) != s0[c]]
        self.store = dict(s0)
        ws = {c: t.sym('#w%d' % i, 'real') for i, c in enumerate(changed)}
        for c in changed:
            self.store[c] = ws[c]
        L = {'id': lid, 'breaks': [], 'conts': [], 'base': len(self.pc)}
        self.loops.append(L)
        try:
            self.iteration(L, body, item)
        finally:
            self.loops.pop()
        del self.pc[base:]
        self.found.append([(ws[c], self.store[c], s0[c]) for c in changed])
        self.counts.append(num(len(it.items)) if it.items is not None else t.mul(*[n for _, n in it.dims]))
        for c in changed:
            self.store[c] = t.sym('#end%d' % len(self.found), 'real')
        return ()


def saturated(q, x):
    """a loop count computed from a float at x: conversions to u8 saturate and take NaN to 0"""
    if q is x_:
        return x
    if q.op == 'num':
        return mpf(q.a[0].numerator) / q.a[0].denominator
    if q.op == 'add':
        return sum(saturated(z, x) for z in q.a)
    if q.op == 'mul':
        r = mpf(1)
        for z in q.a:
            r *= saturated(z, x)
        return r
    if q.op == 'pow' and q.a[1].op == 'num':
        return saturated(q.a[0], x) ** (mpf(q.a[1].a[0].numerator) / q.a[1].a[0].denominator)
    if q.op == 'ln':
        z = saturated(q.a[0], x)
        return mpmath.log(z) if z > 0 else -INF if z == 0 else mpmath.nan
    if q.op == 'fn' and q.a[0] in ('ceil', 'floor', 'trunc', 'round'):
        z = saturated(q.a[1], x)
        if mpmath.isnan(z):
            return mpf(0)
        z = min(max(z, mpf(0)), mpf(255))
        return mpmath.ceil(z) if q.a[0] == 'ceil' else mpmath.floor(z) if q.a[0] != 'round' else mpmath.floor(z + mpf('0.5'))
    if q.op == 'ite' and q.a[0].op == 'lt':
        return saturated(q.a[1] if saturated(q.a[0].a[0], x) < 0 else q.a[2], x)
    if q.op == 'ite' and q.a[0].op == 'not' and q.a[0].a[0].op == 'lt':
        return saturated(q.a[2] if saturated(q.a[0].a[0].a[0], x) < 0 else q.a[1], x)
    raise tm.NoEnclosure('iteration count by ' + q.op)


def lambert(ctx, rep):
    p = MATH + 'lambert_w'
    I = Step(ctx.prog, summaries=False)
    I.found, I.counts = [], []
    v = attempt(lambda: I.scalar(I.run(p, [x_])))
    cand = [(f, n) for f, n in zip(I.found, I.counts) if len(f) == 1]
    if v.op == 'top' or not cand:
        rep.und('lambert:step', 'no single-variable iteration found')
        return
    (w, new, start), count = cand[0][0][0], cand[0][1]
    ww = t.sym('w', 'real')
    g = t.subst(new, {w: ww})
    root = t.mul(ww, t.exp(ww))
    at = lambda q: t.subst(q, {x_: root})
    d1 = t.deriv(g, ww)
    d2 = t.deriv(d1, ww)
    where = ctx.where(p)
    rep.put('lambert:root', t.equal(at(g), ww), 'w with w exp(w) = x is a fixed point of the iteration', '%s: W(x) is not a fixed point of the iteration of lambert_w' % where)
    rep.put('lambert:quadratic', t.is_zero(at(d1)), 'the derivative of the step vanishes at the root', '%s: the iteration of lambert_w does not converge quadratically: its step has a nonzero derivative at W(x)' % where)
    rep.put('lambert:cubic', t.is_zero(at(d2)), 'the second derivative of the step vanishes at the root', '%s: the iteration of lambert_w is not Halley\'s (third order)' % where)
    # the composition of start and steps, in the number the source takes at x, at points W = W(x)
    lg = lambda a, b, n: [mpf(10) ** (mpf(a) + (mpf(b) - a) * i / n) for i in range(n + 1)]
    pts = [z - 1 for z in lg(-4, '-0.001', 160)] + lg(-8, 0, 60) + lg(0, mpmath.log10(680), 160 if ctx.tier == 'quick' else 1600)
    worst, bad, und, n = mpf(0), None, None, 0
    for W in pts:
        x = W * mpmath.exp(W)
        try:
            k = saturated(count, x)
            z = pteval(start, {x_: x})
            for _ in range(int(k)):
                z = pteval(new, {w: z, x_: x})
        except (tm.NoEnclosure, Split, ArithmeticError, ValueError) as e:
            und = und or (W, str(e))
            continue
        n += 1
        d = abs(z * mpmath.exp(z) - x) / abs(x)
        worst = max(worst, d)
        if d > mpf('1e-12') and bad is None:
            bad = (x, d)
    rep.extra['lambert_points'] = n
    if bad:
        rep.bad('lambert:accuracy', '%s: lambert_w(%s) misses w exp(w) = x by the relative residual %s' % (where, mpmath.nstr(bad[0], 8), mpmath.nstr(bad[1], 3)))
    elif und or n < 200:
        rep.und('lambert:accuracy', 'lambert_w: %s' % (und,))
    else:
        rep.ok('lambert:accuracy', 'the iterate returned at x solves w exp(w) = x with relative residual at most %s at %d values of W from -0.9999 to 680' % (mpmath.nstr(max(worst, mpf(10) ** -17), 2), n))
    rep.put('lambert:result', v.op == 'sym' and v.a[0].startswith('#end'), 'the last iterate is returned', '%s: lambert_w does not return its last iterate: %s' % (where, t.show(v)[:100]))


CHECKS = {'G01': g01, 'G02': g02, 'G03': g03}
