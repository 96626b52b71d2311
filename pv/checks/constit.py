"""F01-F03: Buche-Silberstein constitutive models."""
from fractions import Fraction
from .. import terms as t, core
from ..interp import Interp, Give, Dead, Arr, Tup, Struct, Comp, UNIT
from ..terms import num, T

HY = 'crate::constitutive::hyperelastic::buche_silberstein::'
DA = 'crate::constitutive::hyperelastic_damage::buche_silberstein::'
LEG = 'crate::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::'
K = 3


def S(n):
    return t.sym(n, 'int' if n in ('number_of_links', 'method') else 'pos')


class Small(Interp):
    """the grid size is abstracted to K; the closures that build grids are also evaluated at a symbolic position"""
    big = None

    def __init__(self, prog, big, **kw):
        Interp.__init__(self, prog, opaque=lambda p: p.startswith('crate::physics'), const_syms={p: num(K) for p in big[1]}, **kw)
        self.big = big[0]
        self.made = []

    def x_Repeat(self, e, env, fr):
        if not isinstance(e['n'], str) and e['n'] in self.big:
            return Arr([self.ev(e['a'], env, fr)] * K)
        return Interp.x_Repeat(self, e, env, fr)

    def std_call(self, path, args, node=None):
        if path.rsplit('::', 1)[-1] == 'from_fn' and 'array' in path:
            ty = self.p.ty(node['t']) if node else ''
            n = ty.rstrip(']').split(';')[-1].strip() if ';' in ty else ''
            if n.isdigit() and int(n) in self.big:
                u = t.sym('u', 'real')
                f = self.call_value(args[0], [u])
                v = Arr([self.call_value(args[0], [num(i)]) for i in range(K)])
                self.made.append((v, f))
                return v
        return Interp.std_call(self, path, args, node)


def consts(ctx):
    """values and paths of the grid-size constants"""
    vals, paths = set(), []
    for b in ctx.prog.allbodies:
        if b['kind'] == 'Const' and b['path'].startswith('crate::constitutive') and '::py' not in b['path']:
            I = Interp(ctx.prog)
            try:
                v = I.deref(I.ev(b['body'], {}, type('F', (), dict(path='', generics={}, exits=[], base=0))()))
            except (Give, Dead):
                continue
            if isinstance(v, T) and v.op == 'num' and v.a[0] > 8:
                vals.add(int(v.a[0]))
                paths.append(b['path'])
    return vals, paths


def call(name, *args):
    return t.fn('call:' + LEG + name, *args)


def P(method, g2, J=None):
    """unnormalised equilibrium distribution at squared extension g2"""
    if J is not None:
        g2 = t.div(g2, t.power(J, num(Fraction(2, 3))))
    if method == 2:
        return t.exp(t.neg(call('nondimensional_relative_helmholtz_free_energy', S('number_of_links'), S('nondimensional_link_stiffness'), t.sqrt(g2))))
    return t.exp(t.neg(t.mul(S('factor'), g2)))


def attempt(f):
    try:
        return f()
    except Give as g:
        return t.top(str(g))
    except Dead:
        return t.top('diverges')
    except RecursionError:
        return t.top('recursion')


def sq(x):
    return t.power(x, num(2))


ELEM = [[t.sym('e%d%d' % (i, j), 'real') for j in range(K)] for i in range(K)]
GRID = [t.sym('g%d' % i, 'pos') for i in range(K)]
Z = t.sym('normalization', 'pos')


def params(ctx, p):
    return [q.get('n', '_') for q in ctx.bodies[p]['ps']]


ORDER_H = ['element', 'factor', 'grid', 'normalization', 'method', 'nondimensional_link_stiffness', 'number_of_links', 'stretch']
ORDER_D = ['element', 'factor', 'grid', 'normalization', 'method', 'nondimensional_critical_extension', 'nondimensional_link_stiffness', 'number_of_links', 'swelling_ratio', 'stretch', 'maximum_previous_stretch']


def eval_fn(ctx, p, order, method, over=None):
    over = over or {}
    tab = {'element': Arr([Arr(r) for r in ELEM]), 'grid': Arr(GRID), 'normalization': Z, 'method': num(method)}
    args = [over.get(n, tab.get(n, S(n))) for n in order]
    I = Small(ctx.prog, consts(ctx))

    def go():
        v = I.deref(I.run(p, args))
        if isinstance(v, (Arr, Tup)):
            return [I.scalar(x) for x in v]
        return I.scalar(v)
    return attempt(go), I


def verdict(rep, key, v, ref, good, bad):
    if v is None or v.op == 'top':
        rep.und(key, 'outside the domain: %s' % (v.a if v is not None else '',))
        return
    r = t.equal(v, ref)
    if r is None and divides_by_indicator(v):
        r, bad = False, bad + ' (it divides by an indicator that can be 0)'
    rep.put(key, r, good, bad)


def divides_by_indicator(v):
    """a division by a value that is 0 in one branch of a comparison"""
    def subterms(q, out):
        if q.id not in out:
            out[q.id] = q
            for z in q.a:
                if isinstance(z, T):
                    subterms(z, out)
    out = {}
    subterms(v, out)
    for q in list(out.values()):
        if q.op == 'pow' and q.a[1].op == 'num' and q.a[1].a[0] < 0:
            ins = {}
            subterms(q.a[0], ins)
            for c in [z for z in ins.values() if z.op == 'ite']:
                for br in (c.a[1], c.a[2]):
                    if replace(q.a[0], c, br) == t.ZERO:
                        return True
    return False


def replace(q, c, by):
    if q is c:
        return by
    if not any(isinstance(z, T) for z in q.a):
        return q
    return t.rebuild(q, lambda z: replace(z, c, by) if isinstance(z, T) else z)


def anchors(rep, ctx, paths):
    ok = True
    for p in paths:
        if p not in ctx.bodies:
            rep.bad('missing:' + p[7:], '%s no longer exists' % p[7:])
            ok = False
        else:
            rep.analysed.add(p)
    return ok


# ---------------------------------------------------------------------------------------------- F01 damage

def intact(i, j, lam, lmax, eps):
    return t.sqrt(t.add(sq(t.div(t.mul(GRID[i], lmax), lam)), t.mul(t.div(lam, lmax), sq(GRID[j]))))


def f01(ctx, rep):
    p = DA + 'uniaxial_tension'
    if not anchors(rep, ctx, [p]):
        return rep.finish('anchors')
    where = ctx.where(p)
    lam, lmax, eps, J = S('stretch'), S('maximum_previous_stretch'), S('nondimensional_critical_extension'), S('swelling_ratio')
    for method in (2, 3):
        r, I = eval_fn(ctx, p, ORDER_D, method)
        if isinstance(r, T):
            rep.und('stress:%d' % method, 'outside the domain: %s' % (r.a,))
            rep.und('probability:%d' % method, 'outside the domain')
            continue
        stress, prob = r
        s1, s2 = [], []
        for i in range(K):
            for j in range(K):
                ind = t.ite(t.le(intact(i, j, lam, lmax, eps), eps), t.ONE, t.ZERO)
                w = P(method, t.add(sq(t.div(GRID[i], lam)), t.mul(lam, sq(GRID[j]))), J)
                s1.append(t.mul(ELEM[i][j], w, ind))
                s2.append(t.mul(GRID[j], w, ind))
        # each chain on its own: coefficient of element (i, j)
        for i in range(K):
            for j in range(K):
                e = ELEM[i][j]
                got = t.deriv(stress, e)
                c = t.le(intact(i, j, lam, lmax, eps), eps)
                w = P(method, t.add(sq(t.div(GRID[i], lam)), t.mul(lam, sq(GRID[j]))), J)
                verdict(rep, 'chain:%d:%d%d' % (method, i, j), got, t.ite(c, t.div(w, Z), t.ZERO),
                        'a chain contributes its affinely deformed weight unless it was beyond the critical extension at the largest stretch so far',
                        '%s: method %d: the contribution of a chain at (z, r) is not its deformed weight times the indicator of ||(z m/s, r sqrt(s/m))|| <= critical extension: %s' % (where, method, t.show(got)[:260]))
        verdict(rep, 'stress:%d' % method, stress, t.div(t.add(*s1), Z), 'the stress is the sum over intact chains', '%s: method %d: the stress is not the sum over the intact chains' % (where, method))
        d = t.sub(GRID[1], GRID[0])
        verdict(rep, 'probability:%d' % method, prob, t.mul(t.div(t.add(*s2), Z), num(4), t.PI, sq(t.div(d, J))),
                'the total probability is the fraction of intact chains', '%s: method %d: the total probability is not the fraction of intact chains' % (where, method))
    # history
    cls = DA + 'BucheSilberstein'
    m = cls + '::uniaxial_tension'
    m = next((b['path'] for b in ctx.prog.allbodies if b['path'].startswith(DA) and '::py::' not in b['path'] and b['path'].endswith('BucheSilberstein::uniaxial_tension')), m)
    if not anchors(rep, ctx, [m]):
        return rep.finish('anchors')
    fields = ['element', 'factor', 'grid', 'method', 'normalization', 'nondimensional_critical_extension', 'nondimensional_link_stiffness', 'number_of_links', 'swelling_ratio']
    # long histories: constants, the largest stretch early, so that forgetting it shows
    sizes = sorted({c + d for c in core.int_literals(ctx, [m]) for d in (0, 1, 2) if 4 < c + d <= 600} | {130})
    fixed = {L: [num(Fraction(100 + (37 * i + 11) % 89 + (100 if i in (1, L // 2) else 0), 100)) for i in range(L)] for L in sizes}
    for L in [1, 2, 3, 4] + sizes:
        st = fixed.get(L) or [t.sym('s%d' % i, 'pos') for i in range(L)]
        seen = []

        def hook(I, a):
            vals = [I.deref(x) for x in a]
            seen.append(vals)
            return Arr([t.fn('stress', vals[-2], vals[-1]), t.fn('probability', vals[-2], vals[-1])])
        I = Interp(ctx.prog, hooks={p: hook})
        obj = Struct(cls, {f: t.sym('self.' + f, 'pos') for f in fields})
        I.store[0] = obj

        def go():
            v = I.deref(I.run(m, [obj, Arr(st)], {'L': num(L)}))
            return v
        v = attempt(go)
        if isinstance(v, T) or not isinstance(v, Arr) or len(v) != L:
            rep.und('history:%d' % L, 'outside the domain: %s' % (v.a if isinstance(v, T) else type(v).__name__,))
            continue
        for i in range(L):
            mx = t.ONE
            for s in st[:i + 1]:
                mx = t.ite(t.lt(mx, s), s, mx)
            row = I.deref(v[i])
            if not isinstance(row, Arr) or len(row) != 2:
                rep.und('history:%d:%d' % (L, i), 'result shape')
                continue
            for k, nm in enumerate(('stress', 'probability')):
                verdict(rep, 'history:%d:%d:%s' % (L, i, nm), I.scalar(row[k]), t.fn(nm, st[i], mx),
                        'element i is the response at stretch i and the largest of 1 and the stretches up to i',
                        '%s: with %d stretches, result %d is not the response at its own stretch and the running maximum: %s' % (ctx.where(m), L, i, t.show(I.scalar(row[k]))[:200]))
        for vals in seen:
            want = [obj.fs.get(n) for n in ORDER_D[:9]]
            for n, a, b in zip(ORDER_D[:9], vals, want):
                if not (isinstance(a, T) and a is b):
                    rep.bad('self:' + n, '%s: the method does not pass its own %s' % (ctx.where(m), n))
                else:
                    rep.ok('self:' + n, 'the method passes its own ' + n)
    rep.floor('history elements', sum(1 for k in rep.obl if k.startswith('history:')), 8)
    return rep.finish('the damage response is interpreted abstractly chain by chain on a grid of symbols, and the stretch history on arrays of symbolic stretches; '
                      'value numbers decide the intact-chain indicator and the running maximum')


# ---------------------------------------------------------------------------------------------- F02 kinematics

def f02(ctx, rep):
    u, e = HY + 'uniaxial_tension', HY + 'equibiaxial_tension'
    if not anchors(rep, ctx, [u, e]):
        return rep.finish('anchors')
    lam = S('stretch')
    for method in (2, 3):
        a, _ = eval_fn(ctx, u, ORDER_H, method)
        b, _ = eval_fn(ctx, e, ORDER_H, method)
        sums = [t.mul(ELEM[i][j], P(method, t.add(sq(t.div(GRID[i], lam)), t.mul(lam, sq(GRID[j]))))) for i in range(K) for j in range(K)]
        verdict(rep, 'uniaxial:%d' % method, a, t.div(t.add(*sums), Z),
                'the uniaxial stress is the sum of chain elements weighted by the distribution at the pulled-back extension (z/s, sqrt(s) r)',
                '%s: method %d: the weights are not the equilibrium distribution at (z/s, sqrt(s) r)' % (ctx.where(u), method))
        if isinstance(a, T) and a.op != 'top':
            inv = t.power(lam, num(-2))
            verdict(rep, 'equibiaxial:%d' % method, b, t.neg(t.subst(a, {lam: inv})),
                    'equibiaxial(s) = -uniaxial(1/s^2)', '%s: method %d: equibiaxial tension is not minus uniaxial tension at 1/s^2 (incompressible kinematics)' % (ctx.where(e), method))
            verdict(rep, 'reference:%d' % method, t.subst(a, {lam: t.ONE}), t.div(t.add(*[t.mul(ELEM[i][j], P(method, t.add(sq(GRID[i]), sq(GRID[j])))) for i in range(K) for j in range(K)]), Z),
                    'at unit stretch the weights are the equilibrium distribution', '%s: method %d: at unit stretch the weights are not the equilibrium distribution' % (ctx.where(u), method))
    # the damage model without broken chains and swelling is the hyperelastic model
    p = DA + 'uniaxial_tension'
    if p in ctx.bodies:
        rep.analysed.add(p)
        for method in (2, 3):
            a, _ = eval_fn(ctx, u, ORDER_H, method)
            r, _ = eval_fn(ctx, p, ORDER_D, method, {'swelling_ratio': t.ONE})
            if isinstance(r, T) or a.op == 'top':
                rep.und('limit:%d' % method, 'outside the domain')
                rep.und('swollen:%d' % method, 'outside the domain')
                continue
            v = whole(r[0])
            verdict(rep, 'limit:%d' % method, v, a, 'with every chain intact and no swelling the damage model has the hyperelastic stress',
                    '%s: method %d: with every chain intact and no swelling the stress differs from the hyperelastic model' % (ctx.where(p), method))
            # with swelling the extension is pulled back by the isotropic swelling too
            r, _ = eval_fn(ctx, p, ORDER_D, method)
            if isinstance(r, T):
                rep.und('swollen:%d' % method, 'outside the domain')
                continue
            sums = [t.mul(ELEM[i][j], P(method, t.add(sq(t.div(GRID[i], lam)), t.mul(lam, sq(GRID[j]))), S('swelling_ratio'))) for i in range(K) for j in range(K)]
            verdict(rep, 'swollen:%d' % method, whole(r[0]), t.div(t.add(*sums), Z), 'with every chain intact the stress is the sum of chain elements weighted by the distribution at the pulled-back extension',
                    '%s: method %d: with every chain intact the weights are not the equilibrium distribution at (z/s, sqrt(s) r)/J^(1/3)' % (ctx.where(p), method))
    # the object's methods evaluate the modes with the object's own tables
    for base, order in ((HY, ORDER_H), (DA, ORDER_D)):
        cls = base + 'BucheSilberstein'
        for b in [b for b in ctx.prog.allbodies if b['path'].startswith(cls + '::') and b['name'].endswith('_tension')]:
            f = base + b['name']
            if f not in ctx.bodies or base == DA:
                continue
            rep.analysed.add(b['path'])
            obj = Struct(cls, {n: t.sym('self.' + n, 'pos') for n in order if n != 'stretch'})
            modes = [q for q in ctx.bodies if q.startswith(base) and q.endswith('_tension') and '::' not in q[len(base):]]

            def stress(q):
                return lambda I, a: t.fn(q, *[x for x in (I.deref(y) for y in a) if isinstance(x, T)])
            I = Interp(ctx.prog, hooks={q: stress(q) for q in modes})
            I.store[0] = obj
            v = attempt(lambda: I.scalar(I.run(b['path'], [obj, lam])))
            want = t.fn(f, *[obj.fs[n] if n in obj.fs else lam for n in order])
            verdict(rep, 'method:' + b['name'], v, want, 'the method is the deformation mode of the same name at the object\'s own tables and parameters',
                    '%s: %s evaluates %s' % (ctx.where(b['path']), b['name'], t.show(v)[:200]))
    rep.floor('kinematic relations', sum(1 for k in rep.obl), 12)
    return rep.finish('both deformation modes are interpreted abstractly on a symbolic grid; incompressible affine kinematics are decided by value numbers')


def whole(v):
    """v with every comparison against the critical extension true"""
    memo = {}

    def go(q):
        r = memo.get(q.id)
        if r is None:
            if q.op in ('lt', 'not', 'eq'):
                r = q
            elif q.op == 'ite':
                c, pos = q.a[0], True
                while c.op == 'not':
                    c, pos = c.a[0], not pos
                big = S('nondimensional_critical_extension')
                if c.op == 'lt' and big in t.syms(c):
                    k = t.deriv(c.a[0], big)          # c: a - b < 0
                    val = (k.op == 'num' and k.a[0] < 0)
                    r = go(q.a[1] if val == pos else q.a[2])
                else:
                    r = t.rebuild(q, lambda z: go(z) if isinstance(z, T) else z)
            elif any(isinstance(z, T) for z in q.a):
                r = t.rebuild(q, lambda z: go(z) if isinstance(z, T) else z)
            else:
                r = q
            memo[q.id] = r
        return r
    return go(v)


# ---------------------------------------------------------------------------------------------- F03 construction

def compose(pos, I):
    """reads of other position-function arrays replaced by their position functions"""
    tabs = {}
    for arr, f in I.made:
        if isinstance(f, T) and f.op != 'top':
            tabs[tuple(I.scalar(a).id for a in arr)] = f
    u = t.sym('u', 'real')

    def go(q, d):
        if d > 8 or not isinstance(q, T):
            return q
        if q.op == 'select' or (q.op == 'fn' and q.a and q.a[0] == 'select'):
            a = [z for z in q.a if isinstance(z, T)]
            f = tabs.get(tuple(z.id for z in a[1:]))
            if f is not None:
                return go(t.subst(f, {u: a[0]}), d + 1)
        if any(isinstance(z, T) for z in q.a):
            return t.rebuild(q, lambda z: go(z, d))
        return q
    return go(pos, 0)


def f03(ctx, rep):
    for base, tag in ((HY, 'hyperelastic'), (DA, 'damage')):
        p = base + 'init'
        if not anchors(rep, ctx, [p]):
            continue
        where = ctx.where(p)
        dam = base == DA
        order = ['method', 'nondimensional_critical_extension', 'nondimensional_link_stiffness', 'number_of_links', 'swelling_ratio'] if dam else ['method', 'nondimensional_link_stiffness', 'number_of_links']
        N, kap, J = S('number_of_links'), S('nondimensional_link_stiffness'), S('swelling_ratio')
        for method in (2, 3):
            I = Small(ctx.prog, consts(ctx))
            args = [num(method) if n == 'method' else S(n) for n in order]

            def go():
                v = I.deref(I.run(p, args))
                return [I.deref(x) for x in v]
            v = attempt(go)
            if isinstance(v, T):
                for k in ('element', 'factor', 'normalization', 'grid'):
                    rep.und('%s:%s:%d' % (tag, k, method), 'outside the domain: %s' % (v.a,))
                continue
            el, factor, grid, norm = v
            grid = [I.scalar(x) for x in grid]
            u = t.sym('u', 'real')
            pos = None
            for arr, f in I.made:
                if isinstance(f, T) and f.op != 'top' and len(arr) == K and all(I.scalar(a) is b for a, b in zip(arr, grid)):
                    pos = f
            key = lambda k: '%s:%s:%d' % (tag, k, method)
            pos = compose(pos, I) if pos is not None else None
            if pos is None:
                rep.und(key('grid'), 'the grid is not built by a position function')
                continue
            w = [t.subst(t.deriv(pos, u), {u: num(i)}) for i in range(K)]
            # the grid covers (0, critical extension] or (0, infinity) in equal steps of its own coordinate
            if dam:
                eps = S('nondimensional_critical_extension')
                for i in range(K):
                    verdict(rep, key('grid') + ':%d' % i, grid[i], t.mul(eps, num(Fraction(i + 1, K))), 'the grid divides (0, critical extension] evenly, its end included',
                            '%s: grid point %d is not (i + 1)/n of the critical extension' % (where, i))
            else:
                for i in range(K):
                    wv = num(Fraction(i + 1, K + 1))
                    ath = t.mul(num(Fraction(1, 2)), t.ln(t.div(t.add(t.ONE, wv), t.sub(t.ONE, wv))))
                    verdict(rep, key('grid') + ':%d' % i, grid[i], ath, 'the grid is atanh of evenly spaced interior points of (0, 1)', '%s: grid point %d is not atanh((i + 1)/(n + 1))' % (where, i))
            for i in range(K):
                row = I.deref(el[i])
                for j in range(K):
                    g = t.sqrt(t.add(sq(grid[i]), sq(grid[j])))
                    f = call('nondimensional_force', kap, g)
                    ref = t.mul(N, f, t.div(t.sub(t.mul(num(2), sq(grid[i])), sq(grid[j])), g), num(2), t.PI, grid[j], w[i], w[j])
                    if dam:
                        ref = t.div(ref, t.power(J, num(3)))
                    verdict(rep, key('element') + ':%d%d' % (i, j), I.scalar(row[j]), ref, 'each element is the virial N f(g) (2 z^2 - r^2)/g over the ring 2 pi r with the quadrature weights of the grid',
                            '%s: chain element (%d, %d) is not N f(g) (2 z^2 - r^2)/g * 2 pi r * dz dr' % (where, i, j))
            fac = I.scalar(factor)
            if method == 3:
                ref = t.mul(num(Fraction(3, 2)), N, kap, t.add(kap, t.ONE), t.power(t.add(sq(kap), t.mul(num(6), kap), num(3)), num(-1)))
                verdict(rep, key('factor'), fac, ref, 'the Gaussian exponent has the mean square link length (k^2 + 6 k + 3)/(k (k + 1)) of the extensible chain',
                        '%s: the Gaussian factor is not 3/2 N k (k + 1)/(k^2 + 6 k + 3)' % where)
            gg = t.sym('gg', 'pos')
            sums = [t.mul(num(4), t.PI, sq(grid[i]), t.subst(P(method, sq(gg)), {S('factor'): fac, gg: grid[i]}), w[i]) for i in range(K)]
            ref = t.add(*sums)
            if dam:
                ref = t.div(ref, J)
            verdict(rep, key('normalization'), I.scalar(norm), ref, 'the normalization is the radial integral of the same distribution on the same grid',
                    '%s: method %d: the normalization is not the integral 4 pi g^2 P(g) dg on the grid' % (where, method))
    rep.floor('table obligations', len(rep.obl), 40)
    return rep.finish('constructors interpreted abstractly with the grid size abstracted; the quadrature weight of a grid point is the derivative of the grid position')


CHECKS = {'F01': f01, 'F02': f02, 'F03': f03}
