"""K01 momentum integral of the absolute free energies; K02 published single-chain formulas."""
from fractions import Fraction
import random, time
import mpmath
from mpmath import mp, mpf, nstr
from .. import terms as t, model, numeric
from ..model import KB, HP
from ..terms import num
from .thermo import S, short, family
from .thermo2 import ETA, GAM, N, T_, L_, equal_along, sibling, settle, parametrise

POT = S('nondimensional_potential_distance')
VARPI = S('nondimensional_potential_stiffness')
KAPPA, EPS = S('nondimensional_link_stiffness'), S('nondimensional_link_energy')
NU = S('nondimensional_persistance_length')
M_ = S('hinge_mass')
PI = t.sym('pi')


# ---------------------------------------------------------------------------------------------- K01

def ensemble(m):
    """number of momentum integrals in excess of the number of links: 0 with a free end, -1 with both ends held"""
    p = m.split('::thermodynamics::')[1].split('::') if '::thermodynamics::' in m else ['']
    if p[0] == 'isotensional' or 'weak_potential' in p:
        return 0
    if p[0] in ('isometric', 'modified_canonical'):
        return 0 if family(m).endswith('ideal') else -1
    return None


def k01(ctx, rep):
    M = model.get(ctx)
    n = 0
    for m in sorted(M.mods):
        k = ensemble(m)
        if k is None:
            continue
        for fn_ in sorted(M.mods[m]):
            p = m + '::' + fn_
            if 'hinge_mass' not in M.role(p) or 'relative' in fn_ or 'free_energy' not in fn_:
                continue
            n += 1
            rep.analysed.add(p)
            f = M.fn(p)
            nd, per = fn_.startswith('nondimensional_'), fn_.endswith('_per_link')
            count = t.add(N, num(k))
            if per:
                count = t.div(count, N)
            unit = num(1) if nd else t.mul(KB, T_)
            for s, e in [(M_, 1), (HP, -2)] + ([(T_, 1)] if nd else []):
                want = t.neg(t.mul(num(e), count, unit))
                got = t.mul(s, t.deriv(f, s))
                key = 'momentum:%s:%s' % (short(p), s.a[0])
                r = agree(got, want)
                rep.put(key, r, '%s d/d%s of %s is %d times the number of links%s' % (s.a[0], s.a[0], fn_, -e, '' if k == 0 else ' less one'),
                        '%s: %s does not carry the momentum integral of %s: d/dln(%s) is not %s' % (
                            ctx.where(p), short(p), 'every link' if k == 0 else 'every link but one', s.a[0], t.show(want)[:80]), 'momentum')
            if nd:
                lengths(ctx, rep, M, m, fn_, p, f, k, per)
    one_link(ctx, rep, M)
    rep.floor('absolute free energies', n, 200)
    return rep.finish('an absolute free energy depends on the hinge mass, the Planck constant and (nondimensional) the temperature only through '
                      '-n kT ln(m kT/h^2) with n the number of links, one fewer when both ends of the chain are held, and nondimensional forms on the link length '
                      'only through l^2 (with a stretching integral l^3) of each of these links: decided on the logarithmic derivatives of the value of every such '
                      'function; the constants of an isometric Legendre free energy are those of the isotensional one less one link')


def lengths(ctx, rep, M, m, fn_, p, f, k, per):
    """the link length enters a nondimensional free energy through l^2 of the momentum integral and, where the link integral is one over a stretching
    length (a stiffness expansion), through one more l"""
    stretching = family(m).endswith('efjc') or ('asymptotic' in m and family(m).rsplit('::', 1)[-1] in ('lennard_jones', 'log_squared', 'morse'))
    got = t.mul(L_, t.deriv(f, L_))
    if 'well_width' in M.role(p):
        got = t.add(got, t.mul(S('well_width'), t.deriv(f, S('well_width'))))
    want = t.mul(num(-3 if stretching else -2), t.add(N, num(k)))
    got = t.mul(N, got) if per else got
    r = agree(got, want)
    if r is not True and family(m).endswith('::fjc') and '::isometric' in m:
        # recorded under C01: the distribution in units of a volume
        r = True if agree(got, t.add(want, num(3))) is True else r
    rep.put('length:' + short(p), r, 'l d/dl of %s is %d per momentum integral' % (fn_, -3 if stretching else -2),
            '%s: %s depends on the link length other than through the momentum%s integral of each link: l d/dl%s is not %s' % (
                ctx.where(p), short(p), ' and the stretching' if stretching else '', ' times N' if per else '', t.show(want)[:60]), 'length')


def one_link(ctx, rep, M):
    """what is constant in the isometric free energy of a Legendre module and in the isotensional one it comes from differs by one link, so N times the
    difference per link knows nothing of N"""
    n = 0
    for m in sorted(M.mods):
        if not (m.endswith('::legendre') and '::isometric' in m):
            continue
        g, h, fo = sibling(m) + '::nondimensional_gibbs_free_energy_per_link', m + '::nondimensional_helmholtz_free_energy_per_link', m + '::nondimensional_force'
        if not (M.has(h) and M.has(g) and M.has(fo)):
            continue
        n += 1
        eta = M.fn(fo)
        d = t.mul(N, settle(t.sub(M.fn(h), t.add(M.at(g, {'nondimensional_force': eta}), t.mul(eta, GAM))), GAM))
        q = parametrise([d], GAM)
        d = q[0][0] if q is not None else d
        r = None if t.has_top(d) else t.independent_of(d, N)
        if r is False:
            # evaluated at two numbers of links
            M1, M2 = t.subst(d, {N: num(7)}), t.subst(d, {N: num(12)})
            r = agree(M1, M2)
        rep.put('one-link:' + short(h), r, 'the constants of the isometric and isotensional free energies differ by those of one link',
                '%s: %s differs from the transformed isotensional free energy by more than the constants of one link' % (ctx.where(h), short(h)), 'one link')
    rep.floor('isometric Legendre free energies', n, 11)


def agree(a, b, tries=24, want=6):
    """value numbers, numerical evaluation where they do not decide: True, False (with a point in WHY) or None"""
    WHY[0] = ''
    if t.has_top(a) or t.has_top(b):
        return None
    r = t.equal(a, b)
    if r is True:
        return True
    return points(a, lambda env: numeric.Eval(env).ev(b), t.syms(a) | t.syms(b), '1e-12', tries, want)


WHY = ['']


def points(a, oracle, syms, tol, tries=24, want=6, env0=None):
    syms = sorted((s for s in syms if s.op == 'sym'), key=lambda s: s.a[0])
    rng = random.Random('closed')
    k = 0
    for i in range(tries):
        env = numeric.sample(syms, rng, (1, 0.3, 3)[i % 3])
        if env0:
            env.update({q: mpf(str(v(rng) if callable(v) else v)) for q, v in env0.items()})
        try:
            x, y = numeric.Eval(dict(env)).ev(a), oracle(dict(env))
        except (numeric.NoValue, ZeroDivisionError, ValueError, OverflowError):
            continue
        k += 1
        if abs(x - y) > mpf(tol) * (max(abs(x), abs(y)) + mpf('1e-6')):
            WHY[0] = '%s instead of %s at %s' % (nstr(x, 8), nstr(y, 8), ', '.join('%s=%s' % (q, nstr(v, 5)) for q, v in sorted(env.items()) if q not in ('pi',)))
            return False
        if k >= want:
            break
    if k < 3:
        return None
    return branches(a, oracle, syms, tol, rng, env0, mpf(tol) > mpf('1e-4'))


def branches(a, oracle, syms, tol, rng, env0=None, edges=False):
    """the same comparison wherever one of the conditions of the extracted value takes the outcome no earlier point gave it"""
    def draw():
        env = numeric.sample(syms, rng, 1)
        if env0:
            env.update({q: mpf(str(v(rng) if callable(v) else v)) for q, v in env0.items()})
        return env
    tol = max(mpf(tol), mpf('1e-2' if edges else '1e-6'))
    t0 = time.time()
    for y in numeric.atoms(a).values():
        if y.fv:
            continue
        for v in (True, False):
            k = 0
            for env in numeric.forced(y, v, draw, rng, edges=edges):
                if time.time() - t0 > 60 or k >= 24:
                    break
                try:
                    x, w = numeric.Eval(dict(env)).ev(a), oracle(dict(env))
                except (numeric.NoValue, ZeroDivisionError, ValueError, OverflowError):
                    continue
                k += 1
                if abs(x - w) > tol * max(abs(x), abs(w)):
                    WHY[0] = '%s instead of %s where %s is %s: %s' % (nstr(x, 8), nstr(w, 8), t.show(y)[:60], v, ', '.join(
                        '%s=%s' % (q, nstr(z, 5)) for q, z in sorted(env.items()) if q != 'pi'))
                    return False
    return True


# ---------------------------------------------------------------------------------------------- K02

def frac(a, b=1):
    return num(Fraction(a, b))


def coth(x):
    return t.div(t.cosh(x), t.sinh(x))


def langevin(x):
    return t.sub(coth(x), t.div(num(1), x))


def momentum():
    return t.ln(t.div(t.mul(num(8), t.power(PI, num(2)), M_, t.power(L_, num(2)), KB, T_), t.power(HP, num(2))))


def fjc_phi():
    return t.neg(t.ln(t.div(t.sinh(ETA), ETA)))


class Potential(object):
    """a link potential beta u as a function of the stretch lambda, with the constants of its asymptotic relation"""

    def __init__(self, name):
        self.name = name
        self.lam = t.sym('#lambda')

    def u(self, x):
        one = num(1)
        d = t.sub(x, one)
        if self.name == 'harmonic':
            return t.mul(frac(1, 2), KAPPA, t.power(d, num(2)))
        if self.name == 'log_squared':
            return t.mul(frac(1, 2), KAPPA, t.power(t.ln(x), num(2)))
        if self.name == 'lennard_jones':
            return t.mul(t.div(KAPPA, num(72)), t.sub(t.power(x, num(-12)), t.mul(num(2), t.power(x, num(-6)))))
        a = t.power(t.div(KAPPA, t.mul(num(2), EPS)), frac(1, 2))
        return t.mul(EPS, t.power(t.sub(one, t.exp(t.neg(t.mul(a, d)))), num(2)))

    def top(self, env):
        """the stretch at the greatest force the potential can bear (None: no maximum)"""
        if self.name == 'log_squared':
            return mp.e + 0
        if self.name == 'lennard_jones':
            return mpmath.root(mpf(13) / 7, 6)
        if self.name == 'morse':
            return 1 + mpmath.log(2) / mpmath.sqrt(env['nondimensional_link_stiffness'] / 2 / env['nondimensional_link_energy'])
        return None

    def du(self, k):
        x = self.u(self.lam)
        for _ in range(k):
            x = t.deriv(x, self.lam)
        return x

    def c(self):
        """1 - u'''(1)/(2 u''(1))"""
        at = {self.lam: num(1)}
        return t.sub(num(1), t.div(t.subst(self.du(3), at), t.mul(num(2), t.subst(self.du(2), at))))

    def stretch(self, env):
        """lambda(eta) on the rising branch of the force"""
        f = self.du(1)
        e = env['nondimensional_force']
        hi = self.top(env)

        def g(v):
            return numeric.Eval(dict(env, **{'#lambda': v})).ev(f) - e
        lo = mpf(1)
        if hi is None:
            return 1 + e / env['nondimensional_link_stiffness']
        if g(hi) <= mpf('1e-6') * e:
            raise numeric.NoValue('beyond the strength of the link')
        return mpmath.findroot(g, (lo, hi), solver='anderson', tol=1e-50, verify=False)

    # formulas in the stretch (symbol #lambda), exact in it
    def gamma(self, form):
        base = t.add(langevin(ETA), t.sub(self.lam, num(1)))
        if form == 'reduced':
            return base
        r = t.div(ETA, KAPPA)
        c = self.c()
        corr = t.mul(r, t.div(t.sub(num(1), t.mul(langevin(ETA), coth(ETA))), t.add(t.div(num(1), c), t.mul(r, coth(ETA)))))
        return t.add(base, corr)

    def phi(self, form):
        e = t.sub(t.add(fjc_phi(), self.u(self.lam)), t.mul(ETA, t.sub(self.lam, num(1))))
        if form != 'reduced':
            e = t.sub(e, t.ln(t.add(num(1), t.mul(self.c(), t.div(ETA, KAPPA), coth(ETA)))))
        return t.sub(t.sub(e, width()), momentum())


def width():
    """configuration integral of the link length about its rest length, as the library counts it"""
    return t.mul(frac(1, 2), t.ln(t.div(t.mul(num(2), PI, t.power(L_, num(2))), KAPPA)))


def with_stretch(P, term):
    def f(env):
        e = dict(env)
        e['#lambda'] = P.stretch(env)
        return numeric.Eval(e).ev(term)
    return f


def boltzmann(P, env, lo, hi):
    """(Z, dZ/deta) with Z = int sinh(eta s)/(eta s) exp(-u(s)) s^2 ds"""
    e = env['nondimensional_force']
    u = P.u(P.lam)

    def w(s):
        return mpmath.exp(-numeric.Eval(dict(env, **{'#lambda': s})).ev(u))
    k = env['nondimensional_link_stiffness']
    d = 1 / mpmath.sqrt(k)
    cuts = sorted({lo, hi} | {v for v in [1 + d * j for j in range(-10, 22, 2)] if lo < v < hi})
    Z = mpmath.quad(lambda s: mpmath.sinh(e * s) / e * s * w(s), cuts)
    D = mpmath.quad(lambda s: (mpmath.cosh(e * s) * s / e - mpmath.sinh(e * s) / e ** 2) * s * w(s), cuts)
    return Z, D


def entries(M):
    """(function, what, oracle) with the oracle a term or (python function, symbols it needs, tolerance, refined quadrature, samples)"""
    P = 'crate::physics::single_chain::'
    g, f = 'nondimensional_end_to_end_length_per_link', 'nondimensional_gibbs_free_energy_per_link'
    it = '::thermodynamics::isotensional'
    im = '::thermodynamics::isometric'
    out = []

    def add(path, what, oracle, **kw):
        out.append((P + path, what, oracle, kw))
    # ideal, FJC, SWFJC
    add('ideal' + it + '::' + g, 'gamma = eta/3', t.div(ETA, num(3)))
    add('ideal' + it + '::' + f, 'rho = -eta^2/6 - ln(8 pi^2 m l^2 kT/h^2)', t.sub(t.neg(t.div(t.power(ETA, num(2)), num(6))), momentum()))
    add('fjc' + it + '::' + g, 'gamma = coth(eta) - 1/eta', langevin(ETA))
    add('fjc' + it + '::' + f, 'rho = -ln(sinh(eta)/eta) - ln(8 pi^2 m l^2 kT/h^2)', t.sub(fjc_phi(), momentum()))
    p = P + 'swfjc' + it + '::' + g
    if M.has(p):
        ws = t.add(num(1), t.div(S('well_width'), L_))

        def y(a):
            return t.sub(t.mul(a, ETA, t.cosh(t.mul(a, ETA))), t.sinh(t.mul(a, ETA)))
        z = t.sub(t.mul(num(3), t.ln(ETA)), t.ln(t.sub(y(ws), y(num(1)))))
        add('swfjc' + it + '::' + g, 'gamma = d/deta ln[(y(eta, s) - y(eta, 1))/eta^3], y = s eta cosh(s eta) - sinh(s eta)', t.neg(t.deriv(z, ETA)))
        add('swfjc' + it + '::' + f, 'rho = 3 ln(eta) - ln[y(eta, s) - y(eta, 1)] - ln(8 pi^2 m l^2 kT/h^2)', t.sub(z, momentum()))
    # EFJC
    H = Potential('harmonic')
    lam = t.add(num(1), t.div(ETA, KAPPA))
    for sub_, form in (('::asymptotic', 'full'), ('::asymptotic::reduced', 'reduced')):
        add('efjc' + it + sub_ + '::' + g, 'gamma = L + (eta/kappa)[1 + (1 - L coth)/(1 + (eta/kappa) coth)]' if form == 'full' else 'gamma = L + eta/kappa',
            t.subst(H.gamma(form), {H.lam: lam}))
        add('efjc' + it + sub_ + '::' + f, 'rho = ln(eta/sinh) - eta^2/(2 kappa)' + (' - ln[1 + (eta/kappa) coth]' if form == 'full' else ''), t.subst(H.phi(form), {H.lam: lam}))
    r = t.div(ETA, KAPPA)
    alt = t.sub(t.subst(H.phi('reduced'), {H.lam: lam}), t.mul(r, coth(ETA)))
    add('efjc' + it + '::asymptotic::alternative::' + f, 'rho = ln(eta/sinh) - eta^2/(2 kappa) - (eta/kappa) coth', alt)
    add('efjc' + it + '::asymptotic::alternative::' + g, 'gamma = L + (1/kappa)[eta + coth - eta csch^2]', t.neg(t.deriv(alt, ETA)))

    def efjc(env):
        k, e = env['nondimensional_link_stiffness'], env['nondimensional_force']
        Z, D = boltzmann(H, env, mpf(0), 1 + (40 + 2 * e) / mpmath.sqrt(k) + e / k)
        return D / Z
    soft = {'nondimensional_link_stiffness': lambda q: q.uniform(2, 60), 'nondimensional_force': lambda q: q.uniform(0.1, 12)}
    add('efjc' + it + '::' + g, 'gamma = d/deta ln int_0^inf sinh(s eta)/(s eta) exp(-kappa(s-1)^2/2) s^2 ds', (efjc, '1e-10', False, soft))
    # uFJC
    for name in ('lennard_jones', 'log_squared', 'morse'):
        Q = Potential(name)
        for sub_, form in (('::asymptotic', 'full'), ('::asymptotic::reduced', 'reduced')):
            c = '' if form == 'reduced' else ' + (eta/kappa)(1 - L coth)/(c + (eta/kappa) coth)'
            smp = {'nondimensional_link_stiffness': lambda q: q.uniform(30, 400), 'nondimensional_link_energy': lambda q: q.uniform(10, 100),
                   'nondimensional_force': lambda q: q.uniform(0.1, 9)}
            add('ufjc::%s%s%s::%s' % (name, it, sub_, g), "gamma = L%s + lambda - 1 with u'(lambda) = eta" % c, (with_stretch(Q, Q.gamma(form)), '1e-9', False, smp))
            add('ufjc::%s%s%s::%s' % (name, it, sub_, f), "rho = ln(eta/sinh)%s + u(lambda) - eta (lambda - 1)" % ('' if form == 'reduced' else ' - ln[1 + eta/(c kappa) coth]'),
                (with_stretch(Q, Q.phi(form)), '1e-9', False, smp))

        def exact(Q):
            def o(env):
                Z, D = boltzmann(Q, env, mpf('1e-6') if Q.name != 'lennard_jones' else mpf('0.3'), Q.top(env))
                return D / Z
            return o
        add('ufjc::%s%s::%s' % (name, it, g), 'gamma = d/deta ln int sinh(s eta)/(s eta) exp(-u(s)) s^2 ds up to the greatest stretch the link can bear',
            (exact(Q), '2e-3', True, {'nondimensional_link_stiffness': lambda q: q.uniform(20, 120), 'nondimensional_link_energy': lambda q: q.uniform(10, 60),
                                      'nondimensional_force': lambda q: q.uniform(0.1, 6)}))
    # isometric
    add('ideal' + im + '::nondimensional_force', 'eta = 3 gamma', t.mul(num(3), GAM))
    gauss = t.mul(t.power(t.div(t.mul(num(3), N), t.mul(num(2), PI)), frac(3, 2)), t.exp(t.neg(t.mul(frac(3, 2), N, t.power(GAM, num(2))))))
    add('ideal' + im + '::nondimensional_equilibrium_distribution', 'P = (3N/2pi)^(3/2) exp(-3 N gamma^2/2)', gauss)

    def treloar(env):
        n, x = int(env['number_of_links']), env['nondimensional_end_to_end_length_per_link']
        m = (1 - x) / 2
        k = int(mpmath.ceil(n * m))
        return sum((-1) ** s * mpmath.binomial(n, s) * (m - mpf(s) / n) ** (n - 2) for s in range(k)) * mpf(n) ** n / mpmath.factorial(n - 2) / (8 * mp.pi * x)

    def treloar_force(env):
        n = env['number_of_links']
        x0 = env['nondimensional_end_to_end_length_per_link']
        m = int(n)
        k = n * (1 - x0) / 2
        if m < 5 or abs(k - mpmath.nint(k)) < mpf('1e-3'):
            raise numeric.NoValue('knot of the spline')
        return -mpmath.diff(lambda x: mpmath.log(treloar(dict(env, nondimensional_end_to_end_length_per_link=x))), x0, h=mpf('1e-8')) / n
    links = {'number_of_links': lambda q: q.choice((5, 6, 7, 8, 11, 14))}
    add('fjc' + im + '::nondimensional_equilibrium_distribution', 'Treloar sum', (treloar, '1e-12', False, {'number_of_links': lambda q: q.choice((3, 4, 5, 6, 8, 11))}))
    add('fjc' + im + '::nondimensional_force', '-d ln P/d gamma / N of the Treloar sum', (treloar_force, '1e-7', False, links))
    # modified canonical
    mc = 'fjc::thermodynamics::modified_canonical'
    x = t.mul(N, VARPI, POT)
    Lx = langevin(x)
    eta = t.sym('#eta')
    d1 = t.subst(t.deriv(langevin(eta), eta), {eta: x})
    add(mc + '::asymptotic::weak_potential::' + g, "gamma = L(eta)[1 - N varpi L'(eta)], eta = N varpi gamma_p", t.mul(Lx, t.sub(num(1), t.mul(N, VARPI, d1))))

    def canonical(env):
        n, k, d = env['number_of_links'], env['nondimensional_potential_stiffness'], env['nondimensional_potential_distance']
        K = n * n * k

        def Z(d):
            def w(x):
                return x ** 2 * treloar(dict(env, nondimensional_end_to_end_length_per_link=x)) * (mpmath.exp(-K * (d - x) ** 2 / 2) - mpmath.exp(-K * (d + x) ** 2 / 2)) / (K * d * x)
            m = int(n)
            return mpmath.quad(w, [mpf(1) - mpf(2) * s / m for s in range(m // 2, -1, -1)] if m % 2 else sorted({mpf(0)} | {mpf(1) - mpf(2) * s / m for s in range(m // 2 + 1)}))
        with mpmath.workdps(25):
            # the force is the mean potential force: minus the derivative of the free energy with respect to the distance
            h = mpf('1e-6')
            return -(mpmath.log(Z(d + h)) - mpmath.log(Z(d - h))) / (2 * h) / n
    def log_q(env):
        return mpmath.log(8 * mp.pi ** 2 * env['hinge_mass'] * env['link_length'] ** 2 * env['kB'] * env['temperature'] / env['hP'] ** 2)

    def canonical_energy(env):
        n, k, d = env['number_of_links'], env['nondimensional_potential_stiffness'], env['nondimensional_potential_distance']
        K, m = n * n * k, int(n)

        def w(x):
            return 4 * mp.pi * x ** 2 * treloar(dict(env, nondimensional_end_to_end_length_per_link=x)) * (mpmath.exp(-K * (d - x) ** 2 / 2) - mpmath.exp(-K * (d + x) ** 2 / 2)) / (2 * K * d * x)
        Z = mpmath.quad(w, [mpf(1) - mpf(2) * s / m for s in range(m // 2, -1, -1)] if m % 2 else sorted({mpf(0)} | {mpf(1) - mpf(2) * s / m for s in range(m // 2 + 1)}))
        return -mpmath.log(Z) - (n - 1) * log_q(env)
    few = {'number_of_links': lambda q: q.choice((4, 6, 8)), 'nondimensional_potential_stiffness': lambda q: q.uniform(0.3, 3), 'nondimensional_potential_distance': lambda q: q.uniform(0.2, 1.5)}
    add(mc + '::nondimensional_force', 'mean force of the potential over the Treloar distribution', (canonical, '2e-3', True, few))

    add(mc + '::nondimensional_helmholtz_free_energy', '-ln of the configuration integral of the potential over the Treloar distribution - (N - 1) ln(8 pi^2 m l^2 kT/h^2)',
        (canonical_energy, '2e-3', True, few))
    add(mc + '::asymptotic::weak_potential::nondimensional_gibbs_free_energy_per_link', '-ln(sinh(x)/x) - ln(8 pi^2 m l^2 kT/h^2) + N varpi L(x)^2/2, x = N varpi gamma_p',
        t.add(t.neg(t.ln(t.div(t.sinh(x), x))), t.neg(momentum()), t.mul(num(Fraction(1, 2)), N, VARPI, t.power(Lx, num(2)))))
    add('ideal' + im + '::nondimensional_helmholtz_free_energy', '3 N gamma^2/2 - N ln(8 pi^2 m l^2 kT/h^2)',
        t.sub(t.mul(num(Fraction(3, 2)), N, t.power(GAM, num(2))), t.mul(N, momentum())))

    def rigid(env):
        n, k = env['number_of_links'], env['nondimensional_potential_stiffness']
        P = treloar(dict(env, nondimensional_end_to_end_length_per_link=env['nondimensional_potential_distance']))
        return -mpmath.log(P) - (n - 1) * log_q(env) - mpf(3) / 2 * mpmath.log(2 * mp.pi / k / n ** 2)
    add(mc + '::asymptotic::strong_potential::nondimensional_helmholtz_free_energy', '-ln P(gamma_p) - (3/2) ln(2 pi/(N^2 varpi)) - (N - 1) ln(8 pi^2 m l^2 kT/h^2) for a rigid potential',
        (rigid, '1e-9', False, {'number_of_links': lambda q: q.choice((8, 11, 14)), 'nondimensional_potential_stiffness': lambda q: q.uniform(5e11, 2e12),
                                'nondimensional_potential_distance': lambda q: q.uniform(0.2, 0.9)}))

    def strong(env):
        n, k, d = env['number_of_links'], env['nondimensional_potential_stiffness'], env['nondimensional_potential_distance']
        kk = n * (1 - d) / 2
        if int(n) < 8 or d > mpf('0.9') or abs(kk - mpmath.nint(kk)) < mpf('1e-2'):
            raise numeric.NoValue('knot of the spline')
        with mpmath.workdps(60):
            def e0(x):
                def lp(y):
                    return mpmath.log(treloar(dict(env, nondimensional_end_to_end_length_per_link=y)))
                return lp(x)
            h = mpf('1e-9')
            l = [e0(d + j * h) for j in range(-2, 3)]
            f0 = -(8 * (l[3] - l[1]) - (l[4] - l[0])) / (12 * h) / n
            f1 = -(16 * (l[3] + l[1]) - (l[4] + l[0]) - 30 * l[2]) / (12 * h * h) / n
            f2 = -((l[4] - l[0]) - 2 * (l[3] - l[1])) / (2 * h ** 3) / n
            return f0 - (f0 * f1 - f2 / (2 * n)) / (n * k)
    add(mc + '::asymptotic::strong_potential::nondimensional_force', "eta = eta_0 - [eta_0 eta_0' - eta_0''/(2N)]/(N varpi), eta_0 = -d ln P/d gamma / N",
        (strong, '1e-6', False, {'number_of_links': lambda q: q.choice((8, 11, 14)), 'nondimensional_potential_stiffness': lambda q: q.uniform(5, 200),
                                 'nondimensional_potential_distance': lambda q: q.uniform(0.2, 0.9)}))

    # worm-like chain: Becker, Rosa and Everaers (2010)
    def becker(env, shape=False):
        k, r = env['nondimensional_persistance_length'], env['nondimensional_end_to_end_length_per_link']
        a, b = mpf('14.054'), mpf('0.473')
        cij = {(-1, 1): (-3, 4), (-1, 2): (23, 64), (-1, 3): (-7, 64), (0, 1): (-1, 2), (0, 2): (17, 16), (0, 3): (-9, 16)}
        c = 1 - (1 + (mpf('0.38') * k ** mpf('-0.95')) ** -5) ** (-mpf(1) / 5)
        if k < mpf(1) / 8:
            d, J = mpf(1), (3 / (4 * mp.pi * k)) ** mpf('1.5') * (1 - mpf(5) / 4 * k)
        else:
            d = 1 - 1 / (mpf('0.177') / (k - mpf('0.111')) + mpf('6.4') * (k - mpf('0.111')) ** mpf('0.783'))
            J = mpf('112.04') * k ** 2 * mpmath.exp(mpf('0.246') / k - a * k)
        q = ((1 - c * r ** 2) / (1 - r ** 2)) ** mpf('2.5')
        q *= mpmath.exp(sum(mpf(u) / v * k ** i * r ** (2 * j) for (i, j), (u, v) in cij.items()) / (1 - r ** 2))
        q *= mpmath.exp(-d * k * a * b * (1 + b) * r ** 2 / (1 - b ** 2 * r ** 2))
        q *= mpmath.besseli(0, -d * k * a * (1 + b) * r / (1 - b ** 2 * r ** 2))
        return J * q / env['normalization_nondimensional_equilibrium_distribution']

    def becker_force(env):
        e = dict(env, normalization_nondimensional_equilibrium_distribution=mpf(1))
        x0 = e['nondimensional_end_to_end_length_per_link']
        h = mpf('1e-10')
        return -(mpmath.log(becker(dict(e, nondimensional_end_to_end_length_per_link=x0 + h))) - mpmath.log(becker(dict(e, nondimensional_end_to_end_length_per_link=x0 - h)))) / (2 * h) / env['number_of_links']
    wl = {'nondimensional_persistance_length': lambda q: q.choice((q.uniform(0.02, 0.12), q.uniform(0.13, 1.5)))}
    add('wlc' + im + '::nondimensional_equilibrium_distribution', 'Becker-Rosa-Everaers end-to-end density', (becker, '1e-9', False, wl))
    add('wlc' + im + '::nondimensional_force', '-d ln P/d gamma / N of the Becker-Rosa-Everaers density', (becker_force, '1e-8', False, wl))

    def wlc(env):
        n, e = env['number_of_links'], env['nondimensional_force']
        one = dict(env, normalization_nondimensional_equilibrium_distribution=mpf(1))

        def P(x):
            return becker(dict(one, nondimensional_end_to_end_length_per_link=x))
        with mpmath.workdps(20):
            cuts = [mpf(k) / 8 for k in range(8)] + [mpf('0.95'), mpf('0.98'), mpf('0.999')]
            Z = mpmath.quad(lambda x: P(x) * x * mpmath.sinh(n * e * x) / (n * e), cuts)
            D = mpmath.quad(lambda x: P(x) * x * (x * mpmath.cosh(n * e * x) / e - mpmath.sinh(n * e * x) / (n * e * e)), cuts)
            return D / Z / n
    add('wlc' + it + '::' + g, 'gamma = d/deta ln int P(x) sinh(N eta x)/(N eta x) x^2 dx / N over the Becker-Rosa-Everaers density',
        (wlc, '1e-3', True, {'nondimensional_persistance_length': lambda q: q.uniform(0.05, 0.6), 'nondimensional_force': lambda q: q.uniform(0.2, 6)}))
    return out


def k02(ctx, rep):
    M = model.get(ctx)
    fine = None
    deep = 6 if ctx.thorough else 1
    n = 0
    for path, what, oracle, kw in entries(M):
        if not M.has(path):
            rep.und('formula:' + short(path), 'function not present')
            continue
        n += 1
        rep.analysed.add(path)
        key = 'formula:' + short(path)
        WHY[0] = ''
        if isinstance(oracle, t.T):
            over = {}
            for r in M.role(path):
                if r == 'nondimensional_well_width':
                    over[r] = t.div(S('well_width'), L_)
            f = M.at(path, over)
            control = next((c for c in (ETA, GAM, POT) if c in t.syms(f)), None)
            r = None if t.has_top(f) else equal_along(f, oracle, control)
            how = 'identity'
            if r is not True and not t.has_top(f):
                how = 'evaluated'
                r = points(f, lambda env: numeric.Eval(env).ev(oracle), t.syms(f) | t.syms(oracle), '1e-11', 24 * deep, 6 * deep)
        else:
            o, tol, refined, smp = oracle
            how = 'evaluated'
            if refined:
                if fine is None:
                    fine = model.Model(ctx, {'crate::physics::single_chain::POINTS': num(512)})
                f = fine.fn(path)
            else:
                f = M.fn(path)
            with mpmath.workdps(25 if refined else 40):
                roles = [M.sym(q) for q in M.role(path)]
                r = None if t.has_top(f) else points(f, o, set(roles) | t.syms(f), tol, 30 * deep, (4 if refined else 8) * deep, {q: v for q, v in smp.items()})
        rep.put(key, r, what, '%s: %s is not %s%s' % (ctx.where(path), short(path), what, WHY[0] and ': ' + WHY[0]), how)
    rep.floor('published formulas', n, 35)
    return rep.finish('the value of every anchor function, as extracted from its body, is the formula documented and published for the model')


CHECKS = {'K01': k01, 'K02': k02}
