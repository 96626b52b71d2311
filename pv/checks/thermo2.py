"""C05-C11: Legendre transforms, conjugate pairs, distributions, parity, inverses."""
import json
from .. import terms as t, model
from ..model import KB, HP
from ..terms import num
from .thermo import Armed, S, short, CONTROLS

F, ETA, XI, GAM = S('force'), S('nondimensional_force'), S('end_to_end_length'), S('nondimensional_end_to_end_length_per_link')
N, T_, L_ = S('number_of_links'), S('temperature'), S('link_length')


def inv_nodes(x):
    out, seen = [], set()

    def go(y):
        if y.id in seen:
            return
        seen.add(y.id)
        if y.op == 'inv':
            out.append(y)
        for z in y.a:
            if isinstance(z, t.T):
                go(z)
    go(x)
    return out


def fdiff(x):
    """central differences (g(.., y+h, ..) - g(.., y-h, ..)) of an uninterpreted function with a small constant h become 2h D_i g(.., y, ..)"""
    memo = {}

    def go(y):
        r = memo.get(y.id)
        if r is None:
            r = t.rebuild(y, go) if y.a else y
            if r.op == 'add':
                r = pair(r)
            memo[y.id] = r
        return r

    def split(y):
        if y.op == 'add' and y.a[0].op == 'num':
            return y.a[0].a[0], t.add(*y.a[1:])
        return 0, y

    def pair(y):
        parts = list(y.a)
        for i, p in enumerate(parts):
            for j, q in enumerate(parts):
                if i == j:
                    continue
                (cp, rp), (cq, rq) = t.coef(p), t.coef(q)
                if cp != -cq or cp < 0 or rp.op != 'fn' or rq.op != 'fn' or rp.a[0] != rq.a[0] or len(rp.a) != len(rq.a):
                    continue
                ds = [k for k in range(1, len(rp.a)) if rp.a[k] is not rq.a[k]]
                if len(ds) != 1:
                    continue
                k = ds[0]
                (c1, r1), (c2, r2) = split(rp.a[k]), split(rq.a[k])
                if r1 is not r2 or not 0 < abs(c1 - c2) <= 1e-4:
                    continue
                w = num(c1 - c2)
                mid = t.add(r1, num((c1 + c2) / 2))
                args = list(rp.a[1:])
                args[k - 1] = mid
                d = t.mul(num(cp * w.a[0]), t.fn('D%d:%s' % (k - 1, rp.a[0]), *args))
                return t.add(d, *[z for m, z in enumerate(parts) if m not in (i, j)])
        return y
    return go(x)


def small(c):
    """a condition that only tells the neighbourhood of zero or of infinity from the rest"""
    if c.op == 'not':
        return small(c.a[0])
    if c.op == 'and':
        return small(c.a[0]) and small(c.a[1])
    if c.op != 'lt':
        return False
    parts = c.a[0].a if c.a[0].op == 'add' else (c.a[0],)
    ks = [y.a[0] for y in parts if y.op == 'num']
    return len(parts) == 2 and len(ks) == 1 and not 0.01 < abs(ks[0]) < 50


REFINED = num(1024)
UNIT = {'kB': 1, 'hP': 1, 'temperature': 1, 'link_length': 1, 'hinge_mass': 1, 'number_of_links': 6, 'nondimensional_persistance_length': 0.3,
        'persistance_length': 1.8, 'nondimensional_link_stiffness': 60, 'link_stiffness': 60, 'nondimensional_link_energy': 40, 'link_energy': 40,
        'well_width': 0.4, 'nondimensional_potential_stiffness': 3, 'potential_stiffness': 3, 'nondimensional_potential_distance': 0.4,
        'potential_distance': 2.4, 'nondimensional_force': 0.5, 'force': 0.5, 'normalization_nondimensional_equilibrium_distribution': 1, 'nondimensional_end_to_end_length_per_link': 0.4, 'end_to_end_length': 2.4}


def neglected(ctx, M, rep, where=lambda p: True):
    """branches that `settle` leaves out (series and asymptotic forms): where they apply they agree with the branch that stays,
    quadratures being refined, so that the relations shown for the latter carry over"""
    import mpmath
    fine = None
    done = {}
    for m in sorted(M.mods):
        for n in sorted(M.mods[m], key=lambda n: ('relative' in n, len(n))):
            p = m + '::' + n
            if not where(p) or not n.startswith('nondimensional_') or ('relative_' in n and n.replace('relative_', '') in M.mods[m]):
                continue
            for cn in ('nondimensional_force', 'nondimensional_end_to_end_length_per_link', 'nondimensional_potential_distance'):
                if cn not in M.role(p):
                    continue
                control = S(cn)
                conds = {}
                st, seen = [M.fn(p)], set()
                while st:
                    y = st.pop()
                    if y.id in seen:
                        continue
                    seen.add(y.id)
                    if y.op == 'ite' and not y.a[0].fv and control in t.syms(y.a[0]) and small(y.a[0]):
                        conds.setdefault(y.a[0].id, [y.a[0]]).append(y.id)
                    st.extend(z for z in y.a if isinstance(z, t.T))
                for c in conds.values():
                    # the same construct in several functions is looked at once
                    sig, c = tuple(sorted(c[1:])), c[0]
                    if sig in done:
                        continue
                    done[sig] = p
                    if not all(x.a[0] in UNIT or x.a[0] == 'pi' for x in t.syms(c) if x.op == 'sym'):
                        continue
                    if fine is None:
                        fine = model.Model(ctx, {'crate::physics::single_chain::POINTS': REFINED})
                    with mpmath.workdps(25):
                        r, text = joins(fine.fn(p), c, control, 'energy' in n)
                    key = 'branch:%s:%s' % (short(p), cn)
                    if r is False:
                        rep.bad(key, '%s: %s takes another value in its branch for %s than the general formula gives there' % (ctx.where(p), short(p), text), 'branch')
                    elif r:
                        rep.ok(key, 'the branch of %s for %s joins the general formula' % (n, text), 'branch')
                    else:
                        rep.und(key, 'branch of %s for %s' % (n, text), 'branch')


def joins(f, c, control, energy):
    from ..numeric import Eval, NoValue
    from mpmath import mpf, mp, nstr

    def ev(x, v):
        env = {k: mpf(str(q)) for k, q in UNIT.items()}
        env['pi'] = mp.pi + 0
        env[control.a[0]] = v
        return Eval(env).ev(x)

    def choose(x, keep, memo):
        r = memo.get(x.id)
        if r is None:
            if x.op == 'ite' and x.a[0] is c:
                r = choose(x.a[1] if keep else x.a[2], keep, memo)
            else:
                r = t.rebuild(x, lambda y: choose(y, keep, memo)) if x.a else x
            memo[x.id] = r
        return r
    try:
        main = bool(ev(c, mpf(1) / 2))
        kept, other = choose(f, main, {}), choose(f, not main, {})
        side = [v for v in (mpf(10) ** (mpf(k) / 4) for k in range(-40, 17)) if bool(ev(c, v)) is not main]
        if not side:
            return None, 'never reached'
        out = max(side) < 0.5
        lo, hi = (max(side), mpf(1) / 2) if out else (min(side), mpf(1) / 2)
        for _ in range(60):
            mid = (lo * hi) ** 0.5
            if bool(ev(c, mid)) is not main:
                lo = mid
            else:
                hi = mid
        text = '%s %s %s' % (control.a[0], '<' if out else '>', nstr(lo, 6))
        # closed forms on both sides: nothing but rounding and the terms left out separates them
        exact = not quadrature(kept, other)
        k = 0
        for q in ((1, 0.7, 0.1) if out else (1, 1.2, 1.6)):
            try:
                x, y = ev(kept, lo * q), ev(other, lo * q)
            except NoValue:
                continue
            k += 1
            tol = mpf('1e-3') * max(abs(x), abs(y)) if out else mpf('0.05') + abs(x) * mpf('1e-6') if energy else mpf('5e-3') * abs(x)
            if exact:
                tol = mpf('1e-5' if out else '1e-6') * max(abs(x), abs(y))
            if abs(x - y) > tol:
                return False, '%s: %s against %s at %s' % (text, nstr(y, 8), nstr(x, 8), nstr(lo * q, 6))
        return (True if k else None), text
    except (NoValue, ValueError, ZeroDivisionError, OverflowError):
        return None, 'not evaluated'


def quadrature(*xs):
    from ..numeric import subterms
    return any(y.op in ('sum', 'prod') for y in subterms(*xs))


def settle(x, control):
    """branches that only tell the neighbourhood of zero or of infinity of the control from the rest (series and asymptotic
    forms) are taken at a generic point (control = 1/2)"""
    memo = {}
    from ..numeric import Eval, NoValue
    from mpmath import mpf

    def go(y):
        r = memo.get(y.id)
        if r is None:
            r = t.rebuild(y, go) if y.a else y
            if r.op == 'ite' and control in t.syms(r.a[0]) and small(r.a[0]):
                try:
                    env = {s.a[0]: mpf(1) for s in t.syms(r.a[0])}
                    env[control.a[0]] = mpf(1) / 2
                    r = r.a[1] if Eval(env).ev(r.a[0]) else r.a[2]
                except (NoValue, ValueError, ZeroDivisionError):
                    pass
            memo[y.id] = r
        return r
    return go(x)


def parametrise(terms, control):
    """parametrise1, repeated for inverse functions of the parameter it introduces"""
    q = parametrise1(terms, control, '#param')
    k = 0
    while q is not None and q[1] is not None and k < 3:
        k += 1
        if not any(control_node(n, q[1]) for x in q[0] for n in inv_nodes(x)):
            break
        q2 = parametrise1(list(q[0]) + [q[2]], q[1], '#param%d' % k)
        if q2 is None or q2[1] is None:
            break
        q = (q2[0][:-1], q2[1], q2[0][-1])
    return q


def control_node(n, control):
    return control in t.syms(n) and control not in t.syms(n.a[1])


def parametrise1(terms, control, pname):
    """eliminate the inverse functions of the control variable: control := body(parameter)/c, the inverse := parameter.
    Returns (terms, parameter, control expression) or None when the inverse is not of the control alone."""
    nodes = [n for x in terms for n in inv_nodes(x) if control in t.syms(n) and control not in t.syms(n.a[1])]
    if not nodes:
        return list(terms), None, None
    n = nodes[0]
    c = t.div(n.a[2], control)
    if t.independent_of(c, control) is not True:
        return None
    c = t.subst(c, {control: t.ONE})
    p = t.sym(pname)
    X = t.sym(n.a[0])
    ctl = t.div(t.subst(n.a[1], {X: p}), c)
    seen = {}

    def go(x):
        r = seen.get(x.id)
        if r is None:
            if x.op == 'inv' and control in t.syms(x) and control not in t.syms(x.a[1]) and \
                    t.equal(t.subst(x.a[1], {t.sym(x.a[0]): p}), t.mul(t.div(x.a[2], control), ctl)) is True:
                r = p
            elif x is control:
                r = ctl
            else:
                r = t.rebuild(x, go)
            seen[x.id] = r
        return r
    return [go(x) for x in terms], p, ctl


def equal_along(lhs, rhs, control):
    """lhs = rhs as functions of the control variable, inverses eliminated"""
    r = t.equal(lhs, rhs)
    if r is True or control is None:
        return r
    lhs, rhs = settle(lhs, control), settle(rhs, control)
    q = parametrise([lhs, rhs], control)
    if q is None or q[1] is None:
        return r if r is not None else t.decide(lhs, rhs)
    r2 = t.decide(*q[0])
    return r2


def deriv_equals(phi, conj, control):
    """d phi / d control = conj, inverses eliminated by parametrising the control"""
    if t.has_top(phi) or t.has_top(conj):
        return None
    phi, conj = settle(phi, control), settle(conj, control)
    q = parametrise([phi, conj], control)
    if q is not None and q[1] is not None:
        (a, b), p, ctl = q
        return t.decide(t.deriv(a, p), t.mul(b, t.deriv(ctl, p)))
    return t.decide(t.deriv(phi, control), conj)


VARIANTS = [(pre + rel, per) for pre in ('', 'nondimensional_') for rel in ('', 'relative_') for per in ('', '_per_link')]


def work(nd, per, f, x):
    """force times extension in the units of an energy variant; x is total extension (dimensional) or extension per link"""
    if nd:
        return t.mul(f, x) if per else t.mul(N, f, x)
    return t.div(t.mul(f, x), N) if per else t.mul(f, x)


def sibling(m):
    """isometric…::legendre -> the isotensional module whose Legendre transformation it is"""
    return m.replace('::isometric', '::isotensional')[:-len('::legendre')]


# ---------------------------------------------------------------------------------------------- C05

def c05(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C05')
    for m in sorted(M.mods):
        if not m.endswith('::legendre'):
            continue
        par = m[:-len('::legendre')]
        for v, per in VARIANTS:
            nd = v.startswith('nondimensional_')
            fn_, xn = ('nondimensional_force', 'nondimensional_end_to_end_length_per_link') if nd else ('force', 'end_to_end_length')
            h, g = v + 'helmholtz_free_energy' + per, v + 'gibbs_free_energy' + per
            if '::isotensional' in m and M.has(m + '::' + h) and M.has(par + '::' + g) and M.has(par + '::' + xn):
                f = S(fn_)
                rep.analysed.update((m + '::' + h, par + '::' + g, par + '::' + xn))
                key = 'transform:' + short(m + '::' + h)
                rhs = t.add(M.fn(par + '::' + g), work(nd, per, f, M.fn(par + '::' + xn)))
                # a relative free energy is the difference to a reference state: the transformation holds up to that constant
                r = t.decide(M.fn(m + '::' + h), rhs) if 'relative' not in v else indep_along(t.sub(M.fn(m + '::' + h), rhs), f)
                A.put(key, r, 'psi = phi + f*xi with phi, xi of the parent ensemble', '%s: %s is not the Legendre transformation of %s of the parent ensemble' % (
                    ctx.where(m + '::' + h), short(m + '::' + h), g))
            if '::isometric' in m:
                x = S(xn)
                sib = sibling(m)
                if M.has(m + '::' + h) and M.has(m + '::' + fn_) and M.has(sib + '::' + g):
                    rep.analysed.update((m + '::' + h, m + '::' + fn_, sib + '::' + g))
                    f = M.fn(m + '::' + fn_)
                    rhs = t.add(M.at(sib + '::' + g, {fn_: f}), work(nd, per, f, x))
                    lhs = M.fn(m + '::' + h)
                    d = t.sub(lhs, rhs)
                    # up to the configuration-independent constant the two ensembles define differently
                    r = indep_along(d, x)
                    A.put('transform:' + short(m + '::' + h), r, 'psi(xi) = phi(f(xi)) + f(xi) xi up to a constant',
                          '%s: %s is not the Legendre transformation of the isotensional %s at the force it predicts' % (ctx.where(m + '::' + h), short(m + '::' + h), g))
                if M.has(m + '::' + g) and M.has(par + '::' + h) and M.has(par + '::' + fn_):
                    rep.analysed.update((m + '::' + g, par + '::' + h, par + '::' + fn_))
                    rhs = t.sub(M.fn(par + '::' + h), work(nd, per, M.fn(par + '::' + fn_), x))
                    r = equal_along(M.fn(m + '::' + g), rhs, x) if 'relative' not in v else indep_along(t.sub(M.fn(m + '::' + g), rhs), x)
                    if r is False:
                        r2 = indep_along(t.sub(M.fn(m + '::' + g), rhs), x)
                        A.put('transform-const:' + short(m + '::' + g), r2, 'phi(xi) = psi(xi) - f(xi) xi up to a constant',
                              '%s: %s differs from the Legendre transformation by more than a constant' % (ctx.where(m + '::' + g), short(m + '::' + g)))
                    A.put('transform:' + short(m + '::' + g), r, 'phi(xi) = psi(xi) - f(xi) xi',
                          '%s: %s is not the Legendre transformation of the isometric %s' % (ctx.where(m + '::' + g), short(m + '::' + g), h))
    A.close()
    return rep.finish('the free energy a Legendre module offers equals the conjugate free energy of its parent (or sibling) ensemble plus or '
                      'minus force times extension, the inverse functions being eliminated by parametrising the control variable')


def indep_along(d, control):
    """True if d does not vary with the control variable, inverses eliminated"""
    if t.has_top(d):
        return None
    d = settle(d, control)
    q = parametrise([d], control)
    if q is not None and q[1] is not None:
        return t.independent_of(q[0][0], q[1])
    return t.independent_of(d, control)


# ---------------------------------------------------------------------------------------------- C06

def c06(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C06')

    def put(m, e, c, lhs_phi, conj, control, text):
        rep.analysed.add(m + '::' + e)
        key = 'conjugate:%s:%s' % (short(m + '::' + e), c)
        A.put(key, deriv_equals(lhs_phi, conj, control), text, '%s: the derivative of %s is not what %s returns (%s)' % (ctx.where(m + '::' + e), short(m + '::' + e), c, text))
    for m in sorted(M.mods):
        par = m[:-len('::legendre')] if m.endswith('::legendre') else None
        for v, per in VARIANTS:
            nd = v.startswith('nondimensional_')
            pre = 'nondimensional_' if nd else ''
            f, fn_ = (ETA, 'nondimensional_force') if nd else (F, 'force')
            x, xn = (GAM, 'nondimensional_end_to_end_length_per_link') if nd else (XI, 'end_to_end_length')
            g, h = v + 'gibbs_free_energy' + per, v + 'helmholtz_free_energy' + per
            pd, pdn = (S('nondimensional_potential_distance'), 'nondimensional_potential_distance') if nd else (S('potential_distance'), 'potential_distance')
            for e in (g, h):
                p = m + '::' + e
                if not M.has(p):
                    continue
                roles = M.role(p)
                phi = M.fn(p)
                for src, tag in ((m, ''), (par, 'parent ')):
                    if src is None:
                        continue
                    if fn_ in roles and M.has(src + '::' + xn):
                        X = M.fn(src + '::' + xn)
                        if e == g:
                            put(m, e, tag + xn, phi, t.neg(work(nd, per, t.ONE, X)), f, 'd(phi)/df = -xi')
                        elif 'isotensional' in m:
                            put(m, e, tag + xn, phi, work(nd, per, f, t.deriv(X, f)), f, 'd(psi)/df = f d(xi)/df')
                    if xn in roles and M.has(src + '::' + fn_):
                        Fv = M.fn(src + '::' + fn_)
                        if e == h:
                            put(m, e, tag + fn_, phi, work(nd, per, Fv, t.ONE), x, 'd(psi)/dxi = f')
                        else:
                            put(m, e, tag + fn_, phi, t.neg(work(nd, per, t.deriv(Fv, x), x)), x, 'd(phi)/dxi = -xi df/dxi')
                    if pdn in roles and M.has(src + '::' + fn_) and pdn in M.role(src + '::' + fn_):
                        Fv = M.fn(src + '::' + fn_)
                        put(m, e, tag + fn_ + '@' + pdn, phi, work(nd, per, Fv, t.ONE), pd, 'd(energy)/d(potential distance) = f')
    neglected(ctx, M, rep)
    A.close()
    return rep.finish('the symbolic derivative of each free energy with respect to its control variable equals the conjugate force or '
                      'extension function of the same ensemble, as value numbers; inverses eliminated by parametrising the control variable')


# ---------------------------------------------------------------------------------------------- C07

def c07(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C07')
    for m in sorted(M.mods):
        for pre, x in (('', XI), ('nondimensional_', GAM)):
            rn, pn = m + '::' + pre + 'equilibrium_radial_distribution', m + '::' + pre + 'equilibrium_distribution'
            if M.has(rn) and M.has(pn):
                rep.analysed.update((rn, pn))
                rhs = t.mul(num(4), t.PI, t.power(x, num(2)), M.fn(pn))
                A.put('radial:' + short(rn), t.decide(M.fn(rn), rhs), 'radial density = 4 pi r^2 density',
                      '%s: the radial distribution is not 4 pi r^2 times the distribution' % ctx.where(rn))
            for hn in ('nondimensional_helmholtz_free_energy', 'nondimensional_relative_helmholtz_free_energy', 'helmholtz_free_energy', 'relative_helmholtz_free_energy'):
                hp = m + '::' + hn
                if M.has(pn) and M.has(hp) and hn.startswith('nondim') == bool(pre):
                    h = M.fn(hp)
                    if not pre:
                        h = t.div(h, t.mul(KB, T_))
                    rep.analysed.update((hp, pn))
                    P = M.fn(pn)
                    r = indep_along(t.add(t.ln(P), h), x)
                    if r is not True:
                        r = indep_along(t.mul(P, t.exp(h)), x) if not (t.has_top(P) or t.has_top(h)) else None
                    A.put('boltzmann:%s:%s' % (short(pn), hn), r, 'P exp(psi/kT) does not depend on the extension',
                          '%s: the distribution is not proportional to the Boltzmann factor of %s' % (ctx.where(pn), hn))
            # normalisation: the stored constant is the radial integral with unit constant
            if M.has(rn):
                norm = 'normalization_nondimensional_equilibrium_distribution'
                if norm in M.role(rn):
                    c = S(norm)
                    r = t.independent_of(t.mul(M.fn(rn), c), c)
                    A.put('normalised:' + short(rn), r, 'the density is inversely proportional to its normalisation constant',
                          '%s: the density is not divided by its normalisation constant' % ctx.where(rn))
    from .bind_obj import classes, build, roles_of
    nn = 0
    for s, (init, ms) in sorted(classes(ctx).items()):
        names = {b['name'] for b in ms}
        mod = s.rsplit('::', 1)[0]
        rn = mod + '::nondimensional_equilibrium_radial_distribution'
        if 'nondimensional_equilibrium_radial_distribution' not in names or not M.has(rn) or \
                'normalization_nondimensional_equilibrium_distribution' not in M.role(rn):
            continue
        nn += 1
        o, I = build(ctx, M, init, lambda p: False)
        key = 'constant:' + short(s)
        if o is None:
            rep.und(key, 'constructor outside the domain')
            continue
        k = I.deref(o.fs.get('normalization_nondimensional_equilibrium_distribution'))
        if not isinstance(k, t.T):
            rep.und(key, 'no stored constant')
            continue
        # midpoint rule over [ZERO, ONE] with POINTS points, of the radial density with constant 1
        zero, one, pts = const(ctx, 'ZERO'), const(ctx, 'ONE'), const(ctx, 'POINTS')
        over = {'normalization_nondimensional_equilibrium_distribution': t.ONE}
        for r in M.role(rn):
            if r not in roles_of(ctx, M, init) and r != 'nondimensional_end_to_end_length_per_link' and r not in over:
                x = M.nondim(r, set(roles_of(ctx, M, init)))
                if x is not None:
                    over[r] = x
        dens = M.at(rn, over)
        # the chain's greatest extension per link: one, or one plus the width of the link's well
        if 'well_width' in roles_of(ctx, M, init):
            one = t.mul(one, t.add(t.ONE, t.div(S('well_width'), S('link_length'))))
        h = t.div(t.sub(one, zero), pts)
        i = t.idx('#q')
        node = t.add(zero, t.mul(t.add(num(1) if False else num(__import__('fractions').Fraction(1, 2)), i), h))
        integral = t.mul(h, t.summ('#q', pts, t.subst(dens, {GAM: node})))
        A.put(key, t.decide(k, integral), 'the stored constant is the midpoint integral of the radial density over [ZERO, ONE]',
              '%s: the stored normalisation constant is not the integral of the radial density over the unit interval' % ctx.where(init['path']))
    rep.floor('objects with a normalisation constant', nn, 3)
    A.close()
    return rep.finish('radial density = 4 pi r^2 density; density * exp(free energy / kT) is independent of the extension; densities are divided by a '
                      'constant that equals the midpoint integral of the unnormalised radial density over the unit interval')


def const(ctx, name):
    from ..interp import Interp
    I = Interp(ctx.prog)
    b = ctx.bodies['crate::physics::single_chain::' + name]
    v = I.deref(I.ev(b['body'], {}, type('F', (), dict(path='', generics={}, exits=[], base=0))()))
    return v


# ---------------------------------------------------------------------------------------------- C10

def reflected(a, c):
    """a at -c; the solution of g(x) = y is odd in y when g is odd"""
    memo = {}

    def go(q):
        r = memo.get(q.id)
        if r is None:
            if c not in t.syms(q):
                r = q
            elif q is c:
                r = t.neg(c)
            elif q.op == 'inv' and c not in t.syms(q.a[1]):
                y = go(q.a[2])
                x, z = t.sym(q.a[0]), t.sym('#reflected', 'real')
                g = t.subst(q.a[1], {x: z})
                if t.equal(y, t.neg(q.a[2])) is True and t.equal(t.subst(g, {z: t.neg(z)}), t.neg(g)) is True:
                    r = t.neg(q)
                else:
                    r = t.mk('inv', q.a[0], q.a[1], y)
            else:
                r = t.rebuild(q, lambda z: go(z) if isinstance(z, t.T) else z)
            memo[q.id] = r
        return r
    return go(a)


def c10(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C10')
    for m in sorted(M.mods):
        for n in sorted(M.mods[m]):
            p = m + '::' + n
            odd = n in ('force', 'nondimensional_force') or 'end_to_end_length' in n
            even = 'free_energy' in n or n.endswith('equilibrium_distribution')
            if not (odd or even):
                continue
            ctl = [c for c in CONTROLS if c in M.role(p)]
            if len(ctl) != 1 or '::modified_canonical' in m:
                continue
            rep.analysed.add(p)
            cr = t.sym(ctl[0] + '~', 'real')         # of either sign
            a, _ = ctx.run(p, [cr if r == ctl[0] else M.sym(r) for r in M.role(p)], const_syms=M.consts)
            if not isinstance(a, t.T):
                a = t.top('non-scalar value')
            b = reflected(a, cr)
            r = t.decide(b, t.neg(a) if odd else a)
            A.put('parity:' + short(p), r, '%s is %s in %s' % (n, 'odd' if odd else 'even', ctl[0]),
                  '%s: %s is not %s in %s' % (ctx.where(p), short(p), 'odd' if odd else 'even', ctl[0]))
    A.close()
    return rep.finish('value numbers at the negated control variable: forces and extensions change sign, free energies and densities do not')


# ---------------------------------------------------------------------------------------------- C11

def c11(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C11')
    from ..interp import Interp, Give, Dead
    nsites = 0
    listed = {m + '::' + n for m in M.mods for n in M.mods[m]}
    iterates = {b['path'] for b in ctx.prog.allbodies if b['path'] not in listed and 'inverse_newton_raphson' in json.dumps(b)}
    for m in sorted(M.mods):
        for n in sorted(M.mods[m]):
            p = m + '::' + n
            # the iterations of helpers count as those of the function that calls them
            def sites(opaque):
                I = Interp(ctx.prog, opaque=opaque, const_syms=model.CONSTS)
                try:
                    I.run(p, M.args(p))
                except (Give, Dead, RecursionError):
                    return []
                return [s for s in I.inv_sites if not any(q != p and q in listed for q in s['stack'])]
            followed = None
            for k, s in enumerate(sites(lambda q: q.startswith('crate::physics') and q != p and q not in iterates)):
                nsites += 1
                rep.analysed.add(p)
                key = 'newton:%s:%d' % (short(p), k)
                where = '%s:%s' % (ctx.bodies[p]['file'], s['line'] or ctx.bodies[p]['line'])
                same = t.decide(fdiff(s['fp']), t.deriv(fdiff(s['f']), s['x']))
                if same is not True:
                    # the functions handed over may be defined by others of the library
                    followed = sites(None) if followed is None else followed
                    if len(followed) > k and followed[k]['line'] == s['line']:
                        u = followed[k]
                        same = t.decide(u['fp'], t.deriv(u['f'], u['x']))
                        s = u if same is not None else s
                A.put(key, same, 'the derivative handed to the Newton iteration is the derivative of the function handed to it',
                      '%s: the derivative handed to the Newton iteration is not that of the function (%s against %s)' % (where, t.show(s['fp'])[:120], t.show(t.deriv(s['f'], s['x']))[:120]))
    for m in sorted(M.mods):
        if not m.endswith('::legendre') or '::isometric' not in m:
            continue
        sib = sibling(m)
        for fn_, xn, f, x in (('force', 'end_to_end_length', F, XI), ('nondimensional_force', 'nondimensional_end_to_end_length_per_link', ETA, GAM)):
            if M.has(m + '::' + fn_) and M.has(sib + '::' + xn):
                rep.analysed.update((m + '::' + fn_, sib + '::' + xn))
                lhs = M.at(sib + '::' + xn, {fn_: M.fn(m + '::' + fn_)})
                A.put('inverse:' + short(m + '::' + fn_), equal_along(lhs, x, x), 'xi(f(xi)) = xi with xi(f) of the isotensional ensemble',
                      '%s: %s does not invert %s of the isotensional ensemble' % (ctx.where(m + '::' + fn_), short(m + '::' + fn_), xn))
    neglected(ctx, M, rep, lambda p: '::isometric' in p and p.endswith('legendre::nondimensional_force'))
    rep.extra['newton_sites'] = nsites
    rep.floor('Newton call sites', nsites, 10)
    A.close()
    return rep.finish('at every call of the Newton inversion the derivative passed is the symbolic derivative of the function passed, and the force of a '
                      'Legendre-approximated isometric ensemble inverts the isotensional extension')


CHECKS = {'C05': c05, 'C06': c06, 'C07': c07, 'C10': c10, 'C11': c11}
