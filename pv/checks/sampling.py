"""E01-E02: the Monte Carlo samplers;  H01: constants."""
import re
from fractions import Fraction
from .. import terms as t, numeric, prep, core
from ..interp import Interp, Give, Dead, Obj, Arr, Tup
from ..terms import num, T
from .effects import narrow_counters, NARROW

SC = 'crate::physics::single_chain::'
MODELS = ('fjc', 'frc', 'efjc', 'efrc')
TAIL = '::thermodynamics::isometric::monte_carlo::'


def attempt(f):
    try:
        return f()
    except Give as g:
        return t.top(str(g))
    except Dead:
        return t.top('diverges')
    except RecursionError:
        return t.top('recursion')


def names(ctx, p):
    return [q.get('n', '_') for q in ctx.bodies[p]['ps']]


def agree(a, b):
    r = t.equal(a, b)
    if r is not True:
        c = numeric.compare(a, b)
        r = {'agree': True, 'differ': False, None: None}[c]
    t.LAST[0] = None
    return r


def arr(I, v):
    v = I.deref(v)
    if isinstance(v, (Arr, Tup, list, tuple)):
        return [I.deref(x) for x in v]
    raise Give('not an array of known size')


# ---------------------------------------------------------------------------------------------- E01 histogram

def widest(model, theta, N):
    """largest end-to-end length per link"""
    if model == 'fjc':
        return t.ONE
    if model == 'frc':                        # the planar zigzag
        c = t.cos(theta)
        if N % 2 == 0:
            return t.sqrt(t.div(t.add(t.ONE, c), num(2)))
        return t.div(t.sqrt(t.div(t.add(num(N * N + 1), t.mul(num(N * N - 1), c)), num(2))), num(N))
    return t.sym('gamma_max', 'pos')


class Count(Interp):
    """counts the samples a routine draws, loops over a symbolic number of rounds included"""
    times = t.ONE
    total = t.ZERO

    def symloop(self, dims, elem, body, lid):
        st, old, before = dict(self.store), self.times, self.total
        self.times = t.mul(old, *[n for _, n in dims])
        try:
            body(elem)
        finally:
            self.times = old
        if self.total is before:
            self.store = st
            return super().symloop(dims, elem, body, lid)
        if old is t.ONE:
            raise Give('counted')


def count_draws(ctx, rep, model, p, q, where):
    """the number of end-to-end lengths drawn for a symbolic number of samples"""
    S = t.sym('number_of_samples', 'int')

    def hook(I, a):
        I.total = t.add(I.total, I.times)
        return t.sym('R', 'pos')
    I = Count(ctx.prog, hooks={q: hook})
    pars = dict(theta=t.sym('theta', 'pos'), kappa=t.sym('kappa', 'pos'), gamma_max=t.sym('gamma_max', 'pos'), number_of_samples=S)
    args = [pars.get(n) for n in names(ctx, p)]
    if None in args:
        return
    v = attempt(lambda: I.run(p, args, {'NUMBER_OF_LINKS': num(3), 'NUMBER_OF_BINS': num(2)}))
    if isinstance(v, T) and v.op == 'top' and v.a[0] != 'counted':
        rep.und(model + ':samples', 'outside the domain: %s' % (v.a,))
        return
    rep.put(model + ':samples', t.decide(I.total, S), 'as many end-to-end lengths are drawn as samples are requested',
            '%s: %s end-to-end lengths are drawn for number_of_samples requested' % (where, t.show(I.total)[:120]))


def e01(ctx, rep):
    for model in MODELS:
        base = SC + model + TAIL
        p, q = base + 'nondimensional_equilibrium_radial_distribution', base + 'random_nondimensional_end_to_end_length'
        if p not in ctx.bodies or q not in ctx.bodies:
            for z in (p, q):
                if z not in ctx.bodies:
                    rep.bad('missing:' + z[7:], '%s no longer exists' % z[7:])
            continue
        rep.analysed |= {p, q}
        where = ctx.where(p)
        count_draws(ctx, rep, model, p, q, where)
        hits = list(narrow_counters(ctx, p))
        for f, n, ty in hits:
            rep.bad('counter:' + model, '%s: %s counts the samples of a bin in %s: beyond %d of them they are not counted once each' % (ctx.where(f), f[7:], ty, NARROW[ty]))
        if not hits:
            rep.ok('counter:' + model, 'the counts are kept in numbers that hold every requested sample')
        theta, kappa = t.sym('theta', 'pos'), t.sym('kappa', 'pos')
        sizes = core.int_literals(ctx, [p])
        shapes = [(N, NB, S) for N in (1, 2, 3, 4, 5) for NB in ((3,) if N > 2 else (2, 4)) for S in ((1, 2) if N <= 3 else (1,))]
        shapes += [(c + d, 3, 1) for c in sizes for d in (-1, 0, 1) if c + d > 5] + [(3, c + d, 1) for c in sizes for d in (-1, 0, 1) if 4 < c + d <= 40]
        shapes += [(2, 2, c + d) for c in sizes for d in (0, 1) if c + d <= 24] + [(9, 7, 3), (24, 5, 1)]
        for N, NB, S in dict.fromkeys(shapes):
            gm = widest(model, theta, N)
            if True:
                if True:
                    tag = '%s:%d links:%d bins:%d samples' % (model, N, NB, S)
                    draws = []

                    def hook(I, a):
                        draws.append([I.deref(z) for z in a])
                        return t.sym('R%d' % len(draws), 'pos')
                    I = Interp(ctx.prog, hooks={q: hook})
                    pars = dict(theta=theta, kappa=kappa, gamma_max=t.sym('gamma_max', 'pos'), number_of_samples=num(S))
                    args = [pars.get(n) for n in names(ctx, p)]
                    if None in args:
                        rep.und(tag, 'unknown parameters %s' % names(ctx, p))
                        continue

                    def go():
                        v = arr(I, I.run(p, args, {'NUMBER_OF_LINKS': num(N), 'NUMBER_OF_BINS': num(NB)}))
                        return [[I.scalar(z) for z in arr(I, w)] for w in v]
                    v = attempt(go)
                    if isinstance(v, T):
                        rep.und(tag, 'outside the domain: %s' % (v.a,))
                        continue
                    centers, probs = v
                    if len(centers) != NB or len(probs) != NB:
                        rep.bad(tag + ':shape', '%s: the histogram does not have %d bins' % (where, NB))
                        continue
                    if len(draws) != S:
                        rep.bad(tag + ':draws', '%s: %d samples are drawn instead of %d' % (where, len(draws), S))
                        continue
                    rep.ok(tag + ':draws', 'one end-to-end length is drawn per sample')
                    bad = [b for b in range(NB) if agree(centers[b], t.mul(gm, num(Fraction(2 * b + 1, 2 * NB)))) is False]
                    if bad:
                        rep.bad(tag + ':centers', '%s: with %d links the centre of bin %d of %d is not the middle of its cell of [0, largest extension]: %s' % (
                            where, N, bad[0], NB, t.show(centers[bad[0]])[:160]))
                    else:
                        rep.ok(tag + ':centers', 'bin centres are the middles of equal cells of [0, largest extension]')
                    # each cell, near both of its ends and in the middle
                    eps = Fraction(1, 10 ** 6)
                    bad = und = None
                    cells = [(c, f) for c in range(NB) for f in (eps, Fraction(1, 2), 1 - eps)]
                    combos = [(a,) for a in cells] if S == 1 else [(a, b) for a in cells for b in cells if a[1] == Fraction(1, 2) or b[1] == Fraction(1, 2)]
                    if S > 2:
                        combos = [tuple(cells[(z * k + s0) % len(cells)] for k in range(S)) for z, s0 in ((0, 1), (1, 0), (2, 1))]
                    for combo in combos:
                        m = {t.sym('R%d' % (k + 1), 'pos'): t.mul(num(N), gm, num((c + f) / NB)) for k, (c, f) in enumerate(combo)}
                        for b in range(NB):
                            cnt = sum(1 for c, _ in combo if c == b)
                            ref = t.div(num(Fraction(cnt * NB, S)), gm)
                            r = agree(t.subst(probs[b], m), ref)
                            if r is False:
                                bad = bad or (combo, b, cnt)
                            elif r is None:
                                und = und or (combo, b)
                    if bad:
                        rep.bad(tag + ':density', '%s: with %d links, %d bins and lengths at %s of the largest extension, the density reported for bin %d is not %d sample%s of %d per bin width' % (
                            where, N, NB, ', '.join('%.3g' % float((c + f) / NB) for c, f in bad[0]), bad[1], bad[2], '' if bad[2] == 1 else 's', S))
                    elif und:
                        rep.und(tag + ':density', 'no evaluation')
                    else:
                        rep.ok(tag + ':density', 'each sample counts once, in the bin whose cell contains it, and densities integrate to one')
                    # distribution of link lengths
                    if model.startswith('e') and N == 2 and S == 1:
                        for a in draws[0]:
                            if isinstance(a, Obj) and a.kind == 'normal':
                                rep.put(model + ':links:mean', t.equal(a.mu, t.ONE), 'link lengths have mean one', '%s: the mean link length is %s, not 1' % (where, t.show(a.mu)[:80]))
                                rep.put(model + ':links:variance', t.equal(t.power(a.sd, num(2)), t.div(t.ONE, kappa)), 'link lengths have variance 1/kappa',
                                        '%s: the standard deviation of the link length is %s, not kappa^(-1/2)' % (where, t.show(a.sd)[:80]))
                    for n, a in zip(names(ctx, q), draws[0]):
                        if n == 'theta':
                            rep.put(model + ':theta', a is theta, 'the bond angle is passed on', '%s: the sampler is given the bond angle %s' % (where, t.show(a)[:80] if isinstance(a, T) else '?'))
    rep.floor('samplers', len(rep.analysed), 8)
    return rep.finish('each histogram routine is interpreted abstractly with a symbolic sampled length for small numbers of links, bins and samples; '
                      'centres and densities are compared with the definition for a sample in every cell, next to both of its edges')


# ---------------------------------------------------------------------------------------------- E02 configurations

def drawn(x):
    """random draws occurring in x"""
    out, seen = {}, set()

    def go(y):
        if y.id in seen:
            return
        seen.add(y.id)
        if y.op == 'fn' and y.a[0] in ('rngU', 'rngZ'):
            out[y.id] = y
            return
        for z in y.a:
            if isinstance(z, T):
                go(z)
    go(x)
    return out


def e02(ctx, rep):
    for model in MODELS:
        base = SC + model + TAIL
        p, q = base + 'random_configuration', base + 'random_nondimensional_end_to_end_length'
        K = min(max([3] + core.int_literals(ctx, [p, q])) + 1, 12)
        if p not in ctx.bodies:
            rep.bad('missing:' + p[7:], '%s no longer exists' % p[7:])
            continue
        rep.analysed.add(p)
        where = ctx.where(p)
        theta, sd = t.sym('theta', 'pos'), t.sym('sd', 'pos')

        def args(I, f):
            tab = dict(rng=Obj('rng', cell=I.new(t.ZERO)), theta=theta, dist=Obj('normal', mu=t.ONE, sd=sd))
            return [tab[n] for n in names(ctx, f)]

        def run(N):
            I = Interp(ctx.prog)
            return [[I.scalar(z) for z in arr(I, r)] for r in arr(I, I.run(p, args(I, p), {'NUMBER_OF_LINKS': num(N)}))]
        try:
            rows = attempt(lambda: run(K))
        except KeyError as e:
            rep.und(model, 'unknown parameter %s' % e)
            continue
        if isinstance(rows, T) or any(x.op == 'top' or t.has_top(x) for r in rows for x in r):
            rep.und(model, 'outside the domain: %s' % (rows.a if isinstance(rows, T) else 'an unmodelled operation',))
            continue
        if len(rows) != K or any(len(r) != 3 for r in rows):
            rep.bad(model + ':shape', '%s: a configuration of %d links is not %d positions of 3 coordinates' % (where, K, K))
            continue
        # draws become independent symbols
        alld = {}
        for r in rows:
            for x in r:
                alld.update(drawn(x))
        m = {d: t.sym('%s_%s' % (d.a[0], '_'.join(str(z) for z in map(t.show, d.a[1:]))), 'real' if d.a[0] == 'rngZ' else 'pos') for d in alld.values()}
        back = {s: d for d, s in m.items()}
        signed, either = dict(m), {}
        for d, s in list(m.items()):
            if d.a[0] == 'rngZ':              # in terms of the (positive) length drawn
                L = t.sym('L' + s.a[0], 'pos')
                m[d] = t.div(t.sub(L, t.ONE), sd)
                back[L] = d
                Ls = t.sym('#L' + s.a[0], 'real')
                signed[d] = t.div(t.sub(Ls, t.ONE), sd)
                either[L] = Ls
        rows2 = [[t.subst(x, signed) for x in r] for r in rows]
        rows = [[t.subst(x, m) for x in r] for r in rows]
        prev, prevstep, prevlam = [t.ZERO] * 3, None, t.ONE
        old = set()
        for k, r in enumerate(rows):
            key = '%s:%d:' % (model, k)
            step = [t.sub(a, b) for a, b in zip(r, prev)]
            have = {s for x in r for s in t.syms(x) if s in back}
            new = have - old
            zs = [s for s in new if back[s].a[0] == 'rngZ']
            us = [s for s in new if back[s].a[0] == 'rngU']
            lam = t.ONE
            if model.startswith('e'):
                if len(zs) != 1:
                    rep.bad(key + 'length', '%s: link %d does not draw its own length (%d fresh draws of the length distribution)' % (where, k + 1, len(zs)))
                    break
                lam = zs[0]
            elif zs:
                rep.bad(key + 'length', '%s: link %d has a random length' % (where, k + 1))
                break
            n2 = t.add(*[t.power(x, num(2)) for x in step])
            rep.put(key + 'length', t.equal(n2, t.power(lam, num(2))), 'the link has unit length' if lam is t.ONE else 'the link has the length drawn for it',
                    '%s: link %d of a configuration does not have %s' % (where, k + 1, 'unit length' if lam is t.ONE else 'the length drawn for it'))
            if lam in either:
                step2 = [t.sub(a, b) for a, b in zip(rows2[k], rows2[k - 1] if k else [t.ZERO] * 3)]
                rep.put(key + 'drawn', t.equal(t.add(*[t.power(x, num(2)) for x in step2]), t.power(either[lam], num(2))), 'the link has the length drawn for it, whatever is drawn',
                        '%s: link %d of a configuration does not have the length drawn for it when the normal distribution gives a small or negative one' % (where, k + 1))
            if not us:
                rep.bad(key + 'fresh', '%s: link %d draws no random numbers of its own' % (where, k + 1))
                break
            rep.ok(key + 'fresh', 'the link draws its own random numbers')
            if 'frc' in model:
                axis = None
                if prevstep is not None:
                    dot = t.add(*[t.mul(a, b) for a, b in zip(step, prevstep)])
                    rep.put(key + 'angle', t.equal(dot, t.mul(t.cos(theta), lam, prevlam)), 'consecutive links meet at the fixed angle',
                            '%s: the angle between links %d and %d is not theta' % (where, k, k + 1))
                    axis = [t.div(t.mul(x, t.cos(theta), lam), prevlam) for x in prevstep]
                    rest = [t.sub(a, b) for a, b in zip(step, axis)]
                    turn(rep, key + 'dihedral', rest, us, where, 'the dihedral angle of link %d' % (k + 1))
            else:
                free = all(not (t.syms(x) & old) or all(t.is_zero(t.deriv(x, s)) for s in t.syms(x) & old) for x in step)
                rep.put(key + 'independent', free, 'the link is independent of the links before it', '%s: link %d depends on the random numbers of earlier links' % (where, k + 1))
                sphere(rep, key + 'direction', step, us, lam, where, k + 1)
            prev, prevstep, prevlam, old = r, step, lam, old | have
        # end-to-end length
        if q in ctx.bodies:
            rep.analysed.add(q)
            for N in (1, 3):
                I = Interp(ctx.prog)
                v = attempt(lambda: I.scalar(I.run(q, args(I, q), {'NUMBER_OF_LINKS': num(N)})))
                if v.op == 'top' or t.has_top(v):
                    rep.und('%s:end to end:%d' % (model, N), 'outside the domain')
                    continue
                v = t.subst(v, m)
                ref = t.add(*[t.power(x, num(2)) for x in rows[N - 1]])
                rep.put('%s:end to end:%d' % (model, N), t.equal(t.power(v, num(2)), ref), 'the end-to-end length is the distance of the last position from the origin',
                        '%s: with %d links the end-to-end length is not the distance of the last position from the origin' % (ctx.where(q), N))
        else:
            rep.bad('missing:' + q[7:], '%s no longer exists' % q[7:])
    rep.floor('samplers', len(rep.analysed), 8)
    rep.floor('links', sum(1 for k in rep.obl if k.endswith(':length')), 16)
    return rep.finish('each configuration sampler is interpreted abstractly with its random draws as symbols; bond lengths, bond angles, independence and the '
                      'distribution of directions (polar cosine affine in a uniform draw over [-1, 1], azimuth one full turn of another) are decided on the values by value numbering and symbolic differentiation')


def turn(rep, key, vec, us, where, what):
    """vec makes exactly one full turn as one of the uniform draws goes from 0 to 1"""
    want = t.mul(num(-4), t.power(t.PI, num(2)))
    seen = []
    for u in us:
        second = [t.deriv(t.deriv(x, u), u) for x in vec]
        rs = [t.equal(a, t.mul(want, b)) for a, b in zip(second, vec)]
        if all(r is True for r in rs) and not all(t.equal(x, t.ZERO) for x in vec):
            t.LAST[0] = None
            rep.ok(key, 'uniform over a full turn')
            return u
        seen += rs
    t.LAST[0] = None
    if any(r is False for r in seen):
        rep.bad(key, '%s: %s is not uniform over a full turn' % (where, what))
    else:
        rep.und(key, 'undecided')
    return None


def sphere(rep, key, step, us, lam, where, k):
    for ax in range(3):
        for u in us:
            d = t.deriv(step[ax], u)
            half = t.subst(step[ax], {u: num(Fraction(1, 2))})
            if t.equal(t.power(d, num(2)), t.mul(num(4), t.power(lam, num(2)))) is True and t.is_zero(t.deriv(d, u)) and t.equal(half, t.ZERO) is True:
                t.LAST[0] = None
                rep.ok(key + ':polar', 'the polar cosine is uniform over [-1, 1]')
                rest = [x for i, x in enumerate(step) if i != ax]
                v = [w for w in us if w is not u]
                turn(rep, key + ':azimuth', rest, v, where, 'the azimuth of link %d' % k)
                return
    t.LAST[0] = None
    rep.bad(key + ':polar', '%s: no coordinate of link %d is uniform over [-1, 1] in one draw: the direction is not uniform on the sphere' % (where, k))


# ---------------------------------------------------------------------------------------------- H01 constants

NA, KB, H = Fraction('6.02214076e23'), Fraction('1.380649e-23'), Fraction('6.62607015e-34')
EXACT = {'BOLTZMANN_CONSTANT': (NA * KB, 'J/(mol K)'), 'PLANCK_CONSTANT': (NA * H * 10 ** 9, 'J ns/mol')}


def h01(ctx, rep):
    import glob
    import os
    for b in ctx.prog.allbodies:
        n = b['path'].rsplit('::', 1)[-1]
        if n in EXACT and b['kind'] in ('Static', 'Const', 'static', 'const') or (n in EXACT and 'Static' in str(b['kind'])):
            I = Interp(ctx.prog)
            v = attempt(lambda: I.scalar(I.ev(b['body'], {}, type('F', (), dict(path='', generics={}, exits=[], base=0))())))
            one(rep, 'rust:' + b['path'][7:], n, v, ctx.where(b['path']))
            rep.analysed.add(b['path'])
    root = prep.REPO
    for f in sorted(glob.glob(os.path.join(root, 'src', '**', '*.jl'), recursive=True)):
        if os.path.basename(f) == 'test.jl':
            continue
        s = open(f, encoding='utf-8', errors='replace').read()
        rel = os.path.relpath(f, root)
        for i, mt in enumerate(re.finditer(r'\b(BOLTZMANN_CONSTANT|PLANCK_CONSTANT)(?:\s*::\s*\w+)?\s*=\s*([^\n#=][^\n#]*)', s)):
            n, e = mt.group(1), mt.group(2).strip().rstrip(';,')
            try:
                v = num(Fraction(e.replace('_', '')))
            except ValueError:
                rep.und('julia:%s:%s' % (rel, n), 'not a literal: ' + e[:60])
                continue
            one(rep, 'julia:%s:%s' % (rel, n), n, v, rel)
            rep.analysed.add(rel)
    rep.floor('definitions of constants', sum(1 for k in rep.obl), 20)
    return rep.finish('every definition of a physical constant in the Rust and Julia sources is evaluated exactly and compared with the defining values of the SI')


def one(rep, key, n, v, where):
    ref, unit = EXACT[n]
    if v.op != 'num':
        rep.und(key, 'not a number: %s' % t.show(v)[:60])
    elif abs(Fraction(v.a[0]) / ref - 1) < Fraction(1, 10 ** 10):
        rep.ok(key, '%s = %.10g %s' % (n, float(v.a[0]), unit))
    else:
        rep.bad('%s=%.12g' % (key, float(v.a[0])), '%s: %s is %.10g instead of %.10g %s' % (where, n, float(v.a[0]), float(ref), unit))


CHECKS = {'E01': e01, 'E02': e02, 'H01': h01}
