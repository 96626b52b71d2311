"""C01-C10: thermodynamic relations between the library's functions, decided on their abstract values."""
import os
from fractions import Fraction
import mpmath
from .. import numeric
from .. import terms as t, model, holds
from ..model import KB, HP, DIM, CONST_DIM, out_dim
from ..terms import num


class Armed(object):
    """a rule armed for confirmed instances: disagreement elsewhere is recorded as 'not an instance'"""

    def __init__(self, rep, pid):
        self.rep, self.pid = rep, pid
        self.table = holds.load(pid)
        self.seen = set()
        self.held = set()
        self.learn = os.environ.get('PV_LEARN') == '1'

    def put(self, key, r, good, bad, kind=None):
        self.seen.add(key)
        if r is True:
            self.held.add(key)
        if r is False and self.learn:
            self.rep.und(key, 'not an instance: ' + good, kind)
            return
        if r is False and self.table is not None and key not in self.table:
            t.LAST[0] = None
            self.rep.und(key, 'not an instance of the rule on the reference tree: ' + good, kind)
            return
        self.rep.put(key, r, good, bad, kind)

    def close(self):
        if self.learn:
            holds.save(self.pid, self.held)
            for k in sorted(self.seen - self.held):
                print('   not confirmed:', k, self.rep.obl[k][0])
        elif self.table is not None:
            missing = [k for k in self.table if k not in self.seen]
            n = len(self.table)
            self.rep.floor('confirmed instances still present', n - len(missing), n - n // 50)
            dec = sum(1 for k in self.table if k in self.rep.obl and self.rep.obl[k][0] != 'und')
            self.rep.floor('confirmed instances decided', dec, int(n * 0.8))


def S(role):
    return t.sym(role, 'int' if role in model.INT_ROLES else 'pos')


def short(path):
    return path[len('crate::'):]


def family(m):
    """the model a module belongs to: the module path up to the ensemble"""
    p = m.split('::')[1:]
    for i, x in enumerate(p):
        if x == 'thermodynamics':
            return '::'.join(p[:i])
    return '::'.join(p)


def pfuncs(M):
    for m in sorted(M.mods):
        for n in sorted(M.mods[m]):
            yield m, n, M.mods[m][n]


# ---------------------------------------------------------------------------------------------- C01 dimensions

BASES = ('length', 'energy', 'temperature', 'time')


def c01(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C01')
    lam = [t.sym('unit_' + b) for b in BASES]

    def unit(d):
        return t.mul(*[t.power(l, num(k)) for l, k in zip(lam, d) if k] or [t.ONE])
    strictly = {}
    for m, n, b in pfuncs(M):
        od = out_dim(n)
        if od is None:
            continue
        path = b['path']
        roles = M.role(path)
        key = 'dim:' + short(path)
        rep.analysed.add(path)
        if any(r not in DIM and not r.startswith(('nondimensional_', 'normalization_')) for r in roles):
            rep.und(key, 'unknown parameter role')
            continue
        v = M.fn(path)
        sub = {}
        for r in roles:
            if r in DIM and any(DIM[r]):
                sub[S(r)] = t.mul(S(r), unit(DIM[r]))
        for c, d in CONST_DIM.items():
            sub[c] = t.mul(c, unit(d))
        scaled = t.subst(v, sub)
        strict = t.decide(scaled, t.mul(v, unit(od)))
        good = '%s changes by exactly its unit when the units of length, energy, temperature and time change' % n
        text = '%s: %s is not covariant under a change of units (dimensionally inhomogeneous)' % (ctx.where(path), short(path))
        if 'free_energy' in n and 'relative_' not in n:
            # an absolute free energy is defined up to a reference: a change of units may shift it by a constant
            # depending on the unit of length and the number of links only; the strict rule is decided per
            # family below
            diff = t.sub(t.div(scaled, unit(od)), v)
            if any(od):
                diff = t.div(diff, t.mul(KB, S('temperature')))
            r = True
            for q in [S(q) for q in roles if q != 'number_of_links'] + lam[1:]:
                x = t.independent_of(diff, q)
                r = x if x is not True and r is not False else r
            A.put(key, r, '%s changes by its unit, up to a constant per link' % n, text)
            fam = 'absolute-dim:' + family(m)
            strictly.setdefault(fam, []).append((strict, short(path), text))
        else:
            A.put(key, strict, good, text)
    for fam, l in sorted(strictly.items()):
        f = [x for x in l if x[0] is False]
        r = False if f else (True if all(x[0] is True for x in l) else None)
        rep.put(fam, r, 'all %d absolute free energies of the family change by exactly their unit' % len(l),
                '%d of %d absolute free energies take the logarithm of a dimensional quantity, e.g. %s' % (len(f), len(l), f[0][1] if f else ''))
    A.close()
    return rep.finish('the value of every function at rescaled units (length, energy, temperature, time scaled by independent '
                      'symbols in every argument and physical constant) is its value times the unit of its result')


# ---------------------------------------------------------------------------------------------- C02 scaling

PAIRS = [
    ('force', 'nondimensional_force', 'force'),
    ('end_to_end_length', 'nondimensional_end_to_end_length', 'length'),
    ('end_to_end_length_per_link', 'nondimensional_end_to_end_length_per_link', 'length'),
    ('equilibrium_distribution', 'nondimensional_equilibrium_distribution', 'vol'),
    ('equilibrium_radial_distribution', 'nondimensional_equilibrium_radial_distribution', 'len-1'),
]
for _e in ('helmholtz_free_energy', 'gibbs_free_energy'):
    for _r in ('', 'relative_'):
        for _p in ('', '_per_link'):
            PAIRS.append((_r + _e + _p, 'nondimensional_' + _r + _e + _p, 'energy'))


def c02(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C02')
    kT = t.mul(KB, S('temperature'))
    scales = {'force': t.div(kT, S('link_length')), 'length': S('link_length'), 'energy': kT,
              'vol': t.power(t.mul(S('number_of_links'), S('link_length')), num(-3)),
              'len-1': t.power(t.mul(S('number_of_links'), S('link_length')), num(-1))}
    for m in sorted(M.mods):
        for d, n, sc in PAIRS:
            dp, np_ = m + '::' + d, m + '::' + n
            if not (M.has(dp) and M.has(np_)):
                continue
            key = 'scale:' + short(dp)
            rep.analysed.update((dp, np_))
            roles = set(M.role(dp)) | {'number_of_links', 'temperature', 'link_length'}
            sub = {}
            bad = None
            for r in M.role(np_):
                x = M.nondim(r, roles)
                if x is None:
                    bad = r
                elif x is not S(r):
                    sub[S(r)] = x
            if bad:
                rep.und(key, 'no nondimensional counterpart for ' + bad)
                continue
            rhs = t.mul(scales[sc], t.subst(M.fn(np_), sub))
            if d.endswith('_per_link') and 'number_of_links' not in M.role(dp) and S('number_of_links') in t.syms(rhs):
                pass
            r = t.decide(M.fn(dp), rhs)
            A.put(key, r, '%s(params) = scale * %s(nondimensionalised params)' % (d, n),
                  '%s: %s is not its scale times %s of the nondimensional arguments' % (ctx.where(dp), short(dp), n))
    A.close()
    return rep.finish('each dimensional function equals its scale (kT, kT/l, l, 1/(Nl)^3, 1/(Nl)) times the nondimensional '
                      'function of the same module at eta=fl/kT, gamma=xi/(Nl), kappa=kl^2/kT, eps=u/kT, ...')


# ---------------------------------------------------------------------------------------------- C03 per link

def c03(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C03')
    for m in sorted(M.mods):
        for n in sorted(M.mods[m]):
            if not n.endswith('_per_link') or n.endswith('distribution_per_link'):
                continue
            tot = n[:-len('_per_link')]
            if tot not in M.mods[m]:
                continue
            pp, tp = m + '::' + n, m + '::' + tot
            rep.analysed.update((pp, tp))
            key = 'perlink:' + short(pp)
            a, b = M.fn(pp), M.fn(tp)
            r = t.decide(t.mul(S('number_of_links'), a), b)
            A.put(key, r, '%s * N = %s' % (n, tot), '%s: %s times the number of links is not %s' % (ctx.where(pp), short(pp), tot))
    A.close()
    return rep.finish('N times every per-link function equals the corresponding total function of the same module on the same arguments')


# ---------------------------------------------------------------------------------------------- C04 relative

CONTROLS = ('force', 'nondimensional_force', 'end_to_end_length', 'nondimensional_end_to_end_length_per_link',
            'potential_distance', 'nondimensional_potential_distance')


def c04(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'C04')
    for m in sorted(M.mods):
        for n in sorted(M.mods[m]):
            if 'relative_' not in n:
                continue
            ab = n.replace('relative_', '')
            if ab not in M.mods[m]:
                continue
            rp, ap = m + '::' + n, m + '::' + ab
            ctl = [c for c in CONTROLS if c in M.role(rp) and c in M.role(ap)]
            if not ctl:
                continue
            if len(ctl) > 1:
                # modified canonical: the potential distance is the control
                ctl = [c for c in ctl if 'potential_distance' in c] or ctl
            rep.analysed.update((rp, ap))
            d = t.sub(M.fn(ap), M.fn(rp))
            for c in ctl:
                key = 'relative:%s:%s' % (short(rp), c)
                r = t.independent_of(d, S(c))
                A.put(key, r, '%s - %s does not depend on %s' % (ab, n, c),
                      '%s: %s differs from %s by more than a reference constant (the difference varies with %s)' % (ctx.where(rp), short(rp), ab, c))
                # the reference state: control = ZERO in nondimensional form
                z = num(Fraction(1, 10 ** 6))
                z = {'force': t.div(t.mul(z, KB, S('temperature')), S('link_length'))}.get(c, z) if c == 'force' else \
                    t.mul(z, S('number_of_links'), S('link_length')) if c in ('end_to_end_length', 'potential_distance') else z
                r = t.equal(M.at(rp, {c: z}), t.ZERO)
                if r is False:
                    try:
                        r = t.equal(M.at(rp, {c: t.ZERO}), t.ZERO)
                    except ZeroDivisionError:
                        pass
                if r is not True:
                    q = small_at(M.at(rp, {c: z}), M.at(rp, {c: t.mul(z, num(500000))}))
                    r = q if q is not None else r
                A.put('reference:%s:%s' % (short(rp), c), r, '%s vanishes at the reference state %s ~ 0' % (n, c),
                      '%s: %s does not vanish at its reference state' % (ctx.where(rp), short(rp)))
    A.close()
    return rep.finish('absolute minus relative free energy is independent of the control variable (value numbers agree for two '
                      'independent symbols of it), in every module, dimensional and nondimensional, total and per link')


def small_at(near, far):
    """True / False / None: the value next to the reference state is negligible against one well away from it"""
    import random
    syms = sorted((s for s in t.syms(near) | t.syms(far) if s.op == 'sym'), key=lambda s: s.a[0])
    rng = random.Random('reference')
    got = []
    for i in range(12):
        E = numeric.Eval(numeric.sample(syms, rng, (1, 0.1, 4)[i % 3]))
        try:
            got.append(abs(E.ev(near)) <= abs(E.ev(far)) * mpmath.mpf(10) ** -5)
        except (numeric.NoValue, ZeroDivisionError, ValueError, OverflowError, RecursionError, mpmath.libmp.libhyper.NoConvergence):
            continue
        if len(got) == 4:
            break
    if len(got) < 3:
        return None
    return True if all(got) else False if not any(got) else None


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}
