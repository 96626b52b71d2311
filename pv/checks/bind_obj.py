"""B01: a method of a model object is the free function of its module at the object's parameters.
   B02: constructors store their parameters and hand them to the objects they contain."""
from .. import terms as t, model
from ..interp import Interp, Ref, Struct, Give, Dead


def classes(ctx):
    """struct path -> (init body, [method bodies]) of the library's own objects"""
    out = {}
    for b in ctx.prog.allbodies:
        if b['kind'] != 'AssocFn' or not b['path'].startswith('crate::') or '::py::' in b['path'] or '::{' in b['path'] \
                or '::test::' in b['path'] or '::_' in b['path'] or b['exp']:
            continue
        s = b['path'].rsplit('::', 1)[0]
        c = out.setdefault(s, [None, []])
        if b['name'] == 'init':
            c[0] = b
        elif b['ps'] and b['in']:
            c[1].append(b)
    return {s: c for s, c in out.items() if c[0] is not None}


def roles_of(ctx, M, b):
    r = M.roles.get(b['path'])
    if r is not None and len(r) == len(b['in']):
        return r
    return [p.get('n', '_') for p in b['ps']]


CONTROLS = ('force', 'nondimensional_force', 'end_to_end_length', 'nondimensional_end_to_end_length', 'end_to_end_length_per_link',
            'nondimensional_end_to_end_length_per_link', 'potential_distance', 'nondimensional_potential_distance')


def S(role):
    """symbol of a parameter; what is applied to the chain may have either sign"""
    return t.sym(role, 'int' if role in model.INT_ROLES else 'real' if role in CONTROLS else 'pos')


def signed(x):
    return None if x is None else t.subst(x, {t.sym(r, 'pos'): S(r) for r in CONTROLS})


def is_init(p):
    return p.endswith('::init') and p[:-len('::init')].rsplit('::', 1)[-1][:1].isupper()


def build(ctx, M, b, opaque):
    """abstract object returned by a constructor on the symbols of its roles"""
    I = Interp(ctx.prog, opaque=opaque, const_syms=model.CONSTS)
    try:
        o = I.deref(I.run(b['path'], [S(r) for r in roles_of(ctx, M, b)]))
    except (Give, Dead, RecursionError) as g:
        return None, I
    return (o if isinstance(o, Struct) else None), I


def arg_value(ctx, I, ti, s):
    ty = ctx.ty(ti)
    return Ref(I.new(s)) if ty.startswith('&') or ty.startswith('*') else s


def expected_arg(role, mroles, iroles, o, avail, M):
    if role in mroles or role in iroles:
        return S(role)
    if o is not None and role in o.fs:
        return o.fs[role]
    return signed(M.nondim(role, avail)) if role.startswith('nondimensional_') else None


def method_obligation(ctx, rep, M, key, o, iroles, mb, tgt, I0, inlined=False):
    """method(o, args) == tgt(roles)?"""
    mr = roles_of(ctx, M, mb)[1:]
    avail = set(mr) | set(iroles)
    tr = M.role(tgt)
    exp = []
    for r in tr:
        x = expected_arg(r, mr, iroles, o, avail, M)
        if x is None:
            return None, 'no value for parameter %s of %s' % (r, tgt)
        exp.append(x)

    def opq(p):
        return (not inlined) and p.startswith('crate::') and p != mb['path']
    I = Interp(ctx.prog, opaque=opq, const_syms=model.CONSTS)
    I.store, I.ncell, I.fresh = dict(I0.store), I0.ncell, I0.fresh
    try:
        a = [Ref(I.new(o))] + [arg_value(ctx, I, ti, S(r)) for ti, r in zip(mb['in'][1:], mr)]
        got = I.deref(I.run(mb['path'], a))
        if inlined:
            J = Interp(ctx.prog, const_syms=model.CONSTS)
            J.store, J.ncell, J.fresh = dict(I0.store), I0.ncell, I0.fresh
            tb = ctx.bodies[tgt]
            want = J.deref(J.run(tgt, [arg_value(ctx, J, ti, x) for ti, x in zip(tb['in'], exp)]))
        else:
            want = I.opaque_call(tgt, exp)
    except (Give, Dead, RecursionError) as g:
        return None, 'outside the domain (%s)' % g
    if not isinstance(got, t.T):
        fl = I.flat(got)
        got = t.fn('value', *fl)
        want = t.fn('value', *(J.flat(want) if inlined else I.flat(want)))
    return (t.decide(got, want) if inlined else t.equal(got, want, refine=False)), '%s  versus  %s' % (t.show(got)[:200], t.show(want)[:200])


def array_method(ctx, M, o, iroles, mb, tgt, I0):
    """method over a fixed-size array of states: element i is the free function at state i (running states are F01's)"""
    return None


def b01(ctx, rep):
    M = model.get(ctx)
    n = nm = 0
    for s, (init, ms) in sorted(classes(ctx).items()):
        mod = s.rsplit('::', 1)[0]
        iroles = roles_of(ctx, M, init)
        o, I0 = build(ctx, M, init, lambda p: p.startswith('crate::') and not is_init(p))
        if o is None:
            rep.und('object:' + s[7:], 'constructor outside the domain')
            continue
        n += 1
        for mb in ms:
            rep.analysed.add(mb['path'])
            key = 'method:' + mb['path'][7:]
            tgt = mod + '::' + mb['name']
            if tgt not in ctx.bodies:
                if mb['path'] in M.roles:
                    rep.bad(key, '%s: there is no free function %s for the method' % (ctx.where(mb['path']), tgt))
                continue
            if any('[' in ctx.ty(x) for x in mb['in'][1:]):
                rep.und(key, 'array method: decided by F01/F02')
                continue
            nm += 1
            r, why = method_obligation(ctx, rep, M, key, o, iroles, mb, tgt, I0)
            if r is not True:
                o2, I2 = build(ctx, M, init, lambda p: False)
                if o2 is not None:
                    r, why = method_obligation(ctx, rep, M, key, o2, iroles, mb, tgt, I2, inlined=True)
            rep.put(key, r, '%s::init(params).%s(args) = %s(params, args)' % (s.rsplit('::', 1)[1], mb['name'], mb['name']),
                    '%s: the method %s is not the free function %s at the object\'s parameters (%s)' % (ctx.where(mb['path']), mb['path'][7:], mb['name'], why))
    rep.floor('model objects', n, 84)
    rep.floor('methods compared with their free function', nm, 554)
    return rep.finish('for every method of every model object: the value number of init(params).method(args) equals that of the '
                      'free function of the same module and name, with every parameter taken from the method arguments, the '
                      'constructor parameters, the standard nondimensionalisation of both, or the stored field of that name')


def b02(ctx, rep):
    M = model.get(ctx)
    cl = classes(ctx)
    nf = no = 0
    for s, (init, ms) in sorted(cl.items()):
        iroles = roles_of(ctx, M, init)
        rep.analysed.add(init['path'])
        o, I0 = build(ctx, M, init, lambda p: p.startswith('crate::') and not is_init(p))
        if o is None:
            rep.und('object:' + s[7:], 'constructor outside the domain')
            continue
        for f, v in sorted(o.fs.items()):
            key = 'field:%s.%s' % (s[7:], f)
            v = I0.deref(v)
            if f in iroles:
                nf += 1
                r = t.equal(v, S(f)) if isinstance(v, t.T) else None
                if r is not True:
                    o2, I2 = build(ctx, M, init, lambda p: False)
                    v2 = I2.deref(o2.fs.get(f)) if o2 is not None else None
                    r = t.equal(v2, S(f)) if isinstance(v2, t.T) else r
                rep.put(key, r, 'the field %s holds the constructor parameter %s' % (f, f),
                        '%s: the field %s does not hold the constructor parameter of that name' % (ctx.where(init['path']), f))
            elif isinstance(v, Struct) and v.path in cl:
                no += 1
                d, I1 = build(ctx, M, cl[v.path][0], lambda p: p.startswith('crate::') and not is_init(p))
                if d is None:
                    rep.und(key, 'contained object outside the domain')
                    continue
                r = same_obj(I0, v, I1, d, v.path)
                rep.put(key, r, 'the contained object equals %s::init of the same-named parameters' % v.path[7:],
                        '%s: the object stored in %s is not %s::init of the same-named parameters' % (ctx.where(init['path']), f, v.path[7:]))
            elif f.startswith('nondimensional_') and isinstance(v, t.T):
                x = signed(M.nondim(f, set(iroles)))
                if x is not None:
                    nf += 1
                    rep.put(key, t.decide(v, x), 'the derived field %s is the nondimensional parameter' % f,
                            '%s: the stored %s is not the nondimensionalised constructor parameter' % (ctx.where(init['path']), f))
        # what a submodule offers must hang under the field of the module's name, with the module's own type
        for f, v in o.fs.items():
            v = I0.deref(v)
            if isinstance(v, Struct) and v.path in cl:
                want = s.rsplit('::', 1)[0] + '::' + f
                key = 'place:%s.%s' % (s[7:], f)
                rep.put(key, v.path.rsplit('::', 1)[0] == want, 'the field %s holds the object of the module %s' % (f, want),
                        '%s: the field %s holds an object of another module (%s)' % (ctx.where(init['path']), f, v.path))
        for f in iroles:
            if f not in o.fs and f not in ('number_of_links',) and (s + '.' + f) in PARAMS.get('fields', ()):
                rep.bad('field:%s.%s' % (s[7:], f), 'parameter not stored')
    rep.floor('parameter fields', nf, 338)
    rep.floor('contained objects', no, 60)
    return rep.finish('for every constructor, on symbolic parameters: each field named like a parameter holds that parameter, and '
                      'each contained model object equals the constructor of its own module applied to the same-named parameters')


PARAMS = {}


def same_obj(I, a, J, b, path):
    res = True
    for k in set(a.fs) | set(b.fs):
        if k not in a.fs or k not in b.fs:
            return False
        x, y = I.deref(a.fs[k]), J.deref(b.fs[k])
        if isinstance(x, Struct) and isinstance(y, Struct):
            r = same_obj(I, x, J, y, path) if x.path == y.path else False
        else:
            fx, fy = I.flat(x), J.flat(y)
            r = len(fx) == len(fy)
            if r:
                for p, q in zip(fx, fy):
                    e = t.equal(p, q)
                    r = e if e is not True and r is not False else r
        if r is False:
            return False
        if r is None:
            res = None
    return res


CHECKS = {'B01': b01, 'B02': b02}
