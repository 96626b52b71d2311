"""A02: the Julia package computes exactly the Rust library (functions, constructors, object closures)."""
import os
from .. import terms as t, julia
from ..interp import Interp, Ref, Give, Dead, Struct, FnItem
from ..prep import REPO
from . import bind_c
from .bind_c import index_symbols, exports, symbol, CRATE_FN, give

CT = {'f64': {'Float64', 'Cdouble'}, 'u8': {'UInt8', 'Cuchar'}, 'i32': {'Int32', 'Cint'}, 'u32': {'UInt32', 'Cuint'}, 'u64': {'UInt64'}, 'i64': {'Int64', 'Int'}, 'usize': {'UInt64', 'Csize_t', 'UInt'}}


def rust_mod(path_dir):
    rel = os.path.relpath(path_dir, os.path.join(REPO, 'src'))
    return 'crate' if rel == '.' else 'crate::' + rel.replace(os.sep, '::')


def inline_calls(ctx, term):
    """replace uninterpreted library calls by their inlined abstract value"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            y = t.rebuild(x, go)
            if y.op == 'fn' and y.a[0].startswith('call:'):
                p = y.a[0][5:]
                b = ctx.bodies.get(p)
                if b is not None and len(b['in']) == len(y.a) - 1:
                    I = Interp(ctx.prog)
                    try:
                        v = I.deref(I.run(p, [give(ctx, I, ctx.ty(ti), s) for ti, s in zip(b['in'], y.a[1:])]))
                        y = v if isinstance(v, t.T) else t.top('non-scalar call')
                    except Give as g:
                        y = t.top(str(g))
                    except (Dead, RecursionError):
                        y = t.top('diverges')
            r = memo[x.id] = y
        return r
    return go(term)


def same(ctx, a, b):
    """equality of two terms over uninterpreted library calls, inlining them if congruence does not decide"""
    r = t.equal(a, b, refine=False)
    if r is True:
        return True
    return t.equal(inline_calls(ctx, a), inline_calls(ctx, b))


class CallLog(object):
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        self.ex = {symbol(b): b for b in exports(ctx)}
        self.by = index_symbols(ctx)
        self.sites = set()
        self.checked = {}

    def __call__(self, name, ret, tys, vals, file, line):
        rep = self.rep
        key = 'ccall:%s:%s' % (os.path.relpath(file, REPO), name)
        self.sites.add((file, line))
        b = self.ex.get(name)
        if b is None:
            rep.bad(key, '%s:%s: ccall of %s, which the library does not export' % (file, line, name))
            raise julia.Unsup('unknown symbol')
        tgt = self.by.get(name)
        want = [self.ctx.ty(x) for x in b['in']]
        wret = self.ctx.ty(b['out'])
        okt = len(want) == len(tys) == len(vals) and all(x in CT.get(w, ()) for w, x in zip(want, tys)) and ret in CT.get(wret, ())
        if not okt:
            rep.bad(key, '%s:%s: ccall of %s declares (%s)->%s with %d arguments; the exported function has the C signature (%s)->%s' % (
                file, line, name, ','.join(tys), ret, len(vals), ','.join(want), wret))
            if len(vals) != len(want):
                raise julia.Unsup('arity')
        else:
            rep.ok(key, 'C signature of %s matches its export' % name)
        vs = []
        for v in vals:
            if not isinstance(v, t.T):
                raise julia.Unsup('non-scalar ccall argument')
            vs.append(v)
        if tgt is None:
            raise julia.Unsup('no target')
        return t.fn('call:' + tgt, *vs)


def rust_object(ctx, path, args, opaque):
    I = Interp(ctx.prog, opaque=opaque)
    try:
        return I.deref(I.run(path, args)), I
    except (Give, Dead, RecursionError):
        return None, I


def free_opaque(ctx):
    """library free functions stay uninterpreted, associated functions (init, methods) are inlined"""
    return lambda p: CRATE_FN(p) and ctx.bodies[p]['kind'] == 'Fn' and not p.startswith('crate::math::integrate')


def a02(ctx, rep):
    if 'extern' not in ctx.features:
        rep.bad('build:extern', 'the crate does not type-check with the extern feature')
    root = os.path.join(REPO, 'src/Polymers.jl')
    if not os.path.exists(root):
        rep.bad('root', 'src/Polymers.jl is missing')
        return rep.finish(RULE, level='translation_validation')
    pkg = julia.Package(root)
    log = CallLog(ctx, rep)
    ev = julia.Eval(pkg, log)
    for f, l, txt in pkg.problems:
        if 'not modelled' in txt:
            rep.und('load:%s:%s' % (os.path.relpath(f, REPO), txt), txt)
        else:
            rep.bad('load:%s:%s' % (os.path.relpath(f, REPO), txt), '%s:%s: %s' % (f, l, txt))
    nf = nt = nm = 0
    for m in pkg.mods:
        rm = rust_mod(m.dir)
        rel = os.path.relpath(m.file, REPO)
        for name in sorted(m.names):
            d = m.names[name]
            if isinstance(d, julia.JFunc) and d.mod is m:
                rp = rm + '::' + name
                tb = ctx.bodies.get(rp)
                for meth in d.methods:
                    if tb is None or tb['kind'] != 'Fn':
                        if meth_uses_ccall(meth):
                            rep.bad('func:%s:%s' % (rel, name), '%s:%s: %s calls the library but has no counterpart %s' % (rel, meth.line, name, rp))
                        continue
                    nf += 1
                    rep.analysed.add(rp)
                    one_function(ctx, rep, ev, m, rel, name, meth, rp, tb)
            elif isinstance(d, julia.JType) and d.mod is m:
                rt = rm + '::' + name
                if rt + '::init' in ctx.bodies and d.methods:
                    nt += 1
                    nm += one_type(ctx, rep, ev, rel, d, rt)
    rep.floor('Julia modules reached by include', len(pkg.mods), 86)
    rep.floor('Julia functions with a Rust counterpart', nf, 554)
    rep.floor('Julia model constructors', nt, 78)
    rep.floor('Julia object closures compared', nm, 528)
    rep.floor('ccall sites reached', len(log.sites), 553)
    rep.extra['julia_files'] = len(pkg.included)
    return rep.finish(RULE, level='translation_validation')


RULE = ('every Julia function is evaluated abstractly: its ccall names an export with the declared C types, and its value '
        'number equals that of the Rust function of the same module path and name on the same arguments; every model '
        'constructor yields an object whose stored parameters, submodels and closures equal those of the Rust constructor')


def meth_uses_ccall(m):
    def go(e):
        if isinstance(e, tuple):
            if e[:1] == ('id',) and len(e) > 1 and e[1] == 'ccall':
                return True
            return any(go(x) for x in e)
        if isinstance(e, list):
            return any(go(x) for x in e)
        return False
    return go(m.body)


def one_function(ctx, rep, ev, m, rel, name, meth, rp, tb):
    key = 'func:%s:%s' % (rel, name)
    if len(meth.params) != len(tb['in']):
        rep.bad(key, '%s:%s: %s takes %d parameters, %s takes %d' % (rel, meth.line, name, len(meth.params), rp, len(tb['in'])))
        return
    syms = bind_c.arg_syms(ctx, tb['in'])
    try:
        v = ev.call_meth(meth, list(syms))
    except julia.Unsup as u:
        rep.und(key, 'outside the Julia subset: %s' % u)
        return
    except julia.Undefined as u:
        rep.bad(key, '%s:%s: %s fails when called: %s' % (rel, meth.line, name, u))
        return
    if not isinstance(v, t.T):
        rep.und(key, 'non-scalar value')
        return
    r = same(ctx, v, bind_c.direct(ctx, rp, syms))
    rep.put(key, r, '%s(a0,…) = %s(a0,…)' % (name, rp),
            '%s:%s: Julia %s(a0,…,a%d) evaluates to %s, not to the Rust function of the same path and name' % (rel, meth.line, name, len(syms) - 1, t.show(v)[:160]))


def scalars(v):
    return v if isinstance(v, t.T) else None


def one_type(ctx, rep, ev, rel, d, rt):
    n = 0
    ib = ctx.bodies[rt + '::init']
    rep.analysed.add(rt + '::init')
    key = 'init:%s:%s' % (rel, d.name)
    syms = [t.sym('p%d' % i, 'int' if ctx.ty(x) == 'u8' else 'pos') for i, x in enumerate(ib['in'])]
    meths = [m for m in d.methods if len(m.params) == len(syms)]
    if len(meths) != 1:
        rep.bad(key, '%s: no constructor of %s takes the %d parameters of %s::init' % (rel, d.name, len(syms), rt))
        return 0
    try:
        o = ev.call_meth(meths[0], list(syms))
    except julia.Unsup as u:
        rep.und(key, 'outside the Julia subset: %s' % u)
        return 0
    except julia.Undefined as u:
        rep.bad(key, '%s:%s: the constructor %s fails when called: %s' % (rel, meths[0].line, d.name, u))
        return 0
    if not isinstance(o, julia.JObj) or o.ty is not d:
        rep.bad(key, '%s:%s: the constructor does not return a %s' % (rel, meths[0].line, d.name))
        return 0
    ro, I = rust_object(ctx, rt + '::init', list(syms), free_opaque(ctx))
    if not isinstance(ro, Struct):
        rep.und(key, 'Rust constructor outside the domain')
        return 0
    rep.ok(key, 'constructor of %s evaluated' % rt)
    st = ctx.prog.structs.get(rt)
    pub = {f[0] for f in st['fields']} if st else set()
    for (fname, fty), v in zip(d.fields, o.vals):
        k = 'field:%s:%s.%s' % (rel, d.name, fname)
        n += one_field(ctx, rep, ev, rel, d, rt, fname, v, ro, I, k, meths[0].line)
    return n


def one_field(ctx, rep, ev, rel, d, rt, fname, v, ro, I, k, line):
    if isinstance(v, t.T):
        if fname in ro.fs:
            rv = I.deref(ro.fs[fname])
            if isinstance(rv, t.T):
                rep.put(k, same(ctx, v, rv), '%s.%s = %s' % (d.name, fname, t.show(rv)[:60]),
                        '%s:%s: the object stores %s as %s; the Rust object stores %s' % (rel, line, t.show(v)[:80], fname, t.show(rv)[:80]))
                return 0
        rep.und(k, 'no Rust field of that name')
        return 0
    if isinstance(v, julia.JObj):
        rv = I.deref(ro.fs.get(fname)) if fname in ro.fs else None
        if not isinstance(rv, Struct):
            rep.und(k, 'no Rust submodel of that name')
            return 0
        want = rust_mod(v.ty.mod.dir) + '::' + v.ty.name
        if want != rv.path:
            rep.bad(k, '%s:%s: submodel %s is a %s, the Rust model has %s there' % (rel, line, fname, want, rv.path))
            return 0
        verdict = True
        txt = ''
        for (sf, _), sv in zip(v.ty.fields, v.vals):
            if isinstance(sv, t.T) and sf in rv.fs:
                q = I.deref(rv.fs[sf])
                if isinstance(q, t.T):
                    r = same(ctx, sv, q)
                    if r is False:
                        verdict, txt = False, '%s = %s instead of %s' % (sf, t.show(sv)[:60], t.show(q)[:60])
                        break
                    if r is None:
                        verdict = None
        rep.put(k, verdict, 'submodel %s receives the parent parameters' % fname,
                '%s:%s: submodel %s is constructed with %s' % (rel, line, fname, txt))
        return 0
    if isinstance(v, (julia.JClosure, julia.JFunc)):
        mp = rt + '::' + fname
        mb = ctx.bodies.get(mp)
        if mb is None:
            rep.und(k, 'no Rust method of that name')
            return 0
        rep.analysed.add(mp)
        syms = [t.sym('x%d' % i, 'int' if ctx.ty(x) == '&u8' else 'pos') for i, x in enumerate(mb['in'][1:])]
        try:
            jv = ev.call(v, list(syms))
        except julia.Unsup as u:
            rep.und(k, 'outside the Julia subset: %s' % u)
            return 1
        except julia.Undefined as u:
            rep.bad(k, '%s:%s: %s.%s fails when called with %d arguments: %s' % (rel, line, d.name, fname, len(syms), u))
            return 1
        I2 = Interp(ctx.prog, opaque=free_opaque(ctx))
        I2.store.update(I.store)
        I2.ncell = I.ncell + 1000
        try:
            slf = Ref(I2.new(ro))
            rv = I2.deref(I2.run(mp, [slf] + [give(ctx, I2, ctx.ty(ti), s) for ti, s in zip(mb['in'][1:], syms)]))
        except (Give, Dead, RecursionError) as g:
            rep.und(k, 'Rust method outside the domain: %s' % g)
            return 1
        if not isinstance(jv, t.T) or not isinstance(rv, t.T):
            rep.und(k, 'non-scalar')
            return 1
        rep.put(k, same(ctx, jv, rv), 'object.%s(x…) = Rust object.%s(x…)' % (fname, fname),
                '%s:%s: the object field %s computes %s; the Rust method computes %s' % (rel, line, fname, t.show(jv)[:200], t.show(rv)[:200]))
        return 1
    rep.und(k, 'field of unknown kind')
    return 0


CHECKS = {'A02': a02}
