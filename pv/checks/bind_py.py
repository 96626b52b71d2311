"""A03: the Python classes compute exactly the Rust library objects, elementwise over arrays."""
import re
from fractions import Fraction
from .. import terms as t, core
from ..interp import Interp, Ref, Give, Dead, Struct, Obj, Arr, Tup
from .bind_jl import same, free_opaque, rust_object
from .bind_c import give

PASS = {'as_array', 'into_pyarray', 'to_pyarray', 'to_owned', 'view', 'into_dyn', 'as_array_mut', 'into_pyarray_bound', 'readonly', 'clone', 'into_owned', 'into_gil_ref'}


class PyInterp(Interp):
    """abstract numpy arrays: one representative element; every operation has to act elementwise"""

    def method(self, n, p, recv, args, e):
        v = self.deref(recv)
        if isinstance(v, Obj) and v.kind == 'ndlist':
            if n in PASS or n == 'to_dyn':
                return v
            if n in ('iter', 'into_iter', 'map', 'mapv', 'len'):
                r = super().method(n if n != 'mapv' else 'map', p, v.arr, args, e)
                return Obj('ndlist', arr=self.deref(r)) if n in ('map', 'mapv') else r
            return t.top('numpy method ' + n)
        if isinstance(v, Obj) and v.kind == 'ndarray':
            if n in PASS:
                return v
            if n in ('mapv', 'map', 'mapv_into', 'map_mut'):
                a = v.elem if n.startswith('mapv') else Ref(self.new(v.elem))
                return Obj('ndarray', elem=self.call_value(args[0], [a]))
            if n in ('iter', 'into_iter'):
                return t.top('iteration over a numpy array')
            return t.top('numpy method ' + n)
        return super().method(n, p, recv, args, e)


    def std_call(self, path, args, node=None):
        if path.rsplit('::', 1)[-1] in ('from_vec', 'from_slice', 'from_iter', 'from_owned_array') and 'PyArray' in path and len(args) == 2:
            v = self.deref(args[1])
            if isinstance(v, Arr):
                return Obj('ndlist', arr=v)
        return super().std_call(path, args, node)


def is_py_type(ty):
    return 'Python<' in ty


def is_array_type(ty):
    return 'PyReadonlyArray' in ty or 'PyArray' in ty


def py_counterpart(path):
    """crate::a::py::S -> crate::a::S"""
    return path.replace('::py::', '::')


def opq(ctx):
    f = free_opaque(ctx)
    return lambda p: f(p) and '::py::' not in p


def pyclasses(ctx):
    out = []
    for s in ctx.prog.structs.values():
        if '::py::' in s['path'] and '::_' not in s['path'] and not s.get('exp'):
            out.append(s)
    return out


def pymethods(ctx, spath):
    pre = spath + '::'
    return [b for b in ctx.prog.allbodies if b['kind'] == 'AssocFn' and b['path'].startswith(pre) and not b.get('exp')
            and '::' not in b['path'][len(pre):]]


def a03(ctx, rep):
    if 'python' not in ctx.features:
        rep.bad('build:python', 'the crate does not type-check with the python feature: ' + ctx.dump.get('log', '')[-800:])
    nc = nm = 0
    for s in pyclasses(ctx):
        path = s['path']
        rp = py_counterpart(path)
        rs = ctx.prog.structs.get(rp)
        meths = pymethods(ctx, path)
        if not meths:
            continue
        nc += 1
        rep.analysed.add(path)
        short = path[len('crate::'):]
        if rs is None or rp + '::init' not in ctx.bodies:
            rep.bad('class:' + short, '%s:%s: the Python class has no Rust counterpart %s' % (s['file'], s['line'], rp))
            continue
        ib = ctx.bodies[rp + '::init']
        pb = ctx.bodies.get(path + '::init')
        if pb is None or [ctx.ty(x) for x in pb['in']] != [ctx.ty(x) for x in ib['in']]:
            rep.bad('init:' + short, '%s:%s: the Python constructor does not take the parameters of %s::init' % (s['file'], s['line'], rp))
            continue
        syms = [t.sym('p%d' % i, 'int' if ctx.ty(x) == 'u8' else 'real') for i, x in enumerate(ib['in'])]
        po, I = run_init(ctx, path + '::init', syms)
        ro, J = run_init(ctx, rp + '::init', syms)
        if not isinstance(po, Struct) or not isinstance(ro, Struct):
            rep.und('init:' + short, 'constructor outside the domain')
            continue
        rep.ok('init:' + short, 'constructor evaluated')
        for f, v in sorted(po.fs.items()):
            compare_field(ctx, rep, short, f, I.deref(v), J.deref(ro.fs[f]) if f in ro.fs else None, I, J, pb)
        for b in meths:
            if b['name'] == 'init':
                continue
            nm += compare_method(ctx, rep, short, b, path, rp, po, ro, I, J)
    rep.floor('Python classes', nc, 79)
    rep.floor('Python methods compared', nm, 528)
    return rep.finish(RULE, level='translation_validation')


RULE = ('for every #[pyclass]: its constructor stores the same parameters and submodels as the Rust constructor, and the value '
        'number of every element of the array a method returns equals that of the Rust method on the corresponding element')


def run_init(ctx, path, syms):
    I = PyInterp(ctx.prog, opaque=opq(ctx))
    try:
        return I.deref(I.run(path, list(syms))), I
    except (Give, Dead, RecursionError):
        return None, I


def leaf_values(v, I, prefix=''):
    v = I.deref(v)
    if isinstance(v, t.T):
        return {prefix: v}
    if isinstance(v, Struct):
        out = {}
        for k in v.fs:
            x = I.deref(v.fs[k])
            if isinstance(x, t.T):
                out[prefix + '.' + k] = x
        return out
    return None


def compare_field(ctx, rep, short, f, pv, rv, I, J, pb):
    key = 'field:%s.%s' % (short, f)
    loc = '%s:%s' % (pb['file'], pb['line'])
    if rv is None:
        rep.und(key, 'no Rust field of that name')
        return
    if isinstance(pv, Struct):
        if not isinstance(rv, Struct) or py_counterpart(pv.path) != rv.path:
            rep.bad(key, '%s: submodel %s is a %s, the Rust model has a %s' % (loc, f, pv.path, getattr(rv, 'path', '?')))
            return
    a, b = leaf_values(pv, I), leaf_values(rv, J)
    if a is None or b is None:
        fa, fb = flat(I, pv), flat(J, rv)
        if fa is None or fb is None or len(fa) != len(fb):
            rep.und(key, 'field outside the domain')
            return
        a, b = dict(enumerate(fa)), dict(enumerate(fb))
    verdict = True
    txt = ''
    for k in a:
        if k not in b:
            verdict = None if verdict else verdict
            continue
        r = same(ctx, a[k], b[k])
        if r is False:
            verdict, txt = False, '%s%s = %s instead of %s' % (f, k, t.show(a[k])[:60], t.show(b[k])[:60])
            break
        if r is None:
            verdict = None
    rep.put(key, verdict, 'Python %s.%s = Rust value' % (short, f), '%s: the Python object is built with %s' % (loc, txt))


def flat(I, v):
    try:
        fl = I.flat(v)
    except Give:
        return None
    return fl


def compare_method(ctx, rep, short, b, path, rp, po, ro, I, J):
    name = b['name']
    key = 'method:%s.%s' % (short, name)
    loc = '%s:%s' % (b['file'], b['line'])
    mb = ctx.bodies.get(rp + '::' + name)
    if mb is None:
        rep.und(key, 'no Rust method of that name')
        return 0
    rep.analysed.add(b['path'])
    rep.analysed.add(mb['path'])
    tys = [ctx.ty(x) for x in b['in']][1:]
    data = [x for x in tys if not is_py_type(x)]
    rtys = [ctx.ty(x) for x in mb['in']][1:]
    if len(data) != len(rtys):
        rep.bad(key, '%s: %s takes %d arguments, the Rust method takes %d' % (loc, name, len(data), len(rtys)))
        return 1
    if any(x.replace('&', '').startswith('[f64') for x in rtys):
        return compare_history(ctx, rep, key, loc, b, mb, tys, rtys, po, ro, I, J)
    syms = [t.sym('x%d' % i, 'int' if 'u8' in x else 'real') for i, x in enumerate(rtys)]
    k = 0
    args = []
    P = PyInterp(ctx.prog, opaque=opq(ctx))
    P.store.update(I.store)
    P.ncell = I.ncell + 1000
    for x in tys:
        if is_py_type(x):
            args.append(Obj('py'))
        elif is_array_type(x):
            args.append(Obj('ndarray', elem=syms[k]))
            k += 1
        else:
            args.append(give(ctx, P, x, syms[k]))
            k += 1
    try:
        pv = P.deref(P.run(b['path'], [Ref(P.new(po))] + args))
    except (Give, Dead, RecursionError) as g:
        rep.und(key, 'outside the domain: %s' % g)
        return 1
    R = PyInterp(ctx.prog, opaque=opq(ctx))
    R.store.update(J.store)
    R.ncell = J.ncell + 1000
    try:
        rv = R.deref(R.run(mb['path'], [Ref(R.new(ro))] + [give(ctx, R, x, s) for x, s in zip(rtys, syms)]))
    except (Give, Dead, RecursionError) as g:
        rep.und(key, 'Rust method outside the domain: %s' % g)
        return 1
    if isinstance(pv, Obj) and pv.kind == 'ndarray':
        pv = P.deref(pv.elem)
        if not any(is_array_type(x) for x in tys):
            pv = t.top('array from nowhere')
    if not isinstance(pv, t.T) or not isinstance(rv, t.T):
        rep.und(key, 'non-scalar value')
        return 1
    rep.put(key, same(ctx, pv, rv), '%s(x…)[i] = Rust %s(x[i]…)' % (name, name),
            '%s: Python %s computes %s; the Rust method computes %s' % (loc, name, t.show(pv)[:200], t.show(rv)[:200]))
    return 1


def tabular(ctx, seen):
    """free functions that return arrays: one symbol per component, applied to every value they are given"""
    hooks = {}
    for q, x in ctx.bodies.items():
        if x['kind'] == 'Fn' and '::py::' not in q:
            m = re.match(r'\[f64; (\d+)\]$', ctx.ty(x['out'])) if 'out' in x else None
            if m:
                def hook(I, a, q=q, n=int(m.group(1))):
                    vals = []
                    for y in a:
                        f = flat(I, I.deref(y))
                        vals += f if f is not None else [t.top('argument outside the domain')]
                    return Arr([t.fn('component %d of %s' % (i, q), *vals) for i in range(n)])
                hooks[q] = hook
    return hooks


def compare_history(ctx, rep, key, loc, b, mb, tys, rtys, po, ro, I, J):
    """a method over a whole history: arrays of 1 to 3 symbols on both sides; Python returns one array per component"""
    done = 0
    long = sorted({c + d for c in core.int_literals(ctx, [b['path'], mb['path']]) for d in (0, 1, 2) if 3 < c + d <= 600} | {130})
    for L in [1, 2, 3] + long:
        hist = [Arr([t.sym('h%d_%d' % (i, j), 'real') if L <= 3 else t.num(Fraction(100 + (37 * j + 11 + i) % 89 + (100 if j in (1, L // 2) else 0), 100))
                     for j in range(L)]) for i, x in enumerate(rtys)]
        kk = '%s:%d' % (key, L)
        P = PyInterp(ctx.prog, opaque=opq(ctx), hooks=tabular(ctx, None))
        P.store.update(I.store)
        P.ncell = I.ncell + 1000
        it = iter(hist)
        args = [Obj('py') if is_py_type(x) else Obj('ndlist', arr=next(it)) for x in tys]
        R = PyInterp(ctx.prog, opaque=opq(ctx), hooks=tabular(ctx, None))
        R.store.update(J.store)
        R.ncell = J.ncell + 1000
        try:
            pv = P.deref(P.run(b['path'], [Ref(P.new(po))] + args))
            rv = R.deref(R.run(mb['path'], [Ref(R.new(ro))] + hist, {'L': t.num(L)}))
            cols = [P.deref(x) for x in (pv if isinstance(pv, Tup) else [pv])]
            cols = [[P.scalar(y) for y in (x.arr if isinstance(x, Obj) and x.kind == 'ndlist' else [])] for x in cols]
            rows = [R.deref(x) for x in rv]
            rows = [[R.scalar(y) for y in (x if isinstance(x, Arr) else [x])] for x in rows]
        except (Give, Dead, RecursionError, TypeError) as g:
            rep.und(kk, 'outside the domain: %s' % g)
            continue
        if len(rows) != L or any(len(c) != L for c in cols) or any(len(r) != len(cols) for r in rows):
            rep.und(kk, 'shapes %s and %s' % ([len(c) for c in cols], [len(r) for r in rows]))
            continue
        verdict, txt = True, ''
        for i in range(L):
            for c in range(len(cols)):
                r = t.equal(cols[c][i], rows[i][c])
                if r is False:
                    verdict, txt = False, 'component %d of step %d of a history of %d is %s; the Rust method returns %s' % (c, i, L, t.show(cols[c][i])[:200], t.show(rows[i][c])[:200])
                elif r is not True and verdict:
                    verdict = None
        rep.put(kk, verdict, '%s(history) = Rust %s(history)' % (b['name'], b['name']), '%s: %s' % (loc, txt))
        done = 1
    return done


CHECKS = {'A03': a03}
