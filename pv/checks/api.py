"""A04: every library function is offered, under its own name, by every language interface."""
import os, re
from .. import terms as t, model, julia, holds
from ..interp import Interp, Obj, Give, Dead, Tup
from ..prep import REPO
from .bind_c import index_symbols, exports, symbol
from .bind_obj import classes
from .bind_jl import rust_mod
from .thermo import Armed


class RegInterp(Interp):
    """abstract execution of the module registration: which class is added to which dotted module"""

    def __init__(self, prog, ev):
        super().__init__(prog)
        self.evts = ev

    def x_Match(self, e, env, fr):
        if e.get('src') == 'try' and e['h'].get('k') == 'Call' and e['h']['a']:
            return self.ev(e['h']['a'][0], env, fr)
        return super().x_Match(e, env, fr)

    def std_call(self, path, args, node=None):
        if path.endswith('PyModule::new') or path.endswith('PyModule::new_bound'):
            n = self.deref(args[-1])
            name = n.a[0] if isinstance(n, t.T) and n.op == 'sym' else getattr(n, 'text', None)
            if name is None and node is not None:
                a = node['a'][-1]
                name = a['v'][1] if a.get('k') == 'Lit' else None
            self.fresh += 1
            return Obj('pymodule', name=name, uid=self.fresh)
        if path.endswith('::Ok') or path.endswith('::Some'):
            return args[0]
        return super().std_call(path, args, node)

    def method(self, n, p, recv, args, e):
        v = self.deref(recv)
        if isinstance(v, Obj) and v.kind == 'pymodule':
            if n == 'add_submodule':
                s = self.deref(args[0])
                if isinstance(s, Obj):
                    self.evts.append(('sub', v.uid, s.uid, s.name))
                return Tup()
            if n == 'add_class':
                self.evts.append(('class', v.uid, (e.get('g') or ['?'])[0]))
                return Tup()
            return Tup()
        if n in ('unwrap', 'expect') and isinstance(v, Obj):
            return v
        return super().method(n, p, recv, args, e)


def registration(ctx):
    """{class path: {dotted module}}"""
    ev = []
    root = None
    for b in ctx.prog.allbodies:
        if b['path'] == 'crate::py::polymers':
            root = b
    if root is None:
        return None
    I = RegInterp(ctx.prog, ev)
    try:
        I.run(root['path'], [Obj('pymodule', name='polymers', uid=0) if 'PyModule' in ctx.ty(x) else Obj('py') for x in root['in']])
    except (Give, Dead, RecursionError) as g:
        return None
    name = {0: ['polymers']}
    parent = {}
    for e in ev:
        if e[0] == 'sub':
            parent.setdefault(e[2], []).append((e[1], e[3]))

    def dotted(u, seen=()):
        if u == 0:
            return ['polymers']
        if u in seen:
            return []
        return [d + '.' + str(n) for p, n in parent.get(u, []) for d in dotted(p, seen + (u,))]
    out = {}
    for e in ev:
        if e[0] == 'class':
            out.setdefault(e[2], set()).update(dotted(e[1]))
    return out


def a04(ctx, rep):
    M = model.get(ctx)
    A = Armed(rep, 'A04')
    index_symbols(ctx)
    syms = {symbol(b) for b in exports(ctx)}
    pkg = julia.Package(os.path.join(REPO, 'src', 'Polymers.jl'))
    jl = {}
    for m in pkg.mods:
        jl.setdefault(rust_mod(m.dir), m)
    py = {}
    pynames = {}
    for b in ctx.prog.allbodies:
        mm = re.match(r'(crate::.*::py)::_::<impl (crate::[^>]*::py::(\w+))>::__pymethod_(\w+)__$', b['path'])
        if mm:
            n = mm.group(4)
            py.setdefault(mm.group(2), set()).add(n)
        mm = re.search(r'<impl pyo3::PyTypeInfo for (crate::[^>]*)>::NAME$', b['path'])
        if mm and b['body'] and b['body'].get('k') == 'Lit':
            pynames[mm.group(1)] = b['body']['v'][1]
    reg = registration(ctx)
    if reg is None:
        rep.und('python-registration', 'the module registration is outside the domain')
    cl = classes(ctx)
    by_mod = {s.rsplit('::', 1)[0]: s for s in cl}
    nfn = 0

    def what(key, cond, good, bad):
        A.put(key, bool(cond), good, bad)
    for mod in sorted(set(M.mods) | set(by_mod)):
        s = by_mod.get(mod)
        fns = dict(M.mods.get(mod, {}))
        if not mod.startswith('crate::physics'):
            fns = {b['name']: b for b in ctx.prog.allbodies if b['kind'] == 'Fn' and b['path'].rsplit('::', 1)[0] == mod and not b['no_mangle']}
        jm = jl.get(mod)
        pc = mod + '::py::' + s.rsplit('::', 1)[1] if s else None
        for n in sorted(fns):
            b = fns[n]
            if b['vis'] != 'Public':
                continue
            nfn += 1
            sh = (mod + '::' + n)[7:]
            rep.analysed.add(b['path'])
            loc = ctx.where(b['path'])
            what('c:' + sh, (mod + '::' + n)[7:].replace('::', '_') in syms, 'exported to C', '%s: %s has no exported C symbol' % (loc, sh))
            what('julia:' + sh, jm is not None and isinstance(jm.names.get(n), (julia.JFunc, julia.JType)),
                 'offered by the Julia module', '%s: the Julia package has no function %s' % (loc, sh))
            if s and n != 'init':
                what('method:' + sh, (s + '::' + n) in ctx.bodies, 'offered as a method', '%s: %s has no method %s' % (loc, s[7:], n))
                what('python:' + sh, n in py.get(pc, ()), 'offered by the Python class', '%s: the Python class %s has no method %s' % (loc, (pc or '')[7:], n))
        if s:
            sh = s[7:]
            sn = s.rsplit('::', 1)[1]
            loc = ctx.where(cl[s][0]['path'])
            jt = jm.names.get(sn) if jm is not None else None
            what('julia-type:' + sh, isinstance(jt, julia.JType), 'the Julia module has the object type', '%s: the Julia package has no type %s' % (loc, sh))
            if isinstance(jt, julia.JType):
                for m in cl[s][1]:
                    what('julia-closure:%s.%s' % (sh, m['name']), m['name'] in field_names(jt), 'the Julia object offers it',
                         '%s: the Julia type %s has no field %s' % (loc, sh, m['name']))
            what('python-class:' + sh, pc in py, 'the Python class exists', '%s: there is no Python class for %s' % (loc, sh))
            for r in M.roles.get(cl[s][0]['path'], []):
                what('python-get:%s.%s' % (sh, r), 'get_' + r in py.get(pc, ()) or r in py.get(pc, ()), 'the parameter is readable from Python',
                     '%s: the Python class %s does not expose %s' % (loc, sh, r))
            st = ctx.prog.structs.get(s)
            for f in struct_fields(st):
                what('python-sub:%s.%s' % (sh, f), 'get_' + f in py.get(pc, ()) or f in py.get(pc, ()), 'the field is readable from Python',
                     '%s: the Python class %s does not expose %s' % (loc, sh, f))
                if isinstance(jt, julia.JType):
                    what('julia-sub:%s.%s' % (sh, f), f in field_names(jt), 'the field exists on the Julia object',
                         '%s: the Julia type %s has no field %s' % (loc, sh, f))
            if reg is not None:
                dot = 'polymers.' + mod[7:].replace('::', '.')
                what('python-registered:' + sh, dot in reg.get(pc, ()) or (mod.startswith('crate::constitutive') and dot.rsplit('.', 1)[0] in reg.get(pc, ())), 'registered as ' + dot,
                     '%s: the Python class %s is not registered in the module %s' % (loc, sh, dot))
            what('python-name:' + sh, pynames.get(pc) == sn, 'the Python class is named ' + sn, '%s: the Python class of %s is called %s' % (loc, sh, pynames.get(pc)))
    rep.extra['python classes registered'] = len(reg or ())
    rep.floor('public library functions', nfn, 559)
    A.close()
    return rep.finish('for every public function of every physics and constitutive module: an exported C symbol, a Julia function in the '
                      'module reached by include, a method of the module\'s object and an exposed Python method exist; each Python '
                      'class is added, by abstract execution of the registration functions, to the dotted module of its Rust module')


def field_names(jt):
    return {f[0] if isinstance(f, (list, tuple)) else f for f in jt.fields}


def struct_fields(st):
    out = []
    for f in (st or {}).get('fields', (st or {}).get('fs', [])):
        n = f[0] if isinstance(f, (list, tuple)) else f.get('n')
        v = f[-1] if isinstance(f, (list, tuple)) else f.get('vis')
        if v is None or 'Public' in str(v):
            out.append(n)
    return out


CHECKS = {'A04': a04}
