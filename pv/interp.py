"""Abstract interpreter over the resolved HIR: computes, for a function body, the expression (terms.T) of its result in
terms of its parameters.  Branches are joined with ite, finite loops over symbolic ranges are summarised as sums/products
by their induction variables, everything outside the domain becomes TOP (undecided)."""
import re
import struct
import sys
import os
from fractions import Fraction
from . import terms as t
from .terms import T, num
from .ranges import TYPES

UNROLL = 24
F64_CONST = {'MAX': Fraction(sys.float_info.max), 'MIN': -Fraction(sys.float_info.max), 'EPSILON': Fraction(sys.float_info.epsilon),
             'MIN_POSITIVE': Fraction(sys.float_info.min), 'INFINITY': Fraction(10) ** 400, 'NEG_INFINITY': -Fraction(10) ** 400}
FLOATS = {'f64', 'f32'}


def single(q):
    """the nearest number in single precision"""
    return Fraction(struct.unpack('f', struct.pack('f', float(q)))[0])

INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}


class Arr(tuple):
    pass


class Tup(tuple):
    pass


class Struct(object):
    def __init__(self, path, fs):
        self.path = path
        self.fs = fs

    def __eq__(self, o):
        return isinstance(o, Struct) and self.path == o.path and self.fs == o.fs

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return 'Struct<%s>%r' % (self.path, self.fs)


class Variant(object):
    def __init__(self, name, args=()):
        self.name = name
        self.args = tuple(args)

    def __eq__(self, o):
        return isinstance(o, Variant) and self.name == o.name and self.args == o.args

    def __hash__(self):
        return hash(self.name)


class Comp(object):
    """array/vector given by comprehension: dims [(var, n)], element"""
    def __init__(self, dims, elem):
        self.dims = tuple(dims)
        self.elem = elem

    def __eq__(self, o):
        return isinstance(o, Comp) and self.dims == o.dims and self.elem == o.elem

    def __hash__(self):
        return hash(self.dims)


class Range(object):
    def __init__(self, lo, hi):      # half-open
        self.lo = lo
        self.hi = hi


class It(object):
    """iterator: concrete list of items, or comprehension"""
    def __init__(self, items=None, dims=None, elem=None):
        self.items = items
        self.dims = dims
        self.elem = elem


class Ref(object):
    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))


class Closure(object):
    def __init__(self, ps, body, env, fr):
        self.ps = ps
        self.body = body
        self.env = env
        self.fr = fr


class FnItem(object):
    def __init__(self, path, g=()):
        self.path = path
        self.g = g

    def __eq__(self, o):
        return isinstance(o, FnItem) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Obj(object):
    """opaque stateful or library object"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __eq__(self, o):
        return isinstance(o, Obj) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(self.kind)


RANGE = {'%s%d' % (k, n): (0 if k == 'u' else -2 ** (n - 1), 2 ** (n if k == 'u' else n - 1) - 1) for k in 'ui' for n in (8, 16, 32, 64, 128)}
RANGE['usize'], RANGE['isize'] = RANGE['u64'], RANGE['i64']
BIG = ('i32', 'u32', 'i64', 'u64', 'i128', 'u128', 'usize', 'isize')     # wide enough for every count of the library; D03 judges the rest
DEBUG = bool(os.environ.get('PV_DEBUG'))
INTERNAL = (KeyError, AttributeError, TypeError, IndexError, ValueError, ArithmeticError, AssertionError)   # shapes nobody foresaw


class Dead(Exception):
    """current path does not continue (return/break/continue/panic)"""


class Give(Exception):
    """construct outside the domain"""


UNIT = Tup()


class Frame(object):
    def __init__(self, path, generics):
        self.path = path
        self.exits = []           # (pc, value, store)
        self.generics = generics
        self.base = 0


class Program(object):
    def __init__(self, dump):
        self.types = dump['types']
        self.bodies = {}
        self.dups = set()
        for b in dump['bodies']:
            if b['path'] in self.bodies:
                self.dups.add(b['path'])
            self.bodies[b['path']] = b
        self.structs = {s['path']: s for s in dump['structs']}
        self.mods = dump['mods']
        self.allbodies = dump['bodies']

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else ''


MATH = 'crate::math::'
INV_FNS = {MATH + 'inverse_newton_raphson': 0, MATH + 'inverse_newton_raphson_powered': 0}
STD_CONST = {
    'PI': lambda: t.PI, 'TAU': lambda: t.mul(num(2), t.PI), 'FRAC_PI_2': lambda: t.div(t.PI, num(2)),
    'FRAC_PI_3': lambda: t.div(t.PI, num(3)), 'FRAC_PI_4': lambda: t.div(t.PI, num(4)), 'FRAC_PI_6': lambda: t.div(t.PI, num(6)),
    'FRAC_PI_8': lambda: t.div(t.PI, num(8)), 'FRAC_1_PI': lambda: t.div(t.ONE, t.PI), 'FRAC_2_PI': lambda: t.div(num(2), t.PI),
    'FRAC_2_SQRT_PI': lambda: t.mul(num(2), t.power(t.PI, num(Fraction(-1, 2)))), 'SQRT_2': lambda: t.sqrt(num(2)),
    'FRAC_1_SQRT_2': lambda: t.power(num(2), num(Fraction(-1, 2))), 'E': lambda: t.exp(t.ONE), 'LN_2': lambda: t.ln(num(2)), 'LN_10': lambda: t.ln(num(10)),
}


class Interp(object):
    def __init__(self, prog, opaque=None, summaries=True, const_syms=None, hooks=None, maxdepth=60):
        self.p = prog
        self.opaque = opaque or (lambda path: False)
        self.summaries = summaries
        self.hooks = hooks or {}
        self.store = {}
        self.rngcell = None
        self.ncell = 0
        self.fresh = 0
        self.pc = []
        self.depth = 0
        self.flatlevel = 0
        self.maxdepth = maxdepth
        self.loops = []
        self.calls = []          # recorded (path) of inlined/opaque calls
        self.inv_sites = []      # recorded newton sites
        self.panics = []
        self.statics = {}
        self.const_syms = const_syms or {}
        self.fuel = 400000
        self.visited = set()
        self.events = None       # when a list: integer operations, narrowing casts, indexing, panics with their path conditions
        self.idxn = {}           # iteration variable -> number of iterations

    # -------------------------------------------------------------------------------- cells
    def new(self, v):
        self.ncell += 1
        self.store[self.ncell] = v
        return self.ncell

    def readp(self, v, path):
        for k in path:
            if isinstance(v, Ref):
                v = self.deref(v)
            v = self.field(v, k)
        return v

    def field(self, v, k):
        if isinstance(v, Ref):
            v = self.deref(v)
        if isinstance(v, T):
            if v.op == 'top':
                return v
            if v.op == 'fn' and v.a[0].startswith(('call:', 'proj:')) and not isinstance(k, T):
                return t.fn('proj:%s' % (k,), v)      # component of an uninterpreted aggregate
            return t.top('field %s of scalar' % (k,))
        if isinstance(v, Struct):
            if k in v.fs:
                return v.fs[k]
            return t.top('field ' + str(k))
        if isinstance(v, (Arr, Tup)):
            if isinstance(k, T):
                if k.op == 'num':
                    k = int(k.a[0])
                else:
                    return self.symindex(v, k)
            k = int(k)
            if 0 <= k < len(v):
                return v[k]
            return t.top('index out of range')
        if isinstance(v, Comp):
            return self.compindex(v, k)
        if isinstance(v, Obj):
            return v.__dict__.get(k, t.top('field of %s' % v.kind))
        return t.top('field of %s' % type(v).__name__)

    def symindex(self, v, k):
        if all(isinstance(x, T) for x in v):
            return t.fn('select', k, *v)
        return t.top('symbolic index')

    def compindex(self, v, k):
        if not isinstance(k, T):
            k = num(k)
        var, n = v.dims[0]
        e = self.sub_idx(v.elem, var, k)
        if len(v.dims) > 1:
            return Comp(v.dims[1:], e)
        return e

    def sub_idx(self, v, var, k):
        if isinstance(v, T):
            return t.subst_idx(v, var, k)
        if isinstance(v, Arr):
            return Arr(self.sub_idx(x, var, k) for x in v)
        if isinstance(v, Tup):
            return Tup(self.sub_idx(x, var, k) for x in v)
        if isinstance(v, Struct):
            return Struct(v.path, {a: self.sub_idx(b, var, k) for a, b in v.fs.items()})
        if isinstance(v, Comp):
            return Comp([(a, t.subst_idx(n, var, k)) for a, n in v.dims], self.sub_idx(v.elem, var, k))
        return v

    def deref(self, v):
        n = 0
        while isinstance(v, Ref):
            v = self.readp(self.store[v.cell], v.path)
            n += 1
            if n > 50:
                return t.top('ref cycle')
        return v

    def write(self, ref, v):
        self.store[ref.cell] = self.upd(self.store[ref.cell], list(ref.path), v)

    def upd(self, old, path, v):
        if not path:
            return v
        k = path[0]
        if isinstance(old, Ref):
            self.write(Ref(old.cell, old.path + tuple(path)), v)
            return old
        if isinstance(k, T) and k.op == 'num':
            k = int(k.a[0])
        if isinstance(old, Struct):
            fs = dict(old.fs)
            fs[k] = self.upd(fs.get(k, t.top('field')), path[1:], v)
            return Struct(old.path, fs)
        if isinstance(old, (Arr, Tup)):
            if isinstance(k, T):
                # weak update at a symbolic index
                return type(old)(self.merge(t.eq(k, num(i)), self.upd(x, path[1:], v), x) for i, x in enumerate(old)) if len(old) <= 16 else t.top('symbolic write')
            k = int(k)
            if not 0 <= k < len(old):
                return t.top('index out of range')
            l = list(old)
            l[k] = self.upd(l[k], path[1:], v)
            return type(old)(l)
        if isinstance(old, T) and old.op == 'top':
            return old
        return t.top('write into %s' % type(old).__name__)

    # -------------------------------------------------------------------------------- merging
    def opt(self, c, v):
        if c == t.TRUE:
            return Variant('Some', [v])
        if c == t.FALSE:
            return Variant('None')
        return Obj('opt', c=c, v=v)

    def as_opt(self, x):
        if isinstance(x, Variant) and x.name in ('Some', 'None'):
            return (t.TRUE, x.args[0]) if x.name == 'Some' else (t.FALSE, None)
        if isinstance(x, Obj) and x.kind == 'opt':
            return x.c, x.v
        return None

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (Variant, Obj)) and isinstance(b, (Variant, Obj)):
            x, y = self.as_opt(a), self.as_opt(b)
            if x is not None and y is not None:
                v = y[1] if x[1] is None else x[1] if y[1] is None else self.merge(c, x[1], y[1])
                return self.opt(t.bor(t.band(c, x[0]), t.band(t.bnot(c), y[0])), v)
        if isinstance(a, T) and isinstance(b, T):
            return t.ite(c, a, b)
        if isinstance(a, (Ref,)) and not isinstance(b, Ref):
            a = self.deref(a)
            return self.merge(c, a, b)
        if isinstance(b, Ref) and not isinstance(a, Ref):
            return self.merge(c, a, self.deref(b))
        if type(a) is type(b):
            if isinstance(a, (Arr, Tup)) and len(a) == len(b):
                return type(a)(self.merge(c, x, y) for x, y in zip(a, b))
            if isinstance(a, Struct) and a.path == b.path and set(a.fs) == set(b.fs):
                return Struct(a.path, {k: self.merge(c, a.fs[k], b.fs[k]) for k in a.fs})
            try:
                if a == b:
                    return a
            except Exception:
                pass
        return t.top('join of %s and %s' % (type(a).__name__, type(b).__name__))

    def merge_store(self, c, s1, s2):
        if s1 is s2:
            return dict(s1)
        out = dict(s2)
        for k, v in s1.items():
            w = out.get(k, None)
            if k not in s2:
                out[k] = v
            elif w is not v:
                out[k] = self.merge(c, v, w)
        return out

    # -------------------------------------------------------------------------------- calls
    def run(self, path, args, generics=None):
        self.root = path
        """analyse a function applied to abstract arguments"""
        b = self.p.bodies.get(path)
        if b is None:
            raise Give('no function ' + path)
        return self.call_body(b, args, generics or {})

    def call_body(self, b, args, generics):
        if self.depth > self.maxdepth:
            return t.top('inlining depth')
        self.visited.add(b['path'])
        fr = Frame(b['path'], generics)
        fr.base = len(self.pc)
        env = {}
        self.depth += 1
        try:
            for p, a in zip(b['ps'], args):
                self.bind(p, a, env, fr)
            try:
                v = self.ev(b['body'], env, fr)
                dead = False
            except Dead:
                dead = True
                v = None
            return self.fold_exits(fr, v, dead)
        finally:
            self.depth -= 1
            del self.pc[fr.base:]

    def fold_exits(self, fr, v, dead):
        st = self.store
        exits = fr.exits
        if dead:
            if not exits:
                raise Dead()
            pc, v, st = exits[-1]
            exits = exits[:-1]
        for pc, ev_, es in reversed(exits):
            c = t.TRUE
            for x in pc:
                c = t.band(c, x)
            v = self.merge(c, ev_, v)
            st = self.merge_store(c, es, st)
        self.store = dict(st)
        return v

    def call_value(self, f, args, node=None):
        f = self.deref(f)
        if isinstance(f, Closure):
            if self.depth > self.maxdepth:
                return t.top('inlining depth')
            self.depth += 1
            fr = Frame(f.fr.path + '::{closure}', f.fr.generics)
            fr.base = len(self.pc)
            env = dict(f.env)
            try:
                for p, a in zip(f.ps, args):
                    self.bind(p, a, env, fr)
                try:
                    v = self.ev(f.body, env, fr)
                    dead = False
                except Dead:
                    v, dead = None, True
                return self.fold_exits(fr, v, dead)
            finally:
                self.depth -= 1
                del self.pc[fr.base:]
        if isinstance(f, FnItem):
            return self.call_path(f.path, f.g, args, node)
        return t.top('call of unknown function value')

    def call_path(self, path, g, args, node=None):
        h = self.hooks.get(path)
        if h is not None:
            r = h(self, args)
            if r is not NotImplemented:
                return r
        b = self.p.bodies.get(path)
        if b is not None and b['kind'] in ('Fn', 'AssocFn'):
            self.calls.append(path)
            if self.opaque(path):
                return self.opaque_call(path, args)
            if self.summaries:
                r = self.summary(path, args, node)
                if r is not None:
                    return r
            gens = {}
            own = b.get('generics') or []
            if own and g:
                gs = [x for x in g]
                for nme, x in zip(own, gs[-len(own):]):
                    gens[nme] = x
            caller_g = self.cur_generics()
            gens = {k: caller_g.get(x, x) for k, x in gens.items()}
            return self.call_body(b, args, gens)
        return self.std_call(path, args, node)

    _gstack = None

    def cur_generics(self):
        return self._gs[-1] if getattr(self, '_gs', None) else {}

    def flat(self, a):
        a = self.deref(a)
        if isinstance(a, T):
            return [a]
        if isinstance(a, (Arr, Tup)):
            return [num(len(a))] + [y for x in a for y in self.flat(x)]
        if isinstance(a, Struct):
            return [y for k in sorted(a.fs) for y in self.flat(a.fs[k])]
        if isinstance(a, Comp):
            e = a.elem
            for var, n in a.dims:
                if not isinstance(e, T):
                    return [t.top('flat comp')]
                e = t.mk('sum', var, n, t.fn('elem', e))
            return [e]
        if isinstance(a, Variant):
            return [t.sym('variant:' + a.name)] + [y for x in a.args for y in self.flat(x)]
        if isinstance(a, Closure):
            n = len(a.ps)
            self.flatlevel += 1
            try:
                xs = [t.sym('#arg%d_%d' % (self.flatlevel, i), 'real') for i in range(n)]
                r = self.call_value(a, list(xs))
                return self.flat(r)
            finally:
                self.flatlevel -= 1
        if isinstance(a, FnItem):
            return [t.sym('fn:' + a.path)]
        return [t.top('opaque arg %s' % type(a).__name__)]

    def opaque_call(self, path, args):
        fl = []
        for a in args:
            fl += self.flat(a)
        return t.fn('call:' + path, *fl)

    def scalar(self, v):
        v = self.deref(v)
        if isinstance(v, T):
            return v
        return t.top('expected scalar, got %s' % type(v).__name__)

    def summary(self, path, args, node=None):
        if not path.startswith(MATH):
            return None
        n = path[len(MATH):]
        if n in ('erf', 'erfc', 'lambert_w', 'erfcx', 'bessel_i', 'inverse_langevin', 'bessel_i0', 'bessel_i1', 'erfcx_helper'):
            a = [self.scalar(x) for x in args]
            if n == 'erf':
                return t.fn('erf', a[0])
            if n == 'erfc':
                return t.sub(t.ONE, t.fn('erf', a[0]))
            if n == 'erfcx':
                return t.mul(t.exp(t.power(a[0], num(2))), t.sub(t.ONE, t.fn('erf', a[0])))
            if n == 'lambert_w':
                return t.fn('lambertw', a[0])
            if n == 'erfcx_helper':
                return t.fn('erfcx_helper', a[0])
            if n == 'bessel_i':
                if a[0].op == 'num' and a[0].a[0] in (0, 1):
                    return t.fn('bessel%d' % int(a[0].a[0]), a[1])
                return None
            if n in ('bessel_i0', 'bessel_i1'):
                return t.fn('bessel' + n[-1], a[0])
            if n == 'inverse_langevin':
                x = t.sym('#fresh')
                body = t.sub(t.power(t.tanh(x), num(-1)), t.power(x, num(-1)))
                return t.inv('#fresh', body, a[0])
        if n in ('inverse_newton_raphson', 'inverse_newton_raphson_powered') and len(args) >= 4:
            y = self.scalar(args[0])
            self.fresh += 1
            nm = '#nr%d' % self.fresh
            x = t.sym(nm)
            f = self.scalar(self.call_value(args[1], [x]))
            fp = self.scalar(self.call_value(args[2], [x]))
            guess = self.scalar(args[3])
            self.inv_sites.append(dict(path=path, x=x, f=f, fp=fp, y=y, guess=guess, line=node.get('l') if node else None,
                                       caller=self.curpath(), stack=tuple(getattr(self, '_ps', ())), power=self.deref(args[6]) if len(args) > 6 else num(1)))
            return t.inv(nm, f, y)
        return None

    def curpath(self):
        return self._ps[-1] if getattr(self, '_ps', None) else getattr(self, 'root', '')

    # -------------------------------------------------------------------------------- patterns
    def bind(self, p, v, env, fr):
        """bind irrefutably; returns condition term under which the pattern matches"""
        k = p['k']
        if k == 'Bind':
            c = t.TRUE
            if p.get('sub'):
                c = self.bind(p['sub'], v, env, fr)
            env[p['id']] = self.new(v)
            return c
        if k == 'Wild' or k == 'Other':
            return t.TRUE
        if k == 'Ref':
            return self.bind(p['p'], self.deref(v), env, fr)
        if k == 'Guard':
            return self.bind(p['p'], v, env, fr)
        if k in ('Tuple', 'Slice'):
            ps = p['ps'] if k == 'Tuple' else p['before'] + p['after']
            dv = v
            base = None
            if isinstance(v, Ref):
                base = v
                dv = self.deref(v)
            c = t.TRUE
            if k == 'Tuple' and p.get('dd', -1) is not None and p.get('dd', -1) >= 0 and isinstance(dv, (Tup, Arr)):
                dd = p['dd']
                n = len(dv)
                idxs = list(range(dd)) + list(range(n - (len(ps) - dd), n))
            else:
                idxs = list(range(len(ps)))
            for i, q in zip(idxs, ps):
                x = Ref(base.cell, base.path + (i,)) if base is not None else self.field(dv, i)
                c = t.band(c, self.bind(q, x, env, fr))
            return c
        if k == 'Lit':
            lit = p['v']
            if lit['k'] == 'Lit':
                x = self.lit(lit['v'])
                if lit.get('neg'):
                    x = t.neg(x)
            else:
                x = self.ev_def(lit, fr)
            d = self.deref(v)
            if isinstance(d, T) and isinstance(x, T):
                if x in (t.TRUE, t.FALSE):
                    return d if x == t.TRUE else t.bnot(d)
                return t.eq(d, x)
            if isinstance(d, Variant) and isinstance(x, Variant):
                return t.TRUE if d.name == x.name else t.FALSE
            if isinstance(d, Obj) and d.kind == 'opt' and isinstance(x, Variant) and x.name == 'None':
                return t.bnot(d.c)
            return t.top('pattern literal')
        if k == 'Range':
            d = self.scalar(v)
            c = t.TRUE
            if p['lo']:
                c = t.band(c, t.le(self.plit(p['lo'], fr), d))
            if p['hi']:
                h = self.plit(p['hi'], fr)
                c = t.band(c, t.le(d, h) if p['incl'] else t.lt(d, h))
            return c
        if k == 'Or':
            cs = [self.bind(q, v, env, fr) for q in p['ps']]
            c = t.FALSE
            for x in cs:
                c = t.bor(c, x)
            return c
        if k == 'TupleStruct':
            d = self.deref(v)
            nm = p['res'].get('p', '').split('::')[-1]
            if isinstance(d, Variant):
                if d.name != nm:
                    return t.FALSE
                c = t.TRUE
                for q, a in zip(p['ps'], d.args):
                    c = t.band(c, self.bind(q, a, env, fr))
                return c
            if isinstance(d, Obj) and d.kind == 'opt':
                if nm == 'None':
                    return t.bnot(d.c)
                if nm == 'Some':
                    return t.band(d.c, self.bind(p['ps'][0], d.v, env, fr))
            for q in p['ps']:
                self.bind(q, t.top('enum payload'), env, fr)
            return t.top('enum match')
        if k == 'Struct':
            d = v
            for n, q in p['fs']:
                x = Ref(v.cell, v.path + (n,)) if isinstance(v, Ref) else self.field(d, n)
                self.bind(q, x, env, fr)
            return t.TRUE
        return t.top('pattern ' + k)

    def plit(self, lit, fr):
        if lit['k'] == 'Lit':
            x = self.lit(lit['v'])
            return t.neg(x) if lit.get('neg') else x
        v = self.ev_def(lit, fr)
        return v if isinstance(v, T) else t.top('pattern const')

    def lit(self, v):
        k, x = v
        if k == 'int':
            return num(int(x))
        if k == 'float':
            x = x.replace('_', '')
            for s in ('f64', 'f32'):
                if x.endswith(s):
                    x = x[:-3]
            return num(Fraction(x))
        if k == 'bool':
            return t.TRUE if x else t.FALSE
        return Obj('lit', v=x)

    # -------------------------------------------------------------------------------- expressions
    def ev(self, e, env, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise Give('analysis budget exhausted')
        try:
            return getattr(self, 'x_' + e['k'], self.x_other)(e, env, fr)
        except INTERNAL as x:
            if DEBUG:
                raise
            raise Give('%s at %s: %s' % (type(x).__name__, e['k'], x))

    def x_other(self, e, env, fr):
        return t.top('construct ' + e['k'])

    def x_Lit(self, e, env, fr):
        v = self.lit(e['v'])
        if e['v'][0] == 'float' and e.get('t') is not None and self.p.ty(e['t']) == 'f32':
            return num(single(v.a[0]))
        return v

    def x_Local(self, e, env, fr):
        c = env.get(e['id'])
        if c is None:
            return t.top('unbound ' + e['n'])
        return self.store[c]

    def x_Def(self, e, env, fr):
        return self.ev_def(e, fr)

    def ev_def(self, e, fr):
        dk, p = e['dk'], e['p']
        if dk in ('Fn', 'AssocFn') or dk.startswith('Ctor'):
            return FnItem(p, e.get('g', ()))
        if dk.startswith('Static') or dk.startswith('Const') or dk.startswith('AssocConst'):
            if dk == 'ConstParam':
                n = p.split('::')[-1]
                v = fr.generics.get(n)
                return self.generic_val(n, v)
            if p in self.const_syms:
                return self.const_syms[p]
            b = self.p.bodies.get(p)
            if b is not None:
                if b.get('static_mut'):
                    return t.top('mutable static ' + p)
                if p not in self.statics:
                    self.statics[p] = self.ev(b['body'], {}, Frame(p, {}))
                return self.statics[p]
            last = p.split('::')[-1]
            if 'consts' in p and last in STD_CONST:
                return STD_CONST[last]()
            if last == 'NAN':
                return t.top('NaN')
            ity = re.search(r'\b([iu](?:8|16|32|64|128|size))\b', p)
            if ity and last in ('MAX', 'MIN', 'BITS'):
                lo, hi = TYPES[ity.group(1)]
                return num(hi if last == 'MAX' else lo if last == 'MIN' else (hi - lo + 1).bit_length() - 1)
            if 'f64' in p and last in F64_CONST:
                # the infinities stand for a number beyond every other: comparisons come out right, arithmetic on them is not relied on
                return num(F64_CONST[last])
            return t.sym('const:' + p, 'real')
        if dk == 'SelfCtor':
            return FnItem(p)
        return t.top('path %s %s' % (dk, p))

    def generic_val(self, n, v):
        if v is None:
            return t.sym('generic:' + n, 'int')
        if isinstance(v, T):
            return v
        s = str(v)
        for ty in INTS:
            s = s.replace('_' + ty, '')
        try:
            return num(int(s))
        except ValueError:
            return t.sym('generic:' + s.split('::')[-1], 'int')

    def x_Array(self, e, env, fr):
        return Arr(self.ev(x, env, fr) for x in e['es'])

    def x_Tup(self, e, env, fr):
        return Tup(self.ev(x, env, fr) for x in e['es'])

    def x_Repeat(self, e, env, fr):
        v = self.ev(e['a'], env, fr)
        n = e['n']
        if isinstance(n, str):
            g = fr.generics.get(n)
            n = self.generic_val(n, g)
        else:
            n = num(n)
        if n.op == 'num' and n.a[0] <= 4096:
            return Arr([v] * int(n.a[0]))
        self.fresh += 1
        return Comp([('r%d' % self.fresh, n)], v)

    def x_Closure(self, e, env, fr):
        if e.get('move'):
            # captured by value: copy of the current cells
            env2 = {k: self.new(self.store[c]) for k, c in env.items() if c in self.store}
            return Closure(e['ps'], e['b'], env2, fr)
        return Closure(e['ps'], e['b'], env, fr)

    def x_Block(self, e, env, fr):
        return self.block(e['b'], env, fr)

    def block(self, b, env, fr):
        env2 = env      # local ids are unique in a body; sharing the map keeps closures simple
        for s in b['s']:
            if s['k'] == 'Let':
                if s['i'] is None:
                    self.bind_uninit(s['p'], env2)
                else:
                    v = self.ev(s['i'], env2, fr)
                    if s['p']['k'] == 'Bind' and isinstance(v, Comp):
                        pass
                    c = self.bind(s['p'], v, env2, fr)
                    if c != t.TRUE and s.get('els'):
                        return t.top('let-else')
            else:
                self.ev(s['e'], env2, fr)
        if b['e'] is None:
            return UNIT
        return self.ev(b['e'], env2, fr)

    def bind_uninit(self, p, env):
        if p['k'] == 'Bind':
            env[p['id']] = self.new(t.top('uninitialised'))
        for q in p.get('ps', []) or []:
            self.bind_uninit(q, env)

    def x_Bin(self, e, env, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.scalar(self.ev(e['a'], env, fr))
            if op == '&&':
                if a == t.FALSE:
                    return a
                if a == t.TRUE:
                    return self.scalar(self.ev(e['b'], env, fr))
                b = self.guarded(a, lambda: self.scalar(self.ev(e['b'], env, fr)), t.FALSE)
                return t.band(a, b)
            if a == t.TRUE:
                return a
            if a == t.FALSE:
                return self.scalar(self.ev(e['b'], env, fr))
            b = self.guarded(t.bnot(a), lambda: self.scalar(self.ev(e['b'], env, fr)), t.TRUE)
            return t.bor(a, b)
        a = self.ev(e['a'], env, fr)
        b = self.ev(e['b'], env, fr)
        return self.binop(op, a, b, self.p.ty(e['t']))

    def guarded(self, c, f, dflt):
        base = len(self.pc)
        s0 = dict(self.store)
        self.pc.append(c)
        try:
            v = f()
            s1 = self.store
            self.store = self.merge_store(c, s1, s0)
            return v
        except Dead:
            self.store = s0
            return dflt
        finally:
            del self.pc[base:]

    def event(self, *e):
        if self.events is not None:
            self.events.append((self.curpath(), tuple(self.pc)) + e)

    def binop(self, op, a, b, ty):
        a = self.deref(a)
        b = self.deref(b)
        if isinstance(a, T) and isinstance(b, T):
            if self.events is not None and ty in INTS and op in ('+', '-', '*', '/', '%', '<<', '>>'):
                self.event('arith', ty, op, a, b)
            if op == '+':
                return t.add(a, b)
            if op == '-':
                return t.sub(a, b)
            if op == '*':
                return t.mul(a, b)
            if op == '/':
                if ty in INTS:
                    return self.idiv(a, b)
                if b == t.ZERO:
                    return t.top('division by zero')
                return t.div(a, b)
            if op == '%':
                if a.op == 'num' and b.op == 'num' and b.a[0] != 0 and a.a[0] >= 0:
                    return num(a.a[0] % b.a[0])
                return t.fn('imod' if ty in INTS else 'fmod', a, b)
            if op == '<':
                return t.lt(a, b)
            if op == '>':
                return t.lt(b, a)
            if op == '<=':
                return t.le(a, b)
            if op == '>=':
                return t.le(b, a)
            if op == '==':
                if a in (t.TRUE, t.FALSE):
                    return b if a == t.TRUE else t.bnot(b)
                return t.eq(a, b)
            if op == '!=':
                return t.bnot(t.eq(a, b))
            if op in ('&', '|') and ty == 'bool':
                return t.band(a, b) if op == '&' else t.bor(a, b)
            if op in ('<<', '>>') and a.op == 'num' and b.op == 'num':
                return num(int(a.a[0]) << int(b.a[0]) if op == '<<' else int(a.a[0]) >> int(b.a[0]))
            return t.fn('op' + op, a, b)
        if isinstance(a, Variant) and isinstance(b, Variant) and op in ('==', '!='):
            r = a.name == b.name
            return t.TRUE if r == (op == '==') else t.FALSE
        if isinstance(a, T) and a.op == 'top':
            return a
        if isinstance(b, T) and b.op == 'top':
            return b
        return t.top('operator on %s and %s' % (type(a).__name__, type(b).__name__))

    def idiv(self, a, b):
        if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
            q = abs(a.a[0]) // abs(b.a[0])
            return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
        if b == t.ONE:
            return a
        # quotients of factorials are exact
        def has_prod(x):
            return x.op == 'prod' or any(isinstance(y, T) and has_prod(y) for y in (x.a if x.op in ('mul', 'pow') else ()))
        if has_prod(a):
            return t.div(a, b)
        k, r = t.coef(a)
        return t.fn('idiv', a, b)

    def x_Un(self, e, env, fr):
        if e['op'] == '*':
            v = self.ev(e['a'], env, fr)
            if isinstance(v, Ref):
                return self.readp(self.store[v.cell], v.path)
            return v
        v = self.deref(self.ev(e['a'], env, fr))
        if not isinstance(v, T):
            return t.top('unary on %s' % type(v).__name__)
        if e['op'] == '-':
            return t.neg(v)
        return t.bnot(v)

    def x_Cast(self, e, env, fr):
        v = self.deref(self.ev(e['a'], env, fr))
        to = self.p.ty(e['t'])
        frm = self.p.ty(e['a']['t']).lstrip('&').strip()
        return self.cast(v, frm, to)

    def cast(self, v, frm, to):
        if not isinstance(v, T):
            return v
        if to in INTS and frm in FLOATS:
            self.event('fcast', frm, to, v)
            if v.op == 'num':
                q = v.a[0]
                return num(int(q) if q >= 0 else -int(-q))
            if v.op == 'fn' and v.a[0] in ('ceil', 'floor', 'trunc', 'round'):
                return v
            if t.is_int(v):
                return v
            return t.fn('trunc', v)
        if v in (t.TRUE, t.FALSE):
            return num(1 if v == t.TRUE else 0)
        if frm == 'bool':
            return t.ite(v, t.ONE, t.ZERO)
        if frm in INTS and to in INTS and frm != to:
            self.event('cast', frm, to, v)
            fl, fh = RANGE[frm]
            tl, th = RANGE[to]
            if v.op == 'num':
                q = v.a[0]
                return v if tl <= q <= th else num((int(q) - tl) % (th - tl + 1) + tl)
            if v.op != 'top' and (fl < tl or fh > th) and not (frm in BIG and to in BIG):
                return t.fn('wrap:' + to, v)
        if to == 'f32' and frm != 'f32' and v.op != 'top':
            if v.op == 'num':
                return num(single(v.a[0]))
            return t.fn('f32', v)
        return v

    def x_If(self, e, env, fr):
        c0 = e['c']
        c = self.cond(c0, env, fr)
        if c == t.TRUE:
            return self.ev(e['a'], env, fr)
        if c == t.FALSE:
            return self.ev(e['b'], env, fr) if e['b'] is not None else UNIT
        return self.branch(c, lambda: self.ev(e['a'], env, fr), lambda: self.ev(e['b'], env, fr) if e['b'] is not None else UNIT)

    def cond(self, c0, env, fr):
        if c0['k'] == 'LetE':
            v = self.ev(c0['i'], env, fr)
            c = self.bind(c0['p'], v, env, fr)
            return c
        c = self.deref(self.ev(c0, env, fr))
        if not isinstance(c, T):
            return t.top('condition')
        return c

    def x_LetE(self, e, env, fr):
        v = self.ev(e['i'], env, fr)
        return self.bind(e['p'], v, env, fr)

    def branch(self, c, fa, fb):
        s0 = self.store
        base = len(self.pc)
        self.store = dict(s0)
        self.pc.append(c)
        da = db = False
        va = vb = None
        try:
            va = fa()
        except Dead:
            da = True
        sa = self.store
        del self.pc[base:]
        self.store = dict(s0)
        nc = t.bnot(c)
        self.pc.append(nc)
        try:
            vb = fb()
        except Dead:
            db = True
        sb = self.store
        del self.pc[base:]
        if da and db:
            raise Dead()
        if da:
            self.store = sb
            self.pc.append(nc)
            return vb
        if db:
            self.store = sa
            self.pc.append(c)
            return va
        if c.op == 'top':
            self.store = self.merge_store(c, sa, sb)
            return self.merge(c, va, vb)
        self.store = self.merge_store(c, sa, sb)
        return self.merge(c, va, vb)

    def x_Match(self, e, env, fr):
        v = self.ev(e['h'], env, fr)
        if e.get('src') == 'try':
            return t.top('? operator')
        if e['h']['k'] == 'Tup' and any(isinstance(x, Ref) for x in v):
            pass

        def arms(i):
            if i >= len(e['arms']):
                raise Dead()
            a = e['arms'][i]
            c = self.bind(a['p'], v, env, fr)
            if a['g'] is not None:
                if c == t.FALSE:
                    return arms(i + 1)
                g = self.cond(a['g'], env, fr)
                c = t.band(c, g)
            if c == t.TRUE or (i == len(e['arms']) - 1 and a['g'] is None and c != t.FALSE):
                return self.ev(a['b'], env, fr)
            if c == t.FALSE:
                return arms(i + 1)
            return self.branch(c, lambda: self.ev(a['b'], env, fr), lambda: arms(i + 1))
        return arms(0)

    def x_Ret(self, e, env, fr):
        v = self.ev(e['v'], env, fr) if e['v'] is not None else UNIT
        fr.exits.append((list(self.pc[fr.base:]), v, self.store))
        raise Dead()

    def x_Struct(self, e, env, fr):
        fs = {}
        if e['base'] is not None:
            b = self.deref(self.ev(e['base'], env, fr))
            if isinstance(b, Struct):
                fs.update(b.fs)
            else:
                return t.top('struct base')
        for n, x in e['fs']:
            fs[n] = self.ev(x, env, fr)
        p = e['res'].get('p', '')
        if p.endswith('::Range') or p.endswith('::RangeInclusive') or p.endswith('::RangeFrom'):
            if 'start' in fs and 'end' in fs:
                return Range(self.scalar(fs['start']), self.scalar(fs['end']))
            return t.top('range kind')
        if e['res'].get('dk') == 'Other' or 'SelfTy' in p:
            p = self.p.ty(e['t'])
        return Struct(p, fs)

    def x_Field(self, e, env, fr):
        v = self.ev(e['a'], env, fr)
        return self.field(v, e['n'])

    def x_Index(self, e, env, fr):
        v = self.deref(self.ev(e['a'], env, fr))
        k = self.deref(self.ev(e['b'], env, fr))
        if isinstance(k, Range):
            if isinstance(v, Arr) and k.lo.op == 'num' and k.hi.op == 'num':
                return Arr(v[int(k.lo.a[0]):int(k.hi.a[0])])
            return t.top('slice')
        if not isinstance(k, T):
            return t.top('index')
        if self.events is not None:
            if isinstance(v, Arr):
                self.event('index', num(len(v)), k)
            elif isinstance(v, Comp):
                self.event('index', v.dims[0][1], k)
        return self.field(v, k)

    # ---- places
    def place(self, e, env, fr):
        """Ref of the place denoted by e (without following a reference stored in it), or None"""
        k = e['k']
        if k == 'Local':
            c = env.get(e['id'])
            return Ref(c) if c is not None else None
        if k == 'Un' and e['op'] == '*':
            r = self.place(e['a'], env, fr)
            if r is None:
                v = self.ev(e['a'], env, fr)
                return v if isinstance(v, Ref) else None
            v = self.readp(self.store[r.cell], r.path)
            return v if isinstance(v, Ref) else r
        if k in ('Field', 'Index'):
            r = self.place(e['a'], env, fr)
            if r is None:
                v = self.ev(e['a'], env, fr)
                if not isinstance(v, Ref):
                    return None
                r = v
            for _ in range(20):
                v = self.readp(self.store[r.cell], r.path)
                if isinstance(v, Ref):
                    r = v
                else:
                    break
            if k == 'Field':
                return Ref(r.cell, r.path + (e['n'],))
            i = self.deref(self.ev(e['b'], env, fr))
            if isinstance(i, T):
                return Ref(r.cell, r.path + ((int(i.a[0]) if i.op == 'num' else i),))
            return None
        if k == 'Block' or k == 'Method' or k == 'Call':
            v = self.ev(e, env, fr)
            return v if isinstance(v, Ref) else None
        if k == 'Ref':
            return self.place(e['a'], env, fr)
        return None

    def x_Assign(self, e, env, fr):
        v = self.ev(e['b'], env, fr)
        if e['a']['k'] in ('Tup', 'Array') and isinstance(v, (Tup, Arr)):
            for q, x in zip(e['a']['es'], v):
                r = self.place(q, env, fr)
                if r is not None:
                    self.write(r, x)
            return UNIT
        if e['a']['k'] == 'Def' and e['a'].get('p') == '_':
            return UNIT
        r = self.place(e['a'], env, fr)
        if r is None:
            raise Give('assignment to unknown place')
        if isinstance(v, Ref) and e['a']['k'] != 'Local':
            v = self.deref(v)
        self.write(r, v)
        return UNIT

    def x_AssignOp(self, e, env, fr):
        b = self.ev(e['b'], env, fr)
        r = self.place(e['a'], env, fr)
        if r is None:
            raise Give('assignment to unknown place')
        old = self.readp(self.store[r.cell], r.path)
        while isinstance(old, Ref):
            r = old
            old = self.readp(self.store[r.cell], r.path)
        ty = self.p.ty(e['a']['t']).replace('&mut ', '').replace('&', '')
        self.write(r, self.binop(e['op'].rstrip('='), old, b, ty))
        return UNIT

    def x_Ref(self, e, env, fr):
        if e['mut']:
            r = self.place(e['a'], env, fr)
            if r is not None:
                v = self.readp(self.store[r.cell], r.path)
                if e['a']['k'] == 'Un' and isinstance(v, Ref):
                    return v
                return r
            return Ref(self.new(self.ev(e['a'], env, fr)))
        v = self.ev(e['a'], env, fr)
        return v

    # ---- loops
    def x_Break(self, e, env, fr):
        v = self.ev(e['v'], env, fr) if e['v'] is not None else UNIT
        L = self.findloop(e['to'])
        if L is None:
            raise Give('break target')
        L['breaks'].append((list(self.pc[L['base']:]), v, self.store))
        raise Dead()

    def x_Continue(self, e, env, fr):
        L = self.findloop(e['to'])
        if L is None:
            raise Give('continue target')
        L['conts'].append((list(self.pc[L['ibase']:]), UNIT, self.store))
        raise Dead()

    def findloop(self, i):
        for L in reversed(self.loops):
            if L['id'] == i:
                return L
        return None

    def x_For(self, e, env, fr):
        v = self.ev(e['it'], env, fr)
        it = self.to_iter(v)

        def body(x):
            c = self.bind(e['p'], x, env, fr)
            self.ev(e['b'], env, fr)
        if it is None:
            v = self.deref(v)
            if not (isinstance(v, Obj) and v.kind == 'filtered'):
                raise Give('for over unknown iterator')
            it = It(items=list(v.ps))
            self.run_loop(it, lambda q: self.branch(q[0], lambda: body(q[1]) or UNIT, lambda: UNIT), e['id'])
            return UNIT
        self.run_loop(it, body, e['id'])
        return UNIT

    def conj(self, pc):
        c = t.TRUE
        for x in pc:
            c = t.band(c, x)
        return c

    def iteration(self, L, body, x):
        L['ibase'] = len(self.pc)
        L['conts'] = []
        try:
            body(x)
            dead = False
        except Dead:
            dead = True
        if L['conts']:
            st = self.store
            cs = L['conts']
            if dead:
                pc, _, st = cs[-1]
                cs = cs[:-1]
            for pc, _, s in reversed(cs):
                st = self.merge_store(self.conj(pc), s, st)
            self.store = dict(st)
            del self.pc[L['ibase']:]
            dead = False
            # paths that broke/returned inside are handled by their own exits, which have priority
        return dead

    def run_loop(self, it, body, lid):
        if it.items is not None:
            L = {'id': lid, 'breaks': [], 'conts': [], 'base': len(self.pc)}
            self.loops.append(L)
            try:
                dead = False
                for x in it.items:
                    if self.iteration(L, body, x):
                        dead = True
                        break
                self.end_loop(L, dead)
            finally:
                self.loops.pop()
            return
        self.symloop(it.dims, it.elem, body, lid)

    def end_loop(self, L, dead):
        st = self.store
        br = L['breaks']
        v = UNIT
        if dead:
            if not br:
                raise Dead()
            pc, v, st = br[-1]
            br = br[:-1]
        for pc, bv, s in reversed(br):
            c = self.conj(pc)
            st = self.merge_store(c, s, st)
            v = self.merge(c, bv, v)
        self.store = dict(st)
        del self.pc[L['base']:]
        return v

    def freshen(self, v, name):
        """replace scalar leaves by fresh symbols; returns (value, [syms])"""
        if isinstance(v, T):
            if v.op == 'top':
                return v, []
            s = t.sym('#pre:' + name, 'real')
            return s, [(s, v)]
        if isinstance(v, (Arr, Tup)):
            out, ss = [], []
            for i, x in enumerate(v):
                y, s = self.freshen(x, '%s.%d' % (name, i))
                out.append(y)
                ss += s
            return type(v)(out), ss
        if isinstance(v, Struct):
            fs, ss = {}, []
            for k, x in v.fs.items():
                y, s = self.freshen(x, '%s.%s' % (name, k))
                fs[k] = y
                ss += s
            return Struct(v.path, fs), ss
        return v, []

    def leaves(self, v, name):
        if isinstance(v, T):
            return {name: v}
        out = {}
        if isinstance(v, (Arr, Tup)):
            for i, x in enumerate(v):
                out.update(self.leaves(x, '%s.%d' % (name, i)))
        elif isinstance(v, Struct):
            for k, x in v.fs.items():
                out.update(self.leaves(x, '%s.%s' % (name, k)))
        return out

    def relabel(self, v, name, m):
        if isinstance(v, T):
            return m.get(name, t.top('loop-carried value'))
        if isinstance(v, (Arr, Tup)):
            return type(v)(self.relabel(x, '%s.%d' % (name, i), m) for i, x in enumerate(v))
        if isinstance(v, Struct):
            return Struct(v.path, {k: self.relabel(x, '%s.%s' % (name, k), m) for k, x in v.fs.items()})
        return v

    def symloop(self, dims, elem, body, lid):
        """summarise a loop over a comprehension.  Nested dims are handled one at a time (innermost = whole body)."""
        if len(dims) > 1:
            (var, n) = dims[0]
            return self.symloop([dims[0]], None, lambda _x: self.symloop(dims[1:], elem, body, lid), ('nest', lid))
        var, n = dims[0]
        i = t.idx(var)
        s0 = dict(self.store)
        fuel = 6
        changed = set()
        while True:
            self.store = dict(s0)
            pre = {}
            for c in changed:
                v, ss = self.freshen(s0[c], 'c%d' % c)
                self.store[c] = v
                for s, init in ss:
                    pre[s.a[0][5:]] = (s, init)
            L = {'id': lid, 'breaks': [], 'conts': [], 'base': len(self.pc)}
            self.loops.append(L)
            try:
                dead = self.iteration(L, body, elem if elem is not None else i)
            finally:
                self.loops.pop()
            if L['breaks'] or dead:
                raise Give('exit from a symbolic loop')
            del self.pc[L['base']:]
            start = {c: self.store_at(s0, c, changed) for c in ()}
            new = set()
            for c, v in s0.items():
                w = self.store.get(c)
                if c in changed:
                    continue
                if w is not v:
                    try:
                        same = (w == v)
                    except Exception:
                        same = False
                    if not same:
                        new.add(c)
            if not new:
                break
            changed |= new
            fuel -= 1
            if fuel == 0:
                raise Give('loop does not stabilise')
        post = {}
        for c in changed:
            post.update(self.leaves(self.store[c], 'c%d' % c))
        solved = {}        # name -> (value at start of iteration i)
        final = {}
        names = [k for k in post]
        presyms = {s: k for k, (s, _) in pre.items()}

        def deps(x):
            return [presyms[s] for s in t.syms(x) if s in presyms]
        pending = list(names)
        progress = True
        while pending and progress:
            progress = False
            for k in list(pending):
                p = post[k]
                if k not in pre:
                    pending.remove(k)
                    final[k] = t.top('new loop value')
                    progress = True
                    continue
                s, init = pre[k]
                # unresolved dependencies other than itself must wait
                ds = [d for d in deps(p) if d != k]
                if any(d not in solved for d in ds):
                    continue
                p2 = t.subst(p, {pre[d][0]: solved[d] for d in ds if d in solved}) if ds else p
                if p2.op == 'top' or t.has_top(p2):
                    final[k] = t.top('loop body')
                    solved[k] = t.top('loop body')
                elif s not in t.syms(p2):
                    # overwritten in every iteration
                    final[k] = t.subst_idx(p2, var, t.sub(n, t.ONE))
                    solved[k] = t.ite(t.lt(i, t.ONE), init, t.subst_idx(p2, var, t.sub(i, t.ONE)))
                else:
                    d = t.sub(p2, s)
                    ok = False
                    if s in t.syms(d):
                        if t.independent_of(d, s):
                            d = t.subst(d, {s: t.ZERO if not self._divs(d, s) else t.ONE})
                    if s not in t.syms(d):
                        ok = True
                        if var not in d.fv:
                            solved[k] = t.add(init, t.mul(i, d))
                            final[k] = t.add(init, t.mul(n, d))
                        else:
                            self.fresh += 1
                            j = 'j%d' % self.fresh
                            dj = t.subst_idx(d, var, t.idx(j))
                            solved[k] = t.add(init, t.summ(j, i, dj))
                            final[k] = t.add(init, t.summ(var, n, d))
                    else:
                        q = t.div(p2, s)
                        if s in t.syms(q) and t.independent_of(q, s):
                            q = t.subst(q, {s: t.ONE})
                        if s not in t.syms(q):
                            ok = True
                            if var not in q.fv:
                                solved[k] = t.mul(init, t.power(q, i))
                                final[k] = t.mul(init, t.power(q, n))
                            else:
                                self.fresh += 1
                                j = 'j%d' % self.fresh
                                qj = t.subst_idx(q, var, t.idx(j))
                                solved[k] = t.mul(init, t.prodd(j, i, qj))
                                final[k] = t.mul(init, t.prodd(var, n, q))
                    if not ok:
                        final[k] = t.top('loop recurrence')
                        solved[k] = t.top('loop recurrence')
                pending.remove(k)
                progress = True
        for k in pending:
            final[k] = t.top('loop recurrence')
        for c in changed:
            self.store[c] = self.relabel(self.store[c], 'c%d' % c, final)
        for c in list(self.store):
            if c not in s0:
                pass

    def store_at(self, s0, c, changed):
        return s0[c]

    def _divs(self, d, s):
        return True

    def x_While(self, e, env, fr):
        return self.while_loop(e, env, fr)

    def x_Loop(self, e, env, fr):
        return self.while_loop(e, env, fr)

    def while_loop(self, e, env, fr):
        # bounded concrete execution; otherwise recognise  `while i < n { ...; i += 1 }`
        if e['k'] == 'While':
            s0 = dict(self.store)
            base = len(self.pc)
            c = self.cond(e['c'], env, fr)
            if c in (t.TRUE, t.FALSE):
                k = 0
                L = {'id': e['id'], 'breaks': [], 'conts': [], 'base': len(self.pc)}
                self.loops.append(L)
                dead = False
                try:
                    while True:
                        if c == t.FALSE:
                            break
                        if c != t.TRUE:
                            raise Give('while condition becomes symbolic')
                        k += 1
                        if k > 300:
                            raise Give('while loop too long')
                        if self.iteration(L, lambda _x: self.ev(e['b'], env, fr), None):
                            dead = True
                            break
                        c = self.cond(e['c'], env, fr)
                    self.end_loop(L, dead)
                finally:
                    self.loops.pop()
                return UNIT
            # symbolic bound: c = lt(i - n) with i a cell
            self.store = dict(s0)
            return self.while_counter(e, env, fr, c)
        L = {'id': e['id'], 'breaks': [], 'conts': [], 'base': len(self.pc)}
        self.loops.append(L)
        try:
            for k in range(300):
                if self.iteration(L, lambda _x: self.block(e['b'], env, fr), None):
                    return self.end_loop(L, True)
            raise Give('unbounded loop')
        finally:
            self.loops.pop()

    def while_counter(self, e, env, fr, c):
        """while i < n / i <= n with i incremented by one on every iteration"""
        ce = e['c']
        if ce['k'] != 'Bin' or ce['op'] not in ('<', '<=', '>', '>=', '!='):
            raise Give('while loop')
        for side in ('a', 'b'):
            pl = ce[side]
            while pl['k'] in ('Ref', 'Un') or (pl['k'] == 'Cast'):
                pl = pl['a']
            if pl['k'] != 'Local':
                continue
            r = self.place(pl, env, fr)
            if r is None:
                continue
            other = 'b' if side == 'a' else 'a'
            up = (side == 'a' and ce['op'] in ('<', '<=')) or (side == 'b' and ce['op'] in ('>', '>='))
            if not up:
                continue
            s0 = dict(self.store)
            init = self.deref(r)
            if not isinstance(init, T):
                continue
            bound = self.scalar(self.ev(ce[other], env, fr))
            # does the body add exactly one to the counter on every path, and leave the bound alone?
            s = t.sym('#while', 'real')
            self.write(r, s)
            L = {'id': e['id'], 'breaks': [], 'conts': [], 'base': len(self.pc)}
            self.loops.append(L)
            try:
                dead = self.iteration(L, lambda _x: self.ev(e['b'], env, fr), None)
            except Give:
                self.loops.pop()
                self.store = s0
                continue
            self.loops.pop()
            after = self.deref(r)
            bound2 = self.scalar(self.ev(ce[other], env, fr))
            self.store = s0
            del self.pc[L['base']:]
            if dead or L['breaks'] or not isinstance(after, T) or t.sub(after, s) != t.ONE or bound2 != bound:
                continue
            n = t.sub(bound, init)
            if ce['op'] in ('<=', '>='):
                n = t.add(n, t.ONE)
            self.fresh += 1
            self.idxn['w%d' % self.fresh] = n
            self.symloop([('w%d' % self.fresh, n)], None, lambda _x: self.ev(e['b'], env, fr), e['id'])
            return UNIT
        raise Give('while loop')

    # -------------------------------------------------------------------------------- iterators
    def to_iter(self, v):
        if isinstance(v, It):
            return v
        if isinstance(v, Ref):
            d = self.deref(v)
            if isinstance(d, Arr):
                return It(items=[Ref(v.cell, v.path + (i,)) for i in range(len(d))])
            v = d
        if isinstance(v, Range):
            return self.range_iter(v)
        if isinstance(v, Arr):
            return It(items=list(v))
        if isinstance(v, Comp):
            return It(dims=[self.rename(d) for d in v.dims][:1], elem=self.comp_elem(v)) if False else self.comp_iter(v)
        if isinstance(v, Variant):
            return It(items=list(v.args) if v.name == 'Some' else [])
        return None

    def rename(self, d):
        return d

    def comp_iter(self, v):
        dims = []
        e = v.elem
        for var, n in v.dims:
            self.fresh += 1
            nv = 'k%d' % self.fresh
            e = self.sub_idx(e, var, t.idx(nv))
            dims.append((nv, n))
            self.idxn[nv] = n
        return It(dims=dims, elem=e)

    def range_iter(self, r):
        n = t.sub(r.hi, r.lo)
        if n.op == 'num' and n.a[0].denominator == 1 and n.a[0] <= UNROLL:
            return It(items=[t.add(r.lo, num(k)) for k in range(max(0, int(n.a[0])))])
        if n.op == 'top':
            return It(dims=[('bad', n)], elem=n)
        self.fresh += 1
        var = 'k%d' % self.fresh
        self.idxn[var] = n
        return It(dims=[(var, n)], elem=t.add(r.lo, t.idx(var)))

    def it_map(self, it, f):
        if it.items is not None:
            return It(items=[self.call_value(f, [x]) for x in it.items])
        # an effectful closure over a symbolic range must be summarised
        s0 = dict(self.store)
        v = self.call_value(f, [it.elem])
        for c, w in s0.items():
            if self.store.get(c) is not w:
                try:
                    same = self.store.get(c) == w
                except Exception:
                    same = False
                if not same:
                    raise Give('stateful closure over a symbolic range')
        return It(dims=it.dims, elem=v)

    def it_sum(self, it):
        if it.items is not None:
            return t.add(*[self.scalar(x) for x in it.items]) if it.items else t.ZERO
        e = self.scalar(it.elem)
        for var, n in reversed(it.dims):
            e = t.summ(var, n, e)
        return e

    def it_prod(self, it):
        if it.items is not None:
            return t.mul(*[self.scalar(x) for x in it.items]) if it.items else t.ONE
        e = self.scalar(it.elem)
        for var, n in reversed(it.dims):
            e = t.prodd(var, n, e)
        return e

    def it_len(self, it):
        if it.items is not None:
            return num(len(it.items))
        n = t.ONE
        for _, m in it.dims:
            n = t.mul(n, m)
        return n

    def it_zip(self, a, b):
        if a.items is not None and b.items is not None:
            return It(items=[Tup((x, y)) for x, y in zip(a.items, b.items)])
        if a.items is None and b.items is None and len(a.dims) == 1 and len(b.dims) == 1:
            if t.equal(a.dims[0][1], b.dims[0][1]):
                return It(dims=a.dims, elem=Tup((a.elem, self.sub_idx(b.elem, b.dims[0][0], t.idx(a.dims[0][0])))))
        # unbounded range zipped with concrete
        raise Give('zip of different shapes')

    def x_Call(self, e, env, fr):
        f = e['f']
        if f['k'] == 'Def':
            p = f['p']
            dk = f['dk']
            if dk.startswith('Ctor'):
                args = [self.ev(a, env, fr) for a in e['a']]
                return Variant(p.split('::')[-1], args)
            args = [self.ev(a, env, fr) for a in e['a']]
            return self.with_frame(fr, lambda: self.call_path(p, f.get('g', ()), args, e))
        fv = self.ev(f, env, fr)
        args = [self.ev(a, env, fr) for a in e['a']]
        return self.with_frame(fr, lambda: self.call_value(fv, args, e))

    def with_frame(self, fr, f):
        if getattr(self, '_gs', None) is None:
            self._gs = []
            self._ps = []
        self._gs.append(fr.generics)
        self._ps.append(fr.path)
        try:
            return f()
        finally:
            self._gs.pop()
            self._ps.pop()

    def x_Method(self, e, env, fr):
        n = e['n']
        p = e['p']
        recv_place = None
        # methods through &mut self on library containers need the place
        if e['local']:
            recv = self.ev(e['r'], env, fr)
            b = self.p.bodies.get(p)
            if b is not None and b.get('in'):
                ty = self.p.ty(b['in'][0])
                if ty.startswith('&mut') and not isinstance(recv, Ref):
                    r = self.place(e['r'], env, fr)
                    if r is not None:
                        recv = r
            args = [self.ev(a, env, fr) for a in e['a']]
            return self.with_frame(fr, lambda: self.call_path(p, e.get('g', ()), [recv] + args, e))
        if n in ('iter_mut', 'push', 'sort', 'swap', 'fill', 'gen', 'random', 'next', 'as_mut_slice', 'as_mut', 'extend', 'pop', 'insert', 'gen_range', 'random_range', 'sample', 'copy_from_slice', 'clone_from_slice'):
            recv_place = self.place(e['r'], env, fr)
            if recv_place is not None:
                v = self.readp(self.store[recv_place.cell], recv_place.path)
                k = 0
                while isinstance(v, Ref) and k < 20:
                    recv_place = v
                    v = self.readp(self.store[v.cell], v.path)
                    k += 1
                recv = recv_place
            else:
                recv = self.ev(e['r'], env, fr)
        else:
            recv = self.ev(e['r'], env, fr)
        args = [self.ev(a, env, fr) for a in e['a']]
        return self.with_frame(fr, lambda: self.method(n, p, recv, args, e))

    def std_call(self, path, args, node=None):
        last = path.split('::')[-1]
        if path.startswith('core::panicking') or path.startswith('std::rt::') or 'panic' in path.split('::')[-1]:
            self.panics.append((self.curpath(), list(self.pc)))
            self.event('panic', path)
            raise Dead()
        if last == 'from_fn' and 'array' in path:
            ty = self.p.ty(node['t']) if node else ''
            n = ty.rstrip(']').split(';')[-1].strip() if ';' in ty else None
            if n is None:
                return t.top('from_fn')
            n = self.generic_val(n, self.cur_generics().get(n, n))
            if n.op == 'num':
                return Arr([self.call_value(args[0], [num(i)]) for i in range(int(n.a[0]))])
            it = self.range_iter(Range(t.ZERO, n))
            it = self.it_map(it, args[0])
            return Comp(it.dims, it.elem)
        if path.endswith('RangeInclusive::<Idx>::new'):
            return Range(self.scalar(args[0]), t.add(self.scalar(args[1]), t.ONE))
        if last in ('thread_rng', 'rng') and 'rand' in path:
            if self.rngcell is None:
                self.rngcell = self.new(t.ZERO)      # handles of the thread's generator share its state
            return Obj('rng', cell=self.rngcell)
        if last == 'new' and 'Normal' in path:
            return Variant('Ok', [Obj('normal', mu=self.scalar(args[0]), sd=self.scalar(args[1]))])
        if last in ('box_assume_init_into_vec_unsafe', 'write_box_via_move', 'into_vec', 'into_boxed_slice', 'from', 'into', 'identity', 'new') and ('box' in path.lower() or 'vec' in path.lower() or last in ('from', 'into', 'identity')):
            if last == 'write_box_via_move' and len(args) == 2:
                return args[1]
            if last == 'new' and 'vec' in path.lower():
                return Arr()
            return args[0] if args else Arr()
        if last == 'new_uninit':
            return Arr()
        if last == 'with_capacity':
            return Arr()
        if last == 'from_elem' and 'vec' in path:
            n = self.scalar(args[1])
            if n.op == 'num' and n.a[0] <= 4096:
                return Arr([args[0]] * int(n.a[0]))
            self.fresh += 1
            return Comp([('r%d' % self.fresh, n)], args[0])
        if path.startswith('std::f64::') or path.startswith('core::f64::') or '<impl f64>' in path or 'num::<impl' in path or path.startswith('std::cmp::') or path.startswith('std::iter::') or path.startswith('std::clone') or path.startswith('std::ops') or path.startswith('core::slice') or path.startswith('std::option') or path.startswith('std::result'):
            r = self.method(last, path, args[0], args[1:], node or {})
            return r
        if last in ('swap',) and 'mem' in path:
            a, b = args
            x, y = self.deref(a), self.deref(b)
            self.write(a, y)
            self.write(b, x)
            return UNIT
        if last in ('replace',) and 'mem' in path:
            x = self.deref(args[0])
            self.write(args[0], args[1])
            return x
        if last in ('drop',):
            return UNIT
        return t.top('call ' + path)

    def rngdraw(self, recv, kind):
        v = self.deref(recv)
        if isinstance(v, Obj) and v.kind == 'rng':
            c = self.store[v.cell]
            self.store[v.cell] = t.add(c, t.ONE) if isinstance(c, T) else c
            return t.fn(kind, c)
        return t.top('random source')

    def method(self, n, p, recv, args, e):
        v0 = recv
        if n in ('gen', 'random') and ('rand' in p or 'Rng' in p):
            return self.rngdraw(recv, 'rngU')
        if n in ('gen_range', 'random_range') and ('rand' in p or 'Rng' in p):
            r = self.deref(args[0])
            if isinstance(r, Range) and isinstance(r.lo, T) and isinstance(r.hi, T):
                return t.add(r.lo, t.mul(t.sub(r.hi, r.lo), self.rngdraw(recv, 'rngU')))
            return t.top('random range')
        if n == 'sample' and 'istribution' in p:
            d = self.deref(recv)
            if isinstance(d, Obj) and d.kind == 'normal':
                return t.add(d.mu, t.mul(d.sd, self.rngdraw(args[0], 'rngZ')))
            return t.top('distribution')
        v = self.deref(recv)
        if isinstance(v, T):
            r = self.num_method(n, p, v, args, e)
            if r is not None:
                return r
        if n in ('clone', 'to_owned', 'to_vec', 'as_ref', 'borrow', 'copied', 'cloned', 'into_boxed_slice', 'as_slice', 'unwrap', 'expect', 'try_into', 'into', 'by_ref', 'to_f64', 'into_iter', 'iter', 'iter_mut', 'collect', 'as_mut', 'as_mut_slice', 'unwrap_or', 'unwrap_or_default', 'into_inner', 'peekable', 'fuse', 'deref', 'deref_mut', 'borrow_mut'):
            if n in ('iter', 'into_iter', 'iter_mut'):
                if n == 'iter_mut' or (n == 'into_iter' and isinstance(v0, Ref)):
                    if isinstance(v0, Ref) and isinstance(v, Arr):
                        return self.to_iter(v0)
                    if isinstance(v, Comp):
                        raise Give('mutable iteration over a symbolic array')
                it = self.to_iter(v)
                if isinstance(v, Obj) and v.kind == 'filtered':
                    return v
                if it is None:
                    return t.top('iterate %s' % type(v).__name__)
                return it
            if n == 'collect':
                it = self.to_iter(v)
                if isinstance(v, Obj) and v.kind == 'filtered':
                    return v
                if it is None:
                    return t.top('collect')
                if it.items is not None:
                    return Arr(self.strip(x) for x in it.items)
                if isinstance(it.elem, T) and it.elem.op == 'top':
                    return it.elem
                if len(it.dims) == 1:
                    return Comp(it.dims, it.elem)
                return Comp(it.dims, it.elem)
            if n in ('copied', 'cloned') and isinstance(v, It):
                if v.items is not None:
                    return It(items=[self.deref(x) for x in v.items])
                return v
            if n in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default') and isinstance(v, Variant):
                if v.name in ('Ok', 'Some'):
                    return v.args[0]
                if n == 'unwrap_or':
                    return args[0]
                self.event('panic', n)
                raise Dead()
            if n in ('as_mut', 'as_mut_slice', 'by_ref', 'borrow_mut', 'deref_mut'):
                return v0
            return v
        it = None
        if isinstance(v, (It, Range)) or n in ('for_each', 'map', 'zip', 'enumerate', 'sum', 'product', 'fold', 'rev', 'take', 'skip', 'flat_map', 'mapv', 'map_inplace', 'chain', 'filter', 'step_by', 'position', 'find', 'any', 'all', 'take_while', 'skip_while', 'filter_map', 'scan') and not (isinstance(v, Obj) and v.kind in ('opt', 'filtered')):
            it = self.to_iter(v)
        if n == 'contains' and isinstance(v, Range):
            x = self.scalar(args[0])
            return t.band(t.le(v.lo, x), t.lt(x, v.hi))
        if it is not None:
            if n == 'map' or n == 'mapv':
                if isinstance(v, Variant):
                    return Variant(v.name, [self.call_value(args[0], [v.args[0]])]) if v.args else v
                return self.it_map(it, args[0])
            if n in ('sum', 'product'):
                r = self.it_sum(it) if n == 'sum' else self.it_prod(it)
                ty = self.p.ty(e.get('t'))
                if ty in INTS:
                    self.event(n, ty, r)
                return r
            if n in ('count', 'len'):
                return self.it_len(it)
            if n == 'zip':
                o = self.to_iter(args[0] if isinstance(args[0], Ref) else self.deref(args[0]))
                if o is None:
                    return t.top('zip')
                if o.items is None and it.items is not None and o.dims and isinstance(o.elem, T) and False:
                    pass
                return self.it_zip(it, o)
            if n == 'enumerate':
                if it.items is not None:
                    return It(items=[Tup((num(i), x)) for i, x in enumerate(it.items)])
                if len(it.dims) == 1:
                    return It(dims=it.dims, elem=Tup((t.idx(it.dims[0][0]), it.elem)))
                raise Give('enumerate over nested comprehension')
            if n == 'rev':
                if it.items is not None:
                    return It(items=list(reversed(it.items)))
                if len(it.dims) == 1:
                    var, m = it.dims[0]
                    return It(dims=it.dims, elem=self.sub_idx(it.elem, var, t.sub(t.sub(m, t.ONE), t.idx(var))))
            if n in ('take', 'skip', 'step_by') and it.items is not None:
                k = self.scalar(args[0])
                if k.op == 'num':
                    k = int(k.a[0])
                    return It(items=it.items[:k] if n == 'take' else it.items[k:] if n == 'skip' else it.items[::k])
            if n == 'chain':
                o = self.to_iter(args[0])
                if it.items is not None and o is not None and o.items is not None:
                    return It(items=it.items + o.items)
                raise Give('chain')
            if n == 'flat_map':
                if it.items is not None:
                    out = []
                    for x in it.items:
                        q = self.call_value(args[0], [x])
                        o = self.to_iter(q)
                        d = self.deref(q)
                        if isinstance(d, Obj) and d.kind == 'filtered':
                            out += list(d.ps)
                        elif o is None or o.items is None:
                            raise Give('flat_map shape')
                        else:
                            out += [(t.TRUE, y) for y in o.items]
                    return self.filtered(out)
                o = self.to_iter(self.call_value(args[0], [it.elem]))
                if o is None:
                    return t.top('flat_map')
                if o.items is not None:
                    if all(isinstance(self.deref(x), T) for x in o.items):
                        return Obj('flatcomp', dims=it.dims, items=tuple(self.deref(x) for x in o.items))
                    raise Give('flat_map shape')
                return It(dims=list(it.dims) + list(o.dims), elem=o.elem)
            if n == 'for_each':
                self.run_loop(it, lambda x: self.call_value(args[0], [x]), -7)
                return UNIT
            if n == 'fold':
                c = self.new(args[0])

                def step(x):
                    self.store[c] = self.call_value(args[1], [self.store[c], x])
                self.run_loop(it, step, -8)
                return self.store[c]
            r = self.more_iter(n, it, args)
            if r is not None:
                return r
        if isinstance(v, Obj) and v.kind == 'flatcomp' and n == 'sum':
            e_ = t.add(*v.items)
            for var, m in reversed(v.dims):
                e_ = t.summ(var, m, e_)
            return e_
        if n == 'push' and isinstance(v0, Ref):
            if isinstance(v, Arr):
                self.write(v0, Arr(tuple(v) + (args[0],)))
                return UNIT
            self.write(v0, t.top('push'))
            return UNIT
        if n == 'len':
            if isinstance(v, Arr):
                return num(len(v))
            if isinstance(v, Comp):
                return v.dims[0][1]
        if n in ('first', 'last') and isinstance(v, Arr) and v:
            return Variant('Some', [v[0] if n == 'first' else v[-1]])
        if n == 'swap' and isinstance(v0, Ref) and isinstance(v, Arr):
            i, j = [self.scalar(x) for x in args]
            if i.op == 'num' and j.op == 'num':
                l = list(v)
                i, j = int(i.a[0]), int(j.a[0])
                l[i], l[j] = l[j], l[i]
                self.write(v0, Arr(l))
                return UNIT
        if isinstance(v, Closure) and n in ('call', 'call_mut', 'call_once'):
            a = args[0]
            return self.call_value(v, list(a) if isinstance(a, Tup) else [a])
        if isinstance(v, T) and v.op == 'top':
            return v
        h = self.hooks.get('method:' + n)
        if h is not None:
            return h(self, v, args)
        r = self.more_method(n, v0, v, args)
        if r is not None:
            return r
        return t.top('method %s on %s' % (n, type(v).__name__))

    def truth(self, f, x):
        c = self.call_value(f, [x])
        c = self.deref(c)
        return c if isinstance(c, T) else t.top('predicate')

    def more_iter(self, n, it, args):
        xs = it.items
        if xs is None:
            if n in ('min_by', 'max_by', 'last', 'nth', 'position', 'any', 'all', 'find', 'filter', 'take_while', 'skip_while', 'scan', 'inspect'):
                return t.top('iterator method ' + n)
            return None
        if n == 'inspect':
            return it
        if n in ('position', 'find', 'any', 'all', 'rposition'):
            if n == 'rposition':
                xs = list(reversed(xs))
            cs = [self.truth(args[0], x) for x in xs]
            if n == 'any':
                return self.fold_or(cs)
            if n == 'all':
                return t.bnot(self.fold_or([t.bnot(c) for c in cs]))
            out = Variant('None')
            for i, (c, x) in reversed(list(enumerate(zip(cs, xs)))):
                out = self.merge(c, Variant('Some', [num(len(xs) - 1 - i if n == 'rposition' else i) if n != 'find' else x]), out)
            return out
        if n in ('filter', 'take_while', 'skip_while'):
            cs = [self.truth(args[0], x) for x in xs]
            if n == 'take_while':
                for i in range(1, len(cs)):
                    cs[i] = t.band(cs[i - 1], cs[i])
            if n == 'skip_while':
                sk = t.TRUE
                for i in range(len(cs)):
                    sk = t.band(sk, cs[i])
                    cs[i] = t.bnot(sk)
            return self.filtered(list(zip(cs, xs)))
        if n == 'filter_map':
            out = []
            for x in xs:
                o = self.as_opt(self.deref(self.call_value(args[0], [x])))
                if o is None:
                    return t.top('filter_map')
                out.append(o)
            return self.filtered(out)
        if n == 'last':
            return Variant('Some', [xs[-1]]) if xs else Variant('None')
        if n == 'nth':
            k = self.scalar(args[0])
            if k.op == 'num':
                return Variant('Some', [xs[int(k.a[0])]]) if int(k.a[0]) < len(xs) else Variant('None')
        if n in ('windows', 'chunks', 'chunks_exact'):
            k = self.scalar(args[0])
            if k.op == 'num' and k.a[0] > 0:
                k = int(k.a[0])
                ys = [self.strip(x) for x in xs]
                if n == 'windows':
                    return It(items=[Arr(ys[i:i + k]) for i in range(len(ys) - k + 1)])
                q = [Arr(ys[i:i + k]) for i in range(0, len(ys), k)]
                return It(items=[z for z in q if n == 'chunks' or len(z) == k])
        if n == 'scan':
            c = self.new(args[0])
            out = []
            for x in xs:
                o = self.as_opt(self.deref(self.call_value(args[1], [Ref(c), x])))
                if o is None or o[0] != t.TRUE:
                    return t.top('scan')
                out.append(o[1])
            return It(items=out)
        if n == 'unzip':
            ys = [self.strip(x) for x in xs]
            if all(isinstance(y, Tup) and len(y) == 2 for y in ys):
                return Tup((Arr(y[0] for y in ys), Arr(y[1] for y in ys)))
        if n == 'partition_point':
            out = t.ZERO
            for x in reversed(xs):
                out = t.ite(self.truth(args[0], x), t.add(t.ONE, out), t.ZERO)
            return out
        if n in ('max_by', 'min_by', 'max_by_key', 'min_by_key', 'partition', 'group_by'):
            return t.top('iterator method ' + n)
        if n == 'reduce' and xs:
            acc = self.strip(xs[0])
            for x in xs[1:]:
                acc = self.call_value(args[0], [acc, x])
            return Variant('Some', [acc])
        return None

    def fold_or(self, cs):
        out = t.FALSE
        for c in cs:
            if c.op == 'top':
                return c
            out = t.bor(out, c)
        return out

    def filtered(self, ps):
        ps = [(c, x) for c, x in ps if c != t.FALSE]
        if all(c == t.TRUE for c, _ in ps):
            return It(items=[x for _, x in ps])
        return Obj('filtered', ps=tuple(ps))

    def more_method(self, n, v0, v, args):
        if isinstance(v, Arr) and n in ('partition_point', 'windows', 'chunks', 'chunks_exact', 'last', 'scan', 'position'):
            return self.more_iter(n, self.to_iter(v0 if isinstance(v0, Ref) else v), args)
        if isinstance(v, Arr) and n in ('get',):
            k = self.scalar(args[0])
            if k.op == 'num':
                return Variant('Some', [v[int(k.a[0])]]) if 0 <= int(k.a[0]) < len(v) else Variant('None')
        if isinstance(v, Arr) and n == 'is_empty':
            return t.FALSE if v else t.TRUE
        if isinstance(v, Arr) and n == 'fill' and isinstance(v0, Ref):
            self.write(v0, Arr([args[0]] * len(v)))
            return UNIT
        if isinstance(v, Arr) and n in ('copy_from_slice', 'clone_from_slice') and isinstance(v0, Ref):
            self.write(v0, self.deref(args[0]))
            return UNIT
        if isinstance(v, Arr) and n == 'reverse' and isinstance(v0, Ref):
            self.write(v0, Arr(reversed(v)))
            return UNIT
        if isinstance(v, Arr) and n == 'extend' and isinstance(v0, Ref):
            o = self.to_iter(args[0])
            if o is not None and o.items is not None:
                self.write(v0, Arr(list(v) + [self.strip(x) for x in o.items]))
                return UNIT
        if n in ('then', 'then_some') and isinstance(v, T):
            x = args[0] if n == 'then_some' else self.branch(v, lambda: self.call_value(args[0], []), lambda: t.ZERO)
            return self.opt(v, args[0] if n == 'then_some' else x)
        if isinstance(v, Obj) and v.kind == 'filtered':
            if n == 'count':
                return t.add(t.ZERO, *[t.ite(c, t.ONE, t.ZERO) for c, _ in v.ps])
            if n in ('sum',):
                return t.add(t.ZERO, *[t.ite(c, self.scalar(x), t.ZERO) for c, x in v.ps])
            if n == 'map':
                return self.filtered([(c, self.call_value(args[0], [x])) for c, x in v.ps])
            if n in ('copied', 'cloned', 'into_iter', 'iter', 'by_ref', 'collect', 'to_vec', 'peekable', 'fuse', 'as_slice'):
                return v
            if n == 'product':
                return t.mul(t.ONE, *[t.ite(c, self.scalar(x), t.ONE) for c, x in v.ps])
            if n == 'len':
                return t.add(t.ZERO, *[t.ite(c, t.ONE, t.ZERO) for c, _ in v.ps])
            if n == 'filter':
                return self.filtered([(t.band(c, self.truth(args[0], x)), x) for c, x in v.ps])
            if n == 'filter_map' or n == 'flat_map':
                out = []
                for c, x in v.ps:
                    q = self.deref(self.call_value(args[0], [x]))
                    o = self.as_opt(q)
                    if o is not None:
                        out.append((t.band(c, o[0]), o[1]) if o[0] != t.FALSE else (t.FALSE, t.ZERO))
                        continue
                    it2 = self.to_iter(q)
                    if n == 'flat_map' and isinstance(q, Obj) and q.kind == 'filtered':
                        out += [(t.band(c, c2), y) for c2, y in q.ps]
                    elif n == 'flat_map' and it2 is not None and it2.items is not None:
                        out += [(c, y) for y in it2.items]
                    else:
                        return t.top(n)
                return self.filtered(out)
            if n == 'fold':
                k = self.new(args[0])

                def step(x):
                    self.store[k] = self.call_value(args[1], [self.store[k], x])
                    return UNIT
                for c, x in v.ps:
                    self.branch(c, lambda: step(x), lambda: UNIT)
                return self.store[k]
            if n == 'next':
                out = Variant('None')
                for c, x in reversed(v.ps):
                    out = self.merge(c, Variant('Some', [x]), out)
                return out
            if n == 'last':
                out = Variant('None')
                for c, x in v.ps:
                    out = self.merge(c, Variant('Some', [x]), out)
                return out
            if n == 'for_each':
                for c, x in v.ps:
                    self.branch(c, lambda: self.call_value(args[0], [x]), lambda: UNIT)
                return UNIT
        o = self.as_opt(v) if isinstance(v, (Obj, Variant)) else None
        if o is not None:
            c, x = o
            if n == 'is_some':
                return c
            if n == 'is_none':
                return t.bnot(c)
            if n in ('unwrap', 'expect', 'copied', 'cloned', 'as_ref', 'unwrap_unchecked'):
                return v if n in ('copied', 'cloned', 'as_ref') else x
            if n == 'unwrap_or':
                return args[0] if x is None else self.merge(c, x, args[0])
            if n in ('unwrap_or_else', 'map_or', 'map_or_else', 'map'):
                some = (lambda: x) if n == 'unwrap_or_else' else (lambda: self.call_value(args[-1], [x]))
                none = (lambda: self.call_value(args[0], [])) if n in ('unwrap_or_else', 'map_or_else') else (lambda: args[0])
                if n == 'map':
                    return v if x is None else self.opt(c, self.call_value(args[0], [x]))
                if c == t.TRUE:
                    return some()
                if c == t.FALSE:
                    return none()
                return self.branch(c, some, none)
            if n in ('unwrap_or_default',):
                return t.ZERO if x is None else self.merge(c, x, t.ZERO)
        return None

    def strip(self, x):
        return self.deref(x) if isinstance(x, Ref) else x

    def num_method(self, n, p, v, args, e):
        a = [self.deref(x) for x in args]
        if v.op == 'top':
            return v
        for x in a:
            if isinstance(x, T) and x.op == 'top':
                return x
        S = lambda i: a[i] if isinstance(a[i], T) else t.top('arg')
        ty = self.p.ty(e.get('t'))
        if n in ('powi', 'powf', 'pow'):
            if n == 'pow':
                self.event('arith', ty, 'pow', v, S(0))
            return t.power(v, S(0))
        if n in ('unwrap', 'expect') and self.events is not None:
            c = e['r']
            src = c.get('r') if c.get('k') == 'Method' and c.get('n') == 'try_into' else \
                c['a'][0] if c.get('k') == 'Call' and str(c['f'].get('p', '')).endswith('::try_from') else None
            if src is not None:
                frm = self.p.ty(src.get('t')).lstrip('&').strip()
                if frm in INTS and ty in INTS:
                    self.event('convert', frm, ty, v)
        if n in ('clone', 'into', 'to_owned', 'unwrap', 'try_into', 'borrow', 'expect', 'copied', 'cloned', 'abs_sub_dummy', 'as_ref', 'unwrap_or_default', 'deref', 'unwrap_or'):
            return v
        if n == 'sqrt':
            return t.sqrt(v)
        if n == 'cbrt':
            return t.power(v, num(Fraction(1, 3)))
        if n == 'exp':
            return t.exp(v)
        if n == 'exp2':
            return t.power(num(2), v)
        if n == 'exp_m1':
            return t.sub(t.exp(v), t.ONE)
        if n == 'ln':
            return t.ln(v)
        if n == 'ln_1p':
            return t.ln(t.add(t.ONE, v))
        if n == 'log10':
            return t.div(t.ln(v), t.ln(num(10)))
        if n == 'log2':
            return t.div(t.ln(v), t.ln(num(2)))
        if n == 'log':
            return t.div(t.ln(v), t.ln(S(0)))
        if n == 'sinh':
            return t.sinh(v)
        if n == 'cosh':
            return t.cosh(v)
        if n == 'tanh':
            return t.tanh(v)
        if n == 'atanh':
            return t.mul(num(Fraction(1, 2)), t.ln(t.div(t.add(t.ONE, v), t.sub(t.ONE, v))))
        if n == 'asinh':
            return t.ln(t.add(v, t.sqrt(t.add(t.power(v, num(2)), t.ONE))))
        if n == 'acosh':
            return t.ln(t.add(v, t.sqrt(t.sub(t.power(v, num(2)), t.ONE))))
        if n == 'sin':
            return t.sin(v)
        if n == 'cos':
            return t.cos(v)
        if n == 'tan':
            return t.div(t.sin(v), t.cos(v))
        if n == 'sin_cos':
            return Tup((t.sin(v), t.cos(v)))
        if n in ('acos', 'asin', 'atan'):
            return t.fn(n, v)
        if n == 'recip':
            return t.power(v, num(-1))
        if n == 'mul_add':
            return t.add(t.mul(v, S(0)), S(1))
        if n == 'hypot':
            return t.sqrt(t.add(t.power(v, num(2)), t.power(S(0), num(2))))
        if n == 'abs':
            if t.positive(v):
                return v
            if v.op == 'num':
                return num(abs(v.a[0]))
            return t.fn('abs', v)
        if n in ('ceil', 'floor', 'round', 'trunc'):
            if t.is_int(v):
                return v
            return t.fn(n, v)
        if n == 'copysign':
            return t.mul(t.fn('abs', v) if not t.positive(v) else v, t.ite(t.lt(S(0), t.ZERO), num(-1), t.ONE))
        if n == 'signum':
            return t.ite(t.lt(v, t.ZERO), num(-1), t.ONE)
        if n == 'max':
            return t.ite(t.lt(v, S(0)), S(0), v)
        if n == 'min':
            return t.ite(t.lt(v, S(0)), v, S(0))
        if n == 'clamp':
            return t.ite(t.lt(v, S(0)), S(0), t.ite(t.lt(S(1), v), S(1), v))
        if n in ('add', 'sub', 'mul', 'div'):
            return self.binop({'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[n], v, S(0), ty)
        if n == 'neg':
            return t.neg(v)
        if n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            return self.binop({'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[n], v, S(0), 'bool')
        if n.startswith(('wrapping_', 'saturating_', 'checked_', 'overflowing_')):
            w, o = n.split('_', 1)
            o = {'add': '+', 'sub': '-', 'mul': '*'}.get(o)
            if o is None or w == 'overflowing':
                return t.top('numeric method ' + n)
            x = self.binop(o, v, S(0), 'x')
            it = self.p.ty(e.get('t')) if w != 'checked' else self.p.ty(e['r'].get('t')).lstrip('&').strip() if e.get('r') else ''
            lo, hi = RANGE.get(it, (None, None))
            if x.op == 'num' and lo is not None and lo <= x.a[0] <= hi:
                return Variant('Some', [x]) if w == 'checked' else x
            small = it not in BIG
            below = t.lt(x, num(lo)) if lo is not None and (o == '-' or small) else t.FALSE
            above = t.lt(num(hi), x) if hi is not None and small else t.FALSE
            if w == 'checked':
                return self.opt(t.bnot(t.bor(below, above)), x)
            if w == 'saturating' and lo is not None:
                return t.ite(below, num(lo), t.ite(above, num(hi), x))
            if w == 'wrapping' and lo is not None and (small or o == '-'):
                if x.op == 'num':
                    return num((int(x.a[0]) - lo) % (hi - lo + 1) + lo)
                return t.fn('wrap:' + it, x) if small else x
            return x
        if n in ('to_radians',):
            return t.mul(v, t.PI, num(Fraction(1, 180)))
        if n in ('is_nan', 'is_infinite'):
            return t.FALSE
        if n == 'is_finite':
            return t.TRUE
        if n == 'then_some':
            return None
        if n in ('iter', 'into_iter', 'collect', 'map', 'zip'):
            return t.top('iterating a scalar')
        return t.top('numeric method ' + n)
