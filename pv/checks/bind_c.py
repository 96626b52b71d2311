"""A01: the C ABI computes exactly the Rust library function."""
from .. import terms as t, numeric
from ..interp import Interp, Ref, Give, Dead

SCALARS = {'f64', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'f32', 'bool'}
INTS = SCALARS - {'f64', 'f32', 'bool'}
CRATE_FN = lambda p: p.startswith('crate::')


def parent_mod(path):
    """crate::a::b::ex::sym -> crate::a::b   (the module the export file belongs to)"""
    parts = path.split('::')
    return '::'.join(parts[:-2])


def arg_syms(ctx, tys, tag='a'):
    """one symbol per position; the same list is handed to both sides of an equivalence"""
    out = []
    for i, ti in enumerate(tys):
        ty = ctx.ty(ti) if not isinstance(ti, str) else ti
        base = ty.replace('&', '').replace('mut ', '').replace("'static ", '').strip()
        out.append(t.sym('%s%d' % (tag, i), 'int' if base in INTS else 'real'))
    return out


def give(ctx, I, ty, s):
    """abstract argument of type ty holding symbol s"""
    if ty.startswith('*') or ty.startswith('&'):
        return Ref(I.new(s))
    return s


def applied(ctx, path, syms, opaque, order=None, hooks=None):
    b = ctx.bodies[path]
    I = Interp(ctx.prog, opaque=opaque, hooks=hooks)
    try:
        args = [give(ctx, I, ctx.ty(ti), s) for ti, s in zip(b['in'], syms)]
        r = I.run(path, args)
        r = I.deref(r)
    except Give as g:
        return t.top(str(g)), I
    except (Dead, RecursionError):
        return t.top('diverges'), I
    if isinstance(r, t.T):
        return r, I
    fl = I.flat(r)
    return t.fn('value', *fl), I


def direct(ctx, path, syms):
    """the opaque application of a library function to the symbols"""
    return t.fn('call:' + path, *syms)


def equivalent(ctx, exported, target, syms):
    """exported(syms) == target(syms)?  First with every crate function uninterpreted (congruence), then inlined."""
    e, _ = applied(ctx, exported, syms, lambda p: CRATE_FN(p) and p != exported)
    d = direct(ctx, target, syms)
    if t.equal(e, d, refine=False) is True:
        return True, 'congruent'
    e0 = e
    e, _ = applied(ctx, exported, syms, lambda p: False)
    d, _ = applied(ctx, target, syms, lambda p: False)
    r = t.equal(e, d)
    if r is None and e0.op == 'fn' and e0.a[0] == 'call:' + target and len(e0.a) == 1 + len(syms):
        # the library call itself cannot be compared: an argument which differs from the parameter it stands for
        for i, (x, s) in enumerate(zip(e0.a[1:], syms)):
            if t.equal(x, s) is not True and numeric.confirmed(x, s) is True and not t.has_top(x):
                return False, 'argument %d of the call is %s' % (i, t.show(x)[:160])
    return r, 'inlined: %s  versus  %s' % (t.show(e)[:160], t.show(d)[:160])


def exports(ctx):
    return [b for b in ctx.prog.allbodies if (b.get('no_mangle') or b.get('export')) and b['kind'] in ('Fn', 'AssocFn')
            and not b['name'].startswith('PyInit_') and '::py::' not in b['path']]


def symbol(b):
    return b['export'] if isinstance(b.get('export'), str) and b['export'] else b['name']


def expected_target(ctx, b):
    """the library function an exported symbol names:  physics_single_chain_fjc_…_force -> crate::physics::…::force"""
    sym = symbol(b)
    best = ctx.by_symbol.get(sym)
    return best


def index_symbols(ctx):
    if not hasattr(ctx, 'by_symbol'):
        ctx.by_symbol = {}
        for b in ctx.prog.allbodies:
            if b['kind'] == 'Fn' and not b.get('no_mangle') and not b.get('export') and '::py::' not in b['path'] \
                    and '::{' not in b['path']:
                ctx.by_symbol.setdefault('_'.join(b['path'].split('::')[1:]), b['path'])
    return ctx.by_symbol


OFFSETS = {'add', 'sub', 'offset', 'wrapping_add', 'wrapping_sub', 'wrapping_offset', 'byte_add', 'byte_sub', 'byte_offset'}
WRITES = {'write', 'write_volatile', 'write_unaligned', 'write_bytes', 'replace', 'swap', 'copy_from', 'copy_to', 'copy_from_nonoverlapping',
          'copy_to_nonoverlapping', 'drop_in_place', 'as_mut'}


def memory(ctx, b):
    """accesses through the pointers an exported function is given that leave or change what the caller passed"""
    from .effects import nodes
    given = {ctx.ty(x) for x in b['in'] if ctx.ty(x).startswith('*')}
    if not given:
        return
    ty = lambda n: ctx.ty(n.get('t')) if n.get('t') is not None else ''
    given |= {ty(n) for n in nodes(b['body']) if n.get('k') == 'Local' and ty(n).startswith('*const [')}

    def place(n):
        while n['k'] in ('Index', 'Field'):
            n = n['a'] if 'a' in n else n['e']
        return n
    for n in nodes(b['body']):
        k = n.get('k')
        if k == 'Method' and ty(n['r']).startswith('*'):
            if n['n'] in WRITES and ty(n['r']).startswith('*mut'):
                yield 'writes through a pointer it was given (%s)' % n['n']
            if n['n'] in OFFSETS and ty(n['r']) in given and not (n['a'] and n['a'][0]['k'] == 'Lit' and str(n['a'][0]['v'][1]) == '0'):
                yield 'reads beyond the object it was given (%s)' % n['n']
        if k in ('Assign', 'AssignOp'):
            q = place(n['a'])
            if q['k'] == 'Un' and q['op'] == '*' and ty(q['a']).startswith('*'):
                yield 'writes through a pointer it was given'
        if k == 'Ref' and n.get('mut') and place(n['a']).get('k') == 'Un' and place(n['a'])['op'] == '*' and ty(place(n['a'])['a']).startswith('*mut'):
            yield 'takes a pointer it was given as mutable'


def a01(ctx, rep):
    if 'extern' not in ctx.features:
        rep.bad('build:extern', 'the crate does not type-check with the extern feature: ' + ctx.dump.get('log', '')[-800:])
    index_symbols(ctx)
    ex = exports(ctx)
    seen = {}
    for b in ex:
        sym = symbol(b)
        rep.analysed.add(b['path'])
        if sym in seen:
            rep.bad('dup:' + sym, 'two exported functions share the symbol %s' % sym)
        seen[sym] = b
        tgt = expected_target(ctx, b)
        if tgt is None:
            rep.bad('symbol:' + sym, '%s:%s: the exported symbol %s names no library function' % (b['file'], b['line'], sym))
            continue
        tb = ctx.bodies[tgt]
        rep.analysed.add(tgt)
        ein = [ctx.ty(x) for x in b['in']]
        tin = [ctx.ty(x) for x in tb['in']]
        if 'C' not in (b.get('abi') or ''):
            rep.bad('abi:' + sym, '%s:%s: %s is not exported with the C calling convention (%s)' % (b['file'], b['line'], sym, b.get('abi')))
        else:
            rep.ok('abi:' + sym)
        def core(x):
            return x.replace('*const ', '').replace('*mut ', '').replace('&', '').replace('mut ', '').strip()
        if len(ein) != len(tin) or any(core(x) != core(y) and core(x) in SCALARS | {'f64'} for x, y in zip(ein, tin)) \
                or ctx.ty(b['out']) != ctx.ty(tb['out']):
            rep.bad('signature:' + sym, '%s:%s: %s(%s) -> %s does not take the parameters of %s(%s) -> %s' % (
                b['file'], b['line'], sym, ', '.join(ein), ctx.ty(b['out']), tgt, ', '.join(tin), ctx.ty(tb['out'])))
            continue
        rep.ok('signature:' + sym)
        for what in memory(ctx, b):
            rep.bad('memory:' + sym, '%s:%s: the exported %s %s' % (b['file'], b['line'], sym, what))
        syms = arg_syms(ctx, b['in'])
        r, why = equivalent(ctx, b['path'], tgt, syms)
        rep.put('value:' + sym, r, '%s(a0,…,a%d) = %s(a0,…)' % (sym, len(syms) - 1, tgt),
                '%s:%s: the exported %s does not return %s of its arguments in order (%s)' % (b['file'], b['line'], sym, tgt, why))
    rep.floor('exported C functions', len(ex), 556)
    rep.floor('exported C functions with a decided value', rep.count('ok', 'value') + rep.count('bad', 'value'), 540)
    return rep.finish(
        'for every #[no_mangle] function: its symbol is the module path and name of a library function, its signature '
        'has the same scalar types in the same order, and its value number on symbolic arguments equals that of the '
        'library function on the same arguments', level='translation_validation')


CHECKS = {'A01': a01}
