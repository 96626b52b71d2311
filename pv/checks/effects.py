"""D01-D04: effects, memory, integer ranges, termination."""
import re
from .. import terms as t, model, ranges
from ..interp import Interp, Give, Dead, INTS
from ..model import CONSTS
from ..core import *
from ..interp import Ref
from .bind_obj import classes, roles_of, build, is_init, S

STATEFUL = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Mutex|RwLock|Atomic\w+|LocalKey|Once|Condvar|'
                      r'SyncUnsafeCell|GILOnceCell|ThreadRng|StdRng|SmallRng)\b')
PURE = ('std::f64', 'core::f64', 'std::f32', 'core::f32', 'core::num', 'std::num', 'core::slice', 'std::slice', 'std::iter', 'core::iter',
        'std::option', 'core::option', 'std::result', 'core::result', 'std::ops', 'core::ops', 'std::convert', 'core::convert', 'std::array',
        'core::array', 'std::vec', 'alloc::', 'std::boxed', 'std::cmp', 'core::cmp', 'std::clone', 'core::clone', 'std::default', 'core::default',
        'core::panicking', 'std::panicking', 'std::rt', 'core::fmt', 'std::fmt', 'std::borrow', 'core::borrow', 'std::string', 'core::str',
        'std::str', 'std::i32', 'std::u8', 'std::u32', 'std::usize', 'std::u128', 'core::u8', 'core::u128', 'std::mem', 'core::mem', 'std::primitive',
        'std::hint', 'core::hint', 'std::marker', 'core::marker', 'core::macros', 'std::collections::VecDeque', 'std::collections::BTree',
        'core::bool', 'std::bool', 'core::tuple', 'std::ptr::null', 'std::any::type_name', 'core::array', 'std::intrinsics', 'core::intrinsics')
IMPURE = ('std::time', 'std::env', 'std::fs', 'std::io', 'std::net', 'std::process', 'std::thread', 'std::sync', 'core::sync', 'std::cell', 'core::cell',
          'rand', 'getrandom', 'std::hash', 'std::collections::Hash', 'std::alloc', 'libc', 'std::os', 'core::arch', 'std::arch')


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def library(ctx):
    """bodies of the library proper: no tests, no macro-generated pyo3 glue"""
    out = {}
    for b in ctx.prog.allbodies:
        p = b['path']
        if '::test::' in p or '::tests::' in p or '_::<impl' in p or '__pymethod' in p or '__pyfunction' in p or b.get('exp'):
            continue
        if b['kind'] in ('Fn', 'AssocFn') and '::py' not in p:
            out[p] = b
    return out


def callees(b):
    for n in nodes(b['body']):
        k = n.get('k')
        if k == 'Method' and n.get('p'):
            yield n['p'], n
        elif k == 'Def' and n.get('dk') != 'Other' and isinstance(n.get('p'), str):
            yield n['p'], n


def d01(ctx, rep):
    lib = library(ctx)
    statics = {b['path']: b for b in ctx.prog.allbodies if b['kind'].startswith('Static')}
    und = {}
    for p in sorted(lib):
        b = lib[p]
        rep.analysed.add(p)
        mc = '::monte_carlo' in p
        why = None
        soft = None
        ins = [ctx.ty(i) for i in b['in']]
        for ty in ins:
            if ty.startswith('&mut') or '&mut ' in ty[:12]:
                if not (mc and 'Rng' in ty):
                    soft = soft or 'takes %s' % ty
            if '*mut' in ty:
                why = why or 'takes a mutable raw pointer (%s)' % ty
        if b['name'] and ins and ins[0].startswith('&mut crate::'):
            why = why or 'modifies the model object it is called on'
        for q, n in callees(b):
            if q in statics:
                s = statics[q]
                ty = ctx.ty(s['out']) if s.get('out') is not None and not isinstance(s.get('out'), str) else ''
                if s.get('static_mut') or STATEFUL.search(ty):
                    why = why or 'uses the mutable static %s (%s)' % (q, ty[:60])
                continue
            ty = ctx.ty(n.get('t'))
            if n.get('k') == 'Def' and n.get('dk', '').startswith(('Const', 'Static', 'AssocConst')) and STATEFUL.search(ty):
                why = why or 'uses shared mutable state %s: %s' % (q, ty[:60])
                continue
            if q.startswith('crate::') or q.startswith('<'):
                continue
            if q.startswith(PURE):
                continue
            if q.startswith('rand') and mc:
                continue
            if q.startswith(IMPURE):
                why = why or 'calls %s' % q
            elif '::' in q and q.split('::')[0] in ('std', 'core', 'rand', 'libc'):
                soft = soft or 'calls %s, whose effects are not known' % q
        key = 'pure:' + p[7:]
        rule = 'no mutable static, thread-local, clock, environment, I/O, randomness outside Monte Carlo, or argument mutation'
        if why:
            rep.bad(key, '%s: %s %s: its result or effect can depend on more than its arguments' % (ctx.where(p), p[7:], why))
        elif soft:
            rep.und(key, soft)
        else:
            rep.ok(key, rule)
    nf = 0
    for s, st in sorted(ctx.prog.structs.items()):
        if '::py' in s or '::test' in s:
            continue
        for f in st.get('fields', []):
            name, ty = f[0], ctx.ty(f[1]) if not isinstance(f[1], str) else f[1]
            nf += 1
            key = 'immutable:%s.%s' % (s[7:], name)
            if STATEFUL.search(ty) or '&mut' in ty or '*mut' in ty:
                rep.bad(key, 'the field %s of %s has interior mutability (%s): method calls can influence each other' % (name, s[7:], ty))
            else:
                rep.ok(key, 'no interior mutability')
    rep.floor('functions and methods', len(lib), 1700)
    rep.floor('fields of model objects', nf, 300)
    return rep.finish('effect analysis over the resolved call graph: every external callee and every static a function mentions is '
                      'classified; none may be stateful, and no model object has interior mutability')


# ---------------------------------------------------------------------------------------------- D04 termination

def d04(ctx, rep):
    lib = library(ctx)
    g = {p: sorted({q for q, n in callees(b) if q in lib and q != p} | ({p} if any(q == p for q, _ in callees(b)) else set())) for p, b in lib.items()}
    # strongly connected components: recursion
    idx, low, st, on, out = {}, {}, [], set(), []
    c = [0]

    def sc(v):
        work = [(v, iter(g[v]))]
        idx[v] = low[v] = c[0]
        c[0] += 1
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]
                    c[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    out.append(comp)
    for v in sorted(g):
        if v not in idx:
            sc(v)
    for comp in out:
        rec = len(comp) > 1 or comp[0] in g[comp[0]]
        for p in comp:
            rep.analysed.add(p)
            if rec:
                rep.bad('recursion:' + p[7:], '%s: %s is (mutually) recursive: its termination is not bounded' % (ctx.where(p), p[7:]))
            else:
                rep.ok('recursion:' + p[7:], 'not recursive')
    nl = 0
    for p in sorted(lib):
        b = lib[p]
        k = {}
        for n in nodes(b['body']):
            if n.get('k') not in ('For', 'While', 'Loop'):
                continue
            nl += 1
            i = k[n['k']] = k.get(n['k'], 0) + 1
            key = 'loop:%s:%s%d' % (p[7:], n['k'], i)
            loc = '%s:%s' % (b['file'], n.get('l', b['line']))
            if n['k'] == 'For':
                ty = ctx.ty(n['it'].get('t'))
                if 'RangeFrom' in ty or 'Repeat' in ty or 'Cycle' in ty or 'iter::FromFn' in ty or 'Successors' in ty:
                    if has_break(n['b']):
                        rep.und(key, 'unbounded iterator with an exit')
                    else:
                        rep.bad(key, '%s: a for loop over an unbounded iterator (%s)' % (loc, ty))
                else:
                    rep.ok(key, 'iterates over a finite sequence')
                continue
            r, why = bounded(ctx, n, b['body'])
            if r is True:
                rep.ok(key, why)
            elif r is False:
                rep.bad(key, '%s: in %s %s' % (loc, p[7:], why))
            else:
                rep.und(key, why)
        for n in nodes(b['body']):
            if n.get('k') == 'Method' and n['n'] in ('cycle', 'repeat', 'successors') and 'iter' in n.get('p', '').lower():
                rep.und('iter:%s:%s' % (p[7:], n['n']), 'unbounded iterator adapter')
            if n.get('k') == 'Struct' and 'RangeFrom' in ctx.ty(n.get('t')):
                rep.und('iter:%s:RangeFrom' % p[7:], 'half-open range')
    rep.floor('functions and methods', len(lib), 1700)
    rep.floor('loops', nl, 5)
    return rep.finish('the call graph of the library has no cycle, every for loop iterates over a finite sequence, and every while loop '
                      'is bounded by a counter that every iteration increases and nothing else changes')


def has_break(x):
    return any(n.get('k') in ('Break', 'Ret') for n in nodes(x))


def strip(e):
    while e['k'] in ('Ref', 'Cast') or (e['k'] == 'Un' and e['op'] == '*') or (e['k'] == 'Block' and not e['b']['s'] and e['b']['e']):
        e = e['b']['e'] if e['k'] == 'Block' else e['a']
    return e


def conjuncts(e):
    if e['k'] == 'Bin' and e['op'] in ('&&', '&'):
        return conjuncts(e['a']) + conjuncts(e['b'])
    return [e]


def assigned(body, lid):
    for n in nodes(body):
        if n.get('k') in ('Assign', 'AssignOp'):
            a = strip(n['a'])
            if a['k'] == 'Local' and a['id'] == lid:
                yield n


NARROW = {'u8': 2 ** 8 - 1, 'u16': 2 ** 16 - 1, 'u32': 2 ** 32 - 1, 'i8': 2 ** 7 - 1, 'i16': 2 ** 15 - 1, 'i32': 2 ** 31 - 1, 'f32': 2 ** 24}


def narrow_counters(ctx, path):
    """accumulations into an element (through an index or a reference) whose type cannot hold as many counts as there may be
    samples, in a function and the functions of its module it calls: (function, node, type)"""
    mod = path.rsplit('::', 1)[0] + '::'
    seen, work = set(), [path]
    while work:
        p = work.pop()
        if p in seen or p not in ctx.bodies:
            continue
        seen.add(p)
        for n in nodes(ctx.bodies[p]['body']):
            q = n.get('p')
            if isinstance(q, str) and q.startswith(mod):
                work.append(q)
            if n.get('k') not in ('Assign', 'AssignOp'):
                continue
            a = n['a']
            ty = ctx.ty(a.get('t')) if a.get('t') is not None else ''
            if ty not in NARROW or not any(x.get('k') == 'Index' or x.get('k') == 'Un' and x.get('op') == '*' for x in nodes(a)):
                continue
            if n['k'] == 'AssignOp' and n['op'].rstrip('=') == '+':
                yield p, n, ty
            elif n['k'] == 'Assign' and n['b'].get('k') == 'Bin' and n['b'].get('op') == '+':
                yield p, n, ty


def mut_borrowed(body, lid):
    return any(n.get('k') == 'Ref' and n.get('mut') and strip(n['a']).get('id') == lid for n in nodes(body))


def always(e, test, cont=True):
    """test holds of some sub-expression evaluated on every path through e that reaches the end of the iteration"""
    if e is None:
        return False
    if test(e):
        return True
    k = e.get('k')
    if k == 'Block':
        for s in e['b']['s']:
            x = s.get('e') or s.get('i')
            if x is not None:
                if always(x, test):
                    return True
                if any(n.get('k') in ('Continue',) for n in nodes(x)):
                    return False
        return always(e['b']['e'], test) if e['b']['e'] else False
    if k == 'If':
        if always(e['c'], test):
            return True
        return always(e['a'], test) and e.get('b') is not None and always(e['b'], test)
    if k == 'Match':
        return all(always(a['b'], test) for a in e['arms'])
    return False


def literal(e, lets):
    if e is None:
        return False
    e = strip(e)
    if e['k'] == 'Un' and e['op'] == '-':
        return literal(e['a'], lets)
    if e['k'] == 'Local' and e['id'] in lets:
        return literal(lets[e['id']], {})
    return e['k'] == 'Lit' and e['v'][0] in ('int', 'float') and abs(float(e['v'][1])) < 1e9


def counter_atom(ctx, c, body, neg, lets={}):
    """c (negated if neg) is 'i < bound', which fails after finitely many iterations: i moves by a positive constant on every iteration"""
    res = None
    c = strip(c)
    if c['k'] != 'Bin' or c['op'] not in ('<', '<=', '>', '>=', '==', '!='):
        return None
    for side, other in (('a', 'b'), ('b', 'a')):
        i, n = strip(c[side]), strip(c[other])
        if i['k'] != 'Local':
            continue
        if c['op'] in ('==', '!='):
            if (c['op'] == '==') != neg:                  # continues while i != n: only 'i == n' as an exit counts
                continue
            up = None
        else:
            up = (c['op'] in ('<', '<=')) == (side == 'a')
            if neg:
                up = not up
        asg = list(assigned(body, i['id']))
        if not asg or mut_borrowed(body, i['id']):
            continue

        def step(x):
            for u in ((True, False) if up is None else (up,)):
                if x.get('k') == 'AssignOp' and strip(x['a']).get('id') == i['id'] and strip(x['a'])['k'] == 'Local':
                    v = strip(x['b'])
                    if v['k'] == 'Lit' and v['v'][0] in ('int', 'float') and float(v['v'][1]) > 0:
                        if up is None and float(v['v'][1]) != 1:
                            continue
                        if x['op'].rstrip('=') == ('+' if u else '-'):
                            return True
                if x.get('k') == 'Assign' and strip(x['a']).get('id') == i['id'] and strip(x['a'])['k'] == 'Local':
                    v = strip(x['b'])
                    if v['k'] == 'Bin' and v['op'] == ('+' if u else '-') and strip(v['a']).get('id') == i['id']:
                        w = strip(v['b'])
                        if w['k'] == 'Lit' and w['v'][0] in ('int', 'float') and (float(w['v'][1]) > 0 if up is not None else float(w['v'][1]) == 1):
                            return True
            return False
        if not all(step(x) for x in asg):
            if ctx.ty(i.get('t')).lstrip('&') in INTS and all(x['k'] == 'AssignOp' and x['op'].rstrip('=') in ('*', '/', '>>', '<<') and strip(x['b'])['k'] == 'Lit' for x in asg):
                res = res or (None, 'a counter that is scaled on every iteration')
            continue
        if not always({'k': 'Block', 'b': body['b']} if body.get('k') == 'Block' else body, step):
            res = res or (None, 'the counter is not advanced on every path')
            continue
        vars_ = [x for x in nodes(n) if x.get('k') == 'Local']
        if any(list(assigned(body, x['id'])) or mut_borrowed(body, x['id']) for x in vars_):
            continue
        ty = ctx.ty(i.get('t')).lstrip('&')
        if ty in ('f64', 'f32') and not (literal(n, lets) and literal(lets.get(i['id']), lets)):
            # x - 1.0 == x above 2^53, and a bound or a start that is infinite or NaN is never reached
            res = (False, 'a loop counts in floating point from or to a computed number: for large or infinite values it does not end')
            continue
        if ty in INTS and up is not None and (c['op'] in ('<=', '>=')) != neg:
            # i <= n with n the largest value of the type never ends (or overflows)
            if not (n['k'] == 'Lit' or ty not in ('u8', 'i8')):
                return None, 'inclusive bound of a small integer type'
        return True, 'bounded by the counter %s' % i.get('n')
    return res


def literals(e, neg, lets, depth=0):
    """the conjuncts of e (negated if neg), as (comparison, negated?)"""
    e = strip(e)
    if e['k'] == 'Un' and e['op'] == '!':
        return literals(e['a'], not neg, lets, depth)
    if e['k'] == 'Bin' and e['op'] in (('||', '|') if neg else ('&&', '&')):
        return literals(e['a'], neg, lets, depth) + literals(e['b'], neg, lets, depth)
    if e['k'] == 'Local' and e['id'] in lets and depth < 8:
        return literals(lets[e['id']], neg, lets, depth + 1)
    return [(e, neg)]


def own(body):
    """nodes of a loop body outside the loops and closures inside it"""
    st = [body]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if n is not body and n.get('k') in ('For', 'While', 'Loop', 'Closure'):
                continue
            if 'k' in n:
                yield n
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


def bounded(ctx, n, fn_body=None):
    outer = {}
    for x in nodes(fn_body or {}):
        if x.get('k') == 'Block':
            for s in x['b']['s']:
                p, i = s.get('p'), s.get('i')
                if p and i is not None and p.get('k') == 'Bind':
                    outer[p.get('id')] = i
    body = n['b'] if n['k'] == 'While' else {'k': 'Block', 'b': n['b']}
    if n['k'] == 'Loop' and not has_break(body):
        return False, 'a loop without any exit'
    lets = {}
    for x in nodes(body):
        if x.get('k') == 'Block':
            for s in x['b']['s']:
                p, i = s.get('p'), s.get('i')
                if p and i is not None and p.get('k') == 'Bind' and not list(assigned(body, p.get('id'))):
                    lets[p.get('id')] = i
    cont = [] if n['k'] == 'Loop' else literals(n['c'], False, lets)
    seen = set()
    for x in own(body):
        if x.get('k') != 'If' or not always(body, lambda y, x=x: y is x):
            continue
        for br, neg in (('a', True), ('b', False)):
            if x.get(br) is not None and always(x[br], lambda y: y.get('k') in ('Break', 'Ret')):
                cont += literals(x['c'], neg, lets)
                seen |= {id(y) for y in nodes(x[br]) if y.get('k') in ('Break', 'Ret')}
    why = None
    for c, neg in cont:
        r = counter_atom(ctx, c, body, neg, {**outer, **lets})
        if r and r[0]:
            return r
        why = why or r
    if why:
        return why
    if any(x.get('k') == 'Match' and has_break(x) for x in own(body)) or any(x.get('k') == 'LetE' for c, _ in cont for x in nodes(c)) \
            or any(x.get('k') in ('Call', 'Method') and any(w in str(x.get('n', '')) for w in ('next', 'is_empty', 'len', 'pop')) for c, _ in cont for x in nodes(c)):
        return None, 'a loop left in a way the rule does not follow'
    return False, 'a loop has no bound on its number of iterations: no condition that every iteration tests is a bound on a counter ' \
                  'that every iteration advances (a convergence test on computed numbers need not ever be met)'


# ---------------------------------------------------------------------------------------------- D03 integer ranges and panics

# explicit rejections of invalid input, by module: documented method numbers, stretch below one, failed root finding,
# a Monte Carlo sample beyond the largest extension
REJECTS = {'constitutive::hyperelastic::buche_silberstein', 'constitutive::hyperelastic_damage::buche_silberstein',
           'physics::single_chain::wlc::thermodynamics::isotensional',
           'physics::single_chain::frc::thermodynamics::isometric::monte_carlo',
           'physics::single_chain::efrc::thermodynamics::isometric::monte_carlo',
           'physics::single_chain::efjc::thermodynamics::isometric::monte_carlo'}


def fam(path):
    p = path.split('::')[1:]
    if p and p[0] == 'physics':
        for i, x in enumerate(p):
            if x == 'thermodynamics':
                return '::'.join(p[:i])
    return '::'.join(p[:-1])


def operand(x):
    if x.op == 'num':
        return str(x.a[0])
    if x.op == 'sym':
        return x.a[0]
    return 'expr'


def d03(ctx, rep):
    M = model.get(ctx)
    entries = []
    for m in sorted(M.mods):
        for n in sorted(M.mods[m]):
            b = M.mods[m][n]
            entries.append((b['path'], M.args(b['path']), {}))
    lib = library(ctx)
    for p in sorted(lib):
        b = lib[p]
        if b['kind'] == 'Fn' and b['vis'] == 'Public' and (p.startswith('crate::math::') or p.startswith('crate::constitutive') or '::monte_carlo::' in p) and '::ex::' not in p \
                and 'integrate' not in p and 'newton' not in p:
            a, ok = [], True
            for i, q in zip(b['in'], b['ps']):
                ty = ctx.ty(i).replace('&', '').strip()
                if ty in INTS:
                    a.append(t.sym(q.get('n', '_'), 'int'))
                elif ty == 'f64':
                    a.append(t.sym(q.get('n', '_'), 'real'))
                else:
                    ok = False
                if ty in INTS:
                    pass
            if ok:
                entries.append((p, a, {}))
    sites = {}
    nent = 0
    covered, reached = set(), set()
    for path, args, gen in entries:
        b = ctx.bodies[path]
        I = Interp(ctx.prog, const_syms=CONSTS, summaries=not path.startswith('crate::math'))
        I.events = []
        rep.analysed.add(path)
        nent += 1
        key = 'entry:' + path[7:]
        try:
            I.run(path, args, gen)
            reached.add(path)
        except (Give, Dead, RecursionError) as e:
            pass
        syms = {}
        for x, i in zip(args, b['in']):
            ty = ctx.ty(i).replace('&', '').strip()
            if ty in ranges.TYPES:
                lo, hi = ranges.TYPES[ty]
                syms[x] = (1 if x.a[0] == 'number_of_links' else lo, hi)
        bad = []
        for ev in I.events:
            site, pc, kind, rest = ev[0], ev[1], ev[2], ev[3:]
            covered.add(site)
            r, k, why = judge(ctx, I, syms, site, pc, kind, rest)
            if k is None:
                continue
            old = sites.get(k)
            if old is None or (old[0] is True and r is not True) or (old[0] is None and r is False):
                sites[k] = (r, why, site)
    for k, (r, why, site) in sorted(sites.items()):
        if r is True:
            rep.ok(k, why)
        elif r is False:
            rep.bad(k, '%s: %s' % (ctx.where(site), why))
        else:
            rep.und(k, why)
    # the objects: constructors and methods, library functions opaque (judged above)
    for sp, (init, ms) in sorted(classes(ctx).items()):
        iroles = roles_of(ctx, M, init)
        jobs = [(init, None)] + [(m, 1) for m in ms]
        opq = lambda p: p.startswith('crate::') and not is_init(p)
        o, I0 = build(ctx, M, init, opq)
        for b, me in jobs:
            if me and o is None:
                continue
            I = Interp(ctx.prog, opaque=lambda p: opq(p) and p != b['path'], const_syms=CONSTS)
            if me:
                I.store, I.ncell, I.fresh = dict(I0.store), I0.ncell, I0.fresh
            I.events = []
            roles = roles_of(ctx, M, b)[1:] if me else iroles
            args = [S(r) for r in roles]
            syms = {t.sym(r, 'int'): (1 if r == 'number_of_links' else 0, 255) for r in iroles + roles if r in model.INT_ROLES}
            nent += 1
            try:
                I.run(b['path'], ([Ref(I.new(o))] if me else []) + args)
            except (Give, Dead, RecursionError):
                pass
            for ev in I.events:
                r, k, why = judge(ctx, I, syms, ev[0], ev[1], ev[2], ev[3:])
                if r is None and k is None:
                    continue
                if r is True:
                    rep.ok(k, why)
                elif r is False:
                    rep.bad(k, '%s: %s' % (ctx.where(ev[0]), why))
                else:
                    rep.und(k, why)
    # counts of samples: as many as the caller asks for
    nc = 0
    for p in sorted(lib):
        if '::monte_carlo::' in p and p.endswith('::nondimensional_equilibrium_radial_distribution'):
            nc += 1
            hits = list(narrow_counters(ctx, p))
            for q, n, ty in hits:
                rep.bad('count:' + q[7:], '%s: %s counts samples in %s, which overflows after %d of them' % (ctx.where(q), q[7:], ty, NARROW[ty]))
            if not hits:
                rep.ok('count:' + p[7:], 'samples are counted in numbers that hold every requested count')
    rep.extra['histograms'] = nc
    # explicit panics in functions the abstract execution did not get through
    np = 0
    for p in sorted(lib):
        mod = p[7:].rsplit('::', 1)[0]
        if not any(q.startswith('core::panicking') or q.startswith('std::rt::begin_panic') for q, _ in callees(lib[p])):
            continue
        np += 1
        if mod in REJECTS or any(mod.startswith(x + '::') for x in REJECTS):
            rep.ok('panic:' + mod, 'documented rejection of invalid input')
        elif p in reached:
            rep.ok('no-panic:' + p[7:], 'its panic is infeasible, or reported above')
        else:
            rep.bad('panic:' + mod, '%s: %s can panic' % (ctx.where(p), p[7:]))
    for p in sorted(covered):
        rep.analysed.add(p)
    rep.extra['explicit panic sites'] = np
    rep.extra['entry points'] = nent
    rep.extra['functions with integer operations, indexing or panics'] = len(covered)
    rep.floor('entry points', nent, 1150)
    rep.floor('sites', len(sites), 8)
    return rep.finish('interval analysis over the abstract values of every entry point: each integer operation, narrowing cast, index '
                      'and panic site is judged at the ranges of its operands under its path condition, for number_of_links in 1..255')


def judge(ctx, I, syms, site, pc, kind, rest):
    f = fam(site)
    try:
        R = ranges.Ranges(syms, I.idxn, pc)
    except ranges.Infeasible:
        return None, None, None
    try:
        if kind == 'panic':
            mod = site[7:].rsplit('::', 1)[0]
            k = 'panic:%s' % mod
            if mod in REJECTS or any(mod.startswith(x + '::') for x in REJECTS):
                return True, k, 'documented rejection of invalid input'
            return False, k, '%s can panic' % site[7:]
        if any(isinstance(x, t.T) and x.op != 'top' and any(q.a[0].startswith('#') for q in t.syms(x)) for x in rest):
            return None, None, None              # an intermediate state of a loop summary
        if kind == 'fcast':
            frm, to, v = rest
            if v.op == 'top':
                return None, None, None
            k = 'cast:%s:%s->%s(%s)' % (f, frm, to, operand(v))
            lo, hi = R.of(v)
            tl, th = ranges.TYPES[to]
            if lo >= tl and hi <= th:
                return True, k, 'the value fits %s' % to
            if t.is_int(v) and v.op != 'fn' and hi != ranges.INF and lo != -ranges.INF:
                return False, k, '%s: the cast of %s to %s saturates (it reaches [%s, %s])' % (site[7:], t.show(v)[:60], to, brief(lo), brief(hi))
            return None, k, 'the range of the converted number is not known'
        if kind == 'arith':
            ty, op, a, b = rest
            if op in ('<<', '>>'):
                return None, None, None
            k = 'arith:%s:%s %s(%s,%s)' % (f, ty, op, operand(a), operand(b))
            if a.op == 'top' or b.op == 'top':
                return None, None, None
            if op in ('/', '%'):
                lo, hi = R.of(b)
                if lo > 0 or hi < 0:
                    return True, k, 'divisor is not zero'
                if t.positive(b):
                    return True, k, 'divisor is positive'
                return (False if lo == 0 == hi else None), k, 'integer division by zero is possible'
            v = {'+': t.add, '-': t.sub, '*': t.mul, 'pow': t.power}[op](a, b)
            lo, hi = R.of(v)
            tl, th = ranges.TYPES[ty]
            if op == '-' and R.of(b)[0] >= 0:
                hi = min(hi, th)
            # operands that are themselves of unbounded value (converted from a real number) still fit their type
            if lo >= tl and hi <= th:
                return True, k, 'stays within %s' % ty
            return False, k, '%s: %s %s of %s and %s can leave the range of %s (it reaches [%s, %s])' % (
                site[7:], ty, op, t.show(a)[:60], t.show(b)[:60], ty, brief(lo), brief(hi))
        if kind in ('sum', 'product'):
            ty, v = rest
            if v.op == 'top':
                return None, None, None
            k = 'arith:%s:%s %s' % (f, ty, kind)
            lo, hi = R.of(v)
            tl, th = ranges.TYPES[ty]
            if lo >= tl and hi <= th:
                return True, k, 'stays within %s' % ty
            return False, k, '%s: a %s %s can leave the range of the type (up to %s)' % (site[7:], ty, kind, brief(hi))
        if kind in ('cast', 'convert'):
            frm, to, v = rest
            if v.op == 'top':
                return None, None, None
            k = kind + ':%s:%s->%s(%s)' % (f, frm, to, operand(v))
            lo, hi = R.of(v)
            fl, fh = ranges.TYPES[frm]
            lo, hi = max(lo, fl), min(hi, fh)
            tl, th = ranges.TYPES[to]
            if lo >= tl and hi <= th:
                return True, k, 'the value fits %s' % to
            if kind == 'convert':
                if hi == ranges.INF or lo == -ranges.INF:
                    return None, k, 'the range of the converted number is not known'
                return False, k, '%s: the conversion of %s from %s to %s panics outside [%s, %s]' % (site[7:], t.show(v)[:60], frm, to, tl, th)
            return False, k, '%s: the cast of %s from %s to %s changes values outside [%s, %s]' % (site[7:], t.show(v)[:60], frm, to, tl, th)
        if kind == 'index':
            n, i = rest
            if n.op == 'top' or i.op == 'top':
                return None, None, None
            k = 'index:%s:%s[%s]' % (f, operand(n), operand(i) if i.op != 'num' else 'const')
            lo, hi = R.of(i)
            d = R.of(t.sub(n, i))
            if lo >= 0 and d[0] >= 1:
                return True, k, 'index is within bounds'
            if i.op == 'num' and n.op == 'num':
                return False, k, '%s: index %s of a sequence of %s' % (site[7:], operand(i), operand(n))
            w = beyond(i, n, pc, syms)
            if w:
                return False, k, '%s: index %s of a sequence of %s is out of bounds at %s' % (site[7:], t.show(i)[:60], t.show(n)[:30], w)
            return None, k, 'index not bounded'
    except ranges.Infeasible:
        return None, None, None
    return None, None, None


def beyond(i, n, pc, syms):
    """a point within the ranges of the parameters that satisfies the path condition and at which the index is too large"""
    import random
    from .. import numeric
    if i.fv or n.fv or any(c.fv for c in pc):
        return None
    ss = sorted((s for x in (i, n) + tuple(pc) for s in t.syms(x) if s.op == 'sym'), key=lambda s: s.a[0])
    if any(s.a[1] == 'int' and s not in syms for s in ss):
        return None
    rng = random.Random('index')
    for k in range(60):
        env = numeric.sample(ss, rng, 10.0 ** rng.uniform(-3, 8))
        for s in ss:
            if s in syms:
                lo, hi = syms[s]
                env[s.a[0]] = numeric.mpf(rng.choice((lo, min(lo + 1, hi), (lo + min(hi, 10 ** 6)) // 2, min(hi, 10 ** 6))))
        try:
            E = numeric.Eval(env)
            if all(E.ev(c) for c in pc) and E.ev(i) >= E.ev(n):
                return ', '.join('%s=%s' % (q, numeric.mpmath.nstr(v, 5)) for q, v in sorted(env.items()) if q != 'pi')
        except (numeric.NoValue, ZeroDivisionError, ValueError, OverflowError):
            continue
    return None


def brief(x):
    if x in (ranges.INF, -ranges.INF):
        return 'unbounded' if x > 0 else '-unbounded'
    return str(int(x)) if abs(x) < 10 ** 12 else '%.3g' % float(x) if abs(x) < 1e300 else 'over 1e300'


CHECKS = {'D01': d01, 'D03': d03, 'D04': d04}
