"""Julia front end: tokenizer, parser (syntax tree), module table and an abstract evaluator into the term domain.
Covers the language subset of the package plus what an ordinary rewrite of it would use; anything else is TOP."""
import os, re
from fractions import Fraction
from . import terms as t
from .terms import T, num


class JError(Exception):
    pass


class Unsup(Exception):
    pass


# ------------------------------------------------------------------------------------------------ tokens

KW = {'module', 'baremodule', 'end', 'function', 'struct', 'mutable', 'return', 'using', 'import', 'export', 'include', 'const',
      'if', 'else', 'elseif', 'for', 'while', 'let', 'begin', 'do', 'global', 'local', 'in', 'where', 'break', 'continue',
      'true', 'false', 'abstract', 'primitive', 'macro', 'quote', 'try', 'catch', 'finally'}
KW -= {'include', 'in', 'mutable', 'abstract', 'primitive', 'where'}
NUMRE = re.compile(r'0x[0-9a-fA-F]+|(\d[\d_]*\.?(?!\.)[\d_]*|\.\d[\d_]*)([eEf][+-]?\d+)?')
IDRE = re.compile(r'[^\W\d][\w!]*')
OPS = ['...', '.+=', '.-=', '.*=', './=', '===', '!==', '>>>', '<<=', '>>=', '->', '=>', '+=', '-=', '*=', '/=', '^=', '÷=', '==', '!=', '<=', '>=', '&&',
       '||', '::', '<:', '>:', '//', '|>', '.+', '.-', '.*', './', '.^', '.==', '.<', '.>', '.=', '<<', '>>', '+', '-', '*', '/', '÷', '%', '^', '<', '>', '=', '!', '?',
       ':', ',', ';', '(', ')', '[', ']', '{', '}', '.', '&', '|', '~', '$', '\\', '≤', '≥', '≠', '∘', '∈', "'"]


class Tok(object):
    __slots__ = ('k', 'v', 'line', 'sp', 'nl')

    def __init__(self, k, v, line, sp, nl):
        self.k, self.v, self.line, self.sp, self.nl = k, v, line, sp, nl

    def __repr__(self):
        return '%s:%r@%d' % (self.k, self.v, self.line)


def tokenize(src):
    out = []
    i = 0
    line = 1
    n = len(src)
    sp = nl = False
    while i < n:
        c = src[i]
        if c == '\n':
            nl = True
            line += 1
            i += 1
            continue
        if c in ' \t\r\ufeff':
            sp = True
            i += 1
            continue
        if src.startswith('#=', i):
            d = 1
            i += 2
            while i < n and d:
                if src.startswith('#=', i):
                    d += 1
                    i += 2
                elif src.startswith('=#', i):
                    d -= 1
                    i += 2
                else:
                    line += src[i] == '\n'
                    i += 1
            sp = True
            continue
        if c == '#':
            while i < n and src[i] != '\n':
                i += 1
            continue
        l0 = line
        if src.startswith('"""', i):
            j = i + 3
            while j < n and not src.startswith('"""', j):
                j += 2 if src[j] == '\\' else 1
            s = src[i + 3:j]
            line += s.count('\n')
            out.append(Tok('str', s, l0, sp, nl))
            i = j + 3
        elif c == '"':
            j = i + 1
            d = 0
            while j < n and (src[j] != '"' or d):
                if src[j] == '\\':
                    j += 1
                elif src.startswith('$(', j):
                    d += 1
                    j += 1
                elif d and src[j] == '(':
                    d += 1
                elif d and src[j] == ')':
                    d -= 1
                j += 1
            s = src[i + 1:j]
            line += s.count('\n')
            out.append(Tok('str', s, l0, sp, nl))
            i = j + 1
        elif c.isdigit() or (c == '.' and i + 1 < n and src[i + 1].isdigit() and (not out or sp or nl or out[-1].k == 'op' and out[-1].v not in (')', ']'))):
            m = NUMRE.match(src, i)
            out.append(Tok('num', m.group(0), l0, sp, nl))
            i = m.end()
        elif c == "'" and i + 2 < n and src[i + 2] == "'" and (not out or out[-1].k == 'op' and out[-1].v not in (')', ']')):
            out.append(Tok('str', src[i + 1], l0, sp, nl))
            i += 3
        elif c == '@':
            m = re.compile(r'@[\w.!]+').match(src, i)
            if not m:
                raise JError('line %d: bad macro' % line)
            out.append(Tok('macro', m.group(0), l0, sp, nl))
            i = m.end()
        else:
            m = IDRE.match(src, i)
            if m:
                w = m.group(0)
                prevdot = out and out[-1].k == 'op' and out[-1].v == '.' and not sp and not nl
                out.append(Tok('kw' if w in KW and not prevdot else 'id', w, l0, sp, nl))
                i = m.end()
            else:
                for o in OPS:
                    if src.startswith(o, i):
                        out.append(Tok('op', o, l0, sp, nl))
                        i += len(o)
                        break
                else:
                    raise JError('line %d: unexpected character %r' % (line, c))
        sp = nl = False
    out.append(Tok('eof', '', line, True, True))
    return out


# ------------------------------------------------------------------------------------------------ parser

BIN = {'=>': (2, 'R'), '||': (5, 'L'), '&&': (6, 'L'), '==': (8, 'L'), '!=': (8, 'L'), '===': (8, 'L'), '!==': (8, 'L'), '<': (8, 'L'),
       '>': (8, 'L'), '<=': (8, 'L'), '>=': (8, 'L'), '≤': (8, 'L'), '≥': (8, 'L'), '≠': (8, 'L'), '<:': (8, 'L'), '>:': (8, 'L'), '.==': (8, 'L'), '.<': (8, 'L'), '.>': (8, 'L'),
       '∈': (8, 'L'), '|>': (9, 'L'), '+': (12, 'L'), '-': (12, 'L'), '.+': (12, 'L'), '.-': (12, 'L'), '|': (12, 'L'),
       '*': (13, 'L'), '/': (13, 'L'), '÷': (13, 'L'), '%': (13, 'L'), '.*': (13, 'L'), './': (13, 'L'), '&': (13, 'L'), '\\': (13, 'L'), '∘': (13, 'L'),
       '//': (14, 'L'), '<<': (14, 'L'), '>>': (14, 'L'), '^': (17, 'R'), '.^': (17, 'R')}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '^=', '÷=', '.=', '.+=', '.-=', '.*=', './='}


class Parser(object):
    def __init__(self, src, file):
        self.t = tokenize(src)
        self.i = 0
        self.file = file
        self.depth = 0          # >0: newlines do not terminate

    @property
    def c(self):
        return self.t[self.i]

    def err(self, msg):
        raise JError('%s:%d: %s (at %r)' % (self.file, self.c.line, msg, self.c.v))

    def isop(self, *vs):
        return self.c.k == 'op' and self.c.v in vs

    def iskw(self, *vs):
        return self.c.k == 'kw' and self.c.v in vs

    def adv(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, v):
        if self.c.v != v or self.c.k not in ('op', 'kw', 'id'):
            self.err('expected %r' % v)
        return self.adv()

    def file_block(self):
        s = self.stmts(())
        if self.c.k != 'eof':
            self.err('unexpected')
        return s

    def stmts(self, ends):
        out = []
        old, self.depth = self.depth, 0
        while True:
            while self.isop(';'):
                self.adv()
            if self.c.k == 'eof' or (self.c.k == 'kw' and self.c.v in ends):
                break
            out.append(self.stmt())
            if not (self.c.k == 'eof' or self.c.nl or self.isop(';') or (self.c.k == 'kw' and self.c.v in ends)):
                self.err('expected end of statement')
        self.depth = old
        return out

    def stmt(self):
        c = self.c
        ln = c.line
        if c.k == 'kw':
            v = c.v
            if v in ('module', 'baremodule'):
                self.adv()
                name = self.adv().v
                body = self.stmts(('end',))
                self.expect('end')
                return ('module', name, body, ln)
            if v in ('using', 'import'):
                return self.imports()
            if v == 'export':
                self.adv()
                names = [self.adv().v]
                while self.isop(','):
                    self.adv()
                    names.append(self.adv().v)
                return ('export', names, ln)
            if v in ('const', 'global', 'local'):
                self.adv()
                e = self.stmt()
                return ('const', e, ln) if v == 'const' else e
            if v == 'struct':
                return self.struct()
            if v == 'macro' or v == 'quote' or v == 'try':
                self.err('unsupported construct')
        if c.k == 'id' and c.v == 'mutable' and self.t[self.i + 1].v == 'struct':
            self.adv()
            return self.struct(True)
        if c.k == 'macro':
            self.adv()
            if not self.c.nl:
                e = self.stmt()
                if c.v in ('@inline', '@noinline', '@inbounds', '@fastmath', '@doc', '@views', '@simd', '@nospecialize'):
                    return e
                return ('unsup', c.v, ln)
            return ('unsup', c.v, ln)
        return self.expr()

    def imports(self):
        kind = self.adv().v
        ln = self.c.line
        mods = []
        while True:
            dots = 0
            while self.isop('.', '...'):
                dots += len(self.adv().v)
            path = []
            if not self.c.nl or not path:
                path.append(self.adv().v)
            while self.isop('.') and not self.c.nl:
                self.adv()
                path.append(self.adv().v)
            mods.append((dots, path))
            if self.isop(':'):
                self.adv()
                names = [self.impname()]
                while self.isop(','):
                    self.adv()
                    names.append(self.impname())
                return ('import', kind, mods, names, ln)
            if self.isop(','):
                self.adv()
                continue
            return ('import', kind, mods, None, ln)

    def impname(self):
        x = self.adv().v
        if self.c.k == 'id' and self.c.v == 'as' and not self.c.nl:
            self.adv()
            return (x, self.adv().v)
        return (x, x)

    def struct(self, mut=False):
        self.adv()
        ln = self.c.line
        name = self.adv().v
        if self.isop('{'):
            self.brackets('}')
        if self.isop('<:'):
            self.adv()
            self.unary()
        fields = []
        ctors = []
        for s in self.stmts(('end',)):
            if s[0] == 'id':
                fields.append((s[1], 'Any'))
            elif s[0] == 'typed':
                fields.append((s[1][1], typename(s[2])))
            elif s[0] == 'func' or s[0] == 'assign':
                ctors.append(s)
        self.expect('end')
        return ('struct', name, fields, ctors, ln)

    def body_until(self, *ends):
        b = self.stmts(ends)
        return ('block', b)

    def expr(self, p=0):
        """assignment level"""
        ln = self.c.line
        a = self.cond()
        if self.isop(*ASSIGN) and not (self.c.nl and not self.depth):
            op = self.adv().v
            b = self.expr()
            if op == '=':
                if a[0] == 'call' or (a[0] == 'typed' and a[1][0] == 'call') or (a[0] == 'where'):
                    while a[0] == 'typed' or a[0] == 'where':
                        a = a[1]
                    if a[1][0] == 'id':
                        return ('func', a[1][1], params(a), b, ln)
                return ('assign', a, b, ln)
            return ('assign', a, ('bin', op[:-1], a, b, ln), ln)
        return a

    def cond(self):
        a = self.lambdaexpr()
        if self.isop('?') and not (self.c.nl and not self.depth):
            self.adv()
            b = self.expr_nocolon()
            self.expect(':')
            c = self.expr()
            return ('cond', a, b, c)
        return a

    def expr_nocolon(self):
        old = getattr(self, 'nocolon', False)
        self.nocolon = True
        r = self.expr()
        self.nocolon = old
        return r

    def lambdaexpr(self):
        a = self.binary(2)
        if self.isop('->') and not (self.c.nl and not self.depth):
            ln = self.adv().line
            b = self.expr()
            return ('lambda', lam_params(a), b, ln)
        return a

    def binary(self, minp):
        a = self.unary()
        while True:
            c = self.c
            if c.nl and not self.depth:
                return a
            if c.k == 'op' and c.v in BIN:
                p, assoc = BIN[c.v]
                if p < minp:
                    return a
                if getattr(self, 'inmat', False) and c.sp and c.v in ('+', '-') and not self.t[self.i + 1].sp:
                    return a
                self.adv()
                b = self.binary(p + 1 if assoc == 'L' else p)
                a = ('bin', c.v, a, b, c.line)
                continue
            if c.k == 'op' and c.v == ':' and minp <= 10 and not getattr(self, 'nocolon', False):
                nx = self.t[self.i + 1]
                if nx.k == 'op' and nx.v in (')', ']', ','):
                    return a
                self.adv()
                b = self.binary(11)
                if self.isop(':'):
                    self.adv()
                    d = self.binary(11)
                    a = ('range', a, b, d)
                else:
                    a = ('range', a, None, b)
                continue
            if (c.k in ('id', 'kw')) and c.v in ('in', 'isa') and minp <= 8 and not getattr(self, 'noin', False):
                self.adv()
                b = self.binary(9)
                a = ('bin', c.v, a, b, c.line)
                continue
            if c.k == 'id' and c.v == 'where':
                self.adv()
                self.unary()
                a = ('where', a)
                continue
            return a

    def unary(self):
        c = self.c
        if c.k == 'op' and c.v in ('-', '+', '!', '~', '.-', '&'):
            self.adv()
            if c.v == '-' and self.c.k == 'num' and self.t[self.i + 1].v != '^':
                a = self.unary()
            else:
                a = self.binary(15)
            return ('un', c.v, a)
        if c.k == 'op' and c.v == '::':
            self.adv()
            ty = self.postfix()
            return ('typed', ('id', '_'), ty)
        a = self.postfix()
        if a[0] == 'num' and self.c.k == 'id' and not self.c.sp and not self.c.nl:
            b = self.binary(16)
            return ('bin', '*', a, b, self.c.line)
        if a[0] == 'num' and self.isop('(') and not self.c.sp and not self.c.nl:
            b = self.binary(16)
            return ('bin', '*', a, b, self.c.line)
        return a

    def brackets(self, close):
        """comma separated arguments after an opening bracket (current token)"""
        self.adv()
        self.depth += 1
        st = (getattr(self, 'nocolon', False), getattr(self, 'inmat', False), getattr(self, 'noin', False))
        self.nocolon = self.inmat = self.noin = False
        args = []
        kws = []
        sep = None
        semi = False
        while not self.isop(close):
            if self.c.k == 'eof':
                self.err('unclosed bracket')
            if self.isop(';'):
                self.adv()
                semi = True
                continue
            if self.isop(','):
                self.adv()
                sep = True
                continue
            a = self.expr()
            if self.isop('...'):
                self.adv()
                a = ('splat', a)
            if self.iskw('for'):
                gens = []
                while self.iskw('for'):
                    self.adv()
                    self.noin = True
                    while True:
                        v = self.unary()
                        if self.isop('=', '∈') or self.c.v == 'in':
                            self.adv()
                        it = self.binary(2)
                        gens.append((v, it))
                        if self.isop(','):
                            self.adv()
                            continue
                        break
                    self.noin = False
                a = ('gen', a, gens)
                if self.iskw('if'):
                    self.adv()
                    self.expr()
                    a = ('unsup', 'filtered generator', self.c.line)
            if semi or (a[0] == 'assign' and a[1][0] == 'id'):
                if a[0] == 'assign':
                    kws.append((a[1][1], a[2]))
                else:
                    kws.append((None, a))
            else:
                args.append(a)
            if not self.isop(',', ';', close):
                if close == ']':
                    args.append(('unsup', 'matrix literal', self.c.line))
                    continue
                self.err('expected , or %s' % close)
        self.adv()
        self.depth -= 1
        self.nocolon, self.inmat, self.noin = st
        return args, kws, sep

    def postfix(self):
        a = self.primary()
        while True:
            c = self.c
            if c.nl and not self.depth or c.k == 'eof':
                return a
            if c.k == 'op' and not c.sp and not c.nl:
                if c.v == '(' and a[0] != 'num':
                    args, kws, _ = self.brackets(')')
                    a = ('call', a, args, kws, c.line)
                    if self.iskw('do') and not self.c.nl:
                        self.adv()
                        ps = []
                        while not self.c.nl:
                            ps.append(self.unary())
                            if self.isop(','):
                                self.adv()
                        b = self.body_until('end')
                        self.expect('end')
                        a = ('call', a[1], [('lambda', [lam_param(x) for x in ps], b, c.line)] + a[2], a[3], c.line)
                    continue
                if c.v == '[':
                    args, _, _ = self.brackets(']')
                    a = ('index', a, args)
                    continue
                if c.v == '{':
                    args, _, _ = self.brackets('}')
                    a = ('curly', a, args)
                    continue
                if c.v == '.':
                    nx = self.t[self.i + 1]
                    if nx.k == 'op' and nx.v == '(':
                        self.adv()
                        args, kws, _ = self.brackets(')')
                        a = ('dotcall', a, args, kws, c.line)
                        continue
                    if nx.k in ('id', 'kw'):
                        self.adv()
                        a = ('field', a, self.adv().v)
                        continue
                if c.v == "'":
                    self.adv()
                    a = ('unsup', 'transpose', c.line)
                    continue
                if c.v == '...':
                    self.adv()
                    a = ('splat', a)
                    continue
            if c.k == 'op' and c.v == '::':
                self.adv()
                ty = self.postfix_type()
                a = ('typed', a, ty)
                continue
            return a

    def postfix_type(self):
        a = self.primary()
        while not self.c.nl and self.c.k == 'op' and self.c.v in ('{', '.') and not self.c.sp:
            if self.c.v == '{':
                args, _, _ = self.brackets('}')
                a = ('curly', a, args)
            else:
                self.adv()
                a = ('field', a, self.adv().v)
        return a

    def primary(self):
        c = self.c
        if c.k == 'num':
            self.adv()
            return ('num', c.v)
        if c.k == 'str':
            self.adv()
            return ('str', c.v)
        if c.k == 'id':
            self.adv()
            if self.c.k == 'str' and not self.c.sp and not self.c.nl:
                s = self.adv()
                return ('str', s.v)
            return ('id', c.v, c.line)
        if c.k == 'macro':
            self.adv()
            if self.isop('(') and not self.c.sp:
                args, kws, _ = self.brackets(')')
                return ('macrocall', c.v, args)
            return ('macrocall', c.v, [])
        if c.k == 'kw':
            v = c.v
            if v in ('true', 'false'):
                self.adv()
                return ('bool', v == 'true')
            if v == 'return':
                self.adv()
                if self.c.nl or self.isop(';', ')') or self.iskw('end'):
                    return ('return', None)
                e = self.expr()
                if self.isop(',') and not self.depth:
                    es = [e]
                    while self.isop(','):
                        self.adv()
                        es.append(self.expr())
                    e = ('tuple', es)
                return ('return', e)
            if v == 'function':
                self.adv()
                if self.isop('('):
                    args, kws, _ = self.brackets(')')
                    b = self.body_until('end')
                    self.expect('end')
                    return ('lambda', [lam_param(x) for x in args], b, c.line)
                self.depth_save = self.depth
                h = self.funhead()
                b = self.body_until('end')
                self.expect('end')
                while h[0] in ('typed', 'where'):
                    h = h[1]
                if h[0] != 'call':
                    return ('unsup', 'function declaration', c.line)
                nm = h[1]
                nm = nm[1] if nm[0] == 'id' else nm[2] if nm[0] == 'field' else nm[1][1] if nm[0] == 'curly' else '?'
                return ('func', nm, params(h), b, c.line)
            if v == 'if':
                self.adv()
                return self.ifexpr()
            if v in ('begin', 'let'):
                self.adv()
                pre = []
                if v == 'let':
                    while not self.c.nl and not self.isop(';'):
                        pre.append(self.expr())
                        if self.isop(','):
                            self.adv()
                b = self.body_until('end')
                self.expect('end')
                return (v, ('block', pre + b[1]))
            if v == 'for':
                self.adv()
                self.noin = True
                var = self.unary()
                self.noin = False
                if not (self.isop('=', '∈') or self.c.v == 'in'):
                    self.err('for')
                self.adv()
                it = self.expr()
                b = self.body_until('end')
                self.expect('end')
                return ('for', var, it, b)
            if v == 'while':
                self.adv()
                cnd = self.expr()
                b = self.body_until('end')
                self.expect('end')
                return ('while', cnd, b)
            if v in ('break', 'continue'):
                self.adv()
                return (v,)
            self.err('unexpected keyword')
        if c.k == 'op':
            if c.v == '(':
                args, kws, sep = self.brackets(')')
                if len(args) == 1 and not sep and not kws:
                    return ('paren', args[0])
                return ('tuple', args, kws)
            if c.v == '[':
                args, _, _ = self.brackets(']')
                return ('vect', args)
            if c.v == ':':
                self.adv()
                x = self.adv()
                return ('sym', x.v)
            if c.v in ('+', '-', '*', '/', '^', '==', '<', '>', '≤', '≥', '.+', '.*', './', '.-'):
                self.adv()
                return ('id', c.v, c.line)
            if c.v == '$':
                self.adv()
                return self.primary()
        self.err('unexpected token')

    def funhead(self):
        a = self.postfix()
        while self.c.k == 'id' and self.c.v == 'where':
            self.adv()
            self.unary()
        return a

    def ifexpr(self):
        cnd = self.expr()
        b = self.body_until('end', 'else', 'elseif')
        if self.iskw('elseif'):
            self.adv()
            return ('if', cnd, b, self.ifexpr())
        if self.iskw('else'):
            self.adv()
            d = self.body_until('end')
            self.expect('end')
            return ('if', cnd, b, d)
        self.expect('end')
        return ('if', cnd, b, ('block', []))


def typename(e):
    if e is None:
        return 'Any'
    if e[0] == 'id':
        return e[1]
    if e[0] == 'field':
        return e[2]
    if e[0] == 'curly':
        return typename(e[1]) + '{' + ','.join(typename(x) for x in e[2]) + '}'
    return '?'


def lam_param(a):
    while a[0] == 'paren':
        a = a[1]
    ty = None
    dflt = None
    if a[0] == 'assign':
        dflt = a[2]
        a = a[1]
    if a[0] == 'typed':
        ty = typename(a[2])
        a = a[1]
    if a[0] == 'id':
        return (a[1], ty, dflt)
    return ('?', ty, dflt)


def lam_params(a):
    if a[0] == 'paren':
        a = a[1]
    if a[0] == 'tuple':
        return [lam_param(x) for x in a[1]]
    return [lam_param(a)]


def params(call):
    ps = [lam_param(x) for x in call[2]]
    for k, v in call[3]:
        if k is None:
            ps.append(lam_param(v)[:2] + ('kw',))
        else:
            ps.append((k, None, v))
    return ps


# ------------------------------------------------------------------------------------------------ modules

class JMod(object):
    def __init__(self, name, parent, file, d):
        self.name, self.parent, self.file, self.dir = name, parent, file, d
        self.names = {name: self}
        self.imports = []
        self.files = [file]

    def qual(self):
        return (self.parent.qual() + '.' if self.parent else '') + self.name


class JFunc(object):
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.methods = []


class JMeth(object):
    def __init__(self, params, body, mod, file, line):
        self.params, self.body, self.mod, self.file, self.line = params, body, mod, file, line


class JType(object):
    def __init__(self, name, fields, mod, file, line):
        self.name, self.fields, self.mod, self.file, self.line = name, fields, mod, file, line
        self.methods = []


class JConst(object):
    def __init__(self, e, mod, line):
        self.e, self.mod, self.line = e, mod, line
        self.v = None


class JObj(object):
    def __init__(self, ty, vals):
        self.ty, self.vals = ty, vals

    def get(self, f):
        for (n, _), v in zip(self.ty.fields, self.vals):
            if n == f:
                return v
        return None


class JClosure(object):
    def __init__(self, ps, body, env, mod, line):
        self.ps, self.body, self.env, self.mod, self.line = ps, body, env, mod, line


class JVec(object):
    """vector by comprehension: element as a term over an index variable"""
    def __init__(self, var, n, elem):
        self.var, self.n, self.elem = var, n, elem


class JTup(tuple):
    pass


class Builtin(object):
    def __init__(self, name):
        self.name = name


EXTERNAL = {'DocStringExtensions', 'Polymers_jll', 'Base', 'Core', 'Test', 'Libdl', 'SpecialFunctions', 'LinearAlgebra', 'Statistics'}


class Package(object):
    """the module tree reachable by include from the root file"""

    def __init__(self, root):
        self.problems = []       # (file, line, text)
        self.mods = []
        self.included = {}
        self.root = None
        main = JMod('Main', None, root, os.path.dirname(root))
        self.main = main
        self.load(root, main)
        self.root = main.names.get('Polymers')
        for m in self.mods:
            self.resolve_imports(m)

    def load(self, file, mod):
        real = os.path.realpath(file)
        self.included.setdefault(real, []).append(mod.qual())
        try:
            src = open(file, encoding='utf-8').read()
        except OSError:
            self.problems.append((file, 0, 'included file does not exist'))
            return
        try:
            st = Parser(src, file).file_block()
        except JError as e:
            self.problems.append((file, 0, 'syntax: %s' % e))
            return
        self.define(st, mod, file)

    def define(self, stmts, mod, file):
        for s in stmts:
            k = s[0]
            if k == 'module':
                m = JMod(s[1], mod, file, os.path.dirname(file))
                if s[1] in mod.names and s[1] != mod.name:
                    self.problems.append((file, s[3], 'module %s defined twice in %s' % (s[1], mod.qual())))
                mod.names[s[1]] = m
                self.mods.append(m)
                self.define(s[2], m, file)
            elif k == 'call' and s[1][0] == 'id' and s[1][1] == 'include' and s[2] and s[2][0][0] == 'str':
                self.load(os.path.normpath(os.path.join(os.path.dirname(file), s[2][0][1])), mod)
            elif k == 'import':
                mod.imports.append((s, file))
            elif k == 'struct':
                ty = JType(s[1], s[2], mod, file, s[4])
                old = mod.names.get(s[1])
                if isinstance(old, JFunc):
                    ty.methods = old.methods
                elif old is not None and old is not mod:
                    self.problems.append((file, s[4], '%s defined twice' % s[1]))
                mod.names[s[1]] = ty
                for cst in s[3]:
                    self.problems.append((file, s[4], 'inner constructor of %s is not modelled' % s[1]))
            elif k == 'func':
                tgt = mod.names.get(s[1])
                if tgt is None:
                    tgt = JFunc(s[1], mod)
                    mod.names[s[1]] = tgt
                if isinstance(tgt, (JFunc, JType)):
                    sig = tuple((p[1] or 'Any') for p in s[2])
                    for i, m in enumerate(tgt.methods):
                        if tuple((p[1] or 'Any') for p in m.params) == sig:
                            tgt.methods[i] = None
                    tgt.methods = [m for m in tgt.methods if m is not None]
                    tgt.methods.append(JMeth(s[2], s[3], mod, file, s[4]))
            elif k == 'const' or k == 'assign':
                e = s[1] if k == 'const' else s
                if e[0] == 'assign' and e[1][0] in ('id', 'typed'):
                    tgt = e[1] if e[1][0] == 'id' else e[1][1]
                    mod.names[tgt[1]] = JConst(e[2], mod, e[3])
            elif k == 'block' or k == 'begin':
                self.define(s[1] if k == 'block' else s[1][1], mod, file)

    def resolve_imports(self, m):
        for (_, kind, mods, names, line), file in m.imports:
            for dots, path in mods:
                if dots == 0:
                    if path[0] not in EXTERNAL and self.lookup0(m, path[0]) is None:
                        self.problems.append((file, line, 'unknown package %s' % path[0]))
                    elif path[0] in EXTERNAL and names is None:
                        m.names.setdefault(path[0], Builtin(path[0]))
                    continue
                base = m
                for _ in range(dots - 1):
                    base = base.parent if base is not None else None
                tgt = base
                for q in path:
                    tgt = tgt.names.get(q) if isinstance(tgt, JMod) else None
                if not isinstance(tgt, JMod) and names is not None or tgt is None:
                    self.problems.append((file, line, '%s %s%s does not resolve from %s' % (kind, '.' * dots, '.'.join(path), m.qual())))
                    continue
                if names is None:
                    if isinstance(tgt, JMod):
                        m.names.setdefault(tgt.name, tgt)
                    else:
                        m.names.setdefault(path[-1], tgt)
                    continue
                for a, b in names:
                    if a not in tgt.names:
                        self.problems.append((file, line, '%s: %s has no name %s' % (m.qual(), tgt.qual(), a)))
                    else:
                        m.names[b] = tgt.names[a]

    def lookup0(self, m, n):
        return m.names.get(n)


# ------------------------------------------------------------------------------------------------ evaluation

BUILTINS = {'broadcast', 'map', 'sum', 'prod', 'ccall', 'collect', 'range', 'sqrt', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'coth', 'sin', 'cos', 'tan',
            'abs', 'float', 'Float64', 'UInt8', 'Int', 'Int64', 'UInt32', 'UInt64', 'Int32', 'UInt16', 'identity', 'one', 'zero', 'string', 'dirname', 'length',
            'convert', 'min', 'max', 'inv', 'asin', 'acos', 'atan', 'expm1', 'log1p', 'muladd', 'fma', 'div', 'mod', 'rem', 'tuple', '+', '-', '*', '/', '^',
            'pi', 'π', 'Inf', 'NaN', 'nothing', 'eachindex', 'Vector', 'Matrix', 'Array', 'Union', 'Function', 'Any', 'Number', 'Real', 'foldl', 'reduce', 'mapreduce', 'Dict', 'Char', 'error', 'throw'}
NUMTYPES = {'Float64', 'float', 'UInt8', 'Int', 'Int64', 'UInt32', 'UInt64', 'Int32', 'UInt16', 'identity'}


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Undefined(Exception):
    pass


class Eval(object):
    def __init__(self, pkg, on_ccall):
        self.pkg = pkg
        self.on_ccall = on_ccall      # (symbol, restype, argtypes, args, where) -> value
        self.depth = 0
        self.fresh = 0
        self.undefined = []
        self.where = []

    def call_meth(self, m, args):
        if self.depth > 60:
            raise Unsup('depth')
        env = {}
        for i, p in enumerate(m.params):
            if i < len(args):
                env[p[0]] = args[i]
            elif p[2] is not None and p[2] != 'kw':
                env[p[0]] = self.ev(p[2], env, m.mod)
            else:
                raise Unsup('missing argument %s' % p[0])
        self.depth += 1
        self.where.append((m.file, m.line))
        try:
            return self.ev(m.body, env, m.mod)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.where.pop()

    def pick(self, ms, args):
        c = [m for m in ms if len([p for p in m.params if p[2] is None]) <= len(args) <= len(m.params)]
        if len(c) == 1:
            return c[0]
        if len(c) > 1:
            # dispatch on the shape of the arguments: scalars only
            sc = [m for m in c if not any((p[1] or '').startswith(('Vector', 'Matrix', 'Array', 'AbstractVector', 'AbstractArray')) for p in m.params)]
            if len(sc) == 1:
                return sc[0]
            raise Unsup('ambiguous dispatch')
        return None

    def call(self, f, args, kws=()):
        if isinstance(f, JFunc):
            m = self.pick(f.methods, args)
            if m is None:
                raise Undefined('no method of %s.%s takes %d arguments' % (f.mod.qual(), f.name, len(args)))
            return self.call_meth(m, args)
        if isinstance(f, JType):
            m = self.pick(f.methods, args)
            own = len(f.fields) == len(args)
            if m is not None and own:
                # outer constructor and default constructor of equal arity: the declared types decide
                cl = any(isinstance(a, (JClosure, JObj)) for a in args)
                m = None if cl else m
            if m is not None:
                return self.call_meth(m, args)
            if own:
                return JObj(f, list(args))
            raise Undefined('no constructor of %s.%s takes %d arguments' % (f.mod.qual(), f.name, len(args)))
        if isinstance(f, JClosure):
            if len(args) != len(f.ps):
                raise Undefined('closure takes %d arguments, %d given' % (len(f.ps), len(args)))
            env = dict(f.env)
            for p, a in zip(f.ps, args):
                env[p[0]] = a
            self.depth += 1
            if self.depth > 60:
                raise Unsup('depth')
            try:
                return self.ev(f.body, env, f.mod)
            except Ret as r:
                return r.v
            finally:
                self.depth -= 1
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, dict(kws))
        raise Unsup('call of %r' % type(f).__name__)

    def sc(self, v):
        if isinstance(v, T):
            return v
        raise Unsup('scalar expected')

    def mapv(self, f, args):
        vs = [a for a in args if isinstance(a, (JVec, JTup))]
        if not vs:
            return self.call(f, args)
        if all(isinstance(a, JTup) for a in vs):
            n = len(vs[0])
            return JTup(self.call(f, [a[i] if isinstance(a, JTup) else a for a in args]) for i in range(n))
        if any(isinstance(a, JTup) for a in vs):
            raise Unsup('mixed broadcast')
        v0 = vs[0]
        el = []
        for a in args:
            if isinstance(a, JVec):
                if a.n is not v0.n and t.equal(a.n, v0.n) is not True:
                    raise Unsup('broadcast of different lengths')
                el.append(t.subst_idx(self.sc(a.elem), a.var, t.idx(v0.var)) if a.var != v0.var else a.elem)
            else:
                el.append(a)
        return JVec(v0.var, v0.n, self.call(f, el))

    def builtin(self, n, a, kw):
        if n == 'broadcast' or n == 'map':
            return self.mapv(a[0], a[1:])
        if n in ('sum', 'prod'):
            v = self.mapv(a[0], a[1:]) if len(a) == 2 else a[0]
            if isinstance(v, JTup):
                return (t.add if n == 'sum' else t.mul)(*[self.sc(x) for x in v])
            if isinstance(v, JVec):
                if v.n.op == 'num' and v.n.a[0] <= 24:
                    xs = [t.subst_idx(self.sc(v.elem), v.var, num(i)) for i in range(int(v.n.a[0]))]
                    return (t.add if n == 'sum' else t.mul)(*xs)
                self.fresh += 1
                nm = '#j%d' % self.fresh
                body = t.subst_idx(self.sc(v.elem), v.var, t.idx(nm))
                return (t.summ if n == 'sum' else t.prodd)(nm, v.n, body)
            if isinstance(v, T):
                return v
        if n == 'mapreduce' and len(a) == 3 and isinstance(a[1], Builtin) and a[1].name in ('+', '*'):
            return self.builtin('sum' if a[1].name == '+' else 'prod', [a[0], a[2]], {})
        if n in ('reduce', 'foldl') and len(a) == 2 and isinstance(a[0], Builtin) and a[0].name in ('+', '*'):
            return self.builtin('sum' if a[0].name == '+' else 'prod', [a[1]], {})
        if n == 'collect':
            return a[0]
        if n == 'range':
            start = a[0] if a else kw.get('start', t.ONE)
            stop = a[1] if len(a) > 1 else kw.get('stop')
            ln = a[2] if len(a) > 2 else kw.get('length')
            step = kw.get('step')
            self.fresh += 1
            v = '#r%d' % self.fresh
            if ln is not None and stop is not None and step is None:
                step = t.div(t.sub(self.sc(stop), self.sc(start)), t.sub(self.sc(ln), t.ONE))
            elif step is None:
                step = t.ONE
            if ln is None:
                if step is not t.ONE:
                    raise Unsup('range')
                ln = t.add(t.sub(self.sc(stop), self.sc(start)), t.ONE)
            return JVec(v, self.sc(ln), t.add(self.sc(start), t.mul(t.idx(v), self.sc(step))))
        if n == 'length':
            if isinstance(a[0], JVec):
                return a[0].n
            if isinstance(a[0], JTup):
                return num(len(a[0]))
        if n in NUMTYPES:
            return a[0]
        if n == 'convert':
            return a[1]
        if n == 'tuple':
            return JTup(a)
        s = [self.sc(x) for x in a]
        one = {'sqrt': t.sqrt, 'exp': t.exp, 'log': t.ln, 'sinh': t.sinh, 'cosh': t.cosh, 'tanh': t.tanh, 'sin': t.sin, 'cos': t.cos,
               'coth': lambda x: t.power(t.tanh(x), num(-1)), 'tan': lambda x: t.div(t.sin(x), t.cos(x)), 'abs': lambda x: x if t.positive(x) else t.fn('abs', x),
               'inv': lambda x: t.power(x, num(-1)), 'expm1': lambda x: t.sub(t.exp(x), t.ONE), 'log1p': lambda x: t.ln(t.add(x, t.ONE)),
               'acos': lambda x: t.fn('acos', x), 'asin': lambda x: t.fn('asin', x), 'atan': lambda x: t.fn('atan', x), 'one': lambda x: t.ONE, 'zero': lambda x: t.ZERO}
        if n in one and len(s) == 1:
            return one[n](s[0])
        if n in ('+', '-', '*', '/', '^'):
            if n == '-' and len(s) == 1:
                return t.neg(s[0])
            r = s[0]
            for x in s[1:]:
                r = arith(n, r, x)
            return r
        if n in ('muladd', 'fma'):
            return t.add(t.mul(s[0], s[1]), s[2])
        if n == 'max' and len(s) == 2:
            return t.ite(t.lt(s[0], s[1]), s[1], s[0])
        if n == 'min' and len(s) == 2:
            return t.ite(t.lt(s[1], s[0]), s[1], s[0])
        raise Unsup('builtin ' + n)

    def lookup(self, n, env, mod):
        if n in env:
            return env[n]
        v = mod.names.get(n)
        if isinstance(v, JConst):
            if v.v is None:
                v.v = self.ev(v.e, {}, v.mod)
            return v.v
        if v is not None:
            return v
        if n in ('pi', 'π'):
            return t.PI
        if n in BUILTINS:
            return Builtin(n)
        raise Undefined('%s is not defined in %s' % (n, mod.qual()))

    def ev(self, e, env, mod):
        k = e[0]
        if k == 'paren' or k == 'begin':
            return self.ev(e[1], env, mod)
        if k == 'let':
            return self.ev(e[1], dict(env), mod)
        if k == 'block':
            v = None
            for s in e[1]:
                v = self.ev(s, env, mod)
            return v
        if k == 'num':
            s = e[1].replace('_', '')
            if s.startswith('0x'):
                return num(int(s, 16))
            s = s.replace('f', 'e')
            if s.endswith('.'):
                s += '0'
            return num(Fraction(s))
        if k == 'str':
            return e[1]
        if k == 'bool':
            return t.TRUE if e[1] else t.FALSE
        if k == 'id':
            return self.lookup(e[1], env, mod)
        if k == 'typed':
            return self.ev(e[1], env, mod)
        if k == 'field':
            b = self.ev(e[1], env, mod)
            if isinstance(b, JMod):
                if e[2] not in b.names:
                    raise Undefined('%s has no name %s' % (b.qual(), e[2]))
                v = b.names[e[2]]
                return self.lookup(e[2], {}, b) if isinstance(v, JConst) else v
            if isinstance(b, JObj):
                v = b.get(e[2])
                if v is None:
                    raise Undefined('%s has no field %s' % (b.ty.name, e[2]))
                return v
            if isinstance(b, Builtin):
                return Builtin(e[2])
            raise Unsup('field')
        if k == 'tuple':
            return JTup(self.ev(x, env, mod) for x in e[1])
        if k == 'vect':
            return JTup(self.ev(x, env, mod) for x in e[1])
        if k == 'lambda':
            return JClosure(e[1], e[2], dict(env) if env else {}, mod, e[3])
        if k == 'func':
            f = JFunc(e[1], mod)
            c = JClosure(e[2], e[3], env, mod, e[4])
            env[e[1]] = c
            return c
        if k == 'assign':
            v = self.ev(e[2], env, mod)
            tg = e[1]
            while tg[0] in ('typed', 'paren'):
                tg = tg[1]
            if tg[0] == 'id':
                env[tg[1]] = v
            elif tg[0] == 'tuple' and isinstance(v, JTup):
                for x, y in zip(tg[1], v):
                    env[x[1]] = y
            else:
                raise Unsup('assignment target')
            return v
        if k == 'return':
            raise Ret(self.ev(e[1], env, mod) if e[1] else None)
        if k == 'un':
            v = self.ev(e[2], env, mod)
            if e[1] == '!':
                return t.bnot(self.sc(v))
            if e[1] in ('-', '.-'):
                return self.mapv(Builtin('-'), [v])
            return v
        if k == 'bin':
            return self.binop(e, env, mod)
        if k == 'cond' or k == 'if':
            c = self.sc(self.ev(e[1], env, mod))
            if c is t.TRUE or c is t.FALSE:
                return self.ev(e[2] if c is t.TRUE else e[3], env, mod)
            rs = []
            ret = 0
            for x in (e[2], e[3]):
                en = dict(env)
                try:
                    rs.append((self.ev(x, en, mod), en))
                except Ret as r:
                    rs.append((r.v, en))
                    ret += 1
            if ret == 2:
                raise Ret(t.ite(c, self.sc(rs[0][0]), self.sc(rs[1][0])))
            if ret == 1:
                raise Unsup('early return on one branch')
            for n in set(rs[0][1]) & set(rs[1][1]):
                a, b = rs[0][1][n], rs[1][1][n]
                if a is not b:
                    env[n] = t.ite(c, self.sc(a), self.sc(b)) if isinstance(a, T) and isinstance(b, T) else None
            a, b = rs[0][0], rs[1][0]
            if isinstance(a, T) and isinstance(b, T):
                return t.ite(c, a, b)
            return None
        if k == 'range':
            a = self.sc(self.ev(e[1], env, mod))
            b = self.sc(self.ev(e[3], env, mod))
            st = self.sc(self.ev(e[2], env, mod)) if e[2] else t.ONE
            self.fresh += 1
            v = '#r%d' % self.fresh
            if st is not t.ONE:
                raise Unsup('stepped range')
            return JVec(v, t.add(t.sub(b, a), t.ONE), t.add(a, t.idx(v)))
        if k == 'gen':
            if len(e[2]) != 1:
                raise Unsup('nested generator')
            it = self.ev(e[2][0][1], env, mod)
            cl = JClosure([lam_param(e[2][0][0])], e[1], dict(env), mod, 0)
            return self.mapv(cl, [it])
        if k == 'call':
            if e[1][0] == 'id' and e[1][1] == 'ccall':
                return self.ccall(e, env, mod)
            f = self.ev(e[1], env, mod)
            args = []
            for x in e[2]:
                if x[0] == 'splat':
                    v = self.ev(x[1], env, mod)
                    if not isinstance(v, JTup):
                        raise Unsup('splat')
                    args.extend(v)
                else:
                    args.append(self.ev(x, env, mod))
            return self.call(f, args, [(kk, self.ev(v, env, mod)) for kk, v in e[3] if kk])
        if k == 'dotcall':
            f = self.ev(e[1], env, mod)
            return self.mapv(f, [self.ev(x, env, mod) for x in e[2]])
        if k == 'index':
            b = self.ev(e[1], env, mod)
            if isinstance(b, JTup) and len(e[2]) == 1:
                i = self.sc(self.ev(e[2][0], env, mod))
                if i.op == 'num':
                    return b[int(i.a[0]) - 1]
            raise Unsup('index')
        if k == 'curly':
            return self.ev(e[1], env, mod)
        if k == 'for':
            it = self.ev(e[2], env, mod)
            if isinstance(it, JVec) and it.n.op == 'num' and it.n.a[0] <= 200:
                it = JTup(t.subst_idx(self.sc(it.elem), it.var, num(i)) for i in range(int(it.n.a[0])))
            if isinstance(it, JTup) and e[1][0] == 'id':
                for x in it:
                    env[e[1][1]] = x
                    self.ev(e[3], env, mod)
                return None
            raise Unsup('for loop')
        raise Unsup(k)

    def binop(self, e, env, mod):
        op = e[1]
        if op == '|>':
            return self.call(self.ev(e[3], env, mod), [self.ev(e[2], env, mod)])
        a, b = self.ev(e[2], env, mod), self.ev(e[3], env, mod)
        if isinstance(a, (JVec, JTup)) or isinstance(b, (JVec, JTup)):
            base = op[1:] if op.startswith('.') else op
            if base in ('+', '-', '*', '/', '^'):
                return self.mapv(Builtin(base), [a, b])
        if op == '*' and isinstance(a, str):
            return a + b if isinstance(b, str) else '?'
        a, b = self.sc(a), self.sc(b)
        o = op[1:] if op.startswith('.') and len(op) > 1 else op
        if o in ('+', '-', '*', '/', '^'):
            return arith(o, a, b)
        if o == '//':
            return t.div(a, b)
        if o == '<':
            return t.lt(a, b)
        if o == '>':
            return t.lt(b, a)
        if o in ('<=', '≤'):
            return t.le(a, b)
        if o in ('>=', '≥'):
            return t.le(b, a)
        if o in ('==', '==='):
            return t.eq(a, b)
        if o in ('!=', '≠', '!=='):
            return t.bnot(t.eq(a, b))
        if o == '&&':
            return t.band(a, b)
        if o == '||':
            return t.bor(a, b)
        raise Unsup('operator ' + op)

    def ccall(self, e, env, mod):
        args = e[2]
        if len(args) < 3:
            raise Unsup('ccall')
        tgt = args[0]
        while tgt[0] == 'paren':
            tgt = tgt[1]
        lib = None
        if tgt[0] == 'tuple':
            if len(tgt[1]) > 1:
                lib = tgt[1][1]
            tgt = tgt[1][0]
        if tgt[0] == 'sym':
            name = tgt[1]
        elif tgt[0] == 'str':
            name = tgt[1]
        else:
            raise Unsup('ccall target')
        tys = args[2]
        tys = [tys[1]] if tys[0] == 'paren' else tys[1] if tys[0] == 'tuple' else None
        if tys is None:
            raise Unsup('ccall types')
        vals = [self.ev(x, env, mod) for x in args[3:]]
        if lib is not None and lib[0] in ('field', 'id'):
            base = lib
            while base[0] == 'field':
                base = base[1]
            if base[0] == 'id' and base[1] not in mod.names and base[1] not in env:
                if not any(path[0] == base[1] for (s, f) in mod.imports for d, path in s[2]):
                    raise Undefined('%s is not defined in %s' % (base[1], mod.qual()))
        return self.on_ccall(name, typename(args[1]), [typename(x) for x in tys], vals, (self.where[-1] if self.where else (mod.file, 0))[0], e[4])


def arith(op, a, b):
    if op == '+':
        return t.add(a, b)
    if op == '-':
        return t.sub(a, b)
    if op == '*':
        return t.mul(a, b)
    if op == '/':
        return t.div(a, b)
    return t.power(a, b)
