"""A front end for the repository's Rust: lexer, token trees, macro_rules, parser.

Nothing is compiled; the tree is what the analyses walk.  Every node carries the
line it starts on.
"""

from __future__ import annotations

import os
import re


TESTS = False     # the test items too (only to try the interpreter out)

class RustSyntax(Exception):
    pass


class N:
    """A syntax node."""

    def __init__(self, kind, line=0, **kw):
        self.kind, self.line = kind, line
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ('kind', 'line')}
        return f'{self.kind}({", ".join(f"{k}={v!r}" for k, v in d.items())})'


class Tok:
    __slots__ = ('t', 'v', 'line', 'kids', 'joint')

    def __init__(self, t, v, line, kids=None, joint=False):
        self.t, self.v, self.line, self.kids, self.joint = t, v, line, kids, joint

    def __repr__(self):
        return f'{self.v}' if self.kids is None else f'{self.v}{self.kids}'


PUNCT = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=',
         '%=', '^=', '&=', '|=', '<<', '>>', '..']
SUFFIX = re.compile(r'(?:_?(?:u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64))$')
CLOSE = {'(': ')', '[': ']', '{': '}'}


def lex(src):
    toks, i, line, n = [], 0, 1, len(src)
    while i < n:
        c = src[i]
        if c == '\n':
            line += 1
            i += 1
        elif c.isspace():
            i += 1
        elif src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
        elif src.startswith('/*', i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith('/*', j):
                    depth += 1
                    j += 2
                elif src.startswith('*/', j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            line += src.count('\n', i, j)
            i = j
        elif c == '"' or (c == 'b' and src[i + 1:i + 2] == '"'):
            j = i + (2 if c == 'b' else 1)
            buf = []
            while src[j] != '"':
                if src[j] == '\\':
                    e = src[j + 1]
                    if e == '\n':
                        j += 2
                        while src[j].isspace():
                            j += 1
                        continue
                    if e == 'x':
                        buf.append(chr(int(src[j + 2:j + 4], 16)))
                        j += 4
                        continue
                    if e == 'u':
                        k = src.index('}', j)
                        buf.append(chr(int(src[j + 3:k], 16)))
                        j = k + 1
                        continue
                    buf.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(e, e))
                    j += 2
                    continue
                buf.append(src[j])
                j += 1
            line += src.count('\n', i, j)
            toks.append(Tok('str', ''.join(buf), line))
            i = j + 1
        elif c == 'r' and re.match(r'r#*"', src[i:i + 8]):
            m = re.match(r'r(#*)"', src[i:])
            end = '"' + m.group(1)
            j = src.index(end, i + m.end())
            toks.append(Tok('str', src[i + m.end():j], line))
            line += src.count('\n', i, j)
            i = j + len(end)
        elif c == "'":
            m = re.match(r"'(\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^\\'\n])'", src[i:])
            if m:
                v = m.group(1)
                if v[0] == '\\':
                    v = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(v[1], v[1]) if v[1] not in 'xu' else chr(
                        int(re.sub(r'[^0-9a-fA-F]', '', v[2:]), 16))
                toks.append(Tok('char', v, line))
                i += m.end()
            else:
                m = re.match(r"'[A-Za-z_]\w*", src[i:])
                toks.append(Tok('life', m.group(0), line))
                i += m.end()
        elif c.isdigit():
            m = re.match(r'0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?', src[i:])
            j = i + m.end()
            m2 = re.match(r'(?:u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64)\b', src[j:])
            suf = m2.group(0) if m2 else ''
            text = m.group(0).replace('_', '')
            isf = not text.startswith('0x') and re.search(r'[.eE]', text)
            toks.append(Tok('float' if isf else 'int', (float(text) if isf else int(text, 0 if text[:2] in ('0x', '0b', '0o') else 10), suf), line))
            i = j + len(suf)
        elif c.isalpha() or c == '_':
            m = re.match(r'(?:r#)?\w+', src[i:])
            v = m.group(0)
            toks.append(Tok('id', v[2:] if v.startswith('r#') else v, line))
            i += m.end()
        else:
            for p in PUNCT:
                if src.startswith(p, i):
                    toks.append(Tok('p', p, line))
                    i += len(p)
                    break
            else:
                toks.append(Tok('p', c, line))
                i += 1
    return toks


def trees(toks):
    """Flat tokens -> token trees."""
    out, stack = [], []
    for t in toks:
        if t.t == 'p' and t.v in '([{' and len(t.v) == 1:
            g = Tok('g', t.v, t.line, [])
            out.append(g)
            stack.append((out, g))
            out = g.kids
        elif t.t == 'p' and t.v in ')]}' and len(t.v) == 1:
            if not stack or CLOSE[stack[-1][1].v] != t.v:
                raise RustSyntax(f'line {t.line}: unbalanced {t.v}')
            out, _ = stack.pop()
        else:
            out.append(t)
    if stack:
        raise RustSyntax('unbalanced')
    return out


BINPREC = [
    ('||',), ('&&',), ('==', '!=', '<', '>', '<=', '>='), ('|',), ('^',), ('&',), ('<<', '>>'), ('+', '-'), ('*', '/', '%'),
]
PREC = {op: k for k, ops in enumerate(BINPREC) for op in ops}
ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<=', '>>=')
KEYWORDS = {'as', 'break', 'const', 'continue', 'else', 'enum', 'fn', 'for', 'if', 'impl', 'in', 'let', 'loop', 'match', 'mod',
            'move', 'mut', 'pub', 'ref', 'return', 'static', 'struct', 'trait', 'type', 'unsafe', 'use', 'where', 'while'}


class P:
    """Recursive-descent parser over one list of token trees."""

    def __init__(self, toks, macros=None, line=0):
        self.toks, self.i, self.macros = list(toks), 0, macros if macros is not None else {}
        self.line0 = line

    # ---- tokens

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else Tok('eof', '', self.line0)

    def line(self):
        t = self.peek()
        return t.line or self.line0

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def isp(self, v, k=0):
        t = self.peek(k)
        return t.t == 'p' and t.v == v

    def isk(self, v, k=0):
        t = self.peek(k)
        return t.t == 'id' and t.v == v

    def isg(self, v, k=0):
        t = self.peek(k)
        return t.t == 'g' and t.v == v

    def eatp(self, v):
        t = self.peek()
        if t.t != 'p':
            return False
        if t.v == v:
            self.i += 1
            return True
        return False

    def eat_split(self, v):
        """Take one character off a compound operator (generics, closures)."""
        t = self.peek()
        if t.t != 'p' or not t.v.startswith(v):
            return False
        if t.v == v:
            self.i += 1
        else:
            self.toks[self.i] = Tok('p', t.v[len(v):], t.line)
        return True

    def eatk(self, v):
        if self.isk(v):
            self.i += 1
            return True
        return False

    def fail(self, what=''):
        t = self.peek()
        raise RustSyntax(f'line {self.line()}: {what} near {str(t)[:60]!r}')

    def wantp(self, v):
        if not self.eatp(v):
            self.fail(f'expected {v}')

    def ident(self):
        t = self.next()
        if t.t != 'id':
            self.i -= 1
            self.fail('expected a name')
        return t.v

    def eof(self):
        return self.i >= len(self.toks)

    def sub(self, g):
        return P(g.kids, self.macros, g.line)

    # ---- attributes, items

    def attrs(self):
        out = []
        while self.isp('#'):
            k = 1
            if self.isp('!', 1):
                k = 2
            if not self.isg('[', k):
                break
            out.append(flat(self.peek(k).kids))
            self.i += k + 1
        return out

    def items(self):
        out = []
        while not self.eof():
            it = self.item()
            if it is not None:
                out.append(it)
        return out

    def vis(self):
        if self.eatk('pub'):
            if self.isg('('):
                self.i += 1
            return True
        return False

    def item(self):
        a = self.attrs()
        if self.eof():
            return None
        skip = not TESTS and (any(x.startswith('cfg') and 'test' in x for x in a) or any(x == 'test' for x in a))
        line = self.line()
        pub = self.vis()
        r = None
        if skip:
            # tests: not part of what is analysed
            ends_semi = self.peek().v in ('use', 'const', 'static', 'type', 'extern') and not self.fn_ahead()
            while not self.eof():
                t = self.next()
                if t.t == 'p' and t.v == ';' or not ends_semi and t.t == 'g' and t.v == '{':
                    break
            return None
        if self.isk('fn') or (self.peek().v in ('const', 'unsafe', 'async', 'extern') and self.peek().t == 'id' and self.fn_ahead()):
            r = self.fn()
        elif self.isk('struct'):
            r = self.struct()
        elif self.isk('enum'):
            r = self.enum()
        elif self.isk('trait') or (self.isk('unsafe') and self.isk('trait', 1)):
            self.eatk('unsafe')
            r = self.trait()
        elif self.isk('impl') or (self.isk('unsafe') and self.isk('impl', 1)):
            self.eatk('unsafe')
            r = self.impl()
        elif self.isk('type'):
            self.i += 1
            name = self.ident()
            gens = self.generics()
            if self.eatp(':'):
                self.bounds()
            ty = self.type() if self.eatp('=') else None
            self.where()
            self.wantp(';')
            r = N('type', line, name=name, generics=gens, ty=ty)
        elif self.isk('use'):
            self.i += 1
            uses = []
            self.use_tree([], uses)
            self.wantp(';')
            r = N('use', line, uses=uses)
        elif self.isk('const') or self.isk('static'):
            self.i += 1
            self.eatk('mut')
            name = self.ident()
            ty = self.type() if self.eatp(':') else None
            e = self.expr() if self.eatp('=') else None
            self.wantp(';')
            r = N('const', line, name=name, ty=ty, e=e)
        elif self.isk('mod'):
            self.i += 1
            name = self.ident()
            if self.eatp(';'):
                r = N('mod', line, name=name, items=None)
            else:
                g = self.next()
                r = N('mod', line, name=name, items=self.sub(g).items() if not skip else [])
        elif self.isk('extern'):
            while not self.eatp(';'):
                self.i += 1
            return None
        elif self.isk('macro_rules') and self.isp('!', 1):
            self.i += 2
            name = self.ident()
            g = self.next()
            self.eatp(';')
            if not skip:
                self.macros[name] = macro_arms(g)
            return None
        elif self.peek().t == 'id' and self.isp('!', 1):
            name = self.ident()
            self.i += 1
            g = self.next()
            self.eatp(';')
            if name in self.macros and not skip:
                sub = P(expand(self.macros[name], g.kids, self.macros, name), self.macros, line)
                return N('items', line, items=sub.items(), attrs=a)
            return None
        elif self.eatp(';'):
            return None
        else:
            self.fail('item')
        if skip:
            return None
        r.attrs, r.pub = a, pub
        return r

    def fn_ahead(self):
        k = 0
        while self.peek(k).t == 'id' and self.peek(k).v in ('const', 'unsafe', 'async', 'extern') or self.peek(k).t == 'str':
            k += 1
        return self.isk('fn', k)

    def use_tree(self, prefix, out):
        self.eatp('::')
        if self.isg('{'):
            s = self.sub(self.next())
            while not s.eof():
                s.use_tree(prefix, out)
                if not s.eatp(','):
                    break
            return
        if self.eatp('*'):
            out.append((prefix, '*'))
            return
        name = self.ident()
        if self.eatp('::'):
            self.use_tree(prefix + [name], out)
            return
        alias = name
        if self.eatk('as'):
            alias = self.ident()
        if name == 'self':
            out.append((prefix, alias if alias != 'self' else prefix[-1]))
        else:
            out.append((prefix + [name], alias))

    def generics(self):
        out = []
        if not self.isp('<') and not self.isp('<<'):
            return out
        self.eat_split('<')
        while not self.isp('>'):
            if self.peek().t == 'life':
                self.i += 1
                if self.eatp(':'):
                    while self.peek().t == 'life' or self.isp('+'):
                        self.i += 1
            else:
                const = self.eatk('const')
                name = self.ident()
                b = []
                if self.eatp(':'):
                    b = self.bounds() if not const else [self.type()]
                if self.eatp('='):
                    self.type() if not const else self.expr()
                out.append((name, b))
            if not self.eatp(','):
                break
        if not self.eat_split('>'):
            self.fail('generics')
        return out

    def bounds(self):
        out = []
        while True:
            if self.peek().t == 'life':
                self.i += 1
            elif self.eatp('?'):
                self.type()
            elif self.isg('('):
                out.append(self.sub(self.next()).type())
            else:
                if self.isk('for') and self.isp('<', 1):
                    self.i += 1
                    self.generics()
                out.append(self.path_type())
            if not self.eatp('+'):
                return out

    def where(self):
        out = []
        if self.eatk('where'):
            while not (self.eof() or self.isg('{') or self.isp(';')):
                if self.peek().t == 'life':
                    self.i += 1
                else:
                    out.append(self.type())
                self.wantp(':')
                self.bounds()
                if not self.eatp(','):
                    break
        return out

    def fn(self):
        line = self.line()
        const = False
        while not self.isk('fn'):
            const = const or self.isk('const')
            self.i += 1
        self.i += 1
        name = self.ident()
        gens = self.generics()
        g = self.next()
        s = self.sub(g)
        params = []
        selfp = None
        while not s.eof():
            s.attrs()
            k = 0
            if s.isp('&'):
                k = 1
                if s.peek(k).t == 'life':
                    k += 1
            if s.isk('mut', k):
                k += 1
            if s.isk('self', k) and not s.isp(':', k + 1):
                txt = [t.v for t in s.toks[s.i:s.i + k + 1]]
                selfp = 'ref mut' if '&' in txt and 'mut' in txt else 'ref' if '&' in txt else 'own'
                s.i += k + 1
            elif s.isk('self', k):
                s.i += k + 2
                s.type()
                selfp = 'own'
            else:
                pat = s.pattern()
                s.wantp(':')
                params.append((pat, s.type()))
            if not s.eatp(','):
                break
        ret = self.type() if self.eatp('->') else None
        self.where()
        body = None
        if self.isg('{'):
            body = self.block()
        else:
            self.wantp(';')
        return N('fn', line, name=name, generics=gens, params=params, selfp=selfp, ret=ret, body=body, const=const)

    def fields(self, g):
        s = self.sub(g)
        out = []
        while not s.eof():
            s.attrs()
            s.vis()
            name = s.ident()
            s.wantp(':')
            out.append((name, s.type()))
            if not s.eatp(','):
                break
        return out

    def tuple_fields(self, g):
        s = self.sub(g)
        out = []
        while not s.eof():
            s.attrs()
            s.vis()
            out.append((str(len(out)), s.type()))
            if not s.eatp(','):
                break
        return out

    def struct(self):
        line = self.line()
        self.i += 1
        name = self.ident()
        gens = self.generics()
        self.where()
        if self.isg('{'):
            return N('struct', line, name=name, generics=gens, fields=self.fields(self.next()), tuple=False)
        if self.isg('('):
            f = self.tuple_fields(self.next())
            self.where()
            self.wantp(';')
            return N('struct', line, name=name, generics=gens, fields=f, tuple=True)
        self.wantp(';')
        return N('struct', line, name=name, generics=gens, fields=[], tuple=True)

    def enum(self):
        line = self.line()
        self.i += 1
        name = self.ident()
        gens = self.generics()
        self.where()
        s = self.sub(self.next())
        vs = []
        while not s.eof():
            s.attrs()
            v = s.ident()
            f, tup = [], None
            if s.isg('{'):
                f, tup = s.fields(s.next()), False
            elif s.isg('('):
                f, tup = s.tuple_fields(s.next()), True
            if s.eatp('='):
                s.expr()
            vs.append((v, f, tup))
            if not s.eatp(','):
                break
        return N('enum', line, name=name, generics=gens, variants=vs)

    def trait(self):
        line = self.line()
        self.i += 1
        name = self.ident()
        gens = self.generics()
        if self.eatp(':'):
            self.bounds()
        self.where()
        return N('trait', line, name=name, generics=gens, items=self.sub(self.next()).items())

    def impl(self):
        line = self.line()
        self.i += 1
        gens = self.generics()
        neg = self.eatp('!')
        ty = self.type()
        tr = None
        if self.eatk('for'):
            tr, ty = ty, self.type()
        self.where()
        return N('impl', line, generics=gens, trait=tr, ty=ty, items=self.sub(self.next()).items(), neg=neg)

    # ---- types

    def type(self):
        line = self.line()
        t = self.peek()
        if t.t == 'ast':
            return self.next().v
        if self.eat_split('&'):
            if self.peek().t == 'life':
                self.i += 1
            mut = self.eatk('mut')
            return N('tref', line, mut=mut, ty=self.type())
        if self.eatp('*'):
            self.next()
            return N('tref', line, mut=True, ty=self.type())
        if self.eatp('!'):
            return N('tnever', line)
        if self.isg('('):
            s = self.sub(self.next())
            out = []
            comma = False
            while not s.eof():
                out.append(s.type())
                comma = s.eatp(',')
                if not comma:
                    break
            if len(out) == 1 and not comma:
                return out[0]
            return N('ttuple', line, tys=out)
        if self.isg('['):
            s = self.sub(self.next())
            el = s.type()
            n = s.expr() if s.eatp(';') else None
            return N('tslice', line, ty=el, n=n)
        if self.eatk('impl') or self.eatk('dyn'):
            return N('timpl', line, bounds=self.bounds())
        if self.isk('for') and self.isp('<', 1):
            self.i += 1
            self.generics()
            return self.type()
        if self.eatk('fn') or (self.isk('unsafe') and self.isk('fn', 1)):
            self.eatk('fn')
            s = self.sub(self.next())
            args = []
            while not s.eof():
                if s.peek().t == 'id' and s.isp(':', 1):
                    s.i += 2
                args.append(s.type())
                if not s.eatp(','):
                    break
            return N('tfn', line, args=args, ret=self.type() if self.eatp('->') else None)
        if self.isk('_'):
            self.i += 1
            return N('tinfer', line)
        return self.path_type()

    def path_type(self):
        line = self.line()
        segs = []
        if self.isp('<') or self.isp('<<'):
            self.eat_split('<')
            q = self.type()
            tr = self.type() if self.eatk('as') else None
            if not self.eat_split('>'):
                self.fail('qualified path')
            segs.append(('<>', [q, tr]))
            self.wantp('::')
        self.eatp('::')
        while True:
            name = self.ident()
            args = []
            if self.isp('::') and (self.isp('<', 1) or self.isp('<<', 1)):
                self.i += 1
            if self.isp('<') or self.isp('<<'):
                args = self.generic_args()
            elif self.isg('(') and name in ('Fn', 'FnMut', 'FnOnce'):
                s = self.sub(self.next())
                args = []
                while not s.eof():
                    args.append(s.type())
                    if not s.eatp(','):
                        break
                ret = self.type() if self.eatp('->') else None
                return N('tfn', line, args=args, ret=ret)
            segs.append((name, args))
            if not self.eatp('::'):
                break
        return N('tpath', line, segs=segs)

    def generic_args(self):
        self.eat_split('<')
        out = []
        while not (self.peek().t == 'p' and self.peek().v.startswith('>')):
            if self.peek().t == 'life':
                self.i += 1
            elif self.peek().t == 'id' and self.isp('=', 1):
                n = self.ident()
                self.i += 1
                out.append(N('tassoc', self.line(), name=n, ty=self.type()))
            elif self.peek().t in ('int',) or self.isg('{'):
                out.append(N('tconst', self.line(), e=self.primary()))
            else:
                out.append(self.type())
            if not self.eatp(','):
                break
        if not self.eat_split('>'):
            self.fail('generic arguments')
        return out

    # ---- patterns

    def pattern(self, alt=True):
        line = self.line()
        if alt:
            self.eatp('|')
        first = self.pattern1()
        if alt and self.isp('|'):
            alts = [first]
            while self.eatp('|'):
                alts.append(self.pattern1())
            return N('por', line, alts=alts)
        return first

    def patlist(self, s):
        out = []
        comma = False
        while not s.eof():
            out.append(s.pattern())
            comma = s.eatp(',')
            if not comma:
                break
        return out, comma

    def pattern1(self):
        line = self.line()
        t = self.peek()
        if t.t == 'ast':
            self.i += 1
            if t.v.kind in ('path', 'lit', 'unary'):
                return expr_pattern(t.v)
            return t.v
        if self.isk('_'):
            self.i += 1
            return N('pwild', line)
        if self.eatp('..'):
            return N('prest', line)
        if self.eat_split('&'):
            self.eatk('mut')
            return N('pref', line, p=self.pattern1())
        if self.isg('('):
            ps, comma = self.patlist(self.sub(self.next()))
            if len(ps) == 1 and not comma and ps[0].kind != 'prest':
                return ps[0]
            return N('ptuple', line, ps=ps)
        if self.isg('['):
            ps, _ = self.patlist(self.sub(self.next()))
            return N('pslice', line, ps=ps)
        if t.t in ('int', 'str', 'char', 'float') or self.isp('-'):
            lo = self.pat_lit()
            if self.isp('..=') or self.isp('..'):
                op = self.next().v
                hi = None
                if self.peek().t in ('int', 'char', 'id') or self.isp('-'):
                    hi = self.pat_lit()
                return N('prange', line, lo=lo, hi=hi, incl=op == '..=')
            return N('plit', line, e=lo)
        if self.isp('..='):
            self.i += 1
            return N('prange', line, lo=None, hi=self.pat_lit(), incl=True)
        if t.t == 'id' and t.v in ('true', 'false'):
            self.i += 1
            return N('plit', line, e=N('lit', line, v=t.v == 'true', t='bool'))
        ref = self.eatk('ref')
        mut = self.eatk('mut')
        if ref and not mut:
            mut = self.eatk('mut')
        if ref or mut:
            name = self.ident()
            sub = self.pattern1() if self.eatp('@') else None
            return N('pid', line, name=name, ref=ref, mut=mut, sub=sub)
        if self.isk('box'):
            self.i += 1
            return self.pattern1()
        # a name or a path
        e = self.path()
        if self.isg('('):
            ps, _ = self.patlist(self.sub(self.next()))
            return N('pts', line, path=e, ps=ps)
        if self.isg('{'):
            s = self.sub(self.next())
            fs, rest = [], False
            while not s.eof():
                s.attrs()
                if s.eatp('..'):
                    rest = True
                    break
                r2 = s.eatk('ref')
                m2 = s.eatk('mut')
                name = s.next()
                nm = name.v if name.t == 'id' else str(name.v[0])
                if s.eatp(':'):
                    fs.append((nm, s.pattern()))
                else:
                    fs.append((nm, N('pid', name.line, name=nm, ref=r2, mut=m2, sub=None)))
                if not s.eatp(','):
                    break
            return N('pstruct', line, path=e, fields=fs, rest=rest)
        if self.isp('..=') or self.isp('..') and (self.peek(1).t in ('int', 'char', 'id')):
            op = self.next().v
            hi = self.pat_lit() if self.peek().t in ('int', 'char') or self.isp('-') else self.path()
            return N('prange', line, lo=e, hi=hi, incl=op == '..=')
        if len(e.segs) == 1 and not e.segs[0][1]:
            sub = self.pattern1() if self.eatp('@') else None
            return N('pid', line, name=e.segs[0][0], ref=False, mut=False, sub=sub)
        return N('ppath', line, path=e)

    def pat_lit(self):
        line = self.line()
        neg = self.eatp('-')
        t = self.next()
        if t.t in ('int', 'float'):
            return N('lit', line, v=-t.v[0] if neg else t.v[0], t='int')
        if t.t in ('str', 'char'):
            return N('lit', line, v=t.v, t=t.t)
        self.i -= 1
        return self.path()

    # ---- statements

    def block(self):
        g = self.next()
        if g.t != 'g' or g.v != '{':
            self.i -= 1
            self.fail('block')
        return self.block_of(self.sub(g), g.line)

    def block_of(self, s, line):
        stmts = []
        tail = None
        while not s.eof():
            if s.eatp(';'):
                continue
            a = s.attrs()
            dead = not TESTS and any(x.startswith('cfg') and ('test' in x or 'debug_assertions' in x) for x in a)
            l = s.line()
            if s.isk('let'):
                st = s.let()
                if not dead:
                    stmts.append(st)
                continue
            if s.item_ahead():
                it = s.item()
                if it is not None and not dead:
                    stmts.append(N('item', l, item=it))
                continue
            if s.peek().t == 'id' and s.isp('!', 1) and s.isg('{', 2) and s.peek().v in s.macros:
                pass
            e = s.expr(stmt=True)
            if s.eatp(';'):
                if not dead:
                    stmts.append(N('expr', l, e=e))
            elif s.eof():
                if not dead:
                    tail = e
            else:
                if not dead:
                    stmts.append(N('expr', l, e=e))
        return N('block', line, stmts=stmts, tail=tail, label=None)

    def item_ahead(self):
        t = self.peek()
        if t.t != 'id':
            return False
        if t.v in ('fn', 'struct', 'enum', 'impl', 'trait', 'use', 'static', 'mod', 'pub', 'type', 'macro_rules'):
            return t.v != 'macro_rules' or self.isp('!', 1)
        if t.v == 'const':
            return not self.isg('{', 1)
        return t.v in ('unsafe',) and self.isk('fn', 1)

    def let(self):
        line = self.line()
        self.i += 1
        pat = self.pattern()
        ty = self.type() if self.eatp(':') else None
        init = els = None
        if self.eatp('='):
            init = self.expr()
            if self.eatk('else'):
                els = self.block()
        self.wantp(';')
        return N('let', line, pat=pat, ty=ty, init=init, els=els)

    # ---- expressions

    def expr(self, nostruct=False, stmt=False):
        line = self.line()
        # an expression with a block ends a statement
        if stmt:
            t = self.peek()
            if t.t == 'id' and t.v in ('if', 'match', 'while', 'loop', 'for', 'unsafe') or self.isg('{') or t.t == 'life':
                e = self.primary()
                if not (self.isp('.') or self.isp('?')):
                    return e
                e = self.postfix(e, nostruct)
                return self.assign_rest(self.binary_rest(e, 0, nostruct), nostruct)
        return self.assign(nostruct)

    def assign(self, ns):
        e = self.range(ns)
        return self.assign_rest(e, ns)

    def assign_rest(self, e, ns):
        t = self.peek()
        if t.t == 'p' and t.v in ASSIGN:
            self.i += 1
            r = self.assign(ns)
            return N('assign', t.line, op=t.v[:-1], l=e, r=r)
        return e

    def range(self, ns):
        line = self.line()
        if self.isp('..') or self.isp('..='):
            op = self.next().v
            hi = self.binary(0, ns) if self.expr_ahead(ns) else None
            return N('range', line, lo=None, hi=hi, incl=op == '..=')
        e = self.binary(0, ns)
        if self.isp('..') or self.isp('..='):
            op = self.next().v
            hi = self.binary(0, ns) if self.expr_ahead(ns) else None
            return N('range', line, lo=e, hi=hi, incl=op == '..=')
        return e

    def expr_ahead(self, ns):
        t = self.peek()
        if t.t == 'eof':
            return False
        if t.t == 'p':
            return t.v in ('-', '!', '*', '&', '|', '||', '&&')
        if t.t == 'g':
            return not (t.v == '{' and ns)
        return True

    def binary(self, prec, ns):
        e = self.unary(ns)
        return self.binary_rest(e, prec, ns)

    def binary_rest(self, e, prec, ns):
        while True:
            t = self.peek()
            if t.t == 'id' and t.v == 'as':
                self.i += 1
                e = N('cast', t.line, e=e, ty=self.type())
                continue
            if t.t != 'p' or t.v not in PREC or PREC[t.v] < prec:
                return e
            op = t.v
            self.i += 1
            r = self.binary(PREC[op] + 1, ns)
            e = N('bin', t.line, op=op, l=e, r=r)

    def unary(self, ns):
        line = self.line()
        if self.eatp('-'):
            return N('unary', line, op='-', e=self.cast_rest(self.unary(ns)))
        if self.eatp('!'):
            return N('unary', line, op='!', e=self.unary(ns))
        if self.eatp('*'):
            return N('deref', line, e=self.unary(ns))
        if self.isp('&') or self.isp('&&'):
            self.eat_split('&')
            if self.peek().t == 'id' and self.peek().v == 'raw' and self.peek(1).v in ('const', 'mut'):
                self.i += 1
            mut = self.eatk('mut')
            return N('ref', line, mut=mut, e=self.unary(ns))
        return self.postfix(self.primary(ns), ns)

    def cast_rest(self, e):
        return e

    def args(self, g):
        s = self.sub(g)
        out = []
        while not s.eof():
            s.attrs()
            out.append(s.expr())
            if not s.eatp(','):
                break
        if not s.eof():
            s.fail('arguments')
        return out

    def postfix(self, e, ns):
        while True:
            line = self.line()
            if self.eatp('?'):
                e = N('try', line, e=e)
            elif self.isg('('):
                e = N('call', line, f=e, args=self.args(self.next()))
            elif self.isg('['):
                g = self.next()
                e = N('index', line, e=e, i=self.sub(g).expr())
            elif self.isp('.'):
                self.i += 1
                t = self.next()
                if t.t == 'int':
                    e = N('field', line, e=e, name=str(t.v[0]))
                elif t.t == 'float':
                    a, b = str(t.v[0]).split('.')
                    e = N('field', line, e=N('field', line, e=e, name=a), name=b)
                elif t.t == 'id':
                    if t.v == 'await':
                        self.fail('await')
                    targs = []
                    if self.isp('::'):
                        self.i += 1
                        targs = self.generic_args()
                    if self.isg('('):
                        e = N('mcall', line, e=e, name=t.v, args=self.args(self.next()), targs=targs)
                    else:
                        e = N('field', line, e=e, name=t.v)
                else:
                    self.fail('member')
            else:
                return e

    def path(self):
        line = self.line()
        segs = []
        if self.isp('<') or self.isp('<<'):
            self.eat_split('<')
            q = self.type()
            tr = self.type() if self.eatk('as') else None
            if not self.eat_split('>'):
                self.fail('qualified path')
            segs.append(('<>', [q, tr]))
            self.wantp('::')
        self.eatp('::')
        while True:
            name = self.ident()
            args = []
            if self.isp('::') and (self.isp('<', 1) or self.isp('<<', 1)):
                self.i += 1
                args = self.generic_args()
            segs.append((name, args))
            if not (self.isp('::') and (self.peek(1).t == 'id')):
                break
            self.i += 1
        return N('path', line, segs=segs)

    def cond(self):
        """An if / while condition, `let` chains included."""
        parts = []
        while True:
            line = self.line()
            if self.eatk('let'):
                pat = self.pattern()
                self.wantp('=')
                e = self.binary(PREC['&&'] + 1, True)
                parts.append(N('iflet', line, pat=pat, e=e))
            else:
                e = self.binary(PREC['&&'] + 1, True)
                if not self.isp('&&') and not parts:
                    e = self.binary_rest(e, 0, True)
                    if self.isp('..') or self.isp('='):
                        self.fail('condition')
                parts.append(e)
            if not self.eatp('&&'):
                break
        if self.isp('||') and len(parts) >= 1:
            e = parts[0]
            for x in parts[1:]:
                e = N('bin', e.line, op='&&', l=e, r=x)
            return self.binary_rest(e, 0, True)
        if len(parts) == 1:
            return parts[0]
        return N('conds', parts[0].line, parts=parts)

    def primary(self, ns=False):
        t = self.peek()
        line = self.line()
        if t.t == 'ast':
            self.i += 1
            return t.v
        if t.t in ('int', 'float'):
            self.i += 1
            return N('lit', line, v=t.v[0], t=t.t, suf=t.v[1])
        if t.t in ('str', 'char'):
            self.i += 1
            return N('lit', line, v=t.v, t=t.t)
        if t.t == 'g':
            if t.v == '(':
                self.i += 1
                s = self.sub(t)
                out = []
                comma = False
                while not s.eof():
                    out.append(s.expr())
                    comma = s.eatp(',')
                    if not comma:
                        break
                if not s.eof():
                    s.fail('parenthesis')
                if len(out) == 1 and not comma:
                    return N('paren', line, e=out[0])
                return N('tuple', line, es=out)
            if t.v == '[':
                self.i += 1
                return self.array(self.sub(t), line)
            return self.block()
        if t.t == 'life':
            self.i += 1
            self.wantp(':')
            e = self.primary(ns)
            e.label = t.v
            return e
        if self.isp('|') or self.isp('||'):
            return self.closure()
        if self.isp('<') or self.isp('<<') or self.isp('::'):
            return self.path()
        if t.t != 'id':
            self.fail('expression')
        v = t.v
        if v in ('true', 'false'):
            self.i += 1
            return N('lit', line, v=v == 'true', t='bool')
        if v == 'move' or v == 'static' and self.isp('|', 1):
            self.i += 1
            return self.closure()
        if v == 'if':
            self.i += 1
            c = self.cond()
            a = self.block()
            b = None
            if self.eatk('else'):
                b = self.primary() if self.isk('if') else self.block()
            return N('if', line, c=c, a=a, b=b)
        if v == 'match':
            self.i += 1
            e = self.expr(nostruct=True)
            s = self.sub(self.next())
            arms = []
            while not s.eof():
                s.attrs()
                pat = s.pattern()
                g = None
                if s.eatk('if'):
                    g = s.cond()
                s.wantp('=>')
                body = s.expr(stmt=s.isg('{'))
                s.eatp(',')
                arms.append((pat, g, body))
            return N('match', line, e=e, arms=arms)
        if v == 'loop':
            self.i += 1
            return N('loop', line, body=self.block(), label=None)
        if v == 'while':
            self.i += 1
            c = self.cond()
            return N('while', line, c=c, body=self.block(), label=None)
        if v == 'for':
            self.i += 1
            pat = self.pattern()
            if not self.eatk('in'):
                self.fail('for')
            e = self.expr(nostruct=True)
            return N('for', line, pat=pat, e=e, body=self.block(), label=None)
        if v == 'unsafe' or v == 'const' and self.isg('{', 1):
            self.i += 1
            return self.block()
        if v in ('return', 'break', 'continue'):
            self.i += 1
            lab = None
            if v != 'return' and self.peek().t == 'life':
                lab = self.next().v
            e = None
            if v != 'continue' and not self.eof() and not self.isp(';') and not self.isp(',') and self.expr_ahead(ns):
                e = self.expr(nostruct=ns)
            return N(v, line, e=e, label=lab)
        if v == 'let':
            # `let` inside a condition that is not at the top of the chain
            self.i += 1
            pat = self.pattern()
            self.wantp('=')
            return N('iflet', line, pat=pat, e=self.binary(PREC['&&'] + 1, True))
        if self.isp('!', 1) and self.peek(2).t == 'g' :
            self.i += 2
            g = self.next()
            return self.macro(v, g, line)
        p = self.path()
        if self.isp('!') and self.peek(1).t == 'g':
            self.i += 1
            return self.macro(p.segs[-1][0], self.next(), line)
        if self.isg('{') and not ns and self.struct_ahead(p):
            s = self.sub(self.next())
            fs, base = [], None
            while not s.eof():
                s.attrs()
                if s.eatp('..'):
                    base = s.expr()
                    break
                n = s.next()
                nm = n.v if n.t == 'id' else str(n.v[0])
                if s.eatp(':'):
                    fs.append((nm, s.expr()))
                else:
                    fs.append((nm, N('path', n.line, segs=[(nm, [])])))
                if not s.eatp(','):
                    break
            return N('struct_lit', line, path=p, fields=fs, base=base)
        return p

    def struct_ahead(self, p):
        last = p.segs[-1][0]
        return last[0].isupper() or last == 'Self'

    def array(self, s, line):
        out = []
        while not s.eof():
            out.append(s.expr())
            if s.eatp(';'):
                return N('repeat', line, e=out[0], n=s.expr())
            if not s.eatp(','):
                break
        if not s.eof():
            s.fail('array')
        return N('array', line, es=out)

    def closure(self):
        line = self.line()
        params = []
        if self.eatp('||'):
            pass
        else:
            self.wantp('|')
            while not self.isp('|'):
                pat = self.pattern(alt=False)
                ty = self.type() if self.eatp(':') else None
                params.append((pat, ty))
                if not self.eatp(','):
                    break
            self.wantp('|')
        ret = None
        if self.eatp('->'):
            ret = self.type()
        body = self.expr()
        return N('closure', line, params=params, body=body, ret=ret)

    def macro(self, name, g, line):
        if name in self.macros:
            toks = expand(self.macros[name], g.kids, self.macros, name)
            s = P(toks, self.macros, line)
            b = self.block_of(s, line)
            if not b.stmts and b.tail is not None:
                return N('paren', line, e=b.tail)
            return b
        s = self.sub(g)
        if name == 'vec':
            return s.array(s, line)
        if name == 'matches':
            e = s.expr()
            s.wantp(',')
            pat = s.pattern()
            guard = s.cond() if s.eatk('if') else None
            return N('matches', line, e=e, pat=pat, guard=guard)
        out = []
        while not s.eof():
            if s.peek().t == 'id' and s.isp('=', 1):
                nm = s.ident()
                s.i += 1
                out.append(N('named', s.line(), name=nm, e=s.expr()))
            else:
                out.append(s.expr())
            if not s.eatp(','):
                break
        return N('macro', line, name=name, args=out)


def expr_pattern(e):
    if e.kind == 'lit':
        return N('plit', e.line, e=e)
    if e.kind == 'path':
        if len(e.segs) == 1:
            return N('pid', e.line, name=e.segs[0][0], ref=False, mut=False, sub=None)
        return N('ppath', e.line, path=e)
    return N('plit', e.line, e=N('lit', e.line, v=-e.e.v, t='int'))


def flat(kids):
    out = []
    for t in kids:
        if t.kids is not None:
            out.append(t.v + flat(t.kids) + CLOSE[t.v])
        else:
            out.append(str(t.v[0]) if t.t in ('int', 'float') else str(t.v))
    return ''.join(out)


# ---------------------------------------------------------------- macro_rules

def macro_arms(g):
    arms, i, k = [], 0, g.kids
    while i < len(k):
        pat = k[i]
        if not (k[i + 1].t == 'p' and k[i + 1].v == '=>'):
            raise RustSyntax(f'line {g.line}: macro arm')
        arms.append((pat.kids, k[i + 2].kids))
        i += 3
        if i < len(k) and k[i].t == 'p' and k[i].v == ';':
            i += 1
    return arms


def macro_seq(kids):
    """Macro pattern or template tokens -> [('tok', t) | ('var', name, frag) | ('rep', seq, sep, op) | ('grp', v, seq)]"""
    out, i = [], 0
    while i < len(kids):
        t = kids[i]
        if t.t == 'p' and t.v == '$' and i + 1 < len(kids):
            n = kids[i + 1]
            if n.t == 'g' and n.v == '(':
                j = i + 2
                sep = None
                if not (kids[j].t == 'p' and kids[j].v in ('*', '+', '?')):
                    if kids[j].t == 'p' and len(kids[j].v) > 1 and kids[j].v[-1] in '*+':
                        sep = Tok('p', kids[j].v[:-1], kids[j].line)
                        out.append(('rep', macro_seq(n.kids), sep, kids[j].v[-1]))
                        i = j + 1
                        continue
                    sep = kids[j]
                    j += 1
                out.append(('rep', macro_seq(n.kids), sep, kids[j].v))
                i = j + 1
                continue
            if n.t == 'id':
                if i + 3 < len(kids) + 0 and kids[i + 2:i + 3] and kids[i + 2].t == 'p' and kids[i + 2].v == ':' and i + 3 < len(kids) and kids[i + 3].t == 'id':
                    out.append(('var', n.v, kids[i + 3].v))
                    i += 4
                else:
                    out.append(('var', n.v, None))
                    i += 2
                continue
        if t.t == 'g':
            out.append(('grp', t.v, macro_seq(t.kids), t.line))
        else:
            out.append(('tok', t))
        i += 1
    return out


def tmpl_seq(kids):
    """As macro_seq for the right-hand side, where `$x : y` is no fragment specifier."""
    out, i = [], 0
    while i < len(kids):
        t = kids[i]
        if t.t == 'p' and t.v == '$' and i + 1 < len(kids):
            n = kids[i + 1]
            if n.t == 'g' and n.v == '(':
                j = i + 2
                sep = None
                if not (kids[j].t == 'p' and kids[j].v in ('*', '+', '?')):
                    sep = kids[j]
                    j += 1
                out.append(('rep', tmpl_seq(n.kids), sep, kids[j].v))
                i = j + 1
                continue
            if n.t == 'id':
                out.append(('var', n.v, None))
                i += 2
                continue
        if t.t == 'g':
            out.append(('grp', t.v, tmpl_seq(t.kids), t.line))
        else:
            out.append(('tok', t))
        i += 1
    return out


def match_seq(seq, toks, pos, macros, binds):
    """Match as much of toks as seq asks for; the position behind it, or None."""
    for k, m in enumerate(seq):
        if m[0] == 'tok':
            if pos >= len(toks) or toks[pos].t != m[1].t or toks[pos].v != m[1].v:
                return None
            pos += 1
        elif m[0] == 'grp':
            if pos >= len(toks) or toks[pos].t != 'g' or toks[pos].v != m[1]:
                return None
            if match_seq(m[2], toks[pos].kids, 0, macros, binds) != len(toks[pos].kids):
                return None
            pos += 1
        elif m[0] == 'var':
            frag = m[2]
            if pos >= len(toks):
                return None
            if frag in ('tt', 'ident', 'literal', 'lifetime'):
                if frag == 'ident' and toks[pos].t != 'id':
                    return None
                binds[m[1]] = [toks[pos]]
                pos += 1
            else:
                p = P(toks, macros, toks[pos].line)
                p.i = pos
                try:
                    node = {'expr': p.expr, 'ty': p.type, 'pat': p.pattern, 'path': p.path, 'block': p.block,
                            'pat_param': p.pattern}[frag]()
                except (RustSyntax, KeyError):
                    return None
                binds[m[1]] = [Tok('ast', node, toks[pos].line)]
                toks[:] = p.toks
                pos = p.i
        else:
            _, inner, sep, op = m
            rows = []
            first = True
            while True:
                if pos >= len(toks) and op != '+':
                    if first or sep is not None:
                        break
                    break
                q = pos
                if not first and sep is not None:
                    if q < len(toks) and toks[q].t == sep.t and toks[q].v == sep.v:
                        q += 1
                    else:
                        break
                b = {}
                r = match_seq(inner, toks, q, macros, b)
                if r is None or r == pos:
                    break
                pos = r
                rows.append(b)
                first = False
                if op == '?':
                    break
            if op == '+' and not rows:
                return None
            names = seq_vars(inner)
            for n in names:
                binds[n] = ('rows', [b.get(n) for b in rows])
            binds.setdefault('#rows', {})[id(m)] = len(rows)
    return pos


def seq_vars(seq):
    out = []
    for m in seq:
        if m[0] == 'var':
            out.append(m[1])
        elif m[0] == 'rep':
            out += seq_vars(m[1])
        elif m[0] == 'grp':
            out += seq_vars(m[2])
    return out


def fill(seq, binds, line):
    out = []
    for m in seq:
        if m[0] == 'tok':
            out.append(m[1])
        elif m[0] == 'var':
            v = binds.get(m[1])
            if v is None:
                out.append(Tok('p', '$', line))
                out.append(Tok('id', m[1], line))
            elif isinstance(v, tuple):
                raise RustSyntax(f'macro variable {m[1]} still repeats')
            else:
                out += v
        elif m[0] == 'grp':
            out.append(Tok('g', m[1], m[3], fill(m[2], binds, line)))
        else:
            _, inner, sep, op = m
            names = [n for n in seq_vars(inner) if isinstance(binds.get(n), tuple)]
            if not names:
                raise RustSyntax('macro repetition without a variable')
            rows = max(len(binds[n][1]) for n in names)
            for k in range(rows):
                b = dict(binds)
                for n in names:
                    b[n] = binds[n][1][k]
                if k and sep is not None:
                    out.append(sep)
                out += fill(inner, b, line)
    return out


def expand(arms, toks, macros, name):
    for pat, body in arms:
        binds = {}
        ts = list(toks)
        seq = macro_seq(pat)
        r = match_seq(seq, ts, 0, macros, binds)
        if r is not None and r == len(ts):
            return fill(tmpl_seq(body), binds, toks[0].line if toks else 0)
    raise RustSyntax(f'no arm of macro {name} matches')


def parse_file(path):
    with open(path, encoding='utf-8') as fh:
        src = fh.read()
    return P(trees(lex(src))).items()


def parse_crate(root):
    """{module name: [items]} of every file of src/"""
    d = os.path.join(root, 'src')
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith('.rs'):
            out[f[:-3]] = parse_file(os.path.join(d, f))
    return out


if __name__ == '__main__':
    import sys
    for mod, items in parse_crate(sys.argv[1] if len(sys.argv) > 1 else '/repo').items():
        print(mod, len(items), [getattr(i, 'name', i.kind) for i in items][:12])
