"""Path-sensitive abstract interpreter for the repository's Python.

Works on the syntax tree of the current source.  Values are constants, Terms
(sa.terms), abstract lists / dictionaries (materialised cells in front of a
summary tail), and objects of the repository's own classes.  A branch whose
condition the path's facts do not decide is split; the two halves are analysed
separately.  Nothing of the repository is imported or executed.
"""

from __future__ import annotations

import ast
import itertools
import math
import os
import time
from fractions import Fraction

from . import terms as T
from .terms import Term, Facts

BUILTIN_EXC = {
    n: getattr(__import__('builtins'), n) for n in (
        'Exception', 'BaseException', 'KeyError', 'ValueError', 'TypeError', 'IndexError',
        'NotImplementedError', 'OverflowError', 'ZeroDivisionError', 'AssertionError',
        'StopIteration', 'LookupError', 'ArithmeticError', 'RuntimeError', 'RecursionError',
        'AttributeError', 'KeyboardInterrupt', 'NameError', 'FileNotFoundError', 'OSError')
}


START = time.time()
DEADLINE = float(os.environ.get('SA_DEADLINE', '780'))


class Undecided(Exception):
    """The analysis lost precision on this path: it proves and refutes nothing."""


class Infeasible(Exception):
    pass


class Cut(Undecided):
    """A loop or recursion bound of the analysis was reached."""


class PyExc(Exception):
    def __init__(self, cls, args=(), node=None):
        super().__init__(cls, args)
        self.cls, self.args_, self.node = cls, args, node

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, Cls) else self.cls.__name__

    def matches(self, cls):
        if isinstance(cls, tuple):
            return any(self.matches(c) for c in cls)
        if isinstance(self.cls, Cls):
            return cls in self.cls.mro()
        return not isinstance(cls, Cls) and isinstance(cls, type) and issubclass(self.cls, cls)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Cls:
    def __init__(self, name, bases, module):
        self.name, self.bases, self.module = name, bases, module
        self.ns = {}
        self.fields = []            # annotated names, in order (dataclasses)
        self.is_dataclass = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
            elif isinstance(b, type):
                out += [c for c in b.__mro__ if c not in out]
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'


class Func:
    def __init__(self, node, env, module, cls=None, name=None):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.kind = 'func'          # func | property | static | classm
        self.isgen = None
        self.defaults = []
        self.kw_defaults = []

    @property
    def qual(self):
        return f'{self.module.name}.{self.cls.name + "." if self.cls else ""}{self.name}'

    def __repr__(self):
        return f'<func {self.qual}>'


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Native:
    """A library function the analyser models."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f'<native {self.name}>'


class Obj:
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.f = fields if fields is not None else {}

    def __repr__(self):
        return f'{self.cls.name}({", ".join(f"{k}={v!r}" for k, v in self.f.items())})'


class Fake:
    """A stand-in for an object of the program: attributes and items are answered by the analysis."""

    def __init__(self, name, attr=None, item=None, set_=None):
        self.name, self.attr, self.item, self.set = name, attr, item, set_

    def __repr__(self):
        return f'<{self.name}>'


class PList:
    """Materialised cells, then an optional unexpanded tail."""

    def __init__(self, items=None, tail=None):
        self.items = list(items or [])
        self.tail = tail            # callable(interp) -> None (ends) | (item, next tail)

    def __repr__(self):
        return '[' + ', '.join(map(repr, self.items)) + (', ...' if self.tail else '') + ']'


class PDict:
    def __init__(self, pairs=(), default=None):
        self.pairs = [list(p) for p in pairs]
        self.default = default

    def __repr__(self):
        return '{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.pairs) + '}'


class PSet:
    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return '{' + ', '.join(map(repr, self.items)) + '}'


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = None


class Opaque:
    """An unknown value: any use that needs it makes the path undecided."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<?{self.name}>'


class Env:
    __slots__ = ('vars', 'parent', 'nonlocals', 'comp', 'func', 'self_', 'globals_', 'yields', 'module')

    def __init__(self, parent=None, comp=False, func=None, module=None):
        self.vars = {}
        self.parent = parent
        self.nonlocals = ()
        self.globals_ = ()
        self.comp = comp
        self.func = func
        self.self_ = None
        self.yields = None
        self.module = module or (parent.module if parent else None)

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)

    def assign(self, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        if name in self.globals_:
            self.module.env.vars[name] = v
            return
        self.vars[name] = v

    def funcscope(self):
        e = self
        while e.comp and e.parent is not None:
            e = e.parent
        return e


BINOPS = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
    ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>',
}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '//': 'floordiv', '%': 'mod', '**': 'pow', '/': 'truediv'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class Repo:
    """Parsed sources, shared by all paths."""

    def __init__(self, root='/repo'):
        self.root = root
        self.trees = {}

    def tree(self, modname):
        if modname not in self.trees:
            rel = modname.replace('.', '/')
            for p in (f'{rel}.py', f'{rel}/__init__.py'):
                full = os.path.join(self.root, p)
                if os.path.exists(full):
                    with open(full, encoding='utf-8') as fh:
                        src = fh.read()
                    self.trees[modname] = Module(modname, full, ast.parse(src, full))
                    break
            else:
                self.trees[modname] = None
        return self.trees[modname]


MAXDEPTH = 60


class Interp:
    def __init__(self, repo, prefix=(), hooks=None, externs=None, max_iter=12, max_steps=60000, max_rec=50):
        self.max_rec = max_rec
        self.active = {}
        self.repo = repo
        self.facts = Facts()
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []              # positions where another choice remains: (pos, n)
        self.modules = {}
        self.snapshots = {}         # modules already executed on another path, with what restores them
        self.gcd_hook = None
        self.cut_hook = None        # stands in for a call beyond the recursion bound
        self.hooks = hooks or {}    # qualname -> f(interp, args, kwargs)
        self.externs = externs or {}
        self.max_iter = max_iter
        self.max_steps = max_steps
        self.steps = 0
        self.depth = 0
        self.trace = []
        self.visited = set()
        self.fresh_n = 0
        self.log = []
        self.binop_hook = None
        self.cmp_hook = None
        self.isinstance_hook = None
        self.attr_hook = None
        self.truth_hook = None
        self.neg_hook = None
        self.setattr_hook = None
        self.call_hook = None
        self.hash_hook = None
        self.unbounded_range_ok = True

    # -------------------------------------------------------------- choices

    def choose_n(self, n, label=''):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            self.prefix.append(0)
        self.alts.append((self.pos, n))
        self.pos += 1
        self.trace.append((label, c))
        return c

    def decide(self, t):
        """Truth of a boolean term on this path, splitting if necessary."""
        if isinstance(t, bool):
            return t
        d = self.facts.decide(t)
        if d is not None:
            return d
        c = self.choose_n(2, t)
        if c == 0:
            if not self.facts.assume(t):
                raise Infeasible
            return True
        if not self.facts.assume(T.lnot(t)):
            raise Infeasible
        return False

    def assume(self, t):
        if not self.facts.assume(t):
            raise Infeasible

    def fresh(self, name, kind='int'):
        self.fresh_n += 1
        return T.var(f'{name}#{self.fresh_n}', kind)

    # -------------------------------------------------------------- modules

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.externs:
            m = self.externs[name](self)
            self.modules[name] = m
            return m
        tm = self.repo.tree(name)
        if tm is None:
            m = self.stdlib(name)
            self.modules[name] = m
            return m
        if name in self.snapshots:
            m, deps, undo = self.snapshots[name]
            self.modules[name] = m
            for d in deps:
                self.load(d)
            for u in undo:
                u()
            return m
        m = Module(name, tm.path, tm.tree)
        env = Env(module=m)
        m.env = env
        self.modules[name] = m
        env.vars['__name__'] = name
        before = set(self.modules)
        choices = len(self.alts)
        for s in tm.tree.body:
            self.stmt(s, env)
        if len(self.alts) == choices:
            undo, seen = [], set()
            for v in list(env.vars.values()):
                snapshot(v, m, undo, seen)
            vs = dict(env.vars)

            def put(vs=vs, env=env):
                env.vars.clear()
                env.vars.update(vs)
            undo.append(put)
            self.snapshots[name] = (m, [d for d in self.modules if d not in before], undo)
        return m

    def stdlib(self, name):
        m = Module(name, None, None)
        m.env = Env(module=m)
        v = m.env.vars
        nat = lambda n, f: v.__setitem__(n, Native(f'{name}.{n}', f))
        if name == 'itertools':
            nat('count', lambda i, a, k: itertools.count(*a))
            nat('pairwise', lambda i, a, k: iter_pairwise(i.iterate(a[0])))
            nat('product', lambda i, a, k: PList([tuple(x) for x in itertools.product(
                *[list(i.iterate(y)) for y in a], repeat=k.get('repeat', 1))]))
            nat('chain', lambda i, a, k: itertools.chain(*[i.iterate(y) for y in a]))
            nat('repeat', lambda i, a, k: itertools.repeat(*a))
            nat('permutations', lambda i, a, k: PList(list(itertools.permutations(list(i.iterate(a[0])), *a[1:]))))
            nat('combinations', lambda i, a, k: PList(list(itertools.combinations(list(i.iterate(a[0])), a[1]))))
            nat('accumulate', lambda i, a, k: i.accumulate(a))
            nat('takewhile', lambda i, a, k: itertools.takewhile(lambda x: i.truth(i.call(a[0], [x])), i.iterate(a[1])))
            nat('islice', lambda i, a, k: itertools.islice(i.iterate(a[0]), *a[1:]))
            nat('zip_longest', lambda i, a, k: itertools.zip_longest(*[i.iterate(y) for y in a], fillvalue=k.get('fillvalue')))
            nat('groupby', lambda i, a, k: i.groupby(a, k))
            nat('cycle', lambda i, a, k: itertools.cycle(list(i.iterate(a[0]))))
        elif name == 'functools':
            ident = lambda i, a, k: a[0] if a else Native('deco', lambda i2, a2, k2: a2[0])
            nat('cache', ident)
            nat('lru_cache', ident)
            nat('reduce', lambda i, a, k: i.reduce(a))
            nat('cached_property', lambda i, a, k: i.mkprop(a[0]))
            nat('partial', lambda i, a, k: Native('partial', lambda i2, a2, k2: i2.call(a[0], list(a[1:]) + list(a2), {**k, **k2})))
        elif name == 'collections':
            nat('defaultdict', lambda i, a, k: PDict(i.dict_pairs(a[1]) if len(a) > 1 else (), default=a[0] if a else None))
            nat('deque', lambda i, a, k: PList(list(i.iterate(a[0])) if a else []))
            nat('Counter', lambda i, a, k: Opaque('Counter'))
            nat('OrderedDict', lambda i, a, k: PDict(i.dict_pairs(a[0]) if a else ()))
        elif name == 'dataclasses':
            nat('dataclass', lambda i, a, k: i.dataclass(a, k))
            nat('field', lambda i, a, k: ('__field__', k))
        elif name == 'abc':
            nat('abstractmethod', lambda i, a, k: a[0])
        elif name == 'typing':
            v['TYPE_CHECKING'] = False
            for n in ('Protocol', 'Self', 'Any', 'TypeVar', 'NamedTuple', 'Final', 'Literal'):
                v[n] = object if n == 'Protocol' else Opaque(n)
            nat('cast', lambda i, a, k: a[1])
        elif name == 'math':
            for n in ('sqrt', 'floor', 'ceil', 'log', 'log2', 'log10', 'trunc', 'exp', 'frexp'):
                nat(n, lambda i, a, k, n=n: i.math(n, a))
            nat('gcd', lambda i, a, k: i.int_fn('gcd', a))
            nat('isqrt', lambda i, a, k: i.int_fn('isqrt', a))
            nat('lcm', lambda i, a, k: math.lcm(*[i.concrete(x) for x in a]))
            nat('prod', lambda i, a, k: i.reduce([Native('mul', lambda i2, a2, k2: i2.binop('*', a2[0], a2[1])), a[0], 1]))
            v['inf'] = math.inf
        elif name == 'contextlib':
            nat('suppress', lambda i, a, k: ('__suppress__', tuple(a)))
        elif name == 'operator':
            nat('itemgetter', lambda i, a, k: Native('itemgetter', lambda i2, a2, k2: i2.getitem(a2[0], a[0])))
            for n, o in (('add', '+'), ('mul', '*'), ('sub', '-')):
                nat(n, lambda i, a, k, o=o: i.binop(o, a[0], a[1]))
        elif name == 'copy':
            nat('copy', lambda i, a, k: i.copy(a[0], False))
            nat('deepcopy', lambda i, a, k: i.copy(a[0], True))
        return m

    def copy(self, v, deep):
        c = (lambda x: self.copy(x, True)) if deep else (lambda x: x)
        if isinstance(v, PList):
            return PList([c(x) for x in v.items], v.tail)
        if isinstance(v, PDict):
            return PDict([(c(k), c(x)) for k, x in v.pairs], v.default)
        if isinstance(v, PSet):
            return PSet(v.items)
        if isinstance(v, tuple):
            return tuple(c(x) for x in v)
        if isinstance(v, Obj):
            return Obj(v.cls, {k: c(x) for k, x in v.f.items()})
        return v

    def dataclass(self, a, k):
        def deco(cls):
            cls.is_dataclass = True
            return cls
        if a:
            return deco(a[0])
        return Native('dataclass', lambda i, a2, k2: deco(a2[0]))

    def mkprop(self, f):
        f.kind = 'property'
        return f

    def reduce(self, a):
        it = self.iterate(a[1])
        acc = a[2] if len(a) > 2 else next(it)
        for x in it:
            acc = self.call(a[0], [acc, x])
        return acc

    def accumulate(self, a):
        out, acc = [], None
        for n, x in enumerate(self.iterate(a[0])):
            acc = x if n == 0 else (self.call(a[1], [acc, x]) if len(a) > 1 else self.binop('+', acc, x))
            out.append(acc)
        return PList(out)

    def groupby(self, a, k):
        key = a[1] if len(a) > 1 else k.get('key')
        out = []
        for x in self.iterate(a[0]):
            kk = self.call(key, [x]) if key is not None else x
            if out and self.truth(self.equal(out[-1][0], kk)):
                out[-1][1].items.append(x)
            else:
                out.append((kk, PList([x])))
        return PList(out)

    def math(self, n, a):
        if all(isinstance(x, (int, float)) for x in a):
            try:
                return getattr(math, n)(*a)
            except ValueError:
                raise PyExc(ValueError)
            except OverflowError:
                raise PyExc(OverflowError)
        if n in ('floor', 'ceil', 'trunc') and isinstance(a[0], Term):
            return a[0]
        raise Undecided(f'math.{n} of {a}')

    def int_fn(self, n, a):
        if any(isinstance(x, (Obj, Opaque)) or not isinstance(x, (int, Term)) for x in a):
            if n == 'gcd' and self.gcd_hook is not None and len(a) == 2:
                return self.gcd_hook(self, *a)
            raise Undecided(f'{n} of {a}')
        r = T.fn(n, *a)
        return r

    def concrete(self, v):
        if isinstance(v, (int, str, float, bool, type(None))):
            return v
        raise Undecided(f'needs a constant: {v!r}')

    # -------------------------------------------------------------- exploring

    def err(self, cls, node=None, *args):
        raise PyExc(cls, args, node)

    # -------------------------------------------------------------- statements

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('analysis step bound')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(s).__name__}')
        m(s, env)

    def s_Expr(self, s, env):
        self.expr(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.expr(s.value, env)
        for t in s.targets:
            self.store(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.store(s.target, self.expr(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            self.store(t, self.inplace(op, cur, self.expr(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.expr(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            i = self.expr(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.expr(s.value, env)))
        else:
            raise Undecided('augassign')

    def inplace(self, op, cur, v):
        if isinstance(cur, PList) and op == '+':
            cur.items.extend(self.iterate(v))
            return cur
        if isinstance(cur, PSet) and op == '|':
            for x in self.iterate(v):
                self.set_add(cur, x)
            return cur
        if isinstance(cur, PDict) and op == '|':
            for k, x in self.dict_pairs(v):
                self.setitem(cur, k, x)
            return cur
        return self.binop(op, cur, v)

    def s_Return(self, s, env):
        raise Return(None if s.value is None else self.expr(s.value, env))

    def s_If(self, s, env):
        if self.truth(self.expr(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while True:
            if not self.truth(self.expr(s.test, env)):
                self.block(s.orelse, env)
                break
            n += 1
            if n > self.max_iter * 40:
                raise Cut('while bound')
            before = self.pos
            try:
                self.block(s.body, env)
            except Break:
                break
            except Continue:
                pass
            if self.pos != before and n > self.max_iter:
                raise Cut('while bound')

    def s_For(self, s, env):
        n = 0
        it = self.iterate(self.expr(s.iter, env))
        splits0 = self.pos
        for v in it:
            n += 1
            if n > 5000 or (self.pos - splits0 > self.max_iter * 3):
                raise Cut('for bound')
            self.store(s.target, v, env)
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise Break

    def s_Continue(self, s, env):
        raise Continue

    def s_FunctionDef(self, s, env, cls=None):
        f = Func(s, env, env.module, cls)
        self.set_defaults(f, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        env.vars[s.name] = v
        return v

    def set_defaults(self, f, env):
        a = f.node.args
        f.defaults = [self.expr(d, env) for d in a.defaults]
        f.kw_defaults = [None if d is None else self.expr(d, env) for d in a.kw_defaults]

    def decorate(self, d, v, env):
        if isinstance(d, ast.Name):
            if d.id == 'property':
                v.kind = 'property'
                return v
            if d.id == 'staticmethod':
                v.kind = 'static'
                return v
            if d.id == 'classmethod':
                v.kind = 'classm'
                return v
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            v.kind = 'setter'
            return v
        dv = self.expr(d, env)
        if isinstance(dv, Opaque):
            return v
        return self.call(dv, [v])

    def s_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            try:
                bv = self.expr(b, env)
            except (Undecided, PyExc):
                bv = Opaque('base')
            if isinstance(bv, (Cls, type)):
                bases.append(bv)
        c = Cls(s.name, bases, env.module)
        if any(isinstance(b, Cls) and b.is_dataclass for b in bases):
            for b in bases:
                if isinstance(b, Cls):
                    c.fields += b.fields
        ce = Env(env, module=env.module)
        ce.comp = False
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                v = self.s_FunctionDef(st, ce, c)
                if isinstance(v, Func) and v.kind == 'setter':
                    c.ns[st.name + '.setter'] = v
                    continue
                c.ns[st.name] = v
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.fields.append(st.target.id)
                if st.value is not None:
                    c.ns[st.target.id] = self.expr(st.value, ce)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                pass
            else:
                before = set(ce.vars)
                self.stmt(st, ce)
                for k in ce.vars:
                    c.ns.setdefault(k, ce.vars[k])
        # methods see module scope, not class scope
        for k, v in c.ns.items():
            if isinstance(v, Func) and v.env is ce:
                v.env = env
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        env.vars[s.name] = v

    def s_Import(self, s, env):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                env.vars[a.name.split('.')[0]] = self.load(a.name.split('.')[0])

    def s_ImportFrom(self, s, env):
        if s.module == '__future__':
            return
        m = self.load(s.module)
        for a in s.names:
            if a.name in m.env.vars:
                env.vars[a.asname or a.name] = m.env.vars[a.name]
            else:
                sub = self.repo.tree(f'{s.module}.{a.name}')
                env.vars[a.asname or a.name] = (
                    self.load(f'{s.module}.{a.name}') if sub is not None else Opaque(f'{s.module}.{a.name}'))

    def s_TypeAlias(self, s, env):
        env.vars[s.name.id] = Opaque(s.name.id)

    def s_Assert(self, s, env):
        if not self.truth(self.expr(s.test, env)):
            raise PyExc(AssertionError, (), s)

    def s_Raise(self, s, env):
        if s.exc is None:
            if getattr(self, 'cur_exc', None) is not None:
                raise self.cur_exc
            raise Undecided('bare raise')
        v = self.expr(s.exc, env)
        if isinstance(v, Obj):
            raise PyExc(v.cls, v.f.get('args', ()), s)
        if isinstance(v, PyExc):
            raise v
        if isinstance(v, Cls):
            raise PyExc(v, (), s)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v, (), s)
        raise Undecided('raise')

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or e.matches(self.expr(h.type, env)):
                        if h.name:
                            env.assign(h.name, Obj(e.cls, {'args': tuple(e.args_)}) if isinstance(e.cls, Cls) else e)
                        saved = getattr(self, 'cur_exc', None)
                        self.cur_exc = e
                        try:
                            self.block(h.body, env)
                        finally:
                            self.cur_exc = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (Undecided, Infeasible):
            raise
        except (PyExc, Return, Break, Continue):
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        sup = ()
        for it in s.items:
            v = self.expr(it.context_expr, env)
            if isinstance(v, tuple) and v and v[0] == '__suppress__':
                sup += v[1]
            elif it.optional_vars is not None:
                self.store(it.optional_vars, v, env)
        try:
            self.block(s.body, env)
        except PyExc as e:
            if not (sup and e.matches(sup)):
                raise

    def s_Nonlocal(self, s, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def s_Global(self, s, env):
        env.globals_ = tuple(env.globals_) + tuple(s.names)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.expr(t.value, env), self.expr(t.slice, env))
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Undecided('del')

    def s_Match(self, s, env):
        v = self.expr(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.expr(c.guard, env))):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.equal(v, self.expr(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name:
                env.assign(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, str) or not isinstance(v, (tuple, PList)):
                return False
            items = list(self.iterate(v)) if isinstance(v, PList) else list(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                after = len(p.patterns) - i - 1
                if len(items) < i + after:
                    return False
                mid = items[i:len(items) - after]
                if not all(self.pattern(q, x, env) for q, x in zip(p.patterns[:i], items[:i])):
                    return False
                if p.patterns[i].name:
                    env.assign(p.patterns[i].name, PList(mid))
                return all(self.pattern(q, x, env) for q, x in zip(p.patterns[i + 1:], items[len(items) - after:]))
            if len(items) != len(p.patterns):
                return False
            return all(self.pattern(q, x, env) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass):
            c = self.expr(p.cls, env)
            if not self.isinstance(v, c):
                return False
            if p.patterns:
                if isinstance(c, Native) or c in (int, str, bool):
                    return len(p.patterns) == 1 and self.pattern(p.patterns[0], v, env)
                if isinstance(c, Cls):
                    names = c.ns.get('__match_args__') or tuple(c.fields)
                    for q, n in zip(p.patterns, names):
                        if not self.pattern(q, self.getattr(v, n), env):
                            return False
                    return True
                raise Undecided('class pattern')
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.pattern(q, self.getattr(v, n), env):
                    return False
            return True
        raise Undecided(f'pattern {type(p).__name__}')

    # -------------------------------------------------------------- stores

    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            env.funcscope().assign(t.id, v) if not env.comp else env.vars.__setitem__(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = list(self.iterate(v))
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    raise PyExc(ValueError)
                for e, x in zip(t.elts[:i], items):
                    self.store(e, x, env)
                self.store(t.elts[i].value, PList(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.store(e, x, env)
                return
            items = []
            it = self.iterate(v)
            for _ in range(len(t.elts) + 1):
                try:
                    items.append(next(it))
                except StopIteration:
                    break
            if len(items) != len(t.elts):
                raise PyExc(ValueError)
            for e, x in zip(t.elts, items):
                self.store(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, env), self.expr(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, env)
        else:
            raise Undecided('store')

    # -------------------------------------------------------------- expressions

    def expr(self, e, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('analysis step bound')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.lookup(e.id)
        except KeyError:
            pass
        b = self.builtin(e.id)
        if b is None:
            raise PyExc(NameError, (e.id,), e)
        return b

    def e_NamedExpr(self, e, env):
        v = self.expr(e.value, env)
        env.funcscope().assign(e.target.id, v)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return PList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        s = PSet()
        for x in self.elts(e.elts, env):
            self.set_add(s, x)
        return s

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.expr(x.value, env)))
            else:
                out.append(self.expr(x, env))
        return out

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.dict_pairs(self.expr(v, env)):
                    self.setitem(d, kk, vv)
            else:
                kk = self.expr(k, env)
                self.setitem(d, kk, self.expr(v, env))
        return d

    def e_IfExp(self, e, env):
        return self.expr(e.body if self.truth(self.expr(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.expr(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v if not (isinstance(v, Term) and v.kind == 'bool') else t
        return v

    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Term) and v.kind == 'bool':
                return T.lnot(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Undecided('unary')

    def neg(self, v):
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, Term):
            return T.neg(v)
        if self.neg_hook is not None:
            r = self.neg_hook(self, v)
            if r is not NotImplemented:
                return r
        if isinstance(v, Obj):
            f, _ = v.cls.find('__neg__')
            if f is not None:
                return self.call(Bound(f, v), [])
        raise Undecided('neg')

    def e_BinOp(self, e, env):
        l = self.expr(e.left, env)
        r = self.expr(e.right, env)
        return self.binop(BINOPS[type(e.op)], l, r)

    def binop(self, op, l, r):
        if isinstance(l, bool) and isinstance(r, (int, Term)):
            l = int(l)
        if isinstance(r, bool) and isinstance(l, (int, Term)):
            r = int(r)
        if isinstance(l, Term) and l.kind == 'bool':
            l = int(self.truth(l))
        if isinstance(r, Term) and r.kind == 'bool':
            r = int(self.truth(r))
        num = (int, float)
        if isinstance(l, num) and isinstance(r, num):
            return self.arith(op, l, r)
        if isinstance(l, (int, Term)) and isinstance(r, (int, Term)):
            if op == '+':
                return T.add(l, r)
            if op == '-':
                return T.sub(l, r)
            if op == '*':
                return T.mul(l, r)
            if op in ('//', '%'):
                z = T.eq(r, 0)
                if self.decide(z):
                    raise PyExc(ZeroDivisionError)
                return self.int_div(op, l, r)
            if op == '**':
                return T.power(l, r)
            if op in ('&', '|', '^') :
                return T.fn({'&': 'band', '|': 'bor', '^': 'bxor'}[op], l, r)
            raise Undecided(f'{op} on symbolic integers')
        if self.binop_hook is not None:
            v = self.binop_hook(self, op, l, r)
            if v is not NotImplemented:
                return v
        if isinstance(l, str) and op == '%':
            raise Undecided('str %')
        if isinstance(l, str) and isinstance(r, (str, int)) and isinstance(r, str if op == '+' else int):
            return self.arith(op, l, r)
        if isinstance(l, (str, Str)) and isinstance(r, (str, Str)) and op == '+':
            return mkstr(str_parts(l) + str_parts(r))
        if isinstance(l, tuple) and isinstance(r, tuple) and op == '+':
            return l + r
        if isinstance(l, tuple) and isinstance(r, int) and op == '*':
            return l * r
        if isinstance(l, PList) and isinstance(r, PList) and op == '+':
            if l.tail is not None:
                raise Undecided('concat of a summary')
            return PList(l.items + r.items, r.tail)
        if isinstance(l, PList) and isinstance(r, int) and op == '*':
            return PList(list(self.iterate(l)) * r)
        if isinstance(r, PList) and isinstance(l, int) and op == '*':
            return PList(list(self.iterate(r)) * l)
        if isinstance(l, PSet) and isinstance(r, PSet):
            if op == '|':
                s = PSet(l.items)
                for x in r.items:
                    self.set_add(s, x)
                return s
            if op == '-':
                return PSet([x for x in l.items if not self.contains(r, x)])
            if op == '&':
                return PSet([x for x in l.items if self.contains(r, x)])
        if isinstance(l, PDict) and isinstance(r, PDict) and op == '|':
            d = PDict(l.pairs)
            for k, v in r.pairs:
                self.setitem(d, k, v)
            return d
        if isinstance(l, Obj):
            f, _ = l.cls.find(f'__{DUNDER.get(op)}__')
            if f is not None:
                return self.call(Bound(f, l), [r])
        if isinstance(r, Obj):
            f, _ = r.cls.find(f'__r{DUNDER.get(op)}__')
            if f is not None:
                return self.call(Bound(f, r), [l])
        if op == '|':
            # a union of types, used in isinstance
            return ((l,) if not isinstance(l, tuple) else l) + ((r,) if not isinstance(r, tuple) else r)
        raise Undecided(f'{l!r} {op} {r!r}')

    def int_div(self, op, l, r):
        q, rest = T.split(l, r)
        if q != 0 or isinstance(r, Term):
            small = self.facts.decide(T.le(0, rest)) is True and self.facts.decide(T.lt(rest, r)) is True
            if small:
                return q if op == '//' else rest
            if q != 0:
                return T.add(q, self.int_div(op, rest, r)) if op == '//' else self.int_div(op, rest, r)
        if op == '//':
            m = T.mod(l, r)
            if isinstance(m, Term) and self.facts.proved_equal(m, 0):
                return T.quo(l, r)      # exact on this path
            return T.fdiv(l, r)
        return T.mod(l, r)

    def arith(self, op, l, r):
        try:
            if op == '+':
                return l + r
            if op == '-':
                return l - r
            if op == '*':
                return l * r
            if op == '//':
                return l // r
            if op == '%':
                return l % r
            if op == '**':
                if isinstance(r, int) and isinstance(l, int) and (abs(r) > 5000):
                    raise Undecided('huge power')
                return l ** r
            if op == '/':
                return l / r
            if op == '&':
                return l & r
            if op == '|':
                return l | r
            if op == '^':
                return l ^ r
            if op == '<<':
                return l << r
            if op == '>>':
                return l >> r
        except ZeroDivisionError:
            raise PyExc(ZeroDivisionError)
        except OverflowError:
            raise PyExc(OverflowError)
        raise Undecided(op)

    def e_Compare(self, e, env):
        l = self.expr(e.left, env)
        res = True
        for op, rn in zip(e.ops, e.comparators):
            r = self.expr(rn, env)
            c = self.compare(CMPOPS[type(op)], l, r)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            l = r
        return res

    def compare(self, op, l, r):
        if op == 'is':
            return self.identical(l, r)
        if op == 'is not':
            x = self.identical(l, r)
            return T.lnot(x)
        if op == '==':
            return self.equal(l, r)
        if op == '!=':
            x = self.equal(l, r)
            return T.lnot(x)
        if op == 'in':
            return self.contains(r, l)
        if op == 'not in':
            x = self.contains(r, l)
            return T.lnot(x)
        if isinstance(l, bool):
            l = int(l)
        if isinstance(r, bool):
            r = int(r)
        if isinstance(l, (int, float)) and isinstance(r, (int, float)):
            return {'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r}[op]
        if isinstance(l, (int, Term)) and isinstance(r, (int, Term)):
            return {'<': lambda: T.lt(l, r), '<=': lambda: T.le(l, r),
                    '>': lambda: T.lt(r, l), '>=': lambda: T.le(r, l)}[op]()
        if self.cmp_hook is not None:
            v = self.cmp_hook(self, op, l, r)
            if v is not NotImplemented:
                return v
        if isinstance(l, str) and isinstance(r, str):
            return {'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r}[op]
        if isinstance(l, tuple) and isinstance(r, tuple):
            for x, y in zip(l, r):
                if not self.truth(self.equal(x, y)):
                    return self.compare(op[0], x, y)
            n = (len(l) > len(r)) - (len(l) < len(r))
            return {'<': n < 0, '<=': n <= 0, '>': n > 0, '>=': n >= 0}[op]
        if isinstance(l, PSet) and isinstance(r, PSet):
            sub = lambda a, b: all(self.contains(b, x) for x in a.items)
            if op == '<=':
                return sub(l, r)
            if op == '>=':
                return sub(r, l)
        if isinstance(l, Obj):
            f, _ = l.cls.find({'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op])
            if f is not None:
                return self.call(Bound(f, l), [r])
        raise Undecided(f'{l!r} {op} {r!r}')

    def identical(self, l, r):
        if l is None or r is None:
            return l is r
        if isinstance(l, (bool, int, str)) or isinstance(r, (bool, int, str)) or isinstance(l, Term):
            return self.equal(l, r)
        return l is r

    def equal(self, l, r):
        """bool or boolean Term"""
        if l is r:
            return True
        if isinstance(l, Opaque) or isinstance(r, Opaque):
            raise Undecided('equality of unknown')
        if self.cmp_hook is not None:
            v = self.cmp_hook(self, '==', l, r)
            if v is not NotImplemented:
                return v
        if isinstance(l, Term) and l.kind == 'bool' or isinstance(r, Term) and r.kind == 'bool':
            if isinstance(l, Term) and isinstance(r, bool):
                return l if r else T.lnot(l)
            if isinstance(r, Term) and isinstance(l, bool):
                return r if l else T.lnot(r)
            if isinstance(l, Term) and isinstance(r, Term):
                return Term('eq', (l, r), 'bool')
            if isinstance(l, int) or isinstance(r, int):
                l = int(self.truth(l)) if isinstance(l, Term) else l
                r = int(self.truth(r)) if isinstance(r, Term) else r
                return l == r
            return False
        if isinstance(l, (int, Term)) and isinstance(r, (int, Term)):
            return T.eq(int(l) if isinstance(l, bool) else l, int(r) if isinstance(r, bool) else r)
        if isinstance(l, (int, float, str, type(None), type)) and isinstance(r, (int, float, str, type(None), type)):
            return l == r
        if isinstance(l, tuple) and isinstance(r, tuple):
            if len(l) != len(r):
                return False
            return T.land(*[self.equal(x, y) for x, y in zip(l, r)])
        if isinstance(l, PList) and isinstance(r, PList):
            if l.tail is None and r.tail is None and len(l.items) != len(r.items):
                return False
            a, b = list(self.iterate(l)), list(self.iterate(r))
            if len(a) != len(b):
                return False
            return T.land(*[self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(l, PSet) and isinstance(r, PSet):
            return (all(self.contains(r, x) for x in l.items) and all(self.contains(l, x) for x in r.items))
        if isinstance(l, PDict) and isinstance(r, PDict):
            if len(l.pairs) != len(r.pairs):
                return False
            return T.land(*[self.equal(v, self.getitem(r, k)) if self.contains(r, k) else False for k, v in l.pairs])
        if isinstance(l, Obj):
            f, _ = l.cls.find('__eq__')
            if f is not None:
                return self.call(Bound(f, l), [r])
            if l.cls.is_dataclass and isinstance(r, Obj) and r.cls is l.cls:
                return T.land(*[self.equal(l.f.get(n), r.f.get(n)) for n in l.cls.fields])
        return False

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Undecided('in str')
        if isinstance(c, PDict):
            return self.dict_find(c, x) is not None
        if isinstance(c, PSet):
            return any(self.truth(self.equal(y, x)) for y in self.order_known(c.items, x))
        if isinstance(c, (PList, tuple)) or hasattr(c, '__next__') or isinstance(c, (range, SRange)):
            if isinstance(c, range) and isinstance(x, int):
                return x in c
            if isinstance(c, (range, SRange)) and isinstance(x, Term):
                if isinstance(c, range):
                    if c.step != 1:
                        raise Undecided('range step')
                    return T.land(T.le(c.start, x), T.lt(x, c.stop))
                return T.land(T.le(c.lo, x), T.lt(x, c.hi))
            if isinstance(c, SRange):
                return T.land(T.le(c.lo, x), T.lt(x, c.hi))
            return any(self.truth(self.equal(y, x)) for y in self.iterate(c))
        if isinstance(c, Obj) and isinstance(c.cls, Cls):
            f, _ = c.cls.find('__contains__')
            if f is not None:
                return self.call(Bound(f, c), [x])
        if self.cmp_hook is not None:
            v = self.cmp_hook(self, 'in', x, c)
            if v is not NotImplemented:
                return v
        raise Undecided(f'in {c!r}')

    def order_known(self, items, x):
        return items

    def e_Attribute(self, e, env):
        return self.getattr(self.expr(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.expr(e.value, env)
        if isinstance(o, (Opaque, type, Native, Cls)):
            return o
        return self.getitem(o, self.expr(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.expr(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Lambda(self, e, env):
        f = Func(e, env, env.module)
        self.set_defaults(f, env)
        return f

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.expr(v.value, env)
                if v.format_spec is not None:
                    spec = self.expr(v.format_spec, env)
                    if isinstance(x, (int, float, str)) and isinstance(spec, str):
                        parts.append(format(x, spec))
                        continue
                    raise Undecided('format spec')
                parts += str_parts(self.tostr(x) if v.conversion != 114 else repr(x))
        return mkstr(parts)

    def e_FormattedValue(self, e, env):
        return self.tostr(self.expr(e.value, env))

    def e_Starred(self, e, env):
        raise Undecided('starred')

    def e_ListComp(self, e, env):
        return PList(list(self.comp(e.generators, 0, Env(env, comp=True), lambda en: self.expr(e.elt, en))))

    def e_SetComp(self, e, env):
        s = PSet()
        for x in self.comp(e.generators, 0, Env(env, comp=True), lambda en: self.expr(e.elt, en)):
            self.set_add(s, x)
        return s

    def e_DictComp(self, e, env):
        d = PDict()
        for k, v in self.comp(e.generators, 0, Env(env, comp=True),
                              lambda en: (self.expr(e.key, en), self.expr(e.value, en))):
            self.setitem(d, k, v)
        return d

    def e_GeneratorExp(self, e, env):
        return self.comp(e.generators, 0, Env(env, comp=True), lambda en: self.expr(e.elt, en))

    def comp(self, gens, i, env, f):
        if i == len(gens):
            yield f(env)
            return
        g = gens[i]
        for v in self.iterate(self.expr(g.iter, env)):
            self.store(g.target, v, env)
            if all(self.truth(self.expr(c, env)) for c in g.ifs):
                yield from self.comp(gens, i + 1, env, f)

    def e_Yield(self, e, env):
        v = None if e.value is None else self.expr(e.value, env)
        sc = env.funcscope()
        if sc.yields is None:
            raise Undecided('yield')
        sc.yields.append(v)
        if len(sc.yields) > 3000:
            raise Cut('generator bound')
        return None

    def e_YieldFrom(self, e, env):
        for v in self.iterate(self.expr(e.value, env)):
            env.funcscope().yields.append(v)
        return None

    # -------------------------------------------------------------- truth, iteration

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Term):
            return self.decide(v if v.kind == 'bool' else T.lnot(T.eq(v, 0)))
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PList):
            return self.nonempty(v)
        if isinstance(v, PDict):
            return len(v.pairs) > 0
        if isinstance(v, PSet):
            return len(v.items) > 0
        if isinstance(v, range):
            return len(v) > 0
        if isinstance(v, Opaque):
            raise Undecided(f'truth of {v}')
        if self.truth_hook is not None:
            r = self.truth_hook(self, v)
            if r is not NotImplemented:
                return r
        if isinstance(v, Str):
            return True
        if isinstance(v, Obj):
            f, _ = v.cls.find('__bool__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
            f, _ = v.cls.find('__len__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), []))
        return True

    def nonempty(self, l):
        if l.items:
            return True
        return self.expand(l)

    def expand(self, l):
        """Materialise one cell of the tail. False if the list ends."""
        if l.tail is None:
            return False
        r = l.tail(self)
        if r is None:
            l.tail = None
            return False
        l.items.append(r[0])
        l.tail = r[1]
        return True

    def iterate(self, v):
        if isinstance(v, PList):
            return self.iter_list(v)
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, range):
            return iter(v)
        if isinstance(v, PDict):
            return iter([k for k, _ in v.pairs])
        if isinstance(v, PSet):
            return iter(list(v.items))
        if isinstance(v, SRange):
            return self.iter_srange(v)
        if hasattr(v, '__next__'):
            return v
        if hasattr(v, '__iter__') and not isinstance(v, (Obj, Term)):
            return iter(v)
        if isinstance(v, Obj):
            f, _ = v.cls.find('__iter__')
            if f is not None:
                return self.iterate(self.call(Bound(f, v), []))
        if v is None or isinstance(v, (int, float)):
            raise PyExc(TypeError, (f'{v!r} is not iterable',))
        raise Undecided(f'iterate {v!r}')

    def iter_list(self, l):
        i = 0
        while True:
            if i < len(l.items):
                yield l.items[i]
                i += 1
            elif not self.expand(l):
                return

    def iter_srange(self, r):
        i = r.lo
        n = 0
        while True:
            if not self.decide(T.lt(i, r.hi)):
                return
            n += 1
            if n > self.max_iter:
                raise Cut('range bound')
            yield i
            i = T.add(i, 1)

    # -------------------------------------------------------------- items

    def index_of(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Term):
            if v.kind == 'bool':
                return int(self.truth(v))
            n = self.facts.norm(v)
            if not n:
                return 0
            if list(n) == [()]:
                return n[()]
        raise Undecided(f'index {v!r}')

    def getitem(self, o, i):
        if isinstance(o, PList):
            if isinstance(i, slice):
                lo, hi, st = (None if x is None else self.index_of(x) for x in (i.start, i.stop, i.step))
                if o.tail is not None:
                    if hi is not None and hi >= 0 and (lo is None or lo >= 0) and st in (None, 1):
                        while len(o.items) < hi and self.expand(o):
                            pass
                        return PList(o.items[lo:hi])
                    if hi is None and st in (None, 1) and lo is not None and lo >= 0:
                        while len(o.items) < lo and self.expand(o):
                            pass
                        return PList(o.items[lo:], o.tail)
                    while self.expand(o):
                        pass
                return PList(o.items[slice(lo, hi, st)])
            k = self.index_of(i)
            if k < 0 and o.tail is not None:
                while self.expand(o):
                    pass
            while k >= len(o.items) and self.expand(o):
                pass
            try:
                return o.items[k]
            except IndexError:
                raise PyExc(IndexError)
        if isinstance(o, (tuple, str, range)):
            if isinstance(i, slice):
                i = slice(*(None if x is None else self.index_of(x) for x in (i.start, i.stop, i.step)))
                return o[i]
            if isinstance(i, Term) and isinstance(o, tuple):
                if i.kind == 'bool':
                    i = int(self.truth(i))
                else:
                    for k in range(len(o)):
                        if self.truth(T.eq(i, k)):
                            i = k
                            break
                    else:
                        raise PyExc(IndexError)
            try:
                return o[self.index_of(i)]
            except IndexError:
                raise PyExc(IndexError)
        if isinstance(o, PDict):
            p = self.dict_find(o, i)
            if p is not None:
                return p[1]
            if o.default is not None:
                v = self.call(o.default, [])
                o.pairs.append([i, v])
                return v
            raise PyExc(KeyError, (i,))
        if isinstance(o, Fake) and o.item is not None:
            return o.item(self, i)
        if isinstance(o, Obj):
            f, _ = o.cls.find('__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [i])
        raise Undecided(f'item of {o!r}')

    def dict_find(self, d, k):
        hk = hashable(k)
        if hk is not None:
            sym = False
            for p in d.pairs:
                h2 = hashable(p[0])
                if h2 is None:
                    sym = True
                elif h2 == hk:
                    return p
            if not sym:
                return None
        if (isinstance(k, Term) and k.kind == 'int' and len(d.pairs) > 40
                and all(isinstance(p[0], int) and not isinstance(p[0], bool) for p in d.pairs)):
            # a big constant table: one split over its keys
            c = self.choose_n(len(d.pairs) + 1, f'key {k!r}')
            if c == 0:
                return None
            self.assume(T.eq(k, d.pairs[c - 1][0]))
            return d.pairs[c - 1]
        for p in d.pairs:
            if self.truth(self.equal(p[0], k)):
                return p
        return None

    def setitem(self, o, i, v):
        if isinstance(o, PDict):
            p = self.dict_find(o, i)
            if p is not None:
                p[1] = v
            else:
                o.pairs.append([i, v])
            return
        if isinstance(o, PList):
            if isinstance(i, slice):
                lo, hi, st = (None if x is None else self.index_of(x) for x in (i.start, i.stop, i.step))
                if o.tail is not None:
                    raise Undecided('slice store')
                o.items[slice(lo, hi, st)] = list(self.iterate(v))
                return
            k = self.index_of(i)
            while k >= len(o.items) and self.expand(o):
                pass
            try:
                o.items[k] = v
            except IndexError:
                raise PyExc(IndexError)
            return
        if isinstance(o, Obj) and o.cls is not None and o.cls.find('__setitem__')[0] is not None:
            self.call(Bound(o.cls.find('__setitem__')[0], o), [i, v])
            return
        raise Undecided('setitem')

    def delitem(self, o, i):
        if isinstance(o, PDict):
            p = self.dict_find(o, i)
            if p is None:
                raise PyExc(KeyError)
            o.pairs.remove(p)
            return
        if isinstance(o, PList):
            if isinstance(i, slice):
                if o.tail is not None and i.stop is None:
                    lo = self.index_of(i.start)
                    o.items, o.tail = o.items[:lo], None
                    return
                lo, hi, st = (None if x is None else self.index_of(x) for x in (i.start, i.stop, i.step))
                if o.tail is not None and (hi is None or hi < 0 or hi > len(o.items)):
                    raise Undecided('del slice')
                del o.items[slice(lo, hi, st)]
                return
            k = self.index_of(i)
            while k >= len(o.items) and self.expand(o):
                pass
            try:
                del o.items[k]
            except IndexError:
                raise PyExc(IndexError)
            return
        if isinstance(o, Obj) and o.cls is not None and o.cls.find('__delitem__')[0] is not None:
            self.call(Bound(o.cls.find('__delitem__')[0], o), [i])
            return
        raise Undecided('delitem')

    def dict_pairs(self, v):
        if isinstance(v, PDict):
            return list(map(tuple, v.pairs))
        return [tuple(self.iterate(p)) for p in self.iterate(v)]

    def set_add(self, s, x):
        if not self.contains(s, x):
            s.items.append(x)

    # -------------------------------------------------------------- attributes

    def getattr(self, o, name):
        if isinstance(o, Module):
            if name in o.env.vars:
                return o.env.vars[name]
            raise Undecided(f'{o.name}.{name}')
        if self.attr_hook is not None:
            v = self.attr_hook(self, o, name)
            if v is not NotImplemented:
                return v
        if isinstance(o, Fake):
            v = o.attr(self, name) if o.attr is not None else NotImplemented
            if v is NotImplemented:
                raise Undecided(f'{o.name}.{name}')
            return v
        if isinstance(o, PyExc):
            if name == 'args':
                return tuple(o.args_)
            raise Undecided(f'exception attribute {name}')
        if isinstance(o, Obj):
            if name in o.f:
                return o.f[name]
            if name == '__class__':
                return o.cls
            v, c = o.cls.find(name)
            if c is not None:
                if isinstance(v, Func):
                    if v.kind == 'property':
                        return self.call(Bound(v, o), [])
                    if v.kind == 'static':
                        return v
                    if v.kind == 'classm':
                        return Bound(v, o.cls)
                    return Bound(v, o)
                return v
            raise PyExc(AttributeError, (name,))
        if isinstance(o, Cls):
            v, c = o.find(name)
            if c is not None:
                if isinstance(v, Func) and v.kind == 'classm':
                    return Bound(v, o)
                return v
            if name == '__name__':
                return o.name
            raise PyExc(AttributeError, (name,))
        if isinstance(o, SuperVal):
            v, c = o.self_.cls.find(name, after=o.cls)
            if c is not None:
                return Bound(v, o.self_)
            if name == '__init__':
                return Native('object.__init__', lambda i, a, k: None)
            raise PyExc(AttributeError, (name,))
        if isinstance(o, Opaque):
            return Opaque(f'{o.name}.{name}')
        if isinstance(o, (PList, PDict, PSet, str, tuple, Str, Native, int, Func)) or o in (str, dict, int, tuple):
            return MethodOf(o, name)
        raise Undecided(f'attribute {name} of {o!r}')

    def setattr(self, o, name, v):
        if self.setattr_hook is not None:
            r = self.setattr_hook(self, o, name, v)
            if r is not NotImplemented:
                return
        if isinstance(o, Fake) and o.set is not None:
            o.set(self, name, v)
            return
        if isinstance(o, Obj):
            st, _ = o.cls.find(name + '.setter')
            if st is not None:
                self.call(Bound(st, o), [v])
                return
            o.f[name] = v
            return
        if isinstance(o, Func):
            return
        raise Undecided(f'setattr on {o!r}')

    # -------------------------------------------------------------- calls

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            sc = env.funcscope()
            while sc is not None and (sc.func is None or sc.func.cls is None):
                sc = sc.parent
            if sc is None:
                raise Undecided('super')
            return SuperVal(sc.func.cls, sc.self_)
        f = self.expr(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.expr(a.value, env)))
            else:
                args.append(self.expr(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_pairs(self.expr(k.value, env)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.expr(k.value, env)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw=None, node=None):
        kw = kw or {}
        if self.call_hook is not None:
            v = self.call_hook(self, f, args, kw)
            if v is not NotImplemented:
                return v
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw, node)
        if isinstance(f, Func):
            h = self.hooks.get(f.qual)
            if h is not None:
                v = h(self, args, kw)
                if v is not NotImplemented:
                    return v
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.f(self, args, kw)
        if isinstance(f, MethodOf):
            return self.method(f.o, f.name, args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyExc(f, tuple(args))
        if isinstance(f, type):
            return self.builtin_type(f, args, kw)
        if isinstance(f, Obj):
            c, _ = f.cls.find('__call__')
            if c is not None:
                return self.call(Bound(c, f), args, kw)
        if isinstance(f, Opaque):
            raise Undecided(f'call of {f}')
        raise Undecided(f'call {f!r}')

    def construct(self, c, args, kw):
        h = self.hooks.get(f'{c.module.name}.{c.name}')
        if h is not None:
            v = h(self, args, kw)
            if v is not NotImplemented:
                return v
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro()):
            return Obj(c, {'args': tuple(args)})
        o = Obj(c)
        init, _ = c.find('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif c.is_dataclass:
            for n, v in zip(c.fields, args):
                o.f[n] = v
            for n in c.fields[len(args):]:
                if n in kw:
                    o.f[n] = kw[n]
                elif n in c.ns:
                    d = c.ns[n]
                    if isinstance(d, tuple) and d and d[0] == '__field__':
                        o.f[n] = self.call(d[1]['default_factory'], []) if 'default_factory' in d[1] else d[1].get('default')
                    else:
                        o.f[n] = d
                else:
                    raise PyExc(TypeError)
            pi, _ = c.find('__post_init__')
            if pi is not None:
                self.call(Bound(pi, o), [])
        return o

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > MAXDEPTH:
            raise Cut('recursion bound')
        self.visited.add(f.qual)
        rec = self.active.get(f, 0)
        self.active[f] = rec + 1
        try:
            if rec >= self.max_rec:
                if self.cut_hook is not None:
                    v = self.cut_hook(self, f, args)
                    if v is not NotImplemented:
                        return v
                raise Cut('recursion bound')
            env = Env(f.env, func=f, module=f.module)
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            args = list(args)
            if f.cls is not None and args:
                env.self_ = args[0]
            for n, v in zip(names, args):
                env.vars[n] = v
            extra = args[len(names):]
            if a.vararg is not None:
                env.vars[a.vararg.arg] = tuple(extra)
            elif extra:
                raise PyExc(TypeError)
            kwrest = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    env.vars[k] = v
                elif a.kwarg is not None:
                    kwrest[k] = v
                else:
                    raise PyExc(TypeError, (k,))
            if a.kwarg is not None:
                env.vars[a.kwarg.arg] = PDict(list(kwrest.items()))
            nd = len(f.defaults)
            for n, d in zip(names[len(names) - nd:], f.defaults):
                if n not in env.vars:
                    env.vars[n] = d
            for x, d in zip(a.kwonlyargs, f.kw_defaults):
                if x.arg not in env.vars:
                    env.vars[x.arg] = d
            if any(n not in env.vars for n in names):
                raise PyExc(TypeError)
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, env)
            if f.isgen is None:
                f.isgen = is_generator(f.node)
            if f.isgen:
                env.yields = []
                try:
                    self.block(f.node.body, env)
                except Return:
                    pass
                return iter(env.yields)
            try:
                self.block(f.node.body, env)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.active[f] = rec

    # -------------------------------------------------------------- builtins

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance(v, x) for x in c)
        if self.isinstance_hook is not None:
            r = self.isinstance_hook(self, v, c)
            if r is not NotImplemented:
                return r
        if isinstance(c, Cls):
            return isinstance(v, Obj) and isinstance(v.cls, Cls) and c in v.cls.mro()
        if c is int:
            return isinstance(v, int) or (isinstance(v, Term))
        if c is bool:
            return isinstance(v, bool) or (isinstance(v, Term) and v.kind == 'bool')
        if c is str:
            return isinstance(v, (str, Str))
        if c is float:
            return isinstance(v, float)
        if c is tuple:
            return isinstance(v, tuple)
        if c is list:
            return isinstance(v, PList)
        if c is dict:
            return isinstance(v, PDict)
        if c is set:
            return isinstance(v, PSet)
        if c is type(None) or c is None:
            return v is None
        if isinstance(v, PyExc) and isinstance(c, type):
            return v.matches(c)
        raise Undecided(f'isinstance {c!r}')

    TYPES = {'int': int, 'str': str, 'tuple': tuple, 'list': list, 'dict': dict, 'set': set,
             'bool': bool, 'float': float, 'frozenset': set, 'object': object, 'range': range, 'type': type}

    def builtin(self, n):
        if n in self.TYPES:
            return self.TYPES[n]
        if n in BUILTIN_EXC:
            return BUILTIN_EXC[n]
        m = getattr(self, 'b_' + n, None)
        if m is not None:
            return Native(n, lambda i, a, k: m(a, k))
        return None

    def builtin_type(self, c, a, k):
        if c is int:
            if not a:
                return 0
            v = a[0]
            if isinstance(v, Term):
                return int(self.truth(v)) if v.kind == 'bool' else v
            if isinstance(v, (int, float, str)):
                try:
                    return int(*a)
                except ValueError:
                    raise PyExc(ValueError)
                except OverflowError:
                    raise PyExc(OverflowError)
            if self.attr_hook is not None:
                h = self.attr_hook(self, v, '__int__')
                if h is not NotImplemented:
                    return self.call(h, [])
            if isinstance(v, Obj):
                f, _ = v.cls.find('__int__')
                if f is not None:
                    return self.call(Bound(f, v), [])
            raise Undecided('int()')
        if c is bool:
            return self.truth(a[0]) if a else False
        if c is str:
            if a and isinstance(a[0], Fake):
                return self.call(self.getattr(a[0], '__str__'), [])
            return self.tostr(a[0]) if a else ''
        if c is tuple:
            return tuple(self.iterate(a[0])) if a else ()
        if c is list:
            if not a:
                return PList()
            if isinstance(a[0], PList):
                return PList(a[0].items, a[0].tail)
            return PList(list(self.iterate(a[0])))
        if c is dict:
            return PDict((self.dict_pairs(a[0]) if a else []) + list(k.items()))
        if c is set:
            s = PSet()
            for x in (self.iterate(a[0]) if a else ()):
                self.set_add(s, x)
            return s
        if c is float:
            if isinstance(a[0], (int, float, str)):
                return float(a[0])
            raise Undecided('float()')
        if c is range:
            return self.b_range(a, k)
        if c is type:
            if isinstance(a[0], Obj):
                return a[0].cls
            raise Undecided('type()')
        raise Undecided(f'{c}()')

    def tostr(self, v):
        if isinstance(v, (str, Str)):
            return v
        if isinstance(v, (bool, int, float)) or v is None:
            return str(v)
        if isinstance(v, Term):
            return Str([v])
        if isinstance(v, Obj):
            for n in ('__str__', '__repr__'):
                f, _ = v.cls.find(n)
                if f is not None:
                    return self.call(Bound(f, v), [])
        if isinstance(v, (Obj, PyExc)) and any(isinstance(b, type) and issubclass(b, BaseException)
                                               for b in (v.cls.mro() if isinstance(v.cls, Cls) else [v.cls])):
            a = v.args_ if isinstance(v, PyExc) else v.f.get('args', ())
            if len(a) == 1:
                return self.tostr(a[0])
            if not a:
                return ''
        return Str([v])

    def b_len(self, a, k):
        v = a[0]
        if isinstance(v, PList):
            if v.tail is not None:
                return ListLen(self, v).resolve()
            return len(v.items)
        if isinstance(v, PDict):
            return len(v.pairs)
        if isinstance(v, PSet):
            return len(v.items)
        if isinstance(v, (tuple, str, range)):
            return len(v)
        if isinstance(v, Obj):
            f, _ = v.cls.find('__len__')
            if f is not None:
                return self.call(Bound(f, v), [])
        raise Undecided('len')

    def b_range(self, a, k):
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2:
            return SRange(a[0], a[1])
        raise Undecided('range')

    def b_isinstance(self, a, k):
        return self.isinstance(a[0], a[1])

    def b_abs(self, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, Term):
            d = self.facts.decide(T.lt(v, 0))
            if d is True:
                return T.neg(v)
            if d is False:
                return v
            return T.fn('abs', v)
        raise Undecided('abs')

    def b_divmod(self, a, k):
        if self.binop_hook is not None:
            v = self.binop_hook(self, 'divmod', a[0], a[1])
            if v is not NotImplemented:
                return v
        if isinstance(a[0], Obj):
            f, _ = a[0].cls.find('__divmod__')
            if f is not None:
                return self.call(Bound(f, a[0]), [a[1]])
        return (self.binop('//', a[0], a[1]), self.binop('%', a[0], a[1]))

    def b_pow(self, a, k):
        if len(a) == 3:
            if all(isinstance(x, int) for x in a):
                try:
                    return pow(*a)
                except ValueError:
                    raise PyExc(ValueError)
            return self.binop('%', self.binop('**', a[0], a[1]), a[2])
        return self.binop('**', a[0], a[1])

    def b_min(self, a, k):
        return self.minmax(a, k, '<')

    def b_max(self, a, k):
        return self.minmax(a, k, '>')

    def minmax(self, a, k, op):
        items = list(self.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            raise PyExc(ValueError)
        key = k.get('key')
        best = items[0]
        bk = self.call(key, [best]) if key is not None else best
        for x in items[1:]:
            xk = self.call(key, [x]) if key is not None else x
            if self.truth(self.compare(op, xk, bk)):
                best, bk = x, xk
        return best

    def b_sum(self, a, k):
        acc = a[1] if len(a) > 1 else k.get('start', 0)
        for x in self.iterate(a[0]):
            acc = self.binop('+', acc, x)
        return acc

    def b_any(self, a, k):
        for x in self.iterate(a[0]):
            if self.truth(x):
                return True
        return False

    def b_all(self, a, k):
        for x in self.iterate(a[0]):
            if not self.truth(x):
                return False
        return True

    def b_zip(self, a, k):
        return self.zipgen([self.iterate(x) for x in a])

    def zipgen(self, its):
        if not its:
            return
        while True:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield tuple(row)

    def b_enumerate(self, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        if not isinstance(start, int):
            raise Undecided('enumerate start')
        return ((start + i, x) for i, x in enumerate(self.iterate(a[0])))

    def b_map(self, a, k):
        f = a[0]
        return (self.call(f, list(xs)) for xs in self.zipgen([self.iterate(x) for x in a[1:]]))

    def b_filter(self, a, k):
        f = a[0]
        return (x for x in self.iterate(a[1]) if self.truth(x if f is None else self.call(f, [x])))

    def b_reversed(self, a, k):
        return iter(list(self.iterate(a[0]))[::-1])

    def b_sorted(self, a, k):
        items = list(self.iterate(a[0]))
        key = k.get('key')
        return PList(self.sort(items, key, k.get('reverse', False)))

    def sort(self, items, key, reverse):
        ks = [(self.call(key, [x]) if key is not None else x) for x in items]
        out = []
        for x, kx in zip(items, ks):
            pos = len(out)
            for j, (y, ky) in enumerate(out):
                lt = self.compare('<', kx, ky) if not reverse else self.compare('<', ky, kx)
                if self.truth(lt):
                    pos = j
                    break
            out.insert(pos, (x, kx))
        return [x for x, _ in out]

    def b_iter(self, a, k):
        return self.iterate(a[0])

    def b_next(self, a, k):
        try:
            return next(self.iterate(a[0]))
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise PyExc(StopIteration)

    def b_print(self, a, k):
        self.log.append(('print', tuple(a), k))
        return None

    def b_repr(self, a, k):
        return self.tostr(a[0])

    def b_id(self, a, k):
        return IdOf(a[0])

    def b_hash(self, a, k):
        if isinstance(a[0], Obj):
            f, _ = a[0].cls.find('__hash__')
            if f is not None:
                return self.call(Bound(f, a[0]), [])
        return HashOf(a[0])

    def b_getattr(self, a, k):
        try:
            return self.getattr(a[0], self.concrete(a[1]))
        except PyExc:
            if len(a) > 2:
                return a[2]
            raise

    def b_setattr(self, a, k):
        self.setattr(a[0], self.concrete(a[1]), a[2])

    def b_hasattr(self, a, k):
        try:
            self.getattr(a[0], self.concrete(a[1]))
            return True
        except PyExc:
            return False

    def b_ord(self, a, k):
        if isinstance(a[0], str):
            return ord(a[0])
        raise Undecided('ord')

    def b_chr(self, a, k):
        if isinstance(a[0], int):
            return chr(a[0])
        return Str([('chr', a[0])])

    def b_round(self, a, k):
        if all(isinstance(x, (int, float)) for x in a):
            return round(*a)
        raise Undecided('round')

    def b_callable(self, a, k):
        return isinstance(a[0], (Func, Bound, Native, Cls, MethodOf))

    def b_frozenset(self, a, k):
        return self.builtin_type(set, a, k)

    def b_type(self, a, k):
        return self.builtin_type(type, a, k)

    def b_bin(self, a, k):
        return bin(self.concrete(a[0]))

    # -------------------------------------------------------------- methods of library types

    def method(self, o, name, a, k):
        if isinstance(o, PList):
            return self.list_method(o, name, a, k)
        if isinstance(o, PDict):
            return self.dict_method(o, name, a, k)
        if isinstance(o, PSet):
            if name == 'add':
                return self.set_add(o, a[0])
            if name in ('discard', 'remove'):
                for y in list(o.items):
                    if self.truth(self.equal(y, a[0])):
                        o.items.remove(y)
                        return None
                if name == 'remove':
                    raise PyExc(KeyError)
                return None
            if name == 'update':
                for xs in a:
                    for x in self.iterate(xs):
                        self.set_add(o, x)
                return None
            if name == 'pop':
                if not o.items:
                    raise PyExc(KeyError)
                return o.items.pop(self.choose_n(len(o.items), 'which member is popped'))
            if name == 'copy':
                return PSet(o.items)
            if name == 'union':
                s = PSet(o.items)
                for xs in a:
                    for x in self.iterate(xs):
                        self.set_add(s, x)
                return s
            if name in ('issubset', 'issuperset', 'difference', 'intersection', 'isdisjoint'):
                other = self.builtin_type(set, [a[0]], {})
                if name == 'issubset':
                    return self.compare('<=', o, other)
                if name == 'issuperset':
                    return self.compare('>=', o, other)
                if name == 'difference':
                    return self.binop('-', o, other)
                if name == 'intersection':
                    return self.binop('&', o, other)
                return not any(self.contains(other, x) for x in o.items)
        if isinstance(o, str):
            if name == 'join':
                parts = []
                for n, x in enumerate(self.iterate(a[0])):
                    if n:
                        parts.append(o)
                    parts += str_parts(x)
                return mkstr(parts)
            if all(isinstance(x, (str, int)) for x in a) and all(isinstance(x, (str, int)) for x in k.values()):
                try:
                    r = getattr(o, name)(*a, **k)
                except ValueError:
                    raise PyExc(ValueError)
                return PList(r) if isinstance(r, list) else r
            if name in ('startswith', 'endswith') and isinstance(a[0], tuple):
                return getattr(o, name)(a[0])
            if name == 'format':
                raise Undecided('format')
        if o is str and name == 'join':
            return self.method(a[0], 'join', a[1:], k)
        if o is str and name == 'maketrans':
            return Opaque('maketrans')
        if isinstance(o, tuple):
            if name == 'index':
                for n, x in enumerate(o):
                    if self.truth(self.equal(x, a[0])):
                        return n
                raise PyExc(ValueError)
            if name == 'count':
                return sum(1 for x in o if self.truth(self.equal(x, a[0])))
        if isinstance(o, int):
            if name == 'bit_length':
                return o.bit_length()
        if isinstance(o, Native) and o.name == 'itertools.chain' and name == 'from_iterable':
            return itertools.chain.from_iterable(self.iterate(x) for x in self.iterate(a[0]))
        if o is dict and name == 'fromkeys':
            return PDict([(x, a[1] if len(a) > 1 else None) for x in self.iterate(a[0])])
        if isinstance(o, Func) and name == 'cache_clear':
            return None
        raise Undecided(f'method {name} of {o!r}')

    def list_method(self, o, name, a, k):
        it = o.items
        if name == 'append':
            if o.tail is not None:
                while self.expand(o):
                    pass
            it.append(a[0])
            return None
        if name == 'appendleft':
            it.insert(0, a[0])
            return None
        if name == 'popleft':
            a, name = [0], 'pop'
        if name == 'insert':
            k_ = self.index_of(a[0])
            if k_ < 0 or (k_ > len(it) and o.tail is not None):
                while self.expand(o):
                    pass
            it.insert(k_, a[1])
            return None
        if name == 'pop':
            k_ = self.index_of(a[0]) if a else -1
            if k_ < 0:
                while self.expand(o):
                    pass
            while k_ >= len(it) and self.expand(o):
                pass
            try:
                return it.pop(k_)
            except IndexError:
                raise PyExc(IndexError)
        if name == 'extend':
            while self.expand(o):
                pass
            it.extend(list(self.iterate(a[0])))
            return None
        if name == 'copy':
            return PList(it, o.tail)
        if name == 'clear':
            it.clear()
            o.tail = None
            return None
        if name == 'reverse':
            while self.expand(o):
                pass
            it.reverse()
            return None
        if name == 'sort':
            o.items[:] = self.sort(list(self.iterate(o)), k.get('key'), k.get('reverse', False))
            return None
        if name == 'index':
            for n, x in enumerate(self.iterate(o)):
                if self.truth(self.equal(x, a[0])):
                    return n
            raise PyExc(ValueError)
        if name == 'count':
            return sum(1 for x in self.iterate(o) if self.truth(self.equal(x, a[0])))
        if name == 'remove':
            for n, x in enumerate(self.iterate(o)):
                if self.truth(self.equal(x, a[0])):
                    del it[n]
                    return None
            raise PyExc(ValueError)
        raise Undecided(f'list.{name}')

    def dict_method(self, o, name, a, k):
        if name == 'get':
            p = self.dict_find(o, a[0])
            return p[1] if p is not None else (a[1] if len(a) > 1 else k.get('default'))
        if name == 'items':
            return PList([tuple(p) for p in o.pairs])
        if name == 'keys':
            return PList([p[0] for p in o.pairs])
        if name == 'values':
            return PList([p[1] for p in o.pairs])
        if name == 'pop':
            p = self.dict_find(o, a[0])
            if p is None:
                if len(a) > 1:
                    return a[1]
                raise PyExc(KeyError)
            o.pairs.remove(p)
            return p[1]
        if name == 'setdefault':
            p = self.dict_find(o, a[0])
            if p is None:
                v = a[1] if len(a) > 1 else None
                o.pairs.append([a[0], v])
                return v
            return p[1]
        if name == 'update':
            if a:
                for kk, v in self.dict_pairs(a[0]):
                    self.setitem(o, kk, v)
            for kk, v in k.items():
                self.setitem(o, kk, v)
            return None
        if name == 'copy':
            return PDict(o.pairs, o.default)
        if name == 'clear':
            o.pairs.clear()
            return None
        if name == 'popitem':
            return tuple(o.pairs.pop())
        raise Undecided(f'dict.{name}')


class MethodOf:
    def __init__(self, o, name):
        self.o, self.name = o, name


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class IdOf:
    """Identity of an abstract object."""

    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        return isinstance(other, IdOf) and other.o is self.o

    def __hash__(self):
        return id(self.o)


class HashOf(IdOf):
    pass


class ListLen:
    """len() of a list with a summary tail: expands until the comparison needs no more."""

    def __init__(self, i, l):
        self.i, self.l = i, l

    def resolve(self):
        while self.i.expand(self.l):
            pass
        return len(self.l.items)


class Str:
    """A string with symbolic parts."""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'Str(' + ''.join(p if isinstance(p, str) else f'{{{p!r}}}' for p in self.parts) + ')'


def str_parts(x):
    if isinstance(x, str):
        return [x]
    if isinstance(x, Str):
        return list(x.parts)
    return [x]


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(out)


def hashable(k):
    if isinstance(k, (int, str, type(None), float, IdOf)):
        return (type(k).__name__ if not isinstance(k, (int, float)) else 'num', k)
    if isinstance(k, tuple):
        out = []
        for x in k:
            h = hashable(x)
            if h is None:
                return None
            out.append(h)
        return ('tuple', tuple(out))
    if isinstance(k, (Cls, Func, Native)):
        return ('obj', id(k))
    return None


def iter_pairwise(it):
    prev = None
    for n, x in enumerate(it):
        if n:
            yield (prev, x)
        prev = x


def is_generator(node):
    g = getattr(node, '_isgen', None)
    if g is None:
        g = node._isgen = _is_generator(node)
    return g


def _is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Path:
    def __init__(self, interp, result=None, exc=None, undecided=None):
        self.i = interp
        self.facts = interp.facts
        self.result = result
        self.exc = exc
        self.undecided = undecided
        self.trace = interp.trace

    def describe(self):
        return '; '.join(f'{l if not isinstance(l, Term) else T.show(l)}={"TF"[c] if isinstance(l, Term) else c}'
                         for l, c in self.trace)


def snapshot(v, m, undo, seen):
    """Collect what restores the mutable values reachable from a module's names."""
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, PDict):
        pairs, d = [list(p) for p in v.pairs], v.default

        def put():
            v.pairs, v.default = [list(p) for p in pairs], d
        undo.append(put)
        for k, x in v.pairs:
            snapshot(x, m, undo, seen)
    elif isinstance(v, PList):
        items, tail = list(v.items), v.tail

        def put():
            v.items, v.tail = list(items), tail
        undo.append(put)
        for x in items:
            snapshot(x, m, undo, seen)
    elif isinstance(v, PSet):
        items = list(v.items)

        def put():
            v.items = list(items)
        undo.append(put)
    elif isinstance(v, tuple):
        for x in v:
            snapshot(x, m, undo, seen)
    elif isinstance(v, Cls):
        if v.module is not m:
            return
        ns = dict(v.ns)

        def put():
            v.ns.clear()
            v.ns.update(ns)
        undo.append(put)
        for x in ns.values():
            snapshot(x, m, undo, seen)
    elif isinstance(v, Obj):
        f = dict(v.f)

        def put():
            v.f.clear()
            v.f.update(f)
        undo.append(put)
        for x in f.values():
            snapshot(x, m, undo, seen)
    elif isinstance(v, Func):
        for x in list(getattr(v, 'defaults', ()) or ()) + list(getattr(v, 'kw_defaults', ()) or ()):
            snapshot(x, m, undo, seen)


def explore(repo, body, setup=None, max_paths=4000, interp=None, **kw):
    """All paths of body(interp); yields Path objects."""
    stack = [[]]
    n = 0
    snaps = {}
    while stack:
        prefix = stack.pop()
        i = (interp or Interp)(repo, prefix, **kw)
        i.snapshots = snaps
        n += 1
        if time.time() - START > DEADLINE:
            yield Path(i, undecided='time bound')
            return
        if n > max_paths:
            p = Path(i, undecided='path bound')
            yield p
            return
        p = None
        base = len(prefix)
        try:
            if setup is not None:
                setup(i)
            r = body(i)
            p = Path(i, result=r)
        except PyExc as e:
            p = Path(i, exc=e)
        except Infeasible:
            p = None
        except Undecided as e:
            p = Path(i, undecided=str(e) or type(e).__name__)
        except RecursionError:
            p = Path(i, undecided='recursion')
        except Exception as e:      # a construct the interpreter does not model
            if os.environ.get('SA_DEBUG'):
                raise
            p = Path(i, undecided=f'analyser: {type(e).__name__} {e}')
        # schedule the unexplored alternatives created past the given prefix
        for pos, cnt in i.alts:
            if pos >= base:
                for c in range(1, cnt):
                    stack.append(i.prefix[:pos] + [c])
        if p is not None:
            yield p
