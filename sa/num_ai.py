"""Value analysis of tm/num.py.

A count is an integer or an expression object; each abstract count carries the
Term it denotes.  Operators applied to abstract counts are summarised by their
contract (assume/guarantee): the method under analysis is interpreted, every
other operator is taken to denote the integer operation, and the method's own
result must then denote its operation on every path.
"""

from __future__ import annotations

from . import terms as T
from .terms import Term
from .pyai import (Repo, Obj, Cls, Func, Bound, Native, PyExc, Undecided, Infeasible, explore, PList)

MODNAME = 'tm.num'
KINDS = ('Add', 'Mul', 'Div', 'Exp')


class SNum(Obj):
    """A count whose class may be still unknown (cls is None) or int ('int')."""

    def __init__(self, name, den, cls=None, kinds=None):
        super().__init__(cls, {})
        self.name, self.den = name, den
        self.kinds = kinds          # remaining candidates when cls is None

    def __repr__(self):
        k = self.cls.name if isinstance(self.cls, Cls) else (self.cls or 'count')
        return f'<{k} {self.den!r}>'


def den(v):
    if isinstance(v, SNum):
        return v.den
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Term)):
        return v
    return None


class NumDomain:
    """The hooks installed into an interpreter."""

    def __init__(self, i, order_raises=True):
        self.i = i
        self.mod = i.load(MODNAME)
        self.v = self.mod.env.vars
        for k in ('Num', *KINDS, 'Tet'):
            if not isinstance(self.v.get(k), Cls):
                raise KeyError(f'class {k}')
        self.cls = {k: self.v[k] for k in KINDS}
        self.num = self.v['Num']
        self.tet = self.v['Tet']
        self.n = 0
        self.eqs = {}
        self.divisions = []
        self.order_raises = order_raises
        self.raised = {}
        i.binop_hook = self.binop
        i.cmp_hook = self.compare
        i.isinstance_hook = self.isinstance
        i.attr_hook = self.attr
        i.neg_hook = self.neg
        i.truth_hook = self.truth
        i.setattr_hook = self.setattr
        i.num_domain = self
        i.gcd_hook = divisor
        i.cut_hook = predicate

    def fresh(self, name, den_=None, kind=None, kinds=None):
        self.n += 1
        if den_ is None:
            den_ = T.var(f'{name}')
        s = SNum(name, den_, None, kinds or ('int',) + KINDS)
        if kind is not None:
            self.refine(s, kind)
        return s

    # kinds -------------------------------------------------------------

    def refine(self, s, kind):
        i = self.i
        if kind == 'int':
            s.cls = 'int'
            return
        s.cls = self.cls[kind]
        n = s.name
        if kind in ('Add', 'Mul'):
            l = self.fresh(f'{n}.l')
            r = self.fresh(f'{n}.r', kinds=KINDS)
            if kind == 'Mul':
                self.assume_eq(s.den, T.mul(l.den, r.den))
                i.assume(T.ne(l.den, 0))
                i.assume(T.ne(r.den, 0))
            else:
                self.assume_eq(s.den, T.add(l.den, r.den))
            s.f['l'], s.f['r'] = l, r
        elif kind == 'Div':
            num = self.fresh(f'{n}.num', kinds=KINDS)
            d = T.var(f'{n}.den')
            i.assume(T.le(2, d))
            i.assume(T.eq(T.mod(num.den, d), 0))
            self.assume_eq(s.den, T.quo(num.den, d))
            s.f['num'], s.f['den'] = num, d
        elif kind == 'Exp':
            b = T.var(f'{n}.base')
            e = self.fresh(f'{n}.exp')
            i.assume(T.le(2, b))
            i.assume(T.le(1, e.den))
            self.assume_eq(s.den, T.power(b, e.den))
            s.f['base'], s.f['exp'] = b, e
        for a in ('depth', 'leaves', 'tower_est'):
            d = T.var(f'{n}.{a}')
            i.assume(T.le(1, d))
            s.f[a] = d

    def assume_eq(self, a, b):
        self.i.assume(T.eq(a, b))

    def kind(self, s, want=None):
        """Resolve the class of s, splitting over what remains."""
        if s.cls is None:
            k = s.kinds[self.i.choose_n(len(s.kinds), f'class of {s.name}: {s.kinds}')]
            self.refine(s, k)
        return 'int' if s.cls == 'int' else s.cls.name

    def val(self, v):
        """A Term/int when v is surely an integer, else the SNum."""
        if isinstance(v, SNum) and v.cls == 'int':
            return v.den
        return v

    def result(self, t, name='t'):
        if T.is_const(t):
            return t
        self.n += 1
        return SNum(f'{name}{self.n}', t, None, ('int',) + KINDS)

    # hooks -------------------------------------------------------------

    def isinstance(self, i, v, c):
        if not isinstance(v, SNum):
            if isinstance(v, Term) and isinstance(c, Cls):
                return False
            return NotImplemented
        if c is int:
            if v.cls is None:
                if 'int' not in v.kinds:
                    return False
                # split on integer / not integer only
                if i.choose_n(2, f'{v.name} is an int') == 0:
                    self.refine(v, 'int')
                    return True
                v.kinds = tuple(k for k in v.kinds if k != 'int')
                return False
            return v.cls == 'int'
        if isinstance(c, Cls):
            if c is self.num or (c.name == 'Num' and c.module.name == MODNAME):
                return not self.isinstance(i, v, int)
            if v.cls is None:
                if c.name not in v.kinds:
                    return False
                if len(v.kinds) == 1:
                    self.refine(v, v.kinds[0])
                    return True
                if i.choose_n(2, f'{v.name} is {c.name}') == 0:
                    self.refine(v, c.name)
                    return True
                v.kinds = tuple(k for k in v.kinds if k != c.name)
                return False
            return v.cls is not None and v.cls != 'int' and c in v.cls.mro()
        return NotImplemented

    def attr(self, i, o, name):
        if not isinstance(o, SNum):
            return NotImplemented
        if o.cls is None:
            if name in ('depth', 'leaves', 'tower_est'):
                if 'int' in o.kinds and self.isinstance(i, o, int):
                    raise PyExc(AttributeError, (name,))
                if name not in o.f:
                    d = T.var(f'{o.name}.{name}')
                    i.assume(T.le(1, d))
                    o.f[name] = d
                return o.f[name]
            if name == 'digits':
                return Native('digits', lambda i2, a, k: self.digits(o))
            if name == '__int__':
                return Native('__int__', lambda i2, a, k: o.den)
            self.kind(o)
        if o.cls == 'int':
            if name == '__int__':
                return Native('__int__', lambda i2, a, k: o.den)
            raise PyExc(AttributeError, (name,))
        if name == '__int__':
            return Native('__int__', lambda i2, a, k: o.den)
        if name == 'digits':
            return Native('digits', lambda i2, a, k: self.digits(o))
        if name in o.f:
            return o.f[name]
        v, c = o.cls.find(name)
        if c is None:
            raise PyExc(AttributeError, (name,))
        if isinstance(v, Func):
            if v.kind == 'property':
                return i.call(Bound(v, o), [])
            return Bound(v, o)
        return v

    def digits(self, o):
        if i_choose := self.i.choose_n(2, f'digits of {o.name} overflow'):
            raise PyExc(OverflowError)
        return T.var(f'{o.name}.digits')

    def setattr(self, i, o, name, v):
        if isinstance(o, SNum):
            raise Undecided('field of an abstract count assigned')
        return NotImplemented

    def truth(self, i, v):
        if isinstance(v, SNum):
            if self.isinstance(i, v, int):
                return i.decide(T.ne(v.den, 0))
            return True
        return NotImplemented

    def neg(self, i, v):
        if isinstance(v, SNum):
            if v.cls == 'int':
                return T.neg(v.den)
            return self.result(T.neg(v.den), '-')
        return NotImplemented

    def binop(self, i, op, l, r):
        if not (isinstance(l, SNum) or isinstance(r, SNum)):
            return NotImplemented
        l, r = self.val(l), self.val(r)
        if not (isinstance(l, SNum) or isinstance(r, SNum)):
            if op == 'divmod':
                return (i.binop('//', l, r), i.binop('%', l, r))
            return i.binop(op, l, r)
        a, b = den(l), den(r)
        if a is None or b is None:
            raise Undecided(f'{l!r} {op} {r!r}')
        if op == '+':
            return self.result(T.add(a, b))
        if op == '-':
            return self.result(T.sub(a, b))
        if op == '*':
            return self.result(T.mul(a, b))
        if op == '**':
            return self.result(T.power(a, b))
        if op == '%':
            return T.mod(a, b)
        if op == '//':
            self.divisions.append((a, b, isinstance(l, SNum)))
            if i.facts.proved_equal(T.mod(a, b), 0):
                return self.result(T.quo(a, b))
            # by contract the division is exact; checked separately
            return self.result(T.quo(a, b))
        if op == 'divmod':
            m = T.mod(a, b)
            return (self.result(T.quo(T.sub(a, m), b)), m)
        raise Undecided(f'{op} on counts')

    def compare(self, i, op, l, r):
        if not (isinstance(l, SNum) or isinstance(r, SNum)):
            return NotImplemented
        if op == 'in':
            return NotImplemented if not isinstance(r, SNum) else T.var(f'{l!r} in {r!r}', 'bool')
        if not isinstance(l, (SNum, int, Term)) or not isinstance(r, (SNum, int, Term)):
            return False if op == '==' else NotImplemented
        l, r = self.val(l), self.val(r)
        if not (isinstance(l, SNum) or isinstance(r, SNum)):
            return i.equal(l, r) if op == '==' else i.compare(op, l, r)
        if op == '==':
            return self.equal(l, r)
        a, b = den(l), den(r)
        if self.order_raises:
            # the order may be left open
            key = ('ord', T.sub(a, b) if True else 0)
            if key not in self.raised:
                lit = {'<': T.lt(a, b), '<=': T.le(a, b), '>': T.lt(b, a), '>=': T.le(b, a)}[op]
                if isinstance(lit, bool) or self.i.facts.decide(lit) is not None:
                    self.raised[key] = 0
                else:
                    self.raised[key] = i.choose_n(2, f'order of {l!r} and {r!r} left open')
            if self.raised[key]:
                raise PyExc(NotImplementedError)
        return {'<': lambda: T.lt(a, b), '<=': lambda: T.le(a, b),
                '>': lambda: T.lt(b, a), '>=': lambda: T.le(b, a)}[op]()

    def equal(self, l, r):
        i = self.i
        if l is r:
            return True
        # an integer and an expression object are never equal
        for x, y in ((l, r), (r, l)):
            if not isinstance(x, SNum):
                if self.isinstance(i, y, int):
                    return T.eq(x, y.den)
                return False
        if l.cls is not None and r.cls is not None and l.cls is not r.cls:
            return False
        if l.cls is None and r.cls is not None and r.cls.name not in l.kinds:
            return False
        if r.cls is None and l.cls is not None and l.cls.name not in r.kinds:
            return False
        key = frozenset((id(l), id(r)))
        if key in self.eqs:
            return self.eqs[key][0]
        c = i.facts.decide(T.eq(l.den, r.den)) if isinstance(T.eq(l.den, r.den), Term) else T.eq(l.den, r.den)
        if c is False:
            res = False
        else:
            res = i.choose_n(2, f'{l!r} is {r!r}') == 0
            if res:
                i.assume(T.eq(l.den, r.den))
        self.eqs[key] = (res, l, r)
        return res


def predicate(i, f, args):
    """A predicate beyond the recursion bound may say either."""
    import ast
    r = getattr(f.node, 'returns', None)
    if isinstance(r, ast.Name) and r.id == 'bool':
        return i.choose_n(2, f'{f.qual} on a part') == 1
    return NotImplemented


def divisor(i, a, b):
    """A common divisor of two counts, otherwise unknown."""
    l, r = den(a), den(b)
    x = i.num_domain
    x.n += 1
    g = T.var(f'g{x.n}')
    i.assume(T.le(1, g))
    i.assume(T.eq(T.mod(l, g), 0))
    i.assume(T.eq(T.mod(r, g), 0))
    return g


def contracts(skip=()):
    """Summaries of the module's functions, for use inside other functions."""

    def d(i):
        return i.num_domain

    def mk(kind, f):
        def h(i, a, k):
            x = d(i)
            s = SNum(f'{kind.lower()}{x.n}', f(*a), x.cls[kind])
            x.n += 1
            return LazyFields.install(x, s, kind)
        return h

    def add_exponents(i, a, k):
        (e1, c1), (e2, c2) = a
        if i.choose_n(2, 'add_exponents leaves it open') == 1:
            raise PyExc(NotImplementedError)
        return d(i).result(T.add(T.mul(den(c1), den(e1)), T.mul(den(c2), den(e2))))

    def gcd(i, a, k):
        return divisor(i, a[0], a[1])

    h = {
        f'{MODNAME}.make_add': mk('Add', lambda l, r: T.add(den(l), den(r))),
        f'{MODNAME}.make_mul': mk('Mul', lambda l, r: T.mul(den(l), den(r))),
        f'{MODNAME}.make_div': mk('Div', lambda n, q: T.quo(den(n), den(q))),
        f'{MODNAME}.make_exp': mk('Exp', lambda b, e: T.power(den(b), den(e))),
        f'{MODNAME}.add_exponents': add_exponents,
        f'{MODNAME}.gcd': gcd,
        f'{MODNAME}.show_number': lambda i, a, k: '?',
    }
    for s in skip:
        h.pop(f'{MODNAME}.{s}', None)
    return h


class LazyFields:
    """Fields of a constructed expression, materialised on demand."""

    @staticmethod
    def install(x, s, kind):
        s.f = _Lazy(x, s, kind)
        return s


class _Lazy(dict):
    def __init__(self, x, s, kind):
        super().__init__()
        self.x, self.s, self.kind = x, s, kind
        self.done = False

    def fill(self):
        if not self.done:
            self.done = True
            f = SNum(self.s.name, self.s.den)
            self.x.refine(f, self.kind)
            self.update(f.f)

    def __contains__(self, k):
        self.fill()
        return dict.__contains__(self, k)


def domains(a):
    if a.kind == 'bool':
        return None
    n = a.args[0]
    if n.endswith('.base'):
        return [2, 3, 6, 5, 7]
    if n.endswith('.exp'):
        return [1, 2, 3, 4, 5, 6]
    if n.endswith('.den'):
        return [2, 3, 4, 6, 5, 9, 12]
    if n.endswith(('.depth', '.leaves', '.tower_est')):
        return [1, 2, 3, 9, 60]
    if n.startswith('g'):
        return [1, 2, 3, 4, 6, 12]
    if n == 'm':
        return [1, 2, 3, 4, 5, 6, 8, 9, 12]
    return [1, 2, 3, -1, 4, 5, -2, 6, 12, 24, -3, 7, 0, -6]


def big_domains(a):
    """For the order relation: exponents large against the integers in play."""
    if a.kind == 'bool':
        return None
    n = a.args[0]
    if n.endswith('.exp'):
        return [12, 13, 14, 16, 17]
    if n.endswith('.base'):
        return [2, 3]
    return domains(a)


def root():
    from .report import REPO
    return REPO


_repos: dict = {}


def repo():
    r = root()
    if r not in _repos:
        _repos[r] = Repo(r)
    return _repos[r]
