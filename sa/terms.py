"""Value-numbering domain shared by the analysers.

A Term denotes an integer or a boolean as a function of atoms (unknown values
of the analysed program).  Two terms are *proved* equal when their normal forms
(Laurent polynomials over atoms and exponentials, rewritten with the path's
equalities) coincide, and *refuted* when some valuation of the atoms satisfies
every fact of the path and gives them different values.  Nothing else is ever
reported: an obligation that is neither is counted as undecided.
"""

from __future__ import annotations

import itertools
import math
import random
from fractions import Fraction


class Term:
    __slots__ = ('op', 'args', 'kind', '_h', '_n')
    table: dict = {}

    def __new__(cls, op, args, kind):
        key = (op, args, kind)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.kind = op, args, kind
            t._h = hash(key)
            t._n = None
            cls.table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        raise RuntimeError(f'truth of a term: {self}')

    def __repr__(self):
        return show(self)


def var(name, kind='int'):
    return Term('var', (name,), kind)


def is_const(x):
    return isinstance(x, (int, Fraction))


def show(t):
    if not isinstance(t, Term):
        return repr(t)
    o, a = t.op, t.args
    if o == 'var':
        return str(a[0])
    inf = {'add': ' + ', 'mul': '*', 'pow': '**', 'fdiv': ' // ', 'mod': ' % ',
           'quo': ' / ', 'eq': ' == ', 'lt': ' < ', 'le': ' <= ', 'and': ' and ', 'or': ' or '}
    if o in inf:
        return '(' + inf[o].join(show(x) for x in a) + ')'
    if o == 'not':
        return f'not {show(a[0])}'
    return f'{o}({", ".join(show(x) for x in a)})'


# ---------------------------------------------------------------- builders

def add(*xs):
    c, out = 0, []
    for x in xs:
        if is_const(x):
            c += x
        elif x.op == 'add':
            for y in x.args:
                if is_const(y):
                    c += y
                else:
                    out.append(y)
        else:
            out.append(x)
    if not out:
        return c
    if c != 0:
        out.append(c)
    if len(out) == 1:
        return out[0]
    return Term('add', tuple(out), 'int')


def mul(*xs):
    c, out = 1, []
    for x in xs:
        if is_const(x):
            c *= x
        elif x.op == 'mul':
            for y in x.args:
                if is_const(y):
                    c *= y
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return 0
    if not out:
        return c
    if c != 1:
        out.insert(0, c)
    if len(out) == 1:
        return out[0]
    return Term('mul', tuple(out), 'int')


def neg(x):
    return mul(-1, x)


def sub(x, y):
    return add(x, neg(y))


def power(b, e):
    if is_const(b) and is_const(e) and (e >= 0 or b != 0):
        if abs(e) < 4096:
            return Fraction(b) ** e if e < 0 else b ** e
    if is_const(e) and e == 1:
        return b
    if is_const(e) and e == 0:
        return 1
    return Term('pow', (b, e), 'int')


def fdiv(x, y):
    if is_const(x) and is_const(y) and y != 0:
        return x // y
    if is_const(x) and x == 0:
        return 0
    if is_const(y) and y == 1:
        return x
    return Term('fdiv', (x, y), 'int')


def quo(x, y):
    """Exact quotient (rational)."""
    if is_const(y) and y == 1:
        return x
    if is_const(x) and is_const(y) and y != 0:
        q = Fraction(x) / y
        return int(q) if q.denominator == 1 else q
    return Term('quo', (x, y), 'int')


def mod(x, y):
    if is_const(x) and is_const(y) and y != 0:
        return x % y
    if (is_const(x) and x == 0) or (is_const(y) and y == 1):
        return 0
    return Term('mod', (x, y), 'int')


def fn(name, *args, kind='int'):
    if all(is_const(a) for a in args):
        f = FN.get(name)
        if f is not None:
            return f(*args)
    return Term(name, tuple(args), kind)


FN = {
    'abs': abs, 'min': min, 'max': max,
    'gcd': lambda a, b: math.gcd(a, b),
    'isqrt': lambda a: math.isqrt(a),
    'wrap32': lambda a: ((a + 2**31) % 2**32) - 2**31,
    'ite': lambda c, a, b: a if c else b,
    'band': lambda a, b: a & b,
    'bor': lambda a, b: a | b,
    'bxor': lambda a, b: a ^ b,
}


def _cmp(op, x, y, f):
    if is_const(x) and is_const(y):
        return f(x, y)
    d = diff_const(x, y)
    if d is not None:
        return f(d, 0)
    return Term(op, (x, y), 'bool')


def diff_const(x, y):
    """x - y when it is a constant by normal form."""
    if x is y:
        return 0
    n = norm(sub(x, y))
    if not n:
        return 0
    if len(n) == 1 and () in n:
        return n[()]
    return None


def eq(x, y):
    return _cmp('eq', x, y, lambda a, b: a == b)


def ne(x, y):
    return lnot(eq(x, y))


def lt(x, y):
    return _cmp('lt', x, y, lambda a, b: a < b)


def le(x, y):
    return _cmp('le', x, y, lambda a, b: a <= b)


def lnot(x):
    if isinstance(x, bool):
        return not x
    if x.op == 'not':
        return x.args[0]
    if x.op == 'lt':
        return Term('le', (x.args[1], x.args[0]), 'bool')
    if x.op == 'le':
        return Term('lt', (x.args[1], x.args[0]), 'bool')
    return Term('not', (x,), 'bool')


def land(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Term('and', tuple(out), 'bool')


def lor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Term('or', tuple(out), 'bool')


# ---------------------------------------------------------------- normal form
# poly: dict monomial -> Fraction/int ; monomial: tuple of (base, exponent)
# sorted; base: Term atom or int prime-ish; exponent: int/Fraction or a
# normal form frozen as a tuple of items (for symbolic exponents).

def _freeze(p):
    return tuple(sorted(p.items(), key=lambda kv: repr(kv[0])))


def _thaw(e):
    return dict(e) if isinstance(e, tuple) else ({(): e} if e else {})


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = int(s) if isinstance(s, Fraction) and s.denominator == 1 else s
    return r


def pscale(p, c):
    return padd({}, {m: k * c for m, k in p.items()}) if c else {}


def _mmul(m1, m2):
    d = {}
    for b, e in itertools.chain(m1, m2):
        d[b] = padd(d[b], _thaw(e)) if b in d else _thaw(e)
    coef, out = 1, []
    for b, e in d.items():
        if not e:
            continue
        if isinstance(b, int):
            k = e.get((), 0)
            if k and (not isinstance(k, Fraction)) and abs(k) < 4096:
                coef *= Fraction(b) ** k
                e = {m: c for m, c in e.items() if m != ()}
                if not e:
                    continue
        ex = e[()] if list(e) == [()] else _freeze(e)
        out.append((b, ex))
    out.sort(key=repr)
    return tuple(out), coef


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, k = _mmul(m1, m2)
            r = padd(r, {m: c1 * c2 * k})
    return r


def _factor(n):
    out, d = {}, 2
    while d * d <= n and d < 1000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    k = 1
    while n > 1 and math.isqrt(n) ** 2 == n:
        n, k = math.isqrt(n), 2 * k
    if n > 1:
        out[n] = out.get(n, 0) + k
    return out


def ppow(b, e):
    """normal form of base-poly b to exponent-poly e"""
    if not e:
        return {(): 1}
    if list(e) == [()] and isinstance(e[()], int) and 0 <= e[()] <= 4:
        r = {(): 1}
        for _ in range(e[()]):
            r = pmul(r, b)
        return r
    if len(b) == 1:
        (m, c), = b.items()
        r = {(): 1}
        if c != 1:
            if c < 0:
                return None
            num, den = Fraction(c).numerator, Fraction(c).denominator
            for n, s in ((num, 1), (den, -1)):
                if n == 1:
                    continue
                for pr, k in _factor(n).items():
                    mm, cc = _mmul(((pr, _freeze(pscale(e, k * s))),), ())
                    r = pmul(r, {mm: cc})
        for bb, be in m:
            ne_ = pmul(_thaw(be), e)
            mm, cc = _mmul(((bb, _freeze(ne_)),), ())
            r = pmul(r, {mm: cc})
        return r
    return None


def _atom(t):
    return {((t, 1),): 1}


def clear(p):
    """Multiply by the denominators occurring in p: (polynomial, [denominators])."""
    dens = []
    for _ in range(12):
        hit = None
        for m in p:
            for b, ex in m:
                if isinstance(b, Term) and b.op == 'inv' and not isinstance(ex, tuple) and ex > 0:
                    hit = (b, None)
                elif not isinstance(ex, tuple) and ex < 0:
                    hit = (b, -ex)
            if hit:
                break
        if not hit:
            break
        b, k = hit
        if k is None:
            d = norm(b.args[0])
            out = {}
            for m, c in p.items():
                if any(bb is b for bb, _ in m):
                    mm = tuple((bb, ex - 1 if bb is b else ex) for bb, ex in m)
                    mm = tuple((bb, ex) for bb, ex in mm if ex != 0)
                    out = padd(out, {mm: c})
                else:
                    out = padd(out, pmul({m: c}, d))
            p = out
        else:
            d = {((b, k),): 1} if isinstance(b, Term) else {(): Fraction(b) ** k}
            p = pmul(p, d)
        dens.append(d)
    return p, dens


def _integral(m):
    return all((isinstance(b, int) or b.op in ('var', 'mod', 'fdiv')) and isinstance(e, int) and e > 0 for b, e in m)


def split(x, y):
    """(q, r) with x = q*y + r and q an integer whatever the atoms are; y a single monomial."""
    py = norm(y)
    if len(py) != 1:
        return 0, x
    (my, cy), = py.items()
    if not isinstance(cy, int) or not all(isinstance(e, int) and e > 0 and (isinstance(b, int) or b.op == 'var') for b, e in my):
        return 0, x
    need = dict(my)
    q, r = {}, {}
    for m, c in norm(x).items():
        have = dict(m)
        if isinstance(c, int) and c % cy == 0 and _integral(m) and all(isinstance(have.get(b), int) and have[b] >= e for b, e in need.items()):
            mm = tuple((b, e - need.get(b, 0)) for b, e in m if e - need.get(b, 0))
            q[mm] = c // cy
        else:
            r[m] = c
    if not q:
        return 0, x
    return _nterm(q), _nterm(r)


class Env(dict):
    """Rewriting rules; memo is set once they are complete."""
    memo = None


def norm(t, env=None):
    """Normal form, rewriting atoms through env (dict Term -> normal form)."""
    if is_const(t):
        return {(): t} if t else {}
    if env:
        if t in env:
            return env[t]
        memo = getattr(env, 'memo', None)
        if memo is not None:
            r = memo.get(t)
            if r is None:
                r = memo[t] = _norm(t, env)
            return r
        return _norm(t, env)
    if t._n is not None:
        return t._n
    t._n = r = _norm(t, env)
    return r


def _nterm(p):
    """A canonical Term for a normal form (used inside opaque operators)."""
    out = []
    for m, c in sorted(p.items(), key=lambda kv: repr(kv[0])):
        fs = []
        for b, e in m:
            fs.append(power(b, _nterm(_thaw(e))))
        out.append(mul(c, *fs))
    return add(*out) if out else 0


def _norm(t, env):
    o = t.op
    if t.kind == 'bool':
        return _atom(t)
    if o == 'var':
        return _atom(t)
    if o == 'add':
        r = {}
        for a in t.args:
            r = padd(r, norm(a, env))
        return r
    if o == 'mul':
        r = {(): 1}
        for a in t.args:
            r = pmul(r, norm(a, env))
        return r
    if o == 'pow':
        b, e = norm(t.args[0], env), norm(t.args[1], env)
        r = ppow(b, e)
        if r is not None:
            return r
        return _atom(Term('pow', (_nterm(b), _nterm(e)), 'int'))
    if o == 'quo':
        n, d = norm(t.args[0], env), norm(t.args[1], env)
        if len(d) == 1:
            (m, c), = d.items()
            inv = tuple((b, _freeze(pscale(_thaw(e), -1)) if isinstance(e, tuple) else -e) for b, e in m)
            return pmul(n, {inv: Fraction(1) / c})
        if d:
            # polynomial denominators: try an exact division by proportionality
            if n and len(n) == len(d):
                (m0, c0) = next(iter(sorted(n.items(), key=lambda kv: repr(kv[0]))))
            return pmul(n, {((Term('inv', (_nterm(d),), 'int'), 1),): 1})
        return _atom(t)
    args = tuple(_nterm(norm(a, env)) if (isinstance(a, Term) and a.kind == 'int') else a for a in t.args)
    if o in ('fdiv', 'mod'):
        r = {'fdiv': fdiv, 'mod': mod}[o](*args)
    elif all(is_const(a) for a in args) and o in FN:
        r = FN[o](*args)
    else:
        r = Term(o, args, t.kind)
    if is_const(r):
        return {(): r} if r else {}
    if r is not t and env and r in env:
        return env[r]
    return _atom(r)


# ---------------------------------------------------------------- valuation

class Undef(Exception):
    pass


def atoms(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, Term):
        if t.op == 'var':
            out.add(t)
        else:
            for a in t.args:
                atoms(a, out)
    elif isinstance(t, tuple):
        for a in t:
            atoms(a, out)
    return out


def evaluate(t, env):
    if not isinstance(t, Term):
        return t
    if t in env:
        return env[t]
    o = t.op
    if o == 'var':
        raise Undef(t)
    if o == 'and':
        return all(evaluate(a, env) for a in t.args)
    if o == 'or':
        return any(evaluate(a, env) for a in t.args)
    if o == 'not':
        return not evaluate(t.args[0], env)
    a = [evaluate(x, env) for x in t.args]
    if o == 'add':
        return sum(a)
    if o == 'mul':
        r = 1
        for x in a:
            r *= x
        return r
    if o == 'pow':
        b, e = a
        if isinstance(e, Fraction) and e.denominator != 1:
            raise Undef
        e = int(e)
        if abs(e) > 3000 or (isinstance(b, int) and b.bit_length() * abs(e) > 20000):
            raise Undef
        if e < 0:
            if b == 0:
                raise Undef
            return Fraction(b) ** e
        return b ** e
    if o in ('fdiv', 'mod', 'quo'):
        x, y = a
        if y == 0:
            raise Undef
        if o == 'fdiv':
            return x // y
        if o == 'mod':
            return x % y
        q = Fraction(x) / y
        return int(q) if q.denominator == 1 else q
    if o == 'eq':
        return a[0] == a[1]
    if o == 'lt':
        return a[0] < a[1]
    if o == 'le':
        return a[0] <= a[1]
    if o in FN:
        try:
            return FN[o](*a)
        except (TypeError, ValueError):
            raise Undef
    raise Undef(o)


class Facts:
    """What a path has established: a conjunction of boolean terms."""

    def __init__(self):
        self.lits: list = []
        self.known: dict = {}
        self.pending: list = []
        self._env = None
        self._lits = None
        self._abounds = {}

    def copy(self):
        f = Facts()
        f.lits = list(self.lits)
        f.known = dict(self.known)
        f.pending = list(self.pending)
        return f

    def assume(self, t):
        if t is True:
            return True
        if t is False:
            return False
        if t.op == 'and':
            return all([self.assume(a) for a in t.args])
        d = self.decide(t)
        if d is not None:
            return d
        self.lits.append(t)
        self.known[t] = True
        n = lnot(t)
        self.known[n] = False
        if t.op == 'lt':
            x, y = t.args
            self.known[eq(x, y) if isinstance(eq(x, y), Term) else 0] = False
            self.known[Term('eq', (y, x), 'bool')] = False
        if t.op == 'eq' or (t.op == 'not' and t.args[0].op == 'eq'):
            e = t if t.op == 'eq' else t.args[0]
            self.known[Term('eq', (e.args[1], e.args[0]), 'bool')] = t.op == 'eq'
        self._env = None
        if t.op == 'or' or (t.op == 'not' and t.args[0].op == 'and'):
            self.pending.append(t.args if t.op == 'or' else tuple(lnot(a) for a in t.args[0].args))
        if self.pending:
            return self.propagate()
        return True

    def propagate(self):
        """Unit propagation over the disjunctions assumed; False if one of them has become impossible."""
        for d in list(self.pending):
            left, sat = [], False
            for a in d:
                v = a if isinstance(a, bool) else self.decide(a)
                if v is True:
                    sat = True
                    break
                if v is None:
                    left.append(a)
            if sat:
                if d in self.pending:
                    self.pending.remove(d)
                continue
            if not left:
                return False
            if len(left) == 1 and d in self.pending:
                self.pending.remove(d)
                if not self.assume(left[0]):
                    return False
        return True

    def env(self):
        """Rewriting from the path's equalities: atom -> normal form."""
        if self._env is None:
            env = Env()
            self._env = env
            self._abounds = {}
            self._lits = None
            for lit in self.lits:
                if lit.kind != 'bool' or lit.op != 'eq':
                    continue
                x, y = lit.args
                if any(isinstance(z, Term) and z.kind == 'bool' for z in lit.args):
                    continue
                p = padd(norm(x, env), pscale(norm(y, env), -1))
                # solve for an atom occurring linearly, alone
                best = None
                for m, c in p.items():
                    if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], Term):
                        a = m[0][0]
                        if a.op == 'inv':
                            continue
                        rest = {mm: cc for mm, cc in p.items() if mm != m}
                        if any(_occurs(a, mm) for mm in rest):
                            continue
                        rank = (0 if a.op in ('mod', 'fdiv') else 1, abs(c) != 1, repr(a))
                        if best is None or rank < best[0]:
                            best = (rank, a, pscale(rest, Fraction(-1) / c))
                if best is not None:
                    _, a, v = best
                    for k in list(env):
                        if _occurs_poly(a, env[k]):
                            env[k] = _subst(env[k], a, v)
                    env[a] = v
            env.memo = {}
            lts, nes = [], []
            for lit in self.lits:
                t = lit.args[0] if lit.op == 'not' and isinstance(lit.args[0], Term) else lit
                if t.op not in ('lt', 'le', 'eq') or not all(is_const(z) or z.kind == 'int' for z in t.args):
                    continue
                if (t is lit) == (t.op == 'eq'):
                    continue
                q = padd(norm(t.args[0], env), pscale(norm(t.args[1], env), -1))
                (nes if t.op == 'eq' else lts).append((q, t.op == 'lt') if t.op != 'eq' else q)
            self._lits = (lts, nes)
        return self._env

    def norm(self, t):
        return norm(t, self.env())

    def proved_equal(self, x, y):
        if is_const(x) and is_const(y):
            return x == y
        e = self.env()
        p = padd(norm(x, e), pscale(norm(y, e), -1))
        if not p:
            return True
        # floor divisions and remainders known to be exact
        q = self._exact(p)
        return not q or self._by_binomials(q)

    def _by_binomials(self, p):
        """Rewrite with facts that equate two monomials."""
        e = self.env()
        for lit in self.lits:
            if lit.op != 'eq' or any(not is_const(a) and a.kind != 'int' for a in lit.args):
                continue
            q = padd(norm(lit.args[0], e), pscale(norm(lit.args[1], e), -1))
            if len(q) != 2:
                continue
            for (m1, c1), (m2, c2) in (tuple(q.items()), tuple(q.items())[::-1]):
                inv_ = tuple((b, _freeze(pscale(_thaw(x), -1))) if isinstance(x, tuple) else (b, -x) for b, x in m1)
                r, hit = {}, False
                for m, c in p.items():
                    if m1 and all(any(b is b2 and x == x2 for b2, x2 in m) for b, x in m1):
                        u, k = _mmul(m, inv_)
                        mm, k2 = _mmul(u, m2)
                        r = padd(r, {mm: -Fraction(c) * k * k2 * c2 / c1})
                        hit = True
                    else:
                        r = padd(r, {m: c})
                if hit and not r:
                    return True
        return False

    def _exact(self, p):
        e = self.env()
        sub_ = {}
        for m in p:
            for b, _ in m:
                if isinstance(b, Term) and b.op == 'fdiv':
                    x, y = b.args
                    r = norm(mod(x, y), e)
                    if not r or self._divides(y, x):
                        sub_[b] = norm(quo(x, y), e)
        for a, v in sub_.items():
            p = _subst(p, a, v)
        return p

    def _divides(self, d, x, depth=3):
        """x is a multiple of d, by a chain of remainders known to be zero."""
        if d is x:
            return True
        if depth == 0:
            return False
        for lit in self.lits:
            if lit.op == 'eq':
                for m, z in (lit.args, lit.args[::-1]):
                    if z == 0 and isinstance(m, Term) and m.op == 'mod' and m.args[0] is x and self._divides(d, m.args[1], depth - 1):
                        return True
        return False

    def multiple(self, x, d):
        """x is an integer multiple of d, from the remainders known to be zero."""
        e = self.env()
        facts = []
        for lit in self.lits:
            if lit.op == 'eq':
                for m, z in (lit.args, lit.args[::-1]):
                    if z == 0 and isinstance(m, Term) and m.op == 'mod':
                        facts.append((norm(m.args[0], e), norm(m.args[1], e)))
        sub: set = set()
        for t in (x, d):
            sub |= _subterms(t) if isinstance(t, Term) else set()
        for m in sub:
            if m.op == 'mod':
                facts.append((padd(norm(m.args[0], e), pscale(norm(m, e), -1)), norm(m.args[1], e)))
        return self._multiple(self._exact(norm(x, e)), self._exact(norm(d, e)), facts, 4)

    def _multiple(self, x, d, facts, depth):
        if not x or x == d:
            return True
        if depth == 0 or not d:
            return False
        # clear the denominators of both
        up = {}
        for p in (x, d):
            for m in p:
                for b, k in m:
                    if not isinstance(k, tuple) and k < 0:
                        up[b] = max(up.get(b, 0), -k)
        if up:
            u = {tuple(sorted(up.items(), key=repr)): 1}
            return self._multiple(pmul(x, u), pmul(d, u), facts, depth)
        for y, z in facts:
            if (x == y or x == pscale(y, -1)) and (z == d or self._multiple(z, d, facts, depth - 1)):
                return True
        if len(d) != 1:
            return False
        (dm, dc), = d.items()

        def over(m, n):
            """m / n when it is a product of integers, else None."""
            inv_ = tuple((b, _freeze(pscale(_thaw(k), -1))) if isinstance(k, tuple) else (b, -k) for b, k in n)
            q, c = _mmul(m, inv_)
            for b, k in q:
                if isinstance(k, tuple):
                    lo, _ = self.bounds(_thaw(k))
                    if lo is None or lo < 0:
                        return None
                elif k < 0:
                    return None
            return {q: c} if Fraction(c).denominator == 1 else None
        for m, c in x.items():
            u = over(m, dm)
            if u is not None and Fraction(c) * list(u.values())[0] % dc == 0:
                continue
            for y, z in facts:
                if len(y) != 1:
                    continue
                (ym, yc), = y.items()
                if yc != 1 or not ym:
                    continue
                u = over(m, ym)
                if u is not None and Fraction(c).denominator == 1 and self._multiple(pscale(pmul(u, z), c), d, facts, depth - 1):
                    break
            else:
                return False
        return True

    def decide(self, t):
        if isinstance(t, bool):
            return t
        k = self.known.get(t)
        if k is not None:
            return k
        if t.op == 'not':
            d = self.decide(t.args[0])
            return None if d is None else not d
        if t.op == 'and':
            ds = [self.decide(a) for a in t.args]
            if any(d is False for d in ds):
                return False
            return True if all(ds) else None
        if t.op == 'or':
            ds = [self.decide(a) for a in t.args]
            if any(d is True for d in ds):
                return True
            return False if all(d is False for d in ds) else None
        if t.op in ('lt', 'le') and isinstance(t.args[0], Term) and t.args[0].op == 'mod' \
                and t.args[0].args[1] is t.args[1] and self.decide(lt(0, t.args[1])) is True:
            return True
        if t.op in ('eq', 'lt', 'le') and all(is_const(a) or a.kind == 'int' for a in t.args):
            x, y = t.args
            e = self.env()
            p = padd(norm(x, e), pscale(norm(y, e), -1))
            if not p:
                return t.op != 'lt'
            if list(p) == [()]:
                c = p[()]
                return {'eq': c == 0, 'lt': c < 0, 'le': c <= 0}[t.op]
            lo, hi = self.bounds(p)
            if t.op == 'lt':
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            elif t.op == 'le':
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            else:
                if (hi is not None and hi < 0) or (lo is not None and lo > 0):
                    return False
                for q in (self._lits or ((), ()))[1]:
                    if q == p or q == pscale(p, -1):
                        return False
        if t.op == 'eq' and not all(is_const(a) or a.kind == 'int' for a in t.args):
            x, y = t.args
            dx = x if isinstance(x, bool) else self.decide(x) if isinstance(x, Term) else None
            dy = y if isinstance(y, bool) else self.decide(y) if isinstance(y, Term) else None
            if dx is not None and dy is not None:
                return dx == dy
        return None

    def bounds(self, p):
        """Interval of a polynomial, from the literals that bound its atoms or it."""
        e = self.env()
        lo = hi = 0
        for m, c in p.items():
            if m == ():
                l_ = h_ = 1
            else:
                l_, h_ = self._mono_bounds(m, e)
            if c < 0:
                l_, h_ = (None if h_ is None else h_ * c), (None if l_ is None else l_ * c)
            else:
                l_, h_ = (None if l_ is None else l_ * c), (None if h_ is None else h_ * c)
            lo = None if lo is None or l_ is None else lo + l_
            hi = None if hi is None or h_ is None else hi + h_
        # whole-polynomial literals p <= k / k <= p
        lts, nes = self._lits or ((), ())
        for q, strict in lts:                                 # q < 0 or q <= 0
            if len(q) > len(p) + 1 or len(p) > len(q) + 1:
                continue
            d = padd(p, pscale(q, -1))
            if not d or list(d) == [()]:
                k = d.get((), 0)
                b = k - (1 if strict else 0)                  # p = q + k
                hi = b if hi is None else min(hi, b)
            s = padd(p, q)
            if not s or list(s) == [()]:
                k = s.get((), 0)
                b = k + (1 if strict else 0)                  # p = -q + k
                lo = b if lo is None else max(lo, b)
        # integers: a bound that is excluded moves by one
        if lo is not None or hi is not None:
            excl = set()
            for q in nes:
                if len(q) > len(p) + 1 or len(p) > len(q) + 1:
                    continue
                for sgn in (1, -1):
                    d = padd(p, pscale(q, -sgn))
                    if not d or list(d) == [()]:
                        excl.add(d.get((), 0))
            while lo in excl:
                lo += 1
            while hi in excl:
                hi -= 1
        return lo, hi

    def _mono_bounds(self, m, e):
        lo, hi = 1, 1
        for b, ex in m:
            bl, bh = self._atom_bounds(b, e)
            if isinstance(ex, int) and ex >= 1 and bl is not None and bl >= 0:
                lo = lo * bl ** min(ex, 8) if lo is not None else None
                hi = hi * bh ** min(ex, 8) if hi is not None and bh is not None else None
            elif len(m) == 1 and ex == 1:
                return bl, bh
            elif isinstance(ex, tuple) and ((isinstance(b, int) and b >= 1) or (bl is not None and bl >= 1)):
                l2, _ = self.bounds(dict(ex))
                if l2 is not None and l2 >= 0 and lo is not None:
                    base = b if isinstance(b, int) else bl
                    lo, hi = lo * base ** min(int(l2), 16), None
                else:
                    return (0 if lo is not None and lo >= 0 else None), None
            else:
                return None, None
        return lo, hi

    def _atom_bounds(self, a, e):
        if isinstance(a, int):
            return a, a
        if self._lits is None:
            return self._atom_bounds_(a, e)
        r = self._abounds.get(a)
        if r is None:
            self._abounds[a] = (None, None)     # not through itself
            r = self._abounds[a] = self._atom_bounds_(a, e)
        return r

    def _atom_bounds_(self, a, e):
        lo = hi = None
        if a.op == 'mod':
            y = a.args[1]
            if is_const(y) and y > 0:
                lo, hi = 0, y - 1
            else:
                yl, yh = (None, None)
                if isinstance(y, Term):
                    yl, yh = self.bounds(norm(y, e)) if y is not a and e is not None else (None, None)
                if yl is not None and yl > 0:
                    lo, hi = 0, (None if yh is None else yh - 1)
        if a.op in ('abs', 'gcd'):
            lo = 0
        if a.op == 'gcd':
            lo = 0
        for lit in self.lits:
            if lit.op not in ('lt', 'le'):
                continue
            x, y = lit.args
            s = 1 if lit.op == 'lt' else 0
            if x is a and is_const(y):
                hi = y - s if hi is None else min(hi, y - s)
            elif y is a and is_const(x):
                lo = x + s if lo is None else max(lo, x + s)
        return lo, hi

    # ------------------------------------------------------ certificates

    def prove(self, cond, depth=4):
        """Rewriting and positivity certificates; True or None."""
        if isinstance(cond, bool):
            return cond or None
        if self.decide(cond) is True:
            return True
        if cond.op == 'eq':
            for m, z in (cond.args, cond.args[::-1]):
                if isinstance(m, Term) and m.op == 'mod' and z == 0 and self.multiple(*m.args):
                    return True
        if cond.op == 'and':
            return True if all(self.prove(a, depth) for a in cond.args) else None
        if cond.op == 'or':
            if any(self.prove(a, depth) for a in cond.args):
                return True
            return self._by_contradiction(cond) or self._by_cases(cond)
        if cond.op == 'not':
            a = cond.args[0]
            if isinstance(a, Term) and a.op == 'or':
                return True if all(self.prove(lnot(x), depth) for x in a.args) else None
            if isinstance(a, Term) and a.op == 'eq' and all(is_const(z) or z.kind == 'int' for z in a.args):
                return self.prove(lt(*a.args), depth) or self.prove(lt(a.args[1], a.args[0]), depth)
            return None
        if cond.op not in ('eq', 'lt', 'le') or not all(is_const(a) or a.kind == 'int' for a in cond.args):
            return None
        e = self.env()
        x, y = cond.args
        p = self._unfloor(padd(norm(y, e), pscale(norm(x, e), -1)))          # y - x
        q, dens = clear(p)
        if cond.op == 'eq':
            if not q:
                return True
            return self.prove(le(x, y), depth) and self.prove(le(y, x), depth)
        k = 1 if cond.op == 'lt' else 0
        if dens:
            dens = self._signed(dens)
            if dens is None:
                return None
            # integers: y - x >= k  iff  y - x - k + 1 > 0  iff  D * (y - x - k + 1) >= 1
            r = padd(p, {(): 1 - k} if k != 1 else {})
            for d in dens:
                r = pmul(r, d)
            r, _ = clear(r)
            return self._positive(padd(r, {(): -1}), depth)
        return self._positive(padd(p, {(): -k} if k else {}), depth)

    def _by_contradiction(self, cond):
        f = self.copy()
        for a in cond.args:
            n = lnot(a)
            if n is False or (n is not True and not f.assume(n)):
                return True
        return None

    def tightened(self):
        """With the equalities that follow from integers being bounded by one on both sides; None if there are none."""
        e = self.env()
        whole = []
        for lit in self.lits:
            if lit.op == 'eq':
                for m, z in (lit.args, lit.args[::-1]):
                    if z == 0 and isinstance(m, Term) and m.op == 'mod':
                        whole.append((norm(quo(*m.args), e), m.args))

        def positive(z):
            p = norm(z, e)
            return (self.bounds(p)[0] or 0) > 0 or any(q == p and positive(x) and positive(y) for q, (x, y) in whole)
        out = None
        for lit in self.lits:
            if lit.op != 'le' or not is_const(lit.args[1]) or lit.args[1] != 1 or not isinstance(lit.args[0], Term):
                continue
            p = norm(lit.args[0], e)
            for q, (x, y) in whole:
                if q == p and positive(x) and positive(y):
                    out = out or self.copy()
                    grown = True
                    while grown:
                        grown = False
                        for r, (u, v) in whole:
                            if r == norm(x, e):
                                x, y, grown = u, mul(y, v), True
                                break
                    out.assume(eq(x, y))
                    break
        return out

    def prove_finite(self, cond, limit=30000):
        """Exhaust the bounded variables of a condition and of the facts tied to them; True or None."""
        rng, where = {}, []
        for lit in self.lits:
            sub: set = set()
            atoms(lit, sub)
            where.append((lit, sub))
            if isinstance(lit, Term) and lit.op in ('le', 'lt'):
                x, y = lit.args
                s = lit.op == 'lt'
                if is_const(x) and isinstance(y, Term) and y.op == 'var':
                    lo, hi = rng.get(y, (None, None))
                    b = int(x) + s
                    rng[y] = (b if lo is None else max(lo, b)), hi
                elif is_const(y) and isinstance(x, Term) and x.op == 'var':
                    lo, hi = rng.get(x, (None, None))
                    b = int(y) - s
                    rng[x] = lo, (b if hi is None else min(hi, b))

        def dom(a):
            if not isinstance(a, Term) or a.op != 'var':
                return None
            if a.kind == 'bool':
                return [True, False]
            lo, hi = rng.get(a, (None, None))
            if a.kind != 'int' or lo is None or hi is None or hi - lo > 8:
                return None
            return list(range(lo, hi + 1))
        have: set = set()
        if cond is False:
            # are the facts possible at all
            for lit, sub in where:
                if len(sub) > 1 or isinstance(lit, Term) and lit.op == 'not':
                    have |= {a for a in sub if dom(a) is not None}
            have = set(sorted(have, key=repr)[:14])
        else:
            atoms(cond, have)
        if not have or any(dom(a) is None for a in have):
            return None
        grown = True
        while grown:
            grown = False
            for lit, sub in where:
                if sub & have and not sub <= have and all(dom(a) is not None for a in sub) and len(have | sub) <= 14:
                    have |= sub
                    grown = True
        order = sorted(have, key=repr)
        pos = {a: n for n, a in enumerate(order)}
        due: list = [[] for _ in order]
        for lit, sub in where:
            if sub and sub <= have:
                due[max(pos[a] for a in sub)].append(lit)
        goal: set = set()
        if cond is False:
            goal = have
        else:
            atoms(cond, goal)
        last = max(pos[a] for a in goal)
        budget = [limit]
        v: dict = {}

        def go(n):
            if n > last and cond is not False and evaluate(cond, v):
                return True
            if n == len(order):
                return False
            for x in dom(order[n]):
                budget[0] -= 1
                if budget[0] < 0:
                    return False
                v[order[n]] = x
                if all(evaluate(lit, v) for lit in due[n]) and not go(n + 1):
                    return False
            v.pop(order[n], None)
            return True
        try:
            return True if go(0) else None
        except Undef:
            return None

    def _by_cases(self, cond, limit=100):
        """Split over the values of the bounded variables a condition mentions."""
        names = []

        def atoms(t):
            if isinstance(t, Term):
                if t.op == 'var' and t not in names:
                    names.append(t)
                for a in t.args:
                    atoms(a)
        atoms(cond)
        n, doms = 1, []
        for v in names:
            if v.kind == 'bool':
                d = [v, lnot(v)]
            else:
                lo, hi = self.bounds(norm(v))
                if lo is None or hi is None or hi - lo > 8:
                    continue
                d = [eq(v, k) for k in range(int(lo), int(hi) + 1)]
            n *= len(d)
            doms.append(d)
        if not doms or n > limit:
            return None

        def go(f, k):
            c = f.decide(cond) if isinstance(cond, Term) else cond
            if c is True:
                return True
            if c is False or k == len(doms):
                return False
            for lit in doms[k]:
                g = f.copy()
                if isinstance(lit, Term) and not g.assume(lit):
                    continue
                if lit is False:
                    continue
                if not go(g, k + 1):
                    return False
            return True
        return True if go(self.copy(), 0) else None

    def _unfloor(self, p):
        """floor(x / y) as the exact (x - x mod y) / y."""
        for _ in range(4):
            hit = None
            for m in p:
                for b, _ in m:
                    if isinstance(b, Term) and b.op == 'fdiv':
                        hit = b
            if hit is None:
                break
            x, y = hit.args
            p = _subst(p, hit, norm(quo(sub(x, mod(x, y)), y), self.env()))
        return p

    def _signed(self, dens):
        out = []
        for d in dens:
            lo, hi = self.bounds(d)
            if lo is not None and lo > 0:
                out.append(d)
            elif hi is not None and hi < 0:
                out.append(pscale(d, -1))
            else:
                return None
        return out

    def _hyps(self, p):
        """Polynomials known to be at least zero."""
        e = self.env()
        out = []
        ats = set()

        def note(q):
            for m in q:
                for b, ex in m:
                    if isinstance(b, Term):
                        for z in _subterms(b):
                            if z.op == 'mod':
                                ats.add(z)
        note(p)
        for lit in self.lits:
            t, neg_ = lit, False
            if t.op == 'eq' and all(is_const(z) or z.kind == 'int' for z in t.args):
                q = padd(norm(t.args[1]), pscale(norm(t.args[0]), -1))
                u = self._unfloor(q)
                if u != q:
                    c, _ = clear(u)
                    note(c)
                    out.append(c)
                    out.append(pscale(c, -1))
                continue
            if t.op == 'not':
                t, neg_ = t.args[0], True
            if t.op not in ('lt', 'le') or not all(is_const(z) or z.kind == 'int' for z in t.args):
                continue
            x, y = t.args
            q = padd(norm(y, e), pscale(norm(x, e), -1))
            if neg_:
                q = pscale(q, -1)
                k = -1 if t.op == 'le' else 0
            else:
                k = -1 if t.op == 'lt' else 0
            q = self._unfloor(q)
            c, dens = clear(q)
            if dens:
                dens = self._signed(dens)
                if dens is None:
                    continue
                # integers: q >= 1 or q >= 0, times the denominators
                c = padd(q, {(): k} if k else {})
                for d in dens:
                    c = pmul(c, d)
                c, _ = clear(c)
            elif k:
                c = padd(c, {(): k})
            note(c)
            out.append(c)
        for a in sorted(ats, key=repr):
            y = a.args[1]
            yb = self.bounds(norm(y, e))[0]
            if yb is not None and yb > 0:
                na = norm(a, e)
                out.append(na)
                out.append(padd(padd(norm(y, e), pscale(na, -1)), {(): -1}))
        return [h for h in out if h and list(h) != [()]]

    def _positive(self, p, depth):
        """p >= 0 from known non-negative polynomials times non-negative monomials."""
        hyps = self._hyps(p)
        e = self.env()

        def leaf(q):
            lo, _ = self.bounds(q)
            return lo is not None and lo >= 0

        def nonneg(m):
            lo, _ = self._mono_bounds(m, e) if m else (1, 1)
            return lo is not None and lo >= 0
        seen = set()
        budget = [250]

        def go(q, d):
            budget[0] -= 1
            if leaf(q):
                return True
            if d == 0 or len(q) > 24 or budget[0] < 0:
                return False
            f = _freeze(q)
            if f in seen:
                return False
            seen.add(f)
            negs = [m for m, c in sorted(q.items(), key=lambda kv: repr(kv[0])) if c < 0 and m]
            for m in negs[:4]:
                for h in hyps:
                    for hm, hc in h.items():
                        if hc >= 0 or not hm:
                            continue
                        # multiplier monomial u with u * hm = m
                        inv_ = tuple((b, _freeze(pscale(_thaw(x), -1)) if isinstance(x, tuple) else -x) for b, x in hm)
                        u, k = _mmul(m, inv_)
                        if k != 1 or any((isinstance(x, tuple) and len(u) > 1) or (not isinstance(x, tuple) and x < 0) for _, x in u):
                            continue
                        if u and not nonneg(u):
                            continue
                        lam = Fraction(q[m]) / hc
                        if lam <= 0:
                            continue
                        if go(padd(q, pscale(pmul(h, {u: 1}), -lam)), d - 1):
                            return True
            return False
        return True if go(p, depth) else None

    # ------------------------------------------------------ counter-valuation

    def valuations(self, extra_terms=(), domains=None, limit=4000, seed=1, bools=None):
        """Valuations of all atoms that satisfy every fact."""
        ats = set()
        for lit in self.lits:
            atoms(lit, ats)
        for t in extra_terms:
            atoms(t, ats)
        ats = sorted(ats, key=repr)
        # atoms solved by equalities
        solved = []
        env = self.env()
        for a in ats:
            if a in env:
                solved.append(a)
        free = [a for a in ats if a not in env]
        rng = random.Random(seed)
        doms = []
        for a in free:
            if a.kind == 'bool':
                doms.append([True, False])
            else:
                d = None
                if domains:
                    d = domains(a)
                doms.append(list(d) if d is not None else [1, 2, 3, 0, 4, 5, 7, -1, -2])
        # which free atoms a literal depends on, through the solved ones too
        memo: dict = {}

        def deps(a, trail=()):
            if a in memo:
                return memo[a]
            if a not in env:
                r = {a}
            elif a in trail:
                r = set()
            else:
                r = set()
                sub: set = set()
                atoms(_nterm(env[a]), sub)
                for b in sub:
                    r |= deps(b, (*trail, a))
            memo[a] = r
            return r
        pos = {a: n for n, a in enumerate(free)}
        due: list = [[] for _ in range(len(free) + 1)]
        for lit in self.lits:
            sub: set = set()
            atoms(lit, sub)
            need = [pos[b] for a in sub for b in deps(a) if b in pos]
            due[max(need) + 1 if need else 0].append((lit, [a for a in sub if a in env]))
        need = {a: max([pos[b] for b in deps(a) if b in pos], default=-1) + 1 for a in solved}
        solve: list = [[] for _ in range(len(free) + 1)]
        for a in solved:
            solve[need[a]].append(a)

        def settle(v, depth):
            """Values of the solved atoms due at this depth; False when a fact fails."""
            pend = solve[depth]
            while pend:
                nxt = []
                for a in pend:
                    try:
                        x = evaluate(_nterm(env[a]), v)
                    except Undef:
                        nxt.append(a)
                        continue
                    if isinstance(x, Fraction):
                        if x.denominator != 1:
                            return False
                        x = int(x)
                    v[a] = x
                if len(nxt) == len(pend):
                    return False
                pend = nxt
            try:
                return all(evaluate(lit, v) for lit, _ in due[depth])
            except Undef:
                return False

        v: dict = {}
        if not settle(v, 0):
            return
        budget = [limit * 4]

        def go(depth):
            if depth == len(free):
                yield dict(v)
                return
            d = doms[depth]
            if total > limit:
                d = rng.sample(d, len(d))
            for x in d:
                if budget[0] <= 0:
                    return
                budget[0] -= 1
                v[free[depth]] = x
                if settle(v, depth + 1):
                    yield from go(depth + 1)
                for a in solve[depth + 1]:
                    v.pop(a, None)
            v.pop(free[depth], None)

        total = 1
        for d in doms:
            total *= len(d)
        if total <= limit:
            budget[0] = 1 << 60
            yield from go(0)
            return
        # restarts, so that one unlucky choice does not use up the search
        left = limit * 4
        while left > 0:
            budget[0] = min(left, max(60, 12 * len(free)))
            left -= budget[0]
            n = 0
            for found in go(0):
                yield found
                n += 1
                if n >= 8:
                    break
            v.clear()
            settle(v, 0)

    def refute(self, cond, domains=None, limit=4000, seed=1, extra=()):
        """A valuation on which the facts hold and cond does not, or None."""
        for v in self.valuations((cond, *extra), domains, limit, seed):
            try:
                if not evaluate(cond, v):
                    return v
            except Undef:
                continue
        return None


def _occurs(a, m):
    for b, e in m:
        if b is a:
            return True
        if isinstance(b, Term) and a in _subterms(b):
            return True
        if isinstance(e, tuple) and any(_occurs(a, mm) for mm, _ in e):
            return True
    return False


def _occurs_poly(a, p):
    return any(_occurs(a, m) for m in p)


_sub_cache: dict = {}


def _subterms(t):
    s = _sub_cache.get(t)
    if s is None:
        s = {t}
        for x in t.args:
            if isinstance(x, Term):
                s |= _subterms(x)
        _sub_cache[t] = s
    return s


def _subst(p, a, v):
    return norm(_nterm(p), {a: v})
