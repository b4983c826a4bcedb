"""Remainders of counts (tm/num.py).

Exponents and the parts of sums, products and quotients are abstracted to
residue classes: what is known of one is a modulus, the residues still possible
and bounds.  Asking for a remainder splits over the residues possible.
"""

from __future__ import annotations

import math

from . import terms as T
from .pyai import Obj, Cls, Func, PyExc, Undecided, Infeasible, Fake, Native, explore
from .num_ai import MODNAME, repo

SPLIT = 400
CANDIDATES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 18, 24, 29, 31, 36, 53, 64, 97)


class RNum(Obj):
    def __init__(self, cls, name, lo=None):
        super().__init__(cls, {})
        self.name = name
        self.mod, self.res = 1, frozenset([0])
        self.lo, self.hi = lo, None
        self.is_int = None
        self.value = None
        self.asked = []             # (modulus, symbolic remainder)

    def __repr__(self):
        b = '' if self.lo is None else f', >= {self.lo}'
        return f'<{self.name} = {sorted(self.res)[:4]} mod {self.mod}{b}>'

    def members(self, count, start=None):
        """The first `count` possible values from start on."""
        lo = self.lo if self.lo is not None else 0
        out, v = [], lo if start is None else max(lo, start)
        while len(out) < count and (self.hi is None or v <= self.hi):
            if v % self.mod in self.res:
                out.append(v)
            v += 1
        return out


class Domain:
    def __init__(self, i):
        self.i = i
        i.binop_hook = self.binop
        i.cmp_hook = self.compare
        i.isinstance_hook = self.isinstance
        i.attr_hook = self.attr
        i.truth_hook = lambda i2, v: True if isinstance(v, RNum) and (v.lo or 0) > 0 else NotImplemented
        self.mod = i.load(MODNAME)
        self.v = self.mod.env.vars
        self.Num = self.v['Num']

    def count(self, name, lo=None):
        return RNum(self.Num, name, lo)

    def remainder(self, n, p):
        if n.value is not None:
            return n.value % p
        if p == 1:
            return 0
        for q, r in n.asked:
            if q == p:
                return r
        if p > SPLIT:
            r = T.var(f'{n.name} mod {p}')
            self.i.assume(T.le(0, r))
            self.i.assume(T.lt(r, p))
            n.asked.append((p, r))
            return r
        L = math.lcm(n.mod, p)
        by = {}
        for x in n.res:
            for y in range(x, L, n.mod):
                by.setdefault(y % p, set()).add(y)
        keys = sorted(by)
        k = keys[self.i.choose_n(len(keys), f'{n.name} mod {p} in {keys[:6]}')]
        n.mod, n.res = L, frozenset(by[k])
        return k

    def fix(self, n):
        if n.value is None:
            c = [v for v in CANDIDATES if v % n.mod in n.res and (n.lo is None or v >= n.lo) and (n.hi is None or v <= n.hi)]
            if not c:
                raise Undecided('no candidate exponent')
            n.value = c[self.i.choose_n(len(c), f'{n.name} in {c[:6]}')]
            for p, r in n.asked:
                self.i.assume(T.eq(r, n.value % p))
            n.mod, n.res = n.mod, frozenset([n.value % n.mod])
            n.lo = n.hi = n.value
        return n.value

    def binop(self, i, op, l, r):
        if isinstance(l, RNum) and isinstance(r, int) and r > 0:
            if op == '%':
                return self.remainder(l, r)
            if op in ('//', '>>', '&'):
                return i.arith(op, self.fix(l), r)
        if isinstance(l, RNum) or isinstance(r, RNum):
            if op == 'divmod':
                raise Undecided('divmod')
            ints = [x for x in (l, r) if isinstance(x, RNum)]
            if all(x.is_int for x in ints):
                a, b = [self.fix(x) if isinstance(x, RNum) else x for x in (l, r)]
                return i.binop(op, a, b)
            raise Undecided(f'{op} on a count')
        return NotImplemented

    def compare(self, i, op, l, r):
        if not (isinstance(l, RNum) or isinstance(r, RNum)):
            return NotImplemented
        if isinstance(r, RNum) and isinstance(l, int) and op in ('<', '<=', '>', '>='):
            return self.compare(i, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op], r, l)
        if isinstance(l, RNum) and isinstance(r, int):
            if op == '==':
                return self.equals(l, r)
            c = {'<': r, '<=': r + 1, '>': r + 1, '>=': r}[op]      # below c or not
            neg = op in ('>', '>=')
            if l.lo is not None and l.lo >= c:
                return neg
            if l.hi is not None and l.hi < c:
                return not neg
            if i.choose_n(2, f'{l.name} {op} {r}') == 0:
                l.lo = c
                return neg
            l.hi = c - 1
            return not neg
        if isinstance(r, RNum) and isinstance(l, int) and op == '==':
            return self.equals(r, l)
        if l is r:
            return op in ('==', '<=', '>=')
        raise Undecided(f'{l!r} {op} {r!r}')

    def equals(self, n, c):
        if n.value is not None:
            return n.value == c
        if (n.lo is not None and c < n.lo) or (n.hi is not None and c > n.hi) or c % n.mod not in n.res:
            return False
        if n.is_int is False:
            return False
        if self.i.choose_n(2, f'{n.name} == {c}') == 0:
            n.is_int = True
            n.value, n.lo, n.hi = c, c, c
            n.res = frozenset([c % n.mod])
            return True
        return False

    def isinstance(self, i, v, c):
        if not isinstance(v, RNum):
            return NotImplemented
        if c is int:
            if v.is_int is None:
                v.is_int = i.choose_n(2, f'{v.name} is an int') == 0
            return v.is_int
        if isinstance(c, Cls):
            if c is self.Num:
                return not self.isinstance(i, v, int)
            raise Undecided('class of a part')
        return NotImplemented

    def attr(self, i, o, name):
        if isinstance(o, RNum):
            if name in ('depth', 'leaves', 'tower_est'):
                d = T.var(f'{o.name}.{name}')
                i.assume(T.le(1, d))
                return d
            if name in o.f:
                return o.f[name]
            raise Undecided(f'{name} of a part')
        return NotImplemented


def power_values(base, mod, e, want=None):
    """Residues base**k mod `mod` takes over the k possible for e; None if there is no such k."""
    seen, x = {}, 1 % mod
    k = 0
    while x not in seen:
        seen[x] = k
        x = x * base % mod
        k += 1
    pre, per = seen[x], k - seen[x]
    span = math.lcm(per, e.mod) // e.mod * len(e.res) + len(e.res) + 1
    out = set()
    for k in e.members(span) + (e.members(span, pre) if e.hi is None else []):
        if e.is_int is False and k < 1:
            continue
        out.add(pow(base, k, mod))
    return out


def value_of(facts, t, lo, hi):
    """The constant a term must have, if one."""
    if isinstance(t, int):
        return t
    t = facts.norm(t)
    return t if isinstance(t, int) else None


def constant(p, r):
    v = p.facts.norm(r) if not isinstance(r, int) else r
    if isinstance(v, int):
        return v
    lo, hi = p.facts.bounds(v)
    return lo if lo is not None and lo == hi else None


def explore_(rep, body, rule, **kw):
    for p in explore(repo(), body, hooks={f'{MODNAME}.show_number': lambda i, a, k: '?'}, max_iter=5000,
                     max_steps=400000, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        if p.undecided:
            rep.unknown(rule, p.undecided)
            continue
        yield p


def exp_mod(rep, base, mod, tables=False):
    rule = 'num:remainder of a power' if not tables else 'num:table of powers'
    where = f'{MODNAME}.Exp.__mod__' if not tables else f'{MODNAME}.exp_mod_special_cases'

    def body(i):
        d = Domain(i)
        e = d.count('exponent')
        if tables:
            e.is_int, e.lo = False, 2
            return e, i.call(d.v['exp_mod_special_cases'], [mod, base, e])
        e.lo = 1
        s = Obj(d.v['Exp'], {})
        s.f.update(base=base, exp=e)
        for a in ('depth', 'leaves', 'tower_est'):
            s.f[a] = T.var(f's.{a}')
        f, _ = d.v['Exp'].find('__mod__')
        return e, i.call_func(f, [s, mod], {})

    answered = 0
    for p in explore_(rep, body, rule, max_paths=8000):
        if p.exc:
            continue                # refuses to answer
        e, r = p.result
        answered += 1
        if isinstance(r, T.Term):
            r = constant(p, r)
        if not isinstance(r, int):
            rep.unknown(rule, f'result {r!r}')
            continue
        asked = [(q, constant(p, x)) for q, x in e.asked]
        if any(x is None for q, x in asked):
            rep.unknown(rule, 'exponent not determined')
            continue
        if asked:
            want = set()
            for q, x in asked:
                # any exponent of that residue, taken far along
                far = x + q * (-(-64 // q)) if q < 64 else x + q
                want.add(pow(base, far, mod) if q % order_after(base, mod, q) == 0 else -1)
        else:
            want = power_values(base, mod, e)
        if not want:
            continue
        if want == {r}:
            rep.ok(rule)
        else:
            rep.bad(rule, where, f'{base} ** {e!r} % {mod} answered {r}, where {sorted(want)[:4]} is right'
                    + (f' (exponent = {asked})' if asked else '') + f', on {p.describe()}'[:300])
        rep.sample(f'{base} ** {e!r} % {mod} -> {r}')
    return answered


def order_after(base, mod, q):
    """1 if base ** (k + q) = base ** k (mod) from some k on, else 2."""
    far = mod.bit_length() + 1
    return 1 if pow(base, far, mod) == pow(base, far + q, mod) else q + 1


def parts(rep):
    """Add, Mul, Div: from remainders of the parts to the remainder of the whole."""
    rule = 'num:remainder of a sum, product or quotient'
    for kind in ('Add', 'Mul', 'Div'):
        for m in (1, 2, 3, 4, 5, 6, 7, 8):
            for q in ((2, 3, 4, 6) if kind == 'Div' else (0,)):
                where = f'{MODNAME}.{kind}.__mod__'

                def body(i):
                    d = Domain(i)
                    s = Obj(d.v[kind], {})
                    for a in ('depth', 'leaves', 'tower_est'):
                        s.f[a] = T.var(f's.{a}')
                    if kind == 'Div':
                        n = d.count('n')
                        n.is_int = False
                        n.mod, n.res = q, frozenset([0])
                        s.f.update(num=n, den=q)
                        ops = [n]
                    else:
                        l, r = d.count('l'), d.count('r')
                        r.is_int = False
                        s.f.update(l=l, r=r)
                        ops = [l, r]
                    f, _ = d.v[kind].find('__mod__')
                    return ops, i.call_func(f, [s, m], {})

                for p in explore_(rep, body, rule):
                    if p.exc:
                        if p.exc.name == 'AssertionError':
                            rep.bad(rule, where, f'asserts on {p.describe()}')
                        continue
                    ops, r = p.result
                    if kind == 'Div':
                        n = ops[0]
                        L = math.lcm(n.mod, m * q)
                        want = {x // q % m for x in range(L) if x % n.mod in n.res}
                    else:
                        rs = []
                        for o in ops:
                            L = math.lcm(o.mod, m)
                            rs.append({x % m for x in range(L) if x % o.mod in o.res})
                        f = (lambda a, b: (a + b) % m) if kind == 'Add' else (lambda a, b: a * b % m)
                        want = {f(a, b) for a in rs[0] for b in rs[1]}
                    if want == {r}:
                        rep.ok(rule)
                    else:
                        rep.bad(rule, where, f'remainder by {m} answered {r} where {sorted(want)} is right, for {ops}')


def powers(rep):
    """Exp: every base and modulus in range, every exponent."""
    mods = list(range(1, 41)) + [48, 54, 60, 64, 72, 81, 96, 128, 162]
    for base in (2, 3, 5, 6, 7, 10, 11, 12, 13):
        for m in mods:
            exp_mod(rep, base, m)


def tables(rep):
    n = 0
    for k in range(1, 30):
        n += exp_mod(rep, 2, 2 * 3 ** k, tables=True)
    for m in (10, 12, 50, 64, 100, 108, 2 * 3 ** 5 + 2):
        exp_mod(rep, 2, m, tables=True)
    for m in (54, 162):
        exp_mod(rep, 3, m, tables=True)
        exp_mod(rep, 5, m, tables=True)
    return n


def periods(rep):
    """find_period: zero, or a power of the base that is one."""
    rule = 'num:period'
    for base in (2, 3, 4, 5, 6, 7, 9, 10, 12):
        for m in range(3, 64):
            def body(i):
                d = Domain(i)
                return i.call(d.v['find_period'], [base, m])
            for p in explore_(rep, body, rule):
                if p.exc:
                    continue
                r = p.result
                if r == 0 or (isinstance(r, int) and r > 0 and pow(base, r, m) == 1):
                    rep.ok(rule)
                else:
                    rep.bad(rule, f'{MODNAME}.find_period', f'{base} has no period {r} modulo {m}')


def divisors(rep):
    """gcd: what it answers divides both."""
    rule = 'num:common divisor'
    where = f'{MODNAME}.gcd'

    def part(d, name):
        n = d.count(name)
        n.divisor = None
        return n

    def hook(i, a, k):
        l, r = a
        if not isinstance(r, RNum) or not isinstance(l, int):
            return NotImplemented
        if r.is_int:
            return NotImplemented
        ds = [x for x in range(1, l + 1) if l % x == 0]
        # a larger answer to the same question is never smaller than a known one
        x = ds[i.choose_n(len(ds), f'gcd({l}, {r.name})')]
        r.divisor = math.lcm(r.divisor or 1, x)
        return x

    for l in (1, 2, 3, 4, 6, 8, 9, 12, 16, 18, 27, 36, 243):
        for kind in ('Add', 'Mul', 'Exp'):
            for base in ((2, 3, 6, 7) if kind == 'Exp' else (0,)):
                def body(i):
                    d = Domain(i)
                    s = Obj(d.v[kind], {})
                    for a in ('depth', 'leaves', 'tower_est'):
                        s.f[a] = T.var(f's.{a}')
                    if kind == 'Exp':
                        e = d.count('exponent')
                        e.lo = 1
                        s.f.update(base=base, exp=e)
                        ops = [e]
                    else:
                        ops = [part(d, 'l'), part(d, 'r')]
                        for o in ops:
                            o.is_int = False
                        s.f.update(l=ops[0], r=ops[1])
                    return ops, i.call(d.v['gcd'], [l, s])

                for p in explore(repo(), body, hooks={f'{MODNAME}.gcd': hook}, max_iter=200):
                    rep.paths += 1
                    rep.units.update(p.i.visited)
                    if p.undecided:
                        rep.unknown(rule, p.undecided)
                        continue
                    if p.exc:
                        continue
                    ops, g = p.result
                    if isinstance(g, RNum):
                        g = g.value
                    if not isinstance(g, int) or g <= 0:
                        rep.unknown(rule, f'result {g!r}')
                        continue
                    if kind == 'Exp':
                        # if it divides the least power possible it divides all
                        # an exponent that is itself an expression is taken to be large
                        es = ops[0].members(3, 64 if ops[0].is_int is False else None)
                        ok = l % g == 0 and all(base ** x % g == 0 for x in es)
                    elif kind == 'Add':
                        dl, dr = ops[0].divisor or 1, ops[1].divisor or 1
                        ok = l % g == 0 and dl % g == 0 and dr % g == 0
                    else:
                        dl, dr = ops[0].divisor or 1, ops[1].divisor or 1
                        ok = l % g == 0 and dl * dr % g == 0
                    if ok:
                        rep.ok(rule)
                    else:
                        name = {'Add': 'a sum', 'Mul': 'a product', 'Exp': 'a power'}[kind]
                        rep.bad(rule, f'{where} of {name}' if kind != 'Add' or not known_min(ops, g) else f'{where} of a sum, least',
                                f'gcd({l}, {kind}) answered {g} for {ops}, on {p.describe()}'[:500])


def known_min(ops, g):
    """The recorded defect: of two partial divisors neither dividing the other, the smaller is answered."""
    dl, dr = ops[0].divisor or 1, ops[1].divisor or 1
    return g == min(dl, dr) and max(dl, dr) % g != 0


def check(rep):
    if 'gcd' in repo_names():
        divisors(rep)
    parts(rep)
    if 'find_period' in repo_names():
        periods(rep)
    powers(rep)
    if 'exp_mod_special_cases' in repo_names():
        tables(rep)


def repo_names():
    import ast
    return {n.name for n in repo().tree(MODNAME).tree.body if isinstance(n, ast.FunctionDef)}
