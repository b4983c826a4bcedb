"""C04/C05/C06: the operators of tm/num.py."""

from __future__ import annotations

import os
import re

from . import terms as T
from .terms import Term
from .pyai import Obj, Cls, Func, Bound, PyExc, Undecided, explore, PList
from .num_ai import (NumDomain, SNum, den, contracts, domains, big_domains, repo, KINDS, MODNAME)

ARITH = {
    '__add__': ('count', lambda s, o: T.add(s, o)),
    '__radd__': ('int', lambda s, o: T.add(o, s)),
    '__sub__': ('count', lambda s, o: T.sub(s, o)),
    '__rsub__': ('count', lambda s, o: T.sub(o, s)),
    '__mul__': ('count', lambda s, o: T.mul(s, o)),
    '__rmul__': ('int', lambda s, o: T.mul(o, s)),
    '__floordiv__': ('count', lambda s, o: T.quo(s, o)),
    '__neg__': (None, lambda s, o: T.neg(s)),
    '__pow__': ('count', lambda s, o: T.power(s, o)),
    '__rpow__': ('base', lambda s, o: T.power(o, s)),
    '__int__': (None, lambda s, o: s),
    '__divmod__': ('posint', None),
}


def method_paths(rep, kind, name, okind, setup=None, max_paths=6000, order_raises=True, hooks_skip=()):
    """Interpret class `kind`'s method `name` on an abstract self and other."""

    def body(i):
        x = NumDomain(i, order_raises=order_raises)
        c = x.cls[kind]
        f, owner = c.find(name)
        if f is None or not isinstance(f, Func):
            raise Undecided(f'no {name}')
        s = x.fresh('self', kind=kind)
        args = [s]
        if okind == 'count':
            o = x.fresh('other')
            args.append(o)
        elif okind == 'int':
            o = T.var('other')
            args.append(o)
        elif okind == 'posint':
            o = T.var('m')
            i.assume(T.le(1, o))
            args.append(o)
        elif okind == 'base':
            o = T.var('other.base')
            i.assume(T.le(2, o))
            args.append(o)
        else:
            o = None
        if setup:
            setup(i, x, s, o)
        x.divisions.clear()
        r = i.call_func(f, args, {})
        x.result_divisions = list(x.divisions)
        return s, o, r

    for p in explore(repo(), body, max_paths=max_paths, hooks=contracts(hooks_skip), max_iter=4, max_rec=2):
        rep.paths += 1
        rep.units.update(p.i.visited)
        yield p


def arithmetic(rep, only=None):
    found = 0
    for kind in KINDS:
        for name, (okind, spec) in ARITH.items():
            if only and only != (kind, name):
                continue
            if name == '__pow__' and kind != 'Exp':
                continue
            rule = f'num:{name.strip("_")}'

            def setup(i, x, s, o):
                if name == '__floordiv__':
                    i.assume(T.ne(den(o), 0))
                    i.assume(T.eq(T.mod(den(s), den(o)), 0))
                    i.assume(T.le(1, den(o)))
                if name == '__pow__':
                    i.assume(T.le(1, den(o)))
            for p in method_paths(rep, kind, name, okind, setup):
                c = f'{MODNAME}.{kind}.{name}'
                if p.undecided:
                    if p.undecided.startswith('no __'):
                        continue
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    continue            # refuses to answer
                found += 1
                s, o, r = p.result
                if name == '__divmod__':
                    if not isinstance(r, tuple) or len(r) != 2:
                        rep.unknown(rule, 'result is not a pair')
                        continue
                    q, m = den(r[0]), den(r[1])
                    if q is None or m is None:
                        rep.unknown(rule, 'no denotation')
                        continue
                    cond = T.land(T.eq(T.add(T.mul(q, den(o)), m), den(s)), T.le(0, m), T.lt(m, den(o)))
                else:
                    d = den(r)
                    if d is None:
                        rep.unknown(rule, f'no denotation: {r!r}')
                        continue
                    cond = T.eq(d, spec(den(s), den(o) if o is not None else None))
                for a, b, _ in p.i.num_domain.result_divisions:
                    rep.oblige('num:only exact quotients are taken', c, p.facts, T.eq(T.mod(a, b), 0),
                               lambda: f'{a!r} is divided by {b!r} on {p.describe()}', domains,
                               # gcd is known to be a common divisor only: what it makes of that is not refuted
                               **({'limit': 0} if ' on a part' in p.describe() or re.search(r'\bg\d', repr((a, b))) else {}))
                want = '' if name == '__divmod__' else f', not {spec(den(s), den(o) if o is not None else None)!r}'
                # where a predicate beyond the recursion bound was left open, the path may not exist
                rep.oblige(rule, c, p.facts, cond,
                           lambda: f'result denotes {r!r}{want} on {p.describe()}', domains,
                           **({'limit': 0} if ' on a part' in p.describe() else {}))
                rep.sample(f'{c}: {p.describe()} -> {r!r}')
    return found


def functions(rep):
    """make_add, make_mul, make_div, make_exp, add_exponents, constructors."""
    rule = 'num:constructors'

    def run(fname, mkargs, spec, skip, setup=None, c=None):
        def body(i):
            x = NumDomain(i)
            args = mkargs(i, x)
            if setup:
                setup(i, x, args)
            r = i.call(x.v[fname], args)
            return args, r
        for p in explore(repo(), body, hooks=ctor_hooks(skip), max_iter=4, max_rec=2, max_paths=3000):
            rep.paths += 1
            rep.units.update(p.i.visited)
            if p.undecided:
                rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                continue
            args, r = p.result
            d = den(r)
            if d is None:
                rep.unknown(rule, f'no denotation {r!r}')
                continue
            rep.oblige(rule, f'{MODNAME}.{fname}', p.facts, T.eq(d, spec(*args)),
                       lambda: f'denotes {r!r}, not {spec(*args)!r} on {p.describe()}', domains)

    run('make_add', lambda i, x: [x.fresh('l'), x.fresh('r', kinds=KINDS)],
        lambda l, r: T.add(den(l), den(r)), ('make_add',))
    run('make_mul', lambda i, x: [x.fresh('l'), x.fresh('r', kinds=KINDS)],
        lambda l, r: T.mul(den(l), den(r)), ('make_mul',))

    def divargs(i, x):
        d = T.var('q.den')
        i.assume(T.le(2, d))
        return [x.fresh('n', kinds=KINDS), d]
    run('make_div', divargs, lambda n, d: T.quo(den(n), d), ('make_div',))
    run('add_exponents', lambda i, x: [(x.fresh('E', kind='Exp'), x.fresh('p')), (x.fresh('F', kind='Exp'), x.fresh('q'))],
        lambda l, r: T.add(T.mul(den(l[0]), den(l[1])), T.mul(den(r[0]), den(r[1]))), ('add_exponents',))

    # make_exp: the base is rewritten; checked for every base in a range
    bases = list(range(2, 130)) + [144, 196, 216, 225, 256, 343, 400, 441, 512, 625, 729, 1000, 1024, 1296, 2401,
                                  4096, 6561, 10000, 2 ** 15, 2 ** 16, 3 ** 10, 6 ** 6, 2 ** 20, 2 ** 26, 10 ** 8,
                                  (2 ** 26 + 1) ** 2, 2 ** 53 + 1, 2 ** 54 + 2, 2 ** 60 + 1, (10 ** 9 + 7) ** 2,
                                  (2 ** 40 + 1) ** 2, 3 ** 40, 3 ** 41]
    for b in bases:
        run('make_exp', lambda i, x, b=b: [b, expcount(i, x)],
            lambda base, e: T.power(base, den(e)), ('make_exp',))


def expcount(i, x):
    e = x.fresh('e.exp')
    i.assume(T.le(1, e.den))
    return e


def ctor_hooks(skip):
    """Contracts, but Add/Mul/Div/Exp constructors build the denotation."""
    h = contracts(skip)

    def mk(kind, f):
        def hook(i, a, k):
            x = i.num_domain
            names = {'Add': ('l', 'r'), 'Mul': ('l', 'r'), 'Div': ('num', 'den'), 'Exp': ('base', 'exp')}[kind]
            a = list(a) + [k[n] for n in names[len(a):]]
            s = SNum(f'{kind.lower()}{x.n}', f(*a), x.cls[kind])
            x.n += 1
            s.f.update(zip(names, a))
            return s
        return hook
    h[f'{MODNAME}.Add'] = mk('Add', lambda l, r: T.add(den(l), den(r)))
    h[f'{MODNAME}.Mul'] = mk('Mul', lambda l, r: T.mul(den(l), den(r)))
    h[f'{MODNAME}.Div'] = mk('Div', lambda n, q: T.quo(den(n), den(q)))
    h[f'{MODNAME}.Exp'] = mk('Exp', lambda b, e: T.power(den(b), den(e)))
    return h
