"""Applying a rule (tm/rules.py) against applying it one application at a time."""

from __future__ import annotations

import itertools

from . import terms as T
from .terms import Term
from .pyai import Obj, PList, PDict, Undecided, explore
from .num_ai import NumDomain, SNum, den, contracts, domains, repo, KINDS

RULES = 'tm.rules'

LAYOUT = [(0, 0), (1, 0), (0, 1), (1, 1)]


def dom(a):
    if a.kind == 'bool':
        return None
    n = a.args[0]
    if n.startswith('c.'):
        return [1, 2, 3, 4, 5, 6, 7, 8, 12, 13]
    if n.startswith('dneg'):
        return [-1, -2, -3, -4]
    if n.startswith('dpos'):
        return [0, 1, 2, 3]
    if n.startswith('mul'):
        return [2, 3, 4]
    if n.startswith('add'):
        return [0, 1, -1, 2, -2]
    if n.startswith('times'):
        return [1, 2, 3, 4]
    return domains(a)


def tape_of(i, cells):
    """A tape object whose runs carry the given counts; {(side, pos): count}."""
    env = i.load('tm.tape').env.vars
    t = Obj(env['Tape'])
    spans = ([], [])
    for side in (0, 1):
        n = 1 + max([p for s, p in cells if s == side], default=-1)
        for p in range(n):
            b = Obj(env['Block'])
            b.f['color'] = T.var(f'col{side}{p}')
            b.f['count'] = cells[(side, p)]
            spans[side].append(b)
    t.f['lspan'], t.f['rspan'] = PList(spans[0]), PList(spans[1])
    t.f['scan'] = T.var('scan')
    return t


def read(t):
    return {(s, p): b.f['count'] for s, k in ((0, 'lspan'), (1, 'rspan')) for p, b in enumerate(t.f[k].items)}


def closed(c, t, mul, add):
    e = T.power(mul, t)
    return T.add(T.mul(c, e), T.quo(T.mul(add, T.sub(e, 1)), T.sub(mul, 1)))


def application(rep):
    rule = 'py:apply-rule'
    shapes = [s for n in (0, 1, 2, 3) for s in itertools.product('np', repeat=n)]
    shapes += [('n', 'o'), ('o', 'n'), ('n', 'm'), ('m', 'n'), ('n', 'm', 'p'), ('m',)]
    for shape in shapes:
        for ints in ((True, False) if len(shape) < 3 else (True,)):
            def body(i):
                x = NumDomain(i)
                cells = {}
                for k, pos in enumerate(LAYOUT):
                    c = x.fresh(f'c.{k}', kind='int' if ints or k >= 2 else None, kinds=('int',) + KINDS)
                    i.assume(T.le(1, c.den))
                    cells[pos] = c.den if c.cls == 'int' else c
                t = tape_of(i, cells)
                items = []
                for k, kind in enumerate(shape):
                    if kind == 'n':
                        d = T.var(f'dneg{k}')
                        i.assume(T.le(d, -1))
                        if not ints and isinstance(cells[LAYOUT[k]], SNum):
                            # an expression is larger than the amounts rules take away
                            i.assume(T.lt(T.neg(d), den(cells[LAYOUT[k]])))
                    elif kind == 'p':
                        d = T.var(f'dpos{k}')
                        i.assume(T.le(0, d))
                    elif kind == 'o':
                        # each operation sequence takes the run to itself plus an amount
                        v = T.var(f'add{k}')
                        d = (('+', v), ('+', 1))
                        i.hooks[f'{RULES}.apply_ops'] = lambda i2, a, kw: i2.num_domain.result(
                            T.add(den(a[0]), T.mul(den(a[1]), T.add(a[2][0][1], 1))))
                    else:
                        d = (T.var(f'mul{k}'), T.var(f'add{k}'))
                        i.assume(T.le(2, d[0]))
                    items.append((LAYOUT[k], d))
                rl = PDict()
                for k, v in items:
                    i.setitem(rl, k, v)
                r = i.call(i.load(RULES).env.vars['apply_rule'], [rl, t])
                return cells, items, t, r
            for p in explore(repo(), body, max_paths=3000, hooks=contracts(), max_iter=6, max_rec=2):
                rep.paths += 1
                rep.units.update(p.i.visited)
                where = f'{RULES}.apply_rule'
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    if p.exc.name in ('RuleLimit', 'NotImplementedError', 'ZeroDivisionError', 'AssertionError'):
                        continue
                    rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', dom)
                    continue
                cells, items, t, r = p.result
                after = read(t)
                neg = [(pos, d) for (pos, d), k in zip(items, shape) if k == 'n']
                unchanged = T.land(*[T.eq(den(after[pos]), den(c)) for pos, c in cells.items()])
                show = f'rule {items} on {cells}'
                if r is None:
                    rep.oblige(rule, where + ' (refused)', p.facts, unchanged,
                               f'{show}: refused but the counts became {after}', dom)
                    if neg:
                        rep.oblige(rule, where + ' (refused)', p.facts,
                                   T.lor(*[T.le(T.add(den(cells[pos]), d), 0) for pos, d in neg]),
                                   f'{show}: refused although it applies once', dom)
                    continue
                times = den(r)
                if times is None:
                    rep.unknown(rule, f'times {r!r}')
                    continue
                if not neg:
                    rep.oblige(rule, where, p.facts, False, f'{show}: applied {times!r} times with nothing to bound it', dom)
                    continue
                conds = [('at least once', T.le(1, times))]
                for pos, d in neg:
                    conds.append((f'run {pos} stays at least 1', T.le(1, T.add(den(cells[pos]), T.mul(d, times)))))
                conds.append(('no further application fits',
                              T.lor(*[T.le(T.add(den(cells[pos]), T.mul(d, T.add(times, 1))), 0) for pos, d in neg])))
                for (pos, d), k in zip(items, shape):
                    c = den(cells[pos])
                    if k == 'm':
                        want = closed(c, times, *d)
                    elif k == 'o':
                        want = T.add(c, T.mul(times, T.add(d[0][1], 1)))
                    else:
                        want = T.add(c, T.mul(d, times))
                    conds.append((f'run {pos} is {want!r}', T.eq(den(after[pos]), want)))
                for pos, c in cells.items():
                    if pos not in [q for q, _ in items]:
                        conds.append((f'run {pos} unchanged', T.eq(den(after[pos]), den(c))))
                for what, cond in conds:
                    rep.oblige(rule, f'{where} ({what.split(" is ")[0].split(" (")[0]})', p.facts, cond,
                               lambda: f'{show}: applied {times!r} times leaving {after}; required: {what}', dom)


def mult(rep):
    rule = 'py:apply-mult'
    for tk in ('int', 'num', 1, 2):
        def body(i):
            x = NumDomain(i)
            c = x.fresh('c.0')
            i.assume(T.le(1, c.den))
            mul, add = T.var('mul'), T.var('add')
            i.assume(T.le(2, mul))
            if isinstance(tk, int):
                times = tk
            elif tk == 'int':
                times = T.var('times')
                i.assume(T.le(1, times))
            else:
                times = x.fresh('times', kinds=KINDS)
                i.assume(T.le(2, times.den))
            r = i.call(i.load(RULES).env.vars['apply_mult'], [c, times, mul, add])
            return c, times, mul, add, r
        for p in explore(repo(), body, max_paths=2000, hooks=contracts(), max_iter=4, max_rec=2):
            rep.paths += 1
            rep.units.update(p.i.visited)
            if p.undecided:
                rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                continue
            c, times, mul, add, r = p.result
            if den(r) is None:
                rep.unknown(rule, f'result {r!r}')
                continue
            want = closed(den(c), den(times), mul, add)
            rep.oblige(rule, f'{RULES}.apply_mult', p.facts, T.eq(den(r), want),
                       lambda: f'{times!r} applications of (x -> {mul!r} x + {add!r}) to {c!r} give {den(r)!r}, not {want!r}', dom)


OPCODES = {
    '+': lambda v, n: T.add(v, n),
    '*': lambda v, n: T.mul(v, n),
    '//': lambda v, n: T.quo(v, n),
    '**': lambda v, n: T.power(n, v),
}


def opseq(rep):
    rule = 'py:apply-ops'
    seqs = [('+',), ('*',), ('//',), ('**',), ('~',), ('~', '+'), ('+', '~', '+', '**'), ('*', '+'), ('+', '*'), ('~', '*', '+'), ('//', '+')]
    for seq in seqs:
        for times in (1, 2):
            if times == 2 and ('~' in seq or '**' in seq or len(seq) > 1):
                continue

            def body(i):
                x = NumDomain(i)
                c = x.fresh('c.0', kind='Exp' if seq[0] == '~' else None)
                i.assume(T.le(1, c.den))
                ops, want, top = [], den(c), c
                for k, o in enumerate(seq):
                    if o == '~':
                        ops.append(('~', T.var('base')))
                        if k == 0:
                            want = den(x_field(i, c, 'exp'))
                        else:
                            want = None
                        continue
                    v = T.var(f'add{k}' if o == '+' else f'mul{k}')
                    if o != '+':
                        i.assume(T.le(2, v))
                    ops.append((o, v))
                    if want is not None:
                        if o == '//':
                            i.assume(T.eq(T.mod(want, v), 0))
                            if times == 2:
                                i.assume(T.eq(T.mod(T.quo(want, v), v), 0))
                        for _ in range(times):
                            want = OPCODES[o](want, v)
                r = i.call(i.load(RULES).env.vars['apply_ops'], [c, times, tuple(ops)])
                return c, ops, want, r
            for p in explore(repo(), body, max_paths=1000, hooks=contracts(), max_iter=6, max_rec=2):
                rep.paths += 1
                rep.units.update(p.i.visited)
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    continue
                c, ops, want, r = p.result
                if want is None or den(r) is None:
                    rep.unknown(rule, 'no reference value')
                    continue
                rep.oblige(rule, f'{RULES}.apply_ops', p.facts, T.eq(den(r), want),
                           lambda: f'{times} applications of {ops} to {c!r} give {den(r)!r}, not {want!r}', dom)


def x_field(i, o, name):
    return i.getattr(o, name)


def check(rep):
    application(rep)
    mult(rep)
    opseq(rep)
