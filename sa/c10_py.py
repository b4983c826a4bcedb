"""Inferring rules from observed counts (tm/rules.py)."""

from __future__ import annotations

import itertools

from . import terms as T
from .terms import Term
from .pyai import PList, PDict, PyExc, Undecided, explore, Cls
from .num_ai import NumDomain, SNum, den, contracts, repo, KINDS, domains as ndom
from .c09_py import OPCODES, dom as cdom
from .c02_py import flat

RULES = 'tm.rules'
REFUSALS = ('UnknownRule', 'SuspectedRule', 'RuleLimit', 'InfiniteRule', 'AssertionError', 'NotImplementedError', 'ZeroDivisionError')


def dom(a):
    if a.kind == 'bool':
        return None
    n = a.args[0]
    if n == 'm.mul':
        return [2, 3, 1, 4]
    if n == 'm.add':
        return [1, -1, 0, 2, 3, -2, 5]
    if n == 'm.off':
        return [0, 1, -1, 9, 3, 36, 37]
    if n == 'k0':
        return [4, 5, 10, 3, 7, 12, 2, 6]
    return [1, 2, 3, 4, 5, 7, 9, 10, 13, 15, 19, 21, 22, 31, 37, 40, 43, 110]


def holds(op, b, a):
    """Condition: one application of op takes count b to count a."""
    if isinstance(op, tuple):
        if len(op) == 2 and not any(isinstance(x, tuple) for x in op):
            return T.eq(den(a), T.add(T.mul(op[0], den(b)), op[1]))
        return None
    return T.eq(den(a), T.add(den(b), op))


def ints(rep):
    """Four integer counts."""
    rule = 'py:infer-op'

    # arithmetic families are given exactly, other quadruples are free
    def free(i):
        return [T.var(f'k{j}') for j in range(4)]
    def family(broken):
        def f(i):
            c, m, a, e = T.var('k0'), T.var('m.mul'), T.var('m.add'), T.var('m.off')
            i.assume(T.le(1, m))
            out = [c]
            for j in range(3):
                out.append(T.add(T.mul(m, out[-1]), a, e if j == broken else 0))
            return out
        return f
    starts = [('free', free)] + [(f'affine, off at {b}', family(b)) for b in (None, 1, 2)]
    for where, mk in starts:
        def body(i):
            NumDomain(i)
            cs = mk(i)
            # the table of suspected ratios only chooses among refusals; one entry stands for all
            env = i.load(RULES).env.vars
            if isinstance(env.get('POSSIBLE_RULE_PAIRS'), tuple):
                env['POSSIBLE_RULE_PAIRS'] = env['POSSIBLE_RULE_PAIRS'][:1]
            for c in cs:
                i.assume(T.le(1, c))
            r = i.call(i.load(RULES).env.vars['calculate_diff'], cs)
            return cs, r
        for p in explore(repo(), body, max_paths=3000, hooks=contracts(), max_iter=12):
            rep.paths += 1
            rep.units.update(p.i.visited)
            where = f'{RULES}.calculate_diff'
            if p.undecided:
                rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                if p.exc.name not in REFUSALS:
                    rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', dom)
                continue
            cs, r = p.result
            r = flat(r)
            if r is None:
                rep.oblige(rule, where + ' (no change)', p.facts, T.land(*[T.eq(cs[0], c) for c in cs[1:]]),
                           f'counts {cs} reported as unchanging on {p.describe()}', dom)
                continue
            for b, a in itertools.pairwise(cs):
                cond = holds(r, b, a)
                if cond is None:
                    rep.unknown(rule, f'operation {r!r}')
                    continue
                kind = 'multiplicative' if isinstance(r, tuple) else 'additive'
                rep.oblige(rule, f'{where} ({kind})', p.facts, cond,
                           f'from {cs} inferred {r!r} on {p.describe()}, which does not take {b!r} to {a!r}', dom)


def completeness(rep):
    """Counts that change by a fixed amount, or by a fixed integer map, are recognised."""
    rule = 'py:infer-complete'
    fams = {
        'constant': lambda c: [c] * 4,
        'plus': lambda c: [T.add(c, T.mul(j, T.var('step'))) for j in range(4)],
    }
    for name, f in fams.items():
        for kind in ('int', 'num'):
            def body(i):
                x = NumDomain(i)
                c = T.var('k0')
                i.assume(T.le(1, c))
                if name == 'plus':
                    i.assume(T.ne(T.var('step'), 0))
                cs = f(c)
                for k in cs:
                    i.assume(T.le(1, k))
                r = i.call(i.load(RULES).env.vars['calculate_diff'], cs)
                return cs, r
            if kind == 'num':
                continue
            for p in explore(repo(), body, max_paths=400, hooks=contracts(), max_iter=12):
                rep.paths += 1
                where = f'{RULES}.calculate_diff'
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                want = None if name == 'constant' else T.var('step')
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'{name} counts: raises {p.exc.name}', dom)
                    continue
                cs, r = p.result
                if want is None:
                    ok = r is None
                else:
                    ok = T.eq(r, want) if isinstance(r, (int, Term)) and not isinstance(r, bool) else False
                rep.oblige(rule, where, p.facts, ok, f'{name} counts {cs}: answers {r!r}', dom)


def opseq(rep):
    """Expressions: the operation sequence found takes every count to the next."""
    rule = 'py:infer-ops'

    def apply_ops(i, a, k):
        c, times, ops = a[0], a[1], flat(a[2])
        x = i.num_domain
        v = den(c)
        e = c
        for o, n in ops:
            if o == '~':
                if not isinstance(e, SNum):
                    raise Undecided('~ of an unknown expression')
                if not x.isinstance(i, e, x.cls['Exp']):
                    raise PyExc(i.load(RULES).env.vars['RuleLimit'])
                e = i.getattr(e, 'exp')
                v = den(e)
                continue
            if o not in OPCODES:
                continue            # no case matches: nothing happens
            v = OPCODES[o](v, den(n))
            e = x.result(v)
        return e

    def body(i):
        x = NumDomain(i)
        cs = [x.fresh(f'k{j}', kinds=KINDS) for j in range(4)]
        r = i.call(i.load(RULES).env.vars['calculate_op_seq'], cs)
        return cs, r
    h = contracts()
    h[f'{RULES}.apply_ops'] = apply_ops
    seen = 0
    for p in explore(repo(), body, max_paths=1500, hooks=h, max_iter=2):
        rep.paths += 1
        rep.units.update(p.i.visited)
        where = f'{RULES}.calculate_op_seq'
        if p.undecided:
            rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            continue
        cs, ops = p.result
        ops = flat(ops)
        # the first step, structurally
        e, v = cs[0], den(cs[0])
        for o, n in ops:
            if o == '~':
                if not isinstance(e, SNum) or getattr(e.cls, 'name', None) != 'Exp':
                    v = None
                    break
                e = e.f['exp']
                v = den(e)
                continue
            if o not in OPCODES:
                continue
            v = OPCODES[o](v, den(n))
            # follow the descent through the structure
            nxt = None
            if isinstance(e, SNum) and getattr(e.cls, 'name', None) in KINDS:
                k = e.cls.name
                if (k, o) in (('Add', '+'), ('Mul', '//')):
                    nxt = e.f['r']
                elif (k, o) == ('Div', '*'):
                    nxt = e.f['num']
            if nxt is not None and p.facts.proved_equal(den(nxt), v):
                e = nxt
            else:
                e = None
        if v is None:
            rep.unknown(rule, 'descent through a power not at the front')
            continue
        seen += 1
        rep.oblige(rule, where, p.facts, T.eq(v, den(cs[1])),
                   lambda: f'operations {ops} found for {cs[0]!r} -> {cs[1]!r} on {p.describe()} give {v!r}', ndom)
        for bef, aft in itertools.pairwise(cs[1:]):
            v = fold(bef, ops)
            if v is None:
                continue
            rep.oblige(rule, where + ' (later steps)', p.facts, T.eq(v, den(aft)),
                       lambda: f'operations {ops} take {bef!r} to {v!r}, the count observed is {aft!r}; on {p.describe()}', ndom)


def fold(c, ops):
    v, e = den(c), c
    for o, n in ops:
        if o == '~':
            if not isinstance(e, SNum) or getattr(e.cls, 'name', None) != 'Exp':
                return None
            e = e.f['exp']
            v = den(e)
        elif o in OPCODES:
            v, e = OPCODES[o](v, den(n)), None
    return v


def rules(rep):
    """A rule records, for every run that changes, the operation found for that run's counts."""
    rule = 'py:make-rule'
    for lens in ((1, 1), (2, 0), (0, 2), (1, 2), (2, 2), (0, 0)):
        def body(i):
            NumDomain(i)
            vals = {}

            def span(j, s):
                out = []
                for p_ in range(lens[s]):
                    v = T.var(f'k{s}{p_}.{j}')
                    vals[(s, p_, j)] = v
                    out.append(v)
                return PList(out)
            countses = [(span(j, 0), span(j, 1)) for j in range(4)]
            found = {}

            def diff(i2, a, k):
                a = [flat(z) for z in a]
                if len(a) == 1 and isinstance(a[0], (list, tuple)):
                    a = list(a[0])
                key = tuple(a)
                n = len(found)
                c = i2.choose_n(5, f'operation of {key}')
                op = [None, T.var(f'dneg{n}'), T.var(f'dpos{n}'), (T.var(f'mul{n}'), T.var(f'add{n}')), 'unknown'][c]
                if c == 1:
                    i2.assume(T.le(T.var(f'dneg{n}'), -1))
                if c == 2:
                    i2.assume(T.le(0, T.var(f'dpos{n}')))
                if c == 3:
                    i2.assume(T.le(1, T.var(f'mul{n}')))
                found[key] = (c, op)
                if c == 4:
                    raise PyExc(i2.load(RULES).env.vars['UnknownRule'])
                return op
            i.hooks[f'{RULES}.calculate_diff'] = diff
            try:
                r = i.call(i.load(RULES).env.vars['make_rule'], countses)
                return vals, found, r, None
            except PyExc as e:
                return vals, found, None, e
        for p in explore(repo(), body, max_paths=3000, hooks=contracts(), max_iter=12):
            rep.paths += 1
            rep.units.update(p.i.visited)
            where = f'{RULES}.make_rule'
            if p.undecided:
                rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.unknown(rule, p.exc.name)
                continue
            vals, found, r, e = p.result
            show = f'per-run operations {found}'
            unknown = any(c == 4 for c, _ in found.values())
            neg = any(c == 1 for c, _ in found.values())
            want = {}
            for (s, q, j), v in vals.items():
                if j == 0:
                    key = tuple(vals[(s, q, jj)] for jj in range(4))
                    if key not in found:
                        if not unknown:
                            rep.oblige(rule, where, p.facts, False, f'run {s, q}: its counts were not looked at as one sequence; {show}')
                        want = None
                        break
                    if found[key][0] not in (0, 4):
                        want[(s, q)] = found[key][1]
            if want is None:
                continue
            if e is not None:
                if e.name != 'InfiniteRule':
                    rep.oblige(rule, where, p.facts, False, f'raises {e.name}; {show}')
                else:
                    rep.oblige('py:endless', where, p.facts, not neg and not unknown,
                               f'declared endless although a run shrinks or a run is not understood; {show}')
                continue
            if r is None:
                rep.oblige(rule, where, p.facts, unknown, f'no rule although every run is understood; {show}')
                continue
            rep.oblige(rule, where, p.facts, not unknown, f'a rule although some run is not understood; {show}')
            rep.oblige('py:endless', where, p.facts, neg, f'a rule that nothing bounds; {show}')
            if not isinstance(r, PDict):
                rep.unknown(rule, f'rule is {r!r}')
                continue
            got = {flat(k): flat(v) for k, v in r.pairs}
            rep.oblige(rule, where, p.facts, got == want, f'rule {got}, expected {want}; {show}')


def check(rep):
    ints(rep)
    completeness(rep)
    opseq(rep)
    rules(rep)
