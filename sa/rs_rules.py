"""Rules of src/rules.rs: inferring them from counts and applying them."""

from __future__ import annotations

import itertools

from . import rustai, terms as T
from .pyai import Fake, Undecided, PList
from .rs_common import root, flat, same
from .rustai import RMap, RVec, Variant, some, none

SRC = 'src/rules.rs'
BIG = 2 ** 31


def dom(a):
    if a.kind == 'bool':
        return None
    n = a.args[0]
    if n == 'm.mul':
        return [2, 3, 1, 4]
    if n == 'm.add':
        return [1, -1, 0, 2, 3, -2, 5]
    if n == 'm.off':
        return [0, 1, -1, 9, 3]
    if n.startswith('big.'):
        return [1, 5, BIG, 2 ** 32 + 1]
    return [1, 2, 3, 4, 5, 7, 9, 10, 13, 15, 19, 21, 22, 31]


def explore(rep, rule, where, body, **kw):
    for p in rustai.explore(root(), body, hooks={}, max_iter=12, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        if p.undecided:
            rep.unknown(rule, p.undecided)
        elif p.exc:
            rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', dom)
        else:
            yield p


def opt(i, v):
    v = i.strip(v)
    return None if v.name == 'None' else i.strip(v.args[0])


def inference(rep):
    """Four counts: the operation inferred takes each to the next."""
    rule, where = 'rs:infer-op', f'{SRC}::calculate_diff'

    def free(i):
        return [T.var(f'k{j}') for j in range(4)]

    def family(broken):
        def f(i):
            c, m, a, e = T.var('k0'), T.var('m.mul'), T.var('m.add'), T.var('m.off')
            i.assume(T.le(1, m))
            out = [c]
            for j in range(3):
                out.append(T.add(T.mul(m, out[-1]), a, e if j == broken else 0))
            return out
        return f

    def plus(i):
        c, a = T.var('k0'), T.var('m.add')
        i.assume(T.ne(a, 0))
        return [T.add(c, T.mul(j, a)) for j in range(4)]
    for name, mk in [('free', free), ('plus', plus)] + [('affine', family(b)) for b in (None, 1, 2)]:
        def body(i):
            cs = mk(i)
            for c in cs:
                i.assume(T.le(1, c))
                i.assume(T.lt(c, BIG))
            r = i.strip(i.run('rules::calculate_diff', cs))
            return cs, r
        for p in explore(rep, rule, where, body, max_paths=3000):
            cs, r = p.result
            if r.name != 'None':
                rep.oblige('rs:infer-unchanged', where, p.facts, T.lor(*[T.ne(cs[0], c) for c in cs[1:]]),
                           f'counts {cs} do not change and are said to, on {p.describe()}', dom)
            if r.name == 'None':
                rep.oblige(rule, f'{where} (no change)', p.facts, T.land(*[T.eq(cs[0], c) for c in cs[1:]]),
                           f'counts {cs} are said not to change, on {p.describe()}', dom)
                continue
            r = p.i.strip(r.args[0])
            if r.name != 'Got':
                if name == 'plus':
                    rep.oblige('rs:infer-complete', where, p.facts, False, f'counts {cs} are not recognised, on {p.describe()}', dom)
                continue
            op = p.i.strip(r.args[0])
            if op.name == 'Plus':
                x = p.i.strip(op.args[0])
                cond = T.land(*[T.eq(a, T.add(b, x)) for b, a in itertools.pairwise(cs)])
                kind = 'additive'
            else:
                m, x = (p.i.strip(y) for y in p.i.strip(op.args[0]))
                cond = T.land(*[T.eq(a, T.add(T.mul(m, b), x)) for b, a in itertools.pairwise(cs)])
                kind = 'multiplicative'
                if name == 'plus':
                    rep.oblige('rs:infer-complete', where, p.facts, False, f'counts {cs} are taken for a multiplicative change', dom)
            rep.oblige(rule, f'{where} ({kind})', p.facts, cond, f'from {cs} inferred {op!r} on {p.describe()}', dom)


    # geometric growth with a remainder smaller than the counts is recognised
    for m in (2, 3, 4):
        for a in (0, 1, 2):
            for c in range(a + 1, a + 7):
                cs = [c]
                for _ in range(3):
                    cs.append(m * cs[-1] + a)

                def body3(i):
                    return i.strip(i.run('rules::calculate_diff', cs))
                for p in explore(rep, 'rs:infer-complete', where, body3):
                    r = p.result
                    r = p.i.strip(r.args[0]) if r.name == 'Some' else r
                    op = p.i.strip(r.args[0]) if r.name == 'Got' else r
                    ok = op.name == 'Mult' and [p.i.strip(y) for y in p.i.strip(op.args[0])] == [m, a]
                    rep.oblige('rs:infer-complete', f'{where} (multiplicative)', p.facts, ok, f'counts {cs} give {r!r}, expected times {m} plus {a}', dom)


def making(rep):
    """One operation per run that changes, under that run's index; nothing unless every run is understood."""
    rule, where = 'rs:make_rule', f'{SRC}::make_rule'
    for nl, nr in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)):
        def body(i):
            i.narrow.clear()
            spans = []
            for v in range(4):
                pair = []
                for side, n in (('l', nl), ('r', nr)):
                    cells = [T.var(f'big.{side}{k}.{v}') for k in range(n)]
                    for c in cells:
                        i.assume(T.le(1, c))
                    pair.append(RVec(cells))
                spans.append(tuple(pair))
            asked, ans = [], []

            def diff(i, a, k=None):
                asked.append([i.strip(x) for x in a])
                w = i.choose_n(4, f'run {len(asked)}')
                ans.append(w)
                if w == 0:
                    return none()
                if w == 1:
                    return some(i.variant('rules', 'DiffResult', 'Unknown'))
                op = i.variant('rules', 'Op', 'Plus', 7 + len(asked)) if w == 2 else i.variant('rules', 'Op', 'Mult', (2, 7 + len(asked)))
                return some(i.variant('rules', 'DiffResult', 'Got', op))
            i.hooks[f'{SRC}::calculate_diff'] = diff
            got = opt(i, i.run('rules::make_rule', spans))
            return got, asked, ans, list(i.narrow), spans
        for p in explore(rep, rule, where, body):
            got, asked, ans, narrow, spans = p.result
            idx = [(False, k) for k in range(nl)] + [(True, k) for k in range(nr)]
            quads = {(s, k): [spans[v][s].items[k] for v in range(4)] for s, k in idx}
            # which run each question was about
            names = []
            for a in asked:
                hit = [ix for ix, q in quads.items() if same(a, q) is True or p.facts.decide(same(a, q)) is True]
                names.append(hit[0] if len(hit) == 1 else None)
            if None in names or len(set(names)) != len(names):
                rep.oblige(rule, where, p.facts, False, f'the changes of {quads} are asked about as {asked}', dom)
                continue
            ops = dict(zip(names, ans))
            if any(w == 1 for w in ans):
                rep.oblige(rule, where, p.facts, got is None, f'a rule {got} is made although a run is not understood, on {p.describe()}', dom)
                continue
            if set(names) != set(idx):
                rep.oblige(rule, where, p.facts, False, f'only {names} of {idx} are looked at', dom)
                continue
            want = {ix: ('Plus', 8 + names.index(ix)) if w == 2 else ('Mult', (2, 8 + names.index(ix))) for ix, w in ops.items() if w}
            g = None if got is None else {flat(p.i, k): flat(p.i, v) for k, v in got.pairs}
            rep.oblige(rule, where, p.facts, g == want, f'the rule is {g}, expected {want}, on {p.describe()}', dom)
            for ty, v in narrow:
                rep.oblige('rs:narrow-count', where, p.facts, T.lt(v, BIG), f'a count is cut down to {ty} before changes are looked for', dom)


def applying(rep):
    """Applied at all, a rule gives every run its old count and the change as often as possible; else nothing is touched."""
    rule, where = 'rs:apply', f'{SRC}::apply_rule'
    diffs = (-3, -2, -1, 0, 1, 2)
    A, B, C = (False, 0), (True, 0), (True, 1)
    plans = [{A: d} for d in diffs]
    plans += [{A: d, B: e} for d in (-2, -1, 2) for e in (-3, -2, -1, 1)]
    plans += [{A: -1, B: -2, C: 3}, {A: 2, B: -2, C: -1}, {A: -1, B: 1, C: -1}]
    for plan in plans:
        def body(i):
            cs = {k: T.var(f'n.{int(k[0])}{k[1]}') for k in (A, B, C)}
            for c in cs.values():
                i.assume(T.le(1, c))
            now = dict(cs)
            t = Fake('tape')

            def get(i, a):
                return now[key(i, a[0])]

            def put(i, a):
                now[key(i, a[0])] = i.strip(a[1])
                return ()
            t.methods = {'get_count': get, 'set_count': put}
            r = RMap([(k, i.variant('rules', 'Op', 'Plus', v)) for k, v in plan.items()], 'B')
            got = opt(i, i.run('rules::apply_rule', [r, t]))
            return cs, now, got
        for p in explore(rep, rule, where, body):
            cs, now, got = p.result
            f = p.facts
            if got is None:
                rep.oblige('rs:apply-or-nothing', where, f, T.land(*[T.eq(now[k], cs[k]) for k in cs]),
                           f'rule {plan} is not applied and still turns {cs} into {now}, on {p.describe()}', dom)
                shrink = [k for k, d in plan.items() if d < 0]
                # refused only where a shrinking run is too short for one application
                if overflow(p):
                    rep.ok('rs:apply-overflow')
                    continue
                rep.oblige('rs:apply-refused', where, f, T.lor(*[T.le(cs[k], -plan[k]) for k in shrink]) if shrink else True,
                           f'rule {plan} is refused on {cs}, on {p.describe()}', dom)
                continue
            rep.oblige(rule, f'{where} (times)', f, T.le(1, got), f'rule {plan} on {cs} is applied {got!r} times', dom)
            for k in cs:
                want = T.add(cs[k], T.mul(plan.get(k, 0), got))
                rep.oblige(rule, f'{where} (counts)', f, T.eq(now[k], want),
                           f'rule {plan} applied {got!r} times turns count {k} of {cs} into {now[k]!r}, on {p.describe()}', dom)
                rep.oblige('rs:apply-positive', where, f, T.le(1, now[k]), f'rule {plan} leaves count {k} of {cs} at {now[k]!r}, on {p.describe()}', dom)
            # as often as possible
            rep.oblige('rs:apply-maximal', where, f, T.lor(*[T.le(now[k], -d) for k, d in plan.items() if d < 0]),
                       f'rule {plan} on {cs} could be applied more often than {got!r} times, on {p.describe()}', dom)


def overflow(p):
    """The path took a checked operation to have failed."""
    return any('overflow' in str(l) or 'checked' in str(l) for l, _ in p.trace)


def key(i, a):
    s, k = i.strip(a)
    s, k = i.strip(s), i.strip(k)
    return (s if isinstance(s, bool) else bool(i.truth(s))), k


def check_infer(rep):
    inference(rep)
    making(rep)


def check_apply(rep):
    applying(rep)
