"""What tm/tape.py reports about a tape, against the cells of the tape."""

from __future__ import annotations

from . import terms as T
from .pyai import PList, Obj, PyExc, Undecided
from .tape_py import explore_tape, readspan, colour_domain

TAPE = 'tm.tape.Tape'


def lists(i, sh):
    """Materialise both spans; (left cells, scan, right cells)."""
    for l in (sh.l, sh.r):
        while i.expand(l):
            pass
    cells = {s: [(c, n) for ss, k, b, c, n in sh.blocks if ss == s] for s in 'lr'}
    return cells['l'], cells['r']


def flat(v):
    """Python value of a list/tuple tree with terms at the leaves."""
    if isinstance(v, PList):
        if v.tail is not None:
            return None
        return [flat(x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(flat(x) for x in v)
    return v


def same(a, b):
    """Condition under which two trees of terms are equal."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return T.land(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, T.Term) or isinstance(b, T.Term):
            return _iff(a, b)
    return T.eq(a, b)


def _iff(a, b):
    return T.lor(T.land(a, b), T.land(T.lnot(a), T.lnot(b)))


def sig_of(i, l, s, r):
    def side(cells):
        out = []
        for c, n in cells:
            if i.decide(T.eq(n, 1)):
                out.append((c,))
            else:
                out.append(c)
        return tuple(out)
    return (s, side(l), side(r))


def truth(v):
    return v


def check(rep):
    def go(rule, fn, want, canonical=True, cells=4, extra=None):
        """fn(i, tape, sh, l, r) -> got; want(i, l, s, r, ...) -> expected tree or condition."""
        def body(i, sh):
            t = sh.tape()
            l, r = lists(i, sh)
            s = t.f['scan']
            exp = want(i, l, s, r)
            got = fn(i, t)
            return t, l, s, r, exp, got
        for p, sh in explore_tape(rep, body, canonical=canonical, cells=cells):
            where = f'{TAPE}.{rule.split(":")[1]}'
            if p.undecided:
                if not p.undecided.startswith('span longer'):
                    rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', colour_domain)
                continue
            t, l, s, r, exp, got = p.result
            g = flat(got)
            if isinstance(exp, (bool, T.Term)) and not isinstance(g, (bool, int, T.Term)):
                # truthiness of a non-boolean answer
                g = p.i.truth(got) if not isinstance(g, (list, tuple)) else g
            cond = same(g, exp) if not (isinstance(exp, (bool, T.Term)) and isboolish(exp)) else _iff_v(p.i, got, exp)
            rep.oblige(rule, where, p.facts, cond,
                       lambda: f'for {l} [{s!r}] {r} answers {g!r}, not {exp!r}', colour_domain)
            unchanged(rep, where, p, t, l, s, r)

    def attr(n, *a):
        def f(i, t):
            v = i.getattr(t, n)
            return i.call(v, list(a)) if a else v
        return f

    go('py:blank', attr('blank'), lambda i, l, s, r: T.land(*[T.eq(c, 0) for c, _ in l + [(s, 1)] + r]))
    go('py:marks', attr('marks'),
       lambda i, l, s, r: T.add(*[n for c, n in l + [(s, 1)] + r if i.decide(T.ne(c, 0))], 0))
    for shift in (True, False):
        go('py:at_edge', attr('at_edge', shift),
           lambda i, l, s, r: T.land(*[T.eq(c, 0) for c, _ in [(s, 1)] + (r if shift else l)]))
    go('py:span_lens', attr('span_lens'), lambda i, l, s, r: (len(l), len(r)))
    go('py:counts', attr('counts'), lambda i, l, s, r: ([n for _, n in l], [n for _, n in r]))
    go('py:signature', attr('signature'), sig_of)

    # single counts
    for side in (0, 1):
        for pos in (0, 1):
            def get(i, t):
                return i.call(i.getattr(t, 'get_count'), [(side, pos)])

            def want(i, l, s, r):
                span = r if side else l
                if pos >= len(span):
                    raise Undecided('span longer: not there')
                return span[pos][1]
            go('py:get_count', get, want, canonical=False)

    set_count(rep)
    compatible(rep)
    clone(rep)
    return rep


def isboolish(e):
    return isinstance(e, bool) or (isinstance(e, T.Term) and e.op in ('eq', 'ne', 'lt', 'le', 'and', 'or', 'not'))


def _iff_v(i, got, exp):
    if not isinstance(got, (bool, T.Term)):
        got = i.truth(got)
    if isinstance(got, bool) and isinstance(exp, bool):
        return got == exp
    return _iff(got, exp)


def unchanged(rep, where, p, t, l, s, r):
    a = [(b.f['color'], b.f['count']) for b in t.f['lspan'].items]
    b = [(b.f['color'], b.f['count']) for b in t.f['rspan'].items]
    rep.oblige('py:observers-pure', where, p.facts, same([t.f['scan'], a, b], [s, [tuple(x) for x in l], [tuple(x) for x in r]]),
               lambda: f'changes the tape {l} [{s!r}] {r} into {t!r}', colour_domain)


def set_count(rep):
    rule = 'py:set_count'
    for side in (0, 1):
        for pos in (0, 1):
            def body(i, sh):
                t = sh.tape()
                l, r = lists(i, sh)
                span = r if side else l
                if pos >= len(span):
                    raise Undecided('span longer: not there')
                v = T.var('n.new')
                i.assume(T.le(1, v))
                i.call(i.getattr(t, 'set_count'), [(side, pos), v])
                return t, l, r, v
            for p, sh in explore_tape(rep, body, canonical=False, cells=3):
                where = f'{TAPE}.set_count'
                if p.undecided:
                    if not p.undecided.startswith('span longer'):
                        rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name}', colour_domain)
                    continue
                t, l, r, v = p.result
                l2, r2 = list(l), list(r)
                span = r2 if side else l2
                span[pos] = (span[pos][0], v)
                a = [(b.f['color'], b.f['count']) for b in t.f['lspan'].items]
                b = [(b.f['color'], b.f['count']) for b in t.f['rspan'].items]
                rep.oblige(rule, where, p.facts, same([a, b], [l2, r2]),
                           lambda: f'setting side {side} run {pos} of {l} | {r} gives {a} | {b}', colour_domain)


def compatible(rep):
    rule = 'py:sig_compatible'
    shapes = [(), ('c',), ('t',), ('c', 'c'), ('t', 'c')]
    for ls in shapes:
        for rs in shapes:
            def body(i, sh):
                t = sh.tape()
                l, r = lists(i, sh)

                def mk(side, shape):
                    out = []
                    for k, x in enumerate(shape):
                        c = T.var(f'col.{side}{k}')
                        i.assume(T.le(0, c))
                        out.append((c,) if x == 't' else c)
                    return tuple(out)
                sg = (T.var('col.scan'), mk('l', ls), mk('r', rs))
                i.assume(T.le(0, sg[0]))
                got = i.call(i.getattr(t, 'sig_compatible'), [sg])
                got = got if isinstance(got, (bool, T.Term)) else i.truth(got)
                return t, l, r, sg, got
            for p, sh in explore_tape(rep, body, canonical=False, cells=3):
                where = f'{TAPE}.sig_compatible'
                if p.undecided:
                    if not p.undecided.startswith('span longer'):
                        rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', colour_domain)
                    continue
                t, l, r, sg, got = p.result
                if len(l) < len(ls) or len(r) < len(rs):
                    exp = False
                else:
                    exp = T.land(T.eq(t.f['scan'], sg[0]),
                                 *[T.eq(c, x[0] if isinstance(x, tuple) else x) for (c, _), x in zip(l, sg[1])],
                                 *[T.eq(c, x[0] if isinstance(x, tuple) else x) for (c, _), x in zip(r, sg[2])])
                rep.oblige(rule, where, p.facts, _iff_v(p.i, got, exp),
                           lambda: f'{l} [scan] {r} against {sg} answers {got!r}', colour_domain)


def clone(rep):
    rule = 'py:clone'

    def body(i, sh):
        t = sh.tape()
        l, r = lists(i, sh)
        u = i.call(i.getattr(t, 'clone'), [])
        return t, l, r, u
    for p, sh in explore_tape(rep, body, canonical=False, cells=3):
        where = f'{TAPE}.clone'
        if p.undecided:
            if not p.undecided.startswith('span longer'):
                rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name}', colour_domain)
            continue
        t, l, r, u = p.result
        if not isinstance(u, Obj) or any(not isinstance(u.f.get(k), PList) for k in ('lspan', 'rspan')):
            rep.unknown(rule, f'clone is {u!r}')
            continue
        a = [(b.f['color'], b.f['count']) for b in u.f['lspan'].items]
        b = [(b.f['color'], b.f['count']) for b in u.f['rspan'].items]
        rep.oblige(rule, where, p.facts, same([u.f['scan'], a, b], [t.f['scan'], l, r]),
                   lambda: f'the copy of {l} [scan] {r} is {u!r}', colour_domain)
        shared = {id(x) for x in (t, t.f['lspan'], t.f['rspan'], *t.f['lspan'].items, *t.f['rspan'].items)}
        mine = [u, u.f['lspan'], u.f['rspan'], *u.f['lspan'].items, *u.f['rspan'].items]
        rep.oblige('py:clone-independent', where, p.facts, not any(id(x) in shared for x in mine),
                   'the copy shares mutable storage with the original', colour_domain)
        unchanged(rep, where, p, t, l, t.f['scan'], r)
