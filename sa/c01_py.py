"""Tape step of tm/tape.py against the machine's definition."""

from __future__ import annotations

from . import terms as T
from .pyai import Obj, PList
from .tape_py import (explore_tape, readspan, merged, same_run_lengths, colour_domain)


def expected_step(i, L, s, R, shift, color, skip):
    """The step on run-length cells. L, R: (cells, tail). Returns (L', s', R', n)."""
    pull, push = (R, L) if shift else (L, R)
    cells, tail = list(pull[0]), pull[1]
    n = 1
    if skip and cells and i.truth(T.eq(cells[0][0], s)):
        n = T.add(1, cells[0][1])
        cells = cells[1:]
    if not cells:
        ns = 0
    else:
        c, k = cells[0]
        ns = c
        cells = [(c, T.sub(k, 1))] + cells[1:]
    newpush = [(color, n)] + list(push[0])
    pull2, push2 = (cells, tail), (newpush, push[1])
    return (push2, ns, pull2, n) if shift else (pull2, ns, push2, n)


def check(rep, cls_name='Tape'):
    rule = 'py:step'
    for shift in (True, False):
        for skip in (True, False):
            def body(i, sh):
                t = sh.tape()
                color = T.var('color')
                i.assume(T.le(0, color))
                # materialise the cells the definition of a step speaks about
                for l in (sh.l, sh.r):
                    for _ in range(2):
                        if len(l.items) == _ and not i.expand(l):
                            break
                before = {s: [(c, n) for ss, k, b, c, n in sh.blocks if ss == s] for s in 'lr'}
                scan = t.f['scan']
                exp = expected_step(i, (before['l'], sh.l.tail), scan, (before['r'], sh.r.tail), shift, color, skip)
                ret = i.call(i.getattr(t, 'step'), [shift, color, skip])
                return t, exp, ret, before
            where = f'tm.tape.{cls_name}.step(shift={shift}, skip={skip})'
            for p, sh in explore_tape(rep, body):
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', colour_domain)
                    continue
                t, (el, es, er, en), ret, before = p.result
                i = p.i

                def descr(what):
                    def f():
                        return (f'{what}: from {before["l"]} [{"scan"}] {before["r"]} got {t!r} returning {ret!r}, '
                                f'expected left {el[0]}, scan {es!r}, right {er[0]}, {en!r} cells')
                    return f
                if not T.is_const(ret) and not isinstance(ret, T.Term):
                    rep.oblige(rule, where + ' return', p.facts, False, descr('no count returned'), colour_domain)
                else:
                    rep.oblige(rule, where + ' return', p.facts, T.eq(ret, en), descr('wrong step count'), colour_domain)
                rep.oblige(rule, where + ' scan', p.facts, T.eq(t.f['scan'], es), descr('wrong scanned colour'), colour_domain)
                for name, lst, ex in (('lspan', t.f['lspan'], el), ('rspan', t.f['rspan'], er)):
                    got, tail = readspan(lst)
                    f = p.facts
                    if (tail is None) != (ex[1] is None) or (tail is not None and tail is not ex[1]):
                        # the tail may have been expanded further than the definition needs
                        if tail is not None and ex[1] is not None and getattr(tail, 'side', 0) == getattr(ex[1], 'side', 1):
                            extra = [(c, n) for s, k, b, c, n in sh.blocks
                                     if s == tail.side and ex[1].k <= k < tail.k]
                            ex = (list(ex[0]) + extra, tail)
                        elif tail is None and ex[1] is not None:
                            extra = [(c, n) for s, k, b, c, n in sh.blocks if s == ex[1].side and ex[1].k <= k]
                            ex = (list(ex[0]) + extra, None)
                        else:
                            rep.oblige(rule, f'{where} {name}', f, False, descr('lost the rest of the tape'), colour_domain)
                            continue
                    a, b = merged(i, got, tail), merged(i, ex[0], ex[1])
                    rep.oblige(rule, f'{where} {name}', f, same_run_lengths(i, a, b), descr(f'wrong {name}'), colour_domain)
                    # normal form
                    cond = T.land(*[T.le(1, n) for c, n in got],
                                  *[T.ne(got[k][0], got[k + 1][0]) for k in range(len(got) - 1)],
                                  *([T.ne(got[-1][0], 0)] if got and tail is None else []))
                    rep.oblige('py:normal-form', f'{where} {name}', f, cond, descr('not in normal form'), colour_domain)
                ids = [id(b) for b in t.f['lspan'].items + t.f['rspan'].items]
                if len(set(ids)) != len(ids):
                    rep.oblige('py:no-sharing', where, p.facts, False, descr('one block sits in the tape twice'), colour_domain)
                else:
                    rep.ok('py:no-sharing')
                rep.sample(f'{where}: {p.describe()} -> {t!r}, {ret!r}')
    return rep
