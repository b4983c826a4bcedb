"""What the dependency-recording tape of tm/tape.py records, against what the steps depend on."""

from __future__ import annotations

from . import terms as T
from .tape_py import explore_tape, colour_domain, readspan
from .c02_py import lists, same, flat
from .pyai import Undecided

ENUM = 'tm.tape.EnumTape'


class Shadow:
    """Run-length cells (colour, count, origin) with the blocks and ends a step depends on."""

    def __init__(self, i, l, s, r):
        self.i = i
        self.side = [[(c, n, (0, k)) for k, (c, n) in enumerate(l, 1)], [(c, n, (1, k)) for k, (c, n) in enumerate(r, 1)]]
        self.scan = s
        self.need = [0, 0]
        self.edge = [False, False]
        self.swallowed = [False, False]

    def touch(self, cell):
        if cell[2] is not None:
            s, k = cell[2]
            self.need[s] = max(self.need[s], k)

    def step(self, shift, color, skip):
        i = self.i
        pull, push = self.side[int(shift)], self.side[1 - int(shift)]
        ps = int(shift)
        n = 1
        if not pull:
            self.edge[ps] = True
        else:
            self.touch(pull[0])
        if skip and pull and i.truth(T.eq(pull[0][0], self.scan)):
            n = T.add(1, pull[0][1])
            pull.pop(0)
            if not pull:
                self.edge[ps] = True
            else:
                self.touch(pull[0])
        if not pull:
            nscan = 0
        else:
            c, k, o = pull[0]
            nscan = c
            if i.truth(T.eq(k, 1)):
                pull.pop(0)
            else:
                pull[0] = (c, T.sub(k, 1), o)
        if push and i.truth(T.eq(push[0][0], color)):
            self.touch(push[0])
            c, k, o = push[0]
            push[0] = (c, T.add(k, n), o)
        elif push or i.truth(T.ne(color, 0)):
            push.insert(0, (color, n, None))
        else:
            # the end of the push side is met: a blank is left beyond it
            self.swallowed[1 - ps] = True
        self.scan = nscan


def check(rep, depth=2):
    rule = 'py:recorded-reach'
    import itertools
    combos = list(itertools.product((True, False), repeat=2))
    # every single step, and every pair of steps, from a fresh recorder
    seqs = [(a,) for a in combos] + [(a, b) for a in combos for b in combos]
    for seq in seqs:
        cells = 3

        def body(i, sh):
            t = sh.tape()
            l, r = lists(i, sh)
            s = t.f['scan']
            e = i.call(i.getattr(t, 'to_enum'), [])
            shadow = Shadow(i, l, s, r)
            for k, (shift, skip) in enumerate(seq):
                color = T.var(f'col.{k}')
                i.assume(T.le(0, color))
                i.call(i.getattr(e, 'step'), [shift, color, skip])
                shadow.step(shift, color, skip)
            return t, l, s, r, e, shadow, flat(i.getattr(e, 'offsets')), flat(i.getattr(e, 'edges'))
        for p, sh in explore_tape(rep, body, cells=cells, max_paths=4000):
            where = f'{ENUM}.step'
            if p.undecided:
                if not p.undecided.startswith('span longer'):
                    rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', colour_domain)
                continue
            t, l, s, r, e, shadow, offs, edges = p.result
            if not (isinstance(offs, tuple) and len(offs) == 2 and isinstance(edges, tuple) and len(edges) == 2):
                rep.unknown(rule, f'offsets {offs!r} edges {edges!r}')
                continue
            for k, name in enumerate(('left', 'right')):
                rep.oblige(rule, f'{where} ({name} blocks)', p.facts, T.le(shadow.need[k], offs[k]),
                           lambda: f'after steps {seq} on {l} [{s!r}] {r} ({p.describe()}) the {name} reach is {offs[k]!r} runs, '
                                   f'the steps depend on {shadow.need[k]}', colour_domain)
                for rl, met in (('py:recorded-ends', shadow.edge[k]),
                                ('py:recorded-blank-beyond-end', shadow.swallowed[k] and not shadow.edge[k])):
                    if not met:
                        continue
                    v = edges[k]
                    v = v if isinstance(v, (bool, T.Term)) else p.i.truth(v)
                    rep.oblige(rl, f'{where} ({name} end)', p.facts, v,
                               lambda: f'after steps {seq} on {l} [{s!r}] {r} ({p.describe()}) the {name} end was met and not recorded',
                               colour_domain)
            # the recorder's tape evolves as the plain tape does
            try:
                tape = e.f.get('tape')
                a = [(b.f['color'], b.f['count']) for b in tape.f['lspan'].items]
                b = [(b.f['color'], b.f['count']) for b in tape.f['rspan'].items]
            except (AttributeError, KeyError):
                rep.unknown('py:recorder-steps', 'no inner tape')
                continue
            want = [shadow.scan, [x[:2] for x in shadow.side[0]], [x[:2] for x in shadow.side[1]]]
            rep.oblige('py:recorder-steps', where, p.facts, same([tape.f['scan'], a, b], want),
                       lambda: f'after steps {seq} on {l} [{s!r}] {r} the tape is {tape!r}', colour_domain)
            # the tape it was made from is untouched
            rep.oblige('py:recorder-copies', f'{ENUM} of a tape', p.facts,
                       same([t.f['scan'], [(b.f['color'], b.f['count']) for b in t.f['lspan'].items],
                             [(b.f['color'], b.f['count']) for b in t.f['rspan'].items]], [s, l, r]),
                       lambda: f'stepping the recorder changed the original {l} [{s!r}] {r}', colour_domain)
    fresh(rep)
    counts(rep)


def fresh(rep):
    rule = 'py:recorded-reach'

    def body(i, sh):
        t = sh.tape()
        lists(i, sh)
        e = i.call(i.getattr(t, 'to_enum'), [])
        return flat(i.getattr(e, 'offsets')), flat(i.getattr(e, 'edges'))
    for p, sh in explore_tape(rep, body, cells=3):
        if p.undecided or p.exc:
            continue
        offs, edges = p.result
        rep.oblige('py:recorder-fresh', ENUM, p.facts, same(offs, (0, 0)), f'a fresh recorder has reach {offs}')
        rep.oblige('py:recorder-fresh', ENUM, p.facts, edges == (False, False), f'a fresh recorder has met ends {edges}')


def counts(rep):
    """Reading a count is a dependency; writing one leaves the other runs alone."""
    rule = 'py:recorded-count'
    for side in (0, 1):
        for pos in (0, 1, 2):
            for also in ((), (0,), (1,)):
                def body(i, sh):
                    t = sh.tape()
                    l, r = lists(i, sh)
                    span = r if side else l
                    if pos >= len(span) or any(len((l, r)[a]) < 1 for a in also):
                        raise Undecided('span longer: not there')
                    e = i.call(i.getattr(t, 'to_enum'), [])
                    for a in also:
                        i.call(i.getattr(e, 'get_count'), [(a, 0)])
                    got = i.call(i.getattr(e, 'get_count'), [(side, pos)])
                    v = T.var('n.new')
                    i.assume(T.le(1, v))
                    i.call(i.getattr(e, 'set_count'), [(side, pos), v])
                    again = i.call(i.getattr(e, 'get_count'), [(side, pos)])
                    return l, r, got, v, again, flat(i.getattr(e, 'offsets')), e
                for p, sh in explore_tape(rep, body, cells=3, canonical=False):
                    where = f'{ENUM}.get_count'
                    if p.undecided:
                        if not p.undecided.startswith('span longer'):
                            rep.unknown(rule, p.undecided)
                        continue
                    if p.exc:
                        rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name}', colour_domain)
                        continue
                    l, r, got, v, again, offs, e = p.result
                    want = (r if side else l)[pos][1]
                    rep.oblige(rule, where, p.facts, T.eq(got, want), f'count {pos} of side {side} of {l} | {r} is {got!r}', colour_domain)
                    rep.oblige(rule, f'{ENUM}.set_count', p.facts, T.eq(again, v),
                               f'count {pos} of side {side} set to {v!r} reads {again!r}', colour_domain)
                    need = [1 if k in also else 0 for k in (0, 1)]
                    need[side] = max(need[side], pos + 1)
                    rep.oblige(rule, f'{where} (reach)', p.facts, T.land(T.le(need[0], offs[0]), T.le(need[1], offs[1])),
                               f'reading count {pos} of side {side} after {also} records reach {offs}', colour_domain)
