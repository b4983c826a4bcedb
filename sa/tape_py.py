"""Shape analysis of the Python tape (tm/tape.py).

A span is a list of materialised blocks in front of an unexpanded tail.  Each
block has an unknown colour and an unknown positive count; a span in normal
form has no two neighbours of one colour and does not end in blank.
"""

from __future__ import annotations

from . import terms as T
from .terms import Term
from .pyai import Repo, Obj, PList, PyExc, Cut, explore, Undecided

MAXCELLS = 3


def colour_domain(a):
    n = a.args[0]
    if a.kind == 'bool':
        return None
    if n.startswith('c.') or n in ('scan', 'color', 'print') or n.startswith('col'):
        return [0, 1, 2, 3]
    if n.startswith('n.'):
        return [1, 2, 3, 4]
    return None


class Shapes:
    def __init__(self, i, canonical=True, cells=MAXCELLS):
        self.i, self.canonical, self.cells = i, canonical, cells
        self.mod = i.load('tm.tape')
        self.env = self.mod.env.vars
        self.blocks = []

    def span(self, side):
        def tail(k, prev):
            def expand(i):
                # does the span go on?
                if k >= self.cells:
                    raise Cut('span longer than materialised')
                if i.choose_n(2, f'{side} has block {k}') == 0:
                    if self.canonical and prev is not None:
                        i.assume(T.ne(prev, 0))
                    return None
                c = T.var(f'c.{side}{k}')
                n = T.var(f'n.{side}{k}')
                i.assume(T.le(0, c))
                i.assume(T.le(1, n))
                if self.canonical and prev is not None:
                    i.assume(T.ne(prev, c))
                b = self.mkblock(c, n)
                self.blocks.append((side, k, b, c, n))
                return b, tail(k + 1, c)
            expand.side, expand.k = side, k
            return expand
        return PList([], tail(0, None))

    def mkblock(self, c, n):
        b = Obj(self.env['Block'])
        b.f['color'] = c
        b.f['count'] = n
        return b

    def tape(self):
        scan = T.var('scan')
        self.i.assume(T.le(0, scan))
        t = Obj(self.env['Tape'])
        self.l, self.r = self.span('l'), self.span('r')
        t.f['lspan'], t.f['scan'], t.f['rspan'] = self.l, scan, self.r
        # what was there: same objects' colours and counts, expanded lazily
        self.t = t
        return t

    def original(self, side):
        """(colour, count) of the cells materialised so far, in order."""
        return [(c, n) for s, k, b, c, n in self.blocks if s == side]


def readspan(l):
    return [(b.f['color'], b.f['count']) for b in l.items], l.tail


def merged(i, cells, tail):
    """Normal form of a run-length list under the facts of the path."""
    out = []
    for c, n in cells:
        z = i.facts.decide(T.eq(n, 0))
        if z is True:
            continue
        if out:
            d = i.facts.decide(T.eq(out[-1][0], c))
            if d is True:
                out[-1] = (c, T.add(out[-1][1], n))
                continue
        out.append((c, n))
    if tail is None:
        while out and i.facts.decide(T.eq(out[-1][0], 0)) is True:
            out.pop()
    return out


def same_run_lengths(i, a, b):
    if len(a) != len(b):
        return False
    return T.land(*[T.land(T.eq(c1, c2), T.eq(n1, n2)) for (c1, n1), (c2, n2) in zip(a, b)])


def explore_tape(rep, body, canonical=True, cells=MAXCELLS, max_paths=6000, repo=None):
    """Explore body(i, shapes); yields (path, shapes)."""
    holder = {}

    def run(i):
        sh = Shapes(i, canonical, cells)
        holder['sh'] = sh
        return body(i, sh)

    for p in explore(repo or Repo(_root()), run, max_paths=max_paths):
        rep.paths += 1
        rep.units.update(p.i.visited)
        yield p, holder['sh']


def _root():
    from .report import REPO
    return REPO
