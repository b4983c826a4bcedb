"""Tapes of src/tape.rs with unknown runs."""

from __future__ import annotations

from . import rustai, terms as T
from .pyai import Obj, PList, Cut, Undecided
from .rustai import RVec, Variant, Ref, some, none

MAXCELLS = 3


def root():
    from .report import REPO
    return REPO


class RShapes:
    """Runs in front of an unexpanded tail; what a tail holds is chosen once."""

    def __init__(self, i, canonical=True, cells=MAXCELLS):
        self.i, self.canonical, self.cells = i, canonical, cells
        self.memo = {}
        i.under = under

    def block(self, c, n, kind='BasicBlock'):
        b = self.i.struct('tape', kind)
        return Obj(b, {'color': c, 'count': n})

    def span(self, side, typ='BasicBlock'):
        def tail(k, prev):
            def expand(i):
                cell = self.cell(side, k, prev)
                if cell is None:
                    return None
                c, n = cell
                return self.block(c, n, typ), tail(k + 1, c)
            expand.side, expand.k = side, k
            return expand
        st = self.i.struct('tape', 'Span')
        if len(st.fields) != 1:
            raise Undecided('a span is not one list')
        (name,) = list(st.fields)
        l = RVec([], tail(0, None), self.i.adt('tape', typ))
        o = Obj(st, {name: l})
        o.targs = {g: self.i.adt('tape', typ) for g in st.generics}
        return o, l

    def cell(self, side, k, prev):
        """Run k of a side: (colour, length), or None where the side ends."""
        i = self.i
        if (side, k) not in self.memo:
            if k >= self.cells:
                raise Cut('span longer than materialised')
            if i.choose_n(2, f'{side} has block {k}') == 0:
                if self.canonical and prev is not None:
                    i.assume(T.ne(prev, 0))
                self.memo[side, k] = None
            else:
                c, n = T.var(f'c.{side}{k}'), T.var(f'n.{side}{k}')
                i.assume(T.le(0, c))
                i.assume(T.le(1, n))
                if self.canonical and prev is not None:
                    i.assume(T.ne(prev, c))
                self.memo[side, k] = (c, n)
        return self.memo[side, k]

    def tape(self, names=('l', 'r'), scan=None, typ='BasicBlock'):
        i = self.i
        st = i.struct('tape', 'Tape')
        for f in ('lspan', 'scan', 'rspan'):
            if f not in st.fields:
                raise Undecided(f'a tape has no {f}')
        if scan is None:
            scan = T.var('scan')
            i.assume(T.le(0, scan))
        lo, self.l = self.span(names[0], typ)
        ro, self.r = self.span(names[1], typ)
        t = Obj(st, {'scan': scan, 'lspan': lo, 'rspan': ro})
        t.targs = {g: i.adt('tape', typ) for g in st.generics}
        return t

    def cells_of(self, side):
        out = []
        k = 0
        while self.memo.get((side, k)) is not None:
            out.append(self.memo[side, k])
            k += 1
        return out

    def lists(self):
        """Materialise both spans of the tape made last; their runs."""
        for l in (self.l, self.r):
            while self.i.expand(l):
                pass
        return [cn(b) for b in self.l.items], [cn(b) for b in self.r.items]


def under(i, l, r, e, fr):
    """Unsigned subtraction may not go below zero (it would wrap or panic)."""
    c = T.le(r, l)
    if i.facts.decide(c) is True:
        return
    i.owed = getattr(i, 'owed', [])
    i.owed.append((c, f'src/{fr.mod}.rs line {e.line}'))


def owed(rep, rule, where, p, domains):
    for c, at in getattr(p.i, 'owed', []):
        rep.oblige(rule, f'{where} (subtraction)', p.facts, c, f'{at}: an unsigned number goes below zero on {p.describe()}', domains)


def cn(b):
    if isinstance(b, Ref):
        b = b.get()
    return b.f['color'], b.f['count']


def inner(span):
    """The list a span is."""
    if isinstance(span, Ref):
        span = span.get()
    if isinstance(span, PList):
        return span
    vs = [v for v in span.f.values() if isinstance(v, PList)]
    if len(vs) != 1:
        raise Undecided('a span is not one list')
    return vs[0]


def readspan(span):
    l = inner(span)
    return [cn(b) for b in l.items], l.tail


def explore_shapes(rep, body, canonical=True, cells=MAXCELLS, max_paths=6000, **kw):
    holder = {}

    def run(i):
        sh = RShapes(i, canonical, cells)
        holder['sh'] = sh
        return body(i, sh)

    for p in rustai.explore(root(), run, max_paths=max_paths, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        for _, n in [c for c in holder['sh'].memo.values() if c is not None]:
            # a length bounded by one on both sides is one
            for k in (1, 2):
                if p.facts.decide(T.le(n, k)) is True and p.facts.decide(T.le(k, n)) is True:
                    p.facts.assume(T.eq(n, k))
        yield p, holder['sh']


def colour_domain(a):
    if a.kind == 'bool':
        return None
    n = a.args[0]
    if n.startswith('c.') or n in ('scan', 'color', 'print') or n.startswith('col'):
        return [0, 1, 2, 3]
    if n.startswith('n.'):
        return [1, 2, 3, 4]
    return None


def flat(i, v):
    """Tree of terms: lists for vectors, tuples, names of variants."""
    v = i.strip(v)
    if isinstance(v, PList):
        if v.tail is not None:
            return None
        return [flat(i, x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(flat(i, x) for x in v)
    if isinstance(v, Variant):
        return (v.name, *[flat(i, x) for x in v.args])
    if isinstance(v, Obj):
        return {k: flat(i, x) for k, x in v.f.items()}
    return v


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return T.land(*[same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return T.land(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, T.Term) and a.kind == 'bool' or isinstance(b, T.Term) and b.kind == 'bool':
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return iff(a, b)
    return T.eq(a, b)


def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return T.lor(T.land(a, b), T.land(T.lnot(a), T.lnot(b)))
