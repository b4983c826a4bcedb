"""Normal forms (tools/normalize.py, tools/tree_norm.py) and graphs of programs (tools/graph.py).

Programs are symbolic: every instruction has an unknown colour and target, and a
shift that is a name of its own, by which an instruction is recognised wherever
it ends up.
"""

from __future__ import annotations

import itertools

from . import terms as T
from .pyai import Obj, PDict, PList, PSet, Native, Module, Env, Fake, PyExc, Undecided, Str, explore
from .num_ai import repo
from .c02_py import flat

NORM = 'tools.normalize'


def stub(i):
    m = Module('tm.rust_stuff', None, None)
    m.env = Env(module=m)

    def show_state(i, a, k):
        s = a[0]
        if s is None:
            return '.'
        if isinstance(s, int):
            return chr(65 + s)
        top = i.tops.get(s, 0) if hasattr(i, 'tops') else 0
        for v in range(top - 1):
            if i.truth(T.eq(s, v)):
                return chr(65 + v)
        i.assume(T.eq(s, top - 1))
        return chr(64 + top)

    def other(n):
        def f(i, a, k):
            raise Undecided(f'call of {n}')
        return f
    for n in ('tcompile', 'read_slot', 'read_instr', 'py_show_comp', 'show_slot', 'show_instr', 'py_opt_block', 'PastConfigs',
              'run_prover', 'py_quick_term_or_rec', 'py_is_connected', 'py_cant_halt', 'py_cant_blank', 'py_cant_spin_out', 'py_segment_cant_halt'):
        m.env.vars[n] = Native(n, other(n))
    m.env.vars['show_state'] = Native('show_state', show_state)
    return m


def dom(a):
    if a.kind == 'bool':
        return None
    return [0, 1, 2, 3, 4]


def run(rep, rule, where, body, **kw):
    kw.setdefault('max_iter', 60)
    for p in explore(repo(), body, hooks={}, externs={'tm.rust_stuff': stub}, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        if p.undecided:
            rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}'[:500], dom)
            continue
        if rep.settled(rule, where):
            return
        for ok, text in p.result:
            if rep.oblige(rule, where, p.facts, ok, lambda: f'{text}, on {p.describe()}'[:700], dom) is None and rep.settled(rule, where):
                return


class Prog:
    """A program of n states and k colours; holes are the slots left undefined."""

    def __init__(self, i, n, k, holes=(), colors=True):
        self.n, self.k = n, k
        self.instr = {}
        for s in range(n):
            for c in range(k):
                if (s, c) in holes:
                    continue
                w, t = T.var(f'w{s}{c}'), T.var(f't{s}{c}')
                i.tops = {**getattr(i, 'tops', {}), t: n}
                for v, top in ((w, k), (t, n)):
                    i.assume(T.le(0, v))
                    i.assume(T.lt(v, top))
                self.instr[s, c] = (w, T.var(f'right{s}{c}', 'bool'), t)

    def table(self):
        return PDict([[s, PDict([[c, self.instr.get((s, c))] for c in range(self.k)])] for s in range(self.n)])

    def norm(self, i):
        o = Obj(i.load(NORM).env.vars['Normalizer'], {})
        o.f['prog'] = self.table()
        return o


def read(i, o):
    """The table an object holds: slot -> instruction."""
    d = o.f['prog'] if isinstance(o, Obj) else None
    if not isinstance(d, PDict):
        raise Undecided('no table')
    out = {}
    for s, row in d.pairs:
        if not isinstance(row, PDict):
            raise Undecided('row')
        for c, ins in row.pairs:
            out[s, c] = flat(ins) if isinstance(ins, PList) else ins
    return out


def renamed(prog, table, fix=(), mirror=None, cut=False):
    """Conditions for the table to be the program with states and colours renamed."""
    where, flips = {}, set()
    marks = {ins[1]: slot for slot, ins in prog.instr.items()}
    for slot, ins in table.items():
        if ins is None:
            continue
        if not isinstance(ins, tuple) or len(ins) != 3:
            yield False, f'{slot} holds {ins!r}'
            return
        m = ins[1]
        f = False
        if m not in marks and isinstance(m, T.Term):
            m, f = T.lnot(m), True
        if m not in marks:
            yield False, f'the shift at {slot} is {ins[1]!r}, of no instruction of the program'
            return
        flips.add(f)
        if marks[m] in where:
            yield False, f'instruction {marks[m]} occurs at {where[marks[m]]} and at {slot}'
            return
        where[marks[m]] = slot
    lost = [s for s in prog.instr if s not in where]
    dead = {s for s, _ in lost}
    if cut and lost and all((s, c) in lost for s in dead for c in range(prog.k) if (s, c) in prog.instr) and 0 not in dead:
        for slot in where:
            for s in dead:
                yield T.ne(prog.instr[slot][2], s), f'state {s} is cut although the instruction of {slot} goes there'
    elif lost:
        yield False, f'instructions {lost} are gone'
        return
    if not where:
        yield False, 'nothing is left'
        return
    if len(flips) > 1:
        yield False, 'some shifts are turned round and others are not'
        return
    sig, tau = {}, {}
    for (s, c), (s2, c2) in where.items():
        if sig.setdefault(s, s2) != s2 or tau.setdefault(c, c2) != c2:
            yield False, f'rows or columns are torn apart: {where}'
            return
    for perm, size, what in ((sig, prog.n, 'states'), (tau, prog.k, 'colours')):
        rest = [v for v in range(size) if v not in perm.values()]
        for v in range(size):
            if v not in perm:
                perm[v] = rest.pop(0) if len(rest) == 1 else None
        if len(set(x for x in perm.values() if x is not None)) != len([x for x in perm.values() if x is not None]):
            yield False, f'{what} run together: {perm}'
            return
    for name, perm, v in fix:
        p = sig if perm == 'state' else tau
        yield p[v] == v, f'{name}: {perm} {v} is renamed to {p[v]}'
    if mirror is not None:
        yield flips == {mirror} or not flips, 'shifts are turned round' if not mirror else 'shifts are not turned round'
    for slot, (w, m, t) in prog.instr.items():
        if slot not in where:
            continue
        w2, _, t2 = table[where[slot]]
        for old, new, perm in ((w, w2, tau), (t, t2, sig)):
            for v in range(len(perm)):
                if perm[v] is not None:
                    yield T.lor(T.ne(old, v), T.eq(new, perm[v])), \
                        f'the instruction of {slot}, now at {where[slot]}, has {new!r} for {old!r} = {v} where {perm[v]} is meant'


def ordered(seq, top):
    """Values above zero occur first in increasing order."""
    for j, x in enumerate(seq):
        for v in range(2, top):
            yield T.lor(T.ne(x, v), *[T.eq(y, v - 1) for y in seq[:j]]), f'{v} occurs before {v - 1} in {seq}'


def swaps(rep):
    rule = 'norm:renaming two states or colours'
    for fn, n, k, holes in (('swap_states', 3, 1, ()), ('swap_states', 2, 2, ((1, 1),)), ('swap_colors', 1, 3, ()), ('swap_colors', 2, 2, ((0, 1),)),
                            ('swap_states', 4, 1, ((1, 0), (2, 0))), ('swap_colors', 1, 4, ((0, 2), (0, 3)))):
        size = n if fn == 'swap_states' else k
        for a, b in itertools.product(range(size), repeat=2):
            def body(i):
                p = Prog(i, n, k, holes)
                o = p.norm(i)
                i.call(i.getattr(o, fn), [a, b])
                t = read(i, o)
                perm = {v: b if v == a else a if v == b else v for v in range(size)}
                out = []
                for (s, c), (w, m, tr) in p.instr.items():
                    slot = (perm[s], c) if fn == 'swap_states' else (s, perm[c])
                    ins = t.get(slot)
                    if ins is None:
                        out.append((False, f'{fn}({a}, {b}): nothing at {slot}'))
                        continue
                    w2, m2, t2 = ins
                    out.append((m2 == m if isinstance(m2, T.Term) else False, f'{fn}({a}, {b}): {slot} holds another instruction or shift'))
                    old, new, keep, kept = (tr, t2, w, w2) if fn == 'swap_states' else (w, w2, tr, t2)
                    out.append((T.eq(keep, kept), f'{fn}({a}, {b}): {kept!r} for {keep!r} at {slot}'))
                    for v in range(size):
                        out.append((T.lor(T.ne(old, v), T.eq(new, perm[v])), f'{fn}({a}, {b}): {new!r} for {old!r} = {v} at {slot}'))
                for (s, c) in holes:
                    slot = (perm[s], c) if fn == 'swap_states' else (s, perm[c])
                    out.append((t.get(slot) is None, f'{fn}({a}, {b}): {slot} is no longer undefined'))
                return out
            run(rep, rule, f'{NORM}.Normalizer.{fn}', body)


def reading_order(t, n, k, which):
    return [t[s, c][which] for s in range(n) for c in range(k) if t.get((s, c)) is not None]


def normal_forms(rep):
    for fn, sizes in (('normalize_states', ((2, 2), (3, 1), (3, 2), (4, 1))), ('normalize_colors', ((1, 3), (2, 2), (2, 3), (1, 4)))):
        rule = f'norm:{fn}'
        for n, k in sizes:
            for holes in ((), ((n - 1, k - 1),)):
                def body(i):
                    p = Prog(i, n, k, holes)
                    o = p.norm(i)
                    i.call(i.getattr(o, fn), [])
                    t = read(i, o)
                    st = fn == 'normalize_states'
                    out = list(renamed(p, t, [('first', 'state', 0), ('blank', 'color', 0)], False))
                    if all(ok is not False for ok, _ in out):
                        # an order of appearance exists only if all can be reached
                        pre = T.land(*[reach(lambda a, b: T.lor(*[T.eq(p.instr[a, c][2], b) for c in range(k) if (a, c) in p.instr]), 0, v, n)
                                       for v in range(1, n)]) if st else T.ne(p.instr[0, 0][0], 0) if k <= 3 else False
                        out += [(T.lor(neg(pre), c) if isinstance(pre, T.Term) or isinstance(c, T.Term) else not pre or c, x)
                                for c, x in ordered(reading_order(t, n, k, 2 if st else 0), n if st else k)]
                    return out
                run(rep, rule, f'{NORM}.Normalizer.{fn}', body, max_paths=3000)


def directions(rep):
    rule = 'norm:directions'
    for holes in ((), ((1, 0),), ((0, 0),)):
        def body(i):
            p = Prog(i, 2, 2, holes)
            o = p.norm(i)
            i.call(i.getattr(o, 'normalize_directions'), [])
            t = read(i, o)
            out = []
            first = p.instr.get((0, 0))
            for slot, (w, m, tr) in p.instr.items():
                ins = t.get(slot)
                if ins is None:
                    return [(False, f'{slot} is undefined now')]
                turned = T.lnot(m) if first is not None and not i.truth(first[1]) else m
                out.append((iff(ins[1], turned), f'{slot} goes {ins[1]!r}'))
                out.append((T.land(T.eq(ins[0], w), T.eq(ins[2], tr)), f'{slot} holds {ins!r}'))
            return out
        run(rep, rule, f'{NORM}.Normalizer.normalize_directions', body)


def iff(a, b):
    if isinstance(a, bool):
        a, b = b, a
    if isinstance(b, bool):
        return a if b else (T.lnot(a) if isinstance(a, T.Term) else not a)
    return T.lor(T.land(a, b), T.land(T.lnot(a), T.lnot(b)))


def whole(rep):
    """normalize: a renaming, turned right, when nothing is undefined and the first instruction prints."""
    rule = 'norm:normalize'
    for n, k in ((2, 2), (3, 1), (1, 3)):
        def body(i):
            p = Prog(i, n, k)
            i.assume(T.ne(p.instr[0, 0][0], 0)) if k > 1 else None
            i.assume(p.instr[0, 0][1])
            o = p.norm(i)
            r = i.call(i.getattr(o, 'normalize'), [])
            t = read(i, r)
            out = list(renamed(p, t, [('first', 'state', 0), ('blank', 'color', 0)] if k > 1 else [], False, True))
            if len(t) == n * k:
                # with every state in reach and the first instruction printing, the order is that of appearance
                pre = T.land(*[reach(lambda a, b: T.lor(*[T.eq(p.instr[a, c][2], b) for c in range(k)]), 0, v, n) for v in range(1, n)])
                for which, size in ((2, n), (0, k)):
                    out += [(T.lor(neg(pre), c) if isinstance(pre, T.Term) or isinstance(c, T.Term) else not pre or c, x)
                            for c, x in ordered(reading_order(t, n, k, which), size)]
            return out
        run(rep, rule, f'{NORM}.Normalizer.normalize', body, max_paths=3000)


class Renaming:
    """Stands for the Normalizer inside tree_norm: a program under a renaming, its instructions fixed when first read."""

    def __init__(self, i, n, k, limit):
        self.i, self.p, self.limit = i, Prog(i, n, k), limit
        self.sig, self.tau = list(range(n)), list(range(k))     # old name -> new name
        self.known, self.reads, self.shown = {}, 0, None
        self.fake = Fake('normalizer', self.attr, lambda i, slot: self.read(*slot))

    def pin(self, x, top):
        for v in range(top - 1):
            if self.i.truth(T.eq(x, v)):
                return v
        self.i.assume(T.eq(x, top - 1))
        return top - 1

    def fixed(self, s, c):
        if (s, c) not in self.known:
            w, m, t = self.p.instr[s, c]
            self.known[s, c] = self.pin(w, self.p.k), self.i.truth(m), self.pin(t, self.p.n)
        return self.known[s, c]

    def read(self, s, c):
        if self.reads == self.limit:
            raise Stop
        self.reads += 1
        s, c = (self.pin(x, top) if isinstance(x, T.Term) else x for x, top in ((s, self.p.n), (c, self.p.k)))
        if s not in self.sig or c not in self.tau:
            raise PyExc(KeyError, ((s, c),))
        w, m, t = self.fixed(self.sig.index(s), self.tau.index(c))
        return self.tau[w], m, self.sig[t]

    def swap(self, perm):
        def f(i, a, k):
            x, y = a
            if x not in perm or y not in perm:
                raise PyExc(KeyError, (x, y))
            j, l = perm.index(x), perm.index(y)
            perm[j], perm[l] = y, x
            return self.fake
        return f

    def attr(self, i, name):
        if name == 'states':
            return PSet(range(self.p.n))
        if name == 'colors':
            return PSet(range(self.p.k))
        if name == 'swap_states':
            return Native(name, self.swap(self.sig))
        if name == 'swap_colors':
            return Native(name, self.swap(self.tau))
        if name in ('__str__', '__repr__'):
            def show(i, a, k):
                self.shown = list(self.sig), list(self.tau)
                return 'the program'
            return Native(name, show)
        return NotImplemented


class Stop(Exception):
    pass


def tree(rep):
    """tree_norm: states and colours are named in the order in which the program meets them on its tape."""
    rule = 'norm:tree_norm'
    TN = 'tools.tree_norm'
    for n, k, turns, first in ((2, 2, 5, ()), (3, 2, 3, ()), (1, 3, 7, ()), (2, 3, 5, ()), (4, 1, 4, ()), (3, 3, 2, ()),
                               (2, 4, 5, (2, True, 1)), (2, 4, 5, (2, False, 1)), (3, 3, 4, (2, True, 2))):
        def body(i):
            env = i.load(TN).env.vars
            r = Renaming(i, n, k, turns)
            if first:
                r.known[0, 0] = first
            env['Normalizer'] = Native('Normalizer', lambda i, a, kw: r.fake)
            out = []
            try:
                v = i.call(env['tree_norm'], ['prog'])
                out.append((v == 'the program' and r.shown == (r.sig, r.tau), 'answers something else than the program as renamed'))
            except Stop:
                pass
            if r.reads == 0 and n > 1:
                out.append((False, 'looks at no instruction'))
            states, colors = walk(r, r.reads)
            for seq, perm, what in ((states, r.sig, 'states'), (colors, r.tau, 'colours')):
                for j, v in enumerate(seq):
                    out.append((perm[v] == j, f'{what} {seq} are met in this order but called {[perm[x] for x in seq]}'))
            return out
        run(rep, rule, f'{TN}.tree_norm', body, max_paths=6000)


def walk(r, turns):
    """The program run cell by cell: states and colours in the order they are met."""
    cells, pos, state = {}, 0, 0
    states, colors = [0], [0]
    for _ in range(turns):
        if len(states) == r.p.n and len(colors) == r.p.k:
            break
        w, m, t = r.fixed(state, cells.get(pos, 0))
        cells[pos] = w
        pos += 1 if m else -1
        state = t
        for v, seq in ((state, states), (cells.get(pos, 0), colors)):
            if v not in seq:
                seq.append(v)
    return states, colors


def graph(rep):
    """What a graph says of a program's transitions."""
    G = 'tools.graph'
    for n, k in ((2, 2), (3, 1), (3, 2)):
        for holes in ((), ((0, k - 1),)):
            def arrows(i):
                p = Prog(i, n, k, holes)
                g = Obj(i.load(G).env.vars['Graph'], {})
                g.f['arrows'] = PDict([[s, tuple(p.instr[s, c][2] if (s, c) in p.instr else None for c in range(k))] for s in range(n)])
                t = {sl: ins[2] for sl, ins in p.instr.items()}
                return g, t

            def edge(t, a, b):
                return T.lor(*[T.eq(t[a, c], b) for c in range(k) if (a, c) in t])

            def prop(name, make):
                def body(i):
                    g, t = arrows(i)
                    r = i.getattr(g, name)
                    return make(i, r, t)
                run(rep, f'graph:{name}', f'{G}.Graph.{name}', body, max_paths=2500)

            def boolean(f):
                def make(i, r, t):
                    if isinstance(r, T.Term) and r.kind == 'bool':
                        r = i.truth(r)
                    if not isinstance(r, bool):
                        return [(False, f'answers {r!r}')]
                    c = f(t)
                    return [(iff(c, r) if isinstance(c, T.Term) else c == r, f'answers {r}')]
                return make

            def members(i, r):
                if not isinstance(r, PSet):
                    raise Undecided(f'{r!r} is no set')
                return list(r.items)

            def is_in(items, v):
                return T.lor(*[T.eq(x, v) for x in items])

            def states(f):
                def make(i, r, t):
                    items = members(i, r)
                    return [(iff2(is_in(items, s), f(t, s)), f'{s} is wrongly in or out of {items}') for s in range(n)]
                return make

            def mapping(f):
                def make(i, r, t):
                    out = [(sorted(x[0] for x in r.pairs) == list(range(n)), f'has the states {r.pairs}')]
                    for s, items in r.pairs:
                        items = members(i, items)
                        out += [(iff2(is_in(items, v), f(t, s, v)), f'{v} is wrongly in or out of {items} for {s}') for v in range(n)]
                    return out
                return make

            prop('exit_points', mapping(lambda t, s, v: edge(t, s, v)))
            prop('entry_points', mapping(lambda t, s, v: edge(t, v, s)))
            prop('reflexive_states', states(lambda t, s: edge(t, s, s)))
            prop('zero_reflexive_states', states(lambda t, s: T.eq(t[s, 0], s) if (s, 0) in t else False))
            prop('is_irreflexive', boolean(lambda t: T.lnot_(T.lor(*[edge(t, s, s) for s in range(n)])) if hasattr(T, 'lnot_') else
                                           neg(T.lor(*[edge(t, s, s) for s in range(n)]))))
            prop('is_zero_reflexive', boolean(lambda t: T.lor(*[T.eq(t[s, 0], s) for s in range(n) if (s, 0) in t])))
            prop('exits_dispersed', boolean(lambda t: T.land(*[dispersed([edge(t, s, v) for v in range(n)], k) for s in range(n)])))
            prop('entries_dispersed', boolean(lambda t: T.land(*[dispersed([edge(t, v, s) for v in range(n)], k) for s in range(n)])))
            prop('is_connected', boolean(lambda t: T.land(*[T.lor(*[edge(t, s, v) for v in range(n) if v != s]) for s in range(n)],
                                                          reach(lambda a, b: edge(t, a, b), n - 1, 0, n))))
            prop('is_normal', boolean(lambda t: normal(t, n, k)))
            prop('is_dispersed', boolean(lambda t: T.land(*[dispersed([edge(t, s, v) for v in range(n)], k) for s in range(n)],
                                                          *[dispersed([edge(t, v, s) for v in range(n)], k) for s in range(n)])))

            def paths(i, r, t):
                out = []
                for s, items in r.pairs:
                    for v in range(n):
                        out.append((T.lor(neg(is_in(members(i, items), v)), reach(lambda a, b: edge(t, a, b), s, v, n)),
                                    f'an arrow from {s} to {v} is left where there is no path'))
                return out
            if (n, k) != (3, 2):
                prop('reduced', paths)


def neg(c):
    return T.lnot(c) if isinstance(c, T.Term) else not c


def iff2(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return iff(a, b)


def dispersed(edges, k):
    """Exactly k of the edges are there."""
    return T.lor(*[T.land(*[e if j in ch else neg(e) for j, e in enumerate(edges)])
                   for ch in itertools.combinations(range(len(edges)), k)])


def reach(edge, a, b, n):
    """A path of at least one arrow."""
    alts = []
    mid = [v for v in range(n) if v not in (a, b)]
    for r in range(len(mid) + 1):
        for through in itertools.permutations(mid, r):
            path = (a, *through, b)
            alts.append(T.land(*[edge(x, y) for x, y in zip(path, path[1:])]))
    return T.lor(*alts)


def normal(t, n, k):
    """Every state but the first is a target, and first in increasing order."""
    seq = [t[s, c] for s in range(n) for c in range(k) if (s, c) in t]
    conds = [T.lor(*[T.eq(x, v) for x in seq]) for v in range(1, n)]
    conds += [c for c, _ in ordered(seq, n)]
    return T.land(*conds)


def connected(rep):
    """Longer ways through the graph: some targets are given, the others arbitrary."""
    G = 'tools.graph'
    for rows in (((1,), (None,), (None, None), (None,), (1,)), ((1,), (None,), (None,), (None,), (None, 1))):
        n = len(rows)

        def body(i):
            t = {}
            for s, row in enumerate(rows):
                for c, v in enumerate(row):
                    if v is None:
                        v = T.var(f't{s}{c}')
                        i.assume(T.le(0, v))
                        i.assume(T.lt(v, n))
                    t[s, c] = v
            g = Obj(i.load(G).env.vars['Graph'], {})
            g.f['arrows'] = PDict([[s, tuple(t[s, c] for c in range(len(row)))] for s, row in enumerate(rows)])
            r = i.getattr(g, 'is_connected')
            if isinstance(r, T.Term) and r.kind == 'bool':
                r = i.truth(r)

            def edge(a, b):
                return T.lor(*[T.eq(t[a, c], b) for c in range(len(rows[a]))])
            want = T.land(*[T.lor(*[edge(s, v) for v in range(n) if v != s]) for s in range(n)], reach(edge, n - 1, 0, n))
            return [(iff2(want, r), f'answers {r}')]
        run(rep, 'graph:is_connected', f'{G}.Graph.is_connected', body, max_paths=4000)


def check_graph(rep):
    graph(rep)
    connected(rep)


def check(rep):
    swaps(rep)
    normal_forms(rep)
    directions(rep)
    whole(rep)
    tree(rep)
