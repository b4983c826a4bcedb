"""Backward reasoning of src/reason.rs: undoing a step, where to start, what is explored before "never" is answered."""

from __future__ import annotations

import itertools

from . import rustai, terms as T
from .pyai import Cut, Fake, Obj, PList, Undecided
from .rs_common import cn, colour_domain, explore_shapes, flat, iff, readspan, root, same
from .rs_tape import long
from .rustai import RMap, RVec, Variant, some, none
from .tape_py import merged, same_run_lengths

SRC = 'src/reason.rs'
BACK = f'{SRC}::Backstepper'
ENDS = ('Blanks', 'Unknown')


def backstepper(i, sh, lend, rend, head):
    st = i.struct('reason', 'Backstepper')
    want = {'scan', 'lspan', 'rspan', 'head', 'l_end', 'r_end'}
    if not want <= set(st.fields):
        raise Undecided(f'a backstepper has no {", ".join(sorted(want - set(st.fields)))}')
    t = sh.tape()
    return Obj(st, {'scan': t.f['scan'], 'lspan': sh.l, 'rspan': sh.r, 'head': head,
                    'l_end': i.variant('reason', 'TapeEnd', lend), 'r_end': i.variant('reason', 'TapeEnd', rend)})


def spans(t):
    return readspan(t.f['lspan'])[0], readspan(t.f['rspan'])[0]


def ends(i, t):
    return i.strip(t.f['l_end']).name, i.strip(t.f['r_end']).name


def stripped(i, span, end):
    span = list(span)
    while end == 'Blanks' and span and i.truth(T.eq(span[-1][0], 0)):
        span.pop()
    return span


def domain(a):
    if a.kind != 'bool' and a.args[0].startswith('h.'):
        return [-2, 0, 3]
    return colour_domain(a)


def check_backstep(rep):
    """A step is undone exactly when it can have been made, and gives the cells before it."""
    for shift, lend, rend in itertools.product((True, False), ENDS, ENDS):
        for what in ('check_step', 'backstep'):
            def body(i, sh):
                head = T.var('h.head')
                t = backstepper(i, sh, lend, rend, head)
                l, r = sh.lists()
                l, r = [tuple(x) for x in l], [tuple(x) for x in r]
                scan = t.f['scan']
                pull, pend = (l, lend) if shift else (r, rend)
                pr = T.var('print')
                i.assume(T.le(0, pr))
                can = T.eq(pr, pull[0][0]) if pull else T.eq(pr, 0) if pend == 'Blanks' else True
                if what == 'check_step':
                    got = i.strip(i.method(t, 'check_step', shift, pr))
                    return t, l, r, scan, head, can, got, None
                if can is not True:
                    i.assume(can)
                read = T.var('color')
                i.assume(T.le(0, read))
                i.method(t, 'backstep', shift, read)
                rest = list(pull)
                if rest:
                    c, n = rest.pop(0)
                    if not i.truth(T.eq(n, 1)):
                        rest.insert(0, (c, T.sub(n, 1)))
                push = [(scan, 1)] + (r if shift else l)
                el, er = (rest, push) if shift else (push, rest)
                gl, gr = spans(t)
                sides = [(merged(i, stripped(i, g, e), None), merged(i, stripped(i, x, e), None))
                         for g, x, e in ((gl, el, lend), (gr, er, rend))]
                return t, l, r, scan, head, read, (el, er), sides
            where = f'{BACK}::{what}'
            for p, sh in explore_shapes(rep, body, canonical=False, cells=3):
                rule = 'rs:undo-possible' if what == 'check_step' else 'rs:undo'
                if p.undecided:
                    if not long(p):
                        rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', domain)
                    continue
                t, l, r, scan, head, x, got, sides = p.result
                i = p.i
                d = f'{lend} {l} [{scan!r}] {r} {rend}, right={shift}'
                if what == 'check_step':
                    ok = isinstance(got, Variant) and got.name == 'Some'
                    rep.oblige(rule, where, p.facts, iff(ok, x) if not isinstance(x, bool) else ok == x,
                               lambda: f'{d}: the step that printed what is there is {"" if ok else "not "}taken for possible ({p.describe()})', domain)
                    rep.oblige(rule, where + ' (pure)', p.facts, same([t.f['scan'], *spans(t)], [scan, l, r]),
                               lambda: f'{d}: changed into {t!r}', domain)
                    continue
                rep.oblige(rule, where, p.facts, T.land(T.eq(t.f['scan'], x), *[same_run_lengths(i, a, b) for a, b in sides]),
                           lambda: f'{d}: undone to {t!r}, expected {got[0]} [{x!r}] {got[1]}', domain)
                rep.oblige(rule, where + ' (runs)', p.facts, T.land(*[T.le(1, n) for g in spans(t) for _, n in g]),
                           lambda: f'{d}: undone to {t!r}, with an empty run', domain)
                rep.oblige(rule, where + ' (head)', p.facts, T.eq(t.f['head'], T.sub(head, 1) if shift else T.add(head, 1)),
                           lambda: f'{d}: the head goes from {head!r} to {t.f["head"]!r}', domain)
                rep.oblige(rule, where + ' (ends)', p.facts, ends(i, t) == (lend, rend), lambda: f'{d}: ends become {ends(i, t)}', domain)
                rep.sample(f'{where}: {d} -> {t!r}')

    def body(i, sh):
        t = backstepper(i, sh, 'Blanks', 'Unknown', 0)
        l, r = sh.lists()
        return l, t.f['scan'], r, i.strip(i.method(t, 'blank'))
    for p, sh in explore_shapes(rep, body, canonical=False, cells=3):
        if p.undecided or p.exc:
            if not long(p):
                rep.unknown('rs:undo-blank', p.undecided or 'panics')
            continue
        l, s, r, got = p.result
        rep.oblige('rs:undo-blank', f'{BACK}::blank', p.facts, iff(got, T.land(*[T.eq(c, 0) for c, _ in l + [(s, 1)] + r])),
                   lambda: f'{l} [{s!r}] {r} is said to be {"" if got else "not "}blank', domain)


# ---------------------------------------------------------------- where the search starts

def explore(rep, body, max_paths=6000, **kw):
    for p in rustai.explore(root(), body, max_paths=max_paths, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        yield p


def configs_of(i, got):
    out = []
    for c in i.strip(got).items:
        c = i.strip(c)
        t = i.strip(c.f['tape'])
        out.append((i.strip(c.f['state']), t.f['scan'], spans(t), ends(i, t)))
    return out


def covers(c, state, scan, lend, rend):
    """Does a starting point stand for every tape on which the event happens in this state on this colour?"""
    s, sc, (l, r), (a, b) = c
    if l or r or a == 'Blanks' and lend != 'Blanks' or b == 'Blanks' and rend != 'Blanks':
        return False
    return T.land(T.eq(s, state), T.eq(sc, scan))


def program(i, slots):
    m = {}
    for s, c in slots:
        p, t = T.var(f'col.p{s}{c}'), T.var(f's.t{s}{c}')
        i.assume(T.le(0, p))
        i.assume(T.le(0, t))
        m[s, c] = (p, i.choose_n(2, f'{s}{c} goes right') == 1, t)
    return m


def rmap(m):
    return RMap([(k, v) for k, v in m.items()], 'B')


def dom(a):
    if a.kind == 'bool':
        return None
    return [0, 1, 2, 3] if a.args[0].startswith(('col', 's.')) else None


def check_starts(rep):
    shapes = [[(0, 0), (1, 0)], [(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 1)], [(0, 0), (0, 2), (2, 0)], [(0, 0), (1, 1), (1, 2)]]
    for fn, event in (('erase_configs', 'the tape is erased'), ('zero_reflexive_configs', 'the run spins out')):
        for slots in shapes:
            def body(i):
                m = program(i, slots)
                got = configs_of(i, i.run(f'reason::{fn}', [rmap(m)]))
                never = None
                if len(slots) == 2:
                    never = i.strip(i.run('reason::' + ('cant_blank' if fn == 'erase_configs' else 'cant_spin_out'), [rmap(m), 0]))
                return m, got, never
            where = f'{SRC}::{fn}'
            for p in explore(rep, body):
                if p.undecided or p.exc:
                    rep.unknown('rs:starts', p.undecided or f'panics: {p.exc}')
                    continue
                m, got, never = p.result
                for (s, c), (pr, sh, t) in m.items():
                    if fn == 'erase_configs':
                        if c == 0:
                            continue
                        when, need = T.eq(pr, 0), (s, c, 'Blanks', 'Blanks')
                    else:
                        if c != 0:
                            continue
                        when, need = T.eq(t, s), (s, 0, *(('Unknown', 'Blanks') if sh else ('Blanks', 'Unknown')))
                    found = T.lor(False, *[covers(x, *need) for x in got])
                    rep.oblige('rs:starts', where, p.facts, T.lor(T.lnot(when), found),
                               lambda: f'{(s, c)}: {(pr, "R" if sh else "L", t)} is where {event}, and the search does not start there: {got}', dom)
                    if never is None:
                        continue
                    rep.oblige('rs:starts', f'{SRC}::{"cant_blank" if fn == "erase_configs" else "cant_spin_out"}', p.facts,
                               T.lor(T.lnot(when), isinstance(never, Variant) and never.name == 'None'),
                               lambda: f'"never" is answered without a search although {event} at {(s, c)}', dom)
    halts(rep)


def halts(rep):
    full = [(s, c) for s in range(2) for c in range(3)]
    for missing in ([(0, 1)], [(1, 1)], [(1, 2), (0, 1)], [(0, 2), (1, 2)], [(1, 0), (1, 1), (1, 2)]):
        slots = [x for x in full if x not in missing]

        def body(i):
            m = {}
            for k, (s, c) in enumerate(slots):
                # only what is printed and targeted matters
                pr = i.choose_n(3, f'{s}{c} prints') if k == 1 else 1
                t = i.choose_n(2, f'{s}{c} goes to') if k == 2 else 0
                m[s, c] = (pr, bool(k % 2), t)
            got = configs_of(i, i.run('reason::halt_configs', [rmap(m)]))
            return m, got, i.strip(i.run('reason::cant_halt', [rmap(m), 0]))
        for p in explore(rep, body):
            if p.undecided or p.exc:
                rep.unknown('rs:starts', p.undecided or f'panics: {p.exc}')
                continue
            m, got, never = p.result
            top = (max(s for s, _ in m), max(c for _, c in m))
            states = range(1 + max(top[0], *[t for _, _, t in m.values()]))
            colours = range(1 + max(top[1], *[pr for pr, _, _ in m.values()]))
            for s in states:
                for c in colours:
                    if (s, c) in m:
                        continue
                    unseen = s > top[0] or c > top[1]
                    where = f'{SRC}::halt_configs' + (' (slots of a colour or state that has no instruction)' if unseen else '')
                    rep.oblige('rs:starts', where, p.facts, T.lor(False, *[covers(x, s, c, 'Unknown', 'Unknown') for x in got]),
                               lambda: f'{(s, c)} of {m} is undefined, and the search does not start there', dom)
                    if not unseen:
                        rep.oblige('rs:starts', f'{SRC}::cant_halt', p.facts, isinstance(never, Variant) and never.name == 'None',
                                   lambda: f'"never" is answered without a search although {(s, c)} of {m} is undefined', dom)


def chains(m):
    """States that can have been run for arbitrarily long before: the rest only lie behind the start."""
    preds = {}
    for (s, _), (_, _, t) in m.items():
        preds.setdefault(t, set()).add(s)
    live = set(preds)
    while True:
        nxt = {t for t in live if preds[t] & live}
        if nxt == live:
            return live
        live = nxt


def check_entries(rep):
    """Whoever runs into a state is known to the search."""
    rule = 'rs:entries'
    slots = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]
    for skip in (None, (1, 1), (2, 0)):
        use = [x for x in slots if x != skip]

        def body(i):
            m = {(s, c): (1, c == 0, i.choose_n(3, f'{s}{c} goes to')) for s, c in use}
            got = i.strip(i.run('reason::get_entrypoints', [rmap(m)]))
            return m, {flat(i, k): [flat(i, x) for x in i.strip(v).items] for k, v in got.pairs}
        for p in explore(rep, body):
            if p.undecided or p.exc:
                rep.unknown(rule, p.undecided or f'panics: {p.exc}')
                continue
            m, got = p.result
            live = chains(m)
            reach = {0}
            while True:
                more = {t for (s, _), (_, _, t) in m.items() if s in reach} | reach
                if more == reach:
                    break
                reach = more
            for (s, c), ins in m.items():
                if s not in reach:
                    continue
                t = ins[2]
                where = f'{SRC}::get_entrypoints' + ('' if s in live else ' (from a state that is only run at the start)')
                rep.oblige(rule, where, p.facts, ((s, c), ins) in got.get(t, []),
                           lambda: f'{(s, c)}: {ins} of {m} runs into state {t}, and the search does not go back that way')


# ---------------------------------------------------------------- what is explored

class Node:
    def __init__(self, path, state, head):
        self.path, self.state, self.head = path, state, head
        self.asked = {}
        self.kids = []
        self.aligned = {}
        self.isblank = None


class World:
    def __init__(self, i, edges):
        # edges: True: ends of the tape are met; a slot's (shift, print): only that step back is ever possible, no tape is blank
        self.i, self.edges, self.nodes = i, edges, []
        self.only = edges if isinstance(edges, tuple) else None

    def tape(self, node):
        f = Fake(f'tape {node.path}')
        i = self.i

        def check_step(i, a):
            shift, pr = [i.strip(x) for x in a]
            key = (bool(i.truth(shift)), pr)
            if key not in node.asked and self.only:
                node.asked[key] = some(False) if key == self.only else none()
            if key not in node.asked:
                node.asked[key] = (none(), some(False), some(True))[i.choose_n(3 if self.edges is True else 2, f'{node.path}: step {key} possible')]
            return node.asked[key]

        def clone(i, a):
            kid = Node(None, None, node.head)
            kid.parent = node
            return self.tape(kid)

        def backstep(i, a):
            shift, read = [i.strip(x) for x in a]
            if node.path is not None:
                raise Undecided('a tape is stepped more than once')
            shift = bool(i.truth(shift))
            node.path = (*node.parent.path, (shift, read))
            node.head = node.parent.head + (-1 if shift else 1)
            node.parent.kids.append((shift, read, node))
            self.nodes.append(node)
            return ()

        def blank(i, a):
            if node.isblank is None:
                node.isblank = self.only is None and i.choose_n(2, f'{node.path}: blank') == 1
            return node.isblank

        def aligns(i, a):
            other = i.strip(a[0])
            return node.aligned.setdefault(other.name, None) or self.choose_align(node, other.name)
        table = {'check_step': check_step, 'clone': clone, 'backstep': backstep, 'blank': blank, 'aligns_with': aligns,
                 'head': lambda i, a: node.head}

        def attr(i, name):
            if name in table:
                return table[name]
            if name == 'scan':
                v = T.var(f'col.{node.path}')
                i.assume(T.le(0, v))
                return v
            return None
        f.attr = attr
        f.node = node
        return f

    def choose_align(self, node, name):
        node.aligned[name] = self.i.choose_n(2, f'{node.path} aligns with {name}') == 1
        return node.aligned[name]


PROGRAMS = [
    # what is there, where the search starts, how deep, at-edge answers
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 0)}, [1], 3, False),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 0)}, [0], 2, True),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 0), (1, 1): (2, True, 1)}, [1], 2, False),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 2), (2, 1): (2, True, 0), (2, 0): (2, False, 1)}, [1], 2, False),
    ({(0, 0): (1, True, 1), (0, 1): (1, True, 1), (1, 0): (1, False, 0)}, [1], 2, False),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 0)}, [0, 1], 2, False),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 0), (2, 1): (2, False, 0), (1, 1): (0, False, 2)}, [1, 2], 2, False),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 1), (1, 1): (0, True, 0)}, [1], 1, True),
    ({(0, 0): (1, True, 2), (1, 0): (1, False, 0), (1, 1): (2, False, 1), (2, 0): (2, True, 1)}, [1], 2, False),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 0), (1, 1): (2, True, 1)}, [1], 5, (True, 2)),
    ({(0, 0): (1, True, 1), (1, 0): (1, False, 0), (1, 1): (2, False, 1)}, [1], 5, (False, 2)),
]


def check_search(rep):
    """When "never" is answered, every way back from every starting point has been followed to its end."""
    rule = 'rs:search'
    for fn, start in (('cant_halt', 'halt_configs'), ('cant_blank', 'erase_configs'), ('cant_spin_out', 'zero_reflexive_configs')):
        for m, starts, depth, edges in PROGRAMS if fn == 'cant_halt' else PROGRAMS[:1]:
            def body(i):
                w = World(i, edges)
                tops = []

                def begin(i, a, k=None):
                    out = []
                    for n, s in enumerate(starts):
                        node = Node((f'start {n}',), s, 0)
                        w.nodes.append(node)
                        tops.append(node)
                        out.append(i.run('reason::Config::new', [s, w.tape(node)]))
                    return RVec(out)
                i.hooks[f'{SRC}::{start}'] = begin
                res = i.strip(i.run(f'reason::{fn}', [rmap(m), depth]))
                return w, tops, res
            where = f'{SRC}::{fn}'
            for p in explore(rep, body, max_paths=40000, max_iter=12, hooks={}):
                if p.undecided or p.exc:
                    rep.unknown(rule, p.undecided or f'panics: {p.exc}')
                    continue
                w, tops, res = p.result
                if res.name == 'None':
                    rep.ok('rs:search-gives-up')
                    continue
                if not tops:
                    rep.oblige(rule, where, p.facts, False, 'the search does not start where it should')
                    continue
                why = open_end(m, w)
                rep.oblige(rule, where, p.facts, why is None,
                           lambda: f'"never" is answered for {m} after {depth} or fewer steps although {why} ({p.describe()})')


def open_end(m, w):
    """What was left unexplored, if anything.  Slots are told apart by where they move and what they read."""
    blank_in = []
    for node in w.nodes:
        if node.state is None:
            continue
        covered = False
        if node.isblank:
            if node.state == 0 and len(node.path) > 1:
                return f'the blank tape in the first state is met at {node.path}'
            covered = node.state in blank_in
            blank_in.append(node.state)
        for (s, c), (pr, sh, t) in m.items():
            if t != node.state:
                continue
            ans = node.asked.get((sh, pr))
            if ans is None:
                if covered:
                    continue
                return f'at {node.path} in state {node.state} nobody asked whether {(s, c)} led there'
            if ans.name == 'None':
                continue
            kids = [k for sh2, c2, k in node.kids if sh2 == sh and c2 == c]
            if not kids:
                return f'at {node.path} in state {node.state} the step back to {(s, c)} is possible and was not made'
            kids[0].state = s
    return None


def check_wrappers(rep):
    """What Python calls asks the analysis of its name, about the whole program."""
    rule = 'rs:asked'
    seg = 'src/segment.rs::segment_cant_halt'
    for name, qual in (('py_cant_halt', f'{SRC}::cant_halt'), ('py_cant_blank', f'{SRC}::cant_blank'),
                       ('py_cant_spin_out', f'{SRC}::cant_spin_out'), ('py_segment_cant_halt', seg)):
        def body(i):
            got = []

            def hook(i, a, k=None):
                got.append([i.strip(x) for x in a])
                return some(77)
            # the shapes of programs: what is defined, printed, targeted
            m = {(0, 0): (1, True, 1)}
            if i.choose_n(2, 'second state has instructions'):
                m[1, i.choose_n(2, 'of colour')] = (i.choose_n(4, 'printed'), False, i.choose_n(4, 'target'))
            else:
                m[0, 1] = (i.choose_n(4, 'printed'), True, i.choose_n(4, 'target'))
            prog = rmap(m)
            depth = T.var('n.depth')
            i.assume(T.le(2, depth))
            for q in (f'{SRC}::cant_halt', f'{SRC}::cant_blank', f'{SRC}::cant_spin_out', seg):
                i.hooks[q] = hook if q == qual else lambda i, a, k=None: none()
            i.hooks['src/instrs.rs::CompProg::from_str'] = lambda i, a, k=None: prog
            res = i.strip(i.run(f'lib::wrappers::{name}', ['prog', depth]))
            return m, prog, depth, got, res
        where = f'src/lib.rs::{name}'
        for p in explore(rep, body, hooks={}):
            if p.undecided or p.exc:
                rep.unknown(rule, p.undecided or f'panics: {p.exc}')
                continue
            m, prog, depth, got, res = p.result
            rep.oblige(rule, where, p.facts, len(got) == 1 and got[0][0] is prog and flat(p.i, res) == ('Some', 77),
                       lambda: f'the analysis is asked {len(got)} times and {res!r} is answered for its Some(77)')
            if len(got) != 1:
                continue
            rep.oblige(rule, where + ' (limit)', p.facts, T.eq(got[0][-1], depth), lambda: f'given the limit {got[0][-1]!r}')
            if qual == seg:
                s, c = flat(p.i, got[0][1])
                rep.oblige(rule, where + ' (size)', p.facts,
                           T.land(*[T.land(T.lt(max(a, t), s), T.lt(max(b, pr), c)) for (a, b), (pr, _, t) in m.items()]),
                           lambda: f'{m} is analysed as a program of {s!r} states and {c!r} colours')
