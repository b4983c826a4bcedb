"""The runs of src/machine.rs against a reference classification.

Tape, prover and program are stand-ins whose answers are arbitrary but the same
for the same configuration; the reference is evaluated over the same answers.
"""

from __future__ import annotations

from . import rustai, terms as T
from .c12_py import dom
from .pyai import Fake, Undecided, Obj
from .rs_common import root, flat, same
from .rustai import Variant, RMap, some, none

SRC = 'src/machine.rs'


class World:
    def __init__(self, i, tries):
        self.i, self.tries = i, tries
        self.v = 0
        self.memo = {}
        self.events = []
        self.visits = []

    def ask(self, key, make):
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def var(self, name, least=0):
        t = T.var(name)
        self.ask(('var', name), lambda: self.i.assume(T.le(least, t)) or True)
        return t

    def choose(self, key, what, options):
        return self.ask(key, lambda: options[self.i.choose_n(len(options), f'configuration {key[1]}: {what}')])

    def scan(self, v):
        return self.var(f'c.scan{v}')

    def marks(self, v):
        return self.var(f'n.marks{v}')

    def edge(self, v, shift):
        return self.choose(('edge', v, shift), f'at the {"right" if shift else "left"} edge', (False, True))

    def blank(self, v):
        return self.choose(('blank', v), 'tape blank', (False, True))

    def step(self, v):
        return self.var(f'n.step{v}', 1)

    def rule(self, v):
        return self.choose(('rule', v), 'try_rule', self.tries)

    def applied(self, v):
        return self.choose(('apply', v), 'rule applies', (True, False))

    def times(self, v):
        return self.var(f'times{v}', 1)

    def instr(self, v):
        if not self.choose(('prog', v), 'instruction', (True, False)):
            return None
        return self.ask(('instr', v), lambda: (self.var(f'c.print{v}'), self.choose(('right', v), 'moves right', (True, False)),
                                               self.var(f's.next{v}')))


def reference(w, i, n, prover):
    state, steps, v, rulapp, blanks = 0, 0, 0, 0, []
    result, slot = 'xlimit', None
    cycle = 0
    for cycle in range(n):
        if prover:
            r = w.rule(v)
            if r in ('ConfigLimit', 'InfiniteRule', 'MultRule'):
                result = {'ConfigLimit': 'cfglim', 'InfiniteRule': 'infrul', 'MultRule': 'mulrul'}[r]
                break
            if r == 'Got' and w.applied(v):
                rulapp = T.add(rulapp, w.times(v))
                v += 1
                continue
        ins = w.instr(v)
        if ins is None:
            result, slot = 'undfnd', (state, w.scan(v))
            break
        color, shift, nxt = ins
        stay = i.truth(T.eq(state, nxt))
        if stay and w.edge(v, shift):
            result = 'spnout'
            break
        steps = T.add(steps, w.step(v))
        state = nxt
        v += 1
        if i.truth(T.eq(color, 0)) and w.blank(v):
            if any(i.truth(T.eq(s, state)) for s, _ in blanks):
                result = 'infrul'
                break
            blanks.append((state, steps))
            if i.truth(T.eq(state, 0)):
                result = 'infrul'
                break
    return {'result': result, 'steps': steps, 'cycles': cycle, 'marks': w.marks(v), 'rulapp': rulapp, 'blanks': blanks,
            'undfnd': (steps, slot) if slot else None,
            'simple_termination': steps if result in ('undfnd', 'spnout') else None,
            'halted': steps if result == 'undfnd' else None,
            **{k: steps if result == k else None for k in ('infrul', 'spnout', 'xlimit', 'cfglim')}}


def tape_fake(w, i):
    tape = Fake('tape')

    def here(f):
        return lambda i, a: f(w.v, i, [i.strip(x) for x in a])

    def step(v, i, a):
        ins = w.instr(v)
        if ins is None:
            w.events.append(('the tape moves although no instruction is defined', False))
            raise Undecided('no instruction')
        w.events.append((f'the tape is stepped with {a}, the instruction is {ins}', T.land(same(a[0], ins[1]), T.eq(a[1], ins[0]))))
        w.visits.append(('skip', v, a[2]))
        w.v += 1
        return w.step(v)
    table = {'at_edge': here(lambda v, i, a: w.edge(v, bool(i.truth(a[0])))), 'blank': here(lambda v, i, a: w.blank(v)),
             'marks': here(lambda v, i, a: w.marks(v)), 'step': here(step)}

    def attr(i, name):
        if name in table:
            return table[name]
        if name == 'scan':
            return w.scan(w.v)
        return None
    tape.attr = attr
    return tape


def prog_fake(w, i):
    prog = Fake('program')

    def get(i, a):
        v = w.v
        key = i.strip(a[0])
        key = flat(i, key)
        w.visits.append(('state', v, key[0]))
        w.events.append(('the instruction of another colour than the scanned one is looked up', T.eq(key[1], w.scan(v))))
        ins = w.instr(v)
        return none() if ins is None else some(ins)
    prog.attr = lambda i, name: get if name in ('get', 'get_instr') else None
    return prog


def check(rep):
    rule = 'rs:run'
    full = [None, 'Got', 'InfiniteRule', 'ConfigLimit', 'MultRule']
    for fname, plans in (('run_prover', ((1, full, None), (2, full, None), (3, [None, 'Got'], None), (4, [None], 'blank'), (5, [None, 'Got'], 'marks'))),
                         ('run_quick_machine', ((1, [None], None), (2, [None], None), (3, [None], None), (4, [None], 'blank')))):
        where = f'{SRC}::{fname}'
        for n, tries, world in plans:
            prover = fname == 'run_prover'

            def body(i):
                w = World(i, tries)
                for v in range(8 if world else 0):
                    w.memo[('edge', v, True)] = w.memo[('edge', v, False)] = False
                    w.memo[('blank', v)] = world == 'blank'
                    w.memo[('prog', v)] = True
                    w.memo[('instr', v)] = (0, True, w.var(f's.next{v}')) if world == 'blank' else (1, True, v + 1)
                tape, prog = tape_fake(w, i), prog_fake(w, i)
                pr = Fake('prover')

                def try_rule(i, a):
                    v = w.v
                    a = [i.strip(x) for x in a]
                    w.visits.append(('state', v, a[1]))
                    if a[2] is not tape:
                        w.events.append(('the prover is given another tape', False))
                    r = w.rule(v)
                    if r is None:
                        return none()
                    return some(i.variant('prover', 'ProverResult', r, *([Fake(f'rule{v}')] if r == 'Got' else [])))
                pr.attr = lambda i, name: try_rule if name == 'try_rule' else None

                def apply(i, a, k=None):
                    v = w.v
                    a = [i.strip(x) for x in a]
                    if not (isinstance(a[0], Fake) and a[0].name == f'rule{v}') or a[1] is not tape:
                        w.events.append((f'apply_rule is given {a}', False))
                    if not w.applied(v):
                        return none()
                    w.v += 1
                    return some(w.times(v))

                def made(i, a, k=None):
                    if a and i.strip(a[0]) is not prog:
                        w.events.append(('the prover is given another program', False))
                    return pr

                def init(i, a, k=None):
                    w.events.append(('the tape does not start on blank', T.eq(i.strip(a[0]), 0)))
                    return tape
                i.hooks.update({'src/instrs.rs::CompProg::from_str': lambda i, a, k=None: prog,
                                'src/tape.rs::Tape::init': init, 'src/prover.rs::Prover::new': made,
                                'src/rules.rs::apply_rule': apply})
                res = i.strip(i.run(f'machine::{fname}', ['prog', n]))
                got = {}
                for f in ('result', 'steps', 'cycles', 'marks', 'rulapp', 'undfnd', 'simple_termination', 'halted', 'infrul', 'spnout',
                          'xlimit', 'cfglim'):
                    x = res.f['marks'] if f == 'marks' else i.method(res, f)
                    x = i.strip(x)
                    if isinstance(x, Variant) and x.enum == 'Option':
                        x = None if x.name == 'None' else flat(i, x.args[0])
                    elif isinstance(x, Variant):
                        x = x.name
                    got[f] = x
                # marks have a getter too
                got['marks'] = flat(i, i.method(res, 'marks'))
                b = i.strip(i.method(res, 'blanks'))
                got['blanks'] = [(flat(i, k), flat(i, x)) for k, x in b.pairs]
                ref = reference(w, i, n, prover)
                state = {0: 0}
                for v in range(8):
                    if w.memo.get(('rule', v)) == 'Got' and w.memo.get(('apply', v)):
                        state[v + 1] = state.get(v)
                    elif ('instr', v) in w.memo:
                        state[v + 1] = w.memo[('instr', v)][2]
                for kind, v, x in w.visits:
                    if kind == 'state' and state.get(v) is not None:
                        w.events.append(('the prover or the program is asked about another state', T.eq(x, state[v])))
                    if kind == 'skip' and state.get(v) is not None and state.get(v + 1) is not None:
                        w.events.append(('a run is skipped although the state changes',
                                         T.lor(T.lnot(x) if isinstance(x, T.Term) else not x, T.eq(state[v], state[v + 1]))))
                return w, got, ref
            for p in rustai.explore(root(), body, max_paths=60000, max_iter=12, hooks={}):
                rep.paths += 1
                rep.units.update(p.i.visited)
                if p.undecided:
                    rep.unknown(rule, p.undecided)
                    continue
                if p.exc:
                    rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', dom)
                    continue
                w, got, ref = p.result
                if sum(bool(rep.settled(rule, f'{where} ({f})')) for f in ref):
                    return
                for what, c in w.events:
                    rep.oblige('rs:run-protocol', where, p.facts, c, lambda: f'{what}, on {p.describe()}', dom)
                for f, want in ref.items():
                    g = got[f]
                    if f == 'blanks':
                        ok = len(g) == len(want) and T.land(*[T.lor(*[T.land(T.eq(a, c), T.eq(b, d)) for c, d in want]) for a, b in g])
                    else:
                        ok = same(g, want) if g is not None and want is not None else g is None and want is None
                    rep.oblige(rule, f'{where} ({f})', p.facts, ok, lambda: f'{f} is {g!r}, expected {want!r}, on {p.describe()}', dom)


# ---------------------------------------------------------------- quick_term_or_rec

def check_recurrence(rep):
    """Answering that a machine spins out or recurs must be backed by what happened."""
    rule = 'rs:recurrence'
    where = f'{SRC}::quick_term_or_rec'
    for n in (2, 3, 4, 5, 6):
        def body(i):
            w = World(i, [None])
            heads, states = {0: T.var('n.head')}, {0: 1}
            snap = []
            calls = []

            def fake(v0=None):
                """The running tape, or a copy of configuration v0."""
                t = Fake('tape' if v0 is None else f'copy{v0}')

                def at(i):
                    return w.v if v0 is None else v0

                def step(i, a):
                    if v0 is not None:
                        w.events.append(('a copy of the tape is stepped', False))
                        raise Undecided('copy stepped')
                    v = w.v
                    a = [i.strip(x) for x in a]
                    ins = w.instr(v)
                    if ins is None:
                        raise Undecided('no instruction')
                    w.events.append((f'the tape is stepped with {a}, the instruction is {ins}', T.land(same(a[0], ins[1]), T.eq(a[1], ins[0]))))
                    w.visits.append((v, a[2]))
                    d = w.step(v)
                    w.v += 1
                    heads[w.v] = T.add(heads[v], d) if ins[1] else T.sub(heads[v], d)
                    states[w.v] = ins[2]
                    return d

                def aligns(i, a):
                    a = [i.strip(x) for x in a]
                    v = at(i)
                    ref = a[0].v if isinstance(a[0], Fake) and hasattr(a[0], 'v') else None
                    r = w.choose(('aligns', v, ref), f'aligns with {ref}', (False, True))
                    calls.append((v, ref, a[1], a[2], r))
                    return r

                def edge(i, a):
                    v = at(i)
                    r = w.edge(v, bool(i.truth(i.strip(a[0]))))
                    calls.append(('edge', v, bool(i.truth(i.strip(a[0]))), r))
                    return r

                def clone(i, a):
                    return fake(at(i))
                table = {'head': lambda i, a: heads[at(i)], 'scan': lambda i, a: w.scan(at(i)), 'step': step, 'clone': clone,
                         'aligns_with': aligns, 'at_edge': edge}
                t.attr = lambda i, name: table.get(name)
                t.v = v0
                return t
            i.hooks['src/tape.rs::HeadTape::init_stepped'] = lambda i, a, k=None: fake()
            # the run must start where HeadTape::init_stepped leaves it: in the state the first instruction goes to
            drop = w.choose(('drop', 0), 'drop_halt', (False, True))
            prog = prog_fake(w, i)
            got = i.strip(i.run('machine::quick_term_or_rec', [prog, n, drop]))
            got = got if isinstance(got, bool) else i.truth(got)
            for kind, v, x in [y for y in w.visits if y[0] == 'state']:
                w.events.append(('the instruction of another state is looked up', T.eq(x, states[v])))
            for y in w.visits:
                if y[0] != 'state' and y[0] + 1 in states:
                    w.events.append(('a run is skipped although the state changes',
                                     T.lor(T.lnot(y[1]) if isinstance(y[1], T.Term) else not y[1], T.eq(states[y[0]], states[y[0] + 1]))))
            why = []
            v = w.v
            if got:
                last = w.memo.get(('prog', v))
                if last is False:
                    why.append(drop)
                for c in calls:
                    if c[0] == 'edge':
                        # spinning out: the state repeats, moving outward over the edge of blank
                        if c[1] == v and c[3] and w.memo.get(('instr', v)) and w.memo[('instr', v)][1] == c[2]:
                            why.append(T.eq(states[v], w.memo[('instr', v)][2]))
                    elif c[4] and c[0] == v and c[1] is not None and c[1] < v:
                        r = c[1]
                        why.append(T.land(T.eq(states[r], states[v]),
                                          *[T.le(c[2], heads[k]) for k in range(r, v + 1)],
                                          *[T.le(heads[k], c[3]) for k in range(r, v + 1)]))
            if not got:
                fin = w.v
                missed = []
                for u in range(fin + 1):
                    ins = w.memo.get(('instr', u))
                    if ins and w.edge(u, ins[1]):
                        missed.append((f'configuration {u} spins out and the answer is no', T.ne(states[u], ins[2])))
                if w.memo.get(('prog', fin)) is False:
                    missed.append(('the run comes to an undefined slot', T.lnot(drop) if isinstance(drop, T.Term) else not drop))
                else:
                    missed.append((f'gives up after {fin} steps of {n - 1}', fin >= n - 1))
                for c in calls:
                    if c[0] != 'edge' and c[4] and c[1] is not None and c[1] < c[0]:
                        missed.append((f'configurations {c[1]} and {c[0]} align and the answer is no', T.lnot(T.land(
                            T.eq(states[c[1]], states[c[0]]),
                            *[T.land(T.le(c[2], heads[k]), T.le(heads[k], c[3])) for k in range(c[1], c[0] + 1)]))))
                seen = [c for c in calls if c[0] != 'edge']
                if all(x == 1 or T.eq(x, states[0]) is True or isinstance(x, T.Term) and i.facts.proved_equal(x, states[0]) for x in states.values()):
                    # always in one state: each configuration is compared with one from not too long ago, for longer and longer
                    for u in range(1, fin + 1):
                        missed.append((f'configuration {u} is compared with {[c[1] for c in seen if c[0] == u]}',
                                       any(c[0] == u and c[1] is not None and 2 * c[1] >= u - 2 for c in seen)))
                    if fin >= 3:
                        missed.append(('configurations further apart are never compared', any(c[1] is not None and c[0] - c[1] >= 2 for c in seen)))
                why = missed
            return w, got, why
        for p in rustai.explore(root(), body, max_paths=20000 if n < 6 else 3000, max_iter=12, hooks={}):
            rep.paths += 1
            rep.units.update(p.i.visited)
            if p.undecided:
                if p.undecided != 'path bound':
                    rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', dom)
                continue
            w, got, why = p.result
            for what, c in w.events:
                rep.oblige('rs:recurrence-protocol', where, p.facts, c, lambda: f'{what}, on {p.describe()}', dom)
            if got:
                rep.oblige(rule, where, p.facts, T.lor(*why), lambda: f'answers true without a spin-out or a recurrence over all cells visited since, on {p.describe()}', dom)
            else:
                for what, c in why:
                    rep.oblige('rs:recurrence-missed', where, p.facts, c, lambda: f'{what}, on {p.describe()}', dom)
