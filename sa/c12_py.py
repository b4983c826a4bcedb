"""The verdict of a machine run (tm/machine.py) against a reference classification.

The run loop is interpreted over stand-ins for the tape, the prover and the
program; whatever they answer is arbitrary, but asked twice about one
configuration they answer the same.  The reference classification is evaluated
over the same answers and both must agree on every path.
"""

from __future__ import annotations

from . import terms as T
from .terms import Term
from .pyai import Fake, Native, PyExc, Undecided, Obj, Cls, Module, Env, explore, Repo
from .c02_py import flat
from .num_ai import repo

M = 'tm.machine'
FIELDS = ('spnout', 'xlimit', 'undfnd', 'infrul', 'cfglim', 'limrul', 'susrul', 'rulapp', 'steps', 'cycles')


def rust_stub(i):
    """tm.rust_stuff is compiled code; nothing of it is needed by the loops analysed here."""
    m = Module('tm.rust_stuff', None, None)
    m.env = Env(module=m)
    for n in ('tcompile', 'read_slot', 'py_show_comp', 'show_slot', 'show_instr', 'show_state', 'py_opt_block', 'PastConfigs',
              'run_prover', 'py_quick_term_or_rec'):
        def f(i, a, k, n=n):
            raise Undecided(f'call of {n}')
        m.env.vars[n] = Native(n, f)
    return m


def dom(a):
    if a.kind == 'bool':
        return None
    return {'t': [1, 2, 3, 5], 's': [0, 1, 2, 3], 'c': [0, 1, 2], 'n': [1, 2, 4]}.get(a.args[0][0])


class World:
    """The answers of tape, prover and program, memoised per configuration."""

    def __init__(self, i, tries, blanks=True):
        self.i, self.tries = i, tries
        self.version = 0
        self.memo = {}
        self.events = []
        self.blanks = blanks

    def ask(self, key, make):
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def scan(self, v):
        t = T.var(f'c.scan{v}')
        self.ask(('scan', v), lambda: self.i.assume(T.le(0, t)) or t)
        return t

    def at_edge(self, v, shift):
        return self.ask(('edge', v, shift), lambda: bool(self.i.choose_n(2, f'configuration {v}: at the {"right" if shift else "left"} edge')))

    def blank(self, v):
        return self.ask(('blank', v), lambda: bool(self.i.choose_n(2, f'configuration {v}: tape blank')))

    def stepped(self, v, shift, color, skip):
        t = T.var(f'n.step{v}')
        return self.ask(('step', v), lambda: self.i.assume(T.le(1, t)) or t)

    def rule(self, v, cycle, state):
        return self.ask(('rule', v), lambda: self.tries[self.i.choose_n(len(self.tries), f'configuration {v}: try_rule')])

    def applied(self, v):
        return self.ask(('apply', v), lambda: ('times', 'no', 'limit')[self.i.choose_n(3, f'configuration {v}: apply_rule')])

    def times(self, v):
        t = T.var(f'times{v}')
        self.i.assume(T.le(1, t))
        return t

    def instr(self, v):
        k = self.ask(('prog', v), lambda: ('defined', 'undefined', 'loop')[self.i.choose_n(3, f'configuration {v}: instruction')])
        if k != 'defined':
            return k, None

        def mk():
            c, s = T.var(f'c.print{v}'), T.var(f's.next{v}')
            self.i.assume(T.le(0, c))
            self.i.assume(T.le(0, s))
            return c, bool(self.i.choose_n(2, f'configuration {v}: moves right')), s
        return k, self.ask(('instr', v), mk)


def reference(w, i, n, exc):
    out = dict.fromkeys(FIELDS)
    out['rulapp'] = 0
    state, step, v = 0, 0, 0
    seen = []
    cycle = -1
    for cycle in range(n):
        r = w.rule(v, cycle, state)
        if r == 'InfiniteRule':
            out['infrul'] = step
            break
        if r == 'RuleLimit':
            out['limrul'] = f'limit{v}'
            break
        if r == 'ConfigLimit':
            out['cfglim'] = step
            break
        if r == 'SuspectedRule':
            out['susrul'] = (3, 2)
        if r == 'rule':
            a = w.applied(v)
            if a == 'limit':
                out['limrul'] = f'applimit{v}'
                break
            if a == 'times':
                step = -1
                out['rulapp'] = T.add(out['rulapp'], w.times(v))
                v += 1
                continue
        k, ins = w.instr(v)
        if k == 'undefined':
            out['undfnd'] = (step, (f'slot{v}',))
            break
        if k == 'loop':
            out['infrul'] = step
            break
        color, shift, nxt = ins
        same = i.truth(T.eq(state, nxt))
        if same and w.at_edge(v, shift):
            out['spnout'] = step
            break
        d = w.stepped(v, shift, color, same)
        if step != -1:
            step = T.add(step, d)
        state = nxt
        v += 1
        if not i.truth(T.ne(color, 0)) and w.blank(v):
            if any(i.truth(T.eq(s, state)) for s in seen):
                out['infrul'] = step
                break
            seen.append(state)
            if i.truth(T.eq(state, 0)):
                out['infrul'] = step
                break
    else:
        out['xlimit'] = step
    out['steps'], out['cycles'] = step, cycle
    return out


def build(i, w):
    """The stand-ins, and the machine."""
    mod = i.load(M)
    env = mod.env.vars
    exc = {n: env[n] for n in ('InfiniteRule', 'RuleLimit', 'ConfigLimit', 'SuspectedRule', 'MacroInfLoop') if n in env}
    for home, n in (('tm.rules', 'InfiniteRule'), ('tm.rules', 'RuleLimit'), ('tm.rules', 'SuspectedRule'),
                    ('tm.prover', 'ConfigLimit'), ('tm.macro', 'MacroInfLoop')):
        exc[n] = i.load(home).env.vars[n]

    def mismatch(what):
        w.events.append(what)

    def tape_attr(i, name):
        v = w.version
        if name == 'scan':
            return w.scan(v)
        if name == 'blank':
            return w.blank(v)
        if name == 'at_edge':
            def f(i, a, k):
                s = (list(a) + list(k.values()))[0]
                return w.at_edge(v, bool(i.truth(s)))
            return Native('at_edge', f)
        if name == 'step':
            def f(i, a, k):
                a = list(a) + [k[x] for x in ('shift', 'color', 'skip') if x in k]
                kind, ins = w.instr(v)
                if ins is None:
                    mismatch('the tape moves although no instruction is defined')
                    raise PyExc(AssertionError)
                if not i.truth(i.equal(a[1], ins[0])) or bool(i.truth(a[0])) != ins[1]:
                    mismatch(f'the tape is stepped with {a[:2]}, the instruction is {ins}')
                w.skips.append((v, i.truth(a[2])))
                w.version += 1
                return w.stepped(v, *a)
            return Native('step', f)
        return NotImplemented

    tape = Fake('tape', tape_attr)
    state_of = {}

    def prog_item(i, key):
        v = w.version
        key = flat(key)
        if not (isinstance(key, tuple) and len(key) == 2):
            raise Undecided('slot')
        w.lookups.append((v, key[0]))
        if not i.truth(i.equal(key[1], w.scan(v))):
            mismatch('the instruction of another colour than the scanned one is looked up')
        k, ins = w.instr(v)
        if k == 'undefined':
            raise PyExc(KeyError, ((f'slot{v}',),))
        if k == 'loop':
            raise PyExc(exc['MacroInfLoop'])
        return ins

    prog = Fake('program', None, prog_item)

    def prover_attr(i, name):
        if name == 'try_rule':
            def f(i, a, k):
                v = w.version
                a = list(a) + [k[x] for x in ('cycle', 'state', 'tape') if x in k]
                w.tried.append((v, a[0], a[1]))
                if a[2] is not tape:
                    mismatch('the prover is given another tape')
                r = w.rule(v, a[0], a[1])
                if r == 'rule':
                    return Fake(f'rule{v}')
                if r in exc:
                    raise PyExc(exc[r], {'RuleLimit': (f'limit{v}',), 'SuspectedRule': (3, 2)}.get(r, ()))
                return None
            return Native('try_rule', f)
        return NotImplemented
    prover = Fake('prover', prover_attr)

    def apply(i, a, k):
        v = w.version
        a = list(a) + [k[x] for x in ('rule', 'tape') if x in k]
        if not (isinstance(a[0], Fake) and a[0].name == f'rule{v}') or a[1] is not tape:
            mismatch(f'apply_rule is given {a}')
        r = w.applied(v)
        if r == 'limit':
            raise PyExc(exc['RuleLimit'], (f'applimit{v}',))
        if r == 'no':
            return None
        w.version += 1
        return w.times(v)
    i.hooks['tm.tape.Tape'] = lambda i, a, k: tape
    i.hooks['tm.prover.Prover'] = lambda i, a, k: prover
    i.hooks['tm.rules.apply_rule'] = apply
    m = Obj(env['Machine'])
    m.f['program'] = prog
    w.tried, w.lookups, w.skips = [], [], []
    return m


def check(rep):
    rule = 'py:run'
    full = [None, 'rule', 'InfiniteRule', 'RuleLimit', 'ConfigLimit', 'SuspectedRule', 'MacroInfLoop']
    for n, tries in ((1, full), (2, full), (3, [None, 'rule']), (4, [None]), (5, [None, 'rule', 'SuspectedRule', 'MacroInfLoop'])):
        def body(i):
            w = World(i, tries)
            if n == 4:
                # configurations that stay blank: the repetition bookkeeping
                for v in range(6):
                    w.memo[('edge', v, True)] = w.memo[('edge', v, False)] = False
                    w.memo[('blank', v)] = True
                    w.memo[('prog', v)] = 'defined'
                    w.memo[('instr', v)] = (0, True, T.var(f's.next{v}'))
                    i.assume(T.le(0, T.var(f's.next{v}')))
            cycles = n
            if n == 5:
                # a tape that keeps moving through marks: the rule bookkeeping
                cycles = 4
                for v in range(6):
                    w.memo[('edge', v, True)] = w.memo[('edge', v, False)] = False
                    w.memo[('blank', v)] = False
                    w.memo[('prog', v)] = 'defined'
                    w.memo[('instr', v)] = (1, True, v + 1)
            m = build(i, w)
            i.call(i.getattr(m, 'run'), [], {'sim_lim': cycles})
            got = {f: flat(i.getattr(m, f)) for f in FIELDS}
            got['simple_termination'] = flat(i.getattr(m, 'simple_termination'))
            ref = reference(w, i, cycles, None)
            ref['simple_termination'] = ref['undfnd'][0] if ref['undfnd'] is not None else ref['spnout']
            # the configurations the prover and the program were asked about
            state, step = {0: 0}, 0
            for v in range(8):
                if w.memo.get(('apply', v)) == 'times':
                    state[v + 1] = state.get(v)
                elif ('instr', v) in w.memo:
                    state[v + 1] = w.memo[('instr', v)][2]
            for v, c, s in w.tried:
                if state.get(v) is not None and not i.truth(i.equal(s, state[v])):
                    w.events.append('the prover is asked about another state')
            for v, s in w.lookups:
                if state.get(v) is not None and not i.truth(i.equal(s, state[v])):
                    w.events.append('the instruction of another state is looked up')
            for v, sk in w.skips:
                same = i.truth(T.eq(state[v], state[v + 1])) if state.get(v) is not None else sk
                if sk and not same:
                    w.events.append('a run is skipped although the state changes')
            return w, got, ref
        for p in explore(repo(), body, max_paths=60000, hooks={}, externs={'tm.rust_stuff': rust_stub}, max_iter=12):
            rep.paths += 1
            rep.units.update(p.i.visited)
            where = f'{M}.Machine.run'
            if p.undecided:
                rep.unknown(rule, p.undecided)
                continue
            if p.exc:
                rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', dom)
                continue
            w, got, ref = p.result
            if sum(rep.settled(rule, f'{where} ({f})') for f in ref):
                return
            for e in w.events:
                rep.oblige('py:run-protocol', where, p.facts, False, f'{e}, on {p.describe()}', dom)
            for f, want in ref.items():
                g = got[f]
                if want is None or g is None:
                    ok = want is None and g is None
                elif isinstance(want, tuple) and isinstance(g, tuple):
                    ok = g[1:] == want[1:] and T.eq(g[0], want[0])
                elif isinstance(want, str) or isinstance(g, str) or isinstance(want, tuple) or isinstance(g, tuple):
                    ok = flat(g) == want
                else:
                    ok = T.eq(g, want)
                rep.oblige(rule, f'{where} ({f})', p.facts, ok,
                           lambda: f'{f} is {g!r}, expected {want!r}, on {p.describe()}', dom)
