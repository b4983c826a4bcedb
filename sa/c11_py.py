"""The rule prover (tm/prover.py) against a reference protocol.

Tapes are stand-ins whose contents form a tree: every tape is named by the
moves and rule applications made since the tape the prover was given, whatever
it answers is arbitrary, and two tapes with one name answer the same.
"""

from __future__ import annotations

from . import terms as T
from .pyai import Fake, Native, PyExc, Undecided, Obj, PDict, PList, explore
from .c02_py import flat
from .num_ai import repo
from .c12_py import rust_stub, dom

P = 'tm.prover'


class Node:
    """The contents of a tape."""

    def __init__(self, w, name, sig=None):
        self.w, self.name = w, name
        self.kids = {}
        self.sig_ = sig
        self.n = w.fresh()

    def child(self, *key):
        if key not in self.kids:
            self.kids[key] = Node(self.w, f'{self.name}.{"".join(map(str, key))}')
        return self.kids[key]

    def scan(self):
        t = T.var(f'c.scan{self.n}')
        return self.w.ask((self.n, 'scan'), lambda: self.w.i.assume(T.le(0, t)) or t)

    def sig(self):
        if self.sig_ is None:
            self.sig_ = (self.scan(), self.w.span(f'{self.n}l', self.w.lens), self.w.span(f'{self.n}r', self.w.lens))
        return self.sig_

    def compatible(self, sig):
        return self.w.ask((self.n, 'compat', sig), lambda: bool(self.w.i.choose_n(2, f'{self.name} is compatible with the signature')))

    def counts(self):
        return f'counts({self.name})'

    def lens(self):
        return self.w.ask((self.n, 'lens'), lambda: [(1, 1), (2, 1), (1, 0)][self.w.i.choose_n(3, f'{self.name}: span lengths')])

    def offsets(self):
        return self.w.ask((self.n, 'offsets'), lambda: [(0, 0), (1, 0), (1, 1), (2, 1)][self.w.i.choose_n(4, f'{self.name}: offsets')])

    def edges(self):
        return self.w.ask((self.n, 'edges'), lambda: [(False, False), (True, False), (False, True)][self.w.i.choose_n(3, f'{self.name}: edges')])


class World:
    def __init__(self, i, lens=0, defined=('defined', 'undefined', 'loop'), apply=('times', 'no', 'limit')):
        self.i, self.memo, self.k = i, {}, 0
        self.lens, self.defined, self.apply_ = lens, defined, apply
        self.shown = {}
        self.log = []
        self.exc = {n: i.load(h).env.vars[n] for h, n in (
            ('tm.rules', 'InfiniteRule'), ('tm.rules', 'RuleLimit'), ('tm.rules', 'SuspectedRule'),
            ('tm.prover', 'ConfigLimit'), ('tm.macro', 'MacroInfLoop'))}

    def fresh(self):
        self.k += 1
        return self.k

    def ask(self, key, make):
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def span(self, name, n):
        out = []
        for j in range(n):
            c = T.var(f'c.{name}{j}')
            self.i.assume(T.le(0, c))
            out.append((c,) if self.i.choose_n(2, f'run {name}{j} single') else c)
        return tuple(out)

    def instr(self, state, scan):
        i = self.i
        for (s, c), v in self.shown.items():
            if i.truth(T.land(T.eq(s, state), T.eq(c, scan))):
                return v
        k = self.defined[i.choose_n(len(self.defined), f'instruction of {state!r},{scan!r}')]
        if k == 'defined':
            n = self.fresh()
            c, s = T.var(f'c.print{n}'), T.var(f's.next{n}')
            i.assume(T.le(0, c))
            i.assume(T.le(0, s))
            v = k, (c, T.var(f'right{n}', 'bool'), s)
        else:
            v = k, None
        self.shown[(state, scan)] = v
        return v

    def apply(self, rule, node):
        return self.ask((node.n, 'apply', rule), lambda: self.apply_[self.i.choose_n(len(self.apply_), f'apply {rule} to {node.name}')])

    # the stand-ins ---------------------------------------------------------

    def tape(self, node, enum=False):
        w = self

        def attr(i, name):
            nd = t.node
            if name == 'scan':
                return nd.scan()
            if name == 'signature':
                return nd.sig()
            if name in ('counts', 'span_lens'):
                return nd.counts() if name == 'counts' else nd.lens()
            if name in ('offsets', 'edges') and enum:
                return nd.offsets() if name == 'offsets' else nd.edges()
            if name == 'clone':
                return Native('clone', lambda i, a, k: w.tape(t.node, enum))
            if name == 'to_enum':
                return Native('to_enum', lambda i, a, k: w.tape(t.node, True))
            if name == 'sig_compatible':
                return Native('compat', lambda i, a, k: t.node.compatible(flat((list(a) + list(k.values()))[0])))
            if name == 'step':
                def f(i, a, k):
                    a = list(a) + [k[x] for x in ('shift', 'color', 'skip') if x in k]
                    t.node = t.node.child('step', *key(a))
                    n = T.var(f'n.{t.node.n}')
                    return n
                return Native('step', f)
            return NotImplemented

        def key(a):
            return a[0], a[1], bool(w.i.truth(a[2]))
        t = Fake('tape', attr)
        t.node = node
        t.enum = enum
        return t

    def install(self):
        i, w = self.i, self

        def apply(i, a, k):
            a = list(a) + [k[x] for x in ('rule', 'tape') if x in k]
            r = a[0].name if isinstance(a[0], Fake) else str(flat(a[0]))
            o = w.apply(r, a[1].node)
            if o == 'limit':
                raise PyExc(w.exc['RuleLimit'], ('apply',))
            if o == 'no':
                return None
            a[1].node = a[1].node.child('rule', r)
            return T.var(f'n.times{a[1].node.n}')

        def item(i, slot):
            s = flat(slot)
            k, v = w.instr(*s)
            if k == 'undefined':
                raise PyExc(KeyError, (slot,))
            if k == 'loop':
                raise PyExc(w.exc['MacroInfLoop'])
            return v
        i.hooks['tm.rules.apply_rule'] = apply
        self.prog = Fake('program', None, item)
        p = i.call(i.load(P).env.vars['Prover'], [self.prog])
        return p

    # the reference ---------------------------------------------------------

    def matches(self, msig, sig):
        i = self.i
        (scan, l, r), (lex, rex) = msig
        if not i.truth(T.eq(scan, sig[0])):
            return False
        for pat, got, ex in ((l, sig[1], lex), (r, sig[2], rex)):
            if len(pat) > len(got) or (ex and len(pat) != len(got)):
                return False
            for x, y in zip(pat, got):
                if isinstance(x, tuple) != isinstance(y, tuple):
                    return False
                if not i.truth(T.eq(x[0], y[0]) if isinstance(x, tuple) else T.eq(x, y)):
                    return False
        return True

    def known(self, rules, state, node):
        """rules: [(state, msig, rule)] in the order stored."""
        for s, m, r in rules:
            if self.i.truth(T.eq(s, state)) and self.matches(m, node.sig()):
                return r
        return None

    def simulate(self, rules, steps, state, node):
        """(node, state or None); raises PyExc by name."""
        i = self.i
        for _ in range(steps):
            r = self.known(rules, state, node) if rules else None
            if r is not None:
                o = self.apply(r, node)
                if o == 'limit':
                    raise RefExc('RuleLimit')
                if o == 'times':
                    node = node.child('rule', r)
                    continue
            k, ins = self.instr(state, node.scan())
            if k == 'undefined':
                return node, None
            if k == 'loop':
                raise RefExc('MacroInfLoop')
            c, sh, nxt = ins
            node = node.child('step', sh, c, bool(i.truth(T.eq(state, nxt))))
            state = nxt
        return node, state


class RefExc(Exception):
    pass


def attempt(f):
    try:
        return f(), None
    except PyExc as e:
        return None, e.name


def ref_attempt(f):
    try:
        return f(), None
    except RefExc as e:
        return None, str(e)


def run(rep, rule, where, body, **kw):
    for p in explore(repo(), body, hooks=kw.pop('hooks', {}), externs={'tm.rust_stuff': rust_stub}, max_iter=12, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        if p.undecided:
            rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            rep.oblige(rule, where, p.facts, False, f'raises {p.exc.name} on {p.describe()}', dom)
            continue
        if rep.settled(rule, where):
            return
        for ok, text in p.result:
            rep.oblige(rule, where, p.facts, ok, lambda: f'{text}, on {p.describe()}'[:900], dom)


def eqs(a, b):
    """Condition for two answers to be the same."""
    a, b = flat(a), flat(b)
    if a is None or b is None or isinstance(a, (str, Fake)) or isinstance(b, (str, Fake)):
        return a is b or (isinstance(a, str) and a == b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and T.land(*[eqs(x, y) for x, y in zip(a, b)])
    if isinstance(a, (int, T.Term)) and isinstance(b, (int, T.Term)):
        if isinstance(a, bool) or isinstance(b, bool) or getattr(a, 'kind', '') == 'bool':
            return a == b
        return T.eq(a, b)
    return a == b


def matching(rep):
    """The rule found for a tape is the first stored one whose signature the tape agrees with."""
    shapes = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)]
    flags = [(False, False), (True, False), (False, True), (True, True)]
    for given in (True, False):
        for tl, tr in shapes:
            for pl, pr in ([s for s in shapes] if given else [(1, 1)]):
                def body(i):
                    w = World(i)
                    p = w.install()
                    sig = (T.var('c.scan'), w.span('tl', tl), w.span('tr', tr))
                    node = Node(w, 'tape', sig)
                    w.memo[(node.n, 'scan')] = sig[0]
                    ex = flags[i.choose_n(4, 'exact')]
                    rules = [(0, ((T.var('c.a'), w.span('pl', pl), w.span('pr', pr)), ex), 'R1'),
                             (T.var('s.b'), ((T.var('c.b'), (), ()), (False, False)), 'R2')]
                    fk = {r: Fake(r) for _, _, r in rules}
                    for s, m, r in rules:
                        i.call(i.getattr(p, 'set_rule'), [fk[r], s, m])
                    st = T.var('s.st')
                    i.assume(T.le(0, st))
                    got = i.call(i.getattr(p, 'get_rule'), [st, w.tape(node)] + ([sig] if given else []))
                    exp = w.known(rules, st, node)
                    g = got.name if isinstance(got, Fake) else got
                    return [(g == exp, f'rules stored for {[(s, m) for s, m, _ in rules]}; for state {st!r} and signature {sig} the rule found is {g}, expected {exp}')]
                run(rep, 'py:get_rule', f'{P}.Prover.get_rule', body, max_paths=6000)


def simulating(rep):
    """Replaying: known rules where they apply, instructions elsewhere, exactly the steps asked for."""
    for steps in (0, 1, 2):
        for stored in (False, True):
            def body(i):
                w = World(i)
                p = w.install()
                node = Node(w, 'tape')
                rules = [(0, ((T.var('c.a'), (), ()), (False, False)), 'R1')] if stored else []
                for s, m, r in rules:
                    i.call(i.getattr(p, 'set_rule'), [Fake(r), s, m])
                t = w.tape(node)
                got, e = attempt(lambda: i.call(i.getattr(p, 'run_simulator'), [steps, 0, t]))
                exp, e2 = ref_attempt(lambda: w.simulate(rules, steps, 0, node))
                if e or e2:
                    return [(e == e2, f'replaying {steps} steps raises {e}, expected {e2}')]
                return [(t.node is exp[0], f'replaying {steps} steps leaves {t.node.name}, expected {exp[0].name}'),
                        (eqs(got, exp[1]), f'replaying {steps} steps ends in state {got!r}, expected {exp[1]!r}')]
            run(rep, 'py:replay', f'{P}.Prover.run_simulator', body, max_paths=4000)


def trying(rep):
    """What is asked of the tape before a rule is adopted, and what is stored."""
    ops = [('none', None), ('InfiniteRule', None), ('one', {(0, 0): -1}), ('pair', {(0, 0): -1, (1, 0): 1}),
           ('pair2', {(0, 0): -1, (1, 0): 2}), ('mult', {(0, 0): -2, (1, 0): (2, 2)})]
    for first in ('known', 'new', 'seen'):
        for deltas in ([None] if first != 'seen' else [None, (1, 1, 1), (2, 1, 1), (1, 2, 1)]):
            for op, made in (ops if deltas == (1, 1, 1) else [ops[2]]):
                def body(i):
                    w = World(i, defined=('defined', 'undefined') if deltas else ('defined',), apply=('times',))
                    calls = []

                    def make(i, a, k):
                        calls.append(tuple(flat(x) for x in a))
                        if op == 'none':
                            return None
                        if op in w.exc:
                            raise PyExc(w.exc[op])
                        return rule
                    i.hooks['tm.rules.make_rule'] = make
                    past = []

                    def pc_attr(i, name):
                        def f(i, a, k):
                            past.append((name, flat(tuple(a))))
                            return deltas if name == 'next_deltas' else None
                        return Native(name, f)
                    pc = Fake('past configurations', pc_attr)

                    def newpc(i, a, k):
                        past.append(('new', flat(tuple(a))))
                        return pc
                    i.load('tm.rust_stuff').env.vars['PastConfigs'] = Native('PastConfigs', newpc)
                    i.load(P).env.vars['PastConfigs'] = Native('PastConfigs', newpc)
                    p = w.install()
                    rule = PDict(list(made.items())) if made else None
                    sig = (T.var('c.scan'), w.span('l', 2), w.span('r', 1))
                    for c in (sig[0],):
                        i.assume(T.le(0, c))
                    node = Node(w, 'tape', sig)
                    w.memo[(node.n, 'scan')] = sig[0]
                    st, cy = T.var('s.st'), T.var('n.cycle')
                    i.assume(T.le(0, st))
                    i.assume(T.le(1, cy))
                    rules = []
                    if first == 'known':
                        rules = [(st, ((sig[0], (), ()), (False, False)), 'R1')]
                        i.call(i.getattr(p, 'set_rule'), [Fake('R1'), st, rules[0][1]])
                    if first == 'seen':
                        i.setitem(i.getattr(p, 'configs'), sig, pc)
                    t = w.tape(node)
                    got, e = attempt(lambda: i.call(i.getattr(p, 'try_rule'), [cy, st, t]))
                    out = [(t.node is node, 'the machine\'s own tape is moved by the prover')]

                    def saw(want):
                        out.append((len(past) == len(want) and T.land(*[a[0] == b[0] and eqs(a[1], b[1]) for a, b in zip(past, want)]),
                                    f'past configurations: {past}, expected {want}'))

                    def reference():
                        """(rule name or None, expected past calls, expected stored minimal signature or None)"""
                        if first == 'known':
                            return 'R1', [], None
                        if first == 'new':
                            return None, [('new', (st, cy))], None
                        want = [('next_deltas', (st, cy))]
                        if deltas is None:
                            return None, want, None
                        nd, counts = node, [node.counts()]
                        for d in deltas:
                            nd, s = w.simulate(rules, d, st, nd)
                            if s is None or not i.truth(T.eq(s, st)) or not nd.compatible(sig):
                                return None, want, None
                            counts.append(nd.counts())
                        if op == 'InfiniteRule':
                            raise RefExc(op)
                        out.append((calls == [tuple(counts)], f'the rule is made from {calls}, expected {tuple(counts)}'))
                        if op == 'none':
                            return None, want, None
                        if len(made) == 2 and node.lens() == (1, 1) and all(isinstance(v, int) for v in made.values()) \
                                and len({abs(v) for v in made.values()}) == 1:
                            return None, want, None
                        end, _ = w.simulate(rules, deltas[0], st, node)
                        lo, ro = end.offsets()
                        return 'rule', want + [('delete_configs', (st,))], ((sig[0], sig[1][:lo], sig[2][:ro]), end.edges())
                    exp, e2 = ref_attempt(reference)
                    if e or e2:
                        out.append((e == e2, f'raises {e}, expected {e2}'))
                        return out
                    name, want, msig = exp
                    g = 'rule' if got is rule and rule is not None else got.name if isinstance(got, Fake) else got
                    out.append((g == name, f'answers {g}, expected {name}'))
                    saw(want)
                    stored = [(flat(s), flat(m), r) for s, entries in i.getattr(p, 'rules').pairs for m, r in
                              [flat2(x) for x in i.iterate(entries)]]
                    if msig is None:
                        out.append((len(stored) == len(rules), f'rules stored: {stored}, expected none'))
                    else:
                        out.append((len(stored) == 1 and stored[0][2] is rule
                                    and T.land(eqs(stored[0][0], (st, sig[0])), eqs(stored[0][1], msig)),
                                    f'rule stored for {[(s, m) for s, m, _ in stored]}, expected {(st, sig[0])}, {msig}'))
                    return out
                run(rep, 'py:try_rule', f'{P}.Prover.try_rule', body, max_paths=4000)


def flat2(x):
    x = list(x.items) if isinstance(x, PList) else x
    return x[0], x[1]


def check(rep):
    matching(rep)
    simulating(rep)
    trying(rep)
