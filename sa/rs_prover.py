"""The rule prover of src/prover.rs against a reference protocol.

As for the Python prover: tapes are stand-ins whose contents form a tree named
by the moves and rule applications made; what they answer is arbitrary, and two
tapes with one name answer the same.
"""

from __future__ import annotations

from . import rustai, terms as T
from .c12_py import dom
from .pyai import Fake, Undecided, Obj, PList
from .rs_common import root, flat, same
from .rustai import Variant, RMap, RVec, some, none

P = 'src/prover.rs::Prover'


class Node:
    def __init__(self, w, name, sig=None):
        self.w, self.name, self.sig_ = w, name, sig
        self.kids = {}
        self.n = w.fresh()

    def child(self, *key):
        for k, nd in self.kids.items():
            if len(k) == len(key) and self.w.i.truth(T.land(*[same(a, b) for a, b in zip(k, key)])):
                return nd
        self.kids[key] = Node(self.w, f'{self.name}.{"".join(map(str, key))}')
        return self.kids[key]

    def scan(self):
        if self.sig_ is not None:
            return self.sig_[0]
        t = T.var(f'c.scan{self.n}')
        return self.w.ask((self.n, 'scan'), lambda: self.w.i.assume(T.le(0, t)) or t)

    def sig(self):
        if self.sig_ is None:
            self.sig_ = (self.scan(), self.w.span(f'{self.n}l', self.w.lens), self.w.span(f'{self.n}r', self.w.lens))
        return self.sig_

    def choose(self, key, what, options):
        return self.w.ask((self.n, key), lambda: options[self.w.i.choose_n(len(options), f'{self.name}: {what}')])

    def compatible(self):
        return self.choose('compat', 'compatible with the signature', (False, True))

    def lens(self):
        return self.choose('lens', 'span lengths', [(1, 1), (2, 1), (1, 0)])

    def offsets(self):
        return self.choose('offsets', 'offsets', [(0, 0), (1, 0), (1, 1), (2, 1)])

    def edges(self):
        return self.choose('edges', 'edges', [(False, False), (True, False), (False, True)])


class World:
    def __init__(self, i, lens=0, defined=(True, False), apply=('times', 'no')):
        self.i, self.memo, self.k = i, {}, 0
        self.lens, self.defined, self.apply_ = lens, defined, apply
        self.shown, self.bad = {}, []

    def fresh(self):
        self.k += 1
        return self.k

    def ask(self, key, make):
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def span(self, name, n, kinds=None):
        if kinds is not None:
            out = self.span_of(name, kinds)
            return out
        out = []
        for j in range(n):
            c = T.var(f'c.{name}{j}')
            self.i.assume(T.le(0, c))
            out.append(('Just' if self.i.choose_n(2, f'run {name}{j} single') else 'Mult', c))
        return tuple(out)

    def span_of(self, name, kinds):
        for j in range(len(kinds)):
            self.i.assume(T.le(0, T.var(f'c.{name}{j}')))
        return tuple((k, T.var(f'c.{name}{j}')) for j, k in enumerate(kinds))

    def sigobj(self, sig):
        i = self.i

        def span(s):
            return RVec([i.variant('tape', 'ColorCount', k, c) for k, c in s], None, i.adt('tape', 'ColorCount'))
        return Obj(i.struct('tape', 'Signature'), {'scan': sig[0], 'lspan': span(sig[1]), 'rspan': span(sig[2])})

    def instr(self, state, scan):
        i = self.i
        for (s, c), v in self.shown.items():
            if i.truth(T.land(T.eq(s, state), T.eq(c, scan))):
                return v
        v = None
        if self.defined[i.choose_n(len(self.defined), f'instruction of {state!r},{scan!r}')]:
            n = self.fresh()
            c, s = T.var(f'c.print{n}'), T.var(f's.next{n}')
            i.assume(T.le(0, c))
            i.assume(T.le(0, s))
            v = (c, T.var(f'right{n}', 'bool'), s)
        self.shown[(state, scan)] = v
        return v

    def apply(self, rule, node):
        return self.ask((node.n, 'apply', rule), lambda: self.apply_[self.i.choose_n(len(self.apply_), f'apply {rule} to {node.name}')])

    def tape(self, node, enum=False):
        w = self
        t = Fake('tape')
        t.node, t.enum = node, enum

        def step(i, a):
            a = [i.strip(x) for x in a]
            t.node = t.node.child('step', a[0], a[1], bool(i.truth(a[2])))
            return T.var(f'n.{t.node.n}')

        def compat(i, a):
            s = flat(i, a[0])
            if w.sig is not None:
                w.bad.append(('a replay is compared with another signature', same(s, flat(i, w.sigobj(w.sig)))))
            return t.node.compatible()
        t.methods = {
            'scan': lambda i, a: t.node.scan(), 'signature': lambda i, a: w.sigobj(t.node.sig()),
            'counts': lambda i, a: Fake(f'counts({t.node.name})'), 'span_lens': lambda i, a: t.node.lens(),
            'clone': lambda i, a: w.tape(t.node, t.enum), 'into': lambda i, a: w.tape(t.node, True),
            'sig_compatible': compat, 'step': step,
        }
        if enum:
            t.methods['offsets'] = lambda i, a: t.node.offsets()
            t.methods['edges'] = lambda i, a: t.node.edges()
        t.attr = lambda i, name: t.node.scan() if name == 'scan' else None
        return t

    sig = None

    def install(self):
        i, w = self.i, self

        def apply(i, a, k=None):
            a = [i.strip(x) for x in a]
            r = a[0].name if isinstance(a[0], Fake) else 'rule'
            if w.apply(r, a[1].node) == 'no':
                return none()
            a[1].node = a[1].node.child('rule', r)
            return some(T.var(f'n.times{a[1].node.n}'))

        def get(i, a):
            s = flat(i, a[0])
            v = w.instr(*s)
            return none() if v is None else some(v)
        i.hooks['src/rules.rs::apply_rule'] = apply
        i.hooks['src/tape.rs::EnumTape::from'] = lambda i, a, k=None: w.tape(i.strip(a[0]).node, True)
        prog = Fake('program')
        prog.methods = {'get_instr': get, 'get': get}
        return i.strip(i.run('prover::Prover::new', [prog]))

    def store(self, p, rules):
        i = self.i
        for s, (sig, ex), r in rules:
            i.method(p, 'set_rule', Fake(r), s, (self.sigobj(sig), ex))

    def matches(self, msig, sig):
        i = self.i
        (scan, l, r), (lex, rex) = msig
        if not i.truth(T.eq(scan, sig[0])):
            return False
        for pat, got, ex in ((l, sig[1], lex), (r, sig[2], rex)):
            if len(pat) > len(got) or (ex and len(pat) != len(got)):
                return False
            for x, y in zip(pat, got):
                if x[0] != y[0] or not i.truth(T.eq(x[1], y[1])):
                    return False
        return True

    def known(self, rules, state, node):
        for s, m, r in rules:
            if self.i.truth(T.eq(s, state)) and self.matches(m, node.sig()):
                return r
        return None

    def simulate(self, rules, steps, state, node):
        for _ in range(steps):
            r = self.known(rules, state, node) if rules else None
            if r is not None and self.apply(r, node) == 'times':
                node = node.child('rule', r)
                continue
            ins = self.instr(state, node.scan())
            if ins is None:
                return node, None
            c, sh, nxt = ins
            node = node.child('step', sh, c, bool(self.i.truth(T.eq(state, nxt))))
            state = nxt
        return node, state


def run(rep, rule, where, body, **kw):
    for p in rustai.explore(root(), body, hooks={}, max_iter=12, **kw):
        rep.paths += 1
        rep.units.update(p.i.visited)
        if p.undecided:
            rep.unknown(rule, p.undecided)
            continue
        if p.exc:
            rep.oblige(rule, where, p.facts, False, f'panics on {p.describe()}', dom)
            continue
        if rep.settled(rule, where):
            return
        for ok, text in p.result:
            rep.oblige(rule, where, p.facts, ok, lambda: f'{text}, on {p.describe()}'[:900], dom)


def opt(i, v):
    v = i.strip(v)
    return None if v.name == 'None' else i.strip(v.args[0])


def matching(rep):
    shapes = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)]
    flags = [(False, False), (True, False), (False, True), (True, True)]
    for given in (True, False):
        for tl, tr in shapes:
            for pl, pr in (shapes if given else [(1, 1)]):
                def body(i):
                    w = World(i)
                    p = w.install()
                    sig = (T.var('c.scan'), w.span('tl', tl), w.span('tr', tr))
                    node = Node(w, 'tape', sig)
                    ex = flags[i.choose_n(4, 'exact')]
                    rules = [(0, ((T.var('c.a'), w.span('pl', pl), w.span('pr', pr)), ex), 'R1'),
                             (T.var('s.b'), ((T.var('c.b'), (), ()), (False, False)), 'R2')]
                    w.store(p, rules)
                    st = T.var('s.st')
                    i.assume(T.le(0, st))
                    got = opt(i, i.method(p, 'get_rule', st, w.tape(node), some(w.sigobj(sig)) if given else none()))
                    exp = w.known(rules, st, node)
                    g = got.name if isinstance(got, Fake) else got
                    return [(g == exp, f'rules stored for {[(s, m) for s, m, _ in rules]}; for state {st!r} and signature {sig} the rule found is {g}, expected {exp}')]
                run(rep, 'rs:get_rule', f'{P}::get_rule', body)


def simulating(rep):
    for steps in (0, 1, 2):
        for stored in (False, True):
            def body(i):
                w = World(i)
                p = w.install()
                node = Node(w, 'tape')
                rules = [(0, ((T.var('c.a'), (), ()), (False, False)), 'R1')] if stored else []
                w.store(p, rules)
                t = w.tape(node)
                got = opt(i, i.method(p, 'run_simulator', steps, 0, t))
                exp = w.simulate(rules, steps, 0, node)
                return [(t.node is exp[0], f'replaying {steps} steps leaves {t.node.name}, expected {exp[0].name}'),
                        ((got is None) == (exp[1] is None) and (got is None or T.eq(got, exp[1])),
                         f'replaying {steps} steps ends in state {got!r}, expected {exp[1]!r}')]
            run(rep, 'rs:replay', f'{P}::run_simulator', body)


def trying(rep):
    ops = [('none', None), ('grow', {(False, 0): 2}), ('growmult', {(False, 0): (2, 1)}), ('one', {(False, 0): -1}),
           ('pair', {(False, 0): -1, (True, 0): 1}), ('pair2', {(False, 0): -1, (True, 0): 2}), ('mult', {(False, 0): -2, (True, 0): (2, 2)}),
           ('trio', {(False, 0): -1, (False, 1): 1, (True, 0): 1})]
    for first in ('known', 'new', 'full', 'seen'):
        for deltas in ([None] if first != 'seen' else [None, (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)]):
            for op, made in (ops if deltas == (1, 1, 1) else [ops[3]]):
                def body(i):
                    w = World(i, apply=('times',))
                    calls = []

                    def mkrule():
                        return RMap([(k, i.variant('rules', 'Op', 'Plus', v) if isinstance(v, int) else i.variant('rules', 'Op', 'Mult', v))
                                     for k, v in made.items()], 'B')

                    def make(i, a, k=None):
                        calls.append([getattr(i.strip(x), 'name', None) for x in a])
                        return none() if op == 'none' else some(mkrule())
                    i.hooks['src/rules.rs::make_rule'] = make
                    past = []
                    pc = Fake('past configurations')

                    def nd_(i, a):
                        past.append(('next_deltas', tuple(i.strip(x) for x in a)))
                        return none() if deltas is None else some(tuple(deltas))

                    def dl(i, a):
                        past.append(('delete_configs', tuple(i.strip(x) for x in a)))
                        return ()
                    pc.methods = {'next_deltas': nd_, 'delete_configs': dl}

                    def newpc(i, a, k=None):
                        past.append(('new', tuple(i.strip(x) for x in a)))
                        return pc
                    i.hooks['src/prover.rs::PastConfigs::new'] = newpc
                    if first == 'full':
                        i.hooks['src/prover.rs::Prover::config_count'] = lambda i, a, k=None: 10 ** 9
                    p = w.install()
                    sig = (T.var('c.scan'), w.span('l', 2, ('Mult', 'Just')), w.span('r', 1, ('Mult',)))
                    i.assume(T.le(0, sig[0]))
                    w.sig = sig
                    node = Node(w, 'tape', sig)
                    st, cy = T.var('s.st'), T.var('n.cycle')
                    i.assume(T.le(0, st))
                    i.assume(T.le(1, cy))
                    rules = []
                    if first == 'known':
                        rules = [(st, ((sig[0], (), ()), (False, False)), 'R1')]
                        w.store(p, rules)
                    if first == 'seen':
                        if not isinstance(p.f.get('configs'), RMap):
                            raise Undecided('configs')
                        p.f['configs'].pairs.append((w.sigobj(sig), pc))
                    t = w.tape(node)
                    got = opt(i, i.method(p, 'try_rule', cy, st, t))
                    out = [(t.node is node, 'the machine\'s own tape is moved by the prover')]
                    out += [(c, what) for what, c in w.bad]

                    def reference():
                        if first == 'known':
                            return 'Got R1', [], None
                        if first == 'new':
                            return None, [('new', (st, cy))], None
                        if first == 'full':
                            return 'ConfigLimit', [], None
                        want = [('next_deltas', (st, cy))]
                        if deltas is None:
                            return None, want, None
                        nd, counts = node, [f'counts({node.name})']
                        for d in deltas:
                            nd, s = w.simulate(rules, d, st, nd)
                            if s is None or not i.truth(T.eq(s, st)) or not nd.compatible():
                                return None, want, None
                            counts.append(f'counts({nd.name})')
                        out.append((calls == [counts], f'the rule is made from {calls}, expected {counts}'))
                        if op == 'none':
                            return None, want, None
                        if not any(isinstance(v, int) and v < 0 for v in made.values()):
                            return 'InfiniteRule', want, None
                        if any(not isinstance(v, int) for v in made.values()):
                            return 'MultRule', want, None
                        if len(made) == 2 and node.lens() == (1, 1) and len({abs(v) for v in made.values()}) == 1:
                            return None, want, None
                        end, _ = w.simulate(rules, deltas[0], st, node)
                        lo, ro = end.offsets()
                        return 'Got rule', want + [('delete_configs', (st,))], ((sig[0], sig[1][:lo], sig[2][:ro]), end.edges())
                    name, want, msig = reference()
                    g = None if got is None else got.name

                    def rname(r):
                        if isinstance(r, Fake):
                            return r.name
                        f = [(flat(i, k), flat(i, v)) for k, v in r.pairs]
                        ref = [(k, ('Plus', v) if isinstance(v, int) else ('Mult', v)) for k, v in made.items()]
                        return 'rule' if sorted(map(repr, f)) == sorted(map(repr, ref)) else 'another rule'
                    if g == 'Got':
                        g = 'Got ' + rname(i.strip(got.args[0]))
                    out.append((g == name, f'answers {g}, expected {name}'))
                    out.append((len(past) == len(want) and T.land(*[a[0] == b[0] and same(a[1], b[1]) for a, b in zip(past, want)]),
                                f'past configurations: {past}, expected {want}'))
                    if not isinstance(p.f.get('rules'), RMap):
                        raise Undecided('rules')
                    stored = []
                    for s, entries in p.f['rules'].pairs:
                        for e in i.strip(entries).items:
                            m, r = i.strip(e)
                            stored.append((flat(i, s), flat(i, m), rname(i.strip(r))))
                    if msig is None:
                        out.append((len(stored) == len(rules), f'rules stored: {stored}, expected none'))
                    else:
                        wantm = (flat(i, w.sigobj(msig[0])), msig[1])
                        out.append((len(stored) == 1 and stored[0][2] == 'rule'
                                    and T.land(same(stored[0][0], (st, sig[0])), same(stored[0][1], wantm)),
                                    f'rule stored for {[(s, m) for s, m, _ in stored]}, expected {(st, sig[0])}, {wantm}'))
                    if first == 'new':
                        cf = p.f['configs'].pairs if isinstance(p.f.get('configs'), RMap) else []
                        out.append((len(cf) == 1 and same(flat(i, cf[0][0]), flat(i, w.sigobj(sig))),
                                    f'configurations kept under {[flat(i, k) for k, _ in cf]}'))
                    return out
                run(rep, 'rs:try_rule', f'{P}::try_rule', body, max_paths=2000)


def past(rep):
    """Predicted intervals: what the last five visits say, by arithmetic or geometric growth."""
    rule, where = 'rs:next_deltas', 'src/prover.rs::PastConfigs::next_deltas'
    # visits between equal intervals are predicted to go on so
    for gap in (1, 3):
        def body(i):
            c0, st = T.var('n.cycle'), T.var('s.st')
            i.assume(T.le(1, c0))
            pc = i.strip(i.run('prover::PastConfigs::new', [st, c0]))
            out = []
            for k in range(1, 6):
                got = opt(i, i.method(pc, 'next_deltas', st, T.add(c0, k * gap)))
                exp = None if k < 4 else (gap, gap, gap)
                g = None if got is None else tuple(i.strip(x) for x in got)
                ok = (g is None) == (exp is None) and (g is None or same(g, exp))
                out.append((ok, f'after visits {gap} cycles apart, visit {k} predicts {g}, expected {exp}'))
            return out
        run(rep, rule, where, body)

    # any five visits: a prediction extends them by one rule i, p: next = i * last + p + k * diff
    def body2(i):
        vs = [T.var(f'n.visit{k}') for k in range(5)]
        for a, b in zip(vs, vs[1:]):
            i.assume(T.lt(a, b))
        i.assume(T.le(1, vs[0]))
        st = T.var('s.st')
        pc = i.strip(i.run('prover::PastConfigs::new', [st, vs[0]]))
        got = None
        for v in vs[1:]:
            got = opt(i, i.method(pc, 'next_deltas', st, v))
        if got is None:
            return [(True, '')]
        g = [i.strip(x) for x in got]
        e, d, c, b, a = vs
        n1 = T.add(a, g[0])
        n2 = T.add(n1, g[1])
        n3 = T.add(n2, g[2])
        seq = [e, d, c, b, a, n1, n2, n3]

        def lin(m):
            # remainders seq[k+1] - m * seq[k] form an arithmetic progression
            r = [T.sub(y, T.mul(m, x)) for x, y in zip(seq, seq[1:])]
            return T.land(*[T.eq(T.sub(T.add(r[k], r[k + 2]), T.mul(2, r[k + 1])), 0) for k in range(len(r) - 2)])
        return [(T.land(*[T.le(0, x) for x in g]), f'intervals {g} predicted'),
                (T.lor(*[lin(m) for m in (1, 2, 3, 4)]), f'visits {vs} predict {g}')]
    run(rep, rule, where, body2)

    # visits at concrete times with one of them anywhere in its gap
    seqs = [[10 * k for k in range(1, 6)], [3 * 2 ** k for k in range(1, 6)], [k * k + 10 * k for k in range(1, 6)],
            [(3 ** k - 1) * 5 for k in range(1, 6)], [2 ** k * 7 + k for k in range(1, 6)], [4 ** k for k in range(1, 6)]]
    for vs0 in seqs:
        for free in range(4):
            def body4(i):
                vs = list(vs0)
                # settle the free visit first, so that all is concrete on each path
                lo, hi = (vs[free - 1] + 1 if free else 1), vs[free + 1]
                cand = sorted({x for x in (lo, hi - 1, vs[free] - 2, vs[free] - 1, vs[free], vs[free] + 1, vs[free] + 3) if lo <= x < hi})
                vs[free] = cand[i.choose_n(len(cand), 'visit')]
                pc = i.strip(i.run('prover::PastConfigs::new', [0, vs[0]]))
                for v in vs[1:]:
                    got = opt(i, i.method(pc, 'next_deltas', 0, v))
                exp = None
                for m in (1, 2, 3, 4):
                    r = [y - m * x for x, y in zip(vs, vs[1:])]
                    d = r[3] - r[2]
                    if r[2] - r[1] == d == r[1] - r[0]:
                        exp, last = [], vs[4]
                        for k in (1, 2, 3):
                            exp.append(m * last + r[3] + k * d - last)
                            last += exp[-1]
                        if min(exp) < 0:
                            exp = None
                        break
                g = None if got is None else [i.strip(x) for x in got]
                return [(g == exp, f'visits {vs} predict {g}, expected {exp}')]
            run(rep, rule, where, body4)

    def body3(i):
        """Forgetting one state leaves the visits of another."""
        s1, s2 = T.var('s.a'), T.var('s.b')
        i.assume(T.ne(s1, s2))
        pc = i.strip(i.run('prover::PastConfigs::new', [s1, 10]))
        outs = []
        for k in (1, 2, 3):
            outs.append(opt(i, i.method(pc, 'next_deltas', s1, 10 + 10 * k)))
            i.method(pc, 'next_deltas', s2, 5 * k)
        i.method(pc, 'delete_configs', s2)
        got = opt(i, i.method(pc, 'next_deltas', s1, 50))
        return [(all(x is None for x in outs), 'predicts from fewer than five visits'),
                (got is not None and same(tuple(got), (10, 10, 10)), f'five visits ten cycles apart predict {got}, with another state forgotten')]
    run(rep, rule, where, body3)


def check(rep):
    matching(rep)
    simulating(rep)
    trying(rep)
    past(rep)
